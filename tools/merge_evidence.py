#!/usr/bin/env python3
"""Adds the run of the first build to the evidence file of the second one."""
import json
import sys

a, b = (json.load(open(p)) for p in sys.argv[1:3])
c = b['coverage']
for k in ('evaluations', 'oracle_evaluations', 'discarded_runs', 'simulated_time_steps', 'distinct_nontrivial'):
    c[k] = c.get(k, 0) + a['coverage'].get(k, 0)
for k in ('faults_injected', 'situations_reached'):
    for n, v in a['coverage'].get(k, {}).items():
        c[k][n] = c[k].get(n, 0) + v
c['samples'] = a['coverage'].get('samples', []) + c.get('samples', [])
c['build'] = a['coverage']['build'] + ' and ' + c['build']
b['wall_s'] += a['wall_s']
c['seeds_per_hour'] = int(c['evaluations'] / max(b['wall_s'], 0.001) * 3600)
b['violations'] = b.get('violations', 0) + a.get('violations', 0)
json.dump(b, open(sys.argv[2], 'w'), indent=2)
