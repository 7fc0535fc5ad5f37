#!/usr/bin/env python3
"""Writes MANIFEST.json: the checks, from the table below, and what is not claimed."""
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(root, 'tools', 'levels.json')))
checks = []
for pid, (technique, note) in NOTES.items():
    checks.append({
        'property': pid,
        'quick_cmd': f'bash /verif/check.sh {pid} quick',
        'thorough_cmd': f'bash /verif/check.sh {pid} thorough',
        'evidence_file': f'evidence/{pid}.json',
        'technique': technique,
        'level': 'exploration',
        'level_note': note,
    })
na = json.load(open(os.path.join(root, 'tools', 'not_applicable.json')))
claimed = {c['property'] for c in checks}
listed = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
for pid in listed:
    if pid not in claimed and pid not in {x['property'] for x in na}:
        na.append({'property': pid, 'reason': 'The check is not finished yet.'})
doc = {
    'version': 1,
    'setup_cmd': 'bash /verif/setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks in /repo: all seams are traits the code is generic over, symbols of the C '
             'library the standard library calls, and the global allocator.',
}
json.dump(doc, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
