#!/usr/bin/env python3
"""usage: mutate.py OUT N [SEED [FILE...]]: small changes of the sources, each tried in a scratch copy: does it build, do the
stable tests pass, and which check reports it? Survivors are listed with their line, to be looked at by hand.
A tool for developing the checks; no check uses it."""
import os, random, re, shutil, subprocess, sys, json, time

OUT, N = sys.argv[1], int(sys.argv[2])
SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1
FILES = sys.argv[4:] or """src/ast/encoding.rs src/ast/id.rs src/ast/iter.rs src/ast/ty.rs src/typelib/transpile.rs src/typelib/compile.rs src/ast/translate.rs src/ast/path.rs
src/typelib/id.rs src/typelib/serialize.rs src/typelib/symbolic.rs src/typelib/translate.rs src/typelib/type_lib.rs
src/typesys/id.rs src/typesys/iter.rs src/typesys/symbols.rs src/typesys/translate.rs src/typesys/type_sys.rs
src/value/decode.rs src/value/encode.rs""".split()
WORK = os.environ.get("MUT", "/tmp/mut")
PROPS = os.environ.get("PROPS", "C02 C01 C14 C03 C04 C05 C06 C09 C11 C10 C12 C07 C08 C13").split()
SECS = os.environ.get("SECS", "5")
JOBS = os.environ.get("JOBS", "4")
REPO, SIM = WORK + "/repo", WORK + "/sim"

SUBS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b([2-9]|\d\d+)\b", "0"), (r" \+ ", " - "), (r" - ", " + "),
    (r"\.\.=", ".."), (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"), (r"\.is_empty\(\)", ".len() == 1"),
    (r"\.first\(\)", ".last()"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
    (r"\.rev\(\)", ""), (r"\.min\b", ".max"), (r"\.max\b", ".min"), (r"::U8\b", "::U16"), (r"::U16\b", "::U8"),
    (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\bu8::MAX", "0xFEu8"), (r"\bu16::MAX", "0xFFFEu16"),
    (r"write_struct", "write_tuple"), (r"\bOk\(\(\)\)", "return Ok(())"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
    (r"&first\b", "&rest"), (r"\bkey\b", "value"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\?;$", ".ok();"),
    (r"\.unwrap_or\(", ".map(|_x| _x).unwrap_or("), (r"\.filter\(", ".skip_while("), (r"\.saturating_add\(1\)", ""),
    (r"I32", "U32"), (r"\bi16\b", "u16"), (r"\bu32\b", "i32"), (r"=> self\.", "=> (); self."),
]
STATEMENT = re.compile(r"^\s+(?!let\b|return\b|use\b|pub\b|\}|#|//|fn\b|type\b|const\b|impl\b|mod\b)[a-z_\*][^{}]*;\s*$")

def candidates():
    out = []
    for f in FILES:
        p = os.path.join(REPO, f)
        if not os.path.exists(p):
            continue
        lines = open(p).read().split("\n")
        skip = False
        for i, l in enumerate(lines):
            if re.match(r"^(#\[cfg\(test\)\]|mod tests?)", l):
                break
            s = l.strip()
            if re.search(r"impl.*Display for", l):
                skip = True
            if skip:
                if l == "}":
                    skip = False
                continue
            if not s or s.startswith(("//", "#[", "use ", "#!", "*", "extern")) or "u8::MAX as usize" in s or "confinement" in s:
                continue
            for pat, rep in SUBS:
                for m in re.finditer(pat, l):
                    new = l[:m.start()] + rep + l[m.end():]
                    if new != l:
                        out.append((f, i, l, new))
            if STATEMENT.match(l):
                out.append((f, i, l, re.match(r"^\s*", l).group(0) + "/* " + s.replace("*/", "") + " */"))
    return out

def sh(cmd, cwd, timeout):
    try:
        r = subprocess.run(cmd, cwd=cwd, shell=True, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)[-500:]

def setup():
    os.makedirs(WORK, exist_ok=True)
    if not os.path.exists(REPO):
        sh(f"git clone -q /repo {REPO}", "/", 60)
    shutil.copytree("/verif/sim", SIM, ignore=shutil.ignore_patterns("target"), dirs_exist_ok=True)
    for d in ["tools", "known_findings.json", "env.sh"]:
        sh(f"cp -a /verif/{d} {WORK}/", "/", 60)
    t = open(SIM + "/Cargo.toml").read().replace('"/repo"', f'"{REPO}"')
    # what matters here is the time to build
    a, b = t.split("[profile.checked]", 1)
    t = a + "[profile.checked]" + b.replace("opt-level = 2", "opt-level = 1", 1).replace('debug = "line-tables-only"', "debug = 0", 1).replace(
        "incremental = false", "incremental = true", 1).replace("codegen-units = 16", "codegen-units = 64", 1)
    open(SIM + "/Cargo.toml", "w").write(t)

setup()
cands = candidates()
random.Random(SEED).shuffle(cands)
print(len(cands), "candidates", flush=True)
done = set()
if os.path.exists(OUT):
    done = {tuple(json.loads(l)["at"]) for l in open(OUT)}
log = open(OUT, "a")
n = 0
for f, i, old, new in cands:
    if n >= N:
        break
    if (f, i, new) in done:
        continue
    n += 1
    p = os.path.join(REPO, f)
    src = open(p).read()
    lines = src.split("\n")
    lines[i] = new
    open(p, "w").write("\n".join(lines))
    rec = {"at": [f, i, new], "old": old.strip(), "new": new.strip()}
    t0 = time.time()
    try:
        c, o = sh(f"RUSTC_WRAPPER= cargo build --offline -q --profile checked", SIM, 600)
        if c:
            rec["result"] = "no build"
        else:
            c, o = sh("cargo test --offline --all-features -q -- --test-threads 4", REPO, 300)
            if c:
                rec["result"] = "tests fail"
            else:
                rec["result"] = "SURVIVED"
                for prop in PROPS:
                    c, o = sh(f"STSIM_BUDGET=0 STSIM_ROOT={WORK} {SIM}/target/checked/stsim run --prop {prop} --tier quick --seed 1 --secs {SECS} --jobs {JOBS}", WORK, 300)
                    if c:
                        rec["result"] = "caught" if "VIOLATION" in o else f"broken exit {c}"
                        rec["by"] = prop
                        rec["what"] = next((x[:200] for x in o.split("\n") if x.startswith("found by")), o[-200:])
                        break
    finally:
        open(p, "w").write(src)
    rec["secs"] = round(time.time() - t0)
    log.write(json.dumps(rec) + "\n")
    log.flush()
