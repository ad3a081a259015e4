#!/usr/bin/env python3
"""devtools/mut.py [PROP...]: apply each textual mutation in mutations.py to
/repo (one at a time), run the property's check, undo, and report the verdict.
expect: 1 = must be reported, 0 = behaviour preserving, must stay quiet."""
import subprocess, sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
M = []
def mut(prop, file, old, new, expect=1, count=1):
    M.append((prop, file, old, new, expect, count))
exec(open(os.path.join(HERE, "mutations.py")).read())
want = sys.argv[1:]
bad = 0
for k, (prop, file, old, new, expect, count) in enumerate(M):
    if want and prop not in want and str(k) not in want:
        continue
    path = os.environ.get("VERIF_REPO", "/repo") + "/" + file
    src = open(path).read()
    if src.count(old) < 1:
        print("%d %s: MUTATION DOES NOT APPLY: %r" % (k, prop, old[:60])); bad += 1
        continue
    try:
        open(path, "w").write(src.replace(old, new, count))
        p = subprocess.run([sys.executable, HERE + "/../checks/run.py", prop], capture_output=True, text=True)
    finally:
        open(path, "w").write(src)
    ok = p.returncode == expect
    first = p.stdout.strip().split("\n")[0]
    print("%s %d %s rc=%d %s" % ("ok " if ok else "BAD", k, prop, p.returncode, first[:150]))
    if not ok:
        bad += 1
        print("     ", new.strip()[:100].replace("\n", " "), p.stderr[-300:])
sys.exit(1 if bad else 0)
