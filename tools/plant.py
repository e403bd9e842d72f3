#!/usr/bin/env python3
"""Plants a bug described by a spec file in a scratch copy of /repo and confirms it.

usage: plant.py SPEC.py [--checks C01,C02] [--no-tests]
The spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (source).
Writes /verif/seeded/<ID>/ once the bug is confirmed: builds, passes the stable tests, the demo
passes on /repo and fails with the patch.
"""
import json
import os
import shutil
import subprocess
import sys
import time

SPEC = sys.argv[1]
ns = {}
exec(open(SPEC).read(), ns)
ID = ns["ID"]
work = f"/tmp/w/{ID}"
PY = "/opt/venv/bin/python"


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


shutil.rmtree(work, ignore_errors=True)
os.makedirs("/tmp/w", exist_ok=True)
run(["cp", "-a", "/repo", work])
if "--wip" in sys.argv:  # counts what is not committed yet as part of the base
    run(["git", "-C", work, "commit", "-qam", "wip"])
base = run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]).stdout.split()[0]
for file, old, new in ns["EDITS"]:
    p = f"{work}/{file}"
    s = open(p).read()
    if s.count(old) != 1:
        sys.exit(f"{file}: {s.count(old)} matches of {old!r}")
    open(p, "w").write(s.replace(old, new))
diff = run(["git", "-C", work, "diff"]).stdout
cur = None
orig = []
for line in diff.splitlines():
    if line.startswith("--- a/"):
        cur = run(["git", "-C", "/repo", "show", f"{base}:{line[6:]}"]).stdout.splitlines()
    elif line.startswith("-") and not line.startswith("---"):
        orig.append(line[1:] in cur)
print("removed lines original:", orig)
out = f"/verif/seeded/{ID}"
stage = f"/tmp/w/{ID}.seed"
shutil.rmtree(stage, ignore_errors=True)
os.makedirs(stage)
open(f"{stage}/patch.diff", "w").write(diff)
open(f"{stage}/demo.py", "w").write(ns["DEMO"].lstrip())
open(f"{stage}/demo.sh", "w").write(
    "#!/bin/bash\n"
    "export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\n"
    'PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
)
os.chmod(f"{stage}/demo.sh", 0o755)
json.dump(
    {"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
    open(f"{stage}/meta.json", "w"),
    indent=1,
)
t = time.time()
good = run(["bash", f"{stage}/demo.sh"], cwd="/repo")
bad = run(["bash", f"{stage}/demo.sh"], cwd=work)
print(f"demo clean rc {good.returncode} patched rc {bad.returncode} ({time.time()-t:.0f}s)")
if good.returncode:
    print(good.stdout[-1500:], good.stderr[-3000:])
print("patched says:", (bad.stdout + bad.stderr)[-400:])
ok = good.returncode == 0 and bad.returncode != 0
if ok and "--no-tests" not in sys.argv:
    env = dict(os.environ, PYTHONPATH=work, JAX_PLATFORMS="cpu", PYTHONHASHSEED="0")
    r = run(
        [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-n", "8",
         "--randomly-seed=0", "--randomly-dont-reorganize", "tests"], cwd=work, env=env)
    tail = r.stdout.strip().splitlines()[-6:]
    print("tests:", *tail, sep="\n  ")
    ok = r.returncode == 0
if ok:
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(stage, out)
    print("PLANTED", out)
i = sys.argv.index("--checks") if "--checks" in sys.argv else None
for c in (sys.argv[i + 1].split(",") if i else []):
    t = time.time()
    r = run([PY, "/verif/check.py", c, "--seed", "1"], cwd="/verif",
            env=dict(os.environ, HORQ_REPO=work, VERIF_TIER="quick", VERIF_SEED="1"))
    hits = [x for x in r.stdout.splitlines() if "VIOLATION" in x][:2]
    print(f"check {c}: rc {r.returncode} {time.time()-t:.0f}s {hits}")
