"""Lists for each planted bug whether it changes lines of the original repository."""
import os
import subprocess

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def git(*a):
    return subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True).stdout


base = git("rev-list", "--max-parents=0", "HEAD").split()[0]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    cur, orig = [], []
    with open(os.path.join(here, "seeded", d, "patch.diff")) as f:
        for line in f.read().splitlines():
            if line.startswith("--- a/"):
                cur = git("show", f"{base}:{line[6:]}").splitlines()
            elif line.startswith("-") and not line.startswith("---") and line[1:].strip():
                orig.append(line[1:] in cur)
    ok = subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(here, "seeded", d, "patch.diff")]).returncode == 0
    print(d, "original lines:", sum(orig), "of", len(orig), "" if ok else "DOES NOT APPLY")
