"""Lines of horqrux that no run of the given checks executed: cover.py RUNS C01 C02 ..."""
import ast, glob, json, os, subprocess, sys, tempfile

repo = os.environ.get("HORQ_REPO", "/repo")
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seen = set()
for prop in sys.argv[2:]:
    with tempfile.TemporaryDirectory() as d:
        subprocess.run(["/opt/venv/bin/python", "check.py", prop, "--runs", sys.argv[1]], cwd=root, env=dict(os.environ, HORQ_COV=d), stdout=subprocess.DEVNULL)
        for f in glob.glob(d + "/*.json"):
            seen |= {tuple(x) for x in json.load(open(f))}
for f in sorted(glob.glob(repo + "/horqrux/**/*.py", recursive=True)):
    def lines(code):
        for c in code.co_consts:
            if hasattr(c, "co_lines"):
                yield from {l for _, _, l in c.co_lines() if l and l != c.co_firstlineno}
                yield from lines(c)
    src = open(f).read()
    miss = sorted(l for l in set(lines(compile(src, f, "exec"))) if (f, l) not in seen)
    if miss:
        text = src.splitlines()
        print(f[len(repo) + 1:], len(miss))
        for l in miss:
            print(f"  {l:4} {text[l-1]}")
