"""Prints the table of planted bugs for DESIGN.md from a log of 'id PROP rc=N ..s' lines."""
import json, os, re, sys

root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
got = {}
for f in sys.argv[1:]:
    for line in open(f):
        m = re.match(r"(\S+) (C\d+) rc=(\d+) (\d+)s", line)
        if m:
            got.setdefault(m[1], {})[m[2]] = (int(m[3]), int(m[4]))
print("| change | needs | caught by (quick, seed 1) |\n|---|---|---|")
for d in sorted(os.listdir(root)):
    meta = json.load(open(os.path.join(root, d, "meta.json")))
    res = got.get(d, {})
    by = ", ".join(p for p, (rc, _) in sorted(res.items()) if rc == 1) or ("none" if res else "not run")
    print(f"| {d} | {meta['needs'].replace('|', '/')[:230]} | {by} |")
