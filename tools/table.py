"""table.py LOG...   (development aid) the detection table of DESIGN.md from
the output of tools/bugs.py."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for f in sys.argv[1:]:
    for l in open(f, encoding="utf-8", errors="replace"):
        m = re.match(r"(\S+) (C\d\d) (CAUGHT|missed)(?: seed (\d+) run (\d+): ([\w:.-]+))?", l)
        if m:
            got[m[1]] = (m[2], f"run {m[5]}, `{m[6].rstrip(':')}`" if m[3] == "CAUGHT" else "missed")
print("| planted bug | what it breaks | found by |\n|---|---|---|")
for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    meta = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
    c, how = got.get(b, (meta["property"], "?"))
    print(f"| {b} | {' '.join(meta['what_it_breaks'].split())} | {c}, {how} |")
