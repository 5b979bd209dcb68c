"""Rewrites the catch table at the end of DESIGN.md from seeded/*/meta.json (which changes were missed at first is listed here)."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = set("D03-a D04-a E01-a G05-a P03-a P03-b V01-b A01-a D03-b D04-c E01-b K02-b P01-b G02-c M01-d K02-c T01-c D02-b P01-c S01-c P02-b A03-c G03-e V02-c T01-d Q02-e G08-b C01-d E01-d V03-c R02-f D05-e".split())
MARK = "## Planted changes and which check catches them\n"
d = open(HERE + "/DESIGN.md").read().split(MARK)[0].rstrip() + "\n\n" + MARK + """
Every change in `seeded/` is reported by the check of its own property (quick tier, seed 1). A star marks those the check missed
when they were planted; the check was then strengthened at the level of the property (more inputs, another observation), not for
the change. What was added is described with the property above. Written from the property text alone; each passes the stable tests
that can see the patched files.

| change | needs, in order to show |
|---|---|
"""
for p in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(p))
    m = json.load(open(p))
    d += f"| {i}{'*' if i in FIRST_MISSED else ''} | {m['needs'].replace('|', '/')} |\n"
open(HERE + "/DESIGN.md", "w").write(d)
