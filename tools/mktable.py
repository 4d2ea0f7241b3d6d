"""Rewrites the table of seeded changes at the end of DESIGN.md."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set("names-differ package-path type-is listener-appears prop-gone keys-alike layouts-alike list-setter loop-of-first "
             "nested-twice short-type-names props-of-none inject-copies".split())
rows = []
for name in sorted(os.listdir(os.path.join(here, "seeded"))):
    meta = json.load(open(os.path.join(here, "seeded", name, "meta.json")))
    rows.append((meta["property"], name, meta["needs"], "missed at first" if name in MISSED else ""))
rows.sort()
text = "\n".join(["| check | change | needs | |", "|---|---|---|---|"] + ["| " + " | ".join(r) + " |" for r in rows]) + "\n"
path = os.path.join(here, "DESIGN.md")
design = open(path).read()
marker = "<!-- seeds -->\n"
design = design.split(marker)[0] + marker + text
open(path, "w").write(design)
print(len(rows))
