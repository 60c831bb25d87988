#!/opt/venv/bin/python
"""Writes DESIGN.md from design_head.md, the property table and design_tail.md."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(HERE, "tools", f)).read()
rules = json.load(open(os.path.join(HERE, "rules.json")))
man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
import re
subs = {}
for f in sorted(os.listdir(os.path.join(HERE, "props"))):
    if f.endswith(".py"):
        for m in re.finditer(r'@sub\("(C\d+)", "([^"]+)".*?quick=(\d+), thorough=(\d+)', open(os.path.join(HERE, "props", f)).read(), re.S):
            subs.setdefault(m[1], []).append("%s (%s / %s)" % (m[2], m[3], m[4]))
            subs.setdefault("f" + m[1], set()).add(f)
with open(os.path.join(HERE, "DESIGN.md"), "w") as fh:
    fh.write(rd("design_head.md"))
    for l in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(l)
        i = p["id"]
        fh.write("### %s %s\n\n%s\n\n" % (i, p["title"], p["statement"]))
        fh.write("- Generated: %s.\n- Decided by: %s. In evidence: %s.\n- Sub-checks (cases quick / thorough): %s; in %s.\n- Why tests cannot: %s\n\n" % (
            p["quantifier"]["text"], man[i]["technique"], rules[i], ", ".join(subs[i]), ", ".join("`props/%s`" % x for x in sorted(subs["f" + i])), p["why_tests_cant"]))
    fh.write(rd("design_tail.md"))
    fh.write("\n## Planted bugs and what catches them\n\nEach is one change in `seeded/`, confirmed with `tools/trybug.py` (applies, stable tests pass, its demo tells the trees apart). B07 and B19 were missed at first; the histories of many insertions and the logs with one occurrence off the unit were added for them. Besides these, some 400 changes written by hand, one line each, and those of `tools/mutate.py` were tried in scratch copies; the ones missed led to the sub-checks on large, wide, long and repeated inputs.\n\n| Bug | Property | Needs | Breaks | Caught by |\n|---|---|---|---|---|\n")
    caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
    for b in sorted(caught):
        m = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
        fh.write("| %s | %s | %s | %s | %s |\n" % (b, m["property"], m["needs"], m["what_it_breaks"], caught[b]))
