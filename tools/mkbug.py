#!/opt/venv/bin/python
"""mkbug.py FILE: reads bug descriptions (python list of dicts: id, property, file, edits [(old, new)], needs, breaks, demo) and writes seeded/ID/."""
import json
import os
import subprocess
import sys
import difflib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns["BUGS"]:
    d = os.path.join(HERE, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    out = ""
    files = {}
    for e in b["edits"]:
        f, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
        s = files.get(f) or open("/repo/" + f).read()
        assert s.count(old) == 1, (b["id"], s.count(old), old)
        files[f] = s.replace(old, new)
    for f, s in files.items():
        a = open("/repo/" + f).read()
        out += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(a.splitlines(True), s.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.py", "w").write("import sys\nsys.path.insert(0, '.')\nimport warnings\nwarnings.filterwarnings('ignore')\n" + b["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nPY=/opt/venv/bin/python\nexec "$PY" "$(dirname "$0")/demo.py"\n')
