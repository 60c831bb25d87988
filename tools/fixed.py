#!/opt/venv/bin/python
"""Writes known_findings.jsonl: the repaired defects (from the fix: commits of /repo) and KNOWN, the recorded ones."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {"LCMMax.transform": "C02", "SLIM.transform(out": "C06", "SLIM.fit rejected": "C04", "SLIM.evaluate/update": "C07", "SLIM kept supports": "C07",
        "SlimClassifier ignored": "C08", "SLIMVectorizer.fit failed": "C09", "SLIMVectorizer returned": "C09", "SlimClassifier predicted": "C08",
        "emerging patterns below": "C10", "mbdllborder kept": "C10", "border_diff": "C10", "MDLPDiscretizer.transform": "C11", "MDLPDiscretizer found": "C11",
        "intersect2d": "C12", "PeriodicPatternMiner.fit failed": "C15", "PeriodicPatternMiner missed": "C19", "transform, get_residuals": "C16",
        "reconstruct and get_residuals": "C15", "get_residuals of selected": "C15", "export_patterns failed": "C17", "imported patterns could": "C17",
        "import_patterns attached": "C17", "shift corrections": "C16", "patterns of an integer": "C16", "PeriodicPatternMiner misread": "C15",
        "concatenated periodic": "C21"}
exec(open(os.path.join(HERE, "tools", "fixed_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "fixed_more.py")) else None
KNOWN = globals().get("KNOWN", [])
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
with open(os.path.join(HERE, "known_findings.jsonl"), "w") as fh:
    for l in out.splitlines():
        h, s = l.split(" ", 1)
        if not s.startswith("fix: "):
            continue
        s = s[5:]
        p = [v for k, v in PROP.items() if s.startswith(k)]
        assert len(p) == 1, s
        fh.write(json.dumps({"status": "fixed", "property": p[0], "commit": h, "what": s, "line": "fixed: property=%s %s %s" % (p[0], h, s)}) + "\n")
    for k in KNOWN:
        fh.write(json.dumps(k) + "\n")
