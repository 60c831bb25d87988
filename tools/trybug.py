#!/opt/venv/bin/python
"""trybug.py ID...: each planted change of seeded/ID in a scratch copy: applies, stable tests pass, demo discriminates, and its check catches it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))


def tests(copy):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", LC_ALL="C.UTF-8", TZ="UTC",
               SCIKIT_MINE_DATA=copy + "_data")
    x = copy + "_junit.xml"
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "--doctest-modules",
                    "-o", "junit_family=xunit2", "--junitxml", x, "skmine"], cwd=copy, env=env, capture_output=True)
    ok = set()
    for tc in ET.parse(x).iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            ok.add((tc.get("classname"), tc.get("name")))
    return ok


def main(ids):
    ref = None
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        tmp = tempfile.mkdtemp(prefix="bug_")
        try:
            clean, bad = tmp + "/clean", tmp + "/bad"
            for c in (clean, bad):
                subprocess.run(["cp", "-a", "/repo", c], check=True)
            r = subprocess.run(["git", "-C", bad, "apply", os.path.join(d, "patch.diff")], capture_output=True, text=True)
            if r.returncode:
                print(i, "DOES NOT APPLY", r.stderr)
                continue
            if ref is None:
                ref = tests(clean)
            lost = ref - tests(bad)
            demo = []
            for c in (clean, bad):
                p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=c, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=c))
                demo.append(p.returncode)
                out = p.stdout + p.stderr
            props = [meta["property"]] + [a for a in meta.get("also", [])]
            if os.environ.get("ALL"):
                props = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
            res = []
            for q in props:
                p = subprocess.run([PY, os.path.join(HERE, "run.py"), "--prop", q] + (["--shrink-s", "5"]), capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=bad, VERIF_EVIDENCE="0"))
                lines = [l for l in p.stdout.splitlines() if l.startswith(("failure", "sub-check"))]
                res.append("%s:%s %s" % (q, {0: "MISSED", 1: "caught"}.get(p.returncode, "ERROR"), " | ".join(lines)[:160] if p.returncode == 1 else p.stderr[-300:]))
            print(i, "tests lost: %s" % (sorted(lost)[:3] if lost else "none"), "demo:", demo, "OK" if demo[0] == 0 and demo[1] and not lost else "INVALID " + out[-400:], "\n    ", "\n     ".join(res), flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main(sys.argv[1:])
