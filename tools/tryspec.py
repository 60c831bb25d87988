#!/opt/venv/bin/python
"""tryspec.py SPEC.py [ID...]: SPEC defines S = [(id, property, file, [(old, new), ...]), ...]; reports whether the tests pass and whether the check of the property reports it.
A tool of development: no check uses it."""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ns = {}
exec(open(sys.argv[1]).read(), ns)
ids = sys.argv[2:]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", LC_ALL="C.UTF-8", TZ="UTC", OMP_NUM_THREADS="1")
BASEFAIL = ["skmine/datasets/tests/test_fimi.py"]


def one(s):
    i, prop, f, edits = s
    tmp = tempfile.mkdtemp(prefix="ts_")
    try:
        c = tmp + "/c"
        subprocess.run(["cp", "-a", "/repo", c], check=True)
        for e in edits:
            ff, old, new = e if len(e) == 3 else (f,) + tuple(e)
            t = open(c + "/" + ff).read()
            if t.count(old) != 1:
                return i, "BAD EDIT %d x %r" % (t.count(old), old[:60])
            open(c + "/" + ff, "w").write(t.replace(old, new))
        r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=100", "--doctest-modules", "skmine"], cwd=c, env=dict(ENV, SCIKIT_MINE_DATA=tmp + "/d"), capture_output=True, text=True)
        last = r.stdout.strip().splitlines()[-1]
        t = "tests ok" if "324 passed" in last else "TESTS FAIL " + last + " ".join(l for l in r.stdout.splitlines() if l.startswith("FAILED"))[:0]
        out = [t]
        for p in prop.split():
            r = subprocess.run([PY, HERE + "/run.py", "--prop", p, "--shrink-s", "2"], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=c, VERIF_EVIDENCE="0"))
            why = [l for l in r.stdout.splitlines() if l.startswith(("sub-check", "failure"))]
            out.append("%s %s %s" % (p, {0: "*** MISSED", 1: "caught"}.get(r.returncode, "ERROR " + r.stderr[-300:]), " ".join(why)[:150] if r.returncode == 1 else ""))
            if r.returncode == 1:
                break
        return i, " | ".join(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


with cf.ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, [s for s in ns["S"] if not ids or s[0] in ids]):
        print(*r, flush=True)
