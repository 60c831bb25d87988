#!/opt/venv/bin/python
"""mutate.py OUT.jsonl N SEED [file-substring...]: small syntactic changes of scikit-mine, made in scratch copies; those that the repository's
tests let through are given to the checks of the properties anchored in the file.  Prints the ones no check reports.  A tool of development: no check uses it."""
import ast
import concurrent.futures as cf
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import warnings
warnings.filterwarnings("ignore")
import tempfile
import threading
import queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CHECKS = [("itemsets/lcm.py", "C01 C02 C03"), ("itemsets/slim.py", "C05 C07 C06 C04"), ("slim_classifier", "C08"), ("slim_vectorizer", "C09"), ("emerging", "C10"), ("preprocessing", "C11"),
          ("skmine/utils.py", "C12 C13 C02 C10 C11"), ("base.py", "C13 C01 C04"), ("callbacks", "C14"), ("periodic/pattern.py", "C20 C21 C16 C18"), ("periodic/class_patterns", "C15 C16 C17 C19"), ("periodic/pattern_collection", "C15 C16 C18"),
          ("periodic/data_sequence", "C15 C18 C19 C21"), ("periodic/", "C21 C18 C20 C15 C16"), ("graphmdl/", "C22 C23 C24 C25 C26"), ("datasets/_s", "C28"), ("datasets/utils", "C28"), ("datasets/", "C27")]
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}


def mutants(tree):
    """Yields (line, description, function that changes a copy of the tree at the n-th node)."""
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for k, o in enumerate(n.ops):
                for r in CMP.get(type(o), []):
                    yield i, ln, "cmp", (k, r)
        elif isinstance(n, ast.BinOp):
            for r in BIN.get(type(n.op), []):
                yield i, ln, "bin", r
        elif isinstance(n, ast.AugAssign):
            for r in BIN.get(type(n.op), []):
                yield i, ln, "bin", r
        elif isinstance(n, ast.BoolOp):
            yield i, ln, "bool", None
            for k in range(len(n.values)):
                yield i, ln, "drop", k
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield i, ln, "unary", None
        elif isinstance(n, ast.Constant) and type(n.value) in (int, bool, float) and ln:
            yield i, ln, "const", (not n.value) if type(n.value) is bool else n.value + 1
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield i, ln, "test", True
            yield i, ln, "test", False
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                yield i, ln, "lower", None
            if n.upper is not None:
                yield i, ln, "upper", None
        elif isinstance(n, ast.Call):
            f = n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, "attr", "")
            if f in ("sorted", "set", "list", "reversed", "copy", "deepcopy", "abs", "int", "frozenset") and len(n.args) == 1:
                yield i, ln, "unwrap", None
            if f in ("min", "max", "any", "all"):
                yield i, ln, "swapfn", {"min": "max", "max": "min", "any": "all", "all": "any"}[f]
            if n.keywords:
                for k in range(len(n.keywords)):
                    if n.keywords[k].arg:
                        yield i, ln, "nokw", k
        elif isinstance(n, (ast.Break, ast.Continue)):
            yield i, ln, "flow", None
        elif isinstance(n, ast.comprehension) and n.ifs:
            yield i, n.ifs[0].lineno, "noif", None
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and id(n) not in docs and not isinstance(getattr(n, "value", None), ast.Constant):
            yield i, ln, "delete", None
        if isinstance(n, ast.AugAssign):
            yield i, ln, "delete", None


def apply(tree, i, kind, arg):
    n = list(ast.walk(tree))[i]
    if kind == "cmp":
        n.ops[arg[0]] = arg[1]()
    elif kind == "bin":
        n.op = arg()
    elif kind == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "drop":
        del n.values[arg]
        if len(n.values) == 1:
            n.values.append(copy.deepcopy(n.values[0]))
    elif kind == "unary":
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else ast.UAdd()
        if isinstance(n.operand, (ast.Compare, ast.Call, ast.Name, ast.Attribute, ast.BoolOp)):
            replace(tree, n, n.operand)
    elif kind == "const":
        n.value = arg
    elif kind == "test":
        n.test = ast.copy_location(ast.Constant(arg), n.test)
    elif kind in ("lower", "upper"):
        setattr(n, kind, None)
    elif kind == "unwrap":
        replace(tree, n, n.args[0])
    elif kind == "swapfn":
        if isinstance(n.func, ast.Name):
            n.func.id = arg
        else:
            n.func.attr = arg
    elif kind == "nokw":
        del n.keywords[arg]
    elif kind == "flow":
        replace(tree, n, ast.copy_location(ast.Pass(), n))
    elif kind == "noif":
        n.ifs = []
    elif kind == "delete":
        replace(tree, n, ast.copy_location(ast.Pass(), n))
    return ast.unparse(ast.fix_missing_locations(tree))


def replace(tree, old, new):
    for p in ast.walk(tree):
        for f, v in ast.iter_fields(p):
            if v is old:
                setattr(p, f, new)
                return
            if isinstance(v, list):
                for k, x in enumerate(v):
                    if x is old:
                        v[k] = new
                        return


def env(extra):
    return dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", LC_ALL="C.UTF-8", TZ="UTC", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", **extra)


def tests(copy_, f):
    pkg = f.split("/")[1]
    target = "skmine" if pkg.endswith(".py") else "skmine/" + pkg
    ts = [target] + (["skmine/tests", "skmine/feature_extraction", "skmine/emerging"] if pkg == "itemsets" else [])
    r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "--doctest-modules"] + DESEL + ts, cwd=copy_, env=env({"SCIKIT_MINE_DATA": copy_ + "_data"}), capture_output=True, text=True)
    return r.returncode == 0


DESEL = []


def main():
    out, n, seed, subs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    files = subprocess.run(["git", "-C", "/repo", "ls-files", "skmine/*.py"], capture_output=True, text=True).stdout.split()
    files = [f for f in files if "/test" not in f and not f.endswith("__init__.py") and "conf.py" not in f and (not subs or any(s in f for s in subs))]
    allm = []
    for f in files:
        src = open("/repo/" + f).read()
        tree = ast.parse(src)
        for i, ln, k, a in mutants(tree):
            allm.append((f, i, ln, k, a))
    random.Random(seed).shuffle(allm)
    print(len(allm), "mutants in all", flush=True)
    allm = allm[:n]
    tmp = tempfile.mkdtemp(prefix="mut_")
    try:
        copies = queue.Queue()
        for k in range(8):
            subprocess.run(["cp", "-a", "/repo", "%s/c%d" % (tmp, k)], check=True)
            copies.put("%s/c%d" % (tmp, k))
        r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "--doctest-modules", "skmine", "-rfE"], cwd=tmp + "/c0", env=env({"SCIKIT_MINE_DATA": tmp + "/data"}), capture_output=True, text=True)
        for l in r.stdout.splitlines():
            if l.startswith(("FAILED ", "ERROR ")):
                DESEL.append("--deselect=" + l.split(" ")[1])
        print(len(DESEL), "tests that fail anyway", flush=True)

        def phase1(m):
            f, i, ln, k, a = m
            src = open("/repo/" + f).read()
            try:
                new = apply(ast.parse(src), i, k, a)
                compile(new, f, "exec")
            except Exception:
                return None
            if new == ast.unparse(ast.parse(src)):
                return None
            c = copies.get()
            try:
                open(c + "/" + f, "w").write(new)
                ok = tests(c, f)
            finally:
                open(c + "/" + f, "w").write(src)
                copies.put(c)
            return (m, new) if ok else None

        with cf.ThreadPoolExecutor(8) as ex:
            alive = [x for x in ex.map(phase1, allm) if x]
        print(len(alive), "of", len(allm), "pass the tests", flush=True)
        lock = threading.Lock()

        def phase2(x):
            (f, i, ln, k, a), new = x
            c = copies.get()
            src = open("/repo/" + f).read()
            res = "MISSED"
            try:
                open(c + "/" + f, "w").write(new)
                for key, ps in CHECKS:
                    if key in f:
                        for p in ps.split():
                            r = subprocess.run([PY, HERE + "/run.py", "--prop", p, "--shrink-s", "1"], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=c, VERIF_EVIDENCE="0", VERIF_CASE_CPU="30"))
                            if r.returncode:
                                why = [l for l in r.stdout.splitlines() if l.startswith(("sub-check", "failure"))]
                                res = "%s:%d %s" % (p, r.returncode, " ".join(why)[:200] if r.returncode == 1 else r.stderr[-300:])
                                break
                        break
            finally:
                open(c + "/" + f, "w").write(src)
                copies.put(c)
            import difflib
            d = [l for l in difflib.unified_diff(ast.unparse(ast.parse(src)).splitlines(), new.splitlines(), lineterm="", n=0) if l[0] in "+-" and not l.startswith(("+++", "---"))]
            with lock:
                with open(out, "a") as fh:
                    fh.write(json.dumps({"file": f, "line": ln, "kind": k, "res": res, "diff": d}) + "\n")
                print(("MISSED " if res == "MISSED" else "caught ") + "%s:%d %s %s" % (f, ln, k, "" if res == "MISSED" else res[:80]), flush=True)
                if res == "MISSED":
                    print("      " + "\n      ".join(x.strip() for x in d[:8]), flush=True)

        with cf.ThreadPoolExecutor(3) as ex:
            list(ex.map(phase2, alive))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
