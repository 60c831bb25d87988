import contextlib
import copy
import functools
import io
import random
from collections import Counter
from itertools import combinations

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vk.core import raises, require, same, sub, sut
from vk.gen import db, items, rows_of, wide_db

from skmine.base import BaseMiner
from skmine.callbacks import CallBacks, mdl_prints
from skmine.emerging import MBDLLBorder
from skmine.feature_extraction import SLIMVectorizer
from skmine.itemsets import LCM, SLIM
from skmine.itemsets.lcm import LCMMax
from skmine.itemsets.slim_classifier import SlimClassifier
from skmine.periodic import PeriodicPatternMiner
from skmine.preprocessing import MDLPDiscretizer
from skmine.utils import bron_kerbosch, filter_maximal, filter_minimal, intersect2d, sliding_window_view


# ------------------------------------------------------------------ C12 set utilities
@st.composite
def family(draw):
    m = draw(st.integers(1, 7))
    fam = draw(st.lists(st.integers(0, 2 ** m - 1), max_size=14, unique=True))
    return {"items": draw(items(m)), "fam": fam, "frozen": draw(st.booleans()), "series": draw(st.booleans())}


@sub("C12", "extremal-sets", family, quick=6000, thorough=30000)
def c_family(case):
    typ = frozenset if case["frozen"] else set
    sets = [typ(x for j, x in enumerate(case["items"]) if s >> j & 1) for s in case["fam"]]
    arg = pd.Series(sets, dtype=object) if case["series"] else list(sets)
    fs = [frozenset(s) for s in sets]
    for fn, rel, name in ((filter_maximal, lambda a, b: a < b, "maximal"), (filter_minimal, lambda a, b: b < a, "minimal")):
        with sut(name):
            got = [frozenset(x) for x in fn(arg)]
        want = [f for f in fs if not any(rel(f, g) for g in fs)]
        same(Counter(got), Counter(want), name + " sets")
    return len(fs) >= 3, ["size:%d" % min(len(fs), 6)]


@st.composite
def large_family(draw):
    return {"n": draw(st.integers(20, 400)), "m": draw(st.integers(6, 20)), "lo": draw(st.integers(1, 3)), "hi": draw(st.integers(3, 7)),
            "sub": draw(st.integers(0, 60)), "seed": draw(st.integers(0, 10 ** 6)), "frozen": draw(st.booleans()), "series": draw(st.booleans())}


@sub("C12", "extremal-sets-large", large_family, quick=2000, thorough=5000)
def c_family_large(case):
    """Hundreds of sets, many of the same size; some are made subsets of another."""
    rnd = random.Random(case["seed"])
    fam = [rnd.sample(range(case["m"]), rnd.randint(case["lo"], min(case["hi"], case["m"]))) for _ in range(case["n"])]
    fam += [rnd.sample(f, rnd.randint(0, len(f))) for f in rnd.sample(fam, min(len(fam), case["sub"]))]
    masks = {sum(1 << i for i in f) for f in fam}
    order = sorted(masks, key=lambda x: (x * 7919) % 10007)
    ok, lb = c_family({"items": list(range(case["m"])), "fam": order, "frozen": case["frozen"], "series": case["series"]})
    return ok, ["sets>100" if len(order) > 100 else "sets<=100"]


@st.composite
def graph(draw):
    n = draw(st.integers(0, 8))
    pairs = list(combinations(range(n), 2))
    dens = draw(st.sampled_from([0, 1, 2]))
    e = []
    for p in pairs:
        k = draw(st.integers(0, 3))
        if k <= dens:
            e.append(list(p))
    return {"n": n, "edges": e, "form": draw(st.sampled_from(["list", "set", "str"])), "order": list(draw(st.permutations(range(n))))}


def ref_cliques(n, edges):
    adj = {i: set() for i in range(n)}
    for a, b in edges:
        adj[a].add(b)
        adj[b].add(a)
    cl = [frozenset(c) for k in range(1, n + 1) for c in combinations(range(n), k) if all(b in adj[a] for a, b in combinations(c, 2))]
    s = set(cl)
    return {c for c in cl if not any(c | {x} in s for x in range(n) if x not in c)}, adj


@sub("C12", "cliques", graph, quick=6000, thorough=15000)
def c_cliques(case):
    want, adj = ref_cliques(case["n"], case["edges"])
    want = {c for c in want if len(c) > 2}
    nm = (lambda i: "ABCDEFGH"[i]) if case["form"] == "str" else (lambda i: i)
    conv = {"list": list, "set": set, "str": "".join}[case["form"]]
    cand = {nm(i): conv(nm(j) for j in sorted(adj[i])) for i in case["order"]}
    with sut("bron_kerbosch"):
        got = [list(c) for c in bron_kerbosch(dict(cand))]
    for c in got:
        require(len(set(c)) == len(c), "node repeated in a clique", c)
    same(Counter(frozenset(c) for c in got), Counter(frozenset(nm(i) for i in c) for c in want), "maximal cliques of three nodes or more")
    return len(want) >= 1, ["cliques:%d" % min(len(want), 4)]


@st.composite
def large_graph(draw):
    return {"n": draw(st.integers(8, 26)), "cliques": [draw(st.integers(3, 16)) for _ in range(draw(st.integers(1, 4)))],
            "extra": draw(st.integers(0, 15)), "seed": draw(st.integers(0, 10 ** 6)), "form": draw(st.sampled_from(["list", "set", "str"]))}


@sub("C12", "cliques-large", large_graph, quick=600, thorough=2000)
def c_cliques_large(case):
    """Planted cliques of up to sixteen nodes, some extra edges; networkx gives the answer."""
    import networkx as nx
    rnd = random.Random(case["seed"])
    g = nx.Graph()
    g.add_nodes_from(range(case["n"]))
    for k in case["cliques"]:
        g.add_edges_from(combinations(rnd.sample(range(case["n"]), min(k, case["n"])), 2))
    for _ in range(case["extra"]):
        g.add_edge(*rnd.sample(range(case["n"]), 2))
    want = Counter(frozenset(c) for c in nx.find_cliques(g) if len(c) > 2)
    nm = (lambda i: "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i]) if case["form"] == "str" else (lambda i: i)
    conv = {"list": list, "set": set, "str": "".join}[case["form"]]
    order = rnd.sample(range(case["n"]), case["n"])
    with sut("bron_kerbosch"):
        got = Counter(frozenset(c) for c in bron_kerbosch({nm(i): conv(nm(j) for j in g[i]) for i in order}))
    same(got, Counter({frozenset(nm(i) for i in c): v for c, v in want.items()}), "maximal cliques of three nodes or more")
    return len(want) >= 2, ["largest>11" if max(map(len, want)) > 11 else "largest<=11"]


VALUES = {"small": [-1, 0, 1, 2], "large": [0, 2 ** 53, 2 ** 53 + 1, -2 ** 62, 2 ** 62], "float": [0.0, 1.0, 1.0 + 1e-9, 1.0 + 2e-16, 1e-300, -1.5],
          "bool": [False, True], "str": ["a", "ab", "B", ""]}


@st.composite
def rows2d(draw):
    w = draw(st.integers(1, 3))
    row = st.lists(st.sampled_from(VALUES[draw(st.sampled_from(["small", "small", "large", "float", "bool", "str"]))]), min_size=w, max_size=w)
    k = draw(st.sampled_from([7, 7, 40]))
    if draw(st.integers(0, 5)) == 0:  # many columns: the same leading values, then the row
        lead = draw(st.lists(st.sampled_from([-1, 0, 1, 2]), min_size=2, max_size=12))
        row = st.lists(st.sampled_from([-1, 0, 1, 2]), min_size=w, max_size=w).map(lambda r: lead + r)
    return {"a": draw(st.lists(row, min_size=1, max_size=k)), "b": draw(st.lists(row, min_size=1, max_size=k)), "ind": draw(st.booleans())}


@sub("C12", "row-intersection", rows2d, quick=6000, thorough=15000)
def c_rows(case):
    a, b = case["a"], case["b"]
    with sut("intersect2d"):
        r = intersect2d(np.array(a), np.array(b), return_indices=case["ind"])
        if case["ind"]:
            rows, ia, ib = r
            ia, ib = [int(x) for x in ia], [int(x) for x in ib]
        else:
            rows = r
        rows = [list(x) for x in rows.tolist()]
    want = sorted({tuple(x) for x in a} & {tuple(x) for x in b})
    same(rows, [list(x) for x in want], "common rows")
    if case["ind"]:
        same(ia, [a.index(list(x)) for x in want], "first positions in the first array")
        same(ib, [b.index(list(x)) for x in want], "first positions in the second array")
    return len(want) >= 2, []


# ------------------------------------------------------------------ C13 parameters
CLASSES = {
    "LCM": (LCM, {"min_supp": [1, 3, 0.2, 0.5], "n_jobs": [1, 2], "verbose": [False, True]}),
    "LCMMax": (LCMMax, {"min_supp": [1, 3, 0.2, 0.5], "n_jobs": [1, 2], "verbose": [False, True]}),
    "SLIM": (SLIM, {"pruning": [True, False], "max_time": [-1, 0, 5], "items": [None, ["a", "b"], ["b", "a", "b"], ("z",), {"q"}, []]}),
    "SLIMVectorizer": (SLIMVectorizer, {"strategy": ["codes", "one-hot"], "k": [1, 5, 9], "pruning": [True, False], "stop_items": [None, ["a"], ["b", "a", "a"], {"c"}, []]}),
    "SlimClassifier": (SlimClassifier, {"items": [None, ["a", "b"], ["b", "a", "b"], ("z",), {"q"}, []], "pruning": [True, False]}),
    "MBDLLBorder": (MBDLLBorder, {"min_growth_rate": [2, 1.5], "min_supp": [0.1, 0.4], "n_jobs": [1, 2]}),
    "MDLPDiscretizer": (MDLPDiscretizer, {"random_state": [None, 3, 0], "n_jobs": [1, 2, None]}),
    "PeriodicPatternMiner": (PeriodicPatternMiner, {"complex": [True, False], "auto_time_scale": [True, False]}),
}

DEFAULTS = {  # as documented
    "LCM": {"min_supp": 0.2, "n_jobs": 1, "verbose": False}, "LCMMax": {"min_supp": 0.2, "n_jobs": 1, "verbose": False}, "SLIM": {"items": None, "max_time": -1, "pruning": True},
    "SLIMVectorizer": {"k": 5, "pruning": False, "stop_items": None, "strategy": "codes"}, "SlimClassifier": {"items": None, "pruning": False},
    "MBDLLBorder": {"min_growth_rate": 2, "min_supp": 0.1, "n_jobs": 1}, "MDLPDiscretizer": {"random_state": None, "n_jobs": 1}, "PeriodicPatternMiner": {"complex": True, "auto_time_scale": True}}


@st.composite
def window_case(draw):
    nd = draw(st.integers(1, 3))
    shape = draw(st.lists(st.integers(1, 5), min_size=nd, max_size=nd))
    if draw(st.booleans()):
        axis = None
        win = [draw(st.integers(1, k + 1)) for k in shape]
    else:
        axis = draw(st.lists(st.integers(-nd, nd - 1), min_size=1, max_size=2))
        win = [draw(st.integers(1, shape[a] + 1)) for a in axis]
    return {"shape": shape, "axis": axis, "win": win, "scalar": draw(st.booleans()), "neg": draw(st.integers(0, 9)) == 0,
            "layout": draw(st.sampled_from(["C", "C", "F", "step", "back"]))}


@sub("C12", "windows", window_case, quick=3000, thorough=6000)
def c_windows(case):
    shape, axis = case["shape"], case["axis"]
    win = list(case["win"])
    nd = len(shape)
    x = np.arange(int(np.prod(shape))).reshape(shape)
    if case.get("layout") == "F":
        x = np.asfortranarray(x)
    elif case.get("layout") == "step":  # every other element of a larger array
        x = np.repeat(x, 2, axis=0)[::2]
    elif case.get("layout") == "back":
        x = x[::-1]
    axes = list(range(nd)) if axis is None else [a % nd for a in axis]
    trimmed = list(shape)
    bad = False
    if case["neg"]:
        win[0] = -1
        bad = True
    for a, w in zip(axes, win):
        if trimmed[a] < w:
            bad = True
        trimmed[a] -= w - 1
    args = (win[0] if len(win) == 1 and case["scalar"] else tuple(win),)
    kw = {} if axis is None else {"axis": axis[0] if len(axis) == 1 and case["scalar"] else tuple(axis)}
    if bad:
        raises(ValueError, lambda: sliding_window_view(x, *args, **kw), "window %r of shape %r" % (win, shape))
        return False, ["rejected"]
    with sut("sliding_window_view"):
        v = sliding_window_view(x, *args, **kw)
    same(v.shape, tuple(trimmed) + tuple(win), "shape of the view")
    for idx in np.ndindex(*v.shape):
        pos = list(idx[:nd])
        for a, k in zip(axes, idx[nd:]):
            pos[a] += k
        same(int(v[idx]), int(x[tuple(pos)]), "element %r" % (idx,))
    require(not v.flags.writeable, "the view is read-only by default")
    return len(win) > 1 or nd > 1, ()



@st.composite
def param_case(draw):
    name = draw(st.sampled_from(sorted(CLASSES)))
    ps = CLASSES[name][1]
    init = {k: draw(st.integers(0, len(v) - 1)) for k, v in ps.items() if draw(st.integers(0, 3))}
    sets = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from(sorted(ps)))
        sets.append([k, draw(st.integers(0, len(ps[k]) - 1))])
    k = draw(st.sampled_from(sorted(ps)))
    bad = draw(st.sampled_from(["nope", "min_suppp", "fit", "n_jobz", k + "_", k.upper(), "_" + k, k[:-1], k + "__x", "self", "params", "x_seen_"]))
    return {"cls": name, "init": init, "sets": sets, "bad": bad, "deep": draw(st.booleans()), "together": draw(st.booleans())}


@sub("C13", "parameters", param_case, quick=4000, thorough=8000)
def c_params(case):
    cls, ps = CLASSES[case["cls"]]
    case = dict(case, init={k: ps[k][i] for k, i in case["init"].items()}, sets=[[k, ps[k][i]] for k, i in case["sets"]])
    with sut("constructor"):
        o = cls(**case["init"])
        p = o.get_params()
    same(sorted(set(p) & set(ps)), sorted(ps), "parameter names")
    for k, v in case["init"].items():
        same(p[k], v, "parameter %s after construction" % k)
    for k, v in DEFAULTS[case["cls"]].items():
        if k not in case["init"]:
            same(p[k], v, "default of parameter %s" % k)
    cur = dict(p)
    for k, v in case["sets"]:
        with sut("set_params"):
            r = o.set_params(**{k: v})
        require(r is o, "set_params does not return the object")
        cur[k] = v
        with sut("get_params"):
            same(o.get_params(), cur, "parameters after set_params")
    if case.get("together"):  # several at once
        new = {k: v[len(case["sets"]) % len(v)] for k, v in ps.items()}
        with sut("set_params of all parameters"):
            require(o.set_params(**new) is o, "set_params does not return the object")
            cur.update(new)
            same(o.get_params(), cur, "parameters after setting all of them")
            same(o.get_params(deep=case["deep"]), cur, "parameters with deep=%r" % case["deep"])
    o.x_seen_ = 5  # an attribute that is no parameter, as fitting leaves some
    with sut("set_params()"):
        require(o.set_params() is o, "set_params() does not return the object")
    with sut("copy through the parameters"):
        same(cls(**o.get_params()).get_params(), cur, "parameters of a copy")
        require(type(copy.copy(o)) is cls, "copy.copy gives another class", type(copy.copy(o)))
        same(copy.copy(o).get_params(), cur, "parameters of copy.copy")
        same(copy.deepcopy(o).get_params(), cur, "parameters of copy.deepcopy")
    if case["bad"] == "self":  # cannot be passed by keyword
        case = dict(case, bad="nope")
    raises((ValueError, TypeError, AttributeError) if "__" in case["bad"] else ValueError, lambda: o.set_params(**{case["bad"]: 1}), "parameter %r" % case["bad"])
    with sut("get_params"):
        same(o.get_params(), cur, "parameters after a rejected one")
    return bool(case["sets"]), [case["cls"]]


@st.composite
def frozen_case(draw):
    return {"db": draw(db(max_n=8, max_m=5, min_n=2, nonempty_rows=True, dup_items=False)), "which": draw(st.sampled_from(["LCM", "LCMMax", "SLIM", "SLIMVectorizer", "SlimClassifier", "MBDLLBorder", "MDLPDiscretizer", "PeriodicPatternMiner"])),
            "opt": draw(st.integers(0, 3))}


def build(case, how):
    """The same configuration, through the constructor or through set_params."""
    k = case["opt"]
    cls, kw = {"LCM": (LCM, dict(min_supp=[1, 2, 0.3, 0.6][k])), "LCMMax": (LCMMax, dict(min_supp=[1, 2, 0.3, 0.6][k])),
               "SLIM": (SLIM, dict(pruning=bool(k % 2))), "SLIMVectorizer": (SLIMVectorizer, dict(k=k + 1, strategy=["codes", "one-hot"][k % 2])),
               "SlimClassifier": (SlimClassifier, dict(pruning=bool(k % 2))),
               "MBDLLBorder": (MBDLLBorder, dict(min_supp=[0.1, 0.3, 0.2, 0.05][k], min_growth_rate=[2, 1.5][k % 2])),
               "MDLPDiscretizer": (MDLPDiscretizer, dict(random_state=k)),
               "PeriodicPatternMiner": (PeriodicPatternMiner, dict(complex=bool(k % 2), auto_time_scale=k < 2))}[case["which"]]
    its = list(case["db"]["items"])
    if k >= 2 and case["which"] in ("SLIM", "SlimClassifier"):
        kw["items"] = its[::-1] + its[:1]
    if k >= 2 and case["which"] == "SLIMVectorizer":
        kw["stop_items"] = [its[-1], its[-1]] if any(its[-1] not in r for r in rows_of(case["db"])) else []
    return cls(**kw) if how == "ctor" else cls().set_params(**kw), kw


def result(o, case, rows):
    y = np.array([i % 2 for i in range(len(rows))])
    if case["which"] == "SlimClassifier":
        return list(o.fit(rows, y).predict(rows))
    if case["which"] == "MBDLLBorder":
        return sorted(sorted(p) for p in o.fit(pd.Series(rows), y).discover(min_size=1))
    if case["which"] == "MDLPDiscretizer":
        X = np.array([[len(r), sum(len(str(i)) for i in r), 1.5 * t] for t, r in enumerate(rows)], dtype=float)
        keep, ky = X.copy(), y.copy()
        out = o.fit(X, y).transform(X).tolist()
        require(np.array_equal(X, keep) and np.array_equal(y, ky), "input data after fitting")
        return [out, [list(map(float, c)) for c in o.cut_points_.values()]]
    if case["which"] == "PeriodicPatternMiner":
        log = pd.Series({10 * t + 3 * j: str(i) for t, r in enumerate(rows) for j, i in enumerate(r)}, dtype=object)
        keep = log.copy()
        df = o.fit(log).transform(log)
        require(log.equals(keep) and list(log.index) == list(keep.index), "input data after fitting")
        return [list(map(str, df.columns)), [[str(v) for v in r] for r in df.values.tolist()]]
    df = o.fit(rows).transform(rows)
    return [list(map(str, df.columns)), df.values.tolist()]


@sub("C13", "fit-keeps-configuration", frozen_case, quick=2500, thorough=8000)
def c_frozen(case):
    rows = rows_of(case["db"])
    keep = [list(r) for r in rows]
    with sut(case["which"]):
        a, kw = build(case, "ctor")
        p = copy.deepcopy(dict(a.get_params()))
        ra = result(a, case, rows)
        same(dict(a.get_params()), p, "parameters after fitting")
        b, _ = build(case, "set")
        rb = result(b, case, rows)
        rc = result(a, case, rows)  # once more with the same object
    same(rows, keep, "input data after fitting")
    same(ra, rb, "constructor against set_params")
    same(ra, rc, "fitting the same object twice")
    return len(rows) >= 3, [case["which"]]


# ------------------------------------------------------------------ C14 callbacks
ERRORS = [KeyError, ValueError, StopIteration, AttributeError, TypeError, RuntimeError, AssertionError, OSError]


class Obj:
    def __init__(self):
        self.calls = []

    def scalar(self, e, *, add=1):
        self.calls.append("scalar")
        return e + add

    def pair(self, e):
        self.calls.append("pair")
        return e, e + 1

    def triple(self, e):
        self.calls.append("triple")
        return e, e + 1, e + 2

    def five(self, e):
        self.calls.append("five")
        return e, e + 1, e + 2, [e], "x"

    def one(self, e):
        self.calls.append("one")
        return [[e], {e: 1}, "a", np.array([e])][e % 4] if e % 5 else [[e, e], "ab", {}, []][e % 4]

    def nothing(self, e):
        self.calls.append("nothing")
        return None

    def boom(self, e):
        self.calls.append("boom")
        raise ERRORS[e % len(ERRORS)](e)


class Recorder:
    def __init__(self, log):
        self.log = log

    def __call__(self, res):
        self.log.append(res)


def make_callback(kind, log):
    if kind == "append":
        return log.append
    if kind == "extend":
        return log.extend
    if kind == "lambda":
        return lambda res: log.append(res)
    if kind == "self":
        def cb(self):
            log.append(("self", len(self.calls)))
        return cb
    if kind == "self-res":
        def cb(self, res):
            log.append(("self", len(self.calls), res))
        return cb
    if kind == "self-five":
        def cb(self, a, b, c, d, e):
            log.append(("self", len(self.calls), a, b, c, d, e))
        return cb
    if kind == "five":
        return lambda a, b, c, d, e: log.append((a, b, c, d, e))
    if kind == "reads":
        def cb(self, res):
            if self.calls == [] or len(self.calls) >= 10 ** 6 or self is None:
                log.append("unexpected")
            log.append(("self", len(self.calls), res))
        return cb
    if kind == "typed":  # as typed in an interpreter: there is no source file
        ns = {"log": log}
        exec("def cb(res):\n    log.append(res)", ns)
        return ns["cb"]
    if kind == "partial":
        return functools.partial(list.append, log)
    if kind == "object":
        return Recorder(log)
    if kind == "self-args":
        def cb(self, a, b, *_):
            log.append(("self", len(self.calls), a, b))
        return cb

    def cb(a, b, *_):
        log.append((a, b))
    return cb


SINGLE = ["append", "lambda", "self", "self-res", "typed", "partial", "object", "reads"]
OK_KINDS = {"scalar": SINGLE, "nothing": SINGLE, "one": SINGLE, "five": ["extend", "self", "self-res", "self-args", "self-five", "five", "args"],
            "pair": ["extend", "self", "self-res", "self-args", "args"], "triple": ["extend", "self", "self-res", "self-args", "args"],
            "boom": ["append", "self", "self-res"]}


@st.composite
def cb_case(draw):
    meths = draw(st.lists(st.sampled_from(sorted(OK_KINDS)), min_size=1, max_size=4, unique=True))
    cbs = {m: draw(st.sampled_from(OK_KINDS[m])) for m in meths}
    calls = draw(st.lists(st.tuples(st.sampled_from(sorted(OK_KINDS)), st.integers(-5, 50)), max_size=8))
    return {"cbs": cbs, "calls": [list(c) for c in calls], "times": draw(st.sampled_from([1] * 19 + [300]))}


def plainly(v):
    """Arrays as tagged lists, so that they can be compared."""
    if isinstance(v, np.ndarray):
        return ["array"] + v.tolist()
    if type(v) in (list, tuple):
        return type(v)(plainly(x) for x in v)
    return v


@sub("C14", "observation-only", cb_case, quick=6000, thorough=15000)
def c_callbacks(case):
    o, plain = Obj(), Obj()
    logs = {m: [] for m in case["cbs"]}
    with sut("attaching callbacks"):
        r = CallBacks(**{m: make_callback(k, logs[m]) for m, k in case["cbs"].items()})(o)
    require(r is None, "attaching returned something", r)
    want = {m: [] for m in case["cbs"]}
    for m, e in case["calls"] * case.get("times", 1):
        try:
            exp = getattr(plain, m)(e)
        except Exception as err:
            got = raises(type(err), lambda: getattr(o, m)(e), "a method that fails with %r" % err)
            same(got.args, err.args, "arguments of the error")
            continue
        with sut("calling %s" % m):
            got = getattr(o, m)(e)
        same(plainly(got), plainly(exp), "value returned by %s" % m)
        if m in want:
            k = case["cbs"][m]
            n = len(plain.calls)
            w = want[m]
            if k in ("append", "lambda", "typed", "partial", "object"):
                w.append(exp)
            elif k == "extend":
                w.extend(exp)
            elif k == "self":
                w.append(("self", n))
            elif k == "self-five":
                w.append(("self", n) + exp)
            elif k == "five":
                w.append(exp)
            elif k in ("self-res", "reads"):
                w.append(("self", n, exp))
            elif k == "self-args":
                w.append(("self", n, exp[0], exp[1]))
            else:
                w.append((exp[0], exp[1]))
    same(o.calls, plain.calls, "calls made on the object")
    same({m: plainly(v) for m, v in logs.items()}, {m: plainly(v) for m, v in want.items()}, "what the callbacks saw")
    return bool(case["calls"]) and any(want.values()), ["callbacks:%d" % len(case["cbs"])]


@st.composite
def slim_cb_case(draw):
    return {"db": draw(st.one_of(db(max_n=14, max_m=6, nonempty_rows=True), wide_db(max_n=12, max_m=10))), "pruning": draw(st.booleans()),
            "cbs": draw(st.lists(st.sampled_from(["evaluate", "update", "generate_candidates", "prints"]), min_size=1, unique=True))}


@sub("C14", "mining-with-callbacks", slim_cb_case, quick=1500, thorough=5000)
def c_slim_cb(case):
    rows = rows_of(case["db"])
    with sut("plain fit"):
        a = SLIM(pruning=case["pruning"]).fit(rows)
    log = {"evaluate": [], "update": [], "generate_candidates": []}
    with sut("fit with callbacks"):
        b = SLIM(pruning=case["pruning"])
        cb = {}
        if "evaluate" in case["cbs"]:
            cb["evaluate"] = lambda d, m, u: log["evaluate"].append(float(d + m))
        if "update" in case["cbs"]:
            def upd(self):
                log["update"].append(float(self.data_size_ + self.model_size_))
            cb["update"] = upd
        if "generate_candidates" in case["cbs"]:
            def gen(self, cands):
                log["generate_candidates"].append(len(cands))
            cb["generate_candidates"] = gen
        CallBacks(**cb)(b)
        if "prints" in case["cbs"]:
            mdl_prints(b)
        said = io.StringIO()
        with contextlib.redirect_stdout(said):
            b.fit(rows)
    # the same calls, seen by a subclass
    seen, lines = {"evaluate": [], "update": [], "generate_candidates": []}, []

    class Spy(SLIM):
        def evaluate(self, *args, **kw):
            r = super().evaluate(*args, **kw)
            seen["evaluate"].append(float(r[0] + r[1]))
            if (self.model_size_ + self.data_size_) - (r[0] + r[1]) > 0.01:
                lines.append("data size : {:.2f} | model size : {:.2f}".format(r[0], r[1]))
            return r

        def update(self, *args, **kw):
            r = super().update(*args, **kw)
            seen["update"].append(float(self.data_size_ + self.model_size_))
            return r

        def generate_candidates(self, *args, **kw):
            r = super().generate_candidates(*args, **kw)
            seen["generate_candidates"].append(len(r))
            lines.append("%d new candidates considered" % len(r))
            return r

    with sut("fit of a subclass"):
        Spy(pruning=case["pruning"]).fit(rows)
    for k in cb:
        same(log[k], seen[k], "calls of %s that its callback saw" % k)
    same(said.getvalue().splitlines(), lines if "prints" in case["cbs"] else [], "lines printed")
    ct = lambda s: [(sorted(k), list(v)) for k, v in s.codetable_.items()]
    same(ct(b), ct(a), "code table with callbacks")
    same(float(b.data_size_ + b.model_size_), float(a.data_size_ + a.model_size_), "description length with callbacks")
    if log["update"]:
        same(log["update"][-1], float(b.data_size_ + b.model_size_), "last update seen")
        require(log["update"] == sorted(log["update"], reverse=True), "sizes seen at updates do not decrease", log["update"])
    return bool(log["update"]), []


def _cb_sets_attr(self):
    self.x = 1


def _cb_sets_self(self):
    self = None


def _cb_sets_tight(self):
    self.x=1


def _cb_sets_res(self, res):
    if res:
        self.total = res


def _cb_adds(self):
    self.total += 1


def _cb_nested(self, res):
    self.a.b = res


def _cb_late(self, res):
    x = [r for r in res]
    x.sort()
    self.seen_ = x
    return x


MUTATIONS = {"setitem": lambda c: c.__setitem__("g", print), "update": lambda c: c.update(g=print), "delitem": lambda c: c.__delitem__("f"),
             "pop": lambda c: c.pop("f"), "popitem": lambda c: c.popitem(), "clear": lambda c: c.clear(), "setdefault": lambda c: c.setdefault("g", print),
             "ior": lambda c: c.__ior__({"g": print})}
ASSIGN = {"assign": _cb_sets_attr, "assign2": _cb_sets_self, "assign3": _cb_sets_tight, "assign4": _cb_sets_res, "assign5": _cb_adds,
          "assign6": _cb_nested, "assign7": _cb_late}


@sub("C14", "rejects", lambda: st.just(["int", "str", "none", "unknown"] + sorted(ASSIGN) + sorted(MUTATIONS)), quick=1, thorough=1)
def c_cb_rejects(case):
    for c in case:
        c_cb_rej(c)
    return True, list(case)


def c_cb_rej(case):
    if case in ("int", "str", "none"):
        raises(TypeError, lambda: CallBacks(f={"int": 3, "str": "x", "none": None}[case]), "a callback that cannot be called")
    elif case.startswith("assign"):
        raises(ValueError, lambda: CallBacks(f=ASSIGN[case]), "a callback that assigns to self")
    elif case == "unknown":
        o = Obj()
        raises(ValueError, lambda: CallBacks(scalar=lambda r: r, missing=lambda r: r)(o), "a callback for a method that does not exist")
        same(o.scalar(3), 4, "object after the rejection")
    else:
        c = CallBacks(f=lambda r: r)
        raises((NotImplementedError, TypeError), lambda: MUTATIONS[case](c), "changing a collection of callbacks by %s" % case)
        same(list(c), ["f"], "callbacks")
    return True, [case]
