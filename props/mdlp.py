import math
from collections import Counter

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vk.core import close, raises, require, same, sub, sut

from skmine.preprocessing import MDLPDiscretizer
from skmine.preprocessing.mdlp_discretizer import MDLPVectDiscretizer, generate_cut_point

EPS = 1e-9


def ent(y):
    n = len(y)
    return -sum(c / n * math.log2(c / n) for c in Counter(y).values())


def best_cuts(y, s, e):
    """Every boundary position whose weighted entropy is minimal (up to rounding)."""
    sc = {}
    for i in range(s + 1, e):
        if y[i - 1] != y[i]:
            sc[i] = (i - s) / (e - s) * ent(y[s:i]) + (e - i) / (e - s) * ent(y[i:e])
    if not sc:
        return [], None
    m = min(sc.values())
    return [i for i, v in sc.items() if v <= m + EPS], m


def accepted(y, s, e, k):
    """Fayyad & Irani's criterion: True, False, or None when rounding decides."""
    N = e - s
    a, b, w = y[s:k], y[k:e], y[s:e]
    k0, k1, k2 = len(set(w)), len(set(a)), len(set(b))
    gain = ent(w) - (len(a) * ent(a) + len(b) * ent(b)) / N
    delta = math.log2(3 ** k0 - 2) - (k0 * ent(w) - k1 * ent(a) - k2 * ent(b))
    d = gain - (math.log2(N - 1) + delta) / N
    return None if abs(d) < EPS else d > 0


class TooMany(Exception):
    pass


def cut_sets(y, s, e, budget):
    """All sets of cut positions the recursive criterion allows."""
    budget[0] -= 1
    if budget[0] < 0:
        raise TooMany
    ks, _ = best_cuts(y, s, e)
    if not ks:
        return {frozenset()}
    res = set()
    for k in ks:
        acc = accepted(y, s, e, k)
        if acc is not True:
            res.add(frozenset())
        if acc is not False:
            for a in cut_sets(y, s, k, budget):
                for b in cut_sets(y, k, e, budget):
                    res.add(a | b | {k})
                    if len(res) > 200:
                        raise TooMany
    return res


# ------------------------------------------------------------------ inputs
@st.composite
def column(draw, n, y, consistent=True):
    """n values; equal values only carry equal labels when `consistent`."""
    kind = draw(st.sampled_from(["float", "int", "neg", "scaled", "tiny", "single", "cents"]))
    if consistent:
        style = draw(st.sampled_from(["follows", "mixed"]))
        order = draw(st.permutations(range(n))) if style == "mixed" else sorted(range(n), key=lambda i: (y[i], i))
        if style == "follows":
            for k in draw(st.lists(st.integers(0, n - 1), max_size=3)):
                order = order[:k] + order[k + 1:] + [order[k]]
        step = draw(st.lists(st.integers(1, 5), min_size=n, max_size=n))
        tie = draw(st.booleans())
        vals, cur = [0] * n, 0
        for j, i in enumerate(order):
            if not (tie and j and y[order[j - 1]] == y[i] and step[j] == 5):
                cur += step[j]
            vals[i] = cur
    else:
        vals = draw(st.lists(st.integers(0, 6), min_size=n, max_size=n))
    f = {"float": lambda v: v * 0.37 + 0.11, "int": lambda v: v, "neg": lambda v: v - 17.5,
         "scaled": lambda v: v * 1e6 + 0.5, "tiny": lambda v: v * 1e-7,
         "single": lambda v: 16777216 + v, "cents": lambda v: 1e6 + v / 100}[kind]
    return [f(v) for v in vals]


@st.composite
def labels(draw, n):
    k = draw(st.integers(1, draw(st.sampled_from([4, 4, 12]))))
    style = draw(st.sampled_from(["runs", "random"]))
    if style == "runs":
        cuts = sorted(draw(st.lists(st.integers(0, n), max_size=4)))
        names = draw(st.lists(st.integers(0, k), min_size=len(cuts) + 1, max_size=len(cuts) + 1))
        y = []
        for i in range(n):
            y.append(names[sum(c <= i for c in cuts)])
        for j in draw(st.lists(st.integers(0, n - 1), max_size=2)):
            y[j] = (y[j] + 1) % (k + 1)
        return y
    return draw(st.lists(st.integers(0, k), min_size=n, max_size=n))


@st.composite
def fit_case(draw, consistent=True):
    n = draw(st.integers(1, 40))
    y = draw(labels(n))
    m = draw(st.sampled_from([1, 2, 2, 3, 3, 3, 12, 13]))
    y = [v * draw_scale + 1 * (draw_scale > 1) for draw_scale in [draw(st.sampled_from([1, 1, 1, 7, 90]))] for v in y]
    cols = [draw(column(n, y, consistent)) for _ in range(m)]
    new = draw(st.lists(st.lists(st.integers(-3, 130), min_size=m, max_size=m), max_size=4))
    return {"y": y, "cols": cols, "new": new, "frame": draw(st.booleans()), "seed": draw(st.integers(0, 5)),
            "perm": draw(st.integers(0, 10 ** 6)), "names": list(draw(st.permutations(["b", "a", "c"])))[:m] if m <= 3 else ["x%d" % j for j in range(m)],
            "swap": draw(st.booleans())}


def make(case):
    X = np.array(case["cols"], dtype=float).T
    y = np.array(case["y"], dtype=int)
    if case["frame"]:
        return pd.DataFrame(X, columns=case["names"], index=[7 + 2 * i for i in range(len(y))]), pd.Series(y), X
    return X, y, X


def midpoints(xs):
    return [(a + b) / 2 for a, b in zip(xs, xs[1:])]


def cuts_of(d, case):
    keys = case["names"] if case["frame"] else list(range(len(case["cols"])))
    same(sorted(map(str, d.cut_points_)), sorted(map(str, keys)), "columns of the cut points")
    return [[float(v) for v in d.cut_points_[k]] for k in keys]


def check_transform(d, case, cuts):
    """A value's bin is the number of cut points below it, in the column it belongs to."""
    X, y, raw = make(case)
    rows = [list(r) for r in raw]
    m = len(cuts)
    for r in case["new"]:
        rows.append([c * 0.1 for c in r])
    # the cut points themselves and their neighbours are the interesting values
    for j, cs in enumerate(cuts):
        for c in cs:
            for v in (c, np.nextafter(c, np.inf), np.nextafter(c, -np.inf)):
                r = [0.0] * m
                r[j] = float(v)
                rows.append(r)
    want = [[sum(c < v for c in cuts[j]) for j, v in enumerate(r)] for r in rows]
    order = list(range(m))
    Z = np.array(rows, dtype=float)
    if case["frame"]:
        if case["swap"]:
            order = order[::-1]
        Z = pd.DataFrame(Z, columns=case["names"], index=[3 * i + 2 for i in range(len(rows))])[[case["names"][j] for j in order]]
    with sut("transform"):
        out = d.transform(Z)
        if case["frame"]:
            same(list(out.columns), [case["names"][j] for j in order], "columns of the result")
        got = [[int(v) for v in r] for r in np.asarray(out)]
    same(got, [[r[j] for j in order] for r in want], "bins")


@sub("C11", "cut-points", fit_case, quick=3000, thorough=25000)
def c_cuts(case):
    X, y, raw = make(case)
    Xb, yb = X.copy(), y.copy()
    with sut("fit"):
        d = MDLPDiscretizer(random_state=case["seed"]).fit(X, y)
    require(np.array_equal(np.asarray(X), np.asarray(Xb)) and np.array_equal(np.asarray(y), np.asarray(yb)), "fit changed its input")
    cuts = cuts_of(d, case)
    total, amb = 0, False
    for j, col in enumerate(case["cols"]):
        order = sorted(range(len(col)), key=lambda i: col[i])
        xs = [col[i] for i in order]
        ys = [case["y"][i] for i in order]
        require(cuts[j] == sorted(set(cuts[j])), "cut points not strictly increasing", cuts[j])
        try:
            allowed = cut_sets(ys, 0, len(ys), [400])
        except TooMany:
            amb = True
            continue
        amb |= len(allowed) > 1
        vals = [sorted((xs[k - 1] + xs[k]) / 2 for k in s) for s in allowed]
        ok = any(len(v) == len(cuts[j]) and all(abs(a - b) <= 1e-9 * max(1, abs(a)) for a, b in zip(v, cuts[j])) for v in vals)
        require(ok, "cut points of a column", cuts[j], vals[:3], list(zip(xs, ys)))
        total += len(cuts[j])
    with sut("discover"):
        view = d.discover()
        for k, c in zip(case["names"] if case["frame"] else range(len(cuts)), cuts):
            same([float(v) for v in view[k]], c, "cut points shown to the user")
    check_transform(d, case, cuts)
    if not amb:  # another order of the samples, another seed: same cut points
        n = len(case["y"])
        perm = np.random.RandomState(case["perm"]).permutation(n)
        with sut("fit on shuffled samples"):
            d.set_params(random_state=case["seed"] + 1)
            d.fit(X.iloc[perm] if case["frame"] else X[perm], y.iloc[perm] if case["frame"] else y[perm])
        for a, b in zip(cuts_of(d, case), cuts):
            require(len(a) == len(b) and np.allclose(a, b, rtol=1e-9), "cut points depend on the order of the samples", a, b)
    return total >= 1, ["cuts:%d" % min(total, 5), "frame" if case["frame"] else "array", "ties in the criterion" if amb else "single answer"]


@sub("C11", "conflicting-ties", lambda: fit_case(False), quick=500, thorough=8000)
def c_ties(case):
    X, y, raw = make(case)
    with sut("fit"):
        d = MDLPDiscretizer(random_state=case["seed"]).fit(X, y)
        d2 = MDLPDiscretizer(random_state=case["seed"]).fit(X, y)
    cuts = cuts_of(d, case)
    same(cuts_of(d2, case), cuts, "same seed, same data")
    for j, col in enumerate(case["cols"]):
        require(cuts[j] == sorted(set(cuts[j])), "cut points not strictly increasing", cuts[j])
        mids = midpoints(sorted(col))
        for c in cuts[j]:
            require(any(abs(c - v) <= 1e-9 * max(1, abs(v)) for v in mids), "cut point is not between two neighbouring values", c, sorted(col))
    check_transform(d, case, cuts)
    with sut("fit_transform"):
        a = np.asarray(MDLPDiscretizer(random_state=case["seed"]).fit_transform(X, y))
        b = np.asarray(d.transform(X))
    require(np.array_equal(a, b), "fit_transform differs from fit then transform")
    return any(cuts), ["cuts" if any(cuts) else "no cut"]


@st.composite
def many_case(draw):
    k = draw(st.integers(2, 60))
    rep = draw(st.integers(2, 12))
    return {"k": k, "rep": rep, "noise": draw(st.lists(st.integers(0, k * rep - 1), max_size=3))}


@sub("C11", "many-classes", many_case, quick=60, thorough=400)
def c_many(case):
    n = case["k"] * case["rep"]
    y = [i // case["rep"] for i in range(n)]
    for j in case["noise"]:
        y[j] = (y[j] + 1) % case["k"]
    x = [1.5 * i for i in range(n)]
    with sut("fit"):
        got = [float(v) for v in MDLPVectDiscretizer().fit(np.array(x), np.array(y)).cut_points_]
    try:
        allowed = cut_sets(y, 0, n, [4000])
    except TooMany:
        return False, ["undecided"]
    vals = [sorted((x[k - 1] + x[k]) / 2 for k in s) for s in allowed]
    require(any(len(v) == len(got) and np.allclose(v, got) for v in vals), "cut points with %d classes" % case["k"], got, vals[:2])
    return len(got) >= 1, ["classes>40" if case["k"] > 40 else "classes<=40", "cuts" if got else "no cut"]


# ------------------------------------------------------------------ splits close to the threshold of the criterion
def margin(a, b, c, d):
    """Gain minus threshold for a split of two classes: (a, b) on the left, (c, d) on the right."""
    h = lambda *v: -sum(x / sum(v) * math.log2(x / sum(v)) for x in v if x)
    N = a + b + c + d
    e, e1, e2 = h(a + c, b + d), h(a, b), h(c, d)
    k1, k2 = (a > 0) + (b > 0), (c > 0) + (d > 0)
    gain = e - ((a + b) * e1 + (c + d) * e2) / N
    return gain - (math.log2(N - 1) + math.log2(7) - (2 * e - k1 * e1 - k2 * e2)) / N


NEAR = []


def near_splits():
    """The splits of up to 170 samples whose margin is closest to zero, on both sides."""
    if not NEAR:
        rnd = __import__("random").Random(7)
        seen = set()
        for _ in range(120000):
            t = rnd.randint(1, 60), rnd.choice([0, rnd.randint(0, 25)]), rnd.choice([0, rnd.randint(0, 25)]), rnd.randint(1, 60)
            if t not in seen:
                seen.add(t)
                NEAR.append((abs(margin(*t)), t))
        NEAR.sort()
        del NEAR[300:]
    return NEAR


@sub("C11", "near-threshold", lambda: st.integers(0, 299), quick=300, thorough=2000)
def c_near(case):
    """The left part is a block whose cut by least entropy is the split: pure runs, the minority values last and first."""
    gap, (a, b, c, d) = near_splits()[case]
    y = [1] * b + [0] * a + [1] * d + [0] * c  # the boundary 0|1 in the middle
    ks, _ = best_cuts(y, 0, len(y))
    x = [0.5 * i for i in range(len(y))]
    try:
        allowed = cut_sets(y, 0, len(y), [300])
    except TooMany:
        return False, ["undecided"]
    with sut("fit"):
        got = [float(v) for v in MDLPVectDiscretizer().fit(np.array(x), np.array(y)).cut_points_]
    vals = [sorted((x[k - 1] + x[k]) / 2 for k in s) for s in allowed]
    require(any(len(v) == len(got) and np.allclose(v, got) for v in vals), "cut points close to the threshold", got, vals[:2], y)
    return ks == [a + b], ["margin<%s" % ("1e-4" if gap < 1e-4 else "1e-3" if gap < 1e-3 else "1")]


@st.composite
def gen_case(draw):
    n = draw(st.integers(1, 30))
    y = draw(labels(n))
    s = draw(st.integers(0, n - 1))
    return {"y": y, "s": s, "e": draw(st.integers(s + 1, n))}


@st.composite
def long_case(draw):
    """Hundreds of samples in runs of noisy labels: boundaries whose entropies are close."""
    k = draw(st.integers(1, 9))
    runs = draw(st.lists(st.tuples(st.integers(0, k), st.integers(0, k), st.integers(5, 60), st.integers(2, 9)), min_size=3, max_size=12))
    y = []
    for a, b, n, every in runs:
        y += [b if i % every == every - 1 else a for i in range(n)]
    return {"y": y, "s": 0, "e": len(y)}


@sub("C11", "long-columns", long_case, quick=250, thorough=3000)
def c_long(case):
    y = case["y"]
    r = c_gen(case)
    x = [0.25 * i for i in range(len(y))]
    try:
        allowed = cut_sets(y, 0, len(y), [300])
    except TooMany:
        return r[0], ["undecided"]
    with sut("fit"):
        got = [float(v) for v in MDLPVectDiscretizer().fit(np.array(x), np.array(y)).cut_points_]
    vals = [sorted((x[k - 1] + x[k]) / 2 for k in s) for s in allowed]
    require(any(len(v) == len(got) and np.allclose(v, got) for v in vals), "cut points of a long column", got, vals[:2])
    return len(got) >= 1, ["cuts:%d" % min(len(got), 6), "classes:%d" % min(len(set(y)), 8)]


@sub("C11", "best-boundary", gen_case, quick=1500, thorough=15000)
def c_gen(case):
    with sut("generate_cut_point"):
        k = int(generate_cut_point(np.array(case["y"]), case["s"], case["e"]))
    ks, _ = best_cuts(case["y"], case["s"], case["e"])
    if not ks:
        same(k, -1, "no boundary")
    else:
        require(k in ks, "not the boundary of least entropy", k, ks)
    return len(ks) >= 1, []


@sub("C11", "rejects", lambda: st.just(["float-y", "columns", "none", "fewer", "more", "str-y"]), quick=1, thorough=1)
def c_rejects(case):
    for c in case:
        c_rej(c)
    return True, list(case)


def c_rej(case):
    X = pd.DataFrame({"a": [1.0, 2, 3, 4], "b": [1.0, 1, 2, 2]})
    y = np.array([0, 0, 1, 1])
    if case == "float-y":
        raises((AssertionError, ValueError, TypeError), lambda: MDLPDiscretizer().fit(X, y.astype(float)), "float labels")
    elif case == "str-y":
        raises((AssertionError, ValueError, TypeError), lambda: MDLPDiscretizer().fit(X, np.array(list("aabb"))), "labels that are text")
    elif case in ("fewer", "more"):
        d = MDLPDiscretizer().fit(X, y)
        raises(ValueError, lambda: d.transform(X[["a"]] if case == "fewer" else X.assign(c=1.0)), "missing or unknown columns")
    elif case == "none":
        raises((AssertionError, ValueError, TypeError), lambda: MDLPDiscretizer().fit(X, None), "no labels")
    else:
        d = MDLPDiscretizer().fit(X, y)
        raises(ValueError, lambda: d.transform(X.rename(columns={"a": "z"})), "unknown columns")
    return True, [case]
