import functools
import math
import random
from itertools import combinations

import numpy as np
import pandas as pd
from hypothesis import assume
from hypothesis import strategies as st

from vk.core import raises, require, same, sub, sut
from vk.gen import big_db, big_rows, items, rows_of
from vk.itemset_oracle import maximal_itemsets

from skmine.emerging import MBDLLBorder
from skmine.emerging.mbdldorber import border_diff, borders_to_patterns, mbdllborder


def subsets(U, lo=0):
    U = sorted(U)
    return [frozenset(c) for k in range(lo, len(U) + 1) for c in combinations(U, k)]


def minimal(fam):
    fam = set(fam)
    return {f for f in fam if not any(g < f for g in fam)}


# ------------------------------------------------------------------ border differences
@st.composite
def diff_case(draw):
    m = draw(st.integers(1, 6))
    U = draw(st.lists(st.integers(0, 9), min_size=m, max_size=m, unique=True))
    S = draw(st.lists(st.integers(0, 2 ** m - 2), min_size=1, max_size=4))
    return {"U": U, "S": S}


@sub("C10", "border-difference", diff_case, quick=4000, thorough=20000)
def c_diff(case):
    U = set(case["U"])
    S = [{u for j, u in enumerate(case["U"]) if s >> j & 1} for s in case["S"]]
    with sut("border_diff"):
        left, right = border_diff(set(U), [set(s) for s in S])
        left = [frozenset(x) for x in left]
    same(set(right), U, "right border")
    want = minimal(X for X in subsets(U) if not any(X <= s for s in S))
    same(sorted(map(sorted, set(left))), sorted(map(sorted, want)), "left border")
    return len(S) >= 2 and len(U) >= 3, ["S:%d" % len(S)]


@st.composite
def family_case(draw):
    m = draw(st.integers(1, 6))
    fam = st.lists(st.integers(1, 2 ** m - 1), min_size=1, max_size=4, unique=True)
    return {"m": m, "a": draw(fam), "b": draw(fam), "size": draw(st.integers(1, 4))}


def to_sets(masks):
    s = [frozenset(j for j in range(8) if x >> j & 1) for x in masks]
    return [f for f in s if not any(f < g for g in s)]


@sub("C10", "borders", family_case, quick=4000, thorough=20000)
def c_borders(case):
    A, B = to_sets(case["a"]), to_sets(case["b"])
    with sut("mbdllborder"):
        bs = [([frozenset(x) for x in left], frozenset(r)) for left, r in mbdllborder([set(a) for a in A], [set(b) for b in B])]
    want = [b for b in B if not any(b <= a for a in A)]
    same(sorted(sorted(r) for _, r in bs), sorted(map(sorted, want)), "right borders")
    for left, r in bs:
        mins = minimal(X for X in subsets(r) if not any(X <= a for a in A))
        same(sorted(map(sorted, set(left))), sorted(map(sorted, mins)), "left border of %r" % sorted(r))
        with sut("borders_to_patterns"):
            pats = [frozenset(p) for p in borders_to_patterns([set(x) for x in left], set(r), min_size=case["size"])]
        exp = {X for X in subsets(r, case["size"]) if X != r and any(l < X for l in left)}
        same(sorted(map(sorted, pats)), sorted(map(sorted, exp)), "patterns between the borders of %r" % sorted(r))
        sizes = [len(p) for p in pats]
        require(sizes == sorted(sizes, reverse=True), "bigger patterns first", sizes)
    return any(len(left) >= 2 for left, _ in bs), ["right borders:%d" % len(bs)]


# ------------------------------------------------------------------ larger families, by bit masks
def bits(mask):
    return frozenset(j for j in range(mask.bit_length()) if mask >> j & 1)


def minimal_outside(U, S):
    """The minimal submasks of U inside no member of S, by exhaustion."""
    sub, out = [], []
    x = U
    while True:  # every submask of U
        sub.append(x)
        if not x:
            break
        x = (x - 1) & U
    up = [x for x in sub if not any(x & ~s == 0 for s in S)]
    ups = set(up)
    for x in up:
        if not any(x >> j & 1 and x & ~(1 << j) in ups for j in range(x.bit_length())):
            out.append(x)
    return {bits(x) for x in out}


@st.composite
def large_family_case(draw):
    m = draw(st.integers(6, 15))
    k = draw(st.integers(1, 14 if m <= 11 else 6))
    rnd = random.Random(draw(st.integers(0, 10 ** 6)))
    w = lambda lo, hi: sum(1 << i for i in rnd.sample(range(m), rnd.randint(lo, hi)))
    A = [w(m // 3, 2 * m // 3 + 1) for _ in range(k)]
    B = [w(m // 2, m) for _ in range(draw(st.integers(1, 3)))]
    if draw(st.booleans()):
        B[0] = 2 ** m - 1
    return {"m": m, "A": A, "B": B, "size": draw(st.integers(1, 5)), "expand": draw(st.booleans())}


@sub("C10", "borders-large", large_family_case, quick=250, thorough=5000)
def c_borders_large(case):
    top = lambda fam: [f for f in set(fam) if not any(f != g and f & ~g == 0 for g in set(fam))]
    A, B = top(case["A"]), top(case["B"])
    with sut("mbdllborder"):
        bs = [([frozenset(x) for x in left], frozenset(r)) for left, r in mbdllborder([set(bits(a)) for a in A], [set(bits(b)) for b in B])]
    want = [b for b in B if not any(b & ~a == 0 for a in A)]
    same(sorted(sorted(r) for _, r in bs), sorted(sorted(bits(b)) for b in want), "right borders")
    n = 0
    for left, r in bs:
        u = sum(1 << j for j in r)
        mins = minimal_outside(u, A)
        n = max(n, len(mins))
        same(sorted(map(sorted, set(left))), sorted(map(sorted, mins)), "left border of %r" % sorted(r))
    for left, r in bs[:1] if case["expand"] else []:
        with sut("borders_to_patterns"):
            pats = [frozenset(p) for p in borders_to_patterns([set(x) for x in left], set(r), min_size=case["size"])]
        exp = {X for X in subsets(r, case["size"]) if X != r and any(l < X for l in left)}
        same(len(pats), len(set(pats)), "patterns, each once")
        require(set(pats) == exp, "patterns between the borders of %r" % sorted(r), "missing", [sorted(x) for x in exp - set(pats)][:5], "wrong", [sorted(x) for x in set(pats) - exp][:5])
    return n >= 3, ["sets:%d" % (len(A) // 5 * 5), "widest>12" if max((len(r) for _, r in bs), default=0) > 12 else "widest<=12"]


# ------------------------------------------------------------------ the miner
@st.composite
def miner_case(draw):
    m = draw(st.integers(3, 7))
    full = 2 ** m - 1
    its = draw(items(m))
    base = draw(st.lists(st.integers(1, full), min_size=1, max_size=3))
    base = [full & (b | (b << 1)) for b in base]
    n2, n1 = draw(st.integers(1, 8)), draw(st.integers(1, 8))
    rows, y = [], []
    sparse = draw(st.booleans())
    for c, n in ((1, n2), (0, n1)):
        for _ in range(n):
            r = draw(st.integers(0, full))
            k = draw(st.integers(0, 3))
            z = draw(st.integers(0, full))
            if c == 1:
                r = base[k % len(base)] | (r & z) if k < 3 else r
            else:
                r = (r & z) if k < 3 or sparse else r
            rows.append([i for i in range(m) if r >> i & 1] or [r % m])
            y.append(c)
    if draw(st.integers(0, 3)) == 0:  # empty transactions count too
        for _ in range(draw(st.integers(1, 3))):
            rows.append([])
            y.append(draw(st.integers(0, 1)))
    if draw(st.booleans()):
        rows, y = rows[::-1], y[::-1]
    s, g = draw(st.sampled_from([(0.1, 2), (0.05, 3), (0.2, 2), (0.3, 1.5), (0.25, 4), (0.4, 1.2), (0.15, 2.5), (0.01, 10),
                                 (0.9, 1.1), (0.6, 1.5), (0.5, 1.9), (0.7, 1.3), (0.6, 2), (0.9, 4), (0.3, 5)]))
    return {"db": {"items": its, "rows": rows}, "y": y, "g": g, "s": s,
            "size": draw(st.sampled_from([1, 2, 2, 3, 4])), "lab": draw(st.sampled_from(["int", "str", "swap"])),
            "yform": draw(st.sampled_from(["array", "series", "index"])), "again": draw(st.booleans())}


def safe(threshold, n):
    return abs(threshold * n - round(threshold * n)) > 1e-6


@sub("C10", "miner", miner_case, quick=5000, thorough=25000)
def c_miner(case):
    return run_miner(case, 1)


@st.composite
def large_miner_case(draw):
    c = {"a": draw(big_db(n=(5, 90), m=(8, 12), npat=(2, 8), size=(2, 9), noise=(0, 10))),
         "b": draw(big_db(n=(5, 90), m=(8, 12), npat=(1, 6), size=(3, 12), noise=(0, 6)))}
    s, g = draw(st.sampled_from([(0.1, 2), (0.05, 3), (0.2, 2), (0.3, 1.5), (0.02, 5), (0.15, 2.5), (0.01, 10), (0.1, 1.3)]))
    return dict(c, s=s, g=g, size=draw(st.sampled_from([None, 2, 3, 5])), lab=draw(st.sampled_from(["int", "str", "swap"])),
                yform=draw(st.sampled_from(["array", "series", "index"])), again=draw(st.booleans()))


@sub("C10", "miner-large", large_miner_case, quick=48, thorough=2000)
def c_miner_large(case):
    a, b = big_rows(dict(case["a"], item="int")), big_rows(dict(case["b"], item="int"))
    rows, y = a + b, [0] * len(a) + [1] * len(b)
    return run_miner(dict(case, db={"items": list(range(14)), "rows": rows}, y=y), 1)


@sub("C10", "miner-parallel", miner_case, quick=16, thorough=100, shards=2)
def c_miner_parallel(case):
    return run_miner(case, 2)


def run_miner(case, n_jobs):
    rows = rows_of(case["db"])
    size = 3 if case["size"] is None else case["size"]  # the documented default
    lab = {"int": [0, 1], "str": ["drink", "food"], "swap": [-2, 7]}[case["lab"]]
    y = [lab[v] for v in case["y"]]
    first, second = sorted(set(y))
    g, s = case["g"], case["s"]
    r1 = [r for r, v in zip(rows, y) if v == first]
    r2 = [r for r, v in zip(rows, y) if v == second]
    # a threshold that falls on a possible support is decided by rounding: move off it
    while not (safe(s, len(r1)) and safe(g * s, len(r2))):
        s *= 0.97
    D = pd.Series(rows)
    yy = np.array(y)
    if case["yform"] == "series":
        yy = pd.Series(y)
    elif case["yform"] == "index":
        D.index = [3 * i + 1 for i in range(len(rows))]
        yy = pd.Series(y, index=D.index)
    if g * s > 1:  # no itemset can reach this support: nothing, or an error
        try:
            pats = list(MBDLLBorder(min_growth_rate=g, min_supp=s, n_jobs=n_jobs).fit(D, yy).discover(min_size=size))
        except ValueError:
            return False, ["impossible thresholds"]
        same(pats, [], "patterns for impossible thresholds")
        return False, ["impossible thresholds"]
    with sut("fit / discover"):
        ep = MBDLLBorder(min_growth_rate=g, min_supp=s, n_jobs=n_jobs)
        if case["again"]:
            ep.fit(D, pd.Series([second if v == first else first for v in y], index=D.index))
        ep.fit(D, yy)
        res = ep.discover() if case["size"] is None else ep.discover(min_size=case["size"])
        pats = [tuple(p) for p in res]
    got = {frozenset(p) for p in pats}
    n1, n2 = len(r1), len(r2)
    s1, s2 = [frozenset(r) for r in r1], [frozenset(r) for r in r2]

    @functools.lru_cache(None)
    def c1(X):
        return sum(X <= r for r in s1)

    @functools.lru_cache(None)
    def c2(X):
        return sum(X <= r for r in s2)
    for p in pats:
        X = frozenset(p)
        require(len(X) == len(p) and len(X) >= size, "malformed pattern or below the minimum size", p)
        require(c2(X) / n2 >= g * s - 1e-9, "pattern below the minimum support", p, c2(X), n2)
        require(c1(X) / n1 < s and c2(X) * n1 > g * c1(X) * n2 - 1e-9, "pattern is not emerging", p, c1(X), n1, c2(X), n2)
    # exactly the itemsets strictly between the borders
    U2 = maximal_itemsets(r2, g * s * n2)
    want = set()
    for U in U2:
        for X in subsets(U, size):
            if X != U and c1(X) / n1 < s and any(c1(X - {x}) / n1 < s for x in X):
                want.add(X)
    same(sorted(map(sorted, got)), sorted(map(sorted, want)), "emerging patterns")
    return len(want) >= 1, ["patterns" if want else "none", "nothing frequent in the first" if not maximal_itemsets(r1, s * n1) else "both frequent", "size>=2" if size > 1 else "size1"]


@sub("C10", "rejects", lambda: st.just(["supp-int", "supp-neg", "supp-big", "supp-barely", "growth1", "growth-low", "growth-neg", "labels1", "labels3", "labels-many"]), quick=1, thorough=1)
def c_rejects(case):
    for c in case:
        c_rej(c)
    return True, list(case)


def c_rej(case):
    D = pd.Series([["a", "b"], ["b"], ["c"]])
    f = {"supp-int": lambda: MBDLLBorder(min_supp=2), "supp-neg": lambda: MBDLLBorder(min_supp=-0.1),
         "supp-big": lambda: MBDLLBorder(min_supp=1.2), "growth1": lambda: MBDLLBorder(min_growth_rate=1),
         "growth-low": lambda: MBDLLBorder(min_growth_rate=0.5),
         "supp-barely": lambda: MBDLLBorder(min_supp=1.0000001), "growth-neg": lambda: MBDLLBorder(min_growth_rate=-2),
         "labels-many": lambda: MBDLLBorder().fit(pd.concat([D] * 9, ignore_index=True), np.array([0, 1] * 13 + [2])),
         "labels1": lambda: MBDLLBorder().fit(D, np.array([1, 1, 1])),
         "labels3": lambda: MBDLLBorder().fit(D, np.array([1, 2, 3]))}[case]
    raises((ValueError, TypeError, AssertionError), f, case)
    return True, [case]
