import os
import shutil

import pandas as pd
from hypothesis import strategies as st

from vk.core import Violation, raises, require, same, sub, sut
from vk.gen import CONTAINERS, big_db, big_rows, container, db, rows_of, wide_db
from vk.itemset_oracle import closed_itemsets, maximal_itemsets

from skmine.itemsets import LCM
from skmine.itemsets.lcm import LCMMax


@st.composite
def threshold(draw, n):
    """Minimum support: absolute, or relative on a value that no rounding can move
    to the other side of a possible support."""
    k = draw(st.integers(1, max(1, min(n, draw(st.sampled_from([1, 2, 2, 3, n]))))))
    form = draw(st.sampled_from(["abs", "abs", "rel"]))
    if form == "abs":
        return {"form": "abs", "k": k if draw(st.integers(0, 9)) else n + 1}
    exact = n & (n - 1) == 0
    return {"form": "rel", "k": k, "exact": bool(exact)}


def min_supp_of(t, n):
    """(argument, the least absolute support that satisfies it)"""
    if t["form"] == "abs":
        return t["k"], t["k"]
    if t["exact"]:
        return t["k"] / n, t["k"]
    return (t["k"] - 0.5) / n, t["k"]


@st.composite
def mining_case(draw, max_n=14, max_m=9):
    d = draw(db(max_n=max_n, max_m=max_m))
    n = len(d["rows"])
    return {"db": d, "thr": draw(threshold(n)), "cont": draw(st.sampled_from(CONTAINERS))}


def table(df, tids):
    """DataFrame -> list of (tuple itemset, support[, tids])"""
    require(isinstance(df, pd.DataFrame), "result is not a DataFrame", type(df))
    cols = ["itemset", "support"] + (["tids"] if tids else [])
    same(list(df.columns), cols, "columns")
    out = []
    for r in df.itertuples(index=False):
        e = (tuple(r.itemset), int(r.support))
        require(e[1] == r.support, "support is not an integer", r.support)
        out.append(e + ((tuple(int(x) for x in r.tids),) if tids else ()))
    return out


def compare(got, want, what):
    """got: list of (itemset tuple, support[, tids]); want: {frozenset: tids}"""
    seen = {}
    for g in got:
        f = frozenset(g[0])
        require(len(f) == len(g[0]), what + ": an item is repeated inside an itemset", g)
        require(f not in seen, what + ": itemset reported twice", sorted(g[0]))
        seen[f] = g
    missing = [sorted(f) for f in want if f not in seen]
    extra = [sorted(f) for f in seen if f not in want]
    require(not missing, what + ": missing itemsets", missing)
    require(not extra, what + ": itemsets that should not be there", extra)
    for f, g in seen.items():
        same(g[1], len(want[f]), "%s: support of %r" % (what, sorted(f)))
        if len(g) == 3:
            same(sorted(g[2]), list(want[f]), "%s: transaction ids of %r" % (what, sorted(f)))


def labels(case, want):
    lb = [case["thr"]["form"], "cont:" + case["cont"], "item:" + type(case["db"]["items"][0]).__name__]
    if any(len(set(r)) < len(r) for r in case["db"]["rows"]):
        lb.append("repeated item in a row")
    if any(not r for r in case["db"]["rows"]):
        lb.append("empty row")
    lb.append("n_itemsets>=10" if len(want) >= 10 else "n_itemsets<10")
    return lb


def run_exact(case, cls, oracle, what):
    rows = rows_of(case["db"])
    arg, k = min_supp_of(case["thr"], len(rows))
    want = oracle(rows, k)
    D = container(rows, case["cont"])
    with sut(what):
        m = cls(min_supp=arg)
        got = table(m.fit_transform(D), False)
    compare(got, want, what)
    with sut(what + " with transaction ids"):
        got = table(m.transform(D, return_tids=True), True)
    compare(got, want, what + " with transaction ids")
    return len(want) >= 2, labels(case, want)


def closed_at(rows, k):
    return {c: t for c, t in closed_itemsets(rows).items() if len(t) >= k}


@sub("C01", "closed", lambda: mining_case(), quick=9000, thorough=60000)
def c_closed(case):
    return run_exact(case, LCM, closed_at, "closed itemsets")


@sub("C01", "closed-large", lambda: mining_case(max_n=40, max_m=14), quick=2800, thorough=12000)
def c_closed_large(case):
    return run_exact(case, LCM, closed_at, "closed itemsets")


@sub("C03", "maximal", lambda: mining_case(), quick=9000, thorough=60000)
def c_max(case):
    return run_exact(case, LCMMax, maximal_itemsets, "maximal itemsets")


@sub("C03", "maximal-large", lambda: mining_case(max_n=40, max_m=14), quick=2800, thorough=12000)
def c_max_large(case):
    return run_exact(case, LCMMax, maximal_itemsets, "maximal itemsets")


@st.composite
def wide_case(draw):
    d = draw(wide_db())
    return {"db": d, "thr": draw(threshold(len(d["rows"]))), "cont": draw(st.sampled_from(CONTAINERS))}


@sub("C01", "closed-wide", wide_case, quick=2000, thorough=8000)
def c_closed_wide(case):
    return run_exact(case, LCM, closed_at, "closed itemsets")


@sub("C03", "maximal-wide", wide_case, quick=2000, thorough=8000)
def c_max_wide(case):
    return run_exact(case, LCMMax, maximal_itemsets, "maximal itemsets")


# ------------------------------------------------- long databases, wide rows
@st.composite
def tall_case(draw):
    """Hundreds of rows built from few patterns: exercises counts past one byte."""
    m = draw(st.integers(3, 70))
    npat = draw(st.integers(1, 5))
    pats = [draw(st.lists(st.integers(0, m - 1), min_size=1, max_size=6, unique=True)) for _ in range(npat)]
    reps = [draw(st.integers(1, 150)) for _ in range(npat)]
    order = draw(st.sampled_from(["block", "interleave"]))
    return {"m": m, "pats": pats, "reps": reps, "order": order, "k": draw(st.integers(1, 200)), "rel": draw(st.booleans())}


def expand(case):
    parts = [[p] * r for p, r in zip(case["pats"], case["reps"])]
    if case["order"] == "block":
        rows = [x for p in parts for x in p]
    else:
        rows = [p[i] for i in range(max(map(len, parts))) for p in parts if i < len(p)]
    return [list(r) for r in rows]


def run_tall(case, cls, oracle, what):
    rows = expand(case)
    arg = k = case["k"]
    if case["rel"]:  # a share of the transactions, half way between two possible supports
        k = min(k, len(rows))
        arg = (k - 0.5) / len(rows)
    want = oracle(rows, k)
    with sut(what):
        got = table(cls(min_supp=arg).fit_transform(rows, return_tids=True), True)
    compare(got, want, what)
    return len(want) >= 1, ["rows>=256" if len(rows) >= 256 else "rows<256"]


@sub("C01", "closed-tall", tall_case, quick=2000, thorough=5000)
def c_tall(case):
    return run_tall(case, LCM, closed_at, "closed itemsets")


@sub("C03", "maximal-tall", tall_case, quick=2000, thorough=5000)
def c_tall_max(case):
    return run_tall(case, LCMMax, maximal_itemsets, "maximal itemsets")


# ------------------------------------------------- tens of items, long itemsets, many maximal ones
@st.composite
def huge_case(draw):
    kind = draw(st.sampled_from(["few rows", "few rows", "many sets"]))
    if kind == "few rows":  # long rows: closed itemsets of tens of items
        c = draw(big_db(n=(2, 7), m=(20, 130), npat=(2, 8), size=(5, 70), noise=(0, 12)))
        c["k"] = draw(st.integers(1, 3))
    else:  # many small distinct sets: the maximal itemsets are many
        c = draw(big_db(n=(60, 260), m=(12, 40), npat=(60, 260), size=(2, 3), noise=(0, 0), pick=(1, 1)))
        c["k"] = draw(st.sampled_from([1, 1, 1, 2]))
    c["kind"], c["tids"] = kind, draw(st.booleans())
    return c


def run_huge(case, cls, oracle, what):
    rows = big_rows(case)
    want = oracle(rows, case["k"])
    with sut(what):
        got = table(cls(min_supp=case["k"]).fit_transform(rows, return_tids=case["tids"]), case["tids"])
    compare(got, want, what)
    lb = [case["kind"]]
    if max(map(len, want), default=0) > 20:
        lb.append("itemset of more than 20 items")
    if len(want) > 100:
        lb.append("more than 100 itemsets")
    if len({i for r in rows for i in r}) > 64:
        lb.append("more than 64 items")
    return len(want) >= 2, lb


@sub("C01", "closed-huge", huge_case, quick=960, thorough=1500)
def c_huge(case):
    return run_huge(case, LCM, closed_at, "closed itemsets")


@sub("C03", "maximal-huge", huge_case, quick=960, thorough=1500)
def c_huge_max(case):
    return run_huge(case, LCMMax, maximal_itemsets, "maximal itemsets")


# ------------------------------------------------- order invariance, refit histories
@st.composite
def invariance_case(draw):
    c = draw(mining_case(max_n=10, max_m=7))
    n, m = len(c["db"]["rows"]), len(c["db"]["items"])
    c["rowperm"] = list(draw(st.permutations(range(n))))
    c["itemperm"] = list(draw(st.permutations(range(m))))
    c["other"] = draw(db(max_n=6, max_m=5))
    c["cls"] = draw(st.sampled_from(["closed", "maximal"]))
    return c


def c_history(case, name):
    """One miner object used on another database first gives what a fresh one gives; so does
    the same database with rows permuted (the ids permuted accordingly) and renamed items."""
    cls, oracle = (LCM, closed_at) if name == "closed" else (LCMMax, maximal_itemsets)
    rows = rows_of(case["db"])
    arg, k = min_supp_of(case["thr"], len(rows))
    want = oracle(rows, k)
    other = rows_of(case["other"])
    with sut("refit"):
        m = cls(min_supp=1)
        m.fit(other)
        m.transform(other, return_tids=True)
        m.set_params(min_supp=arg)
        m.fit(rows)
        got = table(m.transform(rows, return_tids=True), True)
        got2 = table(m.transform(rows), False)
    compare(got, want, "after another fit")
    compare(got2, want, "second transform")
    perm = [list(reversed(rows[i])) for i in case["rowperm"]]
    with sut("permuted rows"):
        got = table(cls(min_supp=arg).fit_transform(perm, return_tids=True), True)
    back = [(g[0], g[1], tuple(case["rowperm"][t] for t in g[2])) for g in got]
    compare(back, want, "permuted rows")
    its = case["db"]["items"]
    ren = {a: its[j] for a, j in zip(its, case["itemperm"])}
    inv = {b: a for a, b in ren.items()}
    with sut("renamed items"):
        got = table(cls(min_supp=arg).fit_transform([[ren[x] for x in r] for r in rows], return_tids=True), True)
    compare([(tuple(inv[x] for x in g[0]),) + g[1:] for g in got], want, "renamed items")
    return len(want) >= 2, [name]


@sub("C01", "closed-histories", invariance_case, quick=2400, thorough=15000)
def c_hist_closed(case):
    return c_history(case, "closed")


@sub("C03", "maximal-histories", invariance_case, quick=2400, thorough=15000)
def c_hist_max(case):
    return c_history(case, "maximal")


# ------------------------------------------------- output options
@st.composite
def option_case(draw):
    wide = draw(st.integers(0, 5)) == 0
    c = draw(wide_case() if wide else mining_case(max_n=10, max_m=8))
    c["cls"] = draw(st.sampled_from(["closed", "maximal"]))
    c["max_length"] = draw(st.integers(1, 14 if wide else 6)) if draw(st.booleans()) else -1
    c["lex"] = draw(st.booleans())
    c["tids"] = draw(st.booleans())
    c["n_jobs"] = 1
    c["prev"] = draw(st.booleans())
    c["omit"] = draw(st.booleans())
    return c


@sub("C02", "options", option_case, quick=7500, thorough=40000)
def c_options(case):
    rows = rows_of(case["db"])
    return run_options(case, rows, container(rows, case["cont"]))


@st.composite
def tall_option_case(draw):
    c = draw(option_case())
    c["db"] = None
    c["tall"] = draw(tall_case())
    c["thr"] = {"form": "abs", "k": c["tall"]["k"] if draw(st.booleans()) else 1}
    return c


@sub("C02", "options-tall", tall_option_case, quick=900, thorough=2000)
def c_options_tall(case):
    rows = expand(case["tall"])
    return run_options(case, rows, container(rows, case["cont"]))


def run_options(case, rows, D):
    cls, oracle = (LCM, closed_at) if case["cls"] == "closed" else (LCMMax, maximal_itemsets)
    arg, k = min_supp_of(case["thr"], len(rows))
    full = oracle(rows, k)
    L = case["max_length"]
    want = {c: t for c, t in full.items() if L == -1 or len(c) <= L}
    kw = dict(return_tids=case["tids"], lexicographic_order=case["lex"], max_length=L)
    if case.get("omit"):  # the defaults, left out
        default = dict(return_tids=False, lexicographic_order=True, max_length=-1)
        kw = {a: v for a, v in kw.items() if v != default[a]}
    with sut("transform with options"):
        m = cls(min_supp=arg, n_jobs=case["n_jobs"]).fit(D)
        if case["prev"]:  # options of an earlier call must not stick
            m.transform(D, return_tids=not case["tids"], lexicographic_order=not case["lex"], max_length=1)
        df = m.transform(D, **kw)
        got = table(df, case["tids"])
        kinds = {type(i) for i in df["itemset"]}
    compare(got, want, "with options %r" % (kw,))
    require(kinds <= {list}, "itemsets are not lists", kinds)
    if case["lex"]:
        for g in got:
            same(list(g[0]), sorted(g[0]), "lexicographic order inside an itemset")
    lb = [case["cls"], "max_length" if L != -1 else "no max_length", "lex" if case["lex"] else "any order"]
    # the file form: "(support) items" lines, each followed by the ids when asked for
    strs = {str(i): i for r in rows for i in r}
    if all(" " not in s and s.strip() == s and s for s in strs) and len(strs) == len({i for r in rows for i in r}):
        path = os.path.join(os.getcwd(), "out.dat")
        with open(path, "w") as fh:
            fh.write("(9) stale\n" * 3)
        known, before = [], set(os.listdir(os.getcwd())) - {"out.dat"}
        if case["prev"]:  # an earlier write that failed half way must not matter
            try:
                m.transform(D, out=os.path.join(os.getcwd(), "missing", "out.dat"), return_tids=not case["tids"])
            except OSError:
                pass
            known = sorted(set(os.listdir(os.getcwd())) - {"out.dat"})
        try:
            with sut("transform to a file"):
                r = m.transform(D, out=path, **kw)
            require(r is None, "transform with an output file returned something", r)
            with open(path) as fh:
                lines = fh.read().splitlines()
        finally:
            if os.path.exists(path):
                os.remove(path)
        left = sorted(set(os.listdir(os.getcwd())) - set(known) - before)
        for f in set(os.listdir(os.getcwd())) - before:
            shutil.rmtree(f, ignore_errors=True) if os.path.isdir(f) else os.remove(f)
        same(left, [], "files left in the working directory")
        parsed = []
        it = iter(lines)
        try:
            for line in it:
                s, rest = line.split(") ", 1) if ") " in line else (line, "")
                require(s.startswith("("), "malformed line in the output file", line)
                e = (tuple(strs[x] for x in rest.split()), int(s[1:]))
                if case["tids"]:
                    e += (tuple(int(x) for x in next(it).split()),)
                parsed.append(e)
        except (ValueError, KeyError, StopIteration) as e:
            raise Violation("unreadable output file: %r (%r)" % (lines[:10], e))
        compare(parsed, want, "output file")
        if case["lex"]:
            for g in parsed:
                same(list(g[0]), sorted(g[0]), "lexicographic order inside an itemset of the file")
        lb.append("file")
    return len(want) >= 2, lb


@sub("C02", "parallel", option_case, quick=72, thorough=200, shards=4)
def c_parallel(case):
    case["n_jobs"] = 2
    return c_options(case)


@st.composite
def invalid_case(draw):
    d = draw(db(max_n=5, max_m=4))
    bad = draw(st.sampled_from([0, -1, -7, 1.5, -0.25, 2.0, 1.0000001, 1.005, 1.01, -1e-9, 37.0, float("inf"), "3", "0.5", None, [1]]))
    return {"db": d, "bad": bad, "cls": draw(st.sampled_from(["closed", "maximal"]))}


@sub("C02", "rejects", invalid_case, quick=120, thorough=1000)
def c_rejects(case):
    cls = LCM if case["cls"] == "closed" else LCMMax
    rows = rows_of(case["db"])
    raises((ValueError, TypeError), lambda: cls(min_supp=case["bad"]).fit(rows),
           "a minimum support of %r" % (case["bad"],))
    return True, [str(case["bad"])]
