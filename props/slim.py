import contextlib
import io
import math
import os
import re
from collections import Counter

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vk.core import HarnessError, Violation, close, raises, require, same, sub, sut
from vk.gen import big_db, big_item, big_rows, container, db, rows_of, wide_db

from skmine.feature_extraction import SLIMVectorizer
from skmine.itemsets import SLIM
from skmine.itemsets.slim_classifier import SlimClassifier

REL, ABS = 2e-4, 2e-2  # code lengths are single precision sums


# ------------------------------------------------------------------ reference
def ref_cover(rows, order):
    """Greedy cover of every row with the itemsets taken in `order`."""
    use = {f: [] for f in order}
    left = []
    for t, r in enumerate(rows):
        rem = set(r)
        for f in order:
            if f <= rem:
                use[f].append(t)
                rem -= f
        left.append(rem)
    return use, left


def ref_sizes(rows, use):
    """(data, model) description lengths for the given usages."""
    cnt = Counter(i for r in rows for i in set(r))
    tot_items = sum(cnt.values())
    start = {i: -math.log2(c / tot_items) for i, c in cnt.items()}
    u = {f: len(t) for f, t in use.items() if len(t)}
    tot = sum(u.values())
    code = {f: -math.log2(c / tot) for f, c in u.items()}
    data = sum(u[f] * code[f] for f in u)
    model = sum(code[f] + sum(start[i] for i in f) for f in u)
    return data, model


def codetable(slim):
    """[(frozenset, sorted tids)] in the order of the code table."""
    return [(frozenset(k), sorted(int(x) for x in v)) for k, v in slim.codetable_.items()]


def clear_unions(rows, ct, margin=1.0):
    """Unions of two used itemsets, not in the table, whose estimated gain is positive by more
    than a bit however the model's share is counted, whichever pair the union comes from."""
    cnt = Counter(i for r in rows for i in set(r))
    tot = sum(cnt.values())
    size = lambda f: sum(-math.log2(cnt[i] / tot) for i in f)
    lg = lambda x: math.log2(x) if x > 0 else 0.0
    have = {f for f, _ in ct}
    used = [(f, set(t), size(f)) for f, t in ct if t]
    c0 = sum(len(t) for _, t, _ in used)
    k0 = len(used)
    est = {}
    for j, (x, tx, sx) in enumerate(used):
        for y, ty, sy in used[j + 1:]:
            xy = x | y
            n = len(tx & ty)
            if not n or xy in have:
                continue
            ox, oy, nx, ny, c1 = len(tx), len(ty), len(tx) - n, len(ty) - n, c0 - n
            db_gain = n * lg(n) + nx * lg(nx) - ox * lg(ox) + ny * lg(ny) - oy * lg(oy) - c1 * lg(c1) + c0 * lg(c0)
            k1 = k0 + 1 - (nx == 0) - (ny == 0)
            worst = -lg(n) + k1 * lg(c1) - k0 * lg(c0)
            for o, w, z in ((ox, nx, sx), (oy, ny, sy)):
                worst += lg(o) - lg(w) if w else z + lg(o)
            g = db_gain - worst - max(sx, sy)
            est[xy] = min(est.get(xy, math.inf), g)
    return {f for f, g in est.items() if g > margin}


def supp(rows, f):
    return sum(1 for r in rows if f <= set(r))


def check_state(slim, rows, extra_items=(), what="code table", sizes=True):
    """The code table is a valid, ordered encoding of `rows`, and its sizes are right."""
    with sut("reading the code table"):
        ct = codetable(slim)
    order = [f for f, _ in ct]
    require(len(set(order)) == len(order), what + ": an itemset appears twice", order)
    known = {i for r in rows for i in r}
    for i in known | set(extra_items):
        require(frozenset([i]) in set(order), what + ": single item without an entry", i)
    for f in order:
        require(f and f <= known | set(extra_items), what + ": entry with an unknown item", f)
    sups = [(-len(f), -supp(rows, f)) for f in order]
    require(sups == sorted(sups), what + ": not in standard cover order", list(zip(order, sups)))
    use, left = ref_cover(rows, order)
    require(not any(left), what + ": not every item is covered", left)
    got = dict(ct)
    for f in order:
        same(got[f], use[f], "%s: transactions whose cover uses %r" % (what, sorted(f)))
    if sizes:
        d, m = ref_sizes(rows, use)
        close(slim.data_size_, d, what + ": data size", REL, ABS)
        close(slim.model_size_, m, what + ": model size", REL, ABS)
    return ct


def check_lossless(slim, rows, what="reconstruct"):
    with sut(what):
        rec = [list(x) for x in slim.reconstruct()]
    want = [sorted(set(r)) for r in rows]
    while want and not want[-1]:
        want.pop()
    while rec and not rec[-1]:
        rec.pop()
    same(rec, want, what)


def total(slim):
    return float(slim.data_size_ + slim.model_size_)


# ------------------------------------------------------------------ inputs
FORMS = ["list", "series", "tuples", "sets", "series_idx", "strings", "frame", "frame_bool", "frame_count", "frame_float", "array"]


@st.composite
def slim_case(draw, max_n=14, max_m=7):
    return {"db": draw(db(max_n=max_n, max_m=max_m)), "form": draw(st.sampled_from(FORMS)),
            "pruning": draw(st.booleans()), "max_time": draw(st.sampled_from([-1, -1, -1, 0])),
            "universe": draw(st.sampled_from([0, 0, 0, 1, 3, 15]))}


@st.composite
def wide_case(draw):
    return {"db": draw(wide_db(max_n=30, max_m=16)), "form": draw(st.sampled_from(FORMS)),
            "pruning": draw(st.booleans()), "max_time": -1}


def make_input(d, form):
    """(X, rows): the database in one of the accepted forms and what it denotes."""
    rows = rows_of(d)
    if form.startswith("frame") or form == "array":
        its = d["items"]
        mat = np.array([[1 if i in set(r) else 0 for i in range(len(its))] for r in d["rows"]])
        if form == "array":
            return mat, [[i for i in range(len(its)) if i in set(r)] for r in d["rows"]]
        if form == "frame_bool":
            mat = mat.astype(bool)
        elif form == "frame_float":
            mat = mat.astype(float)
        elif form == "frame_count":  # an item is there as soon as its count is not null
            mat = mat * np.array([[1 + (5 * t + i) % 3 for i in range(len(its))] for t in range(len(rows))])
        return pd.DataFrame(mat, columns=its, index=[5 + 3 * i for i in range(len(rows))]), rows
    return container(rows, form), rows


def known_items(X, rows):
    if hasattr(X, "columns"):
        return list(X.columns)
    if isinstance(X, np.ndarray):
        return list(range(X.shape[1]))
    return []


def universe(case, rows):
    """Items announced to the model (some of them in no transaction), or None."""
    n = case.get("universe", 0)
    if not n:
        return None
    have = sorted({i for r in rows for i in r})
    return have[n % 2:] + [("~u%02d" % j if isinstance(have[0], str) else have[-1] + 1000 + 3 * j) for j in range(n)]


# ------------------------------------------------------------------ C04 lossless
@sub("C04", "reconstruct", slim_case, quick=4800, thorough=20000)
def c_lossless(case):
    X, rows = make_input(case["db"], case["form"])
    with sut("fit"):
        s = SLIM(pruning=case["pruning"], max_time=case["max_time"], items=universe(case, rows)).fit(X)
    check_lossless(s, rows)
    # the table handed to the user is enough to rebuild the data
    with sut("transform with transaction ids"):
        df = s.transform(X, singletons=True, return_tids=True)
        pairs = [(list(i), [int(t) for t in ts]) for i, ts in zip(df["itemset"], df["tids"])]
    reb = [[] for _ in rows]
    for i, ts in pairs:
        for t in ts:
            require(0 <= t < len(rows), "transaction id out of range", t)
            reb[t].extend(i)
    for t, r in enumerate(rows):
        same(sorted(reb[t]), sorted(set(r)), "transaction %d rebuilt from the published patterns" % t)
    big = any(len(i) > 1 for i, _ in pairs)
    return big, ["form:" + case["form"], "pruning" if case["pruning"] else "no pruning",
                 "has patterns" if big else "singletons only"]


@sub("C04", "reconstruct-wide", wide_case, quick=600, thorough=3000)
def c_lossless_wide(case):
    return c_lossless(case)


@st.composite
def tall_case(draw):
    m = draw(st.integers(3, 30))
    npat = draw(st.integers(2, 5))
    pats = [draw(st.lists(st.integers(0, m - 1), min_size=1, max_size=6, unique=True)) for _ in range(npat)]
    reps = [draw(st.integers(1, 120)) for _ in range(npat)]
    return {"pats": pats, "reps": reps, "order": draw(st.booleans()), "pruning": draw(st.booleans())}


def expand(case):
    parts = [[list(p)] * r for p, r in zip(case["pats"], case["reps"])]
    if case["order"]:
        return [list(x) for p in parts for x in p]
    return [list(p[i]) for i in range(max(map(len, parts))) for p in parts if i < len(p)]


@sub("C04", "reconstruct-tall", tall_case, quick=480, thorough=1500)
def c_lossless_tall(case):
    rows = expand(case)
    with sut("fit"):
        s = SLIM(pruning=case["pruning"]).fit(rows)
    check_lossless(s, rows)
    return any(len(f) > 1 for f, _ in codetable(s)), ["rows>=256" if len(rows) >= 256 else "rows<256"]


# ------------------------------------------------------------------ C05 the model and its sizes
@sub("C05", "model", lambda: slim_case(), quick=4000, thorough=20000)
def c_model(case):
    X, rows = make_input(case["db"], case["form"])
    uni = universe(case, rows)
    known = known_items(X, rows) + (uni or [])
    with sut("prefit"):
        s0 = SLIM(pruning=case["pruning"], items=uni).prefit(X)
    base = total(s0)
    check_state(s0, rows, known, "standard code table")
    with sut("fit"):
        s = SLIM(pruning=case["pruning"], max_time=case["max_time"], items=uni).fit(X)
    ct = check_state(s, rows, known)
    require(total(s) <= base + ABS, "the fitted model is longer than the items-only model", total(s), base)
    if case["max_time"] == -1:  # local optimum over its own candidates
        with sut("generate_candidates"):
            cands = [frozenset(c) for c, _ in s.generate_candidates(stack=set(s.codetable_.keys()))]
        for c in set(cands) | clear_unions(rows, ct):
            with sut("evaluate"):
                d, m, _ = s.evaluate(c)
            require(d + m >= total(s) - ABS, "search stopped although a candidate shortens the model",
                    sorted(c), d + m, total(s))
    big = sum(len(f) > 1 for f, _ in ct)
    return big >= 1, ["form:" + case["form"], "patterns:%d" % min(big, 5), "pruning" if case["pruning"] else "no pruning"]


@sub("C05", "model-larger", lambda: slim_case(max_n=30, max_m=9), quick=960, thorough=3000)
def c_model_large(case):
    return c_model(case)


@sub("C05", "model-wide", wide_case, quick=720, thorough=2000)
def c_model_wide(case):
    return c_model(case)


@sub("C05", "model-tall", tall_case, quick=600, thorough=1500)
def c_model_tall(case):
    rows = expand(case)
    with sut("prefit"):
        base = total(SLIM(pruning=case["pruning"]).prefit(rows))
    with sut("fit"):
        s = SLIM(pruning=case["pruning"]).fit(rows)
    ct = check_state(s, rows)
    require(total(s) <= base + ABS, "the fitted model is longer than the items-only model", total(s), base)
    return any(len(f) > 1 for f, _ in ct), ["rows>=256" if len(rows) >= 256 else "rows<256"]


# ------------------------------------------------------------------ many items, many rows
@st.composite
def large_case(draw):
    c = draw(st.one_of(big_db(n=(30, 110), m=(20, 46), npat=(4, 14), size=(3, 10), noise=(0, 4), pick=(1, 2)),
                       big_db(n=(20, 70), m=(16, 32), npat=(2, 8), size=(3, 8), noise=(5, 16), pick=(1, 2))))
    return {"big": c, "form": draw(st.sampled_from(["list", "series", "sets", "frame", "array"])), "pruning": draw(st.booleans()),
            "max_time": -1}


def large_db(case):
    """The same shape as db."""
    c = dict(case["big"], item="int")
    return {"items": [big_item(case["big"]["item"], i) for i in range(c["m"])], "rows": [sorted(set(r)) for r in big_rows(c)]}


@sub("C04", "reconstruct-large", large_case, quick=48, thorough=1000)
def c_lossless_large(case):
    return c_lossless(dict(case, db=large_db(case)))


@sub("C05", "model-large", large_case, quick=128, thorough=1000)
def c_model_big(case):
    ok, lb = c_model(dict(case, db=large_db(case)))
    return ok, lb


@st.composite
def long_model_case(draw):
    """Patterns of tens of items."""
    c = draw(big_db(n=(5, 16), m=(30, 46), npat=(1, 3), size=(28, 45), noise=(0, 1), pick=(1, 1)))
    return {"big": c, "form": draw(st.sampled_from(["list", "frame"])), "pruning": draw(st.booleans()), "max_time": -1}


@sub("C05", "model-long", long_model_case, quick=32, thorough=300)
def c_model_long(case):
    return c_model(dict(case, db=large_db(case)))


@sub("C04", "reconstruct-long", long_model_case, quick=16, thorough=200)
def c_lossless_long(case):
    return c_lossless(dict(case, db=large_db(case)))


@st.composite
def huge_case(draw):
    """Tens of thousands of transactions: counts past two bytes."""
    return {"pats": [draw(st.lists(st.integers(0, 9), min_size=2 - k // 2, max_size=4, unique=True)) for k in range(draw(st.integers(2, 3)))],
            "reps": [66000, draw(st.integers(1, 70000)), draw(st.integers(1, 2000))], "order": True, "pruning": draw(st.booleans())}


@sub("C05", "model-huge", huge_case, quick=24, thorough=100)
def c_model_huge(case):
    return c_model_tall(case)


@sub("C04", "reconstruct-huge", huge_case, quick=8, thorough=60)
def c_lossless_huge(case):
    return c_lossless_tall(case)


# ------------------------------------------------------------------ transform options
@st.composite
def table_case(draw):
    c = draw(slim_case(max_n=10, max_m=6))
    c["opt"] = [draw(st.booleans()) for _ in range(6)]
    return c


@sub("C06", "published-table", table_case, quick=3200, thorough=15000)
def c_table(case):
    X, rows = make_input(case["db"], case["form"])
    singles, tids, lex, drop, to_file, dl = case["opt"]
    uni = universe(case, rows)
    with sut("fit"):
        s = SLIM(pruning=case["pruning"], items=uni).fit(X)
    ct = check_state(s, rows, known_items(X, rows) + (uni or []), sizes=False)
    want = [(f, t) for f, t in ct if (t or not drop) and (singles or len(f) > 1)]
    kw = dict(singletons=singles, return_tids=tids, lexicographic_order=lex, drop_null_usage=drop)
    printed = io.StringIO()
    with sut("transform"):
        with contextlib.redirect_stdout(printed):
            df = s.transform(X, return_dl=dl, **kw)
        same(list(df.columns), ["itemset", "tids" if tids else "usage"], "columns")
        same({type(i) for i in df["itemset"]} - {list}, set(), "types of the itemsets")
        got = [(list(r[0]), sorted(int(x) for x in r[1]) if tids else int(r[1])) for r in df.values.tolist()]
    same([frozenset(g[0]) for g in got], [f for f, _ in want], "published itemsets")
    for (i, u), (f, t) in zip(got, want):
        same(len(i), len(f), "items in an itemset")
        if lex:
            same(i, sorted(i), "lexicographic order inside an itemset")
        same(u, t if tids else len(t), "usage of %r" % sorted(f))
    if dl:  # the sizes are displayed on request
        nums = [float(x) for x in re.findall(r"(?<![\w.])\d+(?:\.\d+)?(?:e[-+]?\d+)?(?!\w)", printed.getvalue())]
        for v, what in ((s.data_size_, "data"), (s.model_size_, "model"), (total(s), "total")):
            require(any(abs(x - v) <= 0.01 * abs(v) + 0.05 for x in nums), "the %s size is not displayed" % what, v, printed.getvalue())
    if to_file:
        path = os.path.join(os.getcwd(), "slim_out.dat")
        with sut("transform to a file"):
            r = s.transform(X, out=path, **kw)
        require(r is None, "transform with an output file returned something", r)
        try:
            with open(path) as fh:
                lines = fh.read().splitlines()
        finally:
            os.remove(path)
        exp = []
        for i, u in got:
            n = len(u) if tids else u
            exp.append("(%d) %s" % (n, " ".join(map(str, i))))
            if tids:
                exp.append(" ".join(map(str, u)))
        if lex:
            same(lines, exp, "output file")
        else:
            same(len(lines), len(exp), "lines of the output file")
    return any(len(f) > 1 for f, _ in ct), ["form:" + case["form"], "file" if to_file else "memory"]


# ------------------------------------------------------------------ C06 cover of unseen data
@st.composite
def cover_case(draw):
    c = draw(slim_case(max_n=12, max_m=6))
    m = len(c["db"]["items"])
    c["new"] = draw(st.lists(st.lists(st.integers(0, m + 1), max_size=m + 2, unique=True), min_size=1, max_size=7))
    c["vec"] = draw(st.integers(0, 4)) == 0
    return c


def new_data(case):
    """(X2, rows2) in the same form; ids >= m are items never seen."""
    d = dict(case["db"])
    its = list(d["items"])
    extra = ["zz1", "zz2"] if isinstance(its[0], str) else [max(its) + 11, min(its) - 13]
    if case["form"] == "strings":
        extra = ["y", "z"]
    if case["form"] == "array":
        new = [[i for i in r if i < len(its)] for r in case["new"]]
        return make_input({"items": its, "rows": new}, "array")
    return make_input({"items": its + extra, "rows": case["new"]}, case["form"])


@sub("C06", "cover-new-data", cover_case, quick=4000, thorough=20000)
def c_cover(case):
    X, rows = make_input(case["db"], case["form"])
    X2, rows2 = new_data(case)
    uni = None if case["vec"] else universe(case, rows)
    with sut("fit"):  # the vectorizer is a compression model as well
        s = SLIMVectorizer(pruning=case["pruning"]).fit(X) if case["vec"] else SLIM(pruning=case["pruning"], items=uni).fit(X)
    ct = check_state(s, rows, known_items(X, rows) + (uni or []), sizes=False)
    return compare_cover(case, s, ct, X2, rows2)


def compare_cover(case, s, ct, X2, rows2):
    order = [f for f, _ in ct]
    seen = {i for f in order for i in f}
    with sut("cover"):
        df = s.cover(X2)
        cols = [frozenset(c) for c in df.columns]
        mat = df.values.tolist()
    same(len(mat), len(rows2), "rows of the cover")
    require(len(set(cols)) == len(cols), "an itemset has two columns", cols)
    require(set(cols) <= set(order), "a column is not in the code table", cols)
    use, left = ref_cover([[i for i in r if i in seen] for r in rows2], order)
    use = {f: set(t) for f, t in use.items()}
    for t, r in enumerate(rows2):
        got = [c for c, b in zip(cols, mat[t]) if b]
        want = [f for f in order if t in use[f]]
        same(sorted(map(sorted, got)), sorted(map(sorted, want)), "cover of %r" % (r,))
    # code lengths: Laplace corrected usages of the whole table
    u = {f: len(t) + 1 for f, t in ct}
    tot = sum(u.values())
    with sut("get_code_length"):
        cl = [float(x) for x in s.get_code_length(X2)]
        pr = [float(x) for x in s.decision_function(X2)]
    same(len(cl), len(rows2), "number of code lengths")
    same(len(pr), len(rows2), "number of decision values")
    for t, r in enumerate(rows2):
        want = sum(-math.log2(u[f] / tot) for f in order if t in use[f])
        if want == 0:
            want = math.inf
        close(cl[t], want, "code length of %r" % (r,), 1e-4, 1e-4)
        close(pr[t], math.exp(-0.2 * want), "decision value of %r" % (r,), 1e-3, 1e-7)
    unseen = any(i not in seen for r in rows2 for i in r)
    return any(len(f) > 1 for f in order), ["form:" + case["form"], "unseen items" if unseen else "known items only"]


@st.composite
def cover_large_case(draw):
    c = draw(large_case())
    c["vec"], c["new"] = draw(st.integers(0, 4)) == 0, draw(st.sampled_from([20, 300, 700, 700, 70000]))
    c["skip"] = draw(st.integers(0, 10))
    return c


@sub("C06", "cover-large", cover_large_case, quick=40, thorough=800)
def c_cover_large(case):
    """Many items and patterns, hundreds of new rows."""
    n = case["new"]
    if n > 1000:  # a small model, so many rows are affordable
        case = dict(case, big=dict(case["big"], m=8, npat=3, n=20, size=4))
    d = large_db(case)
    X, rows = make_input(d, case["form"])
    with sut("fit"):
        s = (SLIMVectorizer if case["vec"] else SLIM)(pruning=case["pruning"]).fit(X)
    ct = check_state(s, rows, known_items(X, rows), sizes=False)
    other = big_rows(dict(case["big"], item="int", seed=case["big"]["seed"] // 2, n=min(n, 700)))
    part = [sorted(set(r)) for r in other] + d["rows"]
    new = [[i for i in part[t % len(part)] if i % 11 != case["skip"]] for t in range(n)]
    X2, rows2 = make_input({"items": d["items"], "rows": new}, case["form"])
    if n > 1000:
        same(len(part) < 1000, True, "harness")
    return compare_cover(case, s, ct, X2, rows2)


# ------------------------------------------------------------------ C07 histories
@st.composite
def history_case(draw):
    dbs = draw(st.lists(db(max_n=8, max_m=5), min_size=1, max_size=2)) if draw(st.integers(0, 3)) else [draw(wide_db(max_n=12, max_m=12))]
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        o = draw(st.sampled_from(["update", "update", "update", "evaluate", "improve", "fit", "prefit", "read"]))
        ops.append([o, draw(st.integers(0, 1)), draw(st.integers(1, 63 if len(dbs[0]["items"]) < 7 else 4095))])
    return {"dbs": dbs, "pruning": draw(st.booleans()), "ops": ops}


@st.composite
def large_history_case(draw):
    dbs = [dict(draw(big_db(n=(20, 60), m=(10, 28), npat=(2, 8), size=(2, 8), noise=(0, 6))), item="int") for _ in range(draw(st.integers(1, 2)))]
    ops = []
    for _ in range(draw(st.integers(2, 12))):
        o = draw(st.sampled_from(["update", "update", "evaluate", "improve", "improve", "improve", "improve", "prefit", "fit", "read"]))
        few = draw(st.integers(0, 27)), draw(st.integers(0, 27)), draw(st.integers(0, 27))
        ops.append([o, draw(st.integers(0, 1)), sum({1 << i for i in few})])
    return {"big": dbs, "pruning": draw(st.booleans()), "ops": ops}


@st.composite
def many_inserts_case(draw):
    """Tables that come to hold (far) more itemsets than items: most of the subsets of a few items, inserted in any order."""
    d = draw(db(max_n=10, max_m=5))
    n = len(d["items"])
    masks = draw(st.permutations(range(1, 2 ** n)))[: draw(st.integers(4, 31))]
    pre = draw(st.sampled_from(["any", "longest first", "shortest first"]))
    if pre != "any":
        masks = sorted(masks, key=lambda x: bin(x).count("1"), reverse=pre == "longest first")
    ops = [[draw(st.sampled_from(["update"] * 7 + ["evaluate"])), 0, m] for m in masks]
    if draw(st.integers(0, 3)) == 0:
        ops.append(["fit", 0, 1])
        ops += [["update", 0, m] for m in masks[:3]]
    return {"dbs": [d], "pruning": draw(st.sampled_from([False, False, True])), "ops": ops}


@sub("C07", "histories-of-many-inserts", many_inserts_case, quick=700, thorough=8000)
def c_history_many(case):
    return c_history(case)


@sub("C07", "histories-large", large_history_case, quick=120, thorough=2000)
def c_history_large(case):
    dbs = [{"items": list(range(c["m"])), "rows": big_rows(c)} for c in case["big"]]
    return c_history(dict(case, dbs=dbs))


@sub("C07", "histories", history_case, quick=4500, thorough=15000)
def c_history(case):
    dbs = case["dbs"]
    s = SLIM(pruning=case["pruning"])
    cur = dbs[0]
    rows = rows_of(cur)
    with sut("prefit"):
        s.prefit(rows)
    fitted = False
    n_upd, again, refits, n_clear = 0, 0, 0, 0
    for op, k, mask in case["ops"]:
        if op in ("fit", "prefit"):
            cur = dbs[k % len(dbs)]
            rows = rows_of(cur)
            with sut(op):
                getattr(s, op)(rows)
                fresh = getattr(SLIM(pruning=case["pruning"]), op)(rows)
            refits += 1
            fitted |= op == "fit"
            same(codetable(s), codetable(fresh), "%s of an object used before, against a new one" % op)
            close(total(s), total(fresh), "description length after %s of a used object" % op, 1e-6)
        elif op == "read":
            if fitted:
                with sut("transform"):
                    s.transform(rows)
                    s.cover(rows)
                    s.get_code_length(rows)
            its = [i for i in {x for r in rows for x in r} if True]
            its.sort()
            pick = [i for j, i in enumerate(its) if mask >> j & 1] or its[:1]
            with sut("get_support"):
                got = sorted(int(x) for x in s.get_support(*pick))
            same(got, [t for t, r in enumerate(rows) if set(pick) <= set(r)], "support of %r" % (pick,))
        else:
            before = codetable(s), total(s)
            if op == "improve":
                stack = set(s.codetable_.keys())
                with sut("generate_candidates"):
                    cands = s.generate_candidates(stack=stack)
                    pairs = [(frozenset(c), float(g)) for c, g in cands]
                    skip = {c for j, (c, _) in enumerate(pairs) if mask >> (j % 6) & 1}
                    rest = [frozenset(c) for c, _ in s.generate_candidates(stack=set(s.codetable_.keys()) | skip)]
                    more = [frozenset(c) for c, _ in s.generate_candidates(stack=stack)]
                same([c for c in rest if c in skip], [], "candidates proposed although listed as seen")
                same(set(rest), {c for c, _ in pairs} - skip, "candidates when some are listed as seen")
                same(more, [], "candidates proposed again with the same stack")
                keys = [f for f, t in before[0] if t]
                unions = {a | b for a in keys for b in keys if a != b}
                have = {f for f, _ in before[0]}
                for c, g in pairs:
                    require(c in unions and c not in have, "a candidate is not a new union of two used itemsets", sorted(c))
                require([g for _, g in pairs] == sorted((g for _, g in pairs), reverse=True), "candidates not sorted by gain", pairs)
                require(len({c for c, _ in pairs}) == len(pairs), "a candidate is proposed twice", pairs)
                clear = clear_unions(rows, before[0])
                n_clear += len(clear)
                lost = clear - {c for c, _ in pairs}
                require(not lost, "a union of two used itemsets with a clearly positive gain is not proposed", [sorted(c) for c in lost])
                same((codetable(s), total(s)), before, "state after generating candidates")
                if not pairs:
                    continue
                cand = pairs[mask % len(pairs)][0]
            else:
                its = sorted({x for r in rows for x in r})
                cand = frozenset(i for j, i in enumerate(its) if mask >> j & 1) or frozenset(its[:1])
            again += cand in {f for f, _ in before[0]}
            with sut("evaluate"):
                d, m, usages = s.evaluate(cand)
                u = {frozenset(f): sorted(int(x) for x in t) for f, t in usages.items()}
            same((codetable(s), total(s)), before, "state after evaluating a candidate")
            if op != "evaluate":
                with sut("update"):
                    s.update(candidate=cand)
                n_upd += 1
                close(s.data_size_ + s.model_size_, d + m, "size after update against evaluate", 1e-6)
                after = dict(codetable(s))
                for f, t in u.items():
                    same(after.get(f), t, "usage of %r after the update, against evaluate" % sorted(f))
                require(cand in after or case["pruning"], "the inserted candidate is not in the code table", sorted(cand))
        check_state(s, rows, what="after %s" % op)
        check_lossless(s, rows, "reconstruct after %s" % op)
    lb = ["updates:%d" % min(n_upd, 4)]
    if refits:
        lb.append("refit")
    if again:
        lb.append("candidate already present")
    if n_clear:
        lb.append("clear gains")
    return n_upd >= 1, lb
