import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.multiclass import OneVsRestClassifier

from props.slim import ABS, codetable, container, ref_cover, rows_of
from vk.core import close, raises, require, same, sub, sut
from vk.gen import big_db, big_rows, db

from skmine.feature_extraction import SLIMVectorizer
from skmine.itemsets import SLIM
from skmine.itemsets.slim_classifier import SlimClassifier


def lengths(ct, rows):
    """Reference code length of every row under a fitted code table."""
    order = [f for f, _ in ct]
    seen = {i for f in order for i in f}
    use, _ = ref_cover([[i for i in r if i in seen] for r in rows], order)
    use = {f: set(t) for f, t in use.items()}
    u = {f: len(t) + 1 for f, t in ct}
    tot = sum(u.values())
    out = []
    for t in range(len(rows)):
        x = sum(-math.log2(u[f] / tot) for f in order if t in use[f])
        out.append(x if x else math.inf)
    return out


# ------------------------------------------------------------------ C08 classifier
@st.composite
def clf_case(draw, big=False):
    d = draw(db(max_n=10, max_m=6, min_n=2, nonempty_rows=True, dup_items=False))
    n, m = len(d["rows"]), len(d["items"])
    y = draw(st.lists(st.integers(0, draw(st.integers(0, 3))), min_size=n, max_size=n))
    new = draw(st.lists(st.lists(st.integers(0, m), min_size=0, max_size=m + 1, unique=True), min_size=1, max_size=6))
    return {"db": d, "y": y, "new": new, "lab": draw(st.sampled_from(sorted(LAB))),
            "items": draw(st.sampled_from(["none", "all", "more"])), "pruning": draw(st.booleans()),
            "form": draw(st.sampled_from(["list", "series", "series_idx"])), "yform": draw(st.sampled_from(["list", "series", "array", "object", "tuple"]))}


LAB = {"int": [3, 1, 2, 0], "str": ["spam", "ham", "", "eggs"], "neg": [-1, 1, 7, -5], "numstr": ["10", "9", "1", "02"],
       "float": [0.5, 2.0, -1.25, 1e6], "bool": [True, False, True, False], "long": ["class-%s-%d" % ("x" * 9, i) for i in (3, 2, 1, 0)]}


def run_clf(rows, y, new, items, pruning, form="list", yform="list"):
    X = container(rows, form)
    yy = {"list": list(y), "series": pd.Series(y), "array": np.array(y), "tuple": tuple(y),
          "object": np.array(list(y) + [None], dtype=object)[:-1]}[yform]
    with sut("classifier fit"):
        clf = SlimClassifier(items=items, pruning=pruning).fit(X, yy)
        classes = list(clf.classes_)
    same(classes, sorted(set(y)), "classes")
    X2 = container(new, form)
    with sut("predict"):
        pred = list(clf.predict(X2))
    same(len(pred), len(new), "number of predictions")
    per = {}
    for c in classes:
        part = [r for r, v in zip(rows, y) if v == c]
        with sut("fitting one class on its own"):
            s = SLIM(items=items, pruning=pruning).fit(part)
        per[c] = lengths(codetable(s), new)
    n_clear = 0
    for t in range(len(new)):
        require(pred[t] in per, "predicted a label that was never seen", pred[t])
        best = min(per[c][t] for c in classes)
        got = per[pred[t]][t]
        require(got <= best + 1e-3 + 1e-4 * abs(best) if best < math.inf else True,
                "the predicted class does not have the shortest code", new[t], pred[t], {str(c): per[c][t] for c in classes})
        n_clear += best < math.inf and sum(per[c][t] <= best + 1e-3 for c in classes) == 1
    return classes, n_clear, pred


@sub("C08", "shortest-code-wins", clf_case, quick=2500, thorough=12000)
def c_clf(case):
    d = case["db"]
    rows = rows_of(d)
    extra = "zz" if isinstance(d["items"][0], str) else max(d["items"]) + 7
    its = list(d["items"]) + [extra]
    new = [[its[i] for i in r] for r in case["new"]]
    y = [LAB[case["lab"]][v] for v in case["y"]]
    items = {"none": None, "all": set(d["items"]), "more": set(its)}[case["items"]]
    classes, n, _ = run_clf(rows, y, new, items, case["pruning"], case["form"], case["yform"])
    return len(classes) > 1 and n > 0, ["classes:%d" % len(classes), "items:" + case["items"],
                                        "pruning" if case["pruning"] else "no pruning"]


@st.composite
def many_case(draw):
    """A dozen classes, tens of items, long training sets; a class differs from the next by little."""
    return {"big": draw(big_db(n=(12, 90), m=(8, 18), npat=(2, 14), size=(2, 6), noise=(0, 15), pick=(1, 2))), "classes": draw(st.integers(2, 14)),
            "new": draw(st.integers(1, 60)), "lab": draw(st.sampled_from(["int", "str"])), "extra": draw(st.sampled_from([None, 0, 1, 14])),
            "pruning": draw(st.booleans()), "by": draw(st.sampled_from(["turn", "item", "block"]))}


@sub("C08", "many-classes", many_case, quick=120, thorough=2500)
def c_clf_many(case):
    rows = big_rows(case["big"])
    k = case["classes"]
    if case["by"] == "turn":
        y = [t % k for t in range(len(rows))]
    elif case["by"] == "block":
        y = [t * k // len(rows) for t in range(len(rows))]
    else:
        ids = sorted({i for r in rows for i in r})
        y = [ids.index(min(r)) % k for r in rows]
    if case["lab"] == "str":
        y = ["c%d" % v for v in y]
    new = big_rows(dict(case["big"], seed=case["big"]["seed"] + 1, n=case["new"]))
    its = sorted({i for r in rows for i in r})
    items = None if case["extra"] is None else its + [("zz%d" % j if isinstance(its[0], str) else its[-1] + 1 + j) for j in range(case["extra"])]
    classes, n, _ = run_clf(rows, y, new, items, case["pruning"])
    return len(classes) > 1 and n > 0, ["classes>10" if len(classes) > 10 else "classes<=10", "by " + case["by"]]


@st.composite
def long_case(draw):
    """Long transactions over a wide vocabulary: code lengths of hundreds of bits. Some cases
    have nearly equal classes: one holds a few items more often, and that decides."""
    m = draw(st.integers(30, 90))
    if draw(st.booleans()):
        r = draw(st.integers(1, 8))
        return {"m": m, "universe": draw(st.sampled_from([m, 100, 400])), "reps": [r, r], "shift": [0, 0, 0], "from": 0, "step": draw(st.integers(1, 4)),
                "more": draw(st.lists(st.integers(0, m - 1), min_size=1, max_size=5)), "to": draw(st.integers(0, 1))}
    return {"m": m, "universe": draw(st.sampled_from([100, 400, 800])), "reps": draw(st.lists(st.integers(1, 4), min_size=2, max_size=3)),
            "shift": draw(st.lists(st.integers(0, 40), min_size=3, max_size=3)), "from": draw(st.integers(0, 40)),
            "step": draw(st.integers(1, 2))}


@sub("C08", "long-transactions", long_case, quick=160, thorough=800)
def c_clf_long(case):
    """Each class is trained on one-item rows, so that its table is the items themselves."""
    m = case["m"]
    rows, y = [], []
    for c, r in enumerate(case["reps"]):
        for i in range(m):
            rows += [[case["shift"][c] + i]] * r
            y += ["abc"[c]] * r
    for i in case.get("more", ()):
        rows.append([i])
        y.append("abc"[case["to"]])
    new = [[case["from"] + i for i in range(0, m, case["step"])]]
    items = set(range(case["universe"]))
    with sut("classifier"):
        clf = SlimClassifier(items=items).fit(rows, y)
        pred = list(clf.predict(new))
    per = {}
    for c in sorted(set(y)):
        seen = [i for r, v in zip(rows, y) if v == c for i in r]
        ct = [(frozenset([i]), [0] * seen.count(i)) for i in sorted(items | set(seen))]
        per[c] = lengths(ct, new)[0]
    best = min(per.values())
    require(per[pred[0]] <= best + 1e-3 + 1e-4 * best, "the predicted class does not have the shortest code", pred[0], per)
    n = sum(x <= best * (1 + 1e-4) + 1e-3 for x in per.values())
    return n == 1, ["bits>520" if best > 520 else "bits<=520", "clear winner" if n == 1 else "tie"]


@st.composite
def ovr_case(draw):
    m = draw(st.integers(2, 6))
    n = draw(st.integers(3, 12))
    mat = draw(st.lists(st.lists(st.integers(0, 1), min_size=m, max_size=m), min_size=n, max_size=n))
    y = draw(st.lists(st.integers(0, draw(st.integers(1, 3))), min_size=n, max_size=n))
    new = draw(st.lists(st.lists(st.integers(0, 1), min_size=m, max_size=m), min_size=1, max_size=6))
    return {"mat": mat, "y": y, "new": new, "frame": draw(st.booleans()), "pruning": draw(st.booleans())}


@sub("C08", "one-versus-rest", ovr_case, quick=900, thorough=4000)
def c_ovr(case):
    """A tabular model given an indicator models the marked rows only; so the one-versus-rest
    ensemble of them predicts a class of shortest code."""
    m = len(case["mat"][0])
    cols = ["i%d" % j for j in range(m)] if case["frame"] else list(range(m))
    mk = lambda rows: pd.DataFrame(rows, columns=cols) if case["frame"] else np.array(rows)
    X, X2 = mk(case["mat"]), mk(case["new"])
    y = np.array(case["y"])
    name = lambda r: [cols[j] for j in range(m) if r[j]]
    classes = sorted(set(case["y"]))
    per = {}
    for c in classes:
        part = [r for r, v in zip(case["mat"], case["y"]) if v == c]
        if not any(map(any, part)):
            return False, ["a class without items"]
        with sut("fit with an indicator"):
            a = codetable(SLIM(pruning=case["pruning"]).fit(X, (y == c).astype(int)))
            b = codetable(SLIM(pruning=case["pruning"]).fit(mk(part)))
        same(a, b, "code table of the rows marked, against these rows alone")
        per[c] = lengths(b, [name(r) for r in case["new"]])
    if len(classes) < 3:
        return False, ["two classes"]
    with sut("one-versus-rest"):
        pred = [int(v) for v in OneVsRestClassifier(SLIM(pruning=case["pruning"])).fit(X, y).predict(X2)]
    clear = 0
    for t, v in enumerate(pred):
        require(v in per, "predicted a label that was never seen", v)
        best = min(per[c][t] for c in classes)
        clear += best < math.inf
        require(best == math.inf or per[v][t] <= best + 1e-3, "the predicted class does not have the shortest code",
                case["new"][t], v, {str(c): per[c][t] for c in classes})
    return clear > 0, ["classes:%d" % len(classes), "frame" if case["frame"] else "array"]


# ------------------------------------------------------------------ C09 vectorizer
@st.composite
def vec_case(draw):
    d = draw(db(max_n=12, max_m=6, nonempty_rows=True))
    m = len(d["items"])
    return {"db": d, "new": draw(st.lists(st.lists(st.integers(0, m), max_size=m + 1, unique=True), min_size=0, max_size=6)),
            "k": draw(st.integers(1, 7)), "strategy": draw(st.sampled_from(["codes", "one-hot"])),
            "pruning": draw(st.booleans()), "stop": draw(st.lists(st.integers(0, m - 1), max_size=2, unique=True)),
            "use_stop": draw(st.booleans()), "form": draw(st.sampled_from(["list", "series", "tuples"]))}


@sub("C09", "vectorize", vec_case, quick=4000, thorough=15000)
def c_vec(case):
    d = case["db"]
    its = d["items"]
    extra = "zz" if isinstance(its[0], str) else max(its) + 7
    pool = list(its) + [extra]
    return run_vec(case, rows_of(d), [[pool[i] for i in r] for r in case["new"]], its)


@st.composite
def vec_large_case(draw):
    return {"big": draw(big_db(n=(20, 90), m=(10, 30), npat=(2, 12), size=(2, 8), noise=(0, 8), pick=(1, 2))), "n": draw(st.sampled_from([5, 60, 300])),
            "k": draw(st.sampled_from([3, 5, 8, 15, 20, 40])), "strategy": draw(st.sampled_from(["codes", "one-hot"])),
            "pruning": draw(st.booleans()), "stop": draw(st.lists(st.integers(0, 9), max_size=4, unique=True)),
            "use_stop": draw(st.booleans()), "form": draw(st.sampled_from(["list", "series", "tuples"]))}


@sub("C09", "vectorize-large", vec_large_case, quick=100, thorough=2000)
def c_vec_large(case):
    rows = big_rows(case["big"])
    return run_vec(case, rows, big_rows(dict(case["big"], n=case["n"], seed=case["big"]["seed"] + 1)), sorted({i for r in rows for i in r}))


def run_vec(case, rows, new, its):
    case = dict(case, stop=[i for i in case["stop"] if i < len(its)])
    stop = [its[i] for i in case["stop"]] if case["use_stop"] else None
    gone = set(stop or ())
    kept = [[i for i in r if i not in gone] for r in rows]
    if not any(kept):
        return False, ["everything stopped"]
    with sut("vectorizer fit"):
        v = SLIMVectorizer(strategy=case["strategy"], k=case["k"], pruning=case["pruning"], stop_items=stop)
        v.fit(container(rows, case["form"]))
    with sut("reading the code table"):
        ct = codetable(v)
    require(not any(f & gone for f, _ in ct), "a stop item was learned", sorted(gone), [sorted(f) for f, _ in ct])
    with sut("a plain model of the same data"):
        ref = codetable(SLIM(pruning=case["pruning"]).fit(kept))
    same(sorted((sorted(f), len(t)) for f, t in ct), sorted((sorted(f), len(t)) for f, t in ref), "learned itemsets")
    with sut("vectorizer transform"):
        df = v.transform(container(new, case["form"]))
        cols = [frozenset(c) for c in df.columns]
        mat = [[float(x) for x in r] for r in df.values.tolist()]
    same(len(mat), len(new), "rows of the result")
    present = {i for r in new for i in r} - gone
    usable = {f: len(t) for f, t in ct if f <= present}
    same(len(cols), min(case["k"], len(usable)), "columns of the result")
    require(len(set(cols)) == len(cols) and set(cols) <= set(usable), "columns are not itemsets of the model", cols)
    rest = [u for f, u in usable.items() if f not in set(cols)]
    if cols and rest:
        require(min(usable[c] for c in cols) >= max(rest), "a more used itemset was left out", [sorted(c) for c in cols])
    us = [usable[c] for c in cols]
    require(us == sorted(us, reverse=True), "columns not by decreasing usage", us)
    use, _ = ref_cover([[i for i in r if i not in gone] for r in new], cols)
    use = {f: set(t) for f, t in use.items()}
    tot = sum(usable.values())
    for t in range(len(new)):
        for c, x in zip(cols, mat[t]):
            on = t in use[c]
            want = 0.0 if not on else (1.0 if case["strategy"] == "one-hot" else usable[c] / max(tot, 1))
            close(x, want, "cell of row %d, itemset %r" % (t, sorted(c)), 1e-5, 1e-6)
    return len(cols) >= 2, [case["strategy"], "stop items" if stop else "no stop items", "patterns" if any(len(c) > 1 for c in cols) else "single items"]


@sub("C09", "rejects", lambda: st.text(max_size=8), quick=50, thorough=300)
def c_vec_bad(case):
    if case in ("codes", "one-hot"):
        return False, []
    raises(ValueError, lambda: SLIMVectorizer(strategy=case), "strategy %r" % case)
    return True, []
