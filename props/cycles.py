import math
from itertools import combinations

import numpy as np
from hypothesis import strategies as st

from vk.core import close, require, same, sub, sut
from props.pattern import tree_of
from props.periodic import denote, events_of, log_case, ref_cost

from skmine.periodic.data_sequence import DataSequence
from skmine.periodic.extract_cycles import compute_cycles_dyn, extract_cycles_fold
from skmine.periodic.run_mine import bronKerbosch3Plus, merge_cycle_lists, mine_seqs


# ------------------------------------------------------------------ one event
@st.composite
def occs_case(draw, max_n=24):
    parts = draw(st.lists(st.one_of(
        st.tuples(st.just("c"), st.integers(3, 9), st.integers(1, 30), st.lists(st.integers(-2, 2), max_size=3)),
        st.tuples(st.just("x"), st.lists(st.integers(1, 40), min_size=1, max_size=4))), min_size=1, max_size=4))
    return {"parts": [list(p) for p in parts], "t": draw(st.integers(-30, 30)), "pad": draw(st.integers(0, 200)), "other": draw(st.integers(0, 30))}


def occs_of(case, max_n=24):
    t, out = case["t"], []
    for p in case["parts"]:
        if p[0] == "c":
            for i in range(p[1]):
                out.append(t + (p[3][i % len(p[3])] if p[3] else 0))
                t += p[2]
        else:
            for g in p[1]:
                out.append(t)
                t += g
    return sorted(set(out))[:max_n]


def floor_median(xs):
    xs = sorted(xs)
    k = len(xs)
    return xs[k // 2] if k % 2 else (xs[k // 2 - 1] + xs[k // 2]) // 2


def cycle_tree(occs, a=0):
    diffs = [b - c for b, c in zip(occs[1:], occs)]
    p = floor_median(diffs)
    return {"r": len(occs), "p": p, "ch": [[0, a]]}, [d - p for d in diffs]


def sequence(occs, case):
    """The log: the occurrences of event 0, and others of event 1 that set the time span and the frequency."""
    others = {max(occs) + case["pad"]} | {min(occs) + k * 3 for k in range(case["other"])}
    return DataSequence({"a": np.array(occs), "b": np.array(sorted(others))}), len(others)


@sub("C21", "best-split-of-one-event", occs_case, quick=900, thorough=15000)
def c_dyn(case):
    occs = occs_of(case)
    if len(occs) < 3:
        return False, ["short"]
    with sut("DataSequence"):
        ds, m = sequence(occs, case)
        dd = ds.getDetails()
    n = len(occs) + m
    dT, t_end = int(dd["deltaT"]), int(dd["t_end"])
    one = -math.log2(len(occs) / n) + math.log2(dT + 1)
    cnt = {0: len(occs)}

    def cost(i, j):
        t, E = cycle_tree(occs[i:j + 1])
        return ref_cost(t, occs[i], E, cnt, n, dT, t_end)

    with sut("compute_cycles_dyn"):
        got = compute_cycles_dyn(occs, 0, dd, residuals=False)
        got2 = compute_cycles_dyn(occs, 0, dd, residuals=True)
    used, total = set(), 0.0
    for c in got:
        o = [int(x) for x in c["occs"]]
        require(len(o) >= 3, "a cycle with fewer than three occurrences", o)
        i = occs.index(o[0])
        same(o, occs[i:i + len(o)], "a segment of the occurrences")
        require(not used & set(o), "an occurrence in two cycles", o)
        used |= set(o)
        t, E = cycle_tree(o)
        same(int(c["p"]), t["p"], "period of %s" % o)
        close(float(c["cost"]), cost(i, i + len(o) - 1), "cost of the cycle %s" % o, 1e-9, 1e-6)
        total += float(c["cost"])
    total += one * (len(occs) - len(used))
    # the cheapest split into segments, singletons at the cost of a plain occurrence
    best = [0.0]
    for k in range(1, len(occs) + 1):
        b = best[k - 1] + one
        for i in range(k - 2):
            b = min(b, best[i] + cost(i, k - 1))
        best.append(b)
    close(total, best[-1], "total cost of the split", 1e-9, 1e-6)
    rest = [x for x in occs if x not in used]
    same([list(map(int, c["occs"])) for c in got2], [list(map(int, c["occs"])) for c in got] + ([rest] if rest else []), "cycles and residual")
    return bool(got), ["cycles:%d" % min(3, len(got)), "residual" if rest else "all covered"]


def min_form(a, b, c, cnt, n, dT, t_end, ev=0):
    """A triple is priced with the shorter of its two distances as period."""
    p = min(b - a, c - b)
    return ref_cost({"r": 3, "p": p, "ch": [[0, ev]]}, a, [b - a - p, c - b - p], cnt, n, dT, t_end)


@st.composite
def fold_case(draw):
    c = draw(occs_case())
    c["bound"] = draw(st.sampled_from([1, 2, 4, 8]))
    c["max_p"] = draw(st.sampled_from([None, None, 5, 25]))
    return c


@sub("C21", "chains-and-triples", fold_case, quick=900, thorough=12000)
def c_fold(case):
    occs = occs_of(case, 40)
    if len(occs) < 3:
        return False, ["short"]
    with sut("DataSequence"):
        ds, m = sequence(occs, case)
        dd = ds.getDetails()
    n = len(occs) + m
    dT, t_end = int(dd["deltaT"]), int(dd["t_end"])
    one = -math.log2(len(occs) / n) + math.log2(dT + 1)
    with sut("extract_cycles_fold"):
        chains, triples = extract_cycles_fold(np.array(occs), 0, dd, case["bound"], one, one, max_p=case["max_p"])
    for c in chains:
        pos = [int(x) for x in c["pos"]]
        o = [int(x) for x in c["occs"]]
        same(o, [occs[i] for i in pos], "occurrences of a chain")
        require(pos == sorted(set(pos)) and len(pos) >= 4, "a chain goes forward, over at least four occurrences", pos)
        t, E = cycle_tree(o)
        same(int(c["p"]), t["p"], "period of a chain")
        d = [b - a for a, b in zip(o, o[1:])]
        require(all(abs(a - b) < case["bound"] for a, b in zip(d, d[1:])), "successive distances of a chain differ by the bound or more", o)
        want = ref_cost(t, o[0], E, {0: len(occs)}, n, dT, t_end)
        close(float(c["cost"]), want, "cost of a chain", 1e-9, 1e-6)
        require(want / len(o) < one + 1e-9, "a chain costs more than its occurrences", o)
        if case["max_p"]:
            require(max(d) < case["max_p"], "a distance of the period limit or more", o)
    for t in triples:
        i, j, k = t[-1]
        require(0 <= i < j < k < len(occs), "a triple goes forward", t)
        a, b = occs[j] - occs[i], occs[k] - occs[j]
        same((int(t[0]), int(t[1])), (abs(a - b), min(a, b)), "difference and period of a triple")
        require(t[0] < case["bound"], "distances of a triple differ by the bound or more", t)
        if case["max_p"]:
            require(max(a, b) < case["max_p"], "a distance of the period limit or more", t)
        require(t[2] / 3 < one, "a triple costs more than its occurrences", t)
        close(float(t[2]), min_form(occs[i], occs[j], occs[k], {0: len(occs)}, n, dT, t_end), "cost of the triple %s" % (t,), 1e-9, 1e-6)
    return bool(chains), ["chains:%d" % min(3, len(chains)), "triples:%d" % min(3, len(triples)), "limit" if case["max_p"] else "no limit"]


@st.composite
def long_case(draw):
    """Thousands of scattered occurrences with a few isolated regular runs, anywhere."""
    n = draw(st.sampled_from([1200, 1499, 1501, 1999, 2000, 2001, 2600, 2999, 3001, 4400, 6200]))
    runs = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(3, 8), st.integers(1, 12)), min_size=1, max_size=5))
    return {"n": n, "runs": [list(r) for r in runs], "seed": draw(st.integers(0, 10 ** 6)), "bound": draw(st.sampled_from([2, 4, 8]))}


@sub("C21", "long-chains-and-triples", long_case, quick=160, thorough=2000)
def c_long_fold(case):
    n, max_p = case["n"], 15
    gaps = np.random.RandomState(case["seed"]).randint(max_p, 4000, size=n)
    at = {a: (k, p) for a, k, p in case["runs"]}
    occs, runs, t = [], [], 0
    while len(occs) < n:
        k, p = at.pop(len(occs), (1, 0))
        if k > 1:
            runs.append([t + i * p for i in range(k)])
        for i in range(k):
            occs.append(t + i * p)
        t = occs[-1] + int(gaps[len(occs) % n])
    with sut("DataSequence"):
        dd = DataSequence({"a": np.array(occs)}).getDetails()
    n, dT, t_end = len(occs), int(dd["deltaT"]), int(dd["t_end"])
    one = math.log2(dT + 1)
    with sut("extract_cycles_fold"):
        chains, triples = extract_cycles_fold(np.array(occs), 0, dd, case["bound"], one, one, max_p=max_p)
    got = set()
    for c in chains:
        o = [int(x) for x in c["occs"]]
        same(o, [occs[int(i)] for i in c["pos"]], "occurrences of a chain at its positions")
        got.add(tuple(o))
    for t in triples:
        got.add(tuple(occs[int(i)] for i in t[-1]))
    inside = {x: r for r, run in enumerate(runs) for x in run}
    for o in got:
        require(len({inside.get(x, -1) for x in o}) == 1 and o[0] in inside, "a chain or triple across isolated occurrences", o)
    found = 0
    for run in runs:
        # a run that lies across two parts of the search may be cut
        i = occs.index(run[0])
        if n >= 2000 and i // 1500 != (i + len(run) - 1) // 1500:
            continue
        tr, E = cycle_tree(run)
        if ref_cost(tr, run[0], E, {0: n}, n, dT, t_end) / len(run) < one - 1e-6:
            require(tuple(run) in got, "an isolated regular run was not found", run, i, n)
            found += 1
    return found > 0, ["n>=2000" if n >= 2000 else "n<2000", "runs:%d" % len(runs)]


@st.composite
def blocks_case(draw):
    parts = draw(st.lists(st.tuples(st.integers(20, 160), st.integers(2, 40), st.lists(st.integers(-1, 1), max_size=4), st.lists(st.integers(1, 60), max_size=6)), min_size=3, max_size=5))
    return {"parts": [list(p) for p in parts], "pad": draw(st.integers(0, 500)), "other": draw(st.integers(0, 30))}


@sub("C21", "split-of-many-occurrences", blocks_case, quick=24, thorough=240)
def c_blocks(case):
    """Past two hundred occurrences the split is computed on overlapping blocks: still made of disjoint, rightly priced segments."""
    t, occs = 0, []
    for k, p, E, gaps in case["parts"]:
        for i in range(k):
            occs.append(t + (E[i % len(E)] if E else 0))
            t += p
        for g in gaps:
            occs.append(t)
            t += g
    occs = sorted(set(occs))[:420]
    with sut("DataSequence"):
        ds, m = sequence(occs, case)
        dd = ds.getDetails()
    n = len(occs) + m
    dT, t_end = int(dd["deltaT"]), int(dd["t_end"])
    one = -math.log2(len(occs) / n) + math.log2(dT + 1)
    with sut("compute_cycles_dyn"):
        got = compute_cycles_dyn(occs, 0, dd, residuals=True)
    used = set()
    for c in got:
        o = [int(x) for x in c["occs"]]
        require(not used & set(o), "an occurrence in two cycles", o[:5])
        used |= set(o)
        if "p" not in c:
            same(c is got[-1], True, "the residual comes last")
            continue
        require(len(o) >= 3, "a cycle with fewer than three occurrences", o)
        i = occs.index(o[0])
        same(o, occs[i:i + len(o)], "a segment of the occurrences")
        tr, E = cycle_tree(o)
        same(int(c["p"]), tr["p"], "period of %s" % o[:5])
        close(float(c["cost"]), ref_cost(tr, o[0], E, {0: len(occs)}, n, dT, t_end), "cost of the cycle of %d from %d" % (len(o), o[0]), 1e-9, 1e-6)
    same(sorted(used), occs, "occurrences of the cycles and the residual")
    return len(got) >= 2, ["blocks" if len(occs) > 200 else "one block", "cycles:%d" % min(len(got), 6)]


# ------------------------------------------------------------------ helpers of the search
@st.composite
def graph(draw):
    n = draw(st.integers(1, 8))
    return {"n": n, "e": draw(st.lists(st.booleans(), min_size=n * (n - 1) // 2, max_size=n * (n - 1) // 2))}


@sub("C21", "cliques", graph, quick=600, thorough=8000)
def c_clique(case):
    n = case["n"]
    adj = {i: set() for i in range(n)}
    for (i, j), b in zip(combinations(range(n), 2), case["e"]):
        if b:
            adj[i].add(j)
            adj[j].add(i)
    cl = [set(s) for k in range(3, n + 1) for s in combinations(range(n), k) if all(b in adj[a] for a, b in combinations(s, 2))]
    want = sorted(sorted(s) for s in cl if not any(s < x for x in cl))
    with sut("bronKerbosch3Plus"):
        got = []
        bronKerbosch3Plus({k: set(v) for k, v in adj.items()}, got, set(adj))
    same(sorted(sorted(s) for s in got), want, "maximal cliques of three or more")
    return bool(want), ["cliques:%d" % min(len(want), 3)]


@st.composite
def cyc_lists(draw):
    one = st.tuples(st.integers(0, 3), st.integers(3, 4), st.integers(1, 3), st.integers(0, 9))
    return {"L": [[list(x) for x in draw(st.lists(one, max_size=5))] for _ in range(3)]}


@sub("C21", "merged-lists", cyc_lists, quick=500, thorough=5000)
def c_merge(case):
    def mk(x):
        t, k, p, cost = x
        return {"alpha": 0, "occs": [t + i * p for i in range(k)], "p": p, "cost": cost}
    best = {}
    for l in case["L"]:
        for x in l:
            key = (x[0], x[1], x[2])
            best[key] = min(best.get(key, 99), x[3])
    with sut("merge_cycle_lists"):
        got = merge_cycle_lists([[mk(x) for x in l] for l in case["L"]])
    same([((c["occs"][0], len(c["occs"]), c["p"]), c["cost"]) for c in got], sorted(best.items()), "one cycle, the cheapest, for every start, length and period")
    return len(best) < sum(map(len, case["L"])), ["merged" if len(best) < sum(map(len, case["L"])) else "distinct"]


# ------------------------------------------------------------------ the whole pool
@st.composite
def pool_case(draw):
    c = draw(log_case(kind="int"))
    c.update(scale=1, intev=False)
    return c


@sub("C21", "candidates", pool_case, quick=900, thorough=15000)
def c_pool(case):
    evs = sorted(set(events_of(case)))
    by = {}
    for t, e in evs:
        by.setdefault(e, []).append(t)
    with sut("mine_seqs"):
        pool, ds, pc = mine_seqs({e: np.array(v) for e, v in by.items()}, complex=case["complex"])
        cands = pool.getCandidates()
        names = ds.getNumToEv()
        dd = ds.getDetails()
        chosen = pc.getPatterns()
    n, dT, t_end = len(evs), int(dd["deltaT"]), int(dd["t_end"])
    cnt = {k: len(by[e]) for k, e in names.items()}
    one = {k: -math.log2(c / n) + math.log2(dT + 1) for k, c in cnt.items()}
    log = {(t, k) for k, e in names.items() for t in by[e]}
    info, keys = [], {}
    for cid, c in cands.items():
        with sut("reading a candidate"):
            P, t0, E = c.getPattT0E()
            ev = [(int(t), int(e)) for t, e in c.getEvOccs()]
            E = [int(e) for e in E]
            cost = float(c.getCost())
        t = tree_of(P)
        same(c.getId(), cid, "candidate id")
        require(set(ev) <= log, "a candidate with an occurrence that is not in the log", str(P), sorted(set(ev) - log)[:4])
        same(denote(t, int(t0), E), ev, "occurrences denoted by the candidate %s" % P)
        require(case["complex"] or (len(t["ch"]) == 1 and not isinstance(t["ch"][0][1], dict)), "a complex candidate, simple ones asked for", str(P))
        true = ref_cost(t, int(t0), E, cnt, n, dT, t_end)
        if not (len(ev) == 3 and abs(cost - min_form(*[x[0] for x in ev], cnt, n, dT, t_end, ev[0][1])) < 1e-6):
            close(cost, true, "cost of the candidate %s" % P, 1e-9, 1e-6)
        info.append((cost, set(ev)))
        keys.setdefault((int(t0), tuple(E), tuple(ev)), []).append(len(info) - 1)
    # the selection: nothing that would still pay off is left out
    # and each is, when chosen, the cheapest per occurrence it newly covers
    covered, gone = set(), set()
    low = min(one.values()) if one else 0
    for P, t0, E in chosen:
        with sut("getCovSeq"):
            ev = [(int(a), int(b)) for a, b in P.getCovSeq(t0, E)]
        ids = [i for i in keys.get((int(t0), tuple(map(int, E)), tuple(ev)), []) if i not in gone]
        require(ids, "a selected pattern that is not a candidate, or selected twice", str(P), t0)
        i = min(ids, key=lambda x: info[x][0])
        new = set(ev) - covered
        require(len(new) >= 3, "a selected pattern covers fewer than three new occurrences", str(P))
        mine = max(info[x][0] for x in ids) / len(new)
        for j, (c, e) in enumerate(info):
            if j not in gone and j not in ids and len(e - covered) >= 3:
                require(mine <= c / len(e - covered) + 1e-9 or len(ids) > 1, "a cheaper candidate was passed over", str(P), mine, c / len(e - covered), sorted(e))
        gone.add(i)
        covered |= set(ev)
    for cost, ev in info:
        new = ev - covered
        if len(new) >= 3:
            require(not cost / len(new) < low - 1e-6, "a candidate cheaper than any plain occurrence was left out", cost, sorted(new))
    return len(cands) >= 1, ["candidates:%s" % ("0" if not cands else "1-9" if len(cands) < 10 else "10+"), "chosen:%d" % min(3, len(chosen)),
                            "complex" if case["complex"] else "simple"]
