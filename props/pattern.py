import copy
import math
import os
from collections import Counter

from hypothesis import strategies as st

from vk.core import Violation, close, require, same, sub, sut
from props.periodic import denote, leaves, parse, ref_cost

from skmine.periodic.candidate import Candidate
from skmine.periodic.data_sequence import DataSequence
from skmine.periodic.pattern import Pattern, codeLengthE, getEDict

MAX_OCC = 240


# ------------------------------------------------------------------ trees
# {"r", "p", "ch": [[d, child], ...]} with the first d = 0; a leaf is an event number
BIG = [1, 1, 1, 1, 1, 1000, 3600, 10 ** 6, 86400 * 10 ** 6, 5 * 10 ** 14 + 1]


@st.composite
def tree(draw, depth=3, nev=4):
    nev = draw(st.sampled_from([nev, nev, nev, 12]))
    unit = draw(st.sampled_from(BIG))
    shape = draw(st.sampled_from(["any"] * 8 + ["long", "wide"]))
    if shape == "long":  # one cycle, many times
        return {"r": draw(st.integers(20, 230)), "p": draw(st.integers(1, 40)) * unit, "ch": [[0, draw(st.integers(0, nev - 1))]]}

    def node(d, root=False):
        if not root and (d == 0 or draw(st.integers(0, 2)) == 0):
            return draw(st.integers(0, nev - 1))
        n = draw(st.sampled_from([1, 1, 1, 1, 2, 2, 2, 3, 3, 6])) if not (root and shape == "wide") else draw(st.integers(9, 14))
        kids = [node(d - 1 if shape != "wide" else min(d - 1, 1)) for _ in range(n)]
        return {"r": draw(st.integers(2, 4) if draw(st.integers(0, 5)) else st.integers(8, 14)), "p": draw(st.integers(1, 12)) * unit,
                "ch": [[0 if j == 0 else draw(st.integers(0, 7)) * unit, k] for j, k in enumerate(kids)]}
    return node(draw(st.integers(1, depth)), True)


@st.composite
def fact_tree(draw):
    """Trees with a node whose blocks share period and length."""
    def wrap(x):
        return {"r": draw(st.integers(2, 4)), "p": draw(st.integers(1, 9)), "ch": [[0, x]]}
    r, p = draw(st.integers(2, 4)), draw(st.integers(1, 9))
    kids = [draw(tree(1, 4)) if draw(st.integers(0, 3)) == 0 else draw(st.integers(0, 3)) for _ in range(draw(st.sampled_from([2, 2, 2, 3, 3, 4, 6])))]
    blocks = [[0 if j == 0 else draw(st.integers(0, 9)), {"r": r, "p": p, "ch": [[0, k]]}] for j, k in enumerate(kids)]
    if draw(st.integers(0, 4)) == 0:  # not factorizable
        blocks[-1][1]["p"] += 1
    t = {"r": draw(st.integers(2, 3)), "p": draw(st.integers(1, 30)), "ch": blocks}
    return wrap(t) if draw(st.integers(0, 3)) == 0 else t


def fit_size(t):
    """Fewer repetitions until the tree is small enough."""
    t = copy.deepcopy(t)

    def dec(x):
        if isinstance(x, dict):
            x["r"] = max(2, x["r"] - 1)
            for _, c in x["ch"]:
                dec(c)
    while leaves(t) > MAX_OCC and any_r(t) > 2:
        dec(t)
    while leaves(t) > MAX_OCC and len(t["ch"]) > 1:
        t["ch"].pop()
    return t


def any_r(x):
    return 0 if not isinstance(x, dict) else max([x["r"]] + [any_r(c) for _, c in x["ch"]])


def nodes_of(t, gap=1, start=0):
    """The node table of a tree; ids are given in preorder, `gap` apart."""
    nodes, nxt = {}, [start]

    def go(x, parent):
        i = nxt[0]
        nxt[0] += gap
        if not isinstance(x, dict):
            nodes[i] = {"event": x, "parent": parent}
        else:
            nodes[i] = {"p": x["p"], "r": x["r"], "parent": parent, "children": []}
            for d, c in x["ch"]:
                nodes[i]["children"].append((go(c, i), d))
        return i
    go(t, None)
    return nodes


def tree_of(P):
    """Inverse of nodes_of, checking that the table is a tree."""
    seen = set()

    def go(i, parent):
        require(i in P.nodes, "a child that does not exist", i, P.nodes)
        require(i not in seen, "a node with two parents", i, P.nodes)
        seen.add(i)
        n = P.nodes[i]
        require(n["parent"] == parent, "wrong parent of a node", i, n["parent"], parent)
        if "children" not in n:
            return n["event"]
        return {"r": n["r"], "p": n["p"], "ch": [[d, go(c, i)] for c, d in n["children"]]}
    t = go(0, None)
    same(seen, set(P.nodes), "nodes reachable from the root")
    require(P.next_id not in P.nodes and P.next_id > max(P.nodes), "the next node id is in use", P.next_id, sorted(P.nodes))
    return t


def norm(x):
    return x if not isinstance(x, dict) else {"r": x["r"], "p": x["p"], "ch": [[d, norm(c)] for d, c in x["ch"]]}


def depth_of(x):
    return 0 if not isinstance(x, dict) else 1 + max(depth_of(c) for _, c in x["ch"])


def width_of(x):
    return 1 if not isinstance(x, dict) else sum(width_of(c) for _, c in x["ch"])


def events_in(x):
    return [x] if not isinstance(x, dict) else [e for _, c in x["ch"] for e in events_in(c)]


def all_of(x, k):
    return [] if not isinstance(x, dict) else [x[k]] + [v for _, c in x["ch"] for v in all_of(c, k)]


def noises(draw, n, lo=-3, hi=3):
    """n shift corrections, mostly zero"""
    if draw(st.integers(0, 9)) == 0:
        lo, hi = -2000, 2000
    ks = draw(st.lists(st.tuples(st.integers(0, max(0, n - 1)), st.integers(lo, hi)), max_size=min(n, 8)))
    E = [0] * n
    for i, e in ks:
        E[i] = e
    return E


@st.composite
def tree_case(draw):
    t = fit_size(draw(tree()))
    return {"t": t, "t0": draw(st.integers(-20, 100)), "E": noises(draw, leaves(t) - 1), "gap": draw(st.integers(1, 3)),
            "other": fit_size(draw(tree(2))), "offset": draw(st.integers(0, 30))}


@sub("C20", "trees", tree_case, quick=2500, thorough=40000)
def c_tree(case):
    t, t0, E = norm(case["t"]), case["t0"], case["E"]
    n = leaves(t)
    want = denote(t, t0, E)
    star = denote(t, 0, [0] * (n - 1))
    with sut("Pattern"):
        P = Pattern(nodes_of(t, case["gap"]))
        occs = P.getOccsStar()
        cov = P.getCovSeq(t0, E)
        times = P.getOccs(occs, t0, E)
        times2 = P.getOccs(occs, t0, getEDict(occs, E))
    same([(o[0], o[1]) for o in occs], star, "occurrences before correction")
    require(len({o[2] for o in occs}) == n, "positions are not unique", occs)
    same([(int(a), b) for a, b in cov], want, "occurrences after correction")
    same([int(x) for x in times], [a for a, _ in want], "times after correction")
    same([int(x) for x in times2], [a for a, _ in want], "times after correction, corrections given by position")
    with sut("Pattern, corrections from occurrences"):
        back = P.computeEFromO([a for a, _ in want])
    same([int(e) for e in back], E, "corrections recovered from the occurrences")
    with sut("Pattern counts"):
        same(int(P.getNbOccs()), n, "number of occurrences")
        same(int(P.cardO()), n, "number of occurrences generated")
        same(P.getEventsMinor(rep=True), [e for _, e in want], "events in order of expansion")
        same(P.getEventsMinor(rep=False), [e for _, e in want][: n // t["r"]], "events of one repetition")
        same(P.getAlphabet(), set(events_in(t)), "alphabet")
        same(int(P.getDepth()), depth_of(t), "depth")
        same(int(P.getWidth()), width_of(t), "width")
        same(int(P.getNbLeaves()), width_of(t), "leaves")
        same(P.getCyclePs(), all_of(t, "p"), "periods")
        same(P.getCycleRs(), all_of(t, "r"), "lengths")
        same(P.getRVals(), all_of(t, "r"), "lengths")
        same((P.nodeP(), P.nodeR()), (t["p"], t["r"]), "major period and length")
        same(P.getEventsList(add_delimiter=False), [str(e) for e in events_in(t)], "events")
        d, w = depth_of(t), width_of(t)
        same(P.getTypeStr(), "simple" if d == w == 1 else "nested" if w == 1 else "concat" if d == 1 else "other", "type")
        same(int(codeLengthE(E)) if E else 0, sum(2 + abs(e) for e in E), "cost of the corrections")
        same([int(x) for x in P.getMajorOccs([a for a, _ in want])], [a for a, _ in want][:: n // t["r"]], "first occurrence of every repetition")
    # text forms
    with sut("Pattern as text"):
        s = P.__str__(leaves_first=True)
        key, okey = P.pattKey(), Pattern(nodes_of(norm(case["other"]))).pattKey()
        key2 = Pattern(nodes_of(t)).pattKey()
    got = parse(s, "int", {str(e): e for e in events_in(t)})
    same(norm({"r": got["r"], "p": got["p"], "ch": got["ch"]}), t, "tree read from %s" % s)
    same(key2, key, "the key depends on node ids")
    same(key == okey, t == norm(case["other"]), "equal keys")
    with sut("Pattern translation / copy"):
        nodes, nxt, m = P.getTranslatedNodes(case["offset"])
        Q = P.copy()
    same(sorted(nodes), list(range(case["offset"], case["offset"] + len(P.nodes))), "translated ids")
    same(nxt, case["offset"] + len(P.nodes), "next id after the translation")
    ref = nodes_of(t, case["gap"])
    for i, v in ref.items():
        w = dict(v)
        if w["parent"] is not None:
            w["parent"] = m[w["parent"]]
        if "children" in w:
            w["children"] = [(m[c], d) for c, d in w["children"]]
        same(nodes[m[i]], w, "translated node %d" % i)
    with sut("editing a copy"):
        Q.append(15, 5)
        Q.repeat(2, 50)
        Q.mapEvents({e: "ev%d" % e for e in range(20)})
    same(tree_of(P), t, "the pattern after its copy was edited")
    same(tree_of(Q), {"r": 2, "p": 50, "ch": [[0, names({"r": t["r"], "p": t["p"], "ch": t["ch"] + [[5, 15]]})]]}, "the edited copy")
    return depth_of(t) > 1 or width_of(t) > 1, ["depth:%d" % depth_of(t), "width:%d" % min(width_of(t), 5), "corrections" if any(E) else "perfect",
                            "root only last" if t["r"] == 2 else "r>2"]


def names(x):
    return "ev%d" % x if not isinstance(x, dict) else {"r": x["r"], "p": x["p"], "ch": [[d, names(c)] for d, c in x["ch"]]}


# ------------------------------------------------------------------ building histories
@st.composite
def build_case(draw):
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("append"), st.integers(0, 5), st.integers(0, 9)),
        st.tuples(st.just("repeat"), st.integers(2, 4), st.integers(1, 40)),
        st.tuples(st.just("merge"), tree(2), st.integers(0, 9))), min_size=1, max_size=7))
    return {"first": [draw(st.integers(0, 5)), draw(st.integers(2, 4)), draw(st.integers(1, 9))], "empty": draw(st.booleans()),
            "ops": [list(o) for o in ops], "gap": draw(st.integers(1, 3)), "deep": draw(st.lists(st.integers(0, 9), max_size=4)), "sub": draw(tree(2))}


def preorder(P, i=0):
    return [i] + [j for c, _ in P.nodes[i].get("children", []) for j in preorder(P, c)]


def subtrees(x):
    return [x] + ([y for _, c in x["ch"] for y in subtrees(c)] if isinstance(x, dict) else [])


@sub("C20", "building", build_case, quick=1500, thorough=25000)
def c_build(case):
    e, r, p = case["first"]
    with sut("Pattern"):
        if case["empty"]:
            P = Pattern()
            P.append(e, 0)
            P.repeat(r, p)
        else:
            P = Pattern(e, r, p)
    T = {"r": r, "p": p, "ch": [[0, e]]}
    same(tree_of(P), T, "a simple cycle")
    for k, op in enumerate(case["ops"]):
        with sut(op[0]):
            if op[0] == "append":
                P.append(op[1], op[2])
                T = {"r": T["r"], "p": T["p"], "ch": T["ch"] + [[op[2], op[1]]]}
            elif op[0] == "repeat":
                P.repeat(op[1], op[2])
                T = {"r": op[1], "p": op[2], "ch": [[0, T]]}
            else:
                t2 = norm(fit_size(op[1]))
                Q = Pattern(nodes_of(t2, case["gap"]))
                P.merge(Q, op[2])
                T = {"r": T["r"], "p": T["p"], "ch": T["ch"] + [[op[2], t2]]}
                same(tree_of(Q), t2, "the merged pattern itself")
        same(tree_of(P), T, "tree after %s" % op[0])
    # below any repetition; an anchor that is not one means the root
    for k, a in enumerate(case["deep"]):
        ids = preorder(P)
        inner = [i for i, x in enumerate(subtrees(T)) if isinstance(x, dict)]
        bad = a == 0
        at = inner[a % len(inner)]
        anchor = [max(ids) + 3, [i for i in ids if i not in {ids[j] for j in inner}][0]][k % 2] if bad else ids[at]
        T = copy.deepcopy(T)
        x = T if bad else subtrees(T)[at]
        with sut("append or merge at a node"):
            if a % 2:
                P.append(7, a, anchor)
                x["ch"].append([a, 7])
            else:
                t2 = norm(fit_size(case["sub"]))
                m = P.merge(Pattern(nodes_of(t2, case["gap"])), a, anchor)
                same(sorted(m), sorted(nodes_of(t2, case["gap"])), "ids of the merged pattern")
                require(all(i in P.nodes for i in m.values()), "new ids of the merged pattern", m)
                x["ch"].append([a, t2])
        same(tree_of(P), T, "tree after adding at node %s" % anchor)
    if leaves(T) <= 2000:
        with sut("getCovSeq"):
            same([(int(a), b) for a, b in P.getCovSeq(3, [])], denote(T, 3, [0] * (leaves(T) - 1)), "occurrences of the built pattern")
    return len(case["ops"]) > 1, sorted({o[0] for o in case["ops"]})


# ------------------------------------------------------------------ factorization
@st.composite
def fact_case(draw):
    t = fit_size(draw(fact_tree()))
    return {"t": t, "t0": draw(st.integers(0, 50)), "E": noises(draw, leaves(t) - 1), "gap": draw(st.integers(1, 3))}


@sub("C20", "factorization", fact_case, quick=1500, thorough=25000)
def c_fact(case):
    t, t0, E = norm(case["t"]), case["t0"], case["E"]
    want = denote(t, t0, E)
    star = Counter(denote(t, 0, [0] * (leaves(t) - 1)))
    with sut("canFactorize"):
        P = Pattern(nodes_of(t, case["gap"]))
        nids = P.canFactorize()
    ids = preorder(P)
    same(sorted(nids), sorted(i for i, x in zip(ids, subtrees(t)) if isinstance(x, dict) and len(x["ch"]) > 1
                              and all(isinstance(c, dict) and len(c["ch"]) == 1 for _, c in x["ch"]) and len({(c["r"], c["p"]) for _, c in x["ch"]}) == 1),
         "nodes whose blocks are single, of the same period and length")
    for nid in nids:
        with sut("factorizeTree"):
            Q = P.copy()
            Q.factorizeTree(nid)
        t2 = tree_of(Q)
        same(Counter(denote(t2, 0, [0] * (leaves(t2) - 1))), star, "occurrences after factorization")
        require(len(Q.nodes) < len(P.nodes), "factorization did not make the tree smaller")
    same(tree_of(P), t, "the pattern itself")
    with sut("factorizePattern"):
        C = Candidate(0, P, [a for a, _ in want], list(E))
        fs = C.factorizePattern()
    for F in fs:
        with sut("factorized candidate"):
            Q, s0, F_E = F.getPattT0E()
            occ, ev = [int(x) for x in F.getOccs()], F.getEvOccs()
        t2 = tree_of(Q)
        same(Counter(ev), Counter(want), "occurrences of the factorized candidate")
        same(denote(t2, int(s0), [int(x) for x in F_E]), list(zip(occ, [b for _, b in ev])), "occurrences denoted by the factorized pattern")
    same((list(C.getOccs()), list(C.getE())), ([a for a, _ in want], E), "the candidate itself")
    return bool(fs), ["factorizable" if nids else "not factorizable", "candidates:%d" % min(len(fs), 3), "corrections" if any(E) else "perfect"]


# ------------------------------------------------------------------ candidates
@sub("C20", "candidates", tree_case, quick=800, thorough=10000)
def c_cand(case):
    t, t0, E = norm(case["t"]), case["t0"], case["E"]
    want = denote(t, t0, E)
    times = [a for a, _ in want]
    per = len(times) // t["r"]
    with sut("Candidate"):
        C = Candidate(3, Pattern(nodes_of(t, case["gap"])), list(times), list(E), 10.0)
        same(C.getEvOccs(), want, "occurrences")
        same(int(C.getNbOccs()), len(want), "number of occurrences")
        same(C.getNbUOccs(), len(set(want)), "number of distinct occurrences")
        close(float(C.getCostRatio()), 10.0 / len(set(want)), "cost per occurrence")
        same((C.getT0(), int(C.getMajorR()), int(C.getMajorP())), (times[0], t["r"], t["p"]), "start, length and period")
        same([list(b) for b in C.getBlocksO()], [times[i:i + per] for i in range(0, len(times), per)], "occurrences by repetition")
        e0 = [0] + E
        for k in range(t["r"]):
            same([list(b) for b in C.getBlocksO(k)], [times[i:i + per] for i in range(k * per, len(times), per)], "occurrences of later repetitions")
            same([list(b) for b in C.getBlocksE(k)], [e0[i + 1:i + per] for i in range(k * per, len(times), per)], "corrections of later repetitions")
        same([list(b) for b in C.getBlocksE()], [e0[i + 1:i + per] for i in range(0, len(times), per)], "corrections inside repetitions")
        same(list(C.getMajorO()), times[::per], "first occurrence of every repetition")
        same(list(C.getMajorE()), e0[::per][1:], "correction of every repetition")
        C.initUncovered()
        same(C.getUncovered(), set(want), "occurrences not covered yet")
        cover = set(want[: case["offset"]])
        same(C.updateUncovered(cover), len(set(want) - cover), "number of occurrences left")
        same(C.getUncovered(), set(want) - cover, "occurrences left")
        same(C.getNbUncovered(), len(set(want) - cover), "number of occurrences left")
        if set(want) - cover:
            close(float(C.getCostUncoveredRatio()), 10.0 / len(set(want) - cover), "cost per occurrence left")
        else:
            require(C.getCostUncoveredRatio() == math.inf, "cost per occurrence left of a covered candidate")
        same(C.isComplex(), depth_of(t) > 1 or width_of(t) > 1, "complex")
    return True, ["complex" if depth_of(t) > 1 or width_of(t) > 1 else "simple"]


# ------------------------------------------------------------------ sequences
@st.composite
def seq_case(draw):
    evs = draw(st.lists(st.tuples(st.integers(-50, 200), st.sampled_from(["b", "a", "c10", "c9"])), min_size=1, max_size=30, unique=True))
    return {"evs": [list(x) for x in evs]}


@sub("C20", "sequences", seq_case, quick=500, thorough=6000)
def c_seq(case):
    evs = [tuple(x) for x in case["evs"]]
    by = {}
    for tm, e in sorted(evs):
        by.setdefault(e, []).append(tm)
    with sut("DataSequence"):
        A, B = DataSequence(sorted(evs)), DataSequence(dict(by))
        for D in (A, B):
            same(list(D.getEvents()), sorted(by), "event names")
            num = D.getNumToEv()
            same(num, dict(enumerate(sorted(by))), "event numbers")
            same([(tm, num[k]) for tm, k in D.getSequence()], sorted(evs), "whole sequence")
            for k, e in num.items():
                same(list(D.getSequence(k)), by[e], "occurrences of %s" % e)
            d = D.getDetails()
            ts = [tm for tm, _ in evs]
            same((int(d["t_start"]), int(d["t_end"]), int(d["deltaT"])), (min(ts), max(ts), max(ts) - min(ts)), "time span")
            for k, e in num.items():
                same(int(d["nbOccs"][k]), len(by[e]), "count of %s" % e)
                close(float(d["orgFreqs"][k]), len(by[e]) / len(evs), "frequency of %s" % e)
            L = math.log2(max(ts) - min(ts) + 1)
            close(float(D.codeLengthResiduals()), sum(len(v) * (L - math.log2(len(v) / len(evs))) for v in by.values()), "cost of the sequence", 1e-9, 1e-9)
    return len(by) > 1, ["events:%d" % len(by)]


# ------------------------------------------------------------------ C18: the cost of any pattern
@st.composite
def cost_case(draw):
    t = fit_size(draw(tree()))
    return {"t": t, "t0": draw(st.integers(-10, 40)), "E": noises(draw, leaves(t) - 1), "before": draw(st.integers(0, 30)),
            "after": draw(st.integers(0, 30)), "noise": [list(x) for x in draw(st.lists(st.tuples(st.integers(0, 60), st.integers(0, 3)), max_size=10))]}


@sub("C18", "cost-of-any-pattern", cost_case, quick=1500, thorough=20000)
def c_any_cost(case):
    t, E = norm(case["t"]), case["E"]
    occ = denote(t, case["t0"], E)
    lo, hi = min(a for a, _ in occ), max(a for a, _ in occ)
    log = set(occ) | {(lo - case["before"], 0), (hi + case["after"], 1)} | {(lo + a % (hi - lo + 1), e) for a, e in case["noise"]}
    log = sorted(log)
    order = sorted({e for _, e in log})
    cnt = Counter(order.index(e) for _, e in log)
    ren = {e: i for i, e in enumerate(order)}

    def rename(x):
        return ren[x] if not isinstance(x, dict) else {"r": x["r"], "p": x["p"], "ch": [[d, rename(c)] for d, c in x["ch"]]}
    t = rename(t)
    ts = [a for a, _ in log]
    want = ref_cost(t, case["t0"], E, cnt, len(log), max(ts) - min(ts), max(ts))
    with sut("codeLength"):
        D = DataSequence(log)
        P = Pattern(nodes_of(t))
        got = float(P.codeLength(case["t0"], E, D.getDetails()))
        C = Candidate(0, P, [a for a, _ in occ], list(E))
        got2 = float(C.computeCost(D.getDetails()))
    # differences of times beyond 2**52 are rounded to a unit or two, which matters where they are small
    eps = 1e-6 if max(ts) - min(ts) < 2 ** 52 else 2.0 * depth_of(t)
    close(got, want, "cost of %s" % P, 1e-9, eps)
    close(got2, want, "cost of the candidate", 1e-9, eps)
    return depth_of(t) > 1 or width_of(t) > 1, ["depth:%d" % depth_of(t), "width:%d" % min(width_of(t), 5)]
