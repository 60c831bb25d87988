import json
import math
import os
import re
import warnings
from collections import Counter

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vk.core import Violation, close, require, same, sub, sut

from skmine.periodic import PeriodicPatternMiner

EV = ["coffee", "wake", "a", "b10", "b9", "Z", "_", "ab", "b", "a0"]
INT_EV = [3, 10, 9, -4, 250, 0, 1, -1, 11, 2]
ODD_EV = ["10", "two words", "9", "é(a)[r=2 p=3]", "x, [d=1] \"y\"\\n", " ", "1.0", "None", "0", "t0"]


def names_of(case):
    return INT_EV if case["intev"] else ODD_EV if case.get("odd") else EV


# ------------------------------------------------------------------ logs
@st.composite
def cycle(draw, nev, span):
    r = draw(st.integers(3, 9))
    p = draw(st.integers(1, max(2, span // 6)))
    jit = draw(st.lists(st.sampled_from([0, 0, 0, 0, 1, -1, 2, -3]), min_size=r, max_size=r)) if draw(st.booleans()) else [0] * r
    return {"k": "cycle", "e": draw(st.integers(0, nev - 1)), "t": draw(st.integers(0, span // 2)), "p": p, "jit": jit}


@st.composite
def nested(draw, nev, span):
    nest = draw(st.booleans())  # repeated blocks, or a block of several events
    wide = nev > 4 and not nest
    es = draw(st.lists(st.tuples(st.integers(0, nev - 1), st.integers(0, 4)), min_size=1 if nest else 5 if wide else 2, max_size=2 if nest else 10 if wide else 4,
                       unique_by=(lambda x: x[0]) if wide else None))
    clean = draw(st.integers(0, 2)) > 0
    return {"k": "nest", "es": [list(x) for x in es], "t": draw(st.integers(0, span // 2)), "p": draw(st.integers(2, 9)),
            "r": draw(st.integers(3, 5)) if nest else 1, "P": draw(st.integers(25, 90)), "R": draw(st.integers(3, 5) if nest else st.integers(4, 8)),
            "miss": 0 if clean else draw(st.integers(0, 12)),
            "jit": [0] * 6 if clean else draw(st.lists(st.sampled_from([0, 0, 0, 1, -1]), min_size=6, max_size=6))}


@st.composite
def planted_tree(draw, nev, span):
    """A block of events and inner cycles, repeated; periods leave room for what they repeat (mostly)."""
    def block(depth):
        ch, w = [], 0
        for j in range(draw(st.integers(1, 3 if depth else 4))):
            d = 0 if j == 0 else draw(st.integers(0, 6))
            if depth and draw(st.integers(0, 1)):
                c, cw = block(depth - 1)
                p = cw + draw(st.integers(1, 6)) if draw(st.integers(0, 5)) else draw(st.integers(1, 9))
                r = draw(st.integers(2, 4))
                ch.append([d, {"r": r, "p": p, "ch": c}])
                w += d + p * (r - 1) + cw
            else:
                ch.append([d, draw(st.integers(0, nev - 1))])
                w += d
        return ch, w
    ch, w = block(draw(st.integers(0, 2)))
    t = {"r": draw(st.integers(3, 7)), "p": w + draw(st.integers(3, 30)), "ch": ch}
    while leaves(t) > 90 and t["r"] > 3:
        t["r"] -= 1
    return {"k": "tree", "t": t, "t0": draw(st.integers(0, span // 2)),
            "E": [list(x) for x in draw(st.lists(st.tuples(st.integers(0, 89), st.sampled_from([1, -1, 2, -3])), max_size=3))],
            "miss": draw(st.sampled_from([0, 0, 0, 5]))}


def expand_part(c):
    if c["k"] == "tree":
        E = [0] * (leaves(c["t"]) - 1)
        for i, e in c["E"]:
            if i < len(E):
                E[i] += e
        occ = denote(c["t"], c["t0"], E)
        if c["miss"]:
            del occ[c["miss"] % len(occ)]
        return occ
    if c["k"] == "cycle":
        return [(c["t"] + i * c["p"] + j, c["e"]) for i, j in enumerate(c["jit"])]
    out = []
    n = 0
    for I in range(c["R"]):
        for i in range(c["r"]):
            t = c["t"] + I * c["P"] + i * c["p"]
            for e, d in c["es"]:
                t += d
                n += 1
                if n != c["miss"]:
                    out.append((t + c["jit"][n % 6], e))
    return out


SCALES = {"int": [1, 1, 1, 10, 1000, 60 * 10 ** 9], "dt": [1, 1000, 10 ** 6, 10 ** 9, 6 * 10 ** 10, 36 * 10 ** 11, 864 * 10 ** 11]}
BASES = {"int": [0, 0, 7, -45, 10 ** 6], "dt": [0, 1_600_000_000, -86400, 1_587_022_200]}


@st.composite
def log_case(draw, kind=None, max_parts=4):
    nev = draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, 10]))
    span = draw(st.sampled_from([20, 60, 60, 250]))
    parts = draw(st.lists(st.one_of(planted_tree(nev, span), nested(nev, span), cycle(nev, span)), min_size=draw(st.sampled_from([1, 1, 0])), max_size=max_parts))
    while sum(len(expand_part(x)) for x in parts) > 160:
        parts.pop()
    noise = draw(st.lists(st.tuples(st.integers(0, span), st.integers(0, nev - 1)), min_size=0 if parts else 2, max_size=6))
    kind = kind or draw(st.sampled_from(["int", "int", "dt", "dt"]))
    return {"kind": kind, "parts": parts, "noise": [list(x) for x in noise], "scale": draw(st.sampled_from(SCALES[kind])),
            "base": draw(st.sampled_from(BASES[kind])), "order": draw(st.sampled_from(["time", "given", "reversed"])),
            "again": draw(st.integers(0, 3)), "intev": draw(st.integers(0, 4)) == 0, "unit": draw(st.sampled_from(["ns", "ns", "own"])),
            "complex": draw(st.sampled_from([True, True, False])), "auto": draw(st.sampled_from([True, True, False])),
            # an occurrence or two that are not on the unit of all the others
            "off": [list(x) for x in draw(st.lists(st.tuples(st.integers(0, 500), st.sampled_from([1, 3, 5, 10, -2])), max_size=draw(st.sampled_from([0, 0, 1, 2]))))],
            "offu": draw(st.sampled_from([0, 0, 0, 1, 1, 9]))}


def off_unit(case, out):
    below = [u for u in SCALES["dt"] if u < case["scale"] and (u >= 1000 or case["kind"] != "dt")]
    if below and out:
        u = below[max(0, len(below) - 1 - case.get("offu", 9))]
        for i, d in case["off"]:
            t, e = out[i % len(out)]
            out[i % len(out)] = (t + d * u, e)
    return out


def events_of(case):
    """[(time in the unit of the index, event)] as given, possibly with exact repetitions."""
    names = names_of(case)
    evs = [x for c in case["parts"] for x in expand_part(c)] + [tuple(x) for x in case["noise"]]
    evs += evs[: case["again"]]
    b = case["base"] * (10 ** 9 if case["kind"] == "dt" else 1)
    out = off_unit(case, [(b + t * case["scale"], names[e]) for t, e in evs])
    if case["order"] == "time":
        out.sort(key=lambda x: x[0])
    elif case["order"] == "reversed":
        out.reverse()
    return out


def series_of(case, evs=None):
    evs = events_of(case) if evs is None else evs
    ts = [t for t, _ in evs]
    if case["kind"] == "dt":
        unit = "ns"
        if case["unit"] == "own":  # the coarsest resolution that holds the times
            for u, k in (("s", 10 ** 9), ("ms", 10 ** 6), ("us", 1000)):
                if all(t % k == 0 for t in ts):
                    unit = u
                    break
        idx = pd.DatetimeIndex(np.array(ts, dtype="datetime64[ns]").astype("datetime64[%s]" % unit))
    elif len(ts) > 1 and len(set(np.diff(ts))) == 1 and ts[1] != ts[0]:
        idx = pd.RangeIndex(ts[0], ts[0] + len(ts) * (ts[1] - ts[0]), ts[1] - ts[0])
    else:
        idx = pd.Index(ts, dtype="int64")
    return pd.Series([e for _, e in evs], index=idx)


def rows(df, kind, what):
    """time/event frame -> [(int time, event)]"""
    require(list(df.columns) == ["time", "event"], what + ": columns", list(df.columns))
    out = []
    for t, e in zip(df["time"], df["event"]):
        if kind == "dt":
            require(isinstance(t, pd.Timestamp), what + ": times are not timestamps", t)
            t = t.value if t.unit == "ns" else t.as_unit("ns").value
        else:
            require(not isinstance(t, pd.Timestamp) and int(t) == t, what + ": times are not integers", t)
        out.append((int(t), e))
    return out


def fitted(case, S=None, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return PeriodicPatternMiner(complex=case["complex"], auto_time_scale=case["auto"], **kw).fit(series_of(case) if S is None else S)


def n_patterns(m):
    return len(m.miners_)


def lab(case, m):
    k = n_patterns(m)
    t = {p.getTypeStr() for p, _, _ in m.miners_.getPatterns()}
    return [case["kind"], "auto" if case["auto"] else "no auto scale", "complex" if case["complex"] else "simple",
            "patterns:%s" % (k if k < 4 else "4+")] + sorted("type:" + x for x in t)


# ------------------------------------------------------------------ C15 lossless
@st.composite
def lossless_case(draw):
    c = draw(log_case())
    c["pick"] = draw(st.integers(0, 15))
    c["sort"] = draw(st.sampled_from(["time", "event", "construction_order"]))
    c["odd"] = draw(st.integers(0, 3)) == 0
    return c


@sub("C15", "partition", lossless_case, quick=1400, thorough=25000)
def c_lossless(case):
    S = series_of(case)
    keep = S.copy()
    want = sorted(set(events_of(case)))
    kind = case["kind"]
    with sut("fit"):
        m = fitted(case, S)
    require(S.equals(keep) and list(S.index) == list(keep.index), "the log was modified by fit")
    k = n_patterns(m)
    with sut("reconstruct / get_residuals"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec, res = rows(m.reconstruct(), kind, "reconstruct"), rows(m.get_residuals(), kind, "get_residuals")
    require(len(set(rec)) == len(rec), "an occurrence is reconstructed twice", rec)
    require(len(set(res)) == len(res), "a residual is reported twice", res)
    require(not set(rec) & set(res), "an occurrence is both covered and residual", sorted(set(rec) & set(res))[:5])
    same(sorted(rec + res), want, "covered and residual occurrences together")
    same([t for t, _ in rec], sorted(t for t, _ in rec), "times of reconstruct")
    same([t for t, _ in res], sorted(t for t, _ in res), "times of get_residuals")
    # selected patterns: their occurrences and the complement
    ids = [i for i in range(k) if case["pick"] >> i & 1]
    srt = case["sort"]
    with sut("reconstruct / get_residuals of selected patterns"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        per = [rows(m.reconstruct([i], sort="construction_order"), kind, "reconstruct") for i in range(k)]
        a = rows(m.reconstruct(ids, sort=srt), kind, "reconstruct of selected patterns")
        a1 = rows(m.reconstruct(ids, sort=srt, drop_duplicates=True), kind, "reconstruct")
        a0 = rows(m.reconstruct(ids, sort=srt, drop_duplicates=False), kind, "reconstruct")
        b = rows(m.get_residuals(ids, sort=srt), kind, "complement of selected patterns")
    full = [x for i in ids for x in per[i]]
    same(Counter(a0), Counter(full), "occurrences of the selected patterns, repetitions kept")
    same(Counter(a1), Counter(set(full)), "occurrences of the selected patterns, repetitions dropped")
    same(Counter(a), Counter(full) if srt == "construction_order" else Counter(set(full)), "occurrences of the selected patterns")
    same(sorted(set(full) | set(b)), want, "selected patterns and their complement together")
    require(not set(full) & set(b), "an occurrence of a selected pattern is in the complement", sorted(set(full) & set(b))[:5])
    require(len(set(b)) == len(b), "an occurrence is twice in the complement", b)
    if srt == "construction_order":
        same(a, full, "construction order")
    else:
        key = (lambda x: x[0]) if srt == "time" else (lambda x: x[1])
        for l in (a, a0, a1, b):
            same([key(x) for x in l], sorted(key(x) for x in l), "sorted by %s" % srt)
    same(sorted(set(x for p in per for x in p)), sorted(rec), "union of the occurrences of every pattern")
    return k >= 1, lab(case, m) + ["all covered" if not res else "residuals"]


@st.composite
def long_case(draw):
    """Hundreds of occurrences of one event: the blockwise search."""
    c = draw(log_case(max_parts=1))
    c["complex"] = draw(st.integers(0, 3)) == 0
    segs = draw(st.lists(st.tuples(st.integers(1, 12), st.integers(20, 160), st.integers(0, 30), st.integers(0, 10)), min_size=1, max_size=3))
    c["segs"] = [list(s) for s in segs]
    return c


def long_events(case):
    names = names_of(case)
    b = case["base"] * (10 ** 9 if case["kind"] == "dt" else 1)
    out, t = [], 300
    for p, r, gap, every in case["segs"]:
        for i in range(r):
            out.append((b + (t + i * p + (1 if every and i % every == every - 1 else 0)) * case["scale"], names[0]))
        t += r * p + gap
    return events_of(dict(case, off=[])) + off_unit(case, out)


@sub("C15", "long-logs", long_case, quick=64, thorough=800)
def c_long(case):
    evs = long_events(case)
    kind = case["kind"]
    with sut("fit"):
        m = fitted(case, series_of(case, evs))
    with sut("reconstruct / get_residuals"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec, res = rows(m.reconstruct(), kind, "reconstruct"), rows(m.get_residuals(), kind, "get_residuals")
    require(not set(rec) & set(res), "an occurrence is both covered and residual", sorted(set(rec) & set(res))[:5])
    require(len(set(rec)) == len(rec) and len(set(res)) == len(res), "an occurrence is given twice")
    same(sorted(rec + res), sorted(set(evs)), "covered and residual occurrences together")
    ds = m.data_details_
    with sut("code lengths"):
        cl, base = m.miners_.codeLength(ds), ds.codeLengthResiduals()
    require(cl <= base + 1e-6, "the patterns cost more than the plain list of occurrences", cl, base)
    return n_patterns(m) >= 1, lab(case, m) + ["n>200" if len(evs) > 200 else "n<=200"]


UNITS = [1, 10, 100, 10 ** 3, 10 ** 4, 10 ** 6, 10 ** 8, 10 ** 9, 6 * 10 ** 10, 36 * 10 ** 11, 864 * 10 ** 11]


@st.composite
def unit_case(draw):
    i = draw(st.integers(1, len(UNITS) - 1))
    return {"kind": draw(st.sampled_from(["dt", "dt", "int"])), "n": draw(st.integers(5, 150)), "seed": draw(st.integers(0, 10 ** 6)), "scale": UNITS[i],
            "off": [[draw(st.integers(0, 200)), UNITS[draw(st.integers(max(0, i - 2), i - 1))] * draw(st.sampled_from([1, 1, -1, 7]))] for _ in range(draw(st.integers(0, 2)))],
            "unit": draw(st.sampled_from(["ns", "own"])), "auto": True, "complex": False, "t": draw(st.integers(-500, 10 ** 4))}


@sub("C15", "one-occurrence-off-the-unit", unit_case, quick=1600, thorough=20000)
def c_unit(case):
    """Many occurrences on a coarse unit, perhaps one or two that are not: the time unit of the search loses nothing."""
    import random
    rnd = random.Random(case["seed"])
    t, evs = case["t"], []
    for _ in range(case["n"]):
        t += rnd.randint(0, 9)
        evs.append((t * case["scale"], EV[rnd.randint(0, 9)]))
    for i, d in case["off"]:
        a, e = evs[i % len(evs)]
        evs[i % len(evs)] = (a + d, e)
    kind = case["kind"]
    with sut("fit"):
        m = fitted(case, series_of(case, evs))
    with sut("reconstruct / get_residuals"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec, res = rows(m.reconstruct(), kind, "reconstruct"), rows(m.get_residuals(), kind, "get_residuals")
    same(sorted(rec + res), sorted(set(evs)), "covered and residual occurrences together")
    return bool(case["off"]), [kind, "unit:%.0e" % case["scale"], "off:%d" % len(case["off"])]


# ------------------------------------------------------------------ C16 the published table
TD = re.compile(r"^(?:(-?\d+) days?, )?(\d+):(\d\d):(\d\d)(?:\.(\d{6}))?$")


def dur(s, kind):
    if kind == "int":
        return int(s)
    g = TD.match(s)
    if not g:
        raise Violation("unreadable duration %r" % s)
    d, h, mi, se, us = (int(x) if x else 0 for x in g.groups())
    return (((d * 24 + h) * 60 + mi) * 60 + se) * 10 ** 9 + us * 1000


def parse(s, kind, names):
    """'(a [d=2] (b)[r=3 p=4])[r=5 p=20]' -> tree"""
    pos = 0

    def node():
        nonlocal pos
        if s[pos] == "(":
            pos += 1
            ch = [(0, node())]
            while s.startswith(" [d=", pos):
                j = s.index("] ", pos)
                d = dur(s[pos + 4:j], kind)
                pos = j + 2
                ch.append((d, node()))
            if s[pos] != ")":
                raise ValueError
            g = re.compile(r"\[r=(\d+) p=([^\]]+)\]").match(s, pos + 1)
            pos = g.end()
            return {"r": int(g.group(1)), "p": dur(g.group(2), kind), "ch": ch}
        g = re.compile(r"-?\w+").match(s, pos)
        pos = g.end()
        return names[g.group(0)]
    try:
        t = node()
        if pos != len(s):
            raise ValueError
        return t
    except (ValueError, IndexError, AttributeError, KeyError) as e:
        raise Violation("unreadable pattern %r (%r)" % (s, e))


def denote(tree, t0, E):
    """The occurrences a pattern stands for: every first occurrence of a repetition is p after the
    first one of the repetition before, every later block d after the first occurrence of the block
    to its left, each time with the next shift correction added."""
    out, it = [], iter([0] + list(E))

    def go(n, ref, off):
        if not isinstance(n, dict):
            t = ref + off + next(it)
            out.append((t, n))
            return t
        first = prev_rep = None
        for i in range(n["r"]):
            last = None
            for j, (d, c) in enumerate(n["ch"]):
                if j == 0:
                    t = go(c, ref, off) if i == 0 else go(c, prev_rep, n["p"])
                    prev_rep = t
                    if i == 0:
                        first = t
                else:
                    t = go(c, last, d)
                last = t
        return first
    try:
        go(tree, t0, 0)
    except StopIteration:
        raise Violation("fewer shift corrections than occurrences", E)
    require(next(it, None) is None, "more shift corrections than occurrences", E, len(out))
    return out


def ns(x, kind, what):
    if kind == "dt":
        require(isinstance(x, (pd.Timestamp, pd.Timedelta)), what + " is neither a timestamp nor a duration", x)
        return int(x.value)
    require(not isinstance(x, (pd.Timestamp, pd.Timedelta)), what + " is not a number", x)
    return int(x)


@st.composite
def table_case(draw):
    c = draw(log_case())
    if c["kind"] == "dt" and c["scale"] == 1:
        c["scale"] = 1000  # durations are displayed down to the microsecond
    c["chrono"] = draw(st.booleans())
    return c


@sub("C16", "rows-rebuild-occurrences", table_case, quick=1200, thorough=20000)
def c_table(case):
    kind = case["kind"]
    S = series_of(case)
    with sut("fit"):
        m = fitted(case, S)
    with sut("transform"):
        full = m.transform(S, dE_sum=False, chronological_order=case["chrono"])
        summ = m.transform(S, dE_sum=True, chronological_order=case["chrono"])
        dflt = m.transform(S)
    k = n_patterns(m)
    same(len(full), k, "rows of the table")
    if not k:
        same(len(summ), 0, "rows of the summary")
        return False, lab(case, m)
    same(list(full.columns), ["t0", "pattern", "repetition_major", "period_major", "E"], "columns")
    same(list(summ.columns), ["t0", "pattern", "repetition_major", "period_major", "sum_E"], "columns of the summary")
    same(sorted(full.index), list(range(k)), "pattern ids")
    if case["chrono"]:
        same(list(full["t0"]), sorted(full["t0"]), "chronological order of the rows")
    else:
        same(list(full.index), list(range(k)), "pattern ids in selection order")
    same(list(dflt["t0"]), sorted(dflt["t0"]), "default order of the rows")
    names = {str(e): e for e in (INT_EV if case["intev"] else EV)}
    depth = 0
    for i in range(k):
        r = full.loc[i]
        t0, per, rep = ns(r["t0"], kind, "t0"), ns(r["period_major"], kind, "period"), int(r["repetition_major"])
        E = [ns(e, kind, "shift correction") for e in r["E"]]
        tree = parse(r["pattern"], kind, names)
        require(isinstance(tree, dict), "a pattern without repetition", r["pattern"])
        same(tree["r"], rep, "repetitions of %s" % r["pattern"])
        same(tree["p"], per, "period of %s" % r["pattern"])
        with sut("reconstruct of one pattern"):
            occ = rows(m.reconstruct([i], sort="construction_order"), kind, "reconstruct")
        same(denote(tree, t0, E), occ, "occurrences denoted by %s, t0=%d, E=%s" % (r["pattern"], t0, E))
        s = summ.loc[i]
        same(ns(s["sum_E"], kind, "sum_E"), sum(map(abs, E)), "sum of the shift corrections")
        same((s["pattern"], s["t0"], s["period_major"], s["repetition_major"]), (r["pattern"], r["t0"], r["period_major"], r["repetition_major"]), "summary row")
        require(rep >= 3 or any(isinstance(c, dict) for _, c in tree["ch"]) or rep >= 2, "a pattern without repetition", r["pattern"])
        depth = max(depth, r["pattern"].count("[r=") + r["pattern"].count("[d="))
    return True, lab(case, m) + ["depth:%d" % min(depth, 4)]


def unquote(s):
    return s[1:-1].replace('\\"', '"') if s.startswith('"') else s


def drawn(body, what):
    """Statements of a drawing -> node labels, tree edges, dotted edges."""
    nodes, edges, dots = {}, [], []
    for l in body:
        l = l.strip()
        g = re.match(r'^(\S+) -> (\S+) \[(.*)\]$', l, re.S)
        if g:
            a, b = unquote(g.group(1)), unquote(g.group(2))
            if "dotted" in g.group(3):
                dots.append((a, b, unquote(re.search(r'label=("(?:[^"\\]|\\.)*"|\S+)', g.group(3)).group(1))))
            else:
                edges.append((a, b))
            continue
        g = re.match(r'^(\S+) \[label=("(?:[^"\\]|\\.)*"|[^\s\]]+)', l, re.S)
        require(g, what + ": unreadable statement", l)
        require(unquote(g.group(1)) not in nodes, what + ": a node drawn twice", l)
        nodes[unquote(g.group(1))] = unquote(g.group(2))
    return nodes, edges, dots


def tree_drawn(nodes, edges, dots, kind, names, what):
    kids, par = {}, {}
    for a, b in edges:
        require(b not in par, what + ": a node with two parents", a, b)
        par[b] = a
        kids.setdefault(a, []).append(b)
    roots = [x for x in nodes if x not in par]
    same(len(roots), 1, what + ": roots")
    dist = {}
    for a, b, d in dots:
        require(b not in dist and par.get(a) == par.get(b), what + ": a distance between nodes that are not neighbours", a, b)
        dist[b] = (a, dur(d, kind))
    used = set()

    def go(x):
        if x not in kids:
            return names[nodes[x]]
        g = re.match(r"^(?:\U0001d70f=(.*)\n)?p=(.*)\nr=(\d+)$", nodes[x])
        require(g and (g.group(1) is None) == (x != roots[0]), what + ": label of a repetition", nodes[x])
        ch = []
        for j, y in enumerate(kids[x]):
            a, d = dist.get(y, (None, 0))
            used.add(y)
            require(a is None or (j > 0 and a == kids[x][j - 1]), what + ": a distance from another block", y)
            ch.append((d, go(y)))
        return {"r": int(g.group(3)), "p": dur(g.group(2), kind), "ch": ch}
    tree = go(roots[0])
    require(set(dist) <= used, what + ": stray distances")
    return tree, re.match("^\U0001d70f=(.*)\n", nodes[roots[0]]).group(1)


@sub("C16", "drawing", table_case, quick=400, thorough=6000)
def c_draw(case):
    kind = case["kind"]
    S = series_of(case)
    with sut("fit"):
        m = fitted(case, S)
        full = m.transform(S, dE_sum=False, chronological_order=case["chrono"])
    k = n_patterns(m)
    names = {str(e): e for e in names_of(case)}
    for i in list(range(k)) + list(range(k))[:1]:  # drawing changes nothing: the first is drawn again
        with sut("draw_pattern"):
            body = list(m.draw_pattern(i).body)
        what = "drawing of %s" % full.loc[i]["pattern"]
        try:
            tree, t0 = tree_drawn(*drawn(body, what), kind, names, what)
        except KeyError as e:
            raise Violation("%s: unknown event %s" % (what, e))
        same(tree, parse(full.loc[i]["pattern"], kind, names), what)
        same(pd.Timestamp(t0).value if kind == "dt" else int(t0), ns(full.loc[i]["t0"], kind, "t0"), what + ": start")
    if k:
        with sut("transform after drawing"):
            again = m.transform(S, dE_sum=False, chronological_order=case["chrono"])
        same(again.to_dict(), full.to_dict(), "the table after drawing")
    return k > 0, lab(case, m)


# ------------------------------------------------------------------ C17 export / import
@st.composite
def io_case(draw):
    c = draw(log_case())
    c["imp_auto"] = draw(st.booleans())
    c["odd"] = draw(st.integers(0, 3)) == 0
    c["used"] = draw(st.booleans())
    c["other"] = draw(log_case(max_parts=2))
    return c


def snapshot(m, kind, S):
    with sut("reading the patterns"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        df = m.transform(S, dE_sum=False)
        tab = sorted((ns(r.t0, kind, "t0"), r.pattern, int(r.repetition_major), ns(r.period_major, kind, "period"),
                      [ns(e, kind, "E") for e in r.E]) for r in df.itertuples()) if len(df) else []
        return {"table": tab, "reconstruct": sorted(rows(m.reconstruct(), kind, "reconstruct")),
                "residuals": sorted(rows(m.get_residuals(), kind, "residuals")),
                "cost": round(float(m.miners_.codeLength(m.data_details_)), 6)}


@sub("C17", "round-trip", io_case, quick=700, thorough=12000)
def c_io(case):
    kind = case["kind"]
    S = series_of(case)
    with sut("fit"):
        m = fitted(case, S)
        m2 = PeriodicPatternMiner(complex=not case["complex"], auto_time_scale=case["imp_auto"])
        if case["used"]:
            m2 = fitted(dict(case["other"], auto=case["imp_auto"]))
            m2.transform(None)
            m2.get_residuals()
    before = snapshot(m, kind, S)
    p1, p2 = os.path.join(os.getcwd(), "p1.json"), os.path.join(os.getcwd(), "p2.json")
    try:
        with sut("export"):
            m.export_patterns(file=p1)
        same(snapshot(m, kind, S), before, "the miner after exporting")
        with sut("import"):
            m2.import_patterns(file=p1)
        got = snapshot(m2, kind, S)
        for k in before:
            same(got[k], before[k], "%s after import" % k)
        with sut("second export / import"):
            m2.export_patterns(file=p2)
            m3 = PeriodicPatternMiner()
            m3.import_patterns(file=p2)
        got = snapshot(m3, kind, S)
        for k in before:
            same(got[k], before[k], "%s after a second round trip" % k)
        with sut("loading the exported file"):
            with open(p1) as fh:
                json.load(fh)
    finally:
        for p in (p1, p2):
            if os.path.exists(p):
                os.remove(p)
    return n_patterns(m) >= 1, lab(case, m) + ["integer events" if case["intev"] else "text events", "reused importer" if case["used"] else "new importer"]


# ------------------------------------------------------------------ C18 cost
def ref_cost(tree, t0, E, cnt, n, dT, t_end):
    """Description length of one pattern, from its definition."""
    L = math.log2

    def events(x):
        return -L(cnt[x] / (3 * n)) if not isinstance(x, dict) else 2 * L(3) + sum(events(c) for _, c in x["ch"])

    def alpha(x):
        return {x} if not isinstance(x, dict) else set().union(*[alpha(c) for _, c in x["ch"]])

    def reps(x):
        return 0.0 if not isinstance(x, dict) else L(min(cnt[a] for a in alpha(x))) + sum(reps(c) for _, c in x["ch"])

    occ0 = denote(tree, 0, [0] * (leaves(tree) - 1))
    occ = denote(tree, 0, E)
    per_rep = len(occ) // tree["r"]
    za = per_rep * (tree["r"] - 1)
    corr = [a[0] - b[0] for a, b in zip(occ, occ0)]
    e_za = corr[za]
    cost = events(tree) + reps(tree) + sum(2 + abs(e) for e in E)
    cost += L(math.floor((dT - e_za) / (tree["r"] - 1))) + L(dT - e_za - tree["p"] * (tree["r"] - 1) + 1)
    if len(tree["ch"]) > 1 or isinstance(tree["ch"][0][1], dict):
        span = max(t for t, _ in occ0) - occ0[za][0]
        last = rightmost(tree)
        tmax = t_end - t0 - tree["p"] * (tree["r"] - 1) - min(corr[i] for i in last)
        cost += L(tmax + 1)

        def pds(x, T, T_rep, root):
            c = 0.0
            if not root:
                T_rep = T - x["r"] + 1
                c += L(math.floor(T / (x["r"] - 1)))
            c += (len(x["ch"]) - 1) * L(T_rep + 1)
            off = 0
            for j, (d, y) in enumerate(x["ch"]):
                off += d if j else 0
                if isinstance(y, dict):
                    c += pds(y, T_rep - off, None, False)
            return c
        cost += pds(tree, None, span, True)
    return cost


def leaves(x):
    return 1 if not isinstance(x, dict) else x["r"] * sum(leaves(c) for _, c in x["ch"])


def rightmost(tree):
    """Positions, in order of expansion, of the last repetition of every leaf that is the right-most child of its parent."""
    out = []

    def go(x, base, last_child):
        if not isinstance(x, dict):
            if last_child:
                out.append(base)
            return
        w = sum(leaves(c) for _, c in x["ch"])
        base += (x["r"] - 1) * w
        for j, (_, c) in enumerate(x["ch"]):
            go(c, base, j == len(x["ch"]) - 1)
            base += leaves(c)
    go(tree, 0, True)
    return out


@st.composite
def cost_case(draw):
    c = draw(log_case(kind="int"))
    c.update(auto=False, intev=False)
    return c


@sub("C18", "never-costs-more", cost_case, quick=1200, thorough=20000)
def c_cost(case):
    return cost_of_log(case, events_of(case))


def cost_of_log(case, given):
    S = series_of(case, given)
    evs = sorted(set(given))
    cnt = Counter(e for _, e in evs)
    n = len(evs)
    ts = [t for t, _ in evs]
    dT = max(ts) - min(ts)
    with sut("fit"):
        m = fitted(case, S)
        full = m.transform(S, dE_sum=False, chronological_order=False)
        pats = m.miners_.getPatterns()
        ds = m.data_details_
        cl = float(m.miners_.codeLength(ds))
        only = float(ds.codeLengthResiduals())
        stats = m.miners_.output_detailed(ds)[0]
    one = {e: -math.log2(c / n) + math.log2(dT + 1) for e, c in cnt.items()}
    base = sum(one[e] for _, e in evs)
    close(only, base, "cost of the plain list of occurrences", 1e-9, 1e-6)
    names = {str(e): e for e in cnt}
    covered, tot = set(), 0.0
    for i in range(len(pats)):
        r = full.loc[i]
        E = [int(e) for e in r["E"]]
        tree = parse(r["pattern"], "int", names)
        occ = denote(tree, int(r["t0"]), E)
        c = ref_cost(tree, int(r["t0"]), E, cnt, n, dT, max(ts))
        with sut("codeLength of a pattern"):
            p, t0, e = pats[i]
            got = float(p.codeLength(t0, e, ds.getDetails()))
        close(got, c, "cost of %s" % r["pattern"], 1e-7, 1e-6)
        new = set(occ) - covered
        require(len(new) >= 3, "a selected pattern covers fewer than three new occurrences", r["pattern"], sorted(new))
        require(c <= sum(one[x] for _, x in new) + 1e-6, "a selected pattern costs more than the occurrences it newly covers",
                r["pattern"], c, sum(one[x] for _, x in new))
        covered |= set(occ)
        tot += c
    rest = sum(one[e] for t, e in evs if (t, e) not in covered)
    close(cl, tot + rest, "total cost", 1e-7, 1e-5)
    require(cl <= only + 1e-6, "the patterns cost more than the plain list of occurrences", cl, only)
    close(stats["Code length patterns"], tot, "reported cost of the patterns", 1e-7, 1e-5)
    close(stats["Code length residuals"], rest, "reported cost of the residuals", 1e-7, 1e-5)
    same(int(stats["Total residual nb"]), sum(x not in covered for x in evs), "reported number of residuals")
    same(int(stats["Total patterns nb"]), len(pats), "reported number of patterns")
    if only > 0:
        close(stats["Code length total"], tot + rest, "reported total", 1e-7, 1e-5)
        close(stats["Code length residuals only"], base, "reported cost without patterns", 1e-7, 1e-5)
        close(stats["Total compression ratio"], 100 * (tot + rest) / base, "reported compression ratio", 1e-6, 1e-5)
    return len(pats) >= 1, lab(case, m)


@sub("C18", "large-logs-cost", lambda: big_case(kind="int"), quick=32, thorough=500)
def c_big_cost(case):
    return cost_of_log(dict(case, auto=False), big_events(case))


@st.composite
def planted_case(draw):
    return {"kind": draw(st.sampled_from(["int", "dt"])), "r": draw(st.integers(6, 60)), "p": draw(st.integers(8, 500)),
            "t": draw(st.integers(0, 1000)), "complex": draw(st.booleans()), "auto": draw(st.booleans()), "unit": "ns",
            "scale": draw(st.sampled_from([1, 10, 1000]))}


@sub("C18", "perfect-cycle-found", planted_case, quick=250, thorough=3000)
def c_planted(case):
    """Equally spaced occurrences of one event are exactly one pattern, without residual."""
    evs = [((case["t"] + i * case["p"]) * case["scale"], "x") for i in range(case["r"])]
    S = series_of(case, evs)
    with sut("fit"):
        m = fitted(case, S)
        df = m.transform(S, dE_sum=False)
        occ = rows(m.reconstruct(), case["kind"], "reconstruct")
    same(occ, evs, "occurrences covered")
    k = case["kind"]
    got = [(ns(r.t0, k, "t0"), int(r.repetition_major), ns(r.period_major, k, "period"), [ns(e, k, "E") for e in r.E]) for r in df.itertuples()]
    same(got, [(evs[0][0], case["r"], case["p"] * case["scale"], [0] * (case["r"] - 1))], "patterns of a perfect cycle")
    return True, [k, "r>=20" if case["r"] >= 20 else "r<20"]


@st.composite
def regular_case(draw):
    k = draw(st.sampled_from(["pair", "block", "burst", "pairs"]))
    c = {"kind": "int", "k": k, "t": draw(st.integers(-50, 100)), "R": draw(st.integers(6, 20)), "P": draw(st.integers(20, 300)),
         "auto": False, "complex": True, "unit": "ns"}
    if k == "burst":
        c["p"], c["R"] = draw(st.integers(2, 20)), draw(st.integers(3, 9))
        c["r"] = draw(st.integers(3 if c["R"] > 4 else 5, 8))
        c["P"] += 40 + 2 * c["r"] * c["p"]
    elif k == "pairs":
        c["r"], c["p"], c["R"] = draw(st.integers(3, 6)), draw(st.integers(6, 20)), draw(st.integers(5, 8))
        c["P"] += 2 * c["r"] * c["p"]
        c["d"] = draw(st.integers(1, c["p"] - 1))
    else:
        n = 1 if k == "pair" else draw(st.integers(2, 4))
        c["offs"] = [0] + sorted(draw(st.lists(st.integers(0, c["P"] - 1), min_size=n, max_size=n)))
    return c


@sub("C18", "regular-blocks-found", regular_case, quick=300, thorough=4000)
def c_regular(case):
    """A block of events, or a burst of one event, repeated at equal distances: everything is covered, without correction."""
    t, R, P = case["t"], case["R"], case["P"]
    if case["k"] == "burst":
        evs = [(t + i * P + j * case["p"], EV[0]) for i in range(R) for j in range(case["r"])]
        n = 1
    elif case["k"] == "pairs":
        evs = [(t + i * P + j * case["p"] + k * case["d"], EV[k]) for i in range(R) for j in range(case["r"]) for k in (0, 1)]
        n = 2
    else:
        evs = [(t + i * P + o, EV[j]) for i in range(R) for j, o in enumerate(case["offs"])]
        n = len(case["offs"])
    S = series_of(case, sorted(evs))
    with sut("fit"):
        m = fitted(case, S)
        df = m.transform(S, dE_sum=False)
        occ = rows(m.reconstruct(), "int", "reconstruct")
    same(sorted(occ), sorted(evs), "occurrences covered")
    require(not any(int(e) for r in df.itertuples() for e in r.E), "a correction of a regular repetition", list(df.pattern))
    if case["k"] == "block":
        require(len(df) < n, "as many patterns as events", list(df.pattern))
    else:
        same(len(df), 1, "patterns %s" % list(df.pattern))
    return True, [case["k"], "patterns:%d" % len(df)]


# ------------------------------------------------------------------ C19 invariance
@st.composite
def inv_case(draw):
    c = draw(log_case(kind="int"))
    c.update(scale=1, intev=False)
    c["base"] = draw(st.sampled_from([0, 3]))
    c["perm"] = draw(st.randoms(use_true_random=False)).randint(0, 10 ** 6)
    c["shift"] = draw(st.sampled_from([1, 17, -200, 10 ** 9 + 7]))
    c["mult"] = draw(st.sampled_from([10, 100, 10 ** 4]))
    c["dup"] = draw(st.lists(st.integers(0, 60), max_size=4))
    c["tick"] = draw(st.sampled_from([1, 10 ** 3, 10 ** 9, 6 * 10 ** 10, 36 * 10 ** 11, 864 * 10 ** 11]))
    # a common unit of all occurrences but one
    c["near"] = [draw(st.sampled_from([10, 24, 60, 100, 3600])), draw(st.sampled_from([0, -1, 1, 7, 30])), draw(st.sampled_from([1, 3, 7, 12]))] if draw(st.integers(0, 2)) == 0 else []
    return c


def table(m, kind):
    df = m.transform(None, dE_sum=False, chronological_order=False)
    if not len(df):
        return []
    return [(ns(r.t0, kind, "t0"), int(r.repetition_major), ns(r.period_major, kind, "period"), [ns(e, kind, "E") for e in r.E]) for r in df.itertuples()]


@sub("C19", "same-log-same-patterns", inv_case, quick=500, thorough=8000)
def c_inv(case):
    import random
    evs = sorted(set(events_of(case)))
    if len(evs) < 2:
        return False, []
    if case.get("near"):
        u, i, d = case["near"]
        evs = [(t * u, e) for t, e in evs]
        i = i % len(evs) if i > 0 else i
        evs[i] = (evs[i][0] + d, evs[i][1])
        evs = sorted(set(evs))
    cfg = dict(case, auto=False)
    with sut("fit"):
        m = fitted(cfg, series_of(cfg, evs))
        ref = table(m, "int")
        strs = list(m.transform(None, chronological_order=False).get("pattern", []))

    def against(what, c, ev2, tmap, emap=None):
        with sut(what):
            mm = fitted(c, series_of(c, ev2))
            got = table(mm, c["kind"])
        same(got, [(tmap(t), r, tmap(p) - tmap(0), [tmap(e) - tmap(0) for e in E]) for t, r, p, E in ref], what)
        return mm
    ident = lambda t: t
    mixed = list(evs)
    random.Random(case["perm"]).shuffle(mixed)
    mm = against("rows in another order", cfg, mixed, ident)
    with sut("transform"):
        same(list(mm.transform(None, chronological_order=False).get("pattern", [])), strs, "patterns, rows in another order")
    against("repeated rows", cfg, mixed + [evs[i % len(evs)] for i in case["dup"]], ident)
    sh = case["shift"]
    got = against("times shifted", cfg, [(t + sh, e) for t, e in evs], lambda t: t + sh)
    # a coarser unit is scaled away (times in units of `mult`, unless they all end in zero already)
    k = case["mult"]
    if any(t % 10 for t, _ in evs):
        a = dict(case, auto=True)
        against("times in a smaller unit", a, [(t * k, e) for t, e in evs], lambda t: t * k)
        against("automatic scale", a, evs, ident)
        if case["tick"] in (1, 10 ** 3):
            d = dict(a, kind="dt", unit="own")
            against("timestamps", d, [(t * case["tick"], e) for t, e in evs], lambda t: t * case["tick"])
    fits = max(abs(t) for t, _ in evs) * case["tick"] < 9 * 10 ** 18  # timestamps count nanoseconds in 64 bits
    if case["tick"] >= 10 ** 9 and fits and any(t % 60 for t, _ in evs) and any(t % 10 for t, _ in evs) and any(t % 24 for t, _ in evs):
        d = dict(case, auto=True, kind="dt", unit="own")
        against("timestamps in whole units", d, [(t * case["tick"], e) for t, e in evs], lambda t: t * case["tick"])
    with sut("fitting again"):
        m.fit(series_of(dict(case, kind="dt", unit="ns"), [(t * 7, e) for t, e in evs[:4]] + [(5, "a"), (9, "b9")]))
        m.transform(None)
        m.fit(series_of(cfg, evs))
        again = table(m, "int")
    same(again, ref, "after another log")
    return bool(ref), lab(case, m)


# ------------------------------------------------------------------ large logs
@st.composite
def big_case(draw, kind=None):
    """Hundreds or thousands of occurrences of many events, with chance and planted cycles."""
    kind = kind or draw(st.sampled_from(["int", "dt"]))
    n = draw(st.sampled_from([300, 600, 1001, 1500, 2500]))
    return {"kind": kind, "n": n, "ne": draw(st.sampled_from([n // 10, n // 6])), "span": n * draw(st.sampled_from([15, 40])), "seed": draw(st.integers(0, 10 ** 6)),
            "scale": draw(st.sampled_from([1000, 10 ** 9, 6 * 10 ** 10, 36 * 10 ** 11])) if kind == "dt" else draw(st.sampled_from([1, 10, 10 ** 6])),
            "base": draw(st.sampled_from(BASES[kind])), "order": draw(st.sampled_from(["time", "mixed", "mixed"])), "intev": draw(st.booleans()),
            "complex": draw(st.booleans()), "auto": draw(st.booleans()), "unit": draw(st.sampled_from(["ns", "own"])), "again": draw(st.sampled_from([0, 0, 0, 3, 200])),
            "distinct": draw(st.booleans()), "heavy": draw(st.sampled_from([0, 0, 0, 260]))}


def big_events(case):
    import random
    rnd = random.Random(case["seed"])
    n, ne = case["n"], case["ne"]
    name = (lambda e: e * 7 - 50) if case["intev"] else (lambda e: "e%d" % e)
    out = [(rnd.randrange(case["span"]), rnd.randrange(ne)) for _ in range(n // 2)]
    while len(out) < n:
        e, r, p = rnd.randrange(ne), rnd.randint(3, 12), rnd.randint(1, case["span"] // 20)
        t = rnd.randrange(case["span"])
        out += [(t + i * p + rnd.choice([0, 0, 0, 1]), e) for i in range(r)]
        if rnd.random() < .3:
            d, e = rnd.randint(0, p), rnd.randrange(ne)
            out += [(t + i * p + d, e) for i in range(r)]
    out += [(rnd.randrange(case["span"] * (40 if case["scale"] < 10 ** 12 else 4)), 0) for _ in range(case["heavy"])]
    if case["distinct"]:  # one event at a time
        out = list(dict(out).items())
    out += [out[rnd.randrange(len(out))] for _ in range(case["again"])]
    if case["order"] == "time":
        out.sort()
    else:
        rnd.shuffle(out)
    b = case["base"] * (10 ** 9 if case["kind"] == "dt" else 1)
    return [(b + t * case["scale"], name(e)) for t, e in out]


def big_lab(case, m):
    return [case["kind"], "n:%d" % case["n"], "complex" if case["complex"] else "simple", case["order"]]


@sub("C15", "large-logs", big_case, quick=48, thorough=800)
def c_big(case):
    evs, kind = big_events(case), case["kind"]
    with sut("fit"):
        m = fitted(case, series_of(case, evs))
    k = n_patterns(m)
    with sut("reconstruct / get_residuals"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec, res = rows(m.reconstruct(), kind, "reconstruct"), rows(m.get_residuals(), kind, "get_residuals")
        ids = [i for i in range(k) if i % 3 == case["seed"] % 3]
        a, b = rows(m.reconstruct(ids), kind, "reconstruct"), rows(m.get_residuals(ids), kind, "get_residuals")
        per = [x for i in ids for x in rows(m.reconstruct([i], sort="construction_order"), kind, "reconstruct")]
    for x, y, what in ((rec, res, "patterns"), (a, b, "selected patterns")):
        require(not set(x) & set(y), "an occurrence is both covered and residual", sorted(set(x) & set(y))[:5])
        require(len(set(x)) == len(x) and len(set(y)) == len(y), "an occurrence is given twice")
        same(sorted(x + y), sorted(set(evs)), "occurrences of the %s and the others together" % what)
        same([t for t, _ in x + y], sorted(t for t, _ in x) + sorted(t for t, _ in y), "chronological order")
    same(sorted(a), sorted(set(per)), "occurrences of the selected patterns")
    return k >= 1, big_lab(case, m)


@sub("C16", "large-tables", big_case, quick=32, thorough=500)
def c_big_table(case):
    kind = case["kind"]
    S = series_of(case, big_events(case))
    with sut("fit / transform"):
        m = fitted(case, S)
        full, summ = m.transform(S, dE_sum=False), m.transform(S)
    k = n_patterns(m)
    same((len(full), len(summ)), (k, k), "rows of the table")
    if not k:
        return False, big_lab(case, m)
    same(list(full["t0"]), sorted(full["t0"]), "chronological order of the rows")
    same(sorted(full.index), list(range(k)), "pattern ids")
    names = {str(e): e for e in m.alpha_groups_}
    for i in range(k):
        r = full.loc[i]
        t0, E = ns(r["t0"], kind, "t0"), [ns(e, kind, "shift correction") for e in r["E"]]
        tree = parse(r["pattern"], kind, names)
        same((tree["r"], tree["p"]), (int(r["repetition_major"]), ns(r["period_major"], kind, "period")), "repetitions and period of %s" % r["pattern"])
        with sut("reconstruct of one pattern"):
            occ = rows(m.reconstruct([i], sort="construction_order"), kind, "reconstruct")
        same(denote(tree, t0, E), occ, "occurrences denoted by %s, t0=%d, E=%s" % (r["pattern"], t0, E))
        same(ns(summ.loc[i]["sum_E"], kind, "sum_E"), sum(map(abs, E)), "sum of the shift corrections")
    return True, big_lab(case, m) + ["rows:%d+" % (k // 50 * 50)]


@sub("C17", "large-round-trip", big_case, quick=32, thorough=500)
def c_big_io(case):
    kind = case["kind"]
    S = series_of(case, big_events(case))
    with sut("fit"):
        m = fitted(case, S)
    before = snapshot(m, kind, S)
    p1 = os.path.join(os.getcwd(), "p1.json")
    try:
        with sut("export / import"):
            m.export_patterns(file=p1)
            m2 = PeriodicPatternMiner()
            m2.import_patterns(file=p1)
        got = snapshot(m2, kind, S)
        for k in before:
            same(got[k], before[k], "%s after import" % k)
    finally:
        if os.path.exists(p1):
            os.remove(p1)
    return n_patterns(m) >= 1, big_lab(case, m)


@sub("C19", "large-logs-written-otherwise", lambda: big_case(kind="int"), quick=24, thorough=400)
def c_big_inv(case):
    import random
    case = dict(case, scale=1, auto=False, again=0)
    evs = sorted(set(big_events(case)))
    with sut("fit"):
        m = fitted(case, series_of(case, evs))
    ref = snapshot(m, "int", None)
    mixed = list(evs) + evs[:: max(1, len(evs) // 40)]
    random.Random(case["seed"]).shuffle(mixed)
    with sut("fit"):
        m2 = fitted(case, series_of(case, mixed))
    same(snapshot(m2, "int", None), ref, "rows in another order, some repeated")
    if any(t % 60 for t, _ in evs) and any(t % 10 for t, _ in evs) and any(t % 24 for t, _ in evs):
        k = (10 ** 6, 6 * 10 ** 10)[case["seed"] % 2]
        c = dict(case, kind="dt", auto=True)
        with sut("fit"):
            m3 = fitted(c, series_of(c, [(t * k, e) for t, e in mixed]))
        got = snapshot(m3, "dt", None)
        same([(t // k, r, p // k, [e // k for e in E]) for t, _, r, p, E in got["table"]], [(t, r, p, E) for t, _, r, p, E in ref["table"]], "patterns of timestamps")
        same([(t // k, e) for t, e in got["residuals"]], ref["residuals"], "residuals of timestamps")
    return n_patterns(m) >= 1, big_lab(case, m)
