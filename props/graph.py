"""GraphMDL: embeddings, covers, description lengths, candidates, search."""
import contextlib
import io
import itertools
import math
import time
from collections import Counter

import networkx as nx
from hypothesis import strategies as st

from vk.core import close, raises, require, same, sub, sut

from skmine.graph.graphmdl import utils as gu
from skmine.graph.graphmdl.candidate import Candidate
from skmine.graph.graphmdl.code_table import CodeTable
from skmine.graph.graphmdl.code_table_row import CodeTableRow
from skmine.graph.graphmdl.graph_mdl import GraphMDL
from skmine.graph.graphmdl.label_codes import LabelCodes

VNAMES = {"alpha": ["x", "y", "z", "w", "u", "q", "r", "s", "t"], "word": ["Book", "Bo", "ok", "Person", "B", "é k", "Bookshop", "Per", "son"], "num": ["1", "2", "3", "4", "12", "5", "13", "21", "9"], "mixed": ["v1", "Px", "P", "1", "v", "xP1", "v2v", "PP", "2"],
          "case": ["ab", "AB", " ab", "ab ", "Ab", "a b", "aB", "A b", "a"], "same": ["a", "b", "c", "d", "e", "f", "g", "h", "i"]}
ENAMES = {"alpha": ["a", "b", "c", "d", "e"], "word": ["author", "auth", "or", "au thor", "rdf:type"], "num": ["7", "8", "78", "0", "6"], "mixed": ["to", "v2", "in", "t", "o"],
          "case": ["to", "To", "to ", " to", "t o"], "same": ["a", "b", "c", "d", "e"]}
IDS = {"one": lambda i: i + 1, "zero": lambda i: i, "far": lambda i: 10 + 7 * i, "str": lambda i: "n%d" % i, "tuple": lambda i: (i // 2, "ab"[i % 2]),
       "blank": lambda i: (" " * (i % 3)) + "Nn"[i // 3 % 2] + str(i // 6)}
KEYS = {"auto": lambda i: None, "gap": lambda i: 3 * i + 1, "back": lambda i: 40 - i, "str": lambda i: "k%d" % i}


@st.composite
def graph_case(draw, max_n=6, max_e=8, multi=None, names=("alpha", "alpha", "word", "num", "mixed", "case"), loops=False, motif=False):
    rich = draw(st.sampled_from([0, 1, 1, 2]))
    n = draw(st.integers([1, 3, 4][rich], max_n))
    nl = draw(st.sampled_from([1, 3, 3, 5, 8]))
    lab = [draw(st.lists(st.integers(0, nl), max_size=draw(st.sampled_from([0, 1, 1, 2, 3, 5, 9])), unique=True)) for _ in range(n)]
    pairs = [(u, v) for u in range(n) for v in range(n) if u != v or loops]
    m = draw(st.booleans()) if multi is None else multi
    es = []
    if pairs:
        es = draw(st.lists(st.tuples(st.sampled_from(pairs), st.integers(0, draw(st.sampled_from([0, 1, 2, 2, 4])))), min_size=min([0, 2, 4][rich], len(pairs)), max_size=max_e, unique=True))
        if m and es and not draw(st.integers(0, 3)):
            # several edges side by side
            for p in draw(st.lists(st.sampled_from(sorted({p for p, _ in es})), min_size=1, max_size=2)):
                es += [(p, l) for l in draw(st.lists(st.integers(0, 4), min_size=2, max_size=5, unique=True)) if (p, l) not in es]
        if not m:
            seen, keep = set(), []
            for p, l in es:
                if p not in seen:
                    seen.add(p)
                    keep.append((p, l))
            es = keep
    if not es and not any(lab):
        lab[0] = [0]
    c = {"multi": m, "lab": lab, "edges": [[u, v, l] for (u, v), l in es], "names": draw(st.sampled_from(list(names))),
         "ids": draw(st.sampled_from(["one", "one", "zero", "far", "str", "tuple", "blank"])), "keys": draw(st.sampled_from(["auto", "auto", "auto", "gap", "back", "str"])) if m else "auto", "one_tuple": draw(st.sampled_from([False, False, False, True]))}
    k = draw(st.sampled_from([1, 1, 1, 2, 3])) if motif else 1
    if k > 1 and n * k <= 12:
        # the same piece several times over, possibly chained: recurrent structure worth a pattern
        c["lab"] = lab * k
        c["edges"] = [[u + i * n, v + i * n, l] for i in range(k) for u, v, l in c["edges"]]
        if draw(st.booleans()):
            c["edges"] += [[i * n, (i + 1) * n, 0] for i in range(k - 1)]
    return c


def label_attr(names, ls, one_tuple=False):
    names = [names[i] for i in ls]
    if not names:
        return {}
    if len(names) == 1 and not one_tuple:
        return {"label": names[0]}
    return {"label": tuple(names)}


def build(c):
    g = nx.MultiDiGraph() if c["multi"] else nx.DiGraph()
    f = IDS[c["ids"]]
    for i, ls in enumerate(c["lab"]):
        g.add_node(f(i), **label_attr(VNAMES[c["names"]], ls, c["one_tuple"]))
    key = KEYS[c.get("keys", "auto")]
    for i, (u, v, l) in enumerate(c["edges"]):
        kw = {"key": key(i)} if c["multi"] else {}
        g.add_edge(f(u), f(v), label=ENAMES[c["names"]][l], **kw)
    return g


def labels(g, n):
    l = g.nodes[n].get("label")
    return frozenset() if l is None else frozenset([l]) if isinstance(l, str) else frozenset(l)


def edges(g):
    """{(u, v): sorted edge labels}"""
    out = {}
    for u, v, d in g.edges(data=True):
        out.setdefault((u, v), []).append(d["label"])
    return {k: sorted(x) for k, x in out.items()}


def shape(g):
    return {n: labels(g, n) for n in g.nodes}, edges(g)


@st.composite
def patterns_of(draw, c, k=3):
    """Node lists / kept edges / kept labels of sub-structures of the graph of case c."""
    out = []
    adj = {}
    for j, (u, v, l) in enumerate(c["edges"]):
        adj.setdefault(u, []).append(j)
        adj.setdefault(v, []).append(j)
    for _ in range(draw(st.sampled_from([0, 1, 2, 2] + list(range(1, k + 1))))):
        if c["edges"] and draw(st.integers(0, 3)):
            es = [draw(st.integers(0, len(c["edges"]) - 1))]
            for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, 5]))):
                near = sorted({j for e in es for x in c["edges"][e][:2] for j in adj[x]} - set(es))
                if not near:
                    break
                es.append(draw(st.sampled_from(near)))
            nodes = sorted({x for e in es for x in c["edges"][e][:2]})
        else:
            many = [i for i, ls in enumerate(c["lab"]) if len(ls) > 1]
            if not many:
                continue
            es, nodes = [], [draw(st.sampled_from(many))]
        lab = []
        for x in nodes:
            ls = c["lab"][x]
            lab.append(sorted(draw(st.sets(st.sampled_from(ls)))) if ls and draw(st.integers(0, 3)) else list(ls))
        # single labels and single bare edges are the singletons the table always has
        if sum(map(len, lab)) + len(es) < 2:
            continue
        perm = draw(st.permutations(range(len(nodes))))
        out.append({"nodes": [nodes[i] for i in perm], "edges": es, "lab": [lab[i] for i in perm]})
        rest = [(x, sorted(set(c["lab"][x]) - set(ls))) for x, ls in zip(nodes, lab) if len(set(c["lab"][x]) - set(ls)) > 1]
        if rest and not draw(st.integers(0, 2)):
            # another pattern has the labels this one leaves out
            x, ls = draw(st.one_of(st.just(max(rest, key=lambda r: len(r[1]))), st.sampled_from(rest)))
            out.append({"nodes": [x], "edges": [], "lab": [ls]})
    return out


def build_pattern(c, p):
    g = nx.MultiDiGraph() if c["multi"] else nx.DiGraph()
    num = {x: i + 1 for i, x in enumerate(p["nodes"])}
    for x, ls in zip(p["nodes"], p["lab"]):
        g.add_node(num[x], **label_attr(VNAMES[c["names"]], ls))
    for e in p["edges"]:
        u, v, l = c["edges"][e]
        g.add_edge(num[u], num[v], label=ENAMES[c["names"]][l])
    return g


def ref_embeddings(pattern, g):
    """Every injective map from pattern nodes to graph nodes that keeps labels and edges, as sorted (graph node, pattern node) sets."""
    pe = edges(pattern)
    ge = edges(g)
    cand = {p: [x for x in g.nodes if labels(pattern, p) <= labels(g, x)] for p in pattern.nodes}
    # each node after a neighbour of it where there is one, the fewest candidates first
    pn, rest = [], set(pattern.nodes)
    while rest:
        near = [p for p in rest if any((a == p and b in pn) or (b == p and a in pn) for a, b in pe)]
        pn.append(min(near or rest, key=lambda p: (len(cand[p]), p)))
        rest.remove(pn[-1])
    out = []

    def go(i, m):
        if i == len(pn):
            out.append(frozenset((x, p) for p, x in m.items()))
            return
        p = pn[i]
        for x in cand[p]:
            if x in m.values():
                continue
            m[p] = x
            ok = True
            for (a, b), ls in pe.items():
                if (a == p or b == p) and a in m and b in m:
                    have = list(ge.get((m[a], m[b]), ()))
                    for l in ls:
                        if l in have:
                            have.remove(l)
                        else:
                            ok = False
                            break
                    if not ok:
                        break
            if ok:
                go(i + 1, m)
            del m[p]

    go(0, {})
    return out


# ------------------------------------------------------------------ C22 embeddings
@st.composite
def emb_case(draw):
    c = draw(graph_case(loops=True, motif=True))
    ps = draw(patterns_of(c, 2))
    # and a pattern that does not come from the graph
    n = draw(st.integers(1, 3))
    pairs = [(u, v) for u in range(n) for v in range(n)]
    free = {"lab": [draw(st.lists(st.integers(0, 3), max_size=2, unique=True)) for _ in range(n)],
            "edges": [[u, v, l] for (u, v), l in sorted({p: l for p, l in draw(st.lists(st.tuples(st.sampled_from(pairs), st.integers(0, 2)), max_size=3))}.items())]}
    return {"g": c, "p": ps, "free": free}


@sub("C22", "embeddings", emb_case(), quick=14000, thorough=60000, rule="some pattern has at least two embeddings")
def embeddings(case):
    c = case["g"]
    g = build(c)
    before = shape(g)
    ps = [build_pattern(c, p) for p in case["p"]]
    f = dict(case["free"], multi=c["multi"], names=c["names"], ids="one", one_tuple=False)
    ps.append(build(f))
    most = 0
    for p in ps:
        with sut("embeddings"):
            got = [frozenset(e.items()) for e in gu.get_embeddings(p, g)]
        want = ref_embeddings(p, g)
        same(len(got), len(set(got)), "the embeddings listed are distinct")
        require(set(got) == set(want), "embeddings are the label- and edge-preserving injections",
                {"missing": [sorted(x, key=str) for x in set(want) - set(got)][:3], "extra": [sorted(x, key=str) for x in set(got) - set(want)][:3]})
        most = max(most, len(want))
    same(shape(g), before, "the graph")
    return most > 1, ["multi" if c["multi"] else "simple", "none" if most == 0 else "found"]


# ------------------------------------------------------------------ C23 covers
@st.composite
def cover_case(draw, **kw):
    c = draw(graph_case(motif=True, **kw))
    return {"g": c, "p": draw(patterns_of(c, draw(st.sampled_from([4, 4, 4, 4, 14])))), "removed": draw(st.integers(0, 4)), "covers": draw(st.integers(1, 2))}


def table(case, c=None):
    c = c or case["g"]
    g = build(c)
    with sut("code table"):
        ct = CodeTable(LabelCodes(g), g)
        rows = []
        for p in case["p"]:
            r = CodeTableRow(build_pattern(c, p))
            ct.add_row(r)
            rows.append(r)
        for _ in range(case.get("covers", 1)):
            ct.cover()
        k = case.get("removed", 0)
        if 0 < k <= len(rows):
            # a row is taken out and the table covered again
            ct.remove_row(rows[k - 1])
            ct.cover()
    return g, ct


def decode(ct, g):
    """What the rewritten graph and the patterns of the table denote: a multigraph whose port nodes keep the name of
    the data node.  None of the data graph is consulted but its kind."""
    rg = ct.rewritten_graph()
    pats = [r.pattern() for r in ct.rows()]
    D = nx.MultiDiGraph()
    fresh = itertools.count()
    counts = {}
    for n, d in rg.nodes(data=True):
        if "is_Pattern" not in d:
            D.add_node(("port", d["label"]))
    for n, d in rg.nodes(data=True):
        if "is_Pattern" not in d:
            continue
        outs = {}
        for _, q, e in rg.out_edges(n, data=True):
            require("is_Pattern" not in rg.nodes[q], "an embedding is attached to ports only", d)
            outs[int(e["label"][1:])] = ("port", rg.nodes[q]["label"])
        if d.get("is_singleton"):
            same(sorted(outs), [1] if len(outs) == 1 else [1, 2], "ports of a singleton")
            key = ("v" if len(outs) == 1 else "e", d["label"])
            if key[0] == "v":
                D.nodes[outs[1]].setdefault("labels", set()).add(d["label"])
            else:
                D.add_edge(outs[1], outs[2], label=d["label"])
        else:
            i = int(d["label"][1:])
            key = ("row", i)
            p = pats[i]
            name = {x: outs.pop(x, None) or ("in", next(fresh)) for x in p.nodes}
            require(not outs, "ports are nodes of the pattern", d, outs)
            for x in p.nodes:
                D.add_node(name[x])
                D.nodes[name[x]].setdefault("labels", set()).update(labels(p, x))
            for u, v, e in p.edges(data=True):
                D.add_edge(name[u], name[v], label=e["label"])
        counts[key] = counts.get(key, 0) + 1
    return D, counts


def same_graph(D, g):
    """The decoded graph is the data graph, up to the names of the nodes that are not ports."""
    G = nx.MultiDiGraph()
    ports = {n[1] for n in D.nodes if n[0] == "port"}
    for n in g.nodes:
        if not labels(g, n) and g.degree(n) == 0:
            continue
        G.add_node(n, k=(str(n) if str(n) in ports else None, tuple(sorted(labels(g, n)))))
    for u, v, d in g.edges(data=True):
        G.add_edge(u, v, label=d["label"])
    H = nx.MultiDiGraph()
    for n, d in D.nodes(data=True):
        H.add_node(n, k=(n[1] if n[0] == "port" else None, tuple(sorted(d.get("labels", ())))))
    for u, v, d in D.edges(data=True):
        H.add_edge(u, v, label=d["label"])
    if G.number_of_nodes() != H.number_of_nodes() or G.number_of_edges() != H.number_of_edges():
        return False
    em = lambda a, b: sorted(x["label"] for x in a.values()) == sorted(x["label"] for x in b.values())
    return nx.is_isomorphic(G, H, node_match=lambda a, b: a["k"] == b["k"], edge_match=em)


def check_cover(g, ct):
    with sut("rewritten graph"):
        rg = ct.rewritten_graph()
    D, counts = decode(ct, g)
    require(same_graph(D, g), "the rewritten graph and the patterns denote the data graph",
            {"data": shape(g), "rewritten": [(n, d) for n, d in rg.nodes(data=True)], "links": [(u, v, d["label"]) for u, v, d in rg.edges(data=True)],
             "rows": [shape(r.pattern()) for r in ct.rows()]})
    for i, r in enumerate(ct.rows()):
        same(r.pattern_usage(), counts.get(("row", i), 0), "usage of a pattern = embeddings in the rewritten graph")
        use = {}
        for n, d in rg.nodes(data=True):
            if d.get("is_Pattern") and not d.get("is_singleton") and d["label"] == "P%d" % i:
                for _, q, e in rg.out_edges(n, data=True):
                    use[int(e["label"][1:])] = use.get(int(e["label"][1:]), 0) + 1
        same(dict(r.pattern_port_usage()), use, "usage of the ports of a pattern")
        have = {frozenset((x, p) for p, x in zip(e.values(), e.keys())) for e in r.embeddings()}
        used = [frozenset(e.items()) for e, _ in r.used_embeddings()]
        same(len(used), r.pattern_usage(), "used embeddings of a pattern")
        require(len(set(used)) == len(used) and set(used) <= have, "used embeddings are embeddings", used)
    with sut("ports of the data"):
        ports = {str(x) for x in ct.data_port()}
    same(ports, {d["label"] for _, d in rg.nodes(data=True) if "is_Pattern" not in d}, "ports marked in the data graph")
    return counts


@sub("C23", "cover", cover_case(), quick=16000, thorough=80000, rule="some pattern is used")
def cover(case):
    g0 = build(case["g"])
    g, ct = table(case)
    counts = check_cover(g, ct)
    same(shape(g), shape(g0), "the data graph")
    used = [k for k in counts if k[0] == "row"]
    return bool(used), ["%d rows used" % min(len(used), 3), "multi" if case["g"]["multi"] else "simple"] + (["edgeless"] if any(not p["edges"] for p in case["p"]) else [])


@st.composite
def large_case(draw, most=12):
    """Many copies of a piece, linked at random: graphs of up to 60 nodes."""
    c = draw(graph_case(max_n=5, max_e=6))
    ps = draw(patterns_of(c, draw(st.sampled_from([3, 8]))))
    n, k = len(c["lab"]), draw(st.integers(2, most))
    one, lab = list(c["edges"]), list(c["lab"])
    c["lab"] = lab * k
    c["edges"] = one + [[u + i * n, v + i * n, l] for i in range(1, k) for u, v, l in one]
    have = {(u, v) for u, v, _ in c["edges"]}
    for u, v, l in draw(st.lists(st.tuples(st.integers(0, n * k - 1), st.integers(0, n * k - 1), st.integers(0, 1)), max_size=12)):
        if u != v and (u, v) not in have:
            have.add((u, v))
            c["edges"].append([u, v, l])
    for x in draw(st.lists(st.integers(0, n * k - 1), max_size=4)):
        c["lab"][x] = sorted(set(c["lab"][x]) ^ {draw(st.integers(0, 3))})
    ok = [p for p in ps if all(set(ls) <= set(c["lab"][x]) for x, ls in zip(p["nodes"], p["lab"]))]
    if not c["edges"] and not any(c["lab"]):
        c["lab"][0] = [0]
    return {"g": c, "p": ok, "removed": draw(st.integers(0, 4)), "covers": 1}


@st.composite
def tree_case(draw, most=3):
    """Trees, each edge of a node with a label of its own: patterns of up to 14 nodes with few occurrences."""
    n = draw(st.integers(6, 14))
    lab = [draw(st.lists(st.integers(0, 8), max_size=draw(st.sampled_from([0, 1, 2, 4, 9])), unique=True)) for _ in range(n)]
    free, es = {0: [0, 1, 2, 3, 4]}, []
    for v in range(1, n):
        u = draw(st.sampled_from([x for x in range(max(0, v - 6), v) if free[x]] or [x for x in free if free[x]]))
        l = draw(st.sampled_from(free[u]))
        free[u].remove(l)
        free[v] = [x for x in range(5) if x != l]
        es.append([u, v, l] if draw(st.booleans()) else [v, u, l])
    c = {"multi": draw(st.booleans()), "lab": lab, "edges": es, "names": draw(st.sampled_from(["alpha", "word", "num", "mixed", "case"])), "ids": draw(st.sampled_from(["one", "far", "str", "blank"])),
         "keys": "auto", "one_tuple": draw(st.booleans())}
    adj = {}
    for j, (u, v, l) in enumerate(es):
        adj.setdefault(u, []).append(j)
        adj.setdefault(v, []).append(j)
    ps = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from([1, 2, 3, 5, 9, n - 1, n - 1]))
        mine = [draw(st.integers(0, n - 2))]
        while len(mine) < k:
            near = sorted({j for e in mine for x in es[e][:2] for j in adj[x]} - set(mine))
            if not near:
                break
            mine.append(draw(st.sampled_from(near)))
        nodes = sorted({x for e in mine for x in es[e][:2]})
        keep = draw(st.sampled_from(["all", "some", "few"]))
        ls = [list(lab[x]) if keep == "all" else sorted(draw(st.sets(st.sampled_from(lab[x]), max_size=1 if keep == "few" else 6))) if lab[x] else [] for x in nodes]
        if sum(map(len, ls)) + len(mine) < 2:
            continue
        perm = draw(st.permutations(range(len(nodes))))
        ps.append({"nodes": [nodes[i] for i in perm], "edges": mine, "lab": [ls[i] for i in perm]})
    k = draw(st.integers(1, most))
    c["lab"] = lab * k
    c["edges"] = es + [[u + i * n, v + i * n, l] for i in range(1, k) for u, v, l in es]
    have = {(u, v) for u, v, _ in c["edges"]}
    for u, v, l in draw(st.lists(st.tuples(st.integers(0, n * k - 1), st.integers(0, n * k - 1), st.integers(0, 4)), max_size=draw(st.sampled_from([0, 4, 14])))):
        if u != v and (u, v) not in have:
            have.add((u, v))
            c["edges"].append([u, v, l])
    return {"g": c, "p": ps, "removed": draw(st.integers(0, 4)), "covers": draw(st.integers(1, 2))}


def check_named_cover(g, ct):
    """As check_cover, for graphs too large to look for an isomorphism: by the embeddings each row says it used."""
    rg = ct.rewritten_graph()
    E, L, where = Counter(), {}, {}
    for i, r in enumerate(ct.rows()):
        p = r.pattern()
        a, b = Counter(), Counter()
        for n, d in rg.nodes(data=True):
            if d.get("is_Pattern") and not d.get("is_singleton") and d["label"] == "P%d" % i:
                a[frozenset((rg.nodes[q]["label"], int(e["label"][1:])) for _, q, e in rg.out_edges(n, data=True))] += 1
        for emb, ports in r.used_embeddings():
            b[frozenset((str(x), y) for x, y in ports)] += 1
            at = {y: x for x, y in emb.items()}
            for u, v, d in p.edges(data=True):
                E[at[u], at[v], d["label"]] += 1
            for y in p.nodes:
                L.setdefault(at[y], set()).update(labels(p, y))
                where.setdefault(at[y], []).append(at[y] in dict(ports))
        require(a == b, "ports of the used embeddings = ports in the rewritten graph", i, sorted(map(sorted, a)), sorted(map(sorted, b)))
        same(r.pattern_usage(), sum(a.values()), "usage of a pattern = embeddings in the rewritten graph")
        same(dict(r.pattern_port_usage()), dict(Counter(y for e, k in a.items() for _, y in e for _ in range(k))), "usage of the ports of a pattern")
    name = {str(x): x for x in g.nodes}
    for n, d in rg.nodes(data=True):
        if d.get("is_singleton"):
            outs = {int(e["label"][1:]): name[rg.nodes[q]["label"]] for _, q, e in rg.out_edges(n, data=True)}
            if len(outs) == 1:
                L.setdefault(outs[1], set()).add(d["label"])
            else:
                E[outs[1], outs[2], d["label"]] += 1
            for x in outs.values():
                where.setdefault(x, []).append(True)
    require(E == Counter((u, v, d["label"]) for u, v, d in g.edges(data=True)), "every edge is described exactly once",
            [x for x in (E - Counter((u, v, d["label"]) for u, v, d in g.edges(data=True)))][:3], [x for x in (Counter((u, v, d["label"]) for u, v, d in g.edges(data=True)) - E)][:3])
    for x in g.nodes:
        same(frozenset(L.get(x, ())), labels(g, x), "labels of a node")
        w = where.get(x, [])
        require(len(w) < 2 or all(w), "a node of several embeddings is a port of each", x, w)
    same({str(x) for x in ct.data_port()}, {d["label"] for _, d in rg.nodes(data=True) if "is_Pattern" not in d}, "ports marked in the data graph")
    return sum(1 for r in ct.rows() if r.pattern_usage())


@sub("C23", "large", large_case(), quick=3000, thorough=20000, rule="some pattern is used more than three times")
def cover_large(case):
    g0 = build(case["g"])
    g, ct = table(case)
    check_named_cover(g, ct)
    same(shape(g), shape(g0), "the data graph")
    return any(r.pattern_usage() > 3 for r in ct.rows()), ["%d0+ nodes" % (len(g) // 10)]


@sub("C23", "trees", tree_case(), quick=2400, thorough=20000, rule="a pattern of more than six nodes is used")
def cover_trees(case):
    g0 = build(case["g"])
    g, ct = table(case)
    check_named_cover(g, ct)
    same(shape(g), shape(g0), "the data graph")
    return any(r.pattern_usage() and len(r.pattern()) > 6 for r in ct.rows()), ["%d ports" % max([len(r.pattern_port_usage()) for r in ct.rows()], default=0)]


@sub("C22", "trees", tree_case(), quick=1000, thorough=10000, rule="a pattern of more than six nodes has an embedding")
def embeddings_trees(case):
    embeddings(dict(case, free={"lab": [[0]], "edges": []}))
    return any(len(p["nodes"]) > 6 for p in case["p"]), []


@st.composite
def many_case(draw):
    n = draw(st.integers(10, 14))
    k = draw(st.integers(3, 4)) if n < 12 else 3 if n > 12 else 4
    c = {"multi": draw(st.booleans()), "lab": [[0]] * n, "edges": [[u, v, 0] for u in range(n) for v in range(n) if u != v], "names": "alpha", "ids": draw(st.sampled_from(["one", "str"])), "one_tuple": False}
    return {"g": c, "p": [], "free": {"lab": [draw(st.sampled_from([[], [0]])) for _ in range(k)], "edges": [draw(st.sampled_from([[i, i + 1, 0], [i + 1, i, 0]])) for i in range(k - 1)]}}


@sub("C22", "many", many_case(), quick=24, thorough=240, rule="every case")
def embeddings_many(case):
    embeddings(case)
    return True, []


@sub("C22", "large", large_case(), quick=1500, thorough=15000, rule="some pattern has more than five embeddings")
def embeddings_large(case):
    return embeddings(dict(case, free={"lab": [[], []], "edges": [[0, 1, 0]]})) if len(case["g"]["lab"]) < 31 else embeddings(dict(case, free={"lab": [[0]], "edges": []}))


# ------------------------------------------------------------------ C24 description lengths
def uint(x):
    l = x.bit_length() - 1
    return l + 2 * ((l + 1).bit_length() - 1) + 1


def preq(seq, eps=0.5):
    """Closed form of the prequential plug-in code."""
    n, k = sum(seq), len(seq)
    if not n:
        return 0.0
    lg = lambda z: math.lgamma(z) / math.log(2)
    return lg(n + eps * k) - lg(eps * k) - sum(lg(u + eps) - lg(eps) for u in seq)


def lbinom(n, k):
    return math.log2(math.comb(n, k))


def counts_of(g):
    v, e = {}, {}
    for n in g.nodes:
        for l in labels(g, n):
            v[l] = v.get(l, 0) + 1
    for ls in edges(g).values():
        for l in ls:
            e[l] = e.get(l, 0) + 1
    return v, e


class Ref:
    def __init__(self, g):
        self.v, self.e = counts_of(g)
        self.total = sum(self.v.values()) + sum(self.e.values())
        self.kinds = len(self.v) + len(self.e)

    def vc(self, l):
        return -math.log2(self.v[l] / self.total)

    def ec(self, l):
        return -math.log2(self.e[l] / self.total)

    def structure(self, p):
        v, e = counts_of(p)
        n = p.number_of_nodes()
        x = math.log2(self.kinds) + uint(n + 1)
        x += sum(self.vc(l) + uint(k + 1) + lbinom(n, k) for l, k in v.items())
        x += sum(self.ec(l) + uint(k + 1) + lbinom(n * n, k) for l, k in e.items())
        return x


def single(multi, label, edge):
    g = nx.MultiDiGraph() if multi else nx.DiGraph()
    if edge:
        g.add_nodes_from([1, 2])
        g.add_edge(1, 2, label=label)
    else:
        g.add_node(1, label=label)
    return g


def ref_lengths(g, ct):
    """(model, data) of a covered code table, from its rewritten graph and its rows."""
    R = Ref(g)
    rg = ct.rewritten_graph()
    _, counts = decode(ct, g)
    model = 0.0
    rows = []
    multi = g.is_multigraph()
    for i, r in enumerate(ct.rows()):
        k = counts.get(("row", i), 0)
        if not k:
            continue
        p = r.pattern()
        use = {}
        for n, d in rg.nodes(data=True):
            if d.get("is_Pattern") and not d.get("is_singleton") and d["label"] == "P%d" % i:
                for _, q, e in rg.out_edges(n, data=True):
                    use[e["label"]] = use.get(e["label"], 0) + 1
        n = p.number_of_nodes()
        model += R.structure(p) + math.log2(n + 1) + lbinom(n, len(use))
        rows.append((k, list(use.values())))
    for (kind, l), k in counts.items():
        if kind == "v":
            model += R.structure(single(multi, l, False)) + math.log2(2)
            rows.append((k, [k]))
        elif kind == "e":
            model += R.structure(single(multi, l, True)) + math.log2(3) + 2
            rows.append((k, [k, k]))
    ports = [n for n, d in rg.nodes(data=True) if "is_Pattern" not in d]
    data = uint(sum(k for k, _ in rows) + 1) + math.log2(len(ports) + 1)
    data += sum(k * math.log2(len(u) + 1) for k, u in rows)
    data += preq([k for k, _ in rows]) + preq([rg.in_degree(n) for n in ports])
    data += sum(preq(u) for k, u in rows)
    return model, data


def check_lengths(g, ct):
    with sut("description length"):
        total = ct.compute_total_description_length()
        model, data = ct.description_length(), ct.compute_rewritten_graph_description()
    rm, rd = ref_lengths(g, ct)
    close(model, rm, "description length of the code table")
    close(data, rd, "description length of the rewritten graph")
    close(total, rm + rd, "total description length")
    return total


@sub("C24", "lengths", cover_case(names=("alpha", "alpha", "word", "num", "mixed", "case", "same")), quick=12000, thorough=60000, rule="some pattern is used")
def dl(case):
    g, ct = table(case)
    check_lengths(g, ct)
    R = Ref(g)
    lc = ct.label_codes()
    with sut("label codes"):
        v, e, t = lc.vertex_lc(), lc.edges_lc(), lc.total_label()
    same(sorted(v), sorted(R.v), "vertex labels")
    same(sorted(e), sorted(R.e), "edge labels")
    same(t, R.total, "total number of labels")
    for l in v:
        close(v[l], R.vc(l), "code of a vertex label")
    for l in e:
        close(e[l], R.ec(l), "code of an edge label")
    for r in ct.rows():
        with sut("encode"):
            x = lc.encode(r.pattern())
        close(x, R.structure(r.pattern()), "structure of a pattern")
    for l in v:
        with sut("encode"):
            x = lc.encode_singleton_vertex(l)
        close(x, R.structure(single(g.is_multigraph(), l, False)), "structure of a vertex singleton")
    for l in e:
        with sut("encode"):
            x = lc.encode_singleton_edge(l)
        close(x, R.structure(single(g.is_multigraph(), l, True)), "structure of an edge singleton")
    # code lengths of the elements of the table
    _, counts = decode(ct, g)
    tot = sum(counts.values())
    with sut("code lengths"):
        sc = dict(ct.singleton_code_length())
    names = {k[1] for k in counts if k[0] != "row"}
    same(set(sc), names, "singletons of the table")
    for (kind, l), k in counts.items():
        if kind != "row" and not (("v", l) in counts and ("e", l) in counts):
            close(sc[l], -math.log2(k / tot), "code of a singleton")
    for i, r in enumerate(ct.rows()):
        k = counts.get(("row", i), 0)
        if k:
            close(r.code_length(), -math.log2(k / tot), "code of a pattern")
            u = r.pattern_port_usage()
            for q in u:
                close(r.port_code_length()[q], -math.log2(u[q] / sum(u.values())), "code of a port")
    return any(k[0] == "row" for k in counts), ["multi" if case["g"]["multi"] else "simple"]


@sub("C24", "large", large_case(), quick=3000, thorough=20000, rule="some pattern is used more than three times")
def dl_large(case):
    g, ct = table(case)
    check_lengths(g, ct)
    return any(r.pattern_usage() > 3 for r in ct.rows()), ["%d0+ nodes" % (len(g) // 10)]


@sub("C24", "trees", tree_case(), quick=2000, thorough=20000, rule="a pattern of more than six nodes is used")
def dl_trees(case):
    g, ct = table(case)
    check_lengths(g, ct)
    return any(r.pattern_usage() and len(r.pattern()) > 6 for r in ct.rows()), []


SEQS = st.one_of(st.lists(st.integers(0, 40), min_size=1, max_size=8), st.lists(st.integers(0, 40), min_size=1, max_size=60), st.lists(st.integers(0, 3000), min_size=1, max_size=4))
PAIRS = st.one_of(st.tuples(st.integers(0, 60), st.integers(0, 60)), st.tuples(st.integers(500, 2500), st.integers(0, 20)), st.integers(500, 2500).flatmap(lambda n: st.tuples(st.just(n), st.integers(n - 20, n))))


@sub("C24", "formulas", st.tuples(SEQS, st.one_of(st.integers(1, 10 ** 4), st.integers(1, 10 ** 9)), PAIRS).map(lambda t: [t[0], t[1], t[2][0], t[2][1]]), quick=2000, thorough=20000,
     rule="a sequence with at least two positive counts")
def formulas(case):
    seq, x, n, k = case
    with sut("codes"):
        a, b, c0 = gu.prequential_code(list(seq)), gu.universal_integer_encoding(x), gu.universal_integer_encoding_with0(x - 1)
    close(a, preq(seq), "prequential code")
    same(b, uint(x), "universal code of an integer")
    same(c0, uint(x), "universal code with zero")
    with sut("prequential code of a permutation"):
        close(gu.prequential_code(sorted(seq)), a, "prequential code of the same counts in another order")
    if k <= n:
        with sut("binomial"):
            close(gu.binomial(n, k), math.comb(n, k), "binomial")
    return sum(1 for s in seq if s) > 1, ["k<=n" if k <= n else "k>n"]


# ------------------------------------------------------------------ C25 candidates
def ref_glue(p, q, ports):
    """The union of two patterns where node b of the second one is node a of the first."""
    G = nx.MultiDiGraph()
    m = {b: ("p", a) for a, b in ports}
    for x in p.nodes:
        G.add_node(("p", x), labels=set(labels(p, x)))
    for x in q.nodes:
        k = m.setdefault(x, ("q", x))
        if k not in G:
            G.add_node(k, labels=set())
        G.nodes[k]["labels"] |= labels(q, x)
    for u, v, d in p.edges(data=True):
        G.add_edge(("p", u), ("p", v), label=d["label"])
    for u, v, d in q.edges(data=True):
        G.add_edge(m[u], m[v], label=d["label"])
    return G


def iso(p, G):
    """p (a pattern) and G (from ref_glue) are the same labelled graph up to node names."""
    H = nx.MultiDiGraph()
    for x in p.nodes:
        H.add_node(x, labels=set(labels(p, x)))
    for u, v, d in p.edges(data=True):
        H.add_edge(u, v, label=d["label"])
    em = lambda a, b: sorted(x["label"] for x in a.values()) == sorted(x["label"] for x in b.values())
    return nx.is_isomorphic(H, G, node_match=lambda a, b: a["labels"] == b["labels"], edge_match=em)


def as_ref(g):
    G = nx.MultiDiGraph()
    for x in g.nodes:
        G.add_node(x, labels=set(labels(g, x)))
    for u, v, d in g.edges(data=True):
        G.add_edge(u, v, label=d["label"])
    return G


@sub("C25", "candidates", cover_case(), quick=8000, thorough=40000, rule="at least two candidates, one of them with a pattern of the table")
def candidates(case):
    g, ct = table(case)
    rg = ct.rewritten_graph()
    decode(ct, g)
    multi = g.is_multigraph()

    def element(n):
        d = rg.nodes[n]
        if d.get("is_singleton"):
            k = len(rg.out_edges(n))
            return ("s", k, d["label"]), single(multi, d["label"], k == 2)
        return ("row", d["label"]), ct.rows()[int(d["label"][1:])].pattern()

    want = []
    emb = [n for n, d in rg.nodes(data=True) if d.get("is_Pattern")]
    port = {n: {q: int(e["label"][1:]) for _, q, e in rg.out_edges(n, data=True)} for n in emb}
    keys = set()
    for a, b in itertools.combinations(emb, 2):
        shared = set(port[a]) & set(port[b])
        if not shared:
            continue
        (ka, pa), (kb, pb) = element(a), element(b)
        ps = frozenset((port[a][q], port[b][q]) for q in shared)
        inv = frozenset((y, x) for x, y in ps)
        if (ka, kb, ps) in keys or (kb, ka, inv) in keys:
            continue
        keys.add((ka, kb, ps))
        want.append(ref_glue(pa, pb, ps))
    with sut("candidates"):
        cs = gu.generate_candidates(rg, ct)
        got = [c.final_pattern() for c in cs]
    for G in want:
        require(any(iso(p, G) for p in got), "every pair of embeddings that share a port is proposed as a candidate", shape_ref(G))
    for c, p in zip(cs, got):
        require(any(iso(p, G) for G in want), "every candidate glues two embeddings at the ports they share", shape(p), str(c))
        require(ref_embeddings(p, g), "every candidate occurs in the data graph", shape(p), str(c))
        same(sorted(p.nodes), list(range(1, p.number_of_nodes() + 1)), "node numbers of a candidate")
    return len(got) > 1 and any(k[0][0] == "row" or k[1][0] == "row" for k in keys), ["%s candidates" % ("0" if not got else "1" if len(got) == 1 else "2+")]


@sub("C25", "large", large_case(most=6), quick=300, thorough=4000, rule="at least ten candidates, one of them with a pattern of the table")
def candidates_large(case):
    return candidates(case)


@sub("C25", "trees", tree_case(most=2), quick=500, thorough=4000, rule="at least two candidates, one of them with a pattern of the table")
def candidates_trees(case):
    return candidates(case)


@st.composite
def glue_case(draw):
    multi = draw(st.booleans())
    ps = []
    for _ in range(2):
        n = draw(st.one_of(st.integers(1, 5), st.integers(8, 14)))
        pairs = [(u, v) for u in range(n) for v in range(n) if u != v]
        es = draw(st.lists(st.tuples(st.sampled_from(pairs), st.integers(0, 4)), max_size=6, unique_by=None if multi else lambda e: e[0], unique=multi)) if pairs else []
        ps.append({"lab": [draw(st.lists(st.integers(0, 5), max_size=draw(st.sampled_from([0, 1, 2, 4, 6])), unique=True)) for _ in range(n)],
                   "edges": [[u, v, l] for (u, v), l in es], "multi": multi})
    a, b = len(ps[0]["lab"]), len(ps[1]["lab"])
    k = draw(st.integers(1, min(a, b)))
    return {"p": ps, "names": draw(st.sampled_from(["alpha", "word", "num", "mixed", "case"])),
            "ports": [list(x) for x in zip(draw(st.permutations(range(a)))[:k], draw(st.permutations(range(b)))[:k])]}


@sub("C25", "glue", glue_case(), quick=4000, thorough=40000, rule="labels on both sides of a shared port")
def glue(case):
    p, q = [build(dict(x, names=case["names"], ids="one", one_tuple=False)) for x in case["p"]]
    ports = [(a + 1, b + 1) for a, b in case["ports"]]
    m = {b: a for a, b in ports}
    # two occurrences that share ports have no edge in common
    mine = {(u, v, d["label"]) if p.is_multigraph() else (u, v) for u, v, d in p.edges(data=True)}
    for u, v, d in list(q.edges(data=True)):
        if u in m and v in m and ((m[u], m[v], d["label"]) if p.is_multigraph() else (m[u], m[v])) in mine:
            q.remove_edges_from([(u, v)] * q.number_of_edges(u, v))
    want = ref_glue(p, q, ports)
    before = shape(p), shape(q)
    with sut("pattern of a candidate"):
        c = Candidate("P0", "P1", [("v%d" % a, "v%d" % b) for a, b in ports])
        c.first_pattern, c.second_pattern = p, q
        got = c.final_pattern()
    require(iso(got, want), "the pattern of a candidate is the union of both, glued at the ports", shape(got), shape_ref(want))
    same((shape(p), shape(q)), before, "the patterns of a candidate")
    return any(labels(p, a) and labels(q, b) for a, b in ports), ["multi" if p.is_multigraph() else "simple", "%d ports" % len(ports)]


def shape_ref(G):
    return {n: sorted(d["labels"]) for n, d in G.nodes(data=True)}, [(u, v, d["label"]) for u, v, d in G.edges(data=True)]


# ------------------------------------------------------------------ C26 the search
@st.composite
def fit_case(draw):
    c = {"g": draw(graph_case(motif=True, loops=draw(st.integers(0, 5)) == 0)), "other": draw(graph_case(max_n=5, max_e=6))}
    c["other"]["names"] = c["g"]["names"]
    return c


def canon(ps):
    """Multiset of patterns up to isomorphism, as a list of reference graphs."""
    return [as_ref(p) for p in ps]


def same_patterns(a, b):
    b = list(b)
    if len(a) != len(b):
        return False
    em = lambda x, y: sorted(t["label"] for t in x.values()) == sorted(t["label"] for t in y.values())
    for p in a:
        for i, q in enumerate(b):
            if nx.is_isomorphic(p, q, node_match=lambda x, y: x["labels"] == y["labels"], edge_match=em):
                del b[i]
                break
        else:
            return False
    return True


def local_optimum(g, ct, dl):
    """No pair of embeddings that share a port, glued into a pattern, makes the table shorter."""
    with sut("candidates of the final table"):
        ps = [c.final_pattern() for c in gu.generate_candidates(ct.rewritten_graph(), ct)]
    for p in ps:
        g2 = g.copy()  # shares its attributes with g, as copies made by a user do
        with sut("covering with one more pattern"):
            t = CodeTable(LabelCodes(g2), g2)
            for r in sorted(ct.rows(), key=lambda r: r.arrival_number):
                q = CodeTableRow(r.pattern())
                q.arrival_number = r.arrival_number
                t.add_row(q)
            q = CodeTableRow(p)
            q.arrival_number = 1 + max([r.arrival_number for r in ct.rows()], default=0)
            t.add_row(q)
            t.cover()
            x = t.compute_total_description_length()
        require(x >= dl - 1e-6, "no candidate shortens the description any more", shape(p), x, dl)


def shown(ct, counts):
    """The displayed table has one line per element in use, with its usage and code length."""
    with sut("display of the table"):
        df = ct.display_ct()
    tot = sum(counts.values())
    same(sorted(df["Pattern usage"]), sorted(counts.values()), "usages displayed")
    for u, l in zip(df["Pattern usage"], df["Pattern code length"]):
        close(l, -math.log2(u / tot), "code length displayed")


def rebuilt(g):
    h = nx.MultiDiGraph() if g.is_multigraph() else nx.DiGraph()
    h.add_nodes_from(g.nodes(data=True))
    h.add_edges_from(g.edges(data=True))
    return h


@sub("C26", "fit", fit_case(), quick=450, thorough=8000, rule="the search keeps at least one pattern")
def fit(case):
    c = case["g"]
    g = build(c)
    raises(ValueError, lambda: GraphMDL().patterns(), "patterns before fit")
    raises(ValueError, lambda: GraphMDL().fit(None), "fit without a graph")
    with sut("fit"):
        m = GraphMDL()
        r = m.fit(g)
        require(r is m, "fit returns the miner")
        ini, dl = m.initial_description_length(), m.description_length()
        ps = list(m.patterns())
    same(shape(g), shape(build(c)), "the data graph")
    loops = any(u == v for u, v, _ in c["edges"])
    require(dl <= ini + 1e-9, "final description length <= that of the singletons", dl, ini)
    g1 = build(c)
    with sut("singleton table"):
        ct0 = CodeTable(LabelCodes(g1), g1)
        ct0.cover()
    if not loops:
        close(ini, sum(ref_lengths(g1, ct0)), "initial description length")
    big = [p for p in ps if p.number_of_nodes() > 2 or sum(len(labels(p, n)) for n in p.nodes) + p.number_of_edges() > 1]
    for p in ps if not loops else ():
        require(ref_embeddings(p, g), "a pattern of the result occurs in the graph", shape(p))
    ct = getattr(m, "_code_table", None)
    if ct is not None and not loops:
        counts = check_cover(g, ct)
        close(dl, sum(ref_lengths(g, ct)), "description length of the result")
        local_optimum(g, ct, dl)
        shown(ct, counts)
        want = [as_ref(ct.rows()[k[1]].pattern()) if k[0] == "row" else as_ref(single(c["multi"], k[1], k[0] == "e")) for k in counts]
        require(same_patterns(canon(ps), want), "patterns() are the patterns used to cover the graph", [shape(p) for p in ps], sorted(counts, key=str))
    buf = io.StringIO()
    with sut("discover"), contextlib.redirect_stdout(buf):
        m.discover()
    require(str(int(dl)) in buf.getvalue(), "discover shows the description length", buf.getvalue())
    # graphs made from one that was fitted
    with sut("fitting a derived graph"):
        d0, d1 = [GraphMDL().fit(x.copy()).description_length() for x in (build(c), g)]
        d2 = GraphMDL().fit(g).description_length()
        d3, d4 = [GraphMDL().fit(rebuilt(x)).description_length() for x in (g, build(c))]
    close(d1, d0, "fitting a copy of a fitted graph")
    close(d2, dl, "fitting a graph again after its copy")
    close(d3, d4, "fitting a graph built from a fitted one")
    # a second fit of the same miner, of a fresh miner, of the same graph
    with sut("fitting again"):
        dls = [m.fit(build(c)).description_length(), GraphMDL().fit(g).description_length(), GraphMDL().fit(build(c)).description_length()]
    for d in dls:
        close(d, dl, "fitting again")
    with sut("patterns again"):
        require(same_patterns(canon(m.patterns()), canon(ps)), "fitting again finds the same patterns")
    with sut("fitting after another graph"):
        m.fit(build(case["other"]))
        i2 = m.initial_description_length()
        close(i2, GraphMDL().fit(build(case["other"])).initial_description_length(), "initial description length of another graph")
        close(m.fit(build(c)).description_length(), dl, "fitting after a fit of another graph")
        close(m.initial_description_length(), ini, "initial description length after a fit of another graph")
        require(same_patterns(canon(m.patterns()), canon(ps)), "fitting after another graph finds the same patterns")
    with sut("fit with a time limit"):
        q = GraphMDL().fit(build(c), timeout=1000)
        close(q.description_length(), dl, "fit within its time limit")
        q = m.fit(build(c), timeout=1e-9)
        close(q.description_length(), ini, "fit without time to search")
        close(m.fit(build(c)).description_length(), dl, "fit after a fit with a time limit")
    return bool(big), ["%d patterns" % min(len(big), 3), "multi" if c["multi"] else "simple"] + (["loops"] if loops else [])


class Clock:
    """A clock that advances by one at each reading."""

    def __enter__(self):
        self.now = 0
        self.real = {k: getattr(time, k) for k in ("time", "monotonic", "perf_counter")}
        for k in self.real:
            setattr(time, k, self.tick)
        return self

    def tick(self):
        self.now += 1
        return float(self.now)

    def __exit__(self, *a):
        for k, v in self.real.items():
            setattr(time, k, v)


@st.composite
def limit_case(draw):
    return {"g": draw(graph_case(motif=True)), "at": draw(st.lists(st.integers(0, 999), min_size=1, max_size=6))}


@sub("C26", "time-limit", limit_case(), quick=900, thorough=4000, rule="an interrupted search holds a pattern")
def time_limit(case):
    c = case["g"]
    with sut("fit"), Clock() as clock:
        full = GraphMDL().fit(build(c), timeout=10 ** 9)
    last, some, out = full.initial_description_length(), False, []
    for at in sorted(case["at"]):
        g = build(c)
        with sut("fit with a time limit"), Clock():
            m = GraphMDL().fit(g, timeout=1 + at * clock.now // 1000)
        with sut("result"):
            dl, ps, ct = m.description_length(), list(m.patterns()), getattr(m, "_code_table", None)
        require(dl <= last + 1e-9, "more time never gives a longer description", dl, last)
        require(dl >= full.description_length() - 1e-9, "less time never gives a shorter description", dl, full.description_length())
        same(shape(g), shape(build(c)), "the data graph")
        last = dl
        for p in ps:
            require(ref_embeddings(p, g), "a pattern of the result occurs in the graph", shape(p))
        if ct is not None:
            counts = check_cover(g, ct)
            close(dl, sum(ref_lengths(g, ct)), "description length of an interrupted search")
            want = [as_ref(ct.rows()[k[1]].pattern()) if k[0] == "row" else as_ref(single(c["multi"], k[1], k[0] == "e")) for k in counts]
            require(same_patterns(canon(ps), want), "patterns() are the patterns used to cover the graph", [shape(p) for p in ps], sorted(counts, key=str))
            some = some or any(k[0] == "row" for k in counts)
    return some, ["interrupted" if last > full.description_length() + 1e-9 else "done"]


@sub("C26", "large", large_case(most=6), quick=250, thorough=1500, rule="the search keeps at least one pattern")
def fit_large(case):
    c = case["g"]
    g = build(c)
    with sut("fit"):
        m = GraphMDL().fit(g)
        ini, dl, ps, ct = m.initial_description_length(), m.description_length(), list(m.patterns()), getattr(m, "_code_table", None)
    require(dl <= ini + 1e-9, "final description length <= that of the singletons", dl, ini)
    same(shape(g), shape(build(c)), "the data graph")
    for p in ps:
        require(gu.get_embeddings(p, g), "a pattern of the result occurs in the graph", shape(p))
    if ct is not None:
        check_named_cover(g, ct)
        close(dl, sum(ref_lengths(g, ct)), "description length of the result")
        local_optimum(g, ct, dl)
    return any(p.number_of_edges() > 1 for p in ps), ["%d0+ nodes" % (len(g) // 10)]


@st.composite
def choice_case(draw):
    """Labels spread at random, so that most of the many candidates gain nothing, and a pair of rare labels that go together."""
    n, nl = draw(st.integers(14, 22)), 4
    lab = [sorted(draw(st.sets(st.integers(0, nl - 1), min_size=1, max_size=3))) for _ in range(n)]
    es = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.integers(0, 4)).filter(lambda e: e[0] != e[1]), min_size=8, max_size=24, unique_by=lambda e: e[:2]))
    for x in draw(st.lists(st.integers(0, n - 1), min_size=3, max_size=6, unique=True)):
        lab[x] = lab[x][:1] + [4, 5]
    return {"g": {"multi": draw(st.booleans()), "lab": lab, "edges": [list(e) for e in es], "names": "alpha", "ids": "one", "one_tuple": False}}


@sub("C26", "many-candidates", choice_case(), quick=48, thorough=480, rule="the search keeps at least one pattern")
def fit_choice(case):
    fit_large(case)
    return True, []
