"""Strategies shared by the property modules (every case is plain JSON data)."""
from hypothesis import strategies as st


@st.composite
def masks(draw, max_n=12, max_m=8, min_n=1):
    """A binary database as a list of bit masks over m items."""
    m = draw(st.integers(1, max_m))
    n = draw(st.integers(min_n, max_n))
    style = draw(st.sampled_from(["uniform", "dense", "blocks", "chain", "dup", "sparse"]))
    full = (1 << m) - 1
    rows = draw(st.lists(st.integers(0, full), min_size=n, max_size=n))
    if style == "dense":
        rows2 = draw(st.lists(st.integers(0, full), min_size=n, max_size=n))
        rows = [a | b for a, b in zip(rows, rows2)]
    elif style == "sparse":
        rows2 = draw(st.lists(st.integers(0, full), min_size=n, max_size=n))
        rows = [a & b for a, b in zip(rows, rows2)]
    elif style == "blocks":
        pats = draw(st.lists(st.integers(0, full), min_size=1, max_size=3))
        pick = draw(st.lists(st.integers(0, len(pats) - 1), min_size=n, max_size=n))
        pick2 = draw(st.lists(st.integers(-2, len(pats) - 1), min_size=n, max_size=n))
        noise = draw(st.lists(st.integers(0, full), min_size=n, max_size=n))
        rows = [pats[i] | (pats[j] if j >= 0 else 0) | (r & z & (r >> 1)) for i, j, r, z in zip(pick, pick2, rows, noise)]
    elif style == "chain":
        rows = [(1 << (r % (m + 1))) - 1 for r in rows]
    elif style == "dup":
        k = max(1, n // 3)
        rows = [rows[i % k] for i in range(n)]
    return {"m": m, "rows": rows}


ITEM_KINDS = ["int", "bigint", "char", "word", "numstr", "shuffled", "float"]


@st.composite
def items(draw, m):
    """m distinct, hashable and mutually comparable items (JSON scalars)."""
    kind = draw(st.sampled_from(ITEM_KINDS))
    if kind == "int":
        return list(range(draw(st.integers(0, 3)), 100))[:m]
    if kind == "bigint":
        return draw(st.lists(st.integers(-10 ** 6, 10 ** 12), min_size=m, max_size=m, unique=True))
    if kind == "char":
        return draw(st.permutations("ABCDEFGHIJKLMNOPQRSTUVWXYZ"[: max(m, 1)] if m <= 26 else [chr(65 + i) for i in range(m)]))[:m]
    if kind == "word":
        return draw(st.lists(st.text("abcxyzéµ_-.7", min_size=0, max_size=6), min_size=m, max_size=m, unique=True))
    if kind == "float":
        return [x / 8 for x in draw(st.lists(st.integers(-40, 400), min_size=m, max_size=m, unique=True))]
    if kind == "numstr":
        return [str(x) for x in draw(st.lists(st.integers(0, 130), min_size=m, max_size=m, unique=True))]
    step = draw(st.sampled_from([1, 2, 8, 16, 64]))
    return [x * step for x in draw(st.permutations(range(m)))]


@st.composite
def db(draw, max_n=12, max_m=8, min_n=1, nonempty_rows=False, dup_items=True):
    """{"items": [...], "rows": [[item index, ...], ...]}: the order and the
    repetition of the items inside a row are part of the case."""
    b = draw(masks(max_n=max_n, max_m=max_m, min_n=min_n))
    m = b["m"]
    its = draw(items(m))
    orders = draw(st.sampled_from(["asc", "desc", "rot"]))
    rows = []
    for r in b["rows"]:
        row = [i for i in range(m) if r >> i & 1]
        if nonempty_rows and not row:
            row = [0]
        if orders == "desc":
            row.reverse()
        elif orders == "rot" and row:
            k = r % len(row)
            row = row[k:] + row[:k]
        rows.append(row)
    if dup_items and draw(st.integers(0, 3)) == 0:
        for k in draw(st.lists(st.integers(0, len(rows) - 1), max_size=3)):
            if rows[k]:
                rows[k] = rows[k] + [rows[k][0]]
    if all(not r for r in rows):
        rows[draw(st.integers(0, len(rows) - 1))] = [0]
    return {"items": its, "rows": rows}


@st.composite
def wide_db(draw, max_n=24, max_m=18, max_pats=4, max_size=9):
    """Few long patterns over many items: rows are unions of up to three of them, now and
    then with one item more or less. Same shape as db."""
    m = draw(st.integers(8, max_m))
    n = draw(st.integers(3, max_n))
    its = draw(items(m))
    pats = [draw(st.lists(st.integers(0, m - 1), min_size=2, max_size=max_size, unique=True))
            for _ in range(draw(st.integers(2, max_pats)))]
    rows = []
    for _ in range(n):
        row = set()
        for k in draw(st.lists(st.integers(0, len(pats) - 1), min_size=1, max_size=3)):
            row.update(pats[k])
        t = draw(st.integers(0, 4 * m))
        if t < m:
            row ^= {t}
        rows.append(sorted(row) or [0])
    return {"items": its, "rows": rows}


def rows_of(d):
    """The database as a list of lists of items."""
    return [[d["items"][i] for i in r] for r in d["rows"]]


CONTAINERS = ["list", "series", "tuples", "sets", "series_sets", "series_idx", "strings"]


def container(rows, kind):
    """The same database in another documented container."""
    import pandas as pd
    if kind == "series":
        return pd.Series(rows)
    if kind == "series_idx":
        return pd.Series(rows, index=[10 * (len(rows) - i) for i in range(len(rows))])
    if kind == "tuples":
        return [tuple(r) for r in rows]
    if kind == "sets":
        return [set(r) for r in rows]
    if kind == "series_sets":
        return pd.Series([set(r) for r in rows])
    if kind == "strings" and all(isinstance(x, str) and len(x) == 1 for r in rows for x in r):
        return ["".join(r) for r in rows]
    return [list(r) for r in rows]


# ------------------------------------------------------------ large databases
@st.composite
def big_db(draw, n=(40, 200), m=(10, 60), npat=(2, 12), size=(2, 8), noise=(0, 20), pick=(1, 3)):
    """Parameters of a large database; `big_rows` builds it (the seed is part of the case)."""
    r = lambda ab: draw(st.integers(*ab))
    return {"n": r(n), "m": r(m), "npat": r(npat), "size": r(size), "noise": r(noise), "pick": r(pick), "seed": r((0, 10 ** 6)),
            "item": draw(st.sampled_from(["int", "int", "str", "sparse"]))}


def big_item(kind, i):
    return {"int": i, "str": "i%03d" % i, "sparse": 17 * i + 5}[kind]


def big_rows(c):
    """n rows, each the union of up to `pick` of the npat patterns, with a few percent of noise items."""
    import random
    rnd = random.Random(c["seed"])
    pats = [rnd.sample(range(c["m"]), min(c["m"], max(1, rnd.randint(c["size"] // 2 + 1, c["size"])))) for _ in range(c["npat"])]
    rows = []
    for _ in range(c["n"]):
        row = set()
        for _ in range(rnd.randint(1, c["pick"])):
            row.update(rnd.choice(pats))
        for i in range(c["m"]):
            if rnd.random() * 100 < c["noise"]:
                row ^= {i}
        row = list(row or {0})
        rnd.shuffle(row)
        rows.append([big_item(c["item"], i) for i in row])
    return rows
