"""Brute-force reference for frequent itemsets."""


def closed_itemsets(rows):
    """All non-empty closed itemsets -> tuple of the ids of the rows that hold them.
    A closed itemset is a non-empty intersection of rows."""
    rows = [frozenset(r) for r in rows]
    fam = set()
    for r in set(rows):
        fam |= {r & c for c in fam} | {r}
    fam.discard(frozenset())
    return {c: tuple(i for i, r in enumerate(rows) if c <= r) for c in fam}


def maximal_itemsets(rows, min_supp):
    fr = {c: t for c, t in closed_itemsets(rows).items() if len(t) >= min_supp}
    return {c: t for c, t in fr.items() if not any(c < d for d in fr)}
