"""Definitions of the crowding metrics, and pruning by repeated removal with every way of breaking ties."""
import numpy as np


def normalized(F):
    lo, hi = F.min(axis=0), F.max(axis=0)
    w = np.where(hi > lo, hi - lo, 1.0)
    return (F - lo) / w, hi > lo


def extremes(F):
    return set(np.argmin(F, axis=0).tolist()) | set(np.argmax(F, axis=0).tolist())


def pcd_of(Z, live, varies):
    """crowding distance of the live points (dict): mean over objectives of the gap between the neighbours"""
    m = Z.shape[1]
    d = {i: 0.0 for i in live}
    for j in range(m):
        if not varies[j]:
            continue
        order = sorted(live, key=lambda i: (Z[i, j], i))
        for p, i in enumerate(order):
            d[i] += np.inf if p in (0, len(order) - 1) else (Z[order[p + 1], j] - Z[order[p - 1], j]) / m
    return d


def nn_of(Z, live, k):
    """product of the squared distances to the k nearest live neighbours"""
    d = {}
    for i in live:
        q = sorted(((Z[i] - Z[j]) ** 2).sum() for j in live if j != i)
        d[i] = float(np.prod(q[:k]))
    return d


def outcomes(F, kind, n_remove, limit=400):
    """all admissible results of 'metric with pruning': points removed on the way keep their last value.

    -> list of arrays, or None if there are too many ties"""
    F = np.asarray(F, dtype=float)
    n, m = F.shape
    if kind in ("mnn", "2nn") and n <= max(m, 2):
        return [np.full(n, np.inf)]
    Z, varies = normalized(F)
    ex = extremes(F)
    n_remove = max(0, min(n_remove, n - m))
    k = 2 if kind == "2nn" else m

    def metric(live):
        d = pcd_of(Z, live, varies) if kind == "pcd" else nn_of(Z, live, k)
        return {i: (np.inf if i in ex else v) for i, v in d.items()}

    states = {frozenset(range(n)): [metric(range(n))]}
    first = states[frozenset(range(n))][0]
    states = {(frozenset(range(n)), ()): first}
    for _ in range(n_remove - 1):
        nxt = {}
        for (live, gone), d in states.items():
            lo = min(d[i] for i in live)
            for i in live:
                if d[i] <= lo * (1 + 1e-9) + 1e-12 or d[i] == lo:
                    rest = live - {i}
                    key = (rest, gone + ((i, d[i]),))
                    if key not in nxt:
                        nxt[key] = metric(sorted(rest))
                        if len(nxt) > limit:
                            return None
        states = nxt
    out = []
    for (live, gone), d in states.items():
        v = np.empty(n)
        for i in live:
            v[i] = d[i]
        for i, x in gone:
            v[i] = x
        out.append(v)
    return out
