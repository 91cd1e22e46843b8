"""Naive reference models written from the definitions, shared by the properties."""
import numpy as np


def dom(a, b):
    """a Pareto-dominates b (minimization)"""
    return bool(np.all(a <= b) and np.any(a < b))


def dom_matrix(F, G=None):
    """D[i, j] = F[i] dominates G[j]"""
    G = F if G is None else G
    if len(F) == 0 or len(G) == 0:
        return np.zeros((len(F), len(G)), dtype=bool)
    le = np.all(F[:, None, :] <= G[None, :, :], axis=2)
    lt = np.any(F[:, None, :] < G[None, :, :], axis=2)
    return le & lt


def ranks(F=None, D=None):
    """Pareto rank by repeated peeling."""
    D = dom_matrix(np.asarray(F, dtype=float)) if D is None else D
    n = len(D)
    rank = np.full(n, -1)
    left = np.ones(n, dtype=bool)
    r = 0
    while left.any():
        nd = left & ~(D & left[:, None]).any(axis=0)
        assert nd.any(), "cyclic relation"
        rank[nd] = r
        left &= ~nd
        r += 1
    return rank


def fronts(rank):
    return [set(np.where(rank == r)[0].tolist()) for r in range(rank.max() + 1)] if len(rank) else []


def nondominated(F):
    F = np.asarray(F, dtype=float)
    if len(F) == 0:
        return np.zeros(0, dtype=int)
    return np.where(~dom_matrix(F).any(axis=0))[0]


def cv_dominates(Fa, cva, Fb, cvb):
    """feasibility-first dominance"""
    if cva < cvb:
        return True
    if cvb < cva:
        return False
    return dom(Fa, Fb)
