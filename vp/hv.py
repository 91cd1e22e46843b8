"""Exact hypervolume by the exclusive-volume recursion (small sets)."""
import numpy as np

from . import ref


def hv(F, r):
    F = np.asarray(F, dtype=float)
    r = np.asarray(r, dtype=float)
    F = F[np.all(F < r, axis=1)] if len(F) else F
    if len(F) == 0:
        return 0.0
    F = np.unique(F, axis=0)
    F = F[ref.nondominated(F)]
    return _hv(F, r)


def _hv(F, r):
    if len(F) == 1:
        return float(np.prod(r - F[0]))
    total = 0.0
    for i in range(len(F)):
        rest = F[i + 1:]
        v = float(np.prod(r - F[i]))
        if len(rest):
            lim = np.unique(np.maximum(rest, F[i]), axis=0)
            lim = lim[ref.nondominated(lim)]
            v -= _hv(lim, r)
        total += v
    return total


def contributions(F, r):
    F = np.asarray(F, dtype=float)
    a = hv(F, r)
    return np.array([a - hv(np.delete(F, i, axis=0), r) for i in range(len(F))])


def reduce(F, members, n_keep, ideal, nadir, eps):
    """drops the point with the least contribution (normalized, reference point 1 + eps) until n_keep are left: those dropped, and the candidates at which a tie ended this"""
    m = F.shape[1]
    N = (F - ideal) / np.where(nadir > ideal, nadir - ideal, 1.0)
    live, gone = list(members), []
    while len(live) > n_keep:
        c = contributions(N[live], np.full(m, 1.0 + eps))
        j = int(np.argmin(c))
        tied = [live[i] for i in range(len(live)) if c[i] <= c[j] + 1e-9 * (1 + abs(c[j])) * (1 + eps) ** m]
        if len(tied) > 1:
            return gone, tied
        gone.append(live.pop(j))
    return gone, []
