"""Shared generators: JSON-able specs that shrink well, and the arrays they stand for."""
import numpy as np
from hypothesis import strategies as st

SEED = st.integers(0, 2**20)

MODES = ["grid", "grid2", "normal", "unit", "front", "layered", "dup", "const", "chain", "scales", "neg", "near"]


def matrix_spec(nmin=1, nmax=40, mmin=1, mmax=6, modes=MODES):
    return st.fixed_dictionaries(dict(
        n=st.integers(nmin, nmax), m=st.integers(mmin, mmax), mode=st.sampled_from(modes), seed=SEED))


def small_ints(nmin, nmax, mmin, mmax, lo=0, hi=3):
    """explicit small integer matrices: full of ties, shrink to readable cases"""
    return st.integers(mmin, mmax).flatmap(
        lambda m: st.lists(st.lists(st.integers(lo, hi), min_size=m, max_size=m), min_size=nmin, max_size=nmax))


def points(nmin=1, nmax=40, mmin=1, mmax=6, modes=MODES):
    return st.one_of(matrix_spec(nmin, nmax, mmin, mmax, modes), small_ints(nmin, min(nmax, max(nmin, 12)), mmin, min(mmax, 4)))


def mk(spec):
    if isinstance(spec, list):
        return np.array(spec, dtype=float)
    n, m, mode = spec["n"], spec["m"], spec["mode"]
    r = np.random.default_rng(spec["seed"])
    if mode == "grid":
        return r.integers(0, 1 + r.integers(1, 6), size=(n, m)).astype(float)
    if mode == "grid2":
        return r.integers(0, 2, size=(n, m)).astype(float)
    if mode == "normal":
        return r.normal(size=(n, m))
    if mode == "unit":
        return r.random((n, m))
    if mode == "front":
        X = r.random((n, m)) + 1e-3
        return X / X.sum(axis=1, keepdims=True)
    if mode == "layered":
        X = r.random((n, m)) + 1e-3
        return X / X.sum(axis=1, keepdims=True) * (1 + r.integers(0, 4, size=(n, 1)))
    if mode == "dup":
        k = max(1, n // 3)
        pool = r.random((k, m)).round(2)
        return pool[r.integers(0, k, size=n)]
    if mode == "const":
        X = r.random((n, m)).round(1)
        X[:, r.integers(0, m)] = 0.5
        return X
    if mode == "chain":
        X = np.sort(r.random((n, m)), axis=0)
        return X[r.permutation(n)]
    if mode == "scales":
        return r.normal(size=(n, m)) * 10.0 ** r.integers(-8, 9, size=m)
    if mode == "neg":
        return -r.random((n, m)) * 5 - r.integers(0, 3, size=(n, m))
    if mode == "near":
        return 1.0 + r.integers(0, 4, size=(n, m)) * 1e-9
    raise ValueError(mode)


def rng(seed):
    return np.random.default_rng(seed)


@st.composite
def bounds_spec(draw, nmin=1, nmax=8):
    return dict(n=draw(st.integers(nmin, nmax)), kind=draw(st.sampled_from(["unit", "sym", "mixed", "wide", "tiny", "shift"])),
                seed=draw(SEED))


def mk_bounds(b):
    n, r = b["n"], np.random.default_rng(b["seed"])
    k = b["kind"]
    if k == "unit":
        return np.zeros(n), np.ones(n)
    if k == "sym":
        w = np.round(r.random(n) * 5 + 0.5, 2)
        return -w, w
    if k == "mixed":
        xl = np.round(r.normal(size=n) * 3, 2)
        return xl, xl + np.round(r.random(n) * 4 + 0.25, 2)
    if k == "wide":
        return np.full(n, -1e6), np.full(n, 1e6)
    if k == "tiny":
        return np.full(n, 1.0), np.full(n, 1.0 + 1e-6)
    if k == "shift":
        xl = 100.0 + r.integers(0, 10, size=n)
        return xl, xl + 1 + r.integers(0, 3, size=n)
    raise ValueError(k)
