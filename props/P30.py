"""P30: scalarizing functions are what they are defined to be, for every pairing of points and weights."""
import numpy as np
from hypothesis import strategies as st

from pymoo.decomposition.aasf import AASF
from pymoo.decomposition.asf import ASF
from pymoo.decomposition.pbi import PBI
from pymoo.decomposition.perp_dist import PerpendicularDistance
from pymoo.decomposition.tchebicheff import Tchebicheff
from pymoo.decomposition.weighted_sum import WeightedSum
from vp import gen
from vp.core import Prop

P = Prop("P30", "several points or several weights, and the weights are not all equal", ["at least two objectives; no weight vector is zero, weights are not negative"])

KINDS = ["ws", "tch", "asf", "aasf", "aasfbeta", "pbi", "perp"]
W = st.sampled_from(["uniform", "zero", "equal", "axis", "int", "big"])


def weights(kind, k, m, r):
    if kind == "int":
        return r.integers(1, 4, size=(k, m))
    if kind == "axis":
        return np.eye(m)[r.integers(0, m, size=k)]
    if kind == "equal":
        return np.full((k, m), 1 / m)
    w = r.random((k, m)) + 0.01
    if kind == "zero":
        w[np.arange(k), r.integers(0, m, size=k)] = 0.0
        w[:, 0] += (w.sum(axis=1) == 0)
    w = w / w.sum(axis=1, keepdims=True)
    return w * 1e3 if kind == "big" else w


def value(kind, f, w, u, theta, rho, w0):
    w = w.astype(float)
    if kind == "ws":
        return float(sum(a * b for a, b in zip(f, w)))
    if kind == "tch":
        return float(max(abs(a - c) * b for a, b, c in zip(f, w, u)))
    if kind in ("asf", "aasf", "aasfbeta"):
        v = float(max((a - c) / (b if b != 0 else w0) for a, b, c in zip(f, w, u)))
        if kind != "asf":
            v += rho * float(sum((a - c) / max(b, 1e-12) for a, b, c in zip(f, w, u)))
        return v
    e = w / np.sqrt(np.sum(w ** 2))
    g = f - u if kind == "pbi" else f
    d1 = float(np.sum(g * e))
    d2 = float(np.sqrt(np.sum((g - d1 * e) ** 2)))
    return d1 + theta * d2 if kind == "pbi" else d2


def make(kind, case):
    kw = dict(eps=case["eps"])
    if kind == "ws":
        return WeightedSum(**kw)
    if kind == "tch":
        return Tchebicheff(**kw)
    if kind == "asf":
        return ASF(**kw)
    if kind == "aasf":
        return AASF(rho=case["rho"], **kw)
    if kind == "aasfbeta":
        return AASF(beta=case["beta"], **kw)
    if kind == "pbi":
        return PBI(theta=case["theta"], **kw)
    return PerpendicularDistance(**kw)


CASE = st.fixed_dictionaries(dict(
    kind=st.sampled_from(KINDS), F=gen.matrix_spec(1, 8, 2, 5, ["grid", "unit", "normal", "front", "neg", "scales", "dup"]), k=st.integers(1, 8), same=st.booleans(), w=W,
    ideal=st.sampled_from(["none", "ideal", "ideal", "utopian", "both"]), type=st.sampled_from(["auto", "auto", "explicit", "ctor"]), how=st.sampled_from(["one_to_one", "one_to_many", "many_to_one", "many_to_many"]),
    flat=st.booleans(), eps=st.sampled_from([0.0, 0.0, 0.1]), theta=st.sampled_from([0, 1, 5, 0.1, 100]), rho=st.sampled_from([0.0, 1e-3, 0.1, 2.0]), beta=st.sampled_from([1, 5, 20, 40]), w0=st.sampled_from([None, None, 1e-6, 1e-3])))


def setup(case):
    F = gen.mk(case["F"])
    m = F.shape[1]
    r = gen.rng(case["F"]["seed"] + 7)
    k = len(F) if case["same"] else case["k"]
    how = case["how"]
    if how == "one_to_one":
        k = len(F)
    if how == "one_to_many":
        F = F[:1]
    if how == "many_to_one":
        k = 1
    w = weights(case["w"], k, m, r)
    kw, u = {}, np.zeros(m)
    if case["ideal"] in ("ideal", "both"):
        kw["ideal_point"] = F.min(axis=0) - np.round(r.random(m), 2)
        u = kw["ideal_point"]
    u = u - case["eps"]
    if case["ideal"] in ("utopian", "both"):
        u = kw["utopian_point"] = F.min(axis=0) - 0.5
    if case["kind"] in ("asf", "aasf", "aasfbeta") and case["w0"]:
        kw["weight_0"] = case["w0"]
    return F, w, u, kw


@P.check(CASE, quick=4800, thorough=100000, shards=(4, 8))
def formula(case, t):
    """every decomposition and pairing (one/all points, one/all weights) against formulas written per pair"""
    F, w, u, kw = setup(case)
    n, k = len(F), len(w)
    kind, how = case["kind"], case["how"]
    rho = case["rho"] if kind == "aasf" else 1 / (1 - np.tan(np.deg2rad(case["beta"]))) - 1
    w0 = case["w0"] or 1e-10
    V = np.array([[value(kind, f, x, u, case["theta"], rho, w0) for x in w] for f in F])
    t.nontrivial((n > 1 or k > 1) and len(np.unique(w, axis=0)) > 1)
    dec = make(kind, case)
    args = [F, w]
    if case["flat"] and n == 1:
        args[0] = F[0]
    if case["flat"] and k == 1:
        args[1] = w[0]
    keep = [a.copy() for a in args]
    if case["type"] == "auto":
        got = dec(*args, **kw)
        want = V if (n > 1 and k > 1 and n != k) or (n == 1 and k == 1) else (np.array([V[i, i] for i in range(n)]) if n > 1 and k > 1 else V.ravel())
        if n == 1 and k == 1:
            got = np.asarray(got).reshape(1, 1)
    else:
        if case["type"] == "ctor":
            dec._type = how
            dec2 = make(kind, case)
            dec = type(dec)(**dict(dict(_type=how), **{"asf": {}, "tch": {}, "ws": {}, "perp": {}, "pbi": dict(theta=case["theta"]), "aasf": dict(rho=case["rho"]), "aasfbeta": dict(beta=case["beta"])}[kind]), eps=dec2.eps)
            got = dec.do(*args, **kw)
        else:
            got = dec.do(*args, _type=how, **kw)
        want = {"one_to_one": lambda: np.array([V[i, i] for i in range(n)]), "one_to_many": lambda: V[0], "many_to_one": lambda: V[:, 0], "many_to_many": lambda: V}[how]()
    got = np.asarray(got)
    t.require(got.shape == want.shape, lambda: f"{kind} {case['type']} {how} of {n} points and {k} weights: shape {got.shape}, not {want.shape}", "shape")
    scale = np.abs(F).max() + np.abs(u).max()
    if kind in ("pbi", "perp"):
        tol = 1e-7 * scale * (1 + case["theta"])
    elif kind in ("ws", "tch"):
        tol = 1e-10 * scale * np.abs(w).max()
    else:
        tol = 0
    bad = ~(np.abs(got - want) <= 1e-7 * np.abs(want) + tol + 1e-12)
    if kind.startswith("a"):
        # the largest of the terms determines the rounding
        size = np.array([[np.max(np.abs(f - u) / np.where(x == 0, w0 if kind == "asf" else 1e-12, np.maximum(x, 1e-12))) * (1 + abs(rho) * len(x)) for x in w.astype(float)] for f in F])
        size = size if got.ndim == 2 else np.full(got.shape, size.max())
        bad &= ~(np.abs(got - want) <= 1e-10 * size)
    t.require(not bad.any(), lambda: f"{kind}: {got[bad].tolist()[:3]}, by definition {want[bad].tolist()[:3]}", "value:" + kind)
    for a, b in zip(args, keep):
        t.require(np.array_equal(a, b), "an input was modified")
    if case["type"] == "auto":
        t.require(np.array_equal(np.asarray(dec(*args, **kw)).ravel(), got.ravel()), "the second call differs")


@P.check(CASE, quick=1200, thorough=30000, shards=(4, 8))
def order(case, t):
    """what decompositions are used for: a dominating point is never worse"""
    F, w, u, kw = setup(case)
    r = gen.rng(case["F"]["seed"] + 3)
    kind = case["kind"]
    if kind in ("pbi", "perp"):
        return
    if kind == "tch":
        kw["utopian_point"] = np.minimum(u, F.min(axis=0) - 2.0)
    worse = F + np.abs(r.normal(size=F.shape)) * r.integers(0, 2, size=F.shape)
    dec = make(kind, case)
    a, b = dec.do(F, w, _type="many_to_many", **kw), dec.do(worse, w, _type="many_to_many", **kw)
    t.nontrivial((worse > F).any() and len(w) > 1)
    t.require((b >= a - 1e-9 * np.abs(a)).all(), lambda: f"{kind}: a dominated point is better for some weights", "order:" + kind)
    # shifting points and reference together changes nothing
    s = np.round(r.normal(size=F.shape[1]), 1)
    base = dict(kw)
    ref = base.pop("utopian_point", None)
    if ref is None:
        ref = (base.pop("ideal_point", np.zeros(F.shape[1]))) - case["eps"]
    base.pop("ideal_point", None)
    if kind != "ws":
        c, d = dec.do(F, w, _type="many_to_many", utopian_point=ref, **base), dec.do(F + s, w, _type="many_to_many", utopian_point=ref + s, **base)
        amp = 1.0 / min(x for x in np.r_[np.where(w == 0, case["w0"] or 1e-10, w).ravel(), 1.0]) if kind != "tch" else np.abs(w).max()
        if kind.startswith("aa"):
            amp = max(amp, 1e12 if (w < 1e-12).any() else 0) * (1 + 5)
        t.require((np.abs(c - d) <= 1e-9 * np.abs(c) + 1e-13 * amp * (np.abs(F).max() + np.abs(ref).max() + 5) * 10).all(), "not invariant to a shift", "shift:" + kind)
