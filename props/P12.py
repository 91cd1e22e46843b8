"""P12: bounds repair."""
import numpy as np
from hypothesis import strategies as st

from pymoo.core.population import Population
from pymoo.core.problem import Problem
from pymoo.core.repair import NoRepair
from pymoo.operators.crossover.dex import DE_REPAIRS
from pymoo.operators.repair.bounce_back import BounceBackOutOfBoundsRepair, bounce_back
from pymoo.operators.repair.bounds_repair import (is_in_bounds, is_in_bounds_by_problem, is_out_of_bounds, is_out_of_bounds_by_problem, repair_clamp, repair_periodic,
                                                  repair_random_init)
from pymoo.operators.repair.inverse_penalty import InversePenaltyOutOfBoundsRepair, inverse_penality
from pymoo.operators.repair.rounding import RoundingRepair
from pymoo.operators.repair.to_bound import ToBoundOutOfBoundsRepair, set_to_bounds_if_outside
from pymoo.operators.repair.vtype import TypeRepair
from vp import gen
from vp.core import Prop

P = Prop("P12", "some values are out of bounds and some are inside", ["values are finite"])

CASE = st.fixed_dictionaries(dict(b=gen.bounds_spec(1, 5), n=st.integers(1, 8), far=st.sampled_from([0.1, 1.0, 30.0]), s=gen.SEED, fixed=st.sampled_from([False, False, True]),
                                  edge=st.booleans()))


def data(case, parents=False):
    xl, xu = gen.mk_bounds(case["b"])
    if case["fixed"]:
        xu[0] = xl[0]
    r = gen.rng(case["s"])
    n, m = case["n"], len(xl)
    w = np.where(xu > xl, xu - xl, 1.0)
    X = xl + r.random((n, m)) * (xu - xl)
    out = r.random((n, m)) < 0.4
    X = np.where(out, X + np.where(r.random((n, m)) < 0.5, -1, 1) * w * r.random((n, m)) * case["far"] * 2, X)
    if case["edge"]:
        X[0] = xl
        X[-1] = xu
    Q = xl + r.random((n, m)) * (xu - xl)
    return xl, xu, X, Q


def basic(t, X, Y, xl, xu, msg):
    t.require(Y.shape == X.shape, f"{msg}: shape {Y.shape}")
    t.require(np.all(np.isfinite(Y)), lambda: f"{msg}: {X.tolist()} became {Y.tolist()}")
    # one ulp of slack: the bounds themselves are sums of floating point numbers
    tol = 4 * np.spacing(np.maximum(np.abs(xl), np.abs(xu)))
    t.require(np.all(Y >= xl - tol) and np.all(Y <= xu + tol), lambda: f"{msg}: out of bounds {Y.tolist()} for {xl.tolist()} {xu.tolist()}")
    ins = (X >= xl) & (X <= xu)
    t.require(np.array_equal(Y[ins], X[ins]), lambda: f"{msg}: values inside the bounds were changed: {X.tolist()} -> {Y.tolist()}")


@P.check(CASE, quick=500, thorough=10000)
def functions(case, t):
    """each bounds repair function on points near and far outside against closed formulas"""
    xl, xu, X, Q = data(case)
    bad = (X < xl) | (X > xu)
    t.nontrivial(bad.any() and not bad.all(), "fixed" if case["fixed"] else "free")
    clip = np.clip(X, xl, xu)
    for name, f in (("set_to_bounds_if_outside", set_to_bounds_if_outside), ("repair_clamp", repair_clamp)):
        Y = f(X.copy(), xl, xu)
        basic(t, X, Y, xl, xu, name)
        t.equal(Y, clip, name)
    t.equal(set_to_bounds_if_outside(X[0].copy(), xl, xu), clip[0], "set_to_bounds_if_outside of one point")
    t.equal(set_to_bounds_if_outside(X.copy(), xl, None), np.maximum(X, xl), "only lower bounds")
    t.equal(set_to_bounds_if_outside(X.copy(), None, xu), np.minimum(X, xu), "only upper bounds")
    w = np.where(xu > xl, xu - xl, 1.0)
    Y = bounce_back(X.copy(), xl, xu)
    basic(t, X, Y, xl, xu, "bounce_back")
    B = np.where(X < xl, xl + np.mod(xl - X, w), np.where(X > xu, xu - np.mod(X - xu, w), X))
    free = np.tile(xu > xl, (len(X), 1))
    t.close(Y[free], B[free], "bounce_back", rtol=1e-9, atol=1e-9 * max(1, w.max()))
    t.equal(bounce_back(X[0].copy(), xl, xu), Y[0], "bounce_back of one point")
    Y = repair_periodic(X.copy(), xl, xu)
    basic(t, X, Y, xl, xu, "repair_periodic")
    k = (Y - X) / w
    t.require(np.all(np.abs(k - np.round(k))[free] < 1e-6), lambda: f"repair_periodic moved by a non-integer number of periods: {k.tolist()}")
    Y = repair_random_init(X.copy(), Q, xl, xu, random_state=np.random.default_rng(case["s"]))
    basic(t, X, Y, xl, xu, "repair_random_init")
    lo, hi = np.where(X < xl, xl, Q), np.where(X < xl, Q, xu)
    tol = 1e-9 * w
    t.require(np.all(((Y >= lo - tol) & (Y <= hi + tol))[bad]), "repair_random_init: not between the violated bound and the reference point")
    Z = repair_random_init(X.copy(), Q, xl, xu, random_state=np.random.default_rng(case["s"]))
    t.equal(Y, Z, "repair_random_init: same random state, other result")


@P.check(CASE, quick=500, thorough=10000)
def donors(case, t):
    """the repairs of differential evolution: only violating values are replaced, by the bound, the middle or a random fraction of the way to the base vector"""
    xl, xu, X, B = data(case)
    low, high = X < xl, X > xu
    bad = low | high
    t.nontrivial(bad.any() and not bad.all())
    L, U = np.broadcast_to(xl, X.shape), np.broadcast_to(xu, X.shape)
    hit = np.where(low, L, U)
    # the known values, and where the random ones may reach to from the violated bound
    want = {"to-bounds": hit, "midway": (hit + B) / 2}
    reach = {"bounce-back": B, "rand-init": np.where(low, U, L)}
    tol = 1e-12 * (np.abs(L) + np.abs(U) + np.abs(B)) + 1e-300
    for name, f in sorted(DE_REPAIRS.items()):
        def run():
            return f(X.copy(), Q, xl, xu, random_state=np.random.default_rng(case["s"]))
        Q = B.copy()
        Y = run()
        basic(t, X, Y, xl, xu, name)
        t.equal(Q, B, f"{name}: base vectors")
        t.equal(run(), Y, f"{name}: same random state, other result")
        if name in want:
            t.require(np.all((np.abs(Y - want[name]) <= tol)[bad]), lambda: f"{name}: {X.tolist()} with base {B.tolist()} within {xl.tolist()} {xu.tolist()} became {Y.tolist()}", name)
            continue
        to = reach[name]
        t.require(np.all(((Y >= np.minimum(hit, to) - tol) & (Y <= np.maximum(hit, to) + tol))[bad]), lambda: f"{name}: not between the violated bound and {to.tolist()}: {Y.tolist()}", name)
        # many times the same: evenly in between, each independent of the others
        rows, cols = np.where(bad & (np.abs(to - hit) > 1e-6))
        if len(rows):
            i, j = rows[0], cols[0]
            k = 400
            Z = f(np.repeat(X[[i]], k, axis=0), np.repeat(B[[i]], k, axis=0), xl, xu, random_state=np.random.default_rng(case["s"] + 1))
            u = (Z[:, j] - hit[i, j]) / (to[i, j] - hit[i, j])
            t.require(abs(u.mean() - 0.5) < 0.12 and abs(u.std() - 12 ** -0.5) < 0.08, lambda: f"{name}: mean {u.mean()} and deviation {u.std()} of the fraction are not those of a uniform one", f"{name}:uniform")


def towards(t, x, p, y, xl, xu):
    """y is on the ray from x to its reference point p"""
    w = np.where(xu > xl, xu - xl, 1.0)
    a, b = (p - x) / w, (y - x) / w
    s = (a @ b) / max(a @ a, 1e-300)
    t.require(s >= -1e-9 and np.abs(b - s * a).max() <= 1e-6 * (1 + np.abs(a).max() + np.abs(b).max() + (np.abs(x) / w).max() * 1e-8), lambda: f"{x.tolist()} with the reference {p.tolist()} was repaired to {y.tolist()}", "towards")


@P.check(CASE, quick=200, thorough=5000)
def inverse_penalty(case, t):
    """the repaired point is in bounds and between the infeasible point and its reference"""
    xl, xu, X, Q = data(dict(case, fixed=False))
    bad = (X < xl) | (X > xu)
    t.nontrivial(bad.any())
    for i in range(len(X)):
        y = inverse_penality(X[i].copy(), Q[i].copy(), xl, xu, random_state=np.random.default_rng(case["s"] + i))
        t.require(np.all(np.isfinite(y)), f"not finite: x={X[i].tolist()} p={Q[i].tolist()} -> {y.tolist()}")
        t.require(np.all(y >= xl) and np.all(y <= xu), "out of bounds")
        if not bad[i].any():
            t.equal(y, X[i], "a point in bounds was changed")
        towards(t, X[i], Q[i], y, xl, xu)


@P.check(CASE, quick=300, thorough=6000)
def operators(case, t):
    """the repair operators on populations and arrays; membership tests"""
    xl, xu, X, Q = data(case)
    bad = (X < xl) | (X > xu)
    prob = Problem(n_var=X.shape[1], n_obj=1, xl=xl, xu=xu)
    t.nontrivial(bad.any() and not bad.all())
    I = np.where(bad.any(axis=1))[0]
    t.equal(is_out_of_bounds(X, xl, xu), I, "is_out_of_bounds")
    t.equal(is_out_of_bounds_by_problem(prob, X), I, "is_out_of_bounds_by_problem")
    t.equal(is_in_bounds(X, xl, xu), np.where(~bad.any(axis=1))[0], "is_in_bounds")
    t.equal(is_in_bounds_by_problem(prob, X), np.where(~bad.any(axis=1))[0], "is_in_bounds_by_problem")
    for rep, kw in ((ToBoundOutOfBoundsRepair(), {}), (BounceBackOutOfBoundsRepair(), {}), (InversePenaltyOutOfBoundsRepair(), dict(P=Q.copy()))):
        name = type(rep).__name__
        if case["fixed"] and kw:
            continue
        pop = Population.new("X", X.copy())
        out = rep.do(prob, pop, **{k: v.copy() for k, v in kw.items()})
        Y = out.get("X")
        if kw:
            t.require(np.all(Y >= xl) and np.all(Y <= xu), f"{name}: out of bounds")
            t.equal(Y[~bad.any(axis=1)], X[~bad.any(axis=1)], f"{name}: points in bounds")
            for x, p, y in zip(X, Q, Y):
                towards(t, x, p, y, xl, xu)
        else:
            basic(t, X, Y, xl, xu, name)
        t.require(out is pop and all(a is b for a, b in zip(out, pop)), f"{name} does not repair the population in place")
    t.equal(NoRepair().do(prob, Population.new("X", X)).get("X"), X, "NoRepair")
    if np.abs(X).max() < 1e9:
        Y = RoundingRepair().do(prob, Population.new("X", X)).get("X")
        t.require(np.issubdtype(Y.dtype, np.integer), "RoundingRepair: not integers")
        t.equal(Y, np.round(X).astype(int), "RoundingRepair")
        Y = TypeRepair(int).do(prob, Population.new("X", X)).get("X")
        t.equal(Y, X.astype(int), "TypeRepair")
