"""P09: sampling produces valid, well spread, reproducible points."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pymoo.core.duplicate import DefaultDuplicateElimination
from pymoo.core.evaluator import Evaluator
from pymoo.core.initialization import Initialization
from pymoo.core.population import Population
from pymoo.core.problem import Problem
from pymoo.operators.repair.rounding import RoundingRepair
from pymoo.operators.sampling.lhs import LHS, LatinHypercubeSampling, criterion_corr, criterion_maxmin, sampling_lhs, sampling_lhs_unit
from pymoo.operators.sampling.rnd import (BinaryRandomSampling, FloatRandomSampling, IntegerRandomSampling,
                                          PermutationRandomSampling)
from vp import gen
from vp.core import Prop

P = Prop("P09", "at least two samples and two variables", ["integer bounds are integral"])

KINDS = ["float", "int", "bool", "perm", "lhs", "lhs-plain", "lhs-center", "lhs-corr"]


def op(kind):
    return {"float": FloatRandomSampling(), "int": IntegerRandomSampling(), "bool": BinaryRandomSampling(), "perm": PermutationRandomSampling(),
            "lhs": LHS(), "lhs-plain": LatinHypercubeSampling(criterion=None), "lhs-center": LatinHypercubeSampling(smooth=False, iterations=3),
            "lhs-corr": LatinHypercubeSampling(criterion=criterion_corr, iterations=4)}[kind]


def stratified(t, U, n, msg, center=False):
    """one sample in each of the n equal bins of every variable"""
    for j in range(U.shape[1]):
        u = np.sort(U[:, j])
        lo, hi = np.arange(n) / n, (np.arange(n) + 1) / n
        t.require(np.all(u >= lo - 1e-6) and np.all(u <= hi + 1e-6), lambda: f"{msg}: variable {j} is not stratified: {np.sort(u).tolist()}")
        if center:
            t.close(u, (lo + hi) / 2, f"{msg}: centers", rtol=1e-6, atol=1e-6)


@P.check(st.fixed_dictionaries(dict(kind=st.sampled_from(KINDS), b=gen.bounds_spec(1, 7), n=st.integers(1, 25), s=gen.SEED, fixed=st.booleans(),
                                    nobounds=st.booleans())), quick=500, thorough=10000, shards=(2, 8))
def sampling(case, t):
    """every sampling operator: number, type, bounds, stratification, determined by the random state"""
    kind, n = case["kind"], case["n"]
    xl, xu = gen.mk_bounds(case["b"])
    m = len(xl)
    t.nontrivial(n > 1 and m > 1, kind)
    if kind in ("int", "perm", "bool"):
        xl = np.round(xl)
        xu = xl + np.maximum(0, np.round(np.minimum(xu - xl, 1e5)))
    if case["fixed"]:
        xu[0] = xl[0]
    free = case["nobounds"] and kind in ("float", "bool", "perm")
    prob = Problem(n_var=m, n_obj=1, xl=None if free else xl.copy(), xu=None if free else xu.copy())
    if free:
        xl, xu = np.zeros(m), np.ones(m)
    pop = op(kind).do(prob, n, random_state=np.random.default_rng(case["s"]))
    t.require(isinstance(pop, Population) and len(pop) == n, f"{kind}: {len(pop)} individuals instead of {n}")
    X = pop.get("X")
    t.require(X.shape == (n, m), f"{kind}: shape {X.shape}")
    Y = op(kind).do(prob, n, random_state=np.random.default_rng(case["s"])).get("X")
    t.equal(X, Y, f"{kind}: same random state, other samples")
    if kind == "perm":
        t.require(all(sorted(x) == list(range(m)) for x in X.tolist()), f"not permutations: {X.tolist()}")
        return
    if kind == "bool":
        t.require(X.dtype == bool, f"binary samples of type {X.dtype}")
        return
    t.require(np.all(X >= xl) and np.all(X <= xu), lambda: f"{kind}: out of bounds {X.tolist()} in {xl.tolist()} {xu.tolist()}")
    if kind == "int":
        t.require(np.issubdtype(X.dtype, np.integer), f"integer samples of type {X.dtype}")
    if kind.startswith("lhs"):
        w = np.where(xu > xl, xu - xl, 1.0)
        ok = xu > xl
        stratified(t, ((X - xl) / w)[:, ok], n, kind, center=kind == "lhs-center")
    t.equal(prob.xl if not free else xl, xl, "the bounds were modified")


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 30), m=st.integers(1, 6), smooth=st.booleans(), s=gen.SEED, lo=st.integers(-5, 5), w=st.integers(1, 9))), quick=200, thorough=3000)
def lhs_functions(case, t):
    """Latin hypercube functions: exactly one point per slice, criteria are improved on the sample given"""
    n, m = case["n"], case["m"]
    t.nontrivial(n > 1 and m > 1)
    U = sampling_lhs_unit(n, m, smooth=case["smooth"], random_state=np.random.default_rng(case["s"]))
    t.require(U.shape == (n, m), f"shape {U.shape}")
    stratified(t, U, n, "sampling_lhs_unit", center=not case["smooth"])
    V = sampling_lhs(n, m, xl=case["lo"], xu=case["lo"] + case["w"], smooth=case["smooth"], n_iter=4, random_state=np.random.default_rng(case["s"]))
    stratified(t, (V - case["lo"]) / case["w"], n, "sampling_lhs", center=not case["smooth"])
    if n > 3:
        # the maxmin criterion never returns a sample worse than its first candidate
        from scipy.spatial.distance import pdist
        W = sampling_lhs(n, m, smooth=case["smooth"], n_iter=4, random_state=np.random.default_rng(case["s"]))
        t.require(pdist(W).min() >= pdist(U).min() - 1e-9, "maxmin: worse than the first candidate")
    # of all candidates the best one is returned, for every criterion
    def weights(X):
        return float(np.sum(X[:, 0] * np.arange(n)))

    def corr(X):
        R = [[np.mean((a - a.mean()) * (b - b.mean())) / (a.std() * b.std()) for b in X.T] for a in X.T]
        return -sum(R[i][j] ** 2 for i in range(m) for j in range(i))

    def gap(X):
        return min(float(np.sqrt(((a - b) ** 2).sum())) for i, a in enumerate(X) for b in X[:i])

    for crit, ref in ((weights, weights), (criterion_corr, corr), (criterion_maxmin, gap)):
        if n < 2:
            continue
        r = np.random.default_rng(case["s"])
        k = case["lo"] + 6
        cands = [sampling_lhs_unit(n, m, smooth=case["smooth"], random_state=r) for _ in range(k)]
        got = sampling_lhs(n, m, smooth=case["smooth"], criterion=crit, n_iter=k, random_state=np.random.default_rng(case["s"]))
        scores = [ref(c) for c in cands]
        t.require(crit is weights or np.allclose([float(crit(c)) for c in cands], scores, atol=1e-9), lambda: f"{crit.__name__}: {[float(crit(c)) for c in cands]} instead of {scores}", "criterion")
        t.require(any(np.array_equal(got, c) and s >= max(scores) - 1e-9 for c, s in zip(cands, scores)), lambda: f"{crit.__name__}: not the best of {k} candidates", "best candidate")


@P.check(st.fixed_dictionaries(dict(kind=st.sampled_from(["float", "int", "bool", "perm", "lhs-plain"]), m=st.integers(1, 4), lo=st.integers(-3, 3), w=st.integers(1, 4), s=gen.SEED)),
         quick=60, thorough=600)
def coverage(case, t):
    """600 samples reach every value of small discrete domains and both ends of continuous ones (misses are < 1e-10 likely)"""
    kind, m, lo, hi = case["kind"], case["m"], case["lo"], case["lo"] + case["w"]
    m = min(m, 3) if kind == "perm" else m
    t.nontrivial(m > 1, kind)
    prob = Problem(n_var=m, n_obj=1, xl=lo, xu=hi)
    X = op(kind).do(prob, 600, random_state=np.random.default_rng(case["s"])).get("X")
    if kind == "perm":
        t.require(len({tuple(x) for x in X.tolist()}) == len(list(itertools.permutations(range(m)))), "some permutation never occurs in 600 samples")
        return
    for j in range(m):
        v = X[:, j]
        if kind == "int":
            t.require(set(v.tolist()) == set(range(lo, hi + 1)), f"integers {sorted(set(v.tolist()))} instead of {lo}..{hi} in 600 samples")
        elif kind == "bool":
            t.require(0.3 < v.mean() < 0.7, f"fraction of True: {v.mean()}")
        else:
            u = (v - lo) / (hi - lo)
            h = np.histogram(u, bins=5, range=(0, 1))[0]
            t.require(h.sum() == 600 and h.min() > 50, f"histogram of 600 samples: {h.tolist()}")
    if m > 1 and kind in ("float", "lhs-plain"):
        t.require(np.abs(np.corrcoef(X.T) - np.eye(m)).max() < 0.4, "the variables are correlated")


@P.check(st.fixed_dictionaries(dict(b=gen.bounds_spec(1, 4), n=st.integers(1, 10), form=st.sampled_from(["operator", "array", "row", "population"]), s=gen.SEED,
                                    dup=st.booleans(), done=st.integers(0, 4), rep=st.booleans())), quick=200, thorough=3000)
def initialization(case, t):
    """initial populations from operators, arrays and (partly evaluated) populations; repair and duplicate elimination"""
    xl, xu = gen.mk_bounds(case["b"])
    m, n, form = len(xl), case["n"], case["form"]
    prob = Problem(n_var=m, n_obj=1, xl=xl, xu=xu)
    X = xl + gen.rng(case["s"]).random((n, m)) * (xu - xl)
    if case["dup"] and n > 1:
        X[-1] = X[0]
    done = []
    if form == "operator":
        smp = FloatRandomSampling()
    elif form == "array":
        smp = X.copy()
    elif form == "row":
        smp, n = X[0].copy(), 1
        X = X[:1]
    else:
        smp = Population.new("X", X)
        done = [i for i in range(min(case["done"], n))]
        for i in done:
            smp[i].F, smp[i].evaluated = np.array([7.0]), {"F"}
    init = Initialization(smp, repair=RoundingRepair() if case["rep"] else None, eliminate_duplicates=DefaultDuplicateElimination())
    pop = init.do(prob, n, random_state=np.random.default_rng(1))
    Z = pop.get("X")
    t.nontrivial(n > 1)
    if form == "operator":
        t.require(len(pop) <= n and Z.shape[1] == m, "number of samples")
        return
    W = [X[i] if i in done or not case["rep"] else np.around(X[i]) for i in range(n)]
    keep = [i for i in range(n) if not any(np.array_equal(W[i], W[j]) for j in range(i))]
    t.close(Z, np.array([W[i] for i in keep]), f"initial population from {form}")
    t.require([len(p.evaluated) > 0 for p in pop] == [i in done for i in keep], "evaluated individuals of the initial population")
