"""P15: mixed-variable optimization keeps every variable in its domain."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from pymoo.core.evaluator import Evaluator
from pymoo.core.individual import Individual
from pymoo.core.mixed import MixedVariableDuplicateElimination, MixedVariableGA, MixedVariableMating, MixedVariableSampling, groups_of_vars
from pymoo.core.population import Population
from pymoo.core.problem import ElementwiseProblem, Problem
from pymoo.core.variable import Binary, BoundedVariable, Choice, Integer, Real, Variable, get
from pymoo.algorithms.moo.nsga2 import RankAndCrowdingSurvival
from pymoo.optimize import minimize
from vp import gen
from vp.core import Prop

P = Prop("P15", "at least two kinds of variables", ["choice options are hashable and comparable"])
ALPHA = 1e-12

OPTS = [["red", "a much longer name", "x"], ["nothing", "multiply"], [10, 20, 30, 40], [1.5, "mixed", 7]]


@st.composite
def vars_spec(draw, nmax=6):
    out = []
    for i in range(draw(st.integers(1, nmax))):
        k = draw(st.sampled_from(["real", "int", "bin", "cho"]))
        lo, w = draw(st.integers(-4, 4)), draw(st.integers(0, 6))
        out.append(dict(k=k, lo=lo, w=w, o=draw(st.integers(0, len(OPTS) - 1))))
    return out


def mk_vars(spec):
    d = {}
    for i, v in enumerate(spec):
        name = f"{'zyxwvu'[i]}{i}"
        d[name] = dict(real=lambda: Real(bounds=(v["lo"] / 2.0, (v["lo"] + max(v["w"], 1)) / 2.0)), int=lambda: Integer(bounds=(v["lo"], v["lo"] + v["w"])), bin=lambda: Binary(),
                       cho=lambda: Choice(options=OPTS[v["o"]]))[v["k"]]()
    return d


def check_x(t, x, vs, spec, msg):
    t.require(isinstance(x, dict) and set(x) == set(vs), f"{msg}: keys {list(x) if isinstance(x, dict) else x} instead of {list(vs)}")
    for name, s in zip(vs, spec):
        v = x[name]
        k = s["k"]
        if k == "real":
            t.require(isinstance(v, (float, np.floating)) and vs[name].lb <= v <= vs[name].ub, f"{msg}: {name}={v!r} for a real in {vs[name].bounds}")
        elif k == "int":
            t.require(isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_)) and vs[name].lb <= v <= vs[name].ub, f"{msg}: {name}={v!r} for an integer in {vs[name].bounds}")
        elif k == "bin":
            t.require(isinstance(v, (bool, np.bool_)), f"{msg}: {name}={v!r} for a binary")
        else:
            t.require(v in OPTS[s["o"]] and str(v) in [str(o) for o in OPTS[s["o"]]], f"{msg}: {name}={v!r} for a choice of {OPTS[s['o']]}")


def same(a, b):
    return set(a) == set(b) and all(a[k] == b[k] and type(a[k]) == type(b[k]) for k in a)


@P.check(st.fixed_dictionaries(dict(v=vars_spec(), n=st.integers(1, 10), s=gen.SEED)), quick=300, thorough=5000)
def sampling(case, t):
    """samples and every reading of them are in their domains"""
    vs, n = mk_vars(case["v"]), case["n"]
    prob = Problem(vars=vs, n_obj=1)
    t.nontrivial(len({v["k"] for v in case["v"]}) > 1)
    t.require(prob.n_var == len(vs), "number of variables of the problem")
    pop = MixedVariableSampling().do(prob, n, random_state=np.random.default_rng(case["s"]))
    t.require(len(pop) == n, "number of samples")
    for ind in pop:
        check_x(t, ind.X, vs, case["v"], "sampling")
    again = MixedVariableSampling().do(prob, n, random_state=np.random.default_rng(case["s"]))
    t.require(all(same(a.X, b.X) for a, b in zip(pop, again)), "same random state, other samples")
    G = groups_of_vars(vs)
    t.require(sorted(nm for g in G.values() for nm, _ in g) == sorted(vs) and all(v.__class__ is c and vs[nm] is v for c, g in G.items() for nm, v in g), "groups_of_vars")


@P.check(st.fixed_dictionaries(dict(v=vars_spec(), n=st.integers(2, 8), k=st.integers(1, 9), s=gen.SEED, dup=st.booleans())), quick=300, thorough=6000, shards=(2, 8))
def mating(case, t):
    """offspring are in their domains and made of values of their parents or mutations of them"""
    vs, n, k = mk_vars(case["v"]), case["n"], case["k"]
    prob = Problem(vars=vs, n_obj=1)
    pop = MixedVariableSampling().do(prob, n, random_state=np.random.default_rng(case["s"]))
    old = [dict(p.X) for p in pop]
    kinds = {v["k"] for v in case["v"]}
    t.nontrivial(len(kinds) > 1, "+".join(sorted(kinds)))
    el = MixedVariableDuplicateElimination()
    mt = MixedVariableMating(eliminate_duplicates=el, n_max_iterations=20) if case["dup"] else MixedVariableMating(eliminate_duplicates=None)
    off = mt.do(prob, pop, k, random_state=np.random.default_rng(case["s"]))
    t.require(len(off) <= k and (case["dup"] or len(off) == k), f"{len(off)} offspring, {k} requested")
    for o in off:
        check_x(t, o.X, vs, case["v"], "mating")
    t.require(all(same(p.X, x) for p, x in zip(pop, old)), "mating modified its parents")
    if case["dup"]:
        X = [o.X for o in off]
        t.require(not any(all(a[c] == b[c] for c in a) for i, a in enumerate(X) for b in X[:i] + old), "mating produced a duplicate")
    off2 = (MixedVariableMating(eliminate_duplicates=MixedVariableDuplicateElimination(), n_max_iterations=20) if case["dup"] else MixedVariableMating(eliminate_duplicates=None)).do(
        prob, pop, k, random_state=np.random.default_rng(case["s"]))
    t.require(len(off) == len(off2) and all(same(a.X, b.X) for a, b in zip(off, off2)), "same population and random state, other offspring")


@P.check(st.fixed_dictionaries(dict(v=vars_spec(4), n=st.integers(1, 12), s=gen.SEED, merge=st.integers(0, 5))), quick=300, thorough=5000)
def duplicates(case, t):
    """mixed individuals are duplicates if and only if all values are equal"""
    vs, n = mk_vars(case["v"]), case["n"]
    prob = Problem(vars=vs, n_obj=1)
    r = gen.rng(case["s"])
    base = MixedVariableSampling().do(prob, n, random_state=r)
    pop = Population.create(*[Individual(X=dict(base[int(r.integers(0, n))].X)) for _ in range(n)])
    other = Population.create(*[Individual(X=dict(base[int(r.integers(0, n))].X)) for _ in range(case["merge"])])
    eq = lambda a, b: all(a.X[k] == b.X[k] for k in vs)
    out = MixedVariableDuplicateElimination().do(pop, other) if case["merge"] else MixedVariableDuplicateElimination().do(pop)
    t.nontrivial(0 < len(out) < n)
    for i, a in enumerate(out):
        t.require(any(a is p for p in pop), "not an individual of the population")
        t.require(not any(eq(a, b) for j, b in enumerate(out) if j != i) and not any(eq(a, b) for b in other), "a duplicate survived")
    for p in pop:
        t.require(any(eq(p, q) for q in list(out) + list(other)), "an individual without a duplicate was removed")


class Pr(ElementwiseProblem):
    def __init__(self, vs, spec, m):
        super().__init__(vars=vs, n_obj=m, n_ieq_constr=1)
        self.spec, self.m, self.seen = spec, m, []

    def f(self, x):
        v = 0.0
        for n, s in zip(self.vars, self.spec):
            e = x[n]
            v += OPTS[s["o"]].index(e) if s["k"] == "cho" else float(e)
        return ([v ** 2, (v - 2) ** 2][:self.m], -v - 3)

    def _evaluate(self, x, out, *args, **kwargs):
        self.seen.append(dict(x))
        out["F"], out["G"] = self.f(x)


@P.check(st.fixed_dictionaries(dict(v=vars_spec(5), n=st.integers(4, 10), m=st.integers(1, 2), s=gen.SEED)), quick=60, thorough=800, shards=(2, 8), hang=180)
def algorithm(case, t):
    """whole runs: every evaluated point is in its domain, results are reproducible and belong to their variables"""
    vs = mk_vars(case["v"])
    res = []
    t.nontrivial(len({v["k"] for v in case["v"]}) > 1)
    for _ in range(2):
        prob = Pr(mk_vars(case["v"]), case["v"], case["m"])
        alg = MixedVariableGA(pop_size=case["n"], **(dict(survival=RankAndCrowdingSurvival()) if case["m"] > 1 else {}))
        r = minimize(prob, alg, ("n_gen", 4), seed=case["s"], verbose=False)
        for x in prob.seen:
            check_x(t, x, vs, case["v"], "evaluated")
        t.require(r.algorithm.evaluator.n_eval == len(prob.seen), f"{len(prob.seen)} evaluations, counted {r.algorithm.evaluator.n_eval}")
        for p in r.pop:
            F, G = prob.f(p.X)
            t.close(p.F, F, "objective values of an individual do not belong to its variables")
            t.close(p.G, [G], "constraint values of an individual do not belong to its variables")
        res.append((prob.seen, r.pop.get("F").tolist()))
    t.require(len(res[0][0]) == len(res[1][0]) and all(same(a, b) for a, b in zip(res[0][0], res[1][0])), "same seed, other evaluated points")
    t.require(res[0][1] == res[1][1], "same seed, other result")


@P.check(st.fixed_dictionaries(dict(lo=st.integers(-9, 9), w=st.integers(0, 5), o=st.integers(0, 3), s=gen.SEED, n=st.integers(1, 9))), quick=100, thorough=1000)
def variables(case, t):
    """samples of single variables: type, bounds, all values reached, uniform; get with sizes"""
    lo, hi, s = case["lo"], case["lo"] + case["w"], case["s"]
    rs = lambda: np.random.default_rng(s)
    t.nontrivial(case["w"] > 0)
    X = Integer(bounds=(lo, hi)).sample(1200, random_state=rs())
    t.require(set(X.tolist()) == set(range(lo, hi + 1)) and np.issubdtype(X.dtype, np.integer), f"integers in {lo}..{hi}: {sorted(set(X.tolist()))}")
    if hi > lo:
        t.require(stats.chisquare(np.bincount(X - lo, minlength=hi - lo + 1)).pvalue > ALPHA, "integers are not uniform")
    R = Real(bounds=(lo, lo + 2.5)).sample(1200, random_state=rs())
    t.require(R.min() >= lo and R.max() <= lo + 2.5 and stats.kstest((R - lo) / 2.5, "uniform").pvalue > ALPHA, "reals are not uniform in their bounds")
    B = Binary().sample(1200, random_state=rs())
    t.require(B.dtype == bool and stats.binomtest(int(B.sum()), 1200, 0.5).pvalue > ALPHA, "binaries")
    opts = OPTS[case["o"]]
    C = Choice(options=opts).sample(1200, random_state=rs())
    t.require({str(c) for c in C} == {str(o) for o in opts}, "choices")
    for v in (Integer(bounds=(lo, hi)), Real(bounds=(lo, lo + 1)), Binary(), Choice(options=opts)):
        t.require(np.shape(v.sample(random_state=rs())) == () and len(v.sample(case["n"], random_state=rs())) == case["n"], f"{type(v).__name__}: number of samples")
        t.require(str(v.sample(random_state=rs())) == str(v.sample(1, random_state=rs())[0]), "one sample and a sample of one differ")
        v.set(3)
        t.require(v.get() == 3 and get(v) == 3, "value of a variable")
        t.equal(get(v, size=case["n"]), np.full(case["n"], 3), "get with a size")
        v.set(np.arange(case["n"]))
        t.equal(get(v, size=(case["n"], 1)), np.arange(case["n"])[:, None], "get of an array with a size")
    a, b = get(Real(2.5, bounds=(0, 1)), 7, size=2)
    t.require(a.tolist() == [2.5, 2.5] and b.tolist() == [7, 7], "get of several values")
    v = Real(bounds=(lo, hi))
    t.require(v.lb == lo and v.ub == hi and v.strict == (lo, hi) and Real(bounds=(0, 1), strict=(-5, 5)).strict == (-5, 5), "bounds of a variable")
    t.require(Choice(options=opts).all == opts and Choice(options=opts[:1], all=opts).all == opts, "options of a choice")
