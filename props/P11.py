"""P11: mutations produce valid individuals and change what they are told to change."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from pymoo.core.individual import Individual
from pymoo.core.population import Population
from pymoo.core.problem import Problem
from pymoo.core.variable import Binary, Choice, Integer, Real
from pymoo.operators.mutation.bitflip import BFM, BitflipMutation
from pymoo.operators.mutation.gauss import GM, GaussianMutation, mut_gauss
from pymoo.operators.mutation.inversion import InversionMutation, inversion_mutation
from pymoo.operators.mutation.nom import NoMutation
from pymoo.operators.mutation.pm import PM, PolynomialMutation, mut_pm
from pymoo.operators.mutation.rm import ChoiceRandomMutation
from pymoo.operators.repair.rounding import RoundingRepair
from vp import gen
from vp.core import Prop

P = Prop("P11", "at least two individuals of at least two variables and some value changes", ["individuals are valid points of the problem"])
ALPHA = 1e-12

REAL = ["pm", "pm-once", "pm-eta", "gm", "gm-big"]


def real_op(name, prob, pv):
    return dict(pm=lambda: PM(prob=prob, prob_var=pv), gm=lambda: GM(prob=prob, prob_var=pv))[name[:2]]() if name in ("pm", "gm") else {
        "pm-once": lambda: PM(prob=prob, prob_var=pv, at_least_once=True), "pm-eta": lambda: PolynomialMutation(prob=prob, prob_var=pv, eta=3), "gm-big": lambda: GaussianMutation(sigma=0.9, prob=prob, prob_var=pv)}[name]()


def apply(t, name, op, prob, X, seed, inplace):
    """returns the mutated variables; checks identity, copies and evaluation state"""
    pop = Population.create(*[Individual(X=x.copy(), F=np.array([float(i)])) for i, x in enumerate(X)])
    before = list(pop)
    out = op.do(prob, pop, inplace=inplace, random_state=np.random.default_rng(seed)) if inplace is not None else op(prob, pop, random_state=np.random.default_rng(seed))
    t.require(isinstance(out, Population) and len(out) == len(X), f"{name}: {len(out)} individuals of {len(X)}")
    if inplace is False:
        t.require(not any(a is b for a, b in zip(out, before)), f"{name}: not in place, but the same individuals")
        t.require(all(np.array_equal(b.X, x) for b, x in zip(before, X)), f"{name}: not in place, but the population was modified")
    else:
        t.require(all(a is b for a, b in zip(out, before)), f"{name}: other individuals returned")
    return out.get("X")


@P.check(st.fixed_dictionaries(dict(op=st.sampled_from(REAL), b=gen.bounds_spec(1, 6), n=st.integers(1, 8), prob=st.sampled_from([0.0, 0.5, 1.0, 1.0]), pv=st.sampled_from([None, 0.0, 0.3, 1.0]),
                                    inplace=st.sampled_from([None, True, False]), edge=st.booleans(), fixed=st.booleans(), s=gen.SEED)), quick=500, thorough=10000, shards=(2, 8))
def real(case, t):
    """polynomial and Gaussian mutation: in bounds, fixed variables kept, input untouched, determined by the random state"""
    name, n, prob, pv = case["op"], case["n"], case["prob"], case["pv"]
    xl, xu = gen.mk_bounds(case["b"])
    m = len(xl)
    if case["fixed"]:
        xu[-1] = xl[-1]
    r = gen.rng(case["s"])
    X = np.clip(xl + r.random((n, m)) * (xu - xl), xl, xu)
    if case["edge"]:
        X[0], X[-1] = xl, xu
    p = Problem(n_var=m, n_obj=1, xl=xl.copy(), xu=xu.copy())
    Y = apply(t, name, real_op(name, prob, pv), p, X, case["s"], case["inplace"])
    ch = Y != X
    t.nontrivial(n > 1 and m > 1 and ch.any(), name)
    t.require(Y.shape == X.shape and np.all(np.isfinite(Y)), lambda: f"{name}: {X.tolist()} -> {Y.tolist()}")
    tol = 4 * np.spacing(np.maximum(np.abs(xl), np.abs(xu)))
    t.require(np.all(Y >= xl - tol) and np.all(Y <= xu + tol), lambda: f"{name}: {X.tolist()} -> {Y.tolist()} is out of bounds {xl.tolist()} {xu.tolist()}")
    if case["fixed"]:
        t.equal(Y[:, -1], X[:, -1], f"{name}: a variable with equal bounds")
    if prob == 0 or (pv == 0 and name != "pm-once"):
        t.require(not ch.any(), f"{name}: mutated with probability zero")
    if prob == 1 and pv == 1 and not case["edge"]:
        free = xu > xl
        # a change below the resolution of the numbers is not visible
        vis = (np.abs(X - Y)[:, free] > 0).mean() if free.any() else 1
        t.require(vis > 0.3 or case["b"]["kind"] == "wide", f"{name}: {ch.sum()} of {n * m} values mutated with probability one")
    if name == "pm-once" and prob == 1 and pv == 0:
        t.require(np.all(ch.sum(axis=1) <= 1), f"{name}: more than one value")
        if not case["fixed"] and not case["edge"]:
            t.require(np.all(ch.sum(axis=1) == 1), f"{name}: not exactly one value of each individual mutated: {ch.sum(axis=1).tolist()}")
    Z = apply(t, name, real_op(name, prob, pv), p, X, case["s"], True)
    t.equal(Z, Y, f"{name}: same individuals and random state, other result")
    t.equal(p.xl, xl, "bounds modified")
    t.equal(p.xu, xu, "bounds modified")


@P.check(st.fixed_dictionaries(dict(x=st.sampled_from([0.0, 0.05, 0.3, 0.5, 0.8, 1.0]), eta=st.sampled_from([3.0, 20.0, 60.0]), lo=st.sampled_from([0.0, -2.0, 50.0]), w=st.sampled_from([1.0, 0.01, 30.0]),
                                    pv=st.sampled_from([0.1, 0.5, 0.9]), prob=st.sampled_from([0.3, 0.8, 1.0]), sigma=st.sampled_from([0.02, 0.1, 0.2]), s=gen.SEED)), quick=40, thorough=300, shards=(2, 8))
def distributions(case, t):
    """polynomial mutation follows its bounded polynomial distribution, Gaussian mutation is normal; probabilities per individual and variable hold"""
    n, x, eta, lo, w = 2000, case["x"], case["eta"], case["lo"], case["w"]
    t.nontrivial(0 < x < 1)
    X = np.full((n, 1), lo + x * w)
    xl, xu = np.array([lo]), np.array([lo + w])
    Y = mut_pm(X.copy(), xl, xu, np.full(n, eta), np.ones(n), False, random_state=np.random.default_rng(case["s"]))[:, 0]
    d = (Y - X[0, 0]) / w
    for sign, room in ((-1, x), (1, 1 - x)):
        if room == 0:
            t.require(not np.any(sign * d > 1e-9), "PM leaves the bounds")
            continue
        v = np.abs(d[sign * d > 1e-13])
        if len(v) > 50:
            # the defining cumulative distribution of the step towards this side
            u = (1 - (1 - v) ** (eta + 1)) / (1 - (1 - room) ** (eta + 1))
            pv = stats.kstest(np.clip(u, 0, 1), "uniform").pvalue
            t.require(pv > ALPHA, f"PM steps from {x} (eta {eta}, side {sign}) are not distributed as defined: p-value {pv}")
        if 0 < x < 1:
            t.require(stats.binomtest(len(v), n, 0.5).pvalue > ALPHA, f"PM: {len(v)} of {n} steps to side {sign}")
    sg = case["sigma"]
    Y = mut_gauss(X.copy(), xl, xu, np.full(n, sg), np.ones(n), random_state=np.random.default_rng(case["s"]))[:, 0]
    z = (Y - X[0, 0]) / (sg * w)
    if min(x, 1 - x) / sg > 8:
        t.require(stats.kstest(z, "norm").pvalue > ALPHA, f"Gaussian steps are not normal with sigma {sg} of the range")
    else:
        c = np.abs(z) < min(x, 1 - x) / sg
        if 0 < x < 1 and c.sum() > 100:
            a = min(x, 1 - x) / sg
            t.require(c.mean() >= stats.norm.cdf(a) - stats.norm.cdf(-a) - 0.17, "Gaussian steps too wide")
    # probabilities: pv per variable, prob per individual
    m = 4
    p = Problem(n_var=m, n_obj=1, xl=0.0, xu=1.0)
    X = np.full((n, m), 0.5)
    for name, op in (("pm", PM(prob=case["prob"], prob_var=case["pv"])), ("gm", GM(prob=case["prob"], prob_var=case["pv"]))):
        Z = op.do(p, Population.new("X", X.copy()), random_state=np.random.default_rng(case["s"])).get("X")
        ch = Z != X
        q = case["prob"] * (1 - (1 - case["pv"]) ** m)
        k = int(ch.any(axis=1).sum())
        t.require(stats.binomtest(k, n, q).pvalue > ALPHA, f"{name}: {k} of {n} individuals mutated, probability {q}")
        for j in range(m):
            t.require(stats.binomtest(int(ch[:, j].sum()), n, case["prob"] * case["pv"]).pvalue > ALPHA, f"{name}: variable {j} mutated {ch[:, j].sum()} of {n} times, probability {case['prob'] * case['pv']}")
    # default: one variable on average (at most every second)
    ch = PM(prob=1.0).do(p, Population.new("X", X.copy()), random_state=np.random.default_rng(case["s"])).get("X") != X
    t.require(stats.binomtest(int(ch.sum()), n * m, 1 / m).pvalue > ALPHA, f"default probability: {ch.sum() / n} of {m} variables on average")


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 8), m=st.integers(1, 8), prob=st.sampled_from([0.0, 0.5, 1.0]), pv=st.sampled_from([None, 0.0, 0.4, 1.0]), inplace=st.sampled_from([None, True, False]), s=gen.SEED)),
         quick=300, thorough=5000)
def bitflip(case, t):
    """only selected bits are flipped, with the expected frequency"""
    n, m = case["n"], case["m"]
    r = gen.rng(case["s"])
    X = r.random((n, m)) < 0.5
    op = BFM(prob=case["prob"], prob_var=case["pv"])
    Y = apply(t, "bitflip", op, Problem(n_var=m, n_obj=1, xl=0, xu=1, vtype=bool), X, case["s"], case["inplace"])
    t.nontrivial(n > 1 and m > 1 and (X != Y).any())
    t.require(Y.dtype == bool and Y.shape == X.shape, f"bitflip: type {Y.dtype}")
    if case["prob"] == 0 or case["pv"] == 0:
        t.equal(Y, X, "bitflip with probability zero")
    if case["prob"] == 1 and case["pv"] == 1:
        t.equal(Y, ~X, "bitflip with probability one")
    Xb = r.random((1500, 5)) < 0.5
    Yb = BitflipMutation(prob=1.0, prob_var=case["pv"]).do(Problem(n_var=5, n_obj=1, xl=0, xu=1), Population.new("X", Xb.copy()), random_state=np.random.default_rng(case["s"])).get("X")
    q = 0.2 if case["pv"] is None else case["pv"]
    t.require(stats.binomtest(int((Xb != Yb).sum()), Xb.size, q).pvalue > ALPHA, f"bits flipped with probability {q}: {(Xb != Yb).mean()}")


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 6), m=st.integers(2, 9), prob=st.sampled_from([0.0, 0.3, 1.0]), inplace=st.sampled_from([None, True, False]), s=gen.SEED)), quick=300, thorough=5000)
def inversion(case, t):
    """one section is reversed, everything else stays"""
    n, m = case["n"], case["m"]
    r = gen.rng(case["s"])
    X = np.array([r.permutation(m) for _ in range(n)])
    p = Problem(n_var=m, n_obj=1, xl=0, xu=m - 1, vtype=int)
    Y = apply(t, "inversion", InversionMutation(prob=case["prob"]), p, X, case["s"], case["inplace"])
    t.nontrivial(n > 1 and m > 2 and (X != Y).any())
    for x, y in zip(X.tolist(), Y.tolist()):
        inv = [x[:i] + x[i:j + 1][::-1] + x[j + 1:] for i in range(m) for j in range(i + 1, m)]
        t.require(y in inv or (y == x and case["prob"] < 1), f"inversion: {x} -> {y}")
        t.require(y == x or case["prob"] > 0, "inversion with probability zero")
    Z = apply(t, "inversion", InversionMutation(prob=case["prob"]), p, X, case["s"], True)
    t.equal(Z, Y, "inversion: same random state, other result")
    i, j = sorted(r.integers(0, m, 2).tolist())
    x = X[0].copy()
    t.equal(inversion_mutation(x, (i, j), inplace=False), X[0].tolist()[:i] + X[0].tolist()[i:j + 1][::-1] + X[0].tolist()[j + 1:], "inversion_mutation")
    t.equal(x, X[0], "inversion_mutation: not in place but modified")
    Xb = np.tile(np.arange(6), (800, 1))
    Yb = InversionMutation(prob=case["prob"]).do(Problem(n_var=6, n_obj=1), Population.new("X", Xb.copy()), random_state=np.random.default_rng(case["s"])).get("X")
    k = int((Xb != Yb).any(axis=1).sum())
    t.require(stats.binomtest(k, 800, case["prob"]).pvalue > ALPHA, f"inversion with probability {case['prob']}: {k} of 800")
    if case["prob"] == 1:
        t.require((Xb != Yb).any(axis=0).all(), "inversion never affects some position")


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 6), kinds=st.lists(st.sampled_from(["real", "int", "bin", "cho", "lng"]), min_size=1, max_size=5), pv=st.sampled_from([None, 0.0, 0.4, 1.0]),
                                    prob=st.sampled_from([0.0, 1.0]), s=gen.SEED)), quick=200, thorough=4000)
def choice(case, t):
    """random choice mutation replaces values by samples of their variable"""
    mk = dict(real=Real(bounds=(-1.0, 2.0)), int=Integer(bounds=(3, 6)), bin=Binary(), cho=Choice(options=["a", "b"]), lng=Choice(options=["short", "a very much longer name", "x"]))
    vs = {f"v{i}": mk[k] for i, k in enumerate(case["kinds"])}
    n, m = case["n"], len(vs)
    X = np.array([[v.sample(random_state=np.random.default_rng([case["s"], i, j])) for j, v in enumerate(vs.values())] for i in range(n)], dtype=object)
    p = Problem(vars=vs, n_obj=1)
    Y = apply(t, "choice", ChoiceRandomMutation(prob=case["prob"], prob_var=case["pv"]), p, X, case["s"], None)
    t.nontrivial(n > 1 and m > 1)
    for i in range(n):
        for k, j in zip(case["kinds"], range(m)):
            y = Y[i, j]
            ok = dict(real=lambda: -1 <= y <= 2, int=lambda: y in (3, 4, 5, 6), bin=lambda: y in (True, False), cho=lambda: y in ("a", "b"), lng=lambda: y in mk["lng"].options)[k]()
            t.require(ok, f"choice mutation: {y!r} for a variable of kind {k}")
            if case["prob"] == 0 or case["pv"] == 0:
                t.require(y == X[i, j], "choice mutation with probability zero")
            if case["prob"] == 1 and case["pv"] == 1 and k == "real":
                t.require(y != X[i, j], "choice mutation with probability one keeps a value")
    pv = {"a": Choice(options=list(range(10 ** 6)))}
    pb = Problem(vars=pv, n_obj=1)
    Xb = np.full((800, 1), -1, dtype=object)
    Yb = ChoiceRandomMutation(prob=1.0, prob_var=case["pv"]).do(pb, Population.new("X", Xb.copy()), random_state=np.random.default_rng(case["s"])).get("X")
    q = min(0.5, 1.0) if case["pv"] is None else case["pv"]
    t.require(stats.binomtest(int((Yb != Xb).sum()), 800, q).pvalue > ALPHA, f"choice mutation with probability {q}: {(Yb != Xb).sum()} of 800")


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 8), m=st.integers(1, 5), lo=st.integers(-5, 5), w=st.integers(1, 9), s=gen.SEED)), quick=100, thorough=2000)
def integers(case, t):
    """real mutation on integers with type and rounding repair; no mutation"""
    n, m, lo, hi = case["n"], case["m"], case["lo"], case["lo"] + case["w"]
    X = gen.rng(case["s"]).integers(lo, hi + 1, (n, m))
    p = Problem(n_var=m, n_obj=1, xl=lo, xu=hi, vtype=int)
    Y = apply(t, "pm-int", PM(vtype=float, repair=RoundingRepair(), eta=3, prob=1.0, prob_var=1.0), p, X, case["s"], None)
    t.nontrivial(n > 1 and m > 1 and (X != Y).any())
    t.require(np.issubdtype(Y.dtype, np.integer) and Y.min() >= lo and Y.max() <= hi, f"{Y.tolist()} of type {Y.dtype} for integers in {lo}..{hi}")
    pop = Population.new("X", X.copy())
    t.require(NoMutation()(p, pop) is pop and np.array_equal(pop.get("X"), X), "NoMutation")
