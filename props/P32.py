"""P32: transformed problems and adaptive constraint handling mean what the original problem means."""
import numpy as np
from hypothesis import strategies as st

from pymoo.algorithms.moo.nsga2 import NSGA2
from pymoo.algorithms.moo.nsga3 import NSGA3
from pymoo.algorithms.soo.nonconvex.de import DE
from pymoo.algorithms.soo.nonconvex.ga import GA
from pymoo.algorithms.soo.nonconvex.pso import PSO
from pymoo.constraints.as_obj import ConstraintsAsObjective
from pymoo.constraints.as_penalty import ConstraintsAsPenalty
from pymoo.constraints.eps import AdaptiveEpsilonConstraintHandling
from pymoo.constraints.from_bounds import ConstraintsFromBounds
from pymoo.core.evaluator import Evaluator
from pymoo.core.individual import Individual
from pymoo.core.population import Population
from pymoo.core.problem import Problem
from pymoo.decomposition.asf import ASF
from pymoo.decomposition.pbi import PBI
from pymoo.decomposition.tchebicheff import Tchebicheff
from pymoo.decomposition.weighted_sum import WeightedSum
from pymoo.optimize import minimize
from pymoo.problems.multi_to_single import MultiToSingleObjective
from pymoo.problems.static import StaticProblem
from pymoo.problems.util import decompose
from vp import gen
from vp.core import Prop

P = Prop("P32", "the problem has constraints and some points violate them", ["objectives and constraints are finite"])


class Inner(Problem):
    """constraints of both kinds with known values; elementwise or not"""

    LOG = {}

    def __init__(self, n, m, g, h, ew, key=None):
        xl, xu = -1.0 - np.arange(n), 1.0 + 0.5 * np.arange(n)
        super().__init__(n_var=n, n_obj=m, n_ieq_constr=g, n_eq_constr=h, xl=xl, xu=xu, elementwise=ew)
        self.key = key

    @staticmethod
    def values(x, m, g, h):
        F = [float(np.sum((x - 0.3 * k) ** 2)) - k for k in range(m)]
        G = [float(np.sum(x[: k + 1]) - 0.2 * k) for k in range(g)]
        H = [float(x[k % len(x)] - 0.1 * k) for k in range(h)]
        return F, G, H

    def _evaluate(self, X, out, *args, **kwargs):
        if self.key is not None:
            Inner.LOG[self.key].extend(np.atleast_2d(X).tolist())
        rows = [Inner.values(x, self.n_obj_inner(), self.g, self.h) for x in np.atleast_2d(X)]
        F, G, H = (np.array([r[k] for r in rows]) for k in range(3))
        if self.elementwise:
            F, G, H = F[0], G[0], H[0]
        out["F"] = F
        if self.g:
            out["G"] = G
        if self.h:
            out["H"] = H

    def n_obj_inner(self):
        return self.m

    def _calc_pareto_front(self, *args, **kwargs):
        return np.eye(self.m) if self.m > 1 else np.array([[0.5]])


def inner(case, key=None):
    p = Inner(case["n"], case["m"], case["g"], case["h"], case["ew"], key)
    p.m, p.g, p.h = case["m"], case["g"], case["h"]
    return p


def cv(G, H, cfg=None):
    """the violation of one solution from the definition: the sum of the positive parts of either kind"""
    c = dict(ieq=(0.0, None, None, np.sum), eq=(1e-4, None, None, np.sum))
    c.update(cfg or {})

    def one(v, eps, scale, power, func):
        if len(v) == 0:
            return 0.0
        v = np.array(v, dtype=float)
        if eps:
            v = v - eps
        if scale is not None:
            v = v / scale
        v = np.maximum(v, 0)
        if power is not None:
            v = v ** power
        return float(func(v))
    return one(G, *c["ieq"]) + one(np.abs(H), *c["eq"])


PROB = dict(n=st.integers(1, 4), m=st.integers(1, 3), g=st.integers(0, 3), h=st.integers(0, 2), ew=st.booleans(), k=st.integers(1, 6), seed=gen.SEED, pop=st.booleans())


def points(case, p):
    r = gen.rng(case["seed"])
    return p.xl + np.round(r.random((case["k"], case["n"])), 2) * (p.xu - p.xl)


def both(prob, X, case, keys):
    """values through the problem or through the evaluator and a population"""
    if case["pop"]:
        pop = Evaluator().eval(prob, Population.new("X", X))
        out = {k: pop.get(k) for k in keys}
        out["CV"] = pop.get("CV")
        return out
    return prob.evaluate(X, return_as_dictionary=True)


def note(case, t, rows):
    t.nontrivial((case["g"] > 0 or case["h"] > 0) and any(cv(r[1], r[2]) > 0 for r in rows))


@P.check(st.fixed_dictionaries(dict(PROB, append=st.booleans(), cfg=st.booleans(), cached=st.booleans())), quick=1600, thorough=30000, shards=(4, 8))
def as_objective(case, t):
    """constraints as a further objective"""
    p = inner(case)
    if case["cached"]:
        p.pareto_front(), p.ideal_point(), p.nadir_point()
    cfg, ref = None, None
    if case["cfg"]:
        cfg = Individual.default_config()
        cfg["cv_ieq"] = dict(scale=2.0, eps=0.1, pow=None, func=np.sum)
        cfg["cv_eq"] = dict(scale=None, eps=0.01, pow=2, func=np.sum)
        ref = dict(ieq=(0.1, 2.0, None, np.sum), eq=(0.01, None, 2, np.sum))
    q = ConstraintsAsObjective(p, config=cfg, append=case["append"])
    m = case["m"] + 1 if case["append"] else 1
    t.require(q.n_obj == m and q.n_ieq_constr == 0 and q.n_eq_constr == 0 and not q.has_constraints() and q.n_var == case["n"], "definition")
    t.require(p.n_obj == case["m"] and p.n_ieq_constr == case["g"] and p.n_eq_constr == case["h"], "the original problem was changed")
    X = points(case, p)
    rows = [Inner.values(x, case["m"], case["g"], case["h"]) for x in X]
    note(case, t, rows)
    C = np.array([[cv(r[1], r[2], ref)] for r in rows])
    want = np.column_stack([C, np.array([r[0] for r in rows])]) if case["append"] else C
    out = both(q, X, case, ["F"])
    t.close(out["F"].reshape(len(X), -1), want, "objectives", rtol=1e-9, atol=1e-12)
    if case["pop"]:
        t.close(out["CV"], np.zeros((len(X), 1)), "violation of the unconstrained problem")
    else:
        t.require("G" not in out and "H" not in out, "constraints are still there")
        t.close(out["__F__"], np.array([r[0] for r in rows]), "original objectives", rtol=1e-9, atol=1e-12)
    for what in (q.pareto_front(), q.ideal_point(), q.nadir_point()):
        t.require(np.atleast_2d(what).shape[1] == m, lambda: f"Pareto front, ideal or nadir point has {np.atleast_2d(what).shape[1]} values, the problem {m} objectives", "pf")
    t.require((q.pareto_front()[:, 0] == 0).all(), "the Pareto front is not feasible")
    one = q.evaluate(X[0])
    t.close(np.ravel(one), want[0], "a single point", rtol=1e-9, atol=1e-12)


@P.check(st.fixed_dictionaries(dict(PROB, pen=st.sampled_from([0.0, 0.1, 1.0, 50.0]))), quick=1200, thorough=20000, shards=(4, 8))
def as_penalty(case, t):
    """constraints as a penalty"""
    p = inner(case)
    q = ConstraintsAsPenalty(p, penalty=case["pen"])
    t.require(q.n_obj == case["m"] and not q.has_constraints() and p.n_ieq_constr == case["g"], "definition")
    X = points(case, p)
    rows = [Inner.values(x, case["m"], case["g"], case["h"]) for x in X]
    note(case, t, rows)
    want = np.array([np.array(r[0]) + case["pen"] * cv(r[1], r[2]) for r in rows])
    out = both(q, X, case, ["F"])
    t.close(out["F"], want, "penalized objectives", rtol=1e-9, atol=1e-12)
    if not case["pop"]:
        t.require("G" not in out and "H" not in out, "constraints are still there")
        t.close(out["__F__"], np.array([r[0] for r in rows]), "original objectives", rtol=1e-9, atol=1e-12)


@P.check(st.fixed_dictionaries(dict(PROB, remove=st.booleans(), out=st.booleans())), quick=1200, thorough=20000, shards=(4, 8))
def from_bounds(case, t):
    """bounds as constraints"""
    p = inner(case)
    q = ConstraintsFromBounds(p, remove_bonds=case["remove"])
    n = case["n"]
    t.require(q.n_ieq_constr == case["g"] + 2 * n and q.n_eq_constr == case["h"] and q.n_obj == case["m"], "definition")
    t.require((q.xl is None and q.xu is None) if case["remove"] else (np.array_equal(q.xl, p.xl) and np.array_equal(q.xu, p.xu)), "bounds")
    t.require(p.n_ieq_constr == case["g"] and p.xl is not None, "the original problem was changed")
    X = points(case, p)
    if case["out"]:
        X = X * 3
    rows = [Inner.values(x, case["m"], case["g"], case["h"]) for x in X]
    want = np.array([r[1] + [float(a - b) for a, b in zip(p.xl, x)] + [float(b - a) for a, b in zip(p.xu, x)] for r, x in zip(rows, X)])
    out = both(q, X, case, ["F", "G", "H"] if case["h"] else ["F", "G"])
    t.nontrivial(bool((want > 0).any()))
    t.close(out["F"], np.array([r[0] for r in rows]), "objectives", rtol=1e-9, atol=1e-12)
    t.close(out["G"], want, "constraints", rtol=1e-9, atol=1e-12)
    if case["h"]:
        t.close(out["H"], np.array([r[2] for r in rows]), "equality constraints", rtol=1e-9, atol=1e-12)
    inside = ((X >= p.xl) & (X <= p.xu)).all(axis=1)
    t.require((((out["G"][:, case["g"]:] <= 0).all(axis=1)) == inside).all(), "satisfied exactly inside of the bounds")


@P.check(st.fixed_dictionaries(dict(PROB, dec=st.sampled_from(["ws", "asf", "tch", "pbi"]), how=st.sampled_from(["meta", "util"]))), quick=1200, thorough=20000, shards=(4, 8))
def to_single(case, t):
    """several objectives seen through a decomposition"""
    case = dict(case, m=max(2, case["m"]))
    p = inner(case)
    r = gen.rng(case["seed"] + 1)
    w = r.random(case["m"]) + 0.1
    dec = {"ws": WeightedSum(), "asf": ASF(), "tch": Tchebicheff(), "pbi": PBI()}[case["dec"]]
    u = np.full(case["m"], -3.5)
    X = points(case, p)
    rows = [Inner.values(x, case["m"], case["g"], case["h"]) for x in X]
    F = np.array([q[0] for q in rows])
    kw = {} if case["how"] == "util" else dict(ideal_point=u)
    d = np.array([{"ws": lambda f: f @ w, "asf": lambda f: np.max(f / w), "tch": lambda f: np.max(np.abs(f) * w),
                   "pbi": lambda f: f @ w / np.linalg.norm(w) + 5 * np.linalg.norm(f - (f @ w) / (w @ w) * w)}[case["dec"]](f if case["how"] == "util" or case["dec"] == "ws" else f - u) for f in F])
    if case["how"] == "meta":
        q = MultiToSingleObjective(p, dec, kwargs=dict(weights=w, _type="many_to_one", **kw))
    else:
        if case["ew"]:
            return
        q = decompose(p, dec, w)
    t.require(q.n_obj == 1 and p.n_obj == case["m"] and q.n_ieq_constr == case["g"], "definition")
    note(case, t, rows)
    out = both(q, X, case, ["F"] + (["G"] if case["g"] else []))
    t.close(out["F"].reshape(len(X), -1), d[:, None], "objective", rtol=1e-9, atol=1e-9)
    if case["g"]:
        t.close(out["G"], np.array([x[1] for x in rows]), "constraints", rtol=1e-9, atol=1e-12)
    t.close(p.evaluate(X, return_values_of=["F"]), F, "the original problem", rtol=1e-9, atol=1e-12)
    if case["how"] == "meta":
        class Norm:
            """any object with a do method"""

            def do(self, F):
                return np.linalg.norm(F, axis=1)
        t.close(MultiToSingleObjective(p, Norm()).evaluate(X, return_values_of=["F"]), np.linalg.norm(F, axis=1)[:, None], "without arguments", rtol=1e-9)


@P.check(st.fixed_dictionaries(dict(PROB, what=st.sampled_from(["F", "G", "both"]))), quick=800, thorough=12000, shards=(4, 8))
def static(case, t):
    """problems with prescribed values"""
    case = dict(case, ew=False, g=max(1, case["g"]), h=0)
    p = inner(case)
    r = gen.rng(case["seed"] + 1)
    X = points(case, p)
    val = {}
    if case["what"] in ("F", "both"):
        val["F"] = r.random((len(X), case["m"]))
    if case["what"] in ("G", "both"):
        val["G"] = r.random((len(X), case["g"]))
    if "F" not in val:
        val["F"] = np.zeros((len(X), case["m"]))
    q = StaticProblem(p, **val)
    t.nontrivial(case["what"] != "F")
    out = q.evaluate(X, return_as_dictionary=True)
    for k, v in val.items():
        t.close(out[k], v, k)
    t.close(p.evaluate(X, return_values_of=["F"]), np.array([Inner.values(x, case["m"], 0, 0)[0] for x in X]), "the original problem", rtol=1e-9, atol=1e-12)


ALG = {"ga": (GA, False), "de": (DE, False), "pso": (PSO, False), "nsga2": (NSGA2, True), "nsga3": (NSGA3, True)}


@P.check(st.fixed_dictionaries(dict(algo=st.sampled_from(sorted(ALG)), n=st.integers(2, 3), g=st.integers(1, 3), h=st.integers(0, 1), size=st.integers(5, 14), seed=st.integers(0, 500), until=st.sampled_from([1e-9, 0.3, 0.5, 0.9, 1.0]),
                                    gens=st.integers(2, 12), term=st.sampled_from(["n_gen", "n_gen", "n_eval"]))), quick=480, thorough=8000, shards=(8, 8))
def adaptive(case, t):
    """adaptive epsilon handling: the tolerance shrinks as scheduled, feasibility is what it was with this tolerance, results are judged without it"""
    cls, mo = ALG[case["algo"]]
    spec = dict(n=case["n"], m=2 if mo else 1, g=case["g"], h=case["h"], ew=False)

    def algo():
        kw = dict(pop_size=case["size"])
        if case["algo"] == "nsga3":
            kw["ref_dirs"] = np.array([[i / (case["size"] - 1), 1 - i / (case["size"] - 1)] for i in range(case["size"])])
        return cls(**kw)
    key = id(case)
    Inner.LOG[key] = []
    rows = []

    def cb(a):
        get = lambda P: [(x.X.tobytes(), x.F.copy(), cv(x.G, x.H if x.H is not None else [])) for x in P] if P is not None else []
        rows.append(dict(n=a.evaluator.n_eval, seen=len(Inner.LOG[key]), eps=a.adapted_config["cv_eps"], now=a.config["cv_eps"], perc=a.termination.perc, pop=get(a.pop), off=get(getattr(a, "off", None)),
                         opt=[(cv(x.G, x.H if x.H is not None else []), bool(x.FEAS[0])) for x in a.opt], feas=[bool(x.FEAS[0]) for x in a.pop]))
    limit = case["gens"] if case["term"] == "n_gen" else case["gens"] * case["size"]
    try:
        res = minimize(inner(spec, key), AdaptiveEpsilonConstraintHandling(algo(), perc_eps_until=case["until"]), (case["term"], limit), seed=case["seed"], callback=cb)
        log = list(Inner.LOG[key])
    finally:
        del Inner.LOG[key]
    t.require(res.algorithm.evaluator.n_eval == len(log), lambda: f"{len(log)} evaluations, counted {res.algorithm.evaluator.n_eval}", "n_eval")
    t.equal(len(rows), case["gens"], f"iterations for a budget of {case['term']} {limit}")
    first = float(np.mean([c for _, _, c in rows[0]["pop"]])) if case["algo"] != "de" else None
    t.nontrivial(any(r["eps"] > 0 for r in rows))
    for k, r in enumerate(rows):
        t.equal(r["n"], r["seen"], "counted evaluations of the iteration")
        t.equal(r["now"], 0.0, "epsilon outside of the iteration")
        for c, ok in r["opt"]:
            t.require(ok == (c <= 0), "feasible although it violates a constraint (epsilon must not be visible outside)", "opt")
        t.require(r["feas"] == [c <= 0 for _, _, c in r["pop"]], "feasibility of the population seen from outside")
        # decreasing linearly with the progress, zero once the share is reached (set before the progress of this iteration is known)
        prev = rows[k - 1]["perc"] if k else 0.0
        t.require(0 <= r["eps"], "negative epsilon")
        if k == 0:
            t.equal(r["eps"], 0.0, "epsilon before the first adaptation")
            continue
        if first is not None:
            want = max(0.0, 1 - prev / case["until"]) * first
            t.require(abs(r["eps"] - want) <= 1e-9 * max(1, first), lambda: f"epsilon {r['eps']} in iteration {k + 1}, by definition {want}", "eps")
        if k > 1:
            t.require(r["eps"] <= rows[k - 1]["eps"] + 1e-12, "epsilon increased")
    # the survival of GA considers violations up to epsilon as feasible
    if case["algo"] == "ga":
        for a, b in zip(rows, rows[1:]):
            e = a["eps"]
            keyf = lambda x: (0, float(x[1][0])) if x[2] <= e else (1, x[2])
            ids = {x[0] for x in b["pop"]}
            pool = {x[0]: x for x in a["pop"] + b["off"]}
            inside = [pool[i] for i in ids if i in pool]
            outside = [x for i, x in pool.items() if i not in ids]
            t.require(len(inside) == len(ids), "a survivor is neither parent nor offspring")
            if inside and outside:
                worst, best = max(map(keyf, inside)), min(map(keyf, outside))
                t.require(worst <= best or abs(worst[1] - best[1]) < 1e-12, lambda: f"with epsilon {e} a solution {worst} survived, {best} did not", "survival")
    if case["until"] == 1e-9 and case["term"] == "n_gen":
        Inner.LOG[key] = []
        try:
            base = minimize(inner(spec, key), algo(), ("n_gen", limit), seed=case["seed"])
            plain = list(Inner.LOG[key])
        finally:
            del Inner.LOG[key]
        t.require(plain == log, "with epsilon zero from the beginning the run differs from the plain one", "zero")
        t.require((base.F is None) == (res.F is None) and (base.F is None or np.array_equal(base.F, res.F)), "with epsilon zero the result differs from the plain one", "zero")
