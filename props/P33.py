"""P33: gradients are the derivatives of the values, and the measure built on them is what it is defined to be."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import nnls

import pymoo.gradient
import pymoo.gradient.toolbox as anp
from pymoo.constraints.from_bounds import ConstraintsFromBounds
from pymoo.core.evaluator import Evaluator
from pymoo.core.population import Population
from pymoo.core.problem import Problem
from pymoo.gradient.automatic import AutomaticDifferentiation, ElementwiseAutomaticDifferentiation
from pymoo.gradient.grad_complex import ComplexNumberGradient
from pymoo.indicators.kktpm import KKTPM
from pymoo.problems import get_problem
from vp import gen
from vp.core import Prop

P = Prop("P33", "several variables, and more than one output or a constraint", ["functions are differentiable at the generated points and written with pymoo.gradient.toolbox"])

# value and derivative of the building blocks
PHI = {
    "lin": (lambda u: u, lambda u: np.ones_like(u)),
    "sq": (lambda u: u ** 2, lambda u: 2 * u),
    "cube": (lambda u: u * u * u, lambda u: 3 * u ** 2),
    "sin": (lambda u: anp.sin(u), lambda u: np.cos(u)),
    "cos": (lambda u: anp.cos(u), lambda u: -np.sin(u)),
    "exp": (lambda u: anp.exp(0.3 * u), lambda u: 0.3 * np.exp(0.3 * u)),
    "sqrt": (lambda u: anp.sqrt(1 + u ** 2), lambda u: u / np.sqrt(1 + u ** 2)),
    "inv": (lambda u: 1 / (2 + u ** 2), lambda u: -2 * u / (2 + u ** 2) ** 2),
    "log": (lambda u: anp.log(2 + u ** 2), lambda u: 2 * u / (2 + u ** 2)),
    "pow": (lambda u: anp.power(1 + u ** 2, 1.5), lambda u: 3 * u * np.sqrt(1 + u ** 2)),
}


class Smooth(Problem):
    """each output is a sum of terms c * phi(a @ x + b), or constant"""

    def __init__(self, spec):
        r = gen.rng(spec["seed"])
        self.spec, n = spec, spec["n"]
        k = spec["m"] + spec["g"] + spec["h"]
        names = sorted(PHI)
        self.terms = [[(names[r.integers(len(names))], np.round(r.normal(0, 1, n) * (r.random(n) < 0.8), 2), float(np.round(r.normal(), 2)), float(np.round(r.normal(), 2))) for _ in range(r.integers(1, 4))] for _ in range(k)]
        if spec["const"]:
            self.terms[-1] = []
        super().__init__(n_var=n, n_obj=spec["m"], n_ieq_constr=spec["g"], n_eq_constr=spec["h"], xl=-2.0, xu=2.0, elementwise=spec["ew"])

    def _evaluate(self, x, out, *args, **kwargs):
        if self.spec.get("fail"):
            raise ValueError("evaluation failed")
        zero = 0.0 if self.spec["ew"] else np.zeros(x.shape[0])
        vals = [sum((c * PHI[p][0](x @ a + b) for p, a, b, c in T), zero + 0.5 if T else zero + 1.5) for T in self.terms]
        form = {"list": lambda v: v, "array": lambda v: anp.array(v) if self.spec["ew"] else anp.column_stack(v), "col": lambda v: anp.column_stack(v), "stack": lambda v: anp.stack(v) if self.spec["ew"] else anp.stack(v, axis=1)}[self.spec["form"]]
        at = 0
        for name, k in (("F", self.spec["m"]), ("G", self.spec["g"]), ("H", self.spec["h"])):
            if k:
                v = vals[at:at + k]
                out[name] = v[0] if k == 1 and self.spec["flat"] else form(v)
                at += k

    def truth(self, X):
        vals = np.array([[sum(c * float(PHI[p][0](np.asarray(x @ a + b))) for p, a, b, c in T) + (0.5 if T else 1.5) for T in self.terms] for x in X])
        grad = np.array([[sum((c * PHI[p][1](np.asarray(x @ a + b)) * a for p, a, b, c in T), np.zeros(len(x))) for T in self.terms] for x in X])
        out, at = {}, 0
        for name, k in (("F", self.spec["m"]), ("G", self.spec["g"]), ("H", self.spec["h"])):
            if k:
                out[name], out["d" + name] = vals[:, at:at + k], grad[:, at:at + k]
                at += k
        return out


SPEC = dict(n=st.integers(1, 5), m=st.integers(1, 3), g=st.integers(0, 3), h=st.integers(0, 2), seed=gen.SEED, ew=st.booleans(), form=st.sampled_from(["list", "array", "col", "stack"]), flat=st.booleans(), const=st.sampled_from([False, False, False, True]))


def numpy_again(t):
    t.equal(pymoo.gradient.active_backend, "numpy", "backend after the evaluation")


def compare(t, got, want, what):
    t.require(got.shape == want.shape, lambda: f"{what}: shape {got.shape} instead of {want.shape}", "shape")
    t.close(got, want, what, rtol=1e-7, atol=1e-9)


@P.check(st.fixed_dictionaries(dict(SPEC, k=st.integers(1, 4), how=st.sampled_from(["autograd", "autograd", "autograd", "complex", "complex", "jax"]), wrap=st.sampled_from(["vectorized", "elementwise"]), via=st.sampled_from(["dict", "values", "pop", "single"]),
                                    bounds=st.booleans(), fail=st.booleans())), quick=1000, thorough=30000, shards=(8, 8))
def wrapped(case, t):
    """automatic, complex-step and finite differences on generated problems of every shape"""
    p = Smooth(dict(case, fail=False))
    X = np.round(gen.rng(case["seed"] + 1).uniform(-2, 2, (case["k"], case["n"])), 3)
    want = p.truth(X)
    keep = X.copy()
    t.nontrivial(case["n"] > 1 and case["m"] + case["g"] + case["h"] > 1)

    def make(p):
        if case["how"] == "complex":
            return ComplexNumberGradient(p)
        if case["wrap"] == "elementwise" and case["ew"]:
            return ElementwiseAutomaticDifferentiation(p, backend=case["how"])
        return AutomaticDifferentiation(p, backend=case["how"])
    q = make(p)
    keys = [k for k in ("F", "G", "H") if k in want]
    if case["bounds"]:
        # the derivatives of the bounds are known
        q = ConstraintsFromBounds(q)
        n = case["n"]
        G, dG = np.column_stack([-2 - X, X - 2]), np.repeat(np.vstack([-np.eye(n), np.eye(n)])[None], len(X), axis=0)
        want["G"] = np.column_stack([want["G"], G]) if "G" in want else G
        want["dG"] = np.concatenate([want["dG"], dG], axis=1) if "dG" in want else dG
        keys = [k for k in ("F", "G", "H") if k in want]
    names = keys + ["d" + k for k in keys]
    t.require(q.n_var == p.n_var and q.n_obj == p.n_obj and q.n_eq_constr == p.n_eq_constr, "definition")
    if case["via"] == "values":
        out = dict(zip(names, q.evaluate(X, return_values_of=names)))
    elif case["via"] == "pop":
        pop = Evaluator(evaluate_values_of=names).eval(q, Population.new("X", X))
        out = {k: np.array([ind.get(k) for ind in pop], dtype=float) for k in names}
    elif case["via"] == "single":
        rows = [q.evaluate(x, return_values_of=names, return_as_dictionary=True) for x in X]
        out = {k: np.array([r[k] for r in rows]) for k in names}
    else:
        out = q.evaluate(X, return_values_of=names, return_as_dictionary=True)
    numpy_again(t)
    for k in names:
        compare(t, np.asarray(out[k], dtype=float), want[k], k)
    t.require(np.array_equal(X, keep), "the points were modified", "input")
    # without gradients the same values
    compare(t, np.asarray(q.evaluate(X, return_values_of=["F"]), dtype=float), want["F"], "values only")
    if case["fail"] and case["how"] != "complex":
        try:
            make(Smooth(dict(case, fail=True))).evaluate(X, return_values_of=["F", "dF"])
        except ValueError:
            pass
        numpy_again(t)
        compare(t, p.evaluate(X, return_values_of=["F"]).reshape(len(X), -1), want["F"], "values after a failed evaluation")


# problems of the library which are written with the toolbox: (name, arguments)
LIB = [(n, ()) for n in ["bnh", "carside", "kursawe", "osy", "srn", "tnk", "truss2d", "welded_beam", "cantilevered_beam", "griewank", "himmelblau", "pressure_vessel"] + [f"ctp{i}" for i in range(1, 9)] + ["g%d" % i for i in range(1, 25)]]
LIB += [(n, (k,)) for n in ["ackley", "griewank", "rastrigin", "rosenbrock", "schwefel", "sphere", "zakharov", "zdt1", "zdt2", "zdt3", "zdt4", "zdt6"] for k in (2, 5) if n != "griewank"]
LIB += [(n, (k, m)) for n in ["dtlz1", "dtlz2", "dtlz3", "dtlz4", "dtlz5", "dtlz6", "dtlz7", "c1dtlz1", "c1dtlz3", "c2dtlz2", "c3dtlz1", "c3dtlz4", "dc1dtlz1", "dc1dtlz3", "dc2dtlz1", "dc2dtlz3", "dc3dtlz1", "dc3dtlz3", "dtlz1^-1", "convex_dtlz2", "convex_dtlz4"] for k, m in ((5, 2), (6, 3), (7, 4))]
NOT_ANALYTIC = {"kursawe", "schwefel", "g2", "ackley", "griewank"} | {f"ctp{i}" for i in range(1, 9)}


def numeric(f, x, h):
    """central differences of all outputs; not a number where two step sizes disagree"""
    n = len(x)
    cols, ok = [], []
    for i in range(n):
        e = np.zeros(n)
        e[i] = h[i]
        d = [(f(x + s * e) - f(x - s * e)) / (2 * s * h[i]) for s in (1.0, 0.5)]
        cols.append((4 * d[1] - d[0]) / 3)
        ok.append(np.abs(d[0] - d[1]) <= 1e-3 * np.maximum(1e-3, np.abs(d[1])) + 1e-6 * np.abs(f(x)))
    return np.array(cols).T, np.array(ok).T


@P.check(st.fixed_dictionaries(dict(which=st.integers(0, len(LIB) - 1), seed=gen.SEED, how=st.sampled_from(["autograd", "autograd", "autograd", "complex", "jax"]), k=st.integers(1, 3))), quick=400, thorough=20000, shards=(8, 8))
def library(case, t):
    """gradients of the benchmark problems against central differences"""
    name, args = LIB[case["which"]]
    p = get_problem(name, *args)
    r = gen.rng(case["seed"])
    u = r.uniform(0.02, 0.98, (case["k"], p.n_var))
    X = p.xl + u * (p.xu - p.xl)
    how = case["how"]
    if how == "complex" and name in NOT_ANALYTIC:
        how = "autograd"
    keys = ["F"] + (["G"] if p.n_ieq_constr else []) + (["H"] if p.n_eq_constr else [])
    q = ComplexNumberGradient(p) if how == "complex" else AutomaticDifferentiation(p, backend=how)
    names = keys + ["d" + k for k in keys]
    out = q.evaluate(X, return_values_of=names, return_as_dictionary=True)
    numpy_again(t)
    t.nontrivial(True)
    plain = p.evaluate(X, return_values_of=keys, return_as_dictionary=True)
    h = 1e-4 * (p.xu - p.xl)
    for k in keys:
        t.close(np.asarray(out[k], dtype=float), plain[k], f"{name}: {k} with gradients", rtol=1e-7, atol=1e-9)
        got = np.asarray(out["d" + k], dtype=float)
        t.require(got.shape == plain[k].shape + (p.n_var,), lambda: f"{name}: shape {got.shape} of d{k}", "shape")
        for i, x in enumerate(X):
            f = lambda z: p.evaluate(z, return_values_of=[k]).ravel()
            num, ok = numeric(f, x, h)
            scale = np.abs(plain[k][i])[:, None] / (p.xu - p.xl)[None]
            bad = ok & (np.abs(num - got[i]) > 1e-2 * np.abs(num) + 1e-4 * scale + 1e-6)
            t.require(not bad.any(), lambda: f"{name}: d{k} is {got[i][bad][0]}, by differences {num[bad][0]} (output and variable {np.argwhere(bad)[0].tolist()}) at {x.tolist()}", "gradient")


@P.check(st.fixed_dictionaries(dict(SPEC, k=st.integers(1, 4), ideal=st.sampled_from(["given", "given", "problem"]), eps=st.sampled_from([1e-4, 1e-2, 1.0]), rho=st.sampled_from([1e-3, 0.0, 0.1]), shift=st.sampled_from([0.0, 0.0, 3.0, 10.0]))), quick=800, thorough=30000, shards=(4, 8))
def kktpm(case, t):
    """the minimum over the multipliers of the violation of the optimality conditions"""
    spec = dict(case, h=0, m=max(2, case["m"]), ew=False, const=False)
    p = Smooth(spec)
    if case["shift"]:
        # mostly feasible points, some of them on a constraint
        for T in p.terms[spec["m"]:]:
            T.append(("lin", np.zeros(spec["n"]), 1.0, -case["shift"]))
    X = np.round(gen.rng(case["seed"] + 1).uniform(-2, 2, (case["k"], case["n"])), 3)
    W = p.truth(X)
    ideal = W["F"].min(axis=0) - 0.5
    if case["ideal"] == "problem":
        p.ideal_point = lambda *a, **k: ideal
    q = AutomaticDifferentiation(p)
    keep = ideal.copy()
    call = lambda X: KKTPM().calc(X, q, ideal=ideal if case["ideal"] == "given" else None, utopian_eps=case["eps"], rho=case["rho"])
    got = call(X)
    t.require(np.array_equal(ideal, keep), "the ideal point was modified", "input")
    t.require(got.shape == (len(X),), "shape")
    t.close(call(X), got, "the second call differs")
    t.close([float(call(x[None])[0]) for x in X], got, "a point on its own", rtol=1e-9, atol=1e-12)
    z = ideal - case["eps"]
    exact = 0
    for i in range(len(X)):
        f, df = W["F"][i], W["dF"][i]
        g, dg = (W["G"][i], W["dG"][i]) if spec["g"] else (np.zeros(0), np.zeros((0, spec["n"])))
        cv = float(np.sum(np.maximum(g, 0)))
        if cv > 0:
            t.close(got[i], 1 + cv, "an infeasible point", rtol=1e-9)
            continue
        w = np.linalg.norm(f - z) / (f - z)
        am = df * w[:, None] + case["rho"] * np.sum(df * w[:, None], axis=0)[None]
        m, k = len(f), len(g)
        # || M u - b ||^2 with multipliers u >= 0
        M = np.vstack([np.hstack([np.ones((1, m)), np.zeros((1, k))]), np.vstack([am, dg]).T, np.hstack([np.zeros((k, m)), np.diag(g)])])
        b = np.zeros(len(M))
        b[0] = 1.0
        if np.linalg.cond(M.T @ M) > 1e10:
            continue
        u, res = nnls(M, b)
        free = np.linalg.lstsq(M, b, rcond=None)[0]
        t.require(got[i] >= -1e-9, lambda: f"negative measure {got[i]}", "negative")
        if (free < -1e-7).any() or (np.abs(free) < 1e-7).any():
            # the multipliers are found by a heuristic
            continue
        exact += 1
        d = u @ np.concatenate([np.zeros(m), -g])
        stat = (1 - u[:m].sum()) ** 2 + float(np.sum((np.vstack([am, dg]).T @ u) ** 2))
        crit = u[:m].sum() + d * (1 + d) - 1
        if abs(crit) < 1e-9:
            continue
        want = stat if crit <= 0 else (stat + d + (stat * (g @ g) + d) / (1 + g @ g)) / 3
        t.close(got[i], want, f"measure of point {i} with {k} constraints", rtol=1e-5, atol=1e-7)
    t.nontrivial(exact > 0)
