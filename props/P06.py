"""P06: evaluating a problem gives the user's function values, however the evaluation is organised."""
import concurrent.futures
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from pymoo.core.problem import Problem
from pymoo.core.variable import Real
from pymoo.parallelization import DaskParallelization, JoblibParallelization, StarmapParallelization
from pymoo.problems.functional import FunctionalProblem
from vp import gen
from vp.core import Prop
from vp.probs import ElemPoly, Poly, VecPoly, mk_X, poly_spec

P = Prop("P06", "at least two points and at least one constraint or two objectives",
         ["the user's function is deterministic", "parallel runners: starmap over threads and in order, joblib with threads, a dask-like client whose jobs finish out of order; process pools and Ray are not started"])


class Job:
    def __init__(self, client, f, x):
        self.client, self.f, self.x = client, f, x

    def result(self):
        self.client.run()
        return self.value


class Client:
    """dask-like client: runs every submitted job, in an arbitrary order, at the first result()"""

    def __init__(self, seed):
        self.jobs, self.r = [], np.random.default_rng(seed)

    def submit(self, f, x):
        self.jobs.append(Job(self, f, x))
        return self.jobs[-1]

    def run(self):
        for i in self.r.permutation(len(self.jobs)):
            self.jobs[i].value = self.jobs[i].f(self.jobs[i].x)
        self.jobs = []


def runner(kind, seed):
    if kind == "starmap":
        def starmap(f, args):
            with concurrent.futures.ThreadPoolExecutor(3) as ex:
                return ex.map(lambda a: f(*a), args)
        return StarmapParallelization(starmap)
    if kind == "joblib":
        return JoblibParallelization(n_jobs=2, backend="threading")
    if kind == "dask":
        return DaskParallelization(Client(seed))


SETUPS = ["vec-matrix", "vec-columns", "vec-flat", "elem-matrix", "elem-columns", "elem-flat", "starmap", "joblib", "dask", "functional"]


def build(kind, poly, seed, log=None, **kw):
    if kind == "functional":
        def one(f, i):
            return lambda x: f(x)[i]
        return FunctionalProblem(poly.n, [one(poly.F, i) for i in range(poly.m)], constr_ieq=[one(poly.G, i) for i in range(poly.g)],
                                 constr_eq=[one(poly.H, i) for i in range(poly.h)], xl=poly.xl.astype(float), xu=poly.xu.astype(float), **kw)
    if kind.startswith("vec"):
        return VecPoly(poly, kind.split("-")[1], log, **kw)
    if kind.startswith("elem"):
        return ElemPoly(poly, kind.split("-")[1], log, **kw)
    return ElemPoly(poly, "matrix", log, elementwise_runner=runner(kind, seed), **kw)


@P.check(st.fixed_dictionaries(dict(p=poly_spec(), kind=st.sampled_from(SETUPS), k=st.integers(1, 9), s=gen.SEED,
                                    sub=st.sampled_from([None, ["F"], ["G"], ["F", "G"], ["H", "F"], ["F", "G", "H"]]))),
         quick=500, thorough=10000, shards=(2, 8))
def values(case, t):
    """matrix and single-point evaluation, all output styles, runners and return_values_of"""
    poly = Poly(case["p"])
    X = mk_X(poly, case["k"], case["s"])
    F, G, H = poly.all(X)
    W = dict(F=F, G=G, H=H)
    prob = build(case["kind"], poly, case["s"])
    t.nontrivial(case["k"] > 1 and (poly.g + poly.h > 0 or poly.m > 1), case["kind"])
    X0 = X.copy()
    d = prob.evaluate(X, return_values_of=["F", "G", "H"], return_as_dictionary=True)
    for k in "FGH":
        t.close(d[k], W[k], f"{case['kind']}: {k} of a batch")
    t.require(np.array_equal(X, X0), "the input matrix was modified")
    want = ["F"] + (["G"] if poly.g else []) + (["H"] if poly.h else [])
    sub = case["sub"] or want
    r = prob.evaluate(X) if case["sub"] is None else prob.evaluate(X, return_values_of=list(sub))
    r = (r,) if len(sub) == 1 else r
    t.require(isinstance(r, tuple) and len(r) == len(sub), "number of returned values")
    for k, v in zip(sub, r):
        t.close(v, W[k], f"{case['kind']}: {k} returned for {case['sub']}")
        t.require(np.asarray(v).dtype == np.float64, "values are not float64")
    # a single point gives the row, and batches can be split
    i = case["s"] % len(X)
    r = prob.evaluate(X[i]) if case["sub"] is None else prob.evaluate(X[i], return_values_of=list(sub))
    for k, v in zip(sub, (r,) if len(sub) == 1 else r):
        t.close(v, W[k][i], f"{case['kind']}: {k} of a single point")
    j = i // 2
    if 0 < j < len(X):
        a, b = prob.evaluate(X[:j], return_values_of=["F"]), prob.evaluate(X[j:], return_values_of=["F"])
        t.close(np.vstack([a, b]), F, "F of a split batch")


@P.check(st.fixed_dictionaries(dict(p=poly_spec(), vec=st.booleans(), k=st.integers(1, 6), s=gen.SEED, req=st.booleans(), nan=st.sampled_from([None, 7.5, float("inf")]))),
         quick=200, thorough=3000)
def hooks(case, t):
    """extra outputs, keyword arguments, callbacks, NaN replacement, one call per point"""
    poly = Poly(case["p"])
    X = mk_X(poly, case["k"], case["s"])
    F, G, H = poly.all(X)
    log, seen = [], []
    cls = VecPoly if case["vec"] else ElemPoly

    class WithNaN(cls):
        def _evaluate(self, x, out, *args, **kwargs):
            super()._evaluate(x, out, *args, **kwargs)
            f = np.array(out["F"], dtype=float)
            x = np.asarray(x)
            f[np.broadcast_to((x[..., 0] > 0)[..., None], f.shape)] = np.nan
            out["F"] = f
            for key, sign in (("G", 1), ("H", -1)):  # other rows are undefined
                g = np.array(out[key], dtype=float)
                g[np.broadcast_to((x[..., -1] * sign > 0.5)[..., None], g.shape)] = np.nan
                out[key] = g

    prob = WithNaN(poly, "matrix", log, requires_kwargs=case["req"], replace_nan_values_by=case["nan"],
                   callback=lambda x, out: seen.append((np.array(x), dict(out))))
    d = prob.evaluate(X, return_values_of=["F", "G", "H"], return_as_dictionary=True, tag=3.0)
    bad = X[:, 0] > 0
    W = F.copy()
    W[bad] = np.nan if case["nan"] is None else case["nan"]
    G, H = G.copy(), H.copy()
    G[X[:, -1] > 0.5] = np.nan if case["nan"] is None else case["nan"]
    H[X[:, -1] < -0.5] = np.nan if case["nan"] is None else case["nan"]
    t.nontrivial(bad.any() and not bad.all())
    t.close(d["F"], W, "F with NaN replacement")
    t.close(d["G"], G, "G with NaN replacement")
    t.close(d["H"], H, "H with NaN replacement")
    t.require(("tag" in d) == case["req"], f"keyword arguments passed although requires_kwargs={case['req']}" if not case["req"] else "keyword argument lost")
    if case["req"]:
        t.close(d["tag"], np.full(len(X), 3.0), "an extra output of the user's function")
    t.require(len(seen) == 1, f"callback called {len(seen)} times")
    t.close(seen[0][0], X, "X given to the callback")
    t.close(seen[0][1]["F"], W, "F given to the callback")
    calls = np.vstack([np.atleast_2d(l) for l in log])
    t.equal(calls, X, "points on which the user's function was called")


class Partial(Problem):
    def __init__(self, wrong):
        super().__init__(n_var=2, n_obj=2, n_ieq_constr=1, xl=0.0, xu=1.0)
        self.wrong = wrong

    def _evaluate(self, X, out, *args, **kwargs):
        n = len(X)
        out["F"] = np.zeros((n, 3)) if self.wrong == "F" else np.ones((n, 2))
        if self.wrong != "noG":
            out["G"] = np.zeros((n, 2)) if self.wrong == "G" else np.ones((n, 1))


@P.check(st.fixed_dictionaries(dict(k=st.integers(1, 6), wrong=st.sampled_from(["F", "G", "noG", "dim"]), s=gen.SEED)), quick=40, thorough=400)
def shapes(case, t):
    """mis-shaped outputs and inputs are rejected; undefined constraints default to infinity (not feasible)"""
    t.nontrivial()
    X = gen.rng(case["s"]).random((case["k"], 2))
    p = Partial(case["wrong"])
    if case["wrong"] == "noG":
        G = p.evaluate(X, return_values_of=["G"])
        t.require(G.shape == (case["k"], 1) and np.all(np.isinf(G)), "missing constraint values are not inf")
    elif case["wrong"] == "dim":
        t.raises(lambda: Partial("").evaluate(np.ones((case["k"], 3))), "a point of the wrong dimension was evaluated")
    else:
        t.raises(lambda: p.evaluate(X), f"{case['wrong']} of the wrong shape was accepted")


@P.check(st.fixed_dictionaries(dict(p=poly_spec(), kind=st.sampled_from([k for k in SETUPS if k != "functional"]), k=st.integers(1, 5), s=gen.SEED)), quick=60, thorough=1000)
def copies(case, t):
    """a deep-copied or pickled (where the runner is not tied to a pool) problem evaluates identically; bounds are independent arrays"""
    poly = Poly(case["p"])
    prob = build(case["kind"], poly, case["s"])
    X = mk_X(poly, case["k"], case["s"])
    t.nontrivial(case["k"] > 1)
    F = poly.all(X)[0]
    cl = [copy.deepcopy, lambda o: pickle.loads(pickle.dumps(o))] if case["kind"] not in ("starmap", "dask") else []
    for f in cl:
        q = f(prob)
        t.close(q.evaluate(X, return_values_of=["F"]), F, "F of a copied problem")
        t.equal(q.bounds()[0], poly.xl, "bounds of a copied problem")
    xl = poly.xl.astype(float)
    q = Problem(n_var=poly.n, n_obj=1, xl=xl, xu=5.0)
    xl[:] = 99
    t.equal(q.xl, poly.xl, "the caller's bounds array is shared with the problem")
    t.equal(q.xu, np.full(poly.n, 5.0), "scalar bound")
    t.require(q.has_bounds() and not Problem(n_var=2, n_obj=1).has_bounds(), "has_bounds")
    t.require(prob.has_constraints() == (poly.g + poly.h > 0) and prob.n_constr == poly.g + poly.h, "has_constraints")


class Mixed(Problem):
    """values of dictionaries; counts what it was asked for"""

    def __init__(self, names, m, g, elementwise):
        super().__init__(vars={k: Real(bounds=(-5.0, 5.0)) for k in names}, n_obj=m, n_ieq_constr=g, elementwise=elementwise)
        self.names, self.calls = names, []

    def one(self, x):
        v = np.array([x[k] for k in self.names])
        return [float((v * (i + 1)).sum() + i) for i in range(self.n_obj)], [float(v[0] - i) for i in range(self.n_ieq_constr)]

    def _evaluate(self, x, out, *args, **kwargs):
        if self.elementwise:
            self.calls.append(x)
            out["F"], out["G"] = self.one(x)
        else:
            self.calls.extend(x)
            r = [self.one(e) for e in x]
            out["F"], out["G"] = np.array([f for f, _ in r]), np.array([g for _, g in r]).reshape(len(r), self.n_ieq_constr)


@P.check(st.fixed_dictionaries(dict(k=st.integers(1, 5), n=st.integers(1, 4), m=st.integers(1, 3), g=st.integers(0, 2), el=st.booleans(), how=st.sampled_from(["one", "list", "array", "each"]), s=gen.SEED)), quick=100, thorough=1000)
def mixed(case, t):
    """solutions given as dictionaries: one alone, a list or an array of them - the same values, one call per solution"""
    r = gen.rng(case["s"])
    names = ["x", "alpha", "b", "long name"][:case["n"]]
    prob = Mixed(names, case["m"], case["g"], case["el"])
    X = [{k: float(v) for k, v in zip(names, r.integers(-5, 6, case["n"]))} for _ in range(case["k"])]
    want = [prob.one(x) for x in X]
    t.nontrivial(case["k"] > 1 and (case["m"] > 1 or case["g"] > 0))
    how = case["how"]
    if how in ("one", "each"):
        outs = [prob.evaluate(x, return_as_dictionary=True) for x in (X[:1] if how == "one" else X)]
        F, G = [o["F"] for o in outs], [o.get("G") for o in outs]
        n = len(outs)
        t.require(all(np.shape(f) == (case["m"],) for f in F), f"values of shape {np.shape(F[0])} for one solution")
    else:
        out = prob.evaluate(X if how == "list" else np.array(X, dtype=object), return_as_dictionary=True)
        F, G, n = out["F"], out.get("G", [None] * len(X)), len(X)
        t.require(np.shape(F) == (n, case["m"]), f"values of shape {np.shape(F)} for {n} solutions")
    for i in range(n):
        t.equal(F[i], want[i][0], "objectives of a solution given as dictionary")
        if case["g"]:
            t.equal(G[i], want[i][1], "constraints of a solution given as dictionary")
    t.require([id(x) for x in prob.calls] == [id(x) for x in X[:n]], f"{len(prob.calls)} solutions evaluated, {n} given")
