"""P34: the benchmark problems compute their published definitions, point by point, and know their optimum."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from pymoo.problems import get_problem
from pymoo.problems.multi.csi import CSI
from pymoo.problems.multi.clutch import Clutch
from pymoo.problems.multi.omnitest import OmniTest
from pymoo.problems.multi.sympart import SYMPART, SYMPARTRotated
from pymoo.problems.multi.wrm import WRM
from pymoo.problems.single.flowshop_scheduling import FlowshopScheduling, create_random_flowshop_problem
from pymoo.problems.single.knapsack import Knapsack, MultiObjectiveKnapsack, create_random_knapsack_problem
from pymoo.problems.single.multimodal import MultiModalSimple1, MultiModalSimple2
from pymoo.problems.single.simple import SimpleMultiModal01
from pymoo.problems.single.traveling_salesman import TravelingSalesman, create_random_tsp_problem
from vp import bench, gen
from vp.core import Prop

P = Prop("P34", "several points with differing values", ["points lie within the bounds of the problem"])

DIRECT = {"csi": CSI, "clutch": Clutch, "omnitest": OmniTest, "sympart": SYMPART, "sympart_rotated": SYMPARTRotated, "wrm": WRM,
          "mm1": MultiModalSimple1, "mm2": MultiModalSimple2, "simple01": SimpleMultiModal01}

nv = lambda lo, hi: st.integers(lo, hi)
D = st.fixed_dictionaries


def dtlz_params(lo=2, **extra):
    return D(dict(n_obj=st.integers(lo, 5), k=st.integers(1, 8), **extra)).map(lambda d: dict({a: b for a, b in d.items() if a != "k"}, n_var=d["n_obj"] - 1 + d["k"]))


def wfg_params(even):
    def mk(d):
        M, k, l = d["m"], d["k"], d["l"]
        k = (M - 1) * max(k, -(-4 // (M - 1)))
        l = 2 * l if even else l
        return dict(n_obj=M, k=k, n_var=k + l)
    return D(dict(m=st.integers(2, 4), k=st.integers(1, 4), l=st.integers(1, 6))).map(mk)


NONE = st.just({})
PARAMS = {"ackley": D(dict(n_var=nv(1, 10), a=st.sampled_from([20, 5.0]), b=st.sampled_from([0.2, 1.0]), c=st.sampled_from([2 * np.pi, 3.0]))),
          "griewank": D(dict(n_var=nv(1, 10))), "rastrigin": D(dict(n_var=nv(1, 10), A=st.sampled_from([10.0, 3.0]))),
          "rosenbrock": D(dict(n_var=nv(2, 10))), "schwefel": D(dict(n_var=nv(1, 10))), "sphere": D(dict(n_var=nv(1, 12))),
          "zakharov": D(dict(n_var=nv(1, 10))), "g2": D(dict(n_var=nv(1, 20))), "g3": D(dict(n_var=nv(1, 10))),
          "omnitest": D(dict(n_var=nv(2, 5))),
          "sympart": D(dict(length=st.sampled_from([1, 2.5]), v_dist=st.sampled_from([10, 4.0]), h_dist=st.sampled_from([10.5, 15]) )),
          "sympart_rotated": D(dict(length=st.sampled_from([1, 2.5]), v_dist=st.sampled_from([10, 4.0]), h_dist=st.sampled_from([10.5, 15]) , angle=st.sampled_from([np.pi / 4, -0.3, 1.0]))),
          "zdt5": D(dict(m=nv(2, 12), n=nv(2, 7), normalize=st.booleans())),
          "ctp1": D(dict(n_var=nv(2, 6), n_ieq_constr=nv(1, 4), option=st.sampled_from(["linear", "multimodal"]))),
          "c1dtlz3": dtlz_params(r=st.sampled_from([None, None, 6.0])), "c2dtlz2": dtlz_params(r=st.sampled_from([None, None, 0.3])),
          "dtlz4": dtlz_params(alpha=st.sampled_from([100, 1, 10])), "sdtlz1": dtlz_params(scale_factor=st.sampled_from([10, 2.0, 0.5]))}
for _k in (1, 2, 3, 4, 6):
    PARAMS["zdt%d" % _k] = D(dict(n_var=nv(2, 31)))
for _k in range(2, 9):
    PARAMS["ctp%d" % _k] = D(dict(n_var=nv(2, 6), option=st.sampled_from(["linear", "multimodal"])))
for _n in bench.DTLZ:
    PARAMS.setdefault(_n, dtlz_params())
for _k in range(1, 10):
    PARAMS["dascmop%d" % _k] = D(dict(difficulty=st.one_of(st.integers(1, 16), st.tuples(*[st.sampled_from([0.0, 0.1, 0.5, 1.0])] * 3))))
    PARAMS["wfg%d" % _k] = wfg_params(_k in (2, 3))
for _k in range(1, 15):
    PARAMS["mw%d" % _k] = D(dict(n_obj=st.integers(2, 5), n=st.integers(1, 12))).map(lambda d: dict(n_obj=d["n_obj"], n_var=d["n_obj"] + d["n"])) if _k in (4, 8, 14) else D(dict(n_var=nv(3, 16)))
    PARAMS["df%d" % _k] = D(dict(n_var=nv(3, 11), tau=st.integers(0, 200), nt=st.sampled_from([1, 2, 5, 7, 10]), taut=st.sampled_from([1, 3, 10, 20])))
ZCAT = ["zcat%d" % i for i in range(1, 21)]
for _n in ZCAT:
    PARAMS[_n] = D(dict(n_obj=st.integers(2, 5), k=st.integers(1, 8), complicated_pareto_set=st.booleans(), bias=st.booleans(), imbalance=st.booleans(), level=st.integers(1, 6))).map(lambda d: dict({a: b for a, b in d.items() if a != "k"}, n_var=d["n_obj"] - 1 + d["k"]))
NAMES = sorted(bench.REF)


def make(name, kw):
    kw = dict(kw)
    if name.startswith("dascmop"):
        d = kw["difficulty"]
        return get_problem(name, d if isinstance(d, int) else tuple(d))
    if name in DIRECT:
        return DIRECT[name](**kw)
    if kw.get("r", 0) is None:
        del kw["r"]
    return get_problem(name, **kw)


def params(p, name, kw):
    """what the reference formula gets to know"""
    out = dict(kw)
    out["scaled"] = name == "carside"
    if name.startswith("df"):
        out["time"] = (kw["tau"] // kw["taut"]) / kw["nt"]
    return out


def points(p, seed, n, mode):
    """points within the bounds; some coordinates on the bounds, in the middle, or at values with a meaning"""
    r = gen.rng(seed)
    U = r.random((n, p.n_var))
    if mode != "uniform":
        special = np.array([0.0, 1.0, 0.5, 0.35, 0.25, 0.75, 1 / 3])
        M = r.random(U.shape) < {"mixed": 0.3, "corner": 0.9}.get(mode, 0.3)
        U = np.where(M, special[r.integers(0, 2 if mode == "corner" else len(special), U.shape)], U)
    if mode == "opt":
        # the distance variables at their usual optimum, so that positions decide
        U[:, (p.n_obj if p.n_obj > 1 else 2) - 1:] = r.choice([0.0, 0.5, 0.35] if type(p).__mro__[1].__name__ != "ZCAT" else [0.221, 0.221, 0.5], n)[:, None]
    X = p.xl + U * (np.asarray(p.xu, float) - p.xl)
    X = np.minimum(np.maximum(X, p.xl), p.xu)
    if p.vtype is int:
        X = np.rint(X).astype(int)
    elif p.vtype is bool or type(p).__name__ == "ZDT5":
        X = U < r.choice([0.1, 0.5, 0.9, 1.1], (n, 1))
        X = X if seed % 2 else X.astype(float)
    elif mode == "round":
        X = np.minimum(np.maximum(np.round(X, 1), p.xl), p.xu)
    return X


def ask(p, X):
    """values by name, with no columns where there are no constraints"""
    with np.errstate(all="ignore"):
        out = p.evaluate(X, return_as_dictionary=True)
    return {k: np.asarray(out.get(k, np.zeros(X.shape[:-1] + (0,))), float) for k in "FGH"}


def cases(names, **kw):
    return st.sampled_from(names).flatmap(lambda n: D(dict(name=st.just(n), kw=PARAMS.get(n, NONE), seed=st.integers(0, 10**6), n=st.integers(1, 6), mode=st.sampled_from(["uniform", "mixed", "mixed", "corner", "opt", "round"]), **kw)))


def table(ref, X, prm):
    """values of the reference and how far they move for a tiny change of the point"""
    def one(x):
        try:
            F, G, H = ref(x, prm)
        except (ZeroDivisionError, OverflowError, ValueError):
            return None
        v = list(F) + list(G) + list(H)
        if any(isinstance(a, complex) for a in v):
            return None
        return np.array(v, float), (len(F), len(G), len(H))
    rows, tol, dims = [], [], None
    for x in X:
        x = [v.item() for v in x]
        v = one(x)
        if v is None:
            rows.append(None)
            tol.append(None)
            continue
        v, dims = v
        e = np.zeros_like(v)
        if isinstance(x[0], float):
            for s in (1e-12, -1e-12):
                w = one([a * (1 + s) + (1e-12 if a == 0 else 0) for a in x])
                with np.errstate(invalid="ignore"):
                    e = np.fmax(e, np.abs(w[0] - v)) if w is not None else e + np.inf
        rows.append(v)
        tol.append(1e-9 * np.fmax(1, np.abs(v)) + 10 * e)
    return rows, tol, dims


@P.check(cases(NAMES), quick=6000, thorough=200000, shards=(4, 8))
def formula(case, t):
    """objective and constraint values are those of the published definition"""
    name, kw = case["name"], case["kw"]
    p = make(name, kw)
    X = points(p, case["seed"], case["n"], case["mode"])
    prm = params(p, name, kw)
    if name.startswith("df"):
        # values jump where a rounded number reaches an integer
        s, z = np.sin(np.pi * prm["time"] / 2), np.sin(np.pi * prm["time"])
        for v, on in ((10 * s, (5, 9)), (6 * s, (13,)), ((p.n_var - 1) * abs(s), (2,))):
            if int(name[2:]) in on and abs(v - round(v)) < 1e-9:
                return
        if name == "df12":
            k = 10 * z
            for c in (0, 1):
                v = k * (2 * X[:, c] - 1)
                if (np.abs(v - np.rint(v)) < 1e-9).any():
                    return
    rows, tol, dims = table(bench.REF[name], X, prm)
    if dims is None:
        return
    t.require((p.n_obj, p.n_ieq_constr, p.n_eq_constr) == dims, lambda: f"{name}{kw}: declares {p.n_obj} objectives, {p.n_ieq_constr} + {p.n_eq_constr} constraints, defined with {dims}", "dims")
    with np.errstate(all="ignore"):
        out = p.evaluate(X, return_as_dictionary=True)
    got = np.column_stack([np.asarray(out[k], float) for k in ("F", "G", "H") if k in out and np.size(out[k])])
    t.require(got.shape == (len(X), sum(dims)), lambda: f"{name}{kw}: {got.shape} values for {len(X)} points, {dims} expected", "shape")
    seen = []
    for i, (v, e) in enumerate(zip(rows, tol)):
        if v is None:
            continue
        seen.append(tuple(np.round(v[:2], 6)))
        with np.errstate(invalid="ignore"):
            bad = ~((np.abs(got[i] - v) <= e) | (got[i] == v) | np.isnan(v) | np.isinf(e))
        t.require(not bad.any(), lambda: f"{name}{kw}: value {np.flatnonzero(bad).tolist()} at {X[i].tolist()} is {got[i][bad].tolist()}, by definition {v[bad].tolist()}", f"formula {name}")
    t.nontrivial(len(set(seen)) > 1, name)


ALL = NAMES


@P.check(cases(ALL, copy=st.sampled_from(["same", "deepcopy", "pickle", "fresh"])), quick=4000, thorough=80000, shards=(4, 8))
def pointwise(case, t):
    """values depend on the point only: not on the other points, their order, earlier calls, or which copy is asked"""
    name, kw = case["name"], case["kw"]
    p = make(name, kw)
    X = points(p, case["seed"], case["n"], case["mode"])
    keep = X.copy()
    
    with np.errstate(all="ignore"):
        A = ask(p, X)
        t.require(np.array_equal(X, keep), lambda: f"{name}{kw}: the given points were modified", "input")
        for k, c in (("F", p.n_obj), ("G", p.n_ieq_constr), ("H", p.n_eq_constr)):
            t.require(A[k].shape == (len(X), c), lambda: f"{name}{kw}: {k} has shape {A[k].shape}", "shape")
        if name == "g20" and (not X[:, :12].any(axis=1).all() or not X[:, 12:].any(axis=1).all()):
            return  # not defined
        if name.startswith("ctp") and (X[:, 0] == 0).any():
            return  # 0 / 0 in the definition
        t.require(not np.isnan(A["F"]).any() and not any(np.isnan(A[k]).any() for k in ("G", "H")), lambda: f"{name}{kw}: not a number at {X[np.isnan(np.hstack([A[k] for k in 'FGH'])).any(axis=1)][:1].tolist()}", f"nan {name}")
        q = {"same": lambda: p, "deepcopy": lambda: copy.deepcopy(p), "pickle": lambda: pickle.loads(pickle.dumps(p)), "fresh": lambda: make(name, kw)}[case["copy"]]()
        perm = gen.rng(case["seed"] + 1).permutation(len(X))
        B = ask(q, X[perm])
        C = [ask(q, x[None, :]) for x in X]
        E = ask(q, X[0])
    for k in ("F", "G", "H"):
        near = lambda a, b: np.allclose(a, b, rtol=1e-9, atol=1e-9 * max(1.0, float(np.nanmax(np.abs(A[k][np.isfinite(A[k])]), initial=0))), equal_nan=True)
        t.require(near(B[k], A[k][perm]), lambda: f"{name}{kw}: {k} in another order ({case['copy']}): {B[k].tolist()} vs {A[k][perm].tolist()}", "order")
        t.require(near(np.vstack([c[k] for c in C]), A[k]), lambda: f"{name}{kw}: {k} one at a time {[c[k].tolist() for c in C]} vs {A[k].tolist()}", "alone")
        t.require(near(np.atleast_1d(E[k]).ravel(), A[k][0]), lambda: f"{name}{kw}: {k} of a single vector: {E[k]} vs {A[k][0]}", "vector")
    t.nontrivial(len(np.unique(np.round(A["F"], 9), axis=0)) > 1, name)


# ---------------------------------------------------------------------------------------------------- combinatorial problems

class Runner:
    """evaluates one by one, and counts"""
    calls = 0

    def __call__(self, f, X):
        self.calls += len(X)
        return [f(x) for x in X]


@P.check(D(dict(kind=st.sampled_from(["knapsack", "knapsack2", "tsp", "flowshop"]), seed=st.integers(0, 10**6), n=st.integers(2, 12), m=st.integers(1, 5), k=st.integers(1, 5), rnd=st.booleans())), quick=2000, thorough=40000, shards=(2, 4))
def combinatorial(case, t):
    """knapsack value and weight, length of a tour, completion time of a schedule"""
    r, n, k = gen.rng(case["seed"]), case["n"], case["k"]
    kind = case["kind"]
    opt = {"elementwise_runner": Runner()} if k % 2 else {}
    if kind.startswith("knapsack"):
        if case["rnd"]:
            variant = "single" if kind == "knapsack" else "multi"
            p = create_random_knapsack_problem(n, variant=variant, seed=case["seed"] % 1000)
            q = create_random_knapsack_problem(n, variant=variant, seed=case["seed"] % 1000)
            t.require(np.array_equal(p.W, q.W) and np.array_equal(p.P, q.P) and p.C == q.C, "the same seed gives another problem", "seed")
            t.require(p.C == sum(p.W.tolist()) // 10, "capacity")
        else:
            p = (Knapsack if kind == "knapsack" else MultiObjectiveKnapsack)(n, r.integers(1, 50, n), r.integers(1, 50, n), int(r.integers(1, 200)))
        X = r.random((k, n)) < r.choice([0.2, 0.5, 0.9])
        want = {"F": [[-sum(v for v, x in zip(p.P.tolist(), row) if x)] + ([int(sum(row))] if kind == "knapsack2" else []) for row in X.tolist()],
                "G": [[sum(w for w, x in zip(p.W.tolist(), row) if x) - p.C] for row in X.tolist()]}
        t.require(p.vtype is bool and p.n_var == n, "type of the variables")
    elif kind == "tsp":
        p = create_random_tsp_problem(n, 100.0, 50.0, seed=case["seed"] % 1000, **opt) if case["rnd"] else TravelingSalesman(np.round(r.random((n, 2)) * 10, 2), **opt)
        c = p.cities
        X = np.array([r.permutation(n) for _ in range(k)])
        want = {"F": [[sum(float(np.hypot(*(c[a] - c[b]))) for a, b in zip(row, np.roll(row, -1)))] for row in X]}
    else:
        p = create_random_flowshop_problem(case["m"], n, seed=case["seed"] % 1000, **opt) if case["rnd"] else FlowshopScheduling(np.round(r.random((case["m"], n)) * 10, 1), **opt)
        T = p.records
        X = np.array([r.permutation(n) for _ in range(k)])
        want = {"F": []}
        for row in X:
            done = [0.0] * len(T)
            for j in row:
                for i in range(len(T)):
                    done[i] = max(done[i], done[i - 1] if i else 0.0) + T[i][j]
            want["F"].append([done[-1]])
    out = p.evaluate(X, return_as_dictionary=True)
    if not kind.startswith("knapsack"):
        t.require(p.n_var == n and p.n_obj == 1, "dimensions")
        t.require(p.xl is not None and (X >= p.xl).all() and (X <= p.xu).all(), lambda: f"{kind}: permutations of {n} leave the bounds {p.xl} to {p.xu}", "permutation bounds")
        t.require(not opt or opt["elementwise_runner"].calls == k, lambda: f"{kind}: the given runner evaluated {opt['elementwise_runner'].calls} of {k} solutions", "options")
    for key, v in want.items():
        t.close(np.asarray(out[key], float), np.array(v, float), f"{kind} {key} of {X.tolist()}", rtol=1e-9, atol=1e-9)
    t.nontrivial(len({tuple(v) for v in want["F"]}) > 1, kind)


# ----------------------------------------------------------------------------------------------------------------- optimum

# tolerance of published optima that are only given with a few digits
SETS = {"ackley": 1e-9, "griewank": 1e-9, "himmelblau": 1e-9, "rastrigin": 1e-9, "rosenbrock": 1e-12, "schwefel": 1e-3, "sphere": 1e-12, "zakharov": 1e-12,
        "cantilevered_beam": 5e-4, "pressure_vessel": 5e-1, "srn": 2e-5, "omnitest": 1e-9, "sympart": 1e-9, "sympart_rotated": 1e-9}
for _k in range(1, 25):
    SETS["g%d" % _k] = 1e-9
# known objective values of the CEC 2006 problems (best known, from the technical report)
BEST = {1: -15.0, 2: -0.8036191042, 3: -1.0005001000, 4: -30665.5386717834, 5: 5126.4967140071, 6: -6961.8138755802, 7: 24.3062090681, 8: -0.0958250415, 9: 680.6300573745,
        10: 7049.2480205286, 11: 0.7499, 12: -1.0, 13: 0.0539415140, 14: -47.7648884595, 15: 961.7150222899, 16: -1.9051552586, 17: 8853.5396748064, 18: -0.8660254038,
        19: 32.6555929502, 21: 193.7245100700, 22: 236.4309755040, 23: -400.0551, 24: -5.5080132716}
FRONTS = {"bnh": {}, "srn": {}, "truss2d": {}, "omnitest": {}, "sympart": {}, "sympart_rotated": {}, "zdt1": {}, "zdt2": {}, "zdt3": {}, "zdt4": {}, "zdt5": {}, "zdt6": {},
          "mw1": {}, "mw2": {}, "mw3": {}, "mw4": {}, "mw6": {}, "mw8": {}, "mw12": {}}
for _n in bench.DTLZ:
    FRONTS[_n] = {}
for _k in range(1, 15):
    FRONTS["df%d" % _k] = {}
for _k in range(1, 10):
    FRONTS["wfg%d" % _k] = {}
DIRS = {n for n in bench.DTLZ if n not in ("dtlz5", "dtlz6", "dtlz7")} | {"mw4", "mw8"}
# margin by which a point has to be better to count as dominating; some fronts are sampled approximately
MARGIN = {"mw3": 2e-3, "mw12": 2e-3, "zdt3": 1e-7, "zdt5": 0.4, "srn": 1e-4, "truss2d": 1e-6, "zdt6": 1e-6, "df9": 0.15, "df12": 0.15, "df13": 0.15, "dtlz7": 0.3}
# parts of the front the problem documents are dominated
NOT_MUTUAL = {"mw1", "mw2", "mw3", "mw4", "mw6", "mw8", "mw12"} | {"df%d" % k for k in range(1, 15)}


@P.check(st.sampled_from(sorted(SETS)).flatmap(lambda n: D(dict(name=st.just(n), kw=PARAMS.get(n, NONE), seed=st.integers(0, 10**6), near=st.sampled_from([1e-4, 1e-2, 0.1, 1.0])))), quick=1500, thorough=40000, shards=(2, 8))
def optimum(case, t):
    """the published solution is within the bounds, feasible, has the published value, and no feasible point is better"""
    name, kw = case["name"], case["kw"]
    if name == "g2" and kw["n_var"] not in (2, 10, 20):
        kw = dict(kw, n_var={0: 2, 1: 10, 2: 20}[kw["n_var"] % 3])
    p = make(name, kw)
    S, F = p.pareto_set(), p.pareto_front()
    t.require(S is not None and S.ndim == 2 and S.shape[1] == p.n_var, lambda: f"{name}{kw}: pareto set of shape {np.shape(S)}", "set shape")
    t.require(F is not None and F.ndim == 2 and F.shape[1] == p.n_obj, lambda: f"{name}{kw}: pareto front of shape {np.shape(F)}", "front shape")
    S, F = S.astype(float), F.astype(float)
    t.require((S >= p.xl - 1e-9).all() and (S <= p.xu + 1e-9).all(), lambda: f"{name}{kw}: the pareto set leaves the bounds", "bounds")
    S = np.minimum(np.maximum(S, p.xl), p.xu)
    out = ask(p, S)
    tol = SETS[name]
    if name != "g20":
        t.require((out["G"] <= 2e-5).all() and (np.abs(out["H"]) <= 1.1e-4).all(), lambda: f"{name}{kw}: the published solution violates constraints: {np.max(out['G'], initial=0)} {np.max(np.abs(out['H']), initial=0)}", "infeasible")
    scale = max(1.0, float(np.abs(F).max()))
    if p.n_obj == 1:
        t.require(F.shape == (1, 1), "one optimal value")
        t.require((np.abs(out["F"] - F) <= (1e-4 if name == "g13" else tol) * scale + 1e-9).all(), lambda: f"{name}{kw}: published value {F.tolist()}, of the published solution {out['F'].tolist()}", "value")
        if name[0] == "g" and name[1:].isdigit() and int(name[1:]) in BEST and not (name in ("g2", "g3") and p.n_var != {"g2": 20, "g3": 10}[name]):
            b = BEST[int(name[1:])]
            t.require(abs(F[0, 0] - b) <= 2e-3 * max(1, abs(b)), lambda: f"{name}: optimum {F[0, 0]}, best known {b}", "best")
    else:
        t.require(all(np.abs(f - F).max(axis=1).min() <= tol + 1e-9 for f in out["F"]), lambda: f"{name}{kw}: a point of the pareto set is not on the front", "set to front")
    t.require(np.array_equal(p.ideal_point(), F.min(axis=0)) and np.array_equal(p.nadir_point(), F.max(axis=0)), "ideal and nadir point", "ideal")
    # around the optimum and anywhere else nothing feasible is better
    r = gen.rng(case["seed"])
    Y = S[r.integers(len(S), size=60)] + r.normal(size=(60, p.n_var)) * case["near"] * (np.asarray(p.xu, float) - p.xl)
    Y = np.vstack([np.minimum(np.maximum(Y, p.xl), p.xu), points(p, case["seed"], 20, "mixed")])
    o = ask(p, Y)
    ok = (o["G"] <= 0).all(axis=1) & (np.abs(o["H"]) <= 1e-9).all(axis=1) & ~np.isnan(o["F"]).any(axis=1)
    eps = (tol if name != "g16" else 1e-5) * scale + 1e-9
    for y, f in zip(Y[ok], o["F"][ok]):
        worse = (f < F - 10 * eps).all(axis=1)
        t.require(not worse.any(), lambda: f"{name}{kw}: {y.tolist()} with {f.tolist()} is better than the published optimum {F[worse][0].tolist()}", "better")
    t.nontrivial(ok.any(), name)


def attained(name, p, f):
    """a point of the search space known to have the given optimal values, or None"""
    n, m = p.n_var, p.n_obj
    if name in ("zdt1", "zdt2", "zdt3", "zdt4"):
        return np.concatenate([[f[0]], np.zeros(n - 1)])
    base = {"dtlz1": (1, lambda f: f), "dtlz1^-1": (1, lambda f: 0.5 - f), "sdtlz1": (1, lambda f: f / float(p.scale_factor) ** np.arange(m)) if name == "sdtlz1" else None, "dc1dtlz1": (1, lambda f: f), "dc2dtlz1": (1, lambda f: f), "dc3dtlz1": (1, lambda f: f), "c1dtlz1": (1, lambda f: f),
            "dtlz2": (2, lambda f: f), "dtlz3": (2, lambda f: f), "c1dtlz3": (2, lambda f: f), "c2dtlz2": (2, lambda f: f), "dc1dtlz3": (2, lambda f: f), "dc2dtlz3": (2, lambda f: f), "dc3dtlz3": (2, lambda f: f),
            "convex_dtlz2": (2, lambda f: np.concatenate([f[:-1] ** 0.25, f[-1:] ** 0.5]))}.get(name)
    if base is None:
        return None
    kind, back = base
    f = np.maximum(back(np.asarray(f, float)), 0)
    x = []
    for i in range(m - 1, 0, -1):
        if kind == 1:
            s = f[:i + 1].sum()
            x.append(1 - f[i] / s if s > 0 else 0.0)
        else:
            x.append(2 / np.pi * np.arctan2(f[i], np.sqrt((f[:i] ** 2).sum())))
    return np.clip(np.concatenate([x, np.full(n - m + 1, 0.5)]), 0, 1)


@P.check(st.sampled_from(sorted(FRONTS)).flatmap(lambda n: D(dict(name=st.just(n), kw=PARAMS.get(n, NONE), seed=st.integers(0, 10**6), dirs=st.booleans(), np=st.sampled_from([None, None, 7, 40])))), quick=1500, thorough=30000, shards=(4, 8))
def front(case, t):
    """the published front is feasible and attained where that can be said, contains no dominated points, and no feasible point dominates it"""
    name, kw = case["name"], dict(case["kw"])
    if name in ("dtlz5", "dtlz6", "dtlz7") and kw["n_obj"] == 3:
        return  # comes from the network
    dirs = None
    if name in DIRS and (case["dirs"] or kw["n_obj"] > 3):
        r = gen.rng(case["seed"])
        dirs = np.vstack([np.eye(kw["n_obj"]), r.dirichlet(np.ones(kw["n_obj"]), 12)])
    p = make(name, kw)
    r = gen.rng(case["seed"])
    if name.startswith("wfg"):
        if kw["k"] > 8:
            return
        S = p.pareto_set(2 ** kw["k"] + 30)
        F = p.evaluate(S, return_values_of=["F"])
        if kw["n_obj"] <= 3:
            W = p.pareto_front() if name == "wfg9" else p.pareto_front(n_iterations=2)
            t.require(W.ndim == 2 and W.shape[1] == p.n_obj and np.isfinite(W).all(), lambda: f"{name}{kw}: front of shape {np.shape(W)}", "front shape")
            W = W[r.permutation(len(W))[:60]]
            lead = ((W[:, None] - W[None]) / np.maximum(W.max(axis=0) - W.min(axis=0), 1e-12)).min(axis=2).max()
            t.require(lead <= MARGIN.get(name, 1e-4), lambda: f"{name}{kw}: the sampled front contains dominated points (by {lead} of its range)", "mutual sampled")
            if name != "wfg2":
                F = np.vstack([F, W[:20]])
    else:
        keep = None if dirs is None else dirs.copy()
        arg = {"zdt1": "n_pareto_points", "zdt2": "n_pareto_points", "zdt4": "n_pareto_points", "zdt5": "n_pareto_points", "zdt6": "n_pareto_points", "bnh": "n_points", "srn": "n_points"}.get(name)
        F = p.pareto_front(dirs) if dirs is not None else p.pareto_front(**{arg: case["np"]}) if arg and case["np"] else p.pareto_front()
        if dirs is not None:
            t.require(np.array_equal(dirs, keep), lambda: f"{name}{kw}: the given directions were modified", "dirs")
        elif arg and case["np"]:
            t.require(len(F) == case["np"], lambda: f"{name}{kw}: {len(F)} points of the front, {case['np']} asked for", "number")
    t.require(F.ndim == 2 and F.shape[1] == p.n_obj and np.isfinite(F).all(), lambda: f"{name}{kw}: front of shape {np.shape(F)}", "front shape")
    if not len(F):
        return
    span = np.maximum(F.max(axis=0) - F.min(axis=0), 1e-12)
    margin = MARGIN.get(name, 1e-7 if not name.startswith("wfg") else 1e-4)
    if name not in NOT_MUTUAL:
        for f in F[r.permutation(len(F))[:40]]:
            lead = ((f - F) / span).min(axis=1).max()
            t.require(lead <= margin, lambda: f"{name}{kw}: {f.tolist()} of the front is dominated by {F[((f - F) / span).min(axis=1).argmax()].tolist()}", "mutual")
    if p.n_obj <= 3 and not name.startswith("wfg") and dirs is None and not (arg and case["np"]):
        t.require(np.allclose(p.ideal_point(), F.min(axis=0)) and np.allclose(p.nadir_point(), F.max(axis=0)), "ideal and nadir point", "ideal")
    # attained
    for f in F[r.permutation(len(F))[:6]]:
        x = attained(name, p, f)
        if x is not None:
            o = ask(p, x[None])
            t.require(np.allclose(o["F"][0], f, rtol=1e-6, atol=1e-6), lambda: f"{name}{kw}: {f.tolist()} of the front is not attained ({o['F'][0].tolist()})", "attained")
            t.require((o["G"] <= 1e-6).all(), lambda: f"{name}{kw}: {f.tolist()} of the front is not feasible ({o['G'].tolist()})", "feasible")
    # no feasible point dominates
    if name == "wfg2" or name in ("dtlz5", "dtlz6") and kw["n_obj"] > 3:  # wfg2: nothing but the sample itself is compared
        t.nontrivial(len(F) > 1, name)
        return
    Y = np.vstack([points(p, case["seed"] + i, 20, m) for i, m in enumerate(["uniform", "mixed", "corner", "opt", "opt"])])
    if name.startswith("wfg"):
        Y = np.vstack([Y, S[r.integers(len(S), size=20)]])
    o = ask(p, Y)
    ok = (o["G"] <= 0).all(axis=1) & ~np.isnan(o["F"]).any(axis=1)
    for y, f in zip(Y[ok], o["F"][ok]):
        lead = ((F - f) / span).min(axis=1)
        t.require(lead.max() <= margin, lambda: f"{name}{kw}: {y.tolist()} with {f.tolist()} dominates {F[lead.argmax()].tolist()} of the front", "dominated")
    t.nontrivial(len(F) > 1 and ok.any(), name)
