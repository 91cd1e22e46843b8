"""P26: an algorithm never evaluates a point outside of the bounds."""
import numpy as np
from hypothesis import strategies as st

from pymoo.core.problem import Problem
from pymoo.optimize import minimize
from vp import algos, gen
from vp.core import Prop

P = Prop("P26", "some evaluated point lies on a bound, or outside of the box of the initial points where there are no bounds", ["lower bounds are not above upper bounds and both are finite"])


class Box(Problem):
    """the optimum is outside of the box in a generated direction"""

    LOGS = {}

    def __init__(self, xl, xu, m, con, pull, key):
        super().__init__(n_var=len(xl), n_obj=m, n_ieq_constr=1 if con else 0, xl=xl, xu=xu)
        self.pull, self.key, self.con = pull, key, con

    def _evaluate(self, X, out, *args, **kwargs):
        Box.LOGS[self.key].append(np.array(X))
        w = np.where(self.xu > self.xl, self.xu - self.xl, 1.0)
        Z = (X - self.xl) / w
        out["F"] = np.column_stack([((Z - np.roll(self.pull, k)) ** 2).sum(axis=1) for k in range(self.n_obj)])
        if self.con:
            out["G"] = Z.sum(axis=1)[:, None] - 0.7 * self.n_var


WIDTH = st.sampled_from([1.0, 1.0, 2.0, 0.3, 1e-9, 1e-3, 1e6, 1e12])


@P.check(st.fixed_dictionaries(dict(algo=st.sampled_from(sorted(algos.ALGOS)), n=st.integers(4, 14), seed=st.integers(0, 1000), gens=st.integers(2, 12), m=st.integers(2, 3), con=st.booleans(),
                                    box=st.lists(st.tuples(st.sampled_from([0.0, 0.0, -1.0, 0.1, 1e3, -1e9]), WIDTH, st.sampled_from([0.0, 1.0, -1.0, 2.0, 1.5, 0.5])), min_size=1, max_size=5),
                                    fixed=st.sampled_from([False, False, True]))),
         quick=640, thorough=10000, shards=(8, 8))
def bounds(case, t):
    """whole runs on boxes of any size (fixed variables, tiny and huge ranges): every evaluated point is finite and inside"""
    name = case["algo"]
    a = algos.ALGOS[name]
    box = [tuple(b) for b in case["box"]]
    while len(box) < a.nvmin:
        box.append(box[0])
    lo = np.array([b[0] for b in box])
    hi = lo + np.array([b[1] for b in box])
    if case["fixed"] and name not in ("kgb",):
        hi[0] = lo[0]
        if not (hi > lo).any():
            lo, hi = np.append(lo, 0.0), np.append(hi, 1.0)
            box.append((0, 1, 2.0))
    spec = dict(algo=name, n=case["n"], p=dict(m=case["m"]))
    key = id(case)
    Box.LOGS[key] = []
    prob = Box(lo, hi, case["m"] if a.mo else 1, case["con"] and a.con, np.array([b[2] for b in box]), key)
    try:
        minimize(prob, algos.mk_algo(spec), ("n_gen", case["gens"]), seed=case["seed"])
        L = np.vstack(Box.LOGS[key])
    finally:
        del Box.LOGS[key]
    t.nontrivial(bool((L == lo).any() or (L == hi).any()))
    bad = ~((L >= lo) & (L <= hi)).all(axis=1)
    if bad.any():
        x = L[bad][0]
        j = int(np.where(~((x >= lo) & (x <= hi)))[0][0])
        t.fail(f"{name}: evaluated {x.tolist()}, variable {j} has the bounds [{lo[j]!r}, {hi[j]!r}]", "out:" + name)


class Open(Problem):
    """the same problem with a box too large to matter, or with none"""

    LOGS = {}

    def __init__(self, m, con, c, key, **kw):
        super().__init__(n_var=len(c), n_obj=m, n_ieq_constr=1 if con else 0, **kw)
        self.c, self.con, self.key = c, con, key

    def _evaluate(self, X, out, *args, **kwargs):
        Open.LOGS[self.key].append(np.array(X))
        out["F"] = np.column_stack([((X - np.roll(self.c, k)) ** 2).sum(axis=1) for k in range(self.n_obj)])
        if self.con:
            out["G"] = X.sum(axis=1)[:, None] - self.c.sum()


@P.check(st.fixed_dictionaries(dict(algo=st.sampled_from(["nsde", "nsde-exp", "gde3", "gde3mnn", "gde32nn", "gde3pcd", "nsder", "nrbo"]), n=st.integers(6, 14), nv=st.integers(1, 4), seed=st.integers(0, 1000), gens=st.integers(2, 10), m=st.integers(2, 3), con=st.booleans(), s=gen.SEED)),
         quick=120, thorough=2000, shards=(4, 8))
def unbounded(case, t):
    """a problem without bounds is searched like one whose box is too large to matter"""
    a = algos.ALGOS[case["algo"]]
    r = gen.rng(case["s"])
    n = max(case["n"], a.nmin)
    start, c = r.normal(size=(n, case["nv"])), r.normal(size=case["nv"]) * 3
    logs = []
    for kw in (dict(), dict(xl=-1e200, xu=1e200)):
        key = id(logs), len(logs)
        Open.LOGS[key] = []
        try:
            minimize(Open(case["m"] if a.mo else 1, case["con"] and a.con, c, key, **kw), a.make(case["m"], n, sampling=start), ("n_gen", case["gens"]), seed=case["seed"])
            logs.append(np.vstack(Open.LOGS[key]))
        finally:
            del Open.LOGS[key]
    t.require(np.isfinite(logs[0]).all(), f"{case['algo']}: a point that is not finite was evaluated", "open:" + case["algo"])
    t.require(logs[0].shape == logs[1].shape and np.array_equal(logs[0], logs[1]), lambda: f"{case['algo']}: without bounds the run evaluates {len(logs[0])} points, with bounds far away {len(logs[1])} (or others)", "open:" + case["algo"])
    t.nontrivial(np.abs(logs[0][n:]).max() > np.abs(start).max())
