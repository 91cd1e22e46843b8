"""P23: progress is never lost: elitist methods end with the best they have seen, feasibility is kept."""
import numpy as np
from hypothesis import strategies as st

from vp import algos, gen, ref
from vp.core import Prop

P = Prop("P23", "the best solution is not found in the first iteration (or feasibility is gained during the run)", ["objective and constraint values are finite and a function of the variables"])

SOO = sorted(n for n, a in algos.ALGOS.items() if a.elitist)
MOO = sorted(n for n, a in algos.ALGOS.items() if a.mo)
ALL = sorted(algos.ALGOS)


def best_of(F, cv):
    """the best of all points: least violation, then (if feasible) least objective value"""
    m = cv.min()
    if m > 0:
        return m, None
    return 0.0, F[cv <= 0].min()


def cv_of(prob, X):
    F, G, H = prob.values(X)
    return F, np.maximum(G, 0.0).sum(axis=1) + np.maximum(np.abs(H) - 1e-4, 0.0).sum(axis=1)


@P.check(algos.run_spec(SOO, kinds=("free", "con", "con", "eq", "hard", "eqonly", "eqstep"), gens=(2, 12)), quick=640, thorough=8000, shards=(8, 8))
def single(case, t):
    """the best solution seen is in the population and in opt of every iteration of an elitist method"""
    name = case["algo"]
    res, rows, log, prob = algos.run(case, setup=dict(return_least_infeasible=True))
    seen = np.cumsum([len(b) for b in log])
    X = np.vstack(log)
    F, cv = cv_of(prob, X)
    F = F[:, 0]
    last = None
    for k, r in enumerate(rows):
        n = r["n_eval"]
        m, f = best_of(F[:n], cv[:n])
        o = r["opt"]
        got = (min(p["CV"] for p in o), min((p["F"][0] for p in o if p["feas"]), default=None))
        t.require(abs(got[0] - m) <= 1e-9 * max(1.0, m), lambda: f"{name}: violation {got[0]} reported in iteration {k + 1}, the best evaluated so far has {m}", "cv:" + name)
        if f is not None:
            t.require(got[1] is not None and got[1] == f, lambda: f"{name}: objective {got[1]} reported in iteration {k + 1}, the best evaluated so far has {f}", "f:" + name)
        if last is not None and (m, f) != last:
            t.nontrivial()
        last = (m, f)
    t.require(res.opt is not None and (last[1] is None or min(p.F[0] for p in res.opt if p.feas) == last[1]), f"{name}: the result is not the best evaluated")


@P.check(algos.run_spec(ALL, kinds=("con", "con", "eq", "eqonly", "eqstep"), gens=(2, 10)), quick=480, thorough=6000, shards=(8, 8))
def feasible(case, t):
    """a run that knows feasible solutions keeps some, and less violated ones before"""
    name = case["algo"]
    res, rows, log, prob = algos.run(case, setup=dict(return_least_infeasible=True))
    was = None
    for k, r in enumerate(rows):
        now = any(p["feas"] for p in r["opt"])
        least = min(p["CV"] for p in r["opt"])
        if was is not None:
            t.require(now or not was[0], f"{name}: feasible solutions were known in iteration {k}, the optimum of iteration {k + 1} is infeasible", "feas:" + name)
            if not now:
                t.require(least <= was[1] + 1e-12, f"{name}: violation {was[1]} was reached in iteration {k}, {least} in iteration {k + 1}", "least:" + name)
            if now and not was[0]:
                t.nontrivial()
        was = (now, least)
    t.nontrivial(len({any(p["feas"] for p in r["opt"]) for r in rows}) > 1)


@P.check(algos.run_spec(["nsga2", "gde3", "nsde", "age"], kinds=("free", "free", "con"), gens=(2, 12)), quick=160, thorough=3000, shards=(4, 8))
def extremes(case, t):
    """methods that always keep the extreme solutions never lose the best value of an objective"""
    name = case["algo"]
    case["n"] = max(case["n"], 8)
    case["p"]["m"] = 2
    res, rows, log, prob = algos.run(case)
    best = None
    for k, r in enumerate(rows):
        A = [p["F"] for p in r["pop"] if p["feas"]]
        if not A:
            t.require(best is None, f"{name}: no feasible solution left")
            continue
        m = np.min(A, axis=0)
        if best is not None:
            t.require((m <= best).all(), lambda: f"{name}: ideal {best.tolist()} of iteration {k} became {m.tolist()}", "ideal:" + name)
            if (m < best).any():
                t.nontrivial()
        best = m
