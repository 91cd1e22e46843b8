"""P22: budgets are kept exactly and every evaluation is counted once."""
import numpy as np
from hypothesis import strategies as st

from pymoo.algorithms.moo.nsga2 import NSGA2
from pymoo.algorithms.soo.nonconvex.de import DE
from pymoo.algorithms.soo.nonconvex.ga import GA
from pymoo.algorithms.soo.nonconvex.random_search import RandomSearch
from pymoo.core.callback import Callback
from pymoo.core.evaluator import Evaluator
from pymoo.core.population import Population
from pymoo.core.problem import Problem
from vp import algos, gen
from vp.core import Prop

P = Prop("P22", "the run has at least two iterations", ["no other criterion ends the run (stagnation criteria of the algorithms are switched off by giving a budget)"])

SPEC = algos.run_spec(gens=(1, 8))
# these stop on their own when their search has collapsed
OWN_STOP = {"cmaes", "cmaes-restart", "cmaes-serial", "cmaes-simple"}


class Counter(Callback):
    """what is known right after each iteration"""

    def __init__(self, key):
        super().__init__()
        self.key, self.rows = key, []

    def notify(self, algorithm):
        self.rows.append(dict(n_iter=algorithm.n_iter, n_gen=algorithm.n_gen, n_eval=algorithm.evaluator.n_eval, seen=sum(len(b) for b in algos.Rec.LOGS[self.key]),
                              born=[(int(p.get("n_gen")), np.array(p.X, dtype=float).tobytes()) for p in algorithm.pop if p.get("n_gen") is not None]))


@P.check(st.fixed_dictionaries(dict(r=SPEC, by=st.sampled_from(["n_gen", "n_iter", "n_eval", "n_evals"]), budget=st.integers(1, 150))),
         quick=640, thorough=8000, shards=(8, 8))
def budgets(case, t):
    """whole runs with budgets of iterations or evaluations, the problem counting what it evaluates"""
    spec = case["r"]
    name = spec["algo"]
    by = case["by"]
    gens = by in ("n_gen", "n_iter")
    N = spec["gens"] if gens else case["budget"]
    prob = algos.mk_problem(spec["p"], name)
    key = prob.key = id(case)
    algos.Rec.LOGS[key] = []
    try:
        cb = Counter(key)
        alg = algos.mk_algo(spec)
        alg.setup(prob, termination=(by, N), seed=spec["seed"], callback=cb)
        steps = 0
        while alg.has_next():
            alg.next()
            steps += 1
            t.require(steps <= 20000, f"{name}: the run does not end")
        L = algos.Rec.LOGS[key]
    finally:
        algos.Rec.LOGS.pop(key, None)
    rows = cb.rows
    t.nontrivial(len(rows) > 1)
    t.require([r["n_iter"] for r in rows] == list(range(1, len(rows) + 1)) and all(r["n_gen"] == r["n_iter"] for r in rows), lambda: f"{name}: iterations {[r['n_iter'] for r in rows]}")
    for k, r in enumerate(rows):
        t.require(r["n_eval"] == r["seen"], f"{name}: {r['n_eval']} evaluations counted after iteration {k + 1}, the problem was asked for {r['seen']}", "count:" + name)
    total = sum(len(b) for b in L)
    t.require(alg.evaluator.n_eval == total, f"{name}: {alg.evaluator.n_eval} evaluations counted in the end, the problem was asked for {total}", "count:" + name)
    forced = alg.termination.force_termination
    if forced and name in OWN_STOP:
        # CMA-ES gives up if values do not differ (nothing is feasible), if the search has collapsed, or after its own number of evaluations
        smooth = spec["p"]["style"] == "poly" and prob.n_constr == 0
        t.require(len(rows) >= 2 and (not smooth or (len(rows) >= 20 if name != "cmaes-restart" else total >= 55)), f"{name}: ended by force after {len(rows)} iterations", "forced:" + name)
        return
    t.require(not forced, f"{name}: ended by force")
    if gens:
        t.require(len(rows) == N, f"{name}: {len(rows)} iterations, budget {N}", "n_gen:" + name)
    else:
        # RVEA needs the number of iterations beforehand, and expects each of them to be complete
        complete = name != "rvea" or all(b == a for a, b in zip(np.diff([0] + [r["seen"] for r in rows]), [alg.pop_size] + [alg.n_offsprings] * len(rows)))
        t.require(rows[-1]["n_eval"] >= N or not complete, f"{name}: stopped after {rows[-1]['n_eval']} of {N} evaluations", "early:" + name)
        if len(rows) > 1:
            t.require(rows[-2]["n_eval"] < N, f"{name}: continued although {rows[-2]['n_eval']} of {N} evaluations were used", "late:" + name)
    # individuals know the iteration they were created in (Nelder-Mead hands out its start point again)
    made = {}
    pos, k = 0, 0
    for b in L:
        for x in b:
            while k < len(rows) and pos >= rows[k]["seen"]:
                k += 1
            made.setdefault(x.tobytes(), set()).add(k + 1)
            pos += 1
    for k, r in enumerate(rows):
        for g, x in r["born"]:
            t.require(g in made.get(x, ()) or name == "nelder", lambda: f"{name}: individual labelled with iteration {g} in iteration {k + 1}, its point was evaluated in {sorted(made.get(x, ()))}", "born:" + name)


SMALL = st.fixed_dictionaries(dict(algo=st.sampled_from(["random", "ga", "de", "nsga2"]), pop=st.integers(1, 7), by=st.sampled_from(["n_gen", "n_eval"]), budget=st.one_of(st.integers(150, 700), st.integers(700, 2500)), s=st.integers(0, 99)))


@P.check(SMALL, quick=80, thorough=800, shards=(4, 8))
def long(case, t):
    """long runs of small populations: the last iteration is the one that uses up the budget, not one close to it"""
    name, n, N = case["algo"], case["pop"], case["budget"]
    gens = case["by"] == "n_gen"
    if gens:
        n, N = min(n, 2), min(N, 900)
    if name == "random":
        alg, m = RandomSearch(n_points_per_iteration=n), 1
    elif name == "ga":
        alg, m = GA(pop_size=n, n_offsprings=n, eliminate_duplicates=False), 1
    elif name == "de":
        n = n + 4
        alg, m = DE(pop_size=n), 1
    else:
        n = n + 1
        alg, m = NSGA2(pop_size=n, n_offsprings=1 + n % 2, eliminate_duplicates=False), 2
    prob = Cheap(m)
    alg.setup(prob, termination=(case["by"], N), seed=case["s"])
    before = steps = 0
    while alg.has_next():
        before = prob.asked
        alg.next()
        steps += 1
        t.require((steps if gens else prob.asked) <= N + 20, f"{name}: {steps} iterations, {prob.asked} evaluations, budget {N}", "late:" + name)
    t.nontrivial(True, case["by"])
    t.require(alg.evaluator.n_eval == prob.asked, f"{name}: {alg.evaluator.n_eval} evaluations counted, {prob.asked} asked for", "count:" + name)
    if gens:
        t.require(steps == N, f"{name}: ended after {steps} iterations, budget {N}", "n_gen:" + name)
    else:
        t.require(prob.asked >= N, f"{name}: ended after {prob.asked} of {N} evaluations", "early:" + name)
        t.require(before < N, f"{name}: continued although {before} of {N} evaluations were used", "late:" + name)


class Cheap(Problem):
    def __init__(self, m):
        super().__init__(n_var=2, n_obj=m, xl=0.0, xu=1.0)
        self.asked = 0

    def _evaluate(self, X, out, *args, **kwargs):
        self.asked += len(X)
        f = (X ** 2).sum(axis=1)
        out["F"] = f[:, None] if self.n_obj == 1 else np.column_stack([f, ((X - 1) ** 2).sum(axis=1)])
