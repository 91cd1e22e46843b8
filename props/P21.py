"""P21: however a run is driven, interrupted, copied or resumed, it takes the same course."""
import copy

import dill
import numpy as np
from hypothesis import strategies as st

from pymoo.core.evaluator import Evaluator
from pymoo.core.individual import Individual
from pymoo.core.population import Population
from pymoo.core.result import Result
from pymoo.optimize import minimize
from pymoo.problems.static import StaticProblem
from pymoo.termination import get_termination
from pymoo.util.archive import MultiObjectiveArchive, SingleObjectiveArchive
from vp import algos, gen
from vp.core import Prop

P = Prop("P21", "the run has at least two iterations and is driven in at least two ways", ["the problem is deterministic and can be pickled"])

SPEC = algos.run_spec(kinds=("free", "free", "con", "eq", "hard", "eqonly", "eqstep"), gens=(2, 6))
NOT_COPYABLE = {"cmaes", "cmaes-restart", "cmaes-serial"}  # a running generator, see known_findings.json
# these adapt to the termination criterion (budget) by design
BUDGET = {"rvea", "cmaes", "cmaes-restart", "cmaes-serial", "cmaes-simple", "nrbo"}


def prints(rows, log):
    return dict(log=[b.tobytes() for b in log], it=[r["n_iter"] for r in rows],
                pop=[[(p["X"].tobytes(), p["F"].tobytes(), p["CV"]) for p in r["pop"] or []] for r in rows],
                opt=[[(p["X"].tobytes(), p["F"].tobytes(), p["CV"]) for p in r["opt"] or []] for r in rows])


def same(t, a, b, what):
    for k, name in (("log", "evaluated points"), ("pop", "populations"), ("opt", "optima"), ("it", "iterations")):
        if a[k] != b[k]:
            i = next((i for i, (x, y) in enumerate(zip(a[k], b[k])) if x != y), min(len(a[k]), len(b[k])))
            t.fail(f"{what}: {name} differ from the uninterrupted run at position {i} (of {len(a[k])}, {len(b[k])})")


def ask_tell(alg, prob, how):
    infills = alg.ask()
    if infills is None:
        return alg.tell()
    if how == "ask-eval":
        alg.evaluator.eval(prob, infills, algorithm=alg)
    elif how == "ask-own":  # an evaluator of the user
        Evaluator().eval(prob, infills)
    else:  # values computed elsewhere
        given = [infills] if isinstance(infills, Individual) else infills
        todo = Population.create(*[i for i in given if not i.evaluated])
        if len(todo):
            out = prob.evaluate(todo.get("X"), return_as_dictionary=True)
            Evaluator().eval(StaticProblem(prob, F=out["F"], G=out["G"], H=out["H"]), todo)
    return alg.tell(infills=infills)


def between(alg):
    """no generation in progress (Python cannot copy a generator)"""
    return getattr(alg, "generator", None) is None


DRIVE = st.lists(st.sampled_from(["next", "next", "ask-eval", "ask-own", "ask-static", "deepcopy", "pickle"]), min_size=1, max_size=10)


@P.check(st.fixed_dictionaries(dict(r=SPEC, drive=DRIVE, count=st.booleans(), archive=st.sampled_from([False, False, True]))), quick=480, thorough=6000, shards=(8, 8))
def drivers(case, t):
    """generated mixtures of next, ask/tell, external evaluation, copies and pickles against the undisturbed run"""
    spec = case["r"]
    name = spec["algo"]
    _, rows, log, _ = algos.run(spec)
    want = prints(rows, log)
    prob = algos.mk_problem(spec["p"], name)
    key = prob.key = id(case)
    L = algos.Rec.LOGS[key] = []
    try:
        alg = algos.mk_algo(spec)
        keep = case["archive"] and name not in ("mopso_cd", "cmopso")
        extra = dict(archive=MultiObjectiveArchive() if algos.ALGOS[name].mo else SingleObjectiveArchive()) if keep else {}
        alg.setup(prob, termination=("n_gen", spec["gens"]), seed=spec["seed"], callback=algos.Trace(), **extra)
        left = []
        last = None
        used = set()
        i = 0
        guard = 0
        while alg.has_next():
            how = case["drive"][i % len(case["drive"])]
            i += 1
            guard += 1
            t.require(guard < 5000, f"{name}: the run does not end")
            if how in ("deepcopy", "pickle"):
                if name in NOT_COPYABLE or not between(alg):
                    how = "next"
                else:
                    old = alg
                    alg = copy.deepcopy(alg) if how == "deepcopy" else dill.loads(dill.dumps(alg))
                    prob = alg.problem
                    left.append((old, old.n_iter, None if old.pop is None else [id(p) for p in old.pop], prints(old.callback.rows, [])))
                    used.add(how)
                    if set(case["drive"]) <= {"deepcopy", "pickle"}:
                        how = "next"
                    else:
                        continue
            if how != "next" and not algos.ALGOS[name].at:
                how = "next"
            used.add(how)
            if how == "next":
                alg.next()
            else:
                last = ask_tell(alg, prob, how)
                # the last tell returns the result of the run
                if not alg.has_next():
                    t.require(isinstance(last, Result), f"{name}: the last tell returns {type(last).__name__}", "tell")
                    res = alg.result()
                    for k in ("X", "F", "CV"):
                        a, b = getattr(last, k), getattr(res, k)
                        t.require((a is None) == (b is None) and (a is None or np.array_equal(np.array(a, dtype=float), np.array(b, dtype=float))), f"{name}: the result of the last tell has another {k}", "tell")
                    if keep:
                        t.require([id(i) for i in last.archive] == [id(i) for i in res.archive], f"{name}: the archive of the result of the last tell holds {len(last.archive)} solutions, the one of the run {len(res.archive)}", "tell archive")
        t.nontrivial(len(rows) > 1 and len(used) > 1)
        same(t, want, prints(alg.callback.rows, L), f"{name}: driven by {case['drive']}")
        for old, n_iter, ids, p in left:
            t.require(old.n_iter == n_iter and (None if old.pop is None else [id(q) for q in old.pop]) == ids and prints(old.callback.rows, []) == p,
                      f"{name}: continuing a copy changed the original")
        # the original continues as if it had not been copied
        if left:
            L.clear()
            old = left[-1][0]
            while old.has_next():
                old.next()
            a, b = prints(old.callback.rows, L), want
            t.require(b["log"][len(b["log"]) - len(a["log"]):] == a["log"] and a["pop"] == b["pop"] and a["opt"] == b["opt"], f"{name}: an algorithm that was copied continues differently")
        if case["count"] and not used & {"ask-own", "ask-static"}:
            t.require([r["n_eval"] for r in alg.callback.rows] == [r["n_eval"] for r in rows], f"{name}: evaluations are counted differently")
    finally:
        algos.Rec.LOGS.pop(key, None)


@P.check(st.fixed_dictionaries(dict(r=algos.run_spec(sorted(set(algos.ALGOS) - BUDGET), kinds=("free", "free", "con", "eq", "hard", "eqonly", "eqstep"), gens=(1, 6)), more=st.lists(st.integers(1, 4), min_size=1, max_size=3), how=st.sampled_from(["in-place", "copy", "pickle", "result"]))),
         quick=320, thorough=4000, shards=(8, 8))
def resume(case, t):
    """a finished run is continued with a larger budget: the same course as one run with that budget"""
    spec = case["r"]
    name = spec["algo"]
    total = spec["gens"] + sum(case["more"])
    _, rows, log, _ = algos.run(dict(spec, gens=total))
    want = prints(rows, log)
    prob = algos.mk_problem(spec["p"], name)
    key = prob.key = id(case)
    L = algos.Rec.LOGS[key] = []
    try:
        alg = algos.mk_algo(spec)
        gens = spec["gens"]
        res = minimize(prob, alg, ("n_gen", gens), seed=spec["seed"], callback=algos.Trace(), copy_algorithm=False)
        got = prints(res.algorithm.callback.rows, L)
        for k in want:
            t.require(want[k][:len(got[k])] == got[k], f"{name}: a shorter run is not the beginning of a longer one ({k})")
        for m in case["more"]:
            gens += m
            alg = res.algorithm if case["how"] == "result" else alg
            if case["how"] == "pickle" and between(alg):
                alg = dill.loads(dill.dumps(alg))
            alg.termination = get_termination("n_gen", gens)
            if case["how"] == "copy" and between(alg):
                res = minimize(alg.problem, alg)
                alg = res.algorithm
            else:
                res = minimize(alg.problem, alg, copy_algorithm=False)
        t.nontrivial(len(rows) > 1)
        same(t, want, prints(alg.callback.rows, L), f"{name}: resumed ({case['how']}) at {spec['gens']}, {case['more']}")
    finally:
        algos.Rec.LOGS.pop(key, None)


@P.check(st.fixed_dictionaries(dict(r=algos.run_spec(sorted(NOT_COPYABLE), kinds=("free",), gens=(3, 5)), at=st.integers(1, 2), how=st.sampled_from(["deepcopy", "pickle"]))), quick=8, thorough=60)
def cmaes_copy(case, t):
    """CMA-ES copied in the middle of a run (known finding)"""
    spec = case["r"]
    _, rows, log, _ = algos.run(spec)
    prob = algos.mk_problem(spec["p"], spec["algo"])
    alg = algos.mk_algo(spec)
    alg.setup(prob, termination=("n_gen", spec["gens"]), seed=spec["seed"], callback=algos.Trace())
    for _ in range(case["at"]):
        alg.next()
    ev = alg.evaluator.n_eval
    cp = copy.deepcopy(alg) if case["how"] == "deepcopy" else dill.loads(dill.dumps(alg))
    cp.run()
    t.nontrivial(len(rows) > case["at"])
    alg.run()
    t.require(prints(alg.callback.rows, [])["opt"] == prints(rows, [])["opt"], "the original takes another course after it was copied")
    t.require(prints(cp.callback.rows, [])["opt"] == prints(rows, [])["opt"], f"a copied CMA-ES stops after {len(cp.callback.rows)} iterations instead of {len(rows)}", "cmaes-copy")
