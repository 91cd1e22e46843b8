"""P25: a run stops exactly when its termination criterion is met."""
import copy
import time

import numpy as np
from hypothesis import strategies as st

from pymoo.algorithms.soo.nonconvex.ga_niching import NicheTermination
from pymoo.algorithms.soo.nonconvex.nelder import NelderAndMeadTermination, NelderMead
from pymoo.core.evaluator import Evaluator
from pymoo.core.population import Population
from pymoo.core.problem import Problem
from pymoo.core.termination import NoTermination, TerminateIfAll, TerminateIfAny, Termination
from pymoo.indicators.hv import Hypervolume
from pymoo.indicators.igd import IGD
from pymoo.termination import get_termination
from pymoo.termination.collection import TerminationCollection
from pymoo.termination.cv import ConstraintViolationTermination, UntilFeasibleTermination
from pymoo.termination.default import DefaultMultiObjectiveTermination, DefaultSingleObjectiveTermination
from pymoo.termination.delta import DeltaToleranceTermination
from pymoo.termination.fmin import MinimumFunctionValueTermination
from pymoo.termination.ftol import MultiObjectiveSpaceTermination, MultiObjectiveSpaceTerminationWithRenormalization, SingleObjectiveSpaceTermination
from pymoo.termination.indicator import IndicatorTermination
from pymoo.termination.max_eval import MaximumFunctionCallTermination
from pymoo.termination.max_gen import MaximumGenerationTermination
from pymoo.termination.max_time import TimeBasedTermination
from pymoo.termination.robust import RobustTermination
from pymoo.termination.xtol import DesignSpaceTermination
from pymoo.util.misc import time_to_int
from vp import algos, gen
from vp.core import Prop

P = Prop("P25", "the criterion is met at some point of the history but not at its beginning", ["objective and constraint values are finite"])


class Stub:
    """what a criterion sees of an algorithm"""

    def __init__(self, m, con=True):
        self.problem = Problem(n_var=2, n_obj=m, n_ieq_constr=1 if con else 0, xl=0.0, xu=1.0)
        self.evaluator = Evaluator()
        self.n_iter = 0
        self.n_gen = 0
        self.start_time = time.time()
        self.opt = None

    def step(self, F, cv, X=None, evals=1):
        self.n_gen += 1
        self.n_iter += 1
        self.evaluator.n_eval += evals
        F = np.atleast_2d(np.asarray(F, dtype=float))
        n = len(F)
        G = np.full((n, 1), float(cv)) if np.ndim(cv) == 0 else np.asarray(cv, dtype=float)[:, None]
        X = np.full((n, 2), 0.5) if X is None else np.asarray(X, dtype=float)
        kw = dict(X=X, F=F, H=np.zeros((n, 0)))
        kw["G"] = G if self.problem.n_ieq_constr else np.zeros((n, 0))
        self.opt = Population.new(**kw)
        self.pop = self.opt


def progress(t, term, what):
    t.require(0.0 <= term.perc and np.isfinite(term.perc), f"{what}: progress {term.perc}")
    t.require(term.has_terminated() == (term.perc >= 1.0) and term.do_continue() == (not term.has_terminated()), f"{what}: has_terminated or do_continue")


VAL = st.one_of(st.integers(-5, 5).map(float), st.sampled_from([0.0, 1e-3, -1e-3, 1e6, -1e6, 0.1, 123.456]), st.floats(-100, 100, allow_nan=False).map(lambda v: round(v, 4)))


@P.check(st.fixed_dictionaries(dict(fmin=VAL, m=st.integers(1, 2), hist=st.lists(st.tuples(st.lists(st.tuples(VAL, st.sampled_from([0.0, -1.0, 1.0, 0.0])), min_size=1, max_size=3)), min_size=1, max_size=8), via=st.booleans())),
         quick=600, thorough=10000)
def fmin(case, t):
    """met as soon as a feasible optimum is at most fmin"""
    term = get_termination("fmin", case["fmin"]) if case["via"] else MinimumFunctionValueTermination(case["fmin"])
    a = Stub(1)
    flags = []
    for (e,) in case["hist"]:
        F, cv = np.array([[f] for f, _ in e]), np.array([c for _, c in e])
        a.step(F, cv)
        term.update(a)
        progress(t, term, "fmin")
        ok = cv <= 0
        want = bool(ok.any() and F[ok].min() <= case["fmin"])
        flags.append(want)
        t.require(term.has_terminated() == want, lambda: f"fmin={case['fmin']}: terminated={term.has_terminated()} with objectives {F[:, 0].tolist()}, violations {cv.tolist()}")
    t.nontrivial(any(flags) and not flags[0])


@P.check(st.fixed_dictionaries(dict(th=VAL, goal=st.sampled_from(["minimize", "maximize"]), vals=st.lists(VAL, min_size=1, max_size=8))), quick=400, thorough=6000)
def indicator(case, t):
    """met in every iteration in which the indicator is at least as good as the threshold"""
    it = iter(case["vals"])

    class Ind:
        def do(self, F, **kw):
            return next(it)
    term = IndicatorTermination(Ind(), case["th"], case["goal"])
    a = Stub(2)
    flags = []
    for v in case["vals"]:
        a.step([[1.0, 2.0]], 0.0)
        term.update(a) if True else None
        want = v <= case["th"] if case["goal"] == "minimize" else v >= case["th"]
        flags.append(want)
        progress(t, term, "indicator")
        t.require(term.has_terminated() == want, f"{case['goal']} {case['th']}: terminated={term.has_terminated()} at {v} (history {case['vals']})")
    t.nontrivial(any(flags) and not flags[0])


@P.check(st.fixed_dictionaries(dict(cvs=st.lists(st.sampled_from([0.0, -1.0, 0.5, 1.0, 2.0, 1e-3, 7.0]), min_size=1, max_size=10), con=st.booleans(), when=st.booleans())), quick=300, thorough=4000)
def feasibility(case, t):
    """met in the first iteration with a feasible optimum"""
    term, cvt = UntilFeasibleTermination(), ConstraintViolationTermination(1e-6, terminate_when_feasible=case["when"])
    a = Stub(1, con=case["con"])
    prev = None
    flags = []
    for c in case["cvs"]:
        a.step([[1.0]], c)
        v = max(0.0, c) if case["con"] else 0.0
        term.update(a)
        cvt.update(a)
        progress(t, term, "until feasible")
        progress(t, cvt, "violation")
        flags.append(v <= 0)
        t.require(term.has_terminated() == (v <= 0), f"until feasible: terminated={term.has_terminated()} at violation {v}")
        if not case["con"]:
            t.require(not cvt.has_terminated(), "violation criterion met without constraints")
        elif v <= 0:
            t.require(cvt.has_terminated() == case["when"], f"violation: terminated={cvt.has_terminated()} with a feasible solution, terminate_when_feasible={case['when']}")
        elif prev is not None and prev - v > 1e-6:
            t.require(not cvt.has_terminated(), f"violation: terminated although the lowest violation went from {prev} to {v}")
        prev = v if v > 0 and (prev is None or v < prev) else prev  # (a violation that rises again is not progress)
    t.nontrivial(any(flags) and not all(flags))




@P.check(st.fixed_dictionaries(dict(kind=st.sampled_from(["f", "x", "cv", "moo"]), tol=st.sampled_from([0.0, 1e-6, 1e-2]), skip=st.integers(0, 3), period=st.integers(1, 6), robust=st.booleans(),
                                    moves=st.lists(st.sampled_from([0, 1, 1]), min_size=2, max_size=25), tail=st.integers(0, 40), s=gen.SEED)), quick=600, thorough=10000)
def tolerances(case, t):
    """not met while the optimum changes significantly, met once it does not change for long enough"""
    kind, tol = case["kind"], case["tol"]
    inner = dict(f=SingleObjectiveSpaceTermination, x=DesignSpaceTermination, moo=MultiObjectiveSpaceTermination,
                 cv=lambda tol, n_skip: ConstraintViolationTermination(tol, terminate_when_feasible=False, n_skip=n_skip))[kind](tol, n_skip=case["skip"])
    term = RobustTermination(inner, case["period"]) if case["robust"] else inner
    a = Stub(2 if kind == "moo" else 1)
    r = gen.rng(case["s"])
    f, cv = 1000.0, 1000.0
    X = np.array([[0.1, 0.2]])
    FF = np.array([[0.0, 1.0], [1.0, 0.0], [0.5, 0.5]])
    moves = case["moves"] + [0] * case["tail"]
    still = 0
    window = []
    ended = None
    for k, mv in enumerate(moves):
        if mv and k:
            still = 0
            f -= max(0.5, 10 * tol)
            cv -= max(0.5, 10 * tol)
            X = np.array([[(X[0, 0] + 0.37) % 1.0, X[0, 1]]])
            FF = FF - np.array([2.0, 3.0]) * (1 + r.random())
        else:
            still += 1
        a.step(FF if kind == "moo" else [[f]], cv if kind == "cv" else 0.0, X=np.repeat(X, len(FF), axis=0) if kind == "moo" else X)
        term.update(a)
        progress(t, term, kind)
        window.append(mv and k > 0)
        if k == 0:
            t.require(not term.has_terminated(), f"{kind}: met in the first iteration")
        if not case["robust"] and case["skip"] == 0 and k and mv:
            t.require(not term.has_terminated(), f"{kind}: met although the optimum just changed significantly")
        if term.has_terminated() and k > 0:
            last = window[-(case["period"] if case["robust"] else 1):]
            t.require(not all(last), f"{kind}: met although the optimum changed in each of the last {len(last)} iterations")
            if case["robust"] and case["skip"] == 0:
                t.require(not any(last), f"{kind}: met although the optimum changed within the last {len(last)} iterations")
                t.require(k >= case["period"], f"{kind}: met after {k} comparisons, {case['period']} are required")
            ended = k if ended is None else ended
        need = (case["period"] if case["robust"] else 0) + case["skip"] + 2
        if still >= need and k >= need:
            t.require(term.has_terminated(), f"{kind}: not met although nothing changed for {still} iterations (period {case['period']}, robust {case['robust']}, skip {case['skip']})")
    t.nontrivial(ended is not None and ended > 1)


class Counted(DeltaToleranceTermination):
    """a criterion of a user"""

    def __init__(self, tol, n_skip, seq):
        super().__init__(tol, n_skip=n_skip)
        self.seq, self.k, self.at = seq, -1, []

    def _data(self, algorithm):
        self.k += 1
        return self.seq[self.k]

    def _delta(self, prev, current):
        self.at.append((self.k, prev))
        return abs(prev - current)


@P.check(st.fixed_dictionaries(dict(tol=st.sampled_from([0.0, 0.5, 1.0, 3.0]), skip=st.integers(0, 5), seq=st.lists(st.integers(0, 4), min_size=2, max_size=40))), quick=200, thorough=3000)
def skipping(case, t):
    """a tolerance criterion that skips n updates compares every (n+1)-th with the one before; in between the progress stays"""
    tol, skip, seq = case["tol"], case["skip"], [float(v) for v in case["seq"]]
    term = Counted(tol, skip, seq)
    last = None
    gaps = 0
    for k in range(len(seq)):
        n = len(term.at)
        perc = term.update(None)
        if len(term.at) > n:
            j, prev = term.at[-1]
            t.require(prev == seq[k - 1], f"update {k} compares with {prev}, the one before was {seq[k - 1]}")
            d = abs(seq[k] - seq[k - 1])
            want = 1.0 if d <= tol else 1 / (1 + d - tol)
            t.require(abs(perc - want) < 1e-12, f"progress {perc} for a change by {d} with tolerance {tol}, expected {want}")
            if n:
                gaps += 1
                t.require(term.at[-1][0] - term.at[-2][0] == skip + 1, f"compared in the updates {[a[0] for a in term.at]}, {skip} are skipped in between")
            if term.has_terminated():
                break
        elif k:
            t.require(skip > 0, f"update {k} did not compare")
            t.require(perc == last, f"skipped update {k}: progress {perc}, before {last}")
        last = perc
    t.require(k <= 2 * skip + 2 or len(term.at) > 0, f"no comparison in {len(seq)} updates")
    t.nontrivial(gaps > 1 and skip > 0)


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 4), xt=st.sampled_from([1e-8, 1e-6, 1e-3, 0.1]), ft=st.sampled_from([1e-8, 1e-6, 1e-3, 0.1]), box=st.sampled_from(["unit", "wide", "narrow", "fixed", "none"]), xs=st.floats(-3, 3), fs=st.floats(-3, 3), shape=st.sampled_from(["free", "point", "twice"]),
                                   it=st.sampled_from([None, 5, 40]), ev=st.sampled_from([None, 7, 40]), s=gen.SEED)), quick=400, thorough=6000)
def simplex(case, t):
    """Nelder-Mead ends when its simplex is within a tolerance, in objective or design space, degenerated or at a limit - not before"""
    r = gen.rng(case["s"])
    n = case["n"]
    width = {"unit": np.ones(n), "wide": np.full(n, 500.0), "narrow": np.full(n, 0.01), "fixed": np.ones(n), "none": np.ones(n)}[case["box"]]
    bounds = {} if case["box"] == "none" else dict(xl=np.full(n, -1.0), xu=-1.0 + width)
    if case["box"] == "fixed":
        bounds["xu"][0] = -1.0  # one variable can not move
    problem = Problem(n_var=n, n_obj=1, **bounds)
    size, spread = case["xt"] * 10 ** case["xs"], case["ft"] * 10 ** case["fs"]
    X = -1.0 + 0.25 * width + np.vstack([np.zeros(n), size * np.sign(r.random((n, n)) - 0.5) * r.uniform(0.5, 1, (n, n)) * width * 0.5])
    if case["box"] == "fixed":
        X[:, 0] = -1.0
    if case["shape"] == "point":
        X[1:] = X[0]
    elif case["shape"] == "twice":
        X[-1] = X[0]
    F = 3.0 + np.sort(np.concatenate([[0.0], spread * r.uniform(0.2, 1, n)]))

    class Run:
        pass

    run = Run()
    run.problem, run.pop, run.n_iter, run.evaluator = problem, Population.new(X=X, F=F[:, None]), int(r.integers(1, 60)), Evaluator()
    run.evaluator.n_eval = int(r.integers(1, 60))
    lim = {k: v for k, v in dict(n_max_iter=case["it"], n_max_evals=case["ev"]).items() if v is not None}
    term = NelderAndMeadTermination(x_tol=case["xt"], f_tol=case["ft"], **lim)
    term.update(run)
    scale = np.ones(n)
    if bounds:
        scale = np.where(bounds["xu"] > bounds["xl"], bounds["xu"] - bounds["xl"], 1.0)
    dx, df = np.abs((X[1:] - X[0]) / scale).max(), np.abs(F[1:] - F[0]).max()
    if any(abs(d - tol) < 1e-9 + 1e-6 * tol for d, tol in ((dx, case["xt"]), (df, case["ft"]))):
        return  # decided by rounding
    D = np.linalg.norm(X[:, None] - X[None], axis=2)[np.triu_indices(n + 1, 1)]
    degenerated = D.min() == 0
    if not degenerated and D.min() < 1e-14:
        return
    want = dx <= case["xt"] or df <= case["ft"] or degenerated or (case["it"] is not None and run.n_iter >= case["it"]) or (case["ev"] is not None and run.evaluator.n_eval >= case["ev"])
    t.require(term.has_terminated() == bool(want), lambda: f"simplex with spread {dx:.3g} in X (tolerance {case['xt']}), {df:.3g} in F (tolerance {case['ft']}), iteration {run.n_iter}/{case['it']}, evaluation {run.evaluator.n_eval}/{case['ev']}, edges {D.min():.3g}..{D.max():.3g}: terminated {term.has_terminated()}", "simplex")
    t.nontrivial(not degenerated)
    single = Run()
    single.__dict__.update(run.__dict__, pop=run.pop[:1], n_iter=1)
    first = NelderAndMeadTermination(x_tol=case["xt"], f_tol=case["ft"])
    first.update(single)
    t.require(not first.has_terminated(), "a single point is not a simplex that has converged", "simplex")


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 3), box=st.booleans(), power=st.sampled_from([1, 2, 2]), given=st.sampled_from([None, (1e-3, 1e-9), (1e-9, 1e-3)]), s=gen.SEED)), quick=60, thorough=1000, shards=(2, 4))
def simplex_runs(case, t):
    """a Nelder-Mead run with the criterion of its own ends with the first simplex that meets it"""
    r = gen.rng(case["s"])
    n = case["n"]
    c, w = r.uniform(-0.8, 0.8, n), r.uniform(0.5, 5, n)

    class Bowl(Problem):
        def _evaluate(self, X, out, *args, **kwargs):
            out["F"] = (w * np.abs(X - c) ** case["power"]).sum(axis=1, keepdims=True)

    problem = Bowl(n_var=n, n_obj=1, **(dict(xl=-1.0, xu=1.0) if case["box"] else {}))
    xt, ft = case["given"] or (1e-6, 1e-6)
    alg = NelderMead(x0=r.uniform(-0.9, 0.9, n))
    alg.setup(problem, seed=1, **({} if case["given"] is None else dict(termination=NelderAndMeadTermination(x_tol=xt, f_tol=ft))))
    last, near = None, False
    for k in range(3000):
        if not alg.has_next():
            break
        alg.next()
        X, F = alg.pop.get("X", "F")
        if len(X) == 1:
            continue
        scale = 2.0 if case["box"] else 1.0
        dx, df = np.abs((X[1:] - X[0]) / scale).max(), np.abs(F[1:] - F[0]).max()
        D = np.linalg.norm(X[:, None] - X[None], axis=2)[np.triu_indices(n + 1, 1)]
        met = dx <= xt or df <= ft or D.min() / max(D.max(), 1e-300) < 1e-16
        if any(abs(d - tol) < 1e-12 + 1e-6 * tol for d, tol in ((dx, xt), (df, ft))) or (D.min() > 0 and D.min() / D.max() < 1e-13):
            return
        t.require(alg.has_next() == (not met), lambda: f"iteration {k}: spread {dx:.3g} in X, {df:.3g} in F (tolerances {xt}, {ft}), but the run {'goes on' if alg.has_next() else 'has ended'}", "simplex-run")
        last = dx, df
    t.require(last is not None and not alg.has_next(), f"the run did not end within 3000 iterations: {last}", "simplex-run")
    t.nontrivial(k > 5)


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 6), all=st.booleans(), slide=st.booleans(), ind=st.sampled_from(["igd", "hv"]), moves=st.lists(st.booleans(), min_size=1, max_size=8), s=gen.SEED)), quick=20, thorough=100)
def renormalization(case, t):
    """a criterion over several iterations, normalized by the last one: usable, and not met while the front moves"""
    term = MultiObjectiveSpaceTerminationWithRenormalization(n=case["n"], all_to_current=case["all"], sliding_window=case["slide"], indicator=case["ind"], tol=1e-3)
    a = Stub(2)
    FF = np.array([[0.0, 1.0], [1.0, 0.0], [0.5, 0.5]])
    t.nontrivial(len(set(case["moves"])) > 1)
    for k, mv in enumerate(case["moves"]):
        FF = FF - np.array([2.0, 3.0]) * mv
        a.step(FF, 0.0)
        try:
            term.update(a)
        except Exception as e:
            t.fail(f"the criterion cannot be used: {type(e).__name__} {e}", "renormalization:unusable")
        t.require(not (term.has_terminated() and (mv or k == 0)), "met although the front just moved", "renormalization:met")


class Fixed(Termination):
    def __init__(self, vals):
        super().__init__()
        self.vals, self.k, self.calls = vals, 0, 0

    def _update(self, algorithm):
        self.calls += 1
        v = self.vals[min(self.k, len(self.vals) - 1)]
        self.k += 1
        return v


PERC = st.sampled_from([0.0, 0.2, 0.5, 0.99, 1.0, 1.5])
TREE = st.recursive(st.lists(PERC, min_size=1, max_size=6), lambda c: st.tuples(st.sampled_from(["any", "all", "col"]), st.lists(c, min_size=1, max_size=3)), max_leaves=6)


@P.check(st.fixed_dictionaries(dict(tree=TREE, n=st.integers(1, 8), force=st.integers(0, 12))), quick=300, thorough=4000)
def combined(case, t):
    """any / all / collections are met if any / all / any of their criteria are; force always ends"""
    leaves = []

    def build(n):
        if len(n) == 2 and isinstance(n[0], str):
            ch = [build(c) for c in n[1]]
            cls = dict(any=TerminateIfAny, all=TerminateIfAll, col=TerminationCollection)[n[0]]
            f = all if n[0] == "all" else any
            return cls(*[c[0] for c in ch]), lambda k: f([c[1](k) for c in ch])
        leaf = Fixed([float(v) for v in n])
        leaves.append(leaf)
        return leaf, lambda k: n[min(k, len(n) - 1)] >= 1.0
    term, want = build(case["tree"])
    a = Stub(1)
    t.require(not term.has_terminated(), "met before the first iteration")
    seen = []
    for k in range(case["n"]):
        a.step([[1.0]], 0.0)
        forced = k + 1 >= case["force"] > 0
        if k + 1 == case["force"]:
            term.terminate()
        got = term.update(a)
        t.require(got == term.perc, "update does not return the progress")
        progress(t, term, "combined")
        w = want(k) or forced
        seen.append(w)
        t.require(term.has_terminated() == w, lambda: f"iteration {k + 1}: terminated={term.has_terminated()}, expected {w}: {case['tree']} force={case['force']}")
        if not forced:
            t.require(all(l.calls == k + 1 for l in leaves), "a criterion was not updated (or more than once)")
    t.nontrivial(len(leaves) > 1 and any(seen) and not all(seen))


@P.check(st.fixed_dictionaries(dict(h=st.integers(0, 30), m=st.integers(0, 59), s=st.integers(0, 59), parts=st.integers(1, 3), kind=st.sampled_from(["str", "int", "float"]), k=st.integers(-3, 5))), quick=150, thorough=2000)
def budgets(case, t):
    """numbers of iterations and evaluations, and time"""
    parts = [case["h"], case["m"], case["s"]][-case["parts"]:]
    text = ":".join(f"{p:02d}" for p in parts)
    secs = parts[-1] + (60 * parts[-2] if len(parts) > 1 else 0) + (3600 * parts[0] if len(parts) > 2 else 0)
    t.require(time_to_int(text) == secs, f"{text} is {time_to_int(text)} s, expected {secs}")
    if secs > 20:
        term = get_termination("time", text if case["kind"] == "str" else secs if case["kind"] == "int" else float(secs))
        a = Stub(1)
        for el, want in ((0.0, False), (secs - 10.0, False), (secs + 0.01, True), (secs + 100.0, True)):
            a.start_time = time.time() - el
            a.step([[1.0]], 0.0)
            term.update(a)
            progress(t, term, "time")
            t.require(term.has_terminated() == want, f"time {text}: terminated={term.has_terminated()} after {el} of {secs} s")
        t.nontrivial()
    N = max(1, case["m"])
    for name in ("n_gen", "n_iter", "n_eval", "n_evals"):
        term = get_termination(name, N)
        a = Stub(1)
        for k in range(N + 2):
            a.step([[1.0]], 0.0, evals=1)
            term.update(a)
            progress(t, term, name)
            t.require(term.has_terminated() == (k + 1 >= N), f"{name} {N}: terminated={term.has_terminated()} at {k + 1}")
    for term in (NoTermination(), MaximumGenerationTermination(None), MaximumFunctionCallTermination(None), MaximumGenerationTermination(), MaximumFunctionCallTermination()):
        a = Stub(1)
        for _ in range(5):
            a.step([[1.0]], 0.0, evals=10 ** 6)
            term.update(a)
            t.require(not term.has_terminated(), f"{type(term).__name__} without limit is met")


@P.check(st.fixed_dictionaries(dict(mo=st.booleans(), niche=st.booleans(), con=st.booleans(), period=st.integers(2, 6), g=st.integers(1, 60), e=st.integers(1, 400), move=st.booleans(), s=gen.SEED)), quick=100, thorough=1500)
def defaults(case, t):
    """the default criteria end by their limits, or by stagnation, and not otherwise"""
    cls = DefaultMultiObjectiveTermination if case["mo"] else NicheTermination if case["niche"] else DefaultSingleObjectiveTermination
    kw = dict(n_max_gen=case["g"], n_max_evals=case["e"], period=case["period"])
    if case["mo"]:
        kw["n_skip"] = 0
    term = cls(**kw)
    a = Stub(2 if case["mo"] else 1, con=case["con"])
    r = gen.rng(case["s"])
    F = np.array([[0.0, 1.0], [1.0, 0.0]]) if case["mo"] else np.array([[0.0]])
    X = r.random((len(F), 2))
    for k in range(80):
        if case["move"]:
            F = F - 5.0
            X = (X + 0.37) % 1.0
        a.step(F, 0.0, X=X, evals=7)
        term.update(a)
        progress(t, term, "default")
        if k + 1 >= case["g"] or 7 * (k + 1) >= case["e"]:
            t.require(term.has_terminated(), f"default: not met at {k + 1} iterations and {7 * (k + 1)} evaluations, limits {case['g']}, {case['e']}")
            break
        if case["move"]:
            t.require(not term.has_terminated(), f"default: met at {k + 1} iterations, {7 * (k + 1)} evaluations although the optimum moves")
        else:
            t.require(term.has_terminated() or k < case["period"] + 2, f"default: not met although nothing moved for {k + 1} iterations")
            t.require(not term.has_terminated() or k >= case["period"], f"default: met after {k} comparisons, period {case['period']}")
            if term.has_terminated():
                break
    t.nontrivial(k > 1)


@P.check(st.fixed_dictionaries(dict(r=algos.run_spec(sorted(set(algos.ALGOS) - {"rvea", "cmaes", "cmaes-restart", "cmaes-serial", "cmaes-simple", "nrbo"}), kinds=("free", "con", "eq"), gens=(2, 8)), kind=st.sampled_from(["fmin", "feas", "any", "all", "own", "indicator"]), q=st.integers(0, 20))),
         quick=240, thorough=3000, shards=(8, 8))
def in_runs(case, t):
    """an algorithm stops in the first iteration in which the criterion is met"""
    spec, kind = case["r"], case["kind"]
    name = spec["algo"]
    G = spec["gens"] + 4
    _, rows, log, prob = algos.run(spec, termination=("n_gen", G))
    best, feas = [], []
    for r in rows:
        fe = [p["F"] for p in r["opt"] if p["feas"]]
        feas.append(bool(fe))
        best.append(min(f.min() for f in fe) if fe else np.inf)
    if kind == "fmin":
        v = sorted(set(best))[case["q"] % len(set(best))]
        if not np.isfinite(v):
            return
        term = TerminateIfAny(MinimumFunctionValueTermination(float(v)), MaximumGenerationTermination(G))
        met = [b <= v for b in best]
    elif kind == "feas":
        term = TerminateIfAny(UntilFeasibleTermination(), MaximumGenerationTermination(G))
        met = feas
    elif kind in ("any", "all"):
        N = case["q"] * 10 + 1
        g = 1 + case["q"] % 5
        cls = TerminateIfAny if kind == "any" else TerminateIfAll
        term = cls(MaximumGenerationTermination(g), MaximumFunctionCallTermination(N))
        f = any if kind == "any" else all
        met = [f([k + 1 >= g, r["n_eval"] >= N]) for k, r in enumerate(rows)]
        if kind == "all" and not any(met):
            term = TerminateIfAny(term, MaximumGenerationTermination(G))
    elif kind == "indicator":
        th = case["q"] % 6 + 1

        class Count:
            def do(self, F):
                return len(F)
        term = TerminateIfAny(IndicatorTermination(Count(), th, "maximize"), MaximumGenerationTermination(G))
        met = [len(r["opt"]) >= th for r in rows]
    else:
        k0 = case["q"] % G

        class Own(Termination):
            def _update(self, algorithm):
                return 1.0 if algorithm.n_iter > k0 else algorithm.n_iter / (k0 + 1)
        term = Own()
        met = [k + 1 > k0 for k in range(G)]
    want = next((k + 1 for k, m in enumerate(met) if m), G)
    before = copy.deepcopy(term.__dict__)
    res, rows2, log2, _ = algos.run(spec, termination=term)
    t.nontrivial(1 < want < G)
    t.require(len(rows2) == want, f"{name}: {kind}: {len(rows2)} iterations, criterion met in iteration {want}")
    t.require([b.tobytes() for b in log2] == [b.tobytes() for b in log[:len(log2)]], f"{name}: {kind}: another course")
    t.require(term.perc == before["perc"] and not term.force_termination, "minimize changed the termination object")
    _, rows3, _, _ = algos.run(spec, termination=term)
    t.require(len(rows3) == want, f"{name}: {kind}: {len(rows3)} iterations when the criterion object is used again, {want} before")
