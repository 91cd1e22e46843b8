"""Every algorithm of pymoo on generated problems, with a complete record of what happened."""
import numpy as np
from hypothesis import strategies as st

from pymoo.core.callback import Callback
from pymoo.core.problem import Problem
from pymoo.optimize import minimize
from pymoo.util.ref_dirs import get_reference_directions

from . import gen
from .core import Skip
from .probs import Poly, poly_spec


def _dirs(m, n):
    """at most n das-dennis directions (at least m)"""
    p = 1
    while True:
        W = get_reference_directions("das-dennis", m, n_partitions=p + 1)
        if len(W) > n:
            break
        p += 1
    return get_reference_directions("das-dennis", m, n_partitions=p)


def _moo(mod, cls, **fix):
    def f(m, n, **kw):
        c = getattr(__import__("pymoo.algorithms.moo." + mod, fromlist=[cls]), cls)
        return c(pop_size=n, **fix, **kw)
    return f


def _ref(mod, cls, pop=True, **fix):
    def f(m, n, **kw):
        c = getattr(__import__("pymoo.algorithms.moo." + mod, fromlist=[cls]), cls)
        W = _dirs(m, n)
        if pop:
            kw["pop_size"] = max(n, len(W))
        return c(W, **fix, **kw)
    return f


def _moead(m, n, **kw):
    from pymoo.algorithms.moo.moead import MOEAD
    W = _dirs(m, n)
    return MOEAD(W, n_neighbors=max(2, min(5, len(W))), prob_neighbor_mating=0.7, **kw)


def _pmoead(m, n, **kw):
    from pymoo.algorithms.moo.moead import ParallelMOEAD
    W = _dirs(m, n)
    return ParallelMOEAD(W, n_neighbors=max(2, min(5, len(W))), **kw)


def _rnsga2(m, n, **kw):
    from pymoo.algorithms.moo.rnsga2 import RNSGA2
    return RNSGA2(np.array([[0.3] * m, [0.6] + [0.1] * (m - 1)]), pop_size=n, epsilon=0.01, normalization="no", **kw)


def _rnsga3(m, n, **kw):
    from pymoo.algorithms.moo.rnsga3 import RNSGA3
    return RNSGA3(np.array([[0.3] * m, [0.6] + [0.1] * (m - 1)]), pop_per_ref_point=len(_dirs(m, max(m, n // 2))), mu=0.1, **kw)


def _soo(mod, cls, **fix):
    def f(m, n, **kw):
        c = getattr(__import__("pymoo.algorithms.soo.nonconvex." + mod, fromlist=[cls]), cls)
        return c(pop_size=n, **fix, **kw)
    return f


def _local(mod, cls, **fix):
    def f(m, n, **kw):
        c = getattr(__import__("pymoo.algorithms.soo.nonconvex." + mod, fromlist=[cls]), cls)
        return c(**fix, **kw)
    return f


def _es(mod, cls):
    def f(m, n, **kw):
        c = getattr(__import__("pymoo.algorithms.soo.nonconvex." + mod, fromlist=[cls]), cls)
        return c(pop_size=max(2, n // 4), n_offsprings=2 * max(2, n // 4) + n // 2, **kw)
    return f


def _brkga(m, n, **kw):
    from pymoo.algorithms.soo.nonconvex.brkga import BRKGA
    return BRKGA(n_elites=max(2, n // 4), n_offsprings=max(2, n // 2), n_mutants=max(1, n // 4), **kw)


def _random(m, n, **kw):
    from pymoo.algorithms.soo.nonconvex.random_search import RandomSearch
    return RandomSearch(n_points_per_iteration=n, **kw)


def _cmaes(**fix):
    def f(m, n, **kw):
        from pymoo.algorithms.soo.nonconvex.cmaes import CMAES
        return CMAES(**fix, **kw)
    return f


class A:
    def __init__(self, make, mo, con=True, elitist=False, nmin=4, deterministic=True, at=True, nvmin=1):
        self.make, self.mo, self.con, self.elitist, self.nmin = make, mo, con, elitist, nmin
        self.at = at  # ask-and-tell works with the individuals handed out
        self.nvmin = nvmin


ALGOS = {
    "nsga2": A(_moo("nsga2", "NSGA2"), True),
    "nsga3": A(_ref("nsga3", "NSGA3"), True),
    "unsga3": A(_ref("unsga3", "UNSGA3"), True),
    "rnsga2": A(_rnsga2, True),
    "rnsga3": A(_rnsga3, True),
    "moead": A(_moead, True, con=False, nmin=5),
    "pmoead": A(_pmoead, True, con=False, nmin=5),
    "age": A(_moo("age", "AGEMOEA"), True),
    "age2": A(_moo("age2", "AGEMOEA2"), True),
    "ctaea": A(_ref("ctaea", "CTAEA", pop=False), True),
    "rvea": A(_ref("rvea", "RVEA"), True),
    "sms": A(_moo("sms", "SMSEMOA"), True),
    "spea2": A(_moo("spea2", "SPEA2"), True),
    "dnsga2": A(_moo("dnsga2", "DNSGA2"), True, con=False, at=False),
    "dnsga2b": A(_moo("dnsga2", "DNSGA2", version="B"), True, con=False, at=False),
    "kgb": A(_moo("kgb", "KGB"), True, con=False, at=False),
    "nsde": A(_moo("nsde", "NSDE"), True, nmin=6),
    "nsde-exp": A(_moo("nsde", "NSDE", variant="DE/current-to-rand/1/exp", de_repair="midway"), True, nmin=6),
    "gde3": A(_moo("gde3", "GDE3", variant="DE/ranked/1/bin"), True, nmin=6),
    "gde3mnn": A(_moo("gde3", "GDE3MNN", de_repair="rand-init"), True, nmin=6),
    "gde32nn": A(_moo("gde3", "GDE32NN", de_repair="to-bounds"), True, nmin=6),
    "gde3pcd": A(_moo("gde3", "GDE3PCD"), True, nmin=6),
    "nsder": A(_ref("nsder", "NSDER"), True, nmin=6),
    "mopso_cd": A(_moo("mopso_cd", "MOPSO_CD", archive_size=10), True),
    "cmopso": A(_moo("cmopso", "CMOPSO", elite_size=5), True),
    "omni": A(_moo("omni", "OmniOptimizer"), True),
    "ga": A(_soo("ga", "GA"), False, elitist=True),
    "ga1": A(_soo("ga", "GA", n_offsprings=1), False, elitist=True),
    "de": A(_soo("de", "DE"), False, elitist=True, nmin=6),
    "de-rand": A(_soo("de", "DE", variant="DE/rand/1/exp", CR=0.9), False, elitist=True, nmin=6),
    "de-none": A(_soo("de", "DE", variant=None), False, elitist=True, nmin=6),
    "es": A(_es("es", "ES"), False, elitist=True, nmin=8),
    "sres": A(_es("sres", "SRES"), False, nmin=8),
    "isres": A(_es("isres", "ISRES"), False, nmin=8),
    "g3pcx": A(_soo("g3pcx", "G3PCX"), False, elitist=True, nmin=6),
    "pso": A(_soo("pso", "PSO"), False, elitist=True),
    "epso": A(_soo("pso_ep", "EPPSO"), False, elitist=True, nmin=4),
    "nichega": A(_soo("ga_niching", "NicheGA"), False, elitist=True),
    "brkga": A(_brkga, False, elitist=True, nmin=8),
    "random": A(_random, False, elitist=True),
    "nelder": A(_local("nelder", "NelderMead", n_sample_points=5), False, elitist=True),
    "pattern": A(_local("pattern", "PatternSearch", n_sample_points=5), False, elitist=True),
    "direct": A(_local("direct", "DIRECT"), False, elitist=True),
    "nrbo": A(_soo("nrbo", "NRBO", max_iteration=30), False, elitist=True),
    "cmaes-simple": A(_local("cmaes", "SimpleCMAES"), False, con=True, elitist=True, nvmin=2),
    "cmaes": A(_cmaes(), False, con=True, elitist=True, nvmin=2),
    "cmaes-restart": A(_cmaes(restarts=2, popsize=5, maxfevals=60), False, con=True, elitist=True, nvmin=2),
    "cmaes-serial": A(_cmaes(parallelize=False), False, con=True, elitist=True, nvmin=2),
}


class Rec(Problem):
    """a generated problem that logs every point it is asked for (the log is shared by all copies)"""

    LOGS = {}

    def __init__(self, poly, style="poly", key=None, **kw):
        super().__init__(**poly.kw(), **kw)
        self.poly, self.style, self.key = poly, style, key

    def _evaluate(self, X, out, *args, **kwargs):
        if self.key is not None:
            Rec.LOGS[self.key].append(np.array(X))
        F, G, H = self.values(X)
        out["F"], out["G"], out["H"] = F, G, H

    def values(self, X):
        F, G, H = self.poly.all(np.atleast_2d(np.asarray(X, dtype=float)))
        if self.style == "flat":
            F = np.floor(F)
        elif self.style == "const":
            F = F * 0.0 + 1.0
        return F, G, H


# eqonly: an equality constraint hardly ever satisfied; eqstep: one that is satisfied in a part of the space; hard: nothing is feasible
KINDS = ("free", "free", "con", "con", "eq", "hard", "eqonly", "eqstep")


def problem_spec(kinds=KINDS):
    return st.fixed_dictionaries(dict(n=st.integers(1, 4), m=st.integers(2, 3), kind=st.sampled_from(list(kinds)), style=st.sampled_from(["poly", "poly", "poly", "flat"]), s=gen.SEED))


def run_spec(names=None, kinds=KINDS, gens=(1, 6)):
    return st.fixed_dictionaries(dict(algo=st.sampled_from(sorted(names or ALGOS)), n=st.integers(4, 14), p=problem_spec(kinds),
                                      gens=st.integers(*gens), seed=st.integers(0, 1000)))


def mk_problem(spec, algo, **kw):
    a = ALGOS[algo]
    kind = spec["kind"]
    if not a.con:
        kind = "free"
    g, h = dict(free=(0, 0), con=(1, 0), eq=(1, 1), hard=(2, 0), eqonly=(0, 1), eqstep=(1, 1) if spec["s"] % 2 else (0, 1))[kind]
    p = Poly(dict(n=max(spec["n"], a.nvmin), m=spec["m"] if a.mo else 1, g=g, h=h, s=spec["s"]))
    if kind == "hard":  # nothing is feasible
        p.cG[0][:] = np.abs(p.cG[0])
        p.cG[2][:] = 0.0
        G = p.G
        p.G = lambda x: G(x) + 3.0
    if kind == "eqstep":
        H = p.H
        p.H = lambda x: np.floor(H(x))
    return Rec(p, spec["style"], **kw)


def mk_algo(spec, **kw):
    a = ALGOS[spec["algo"]]
    return a.make(spec["p"]["m"] if a.mo else 1, max(spec["n"], a.nmin), **kw)


class Trace(Callback):
    """per iteration: counters and copies of population and optimum"""

    def __init__(self, stop=None):
        super().__init__()
        self.rows = []

    def notify(self, algorithm):
        pop, opt = algorithm.pop, algorithm.opt
        self.rows.append(dict(n_iter=algorithm.n_iter, n_eval=algorithm.evaluator.n_eval, pop=snap(pop), opt=snap(opt)))


def snap(pop):
    if pop is None:
        return None
    return [dict(X=np.array(p.X, dtype=float), F=np.array(p.F, dtype=float), G=np.array(p.G, dtype=float), H=np.array(p.H, dtype=float), CV=float(p.CV[0]), feas=bool(p.feas), id=id(p)) for p in pop]


def run(spec, termination=None, problem=None, algorithm=None, setup=None, **kw):
    """-> (result, trace rows, log of evaluated batches, problem)"""
    key = object()
    Rec.LOGS[id(key)] = []
    prob = problem if problem is not None else mk_problem(spec["p"], spec["algo"])
    prob.key = id(key)
    tr = Trace()
    try:
        res = minimize(prob, algorithm if algorithm is not None else mk_algo(spec, **kw), termination or ("n_gen", spec["gens"]), seed=spec["seed"], callback=tr, **(setup or {}))
        return res, res.algorithm.callback.rows, Rec.LOGS[id(key)], prob
    finally:
        log = Rec.LOGS.pop(id(key))
        prob.key = None
