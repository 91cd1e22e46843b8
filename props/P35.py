"""P35: time-dependent problems are a function of their time, and dynamic algorithms work with the values of the current time."""
import numpy as np
from hypothesis import strategies as st

from pymoo.algorithms.moo.dnsga2 import DNSGA2
from pymoo.algorithms.moo.kgb import KGB
from pymoo.algorithms.moo.nsga2 import NSGA2
from pymoo.algorithms.soo.nonconvex.ga import GA
from pymoo.core.callback import Callback, CallbackCollection
from pymoo.core.population import Population
from pymoo.operators.crossover.sbx import SBX
from pymoo.optimize import minimize
from pymoo.problems import get_problem
from pymoo.problems.dyn import DynamicTestProblem, TimeSimulation
from pymoo.problems.dynamic import cec2015
from vp import gen, ref
from vp.core import Prop

P = Prop("P35", "the time changes at least once while it is used", ["the problem itself is deterministic for a point in time"])


class Drift(DynamicTestProblem):
    """two or three quadratics whose centres move; every value changes by at least 0.1 whenever the time does.

    cancel: the centres stay, and what the first objective gains the second one loses"""

    def __init__(self, n_var, n_obj, lo, width, seed=0, cancel=False, **kwargs):
        kwargs = dict(dict(nt=2, taut=1), **kwargs)
        super().__init__(n_var=n_var, n_obj=n_obj, xl=lo, xu=lo + width, **kwargs)
        r = np.random.default_rng(seed)
        self.C = lo + width * r.random((n_obj, n_var))
        self.S = 0.05 * width * r.random(n_var) * (not cancel)
        self.sign = np.array([1.0, -1.0] + [0.0] * (n_obj - 2)) if cancel else np.ones(n_obj)
        self.log = []

    def values(self, X, time):
        F = (((X[:, None, :] - self.C[None] - self.S * np.sin(time)) / (self.xu - self.xl)) ** 2).sum(axis=2)
        return F + 100.0 * time * self.sign

    def _evaluate(self, X, out, *args, **kwargs):
        F = self.values(X, self.time)
        self.log.append((self.time, X.copy(), F))
        out["F"] = F.copy()

    def _calc_pareto_front(self, *args, **kwargs):
        return self.values(self.C, self.time)

    def _calc_pareto_set(self, *args, **kwargs):
        return self.C + self.S * np.sin(self.time)


def make(name, n_var, kw):
    if name == "drift":
        return Drift(n_var, 2 + n_var % 2, -1.0, 3.0, **kw)
    if hasattr(cec2015, name):
        return getattr(cec2015, name)(n_var=n_var + 11, **kw)
    return get_problem(name, n_var=n_var + 1, **kw)


NAMES = ["drift"] + ["df%d" % k for k in range(1, 15)] + ["FDA2DEB", "FDA4", "FDA5", "DIMP2", "dMOP2", "HE2", "HE7", "HE9"]
OP = st.one_of(st.tuples(st.just("tic"), st.integers(0, 12)), st.tuples(st.just("tic1")), st.tuples(st.just("time"), st.sampled_from([0.0, 0.1, 0.5, 1.0, 1.7, 2.35, 3.0])), st.tuples(st.just("clear")),
               st.tuples(st.just("front")), st.tuples(st.just("set")), st.tuples(st.just("eval")), st.tuples(st.just("ideal")))


@P.check(st.fixed_dictionaries(dict(name=st.sampled_from(NAMES), n=st.integers(2, 4), nt=st.sampled_from([1, 2, 5, 10]), taut=st.sampled_from([1, 2, 3, 10]), tau=st.sampled_from([0, 1, 2, 5, 19]),
                                    time=st.sampled_from([None, None, 0.0, 0.3]), ops=st.lists(OP, min_size=2, max_size=12), s=gen.SEED)), quick=500, thorough=8000, shards=(2, 8))
def clock(case, t):
    """any history of ticks, changes of the time and uses: values, front, set, ideal and nadir point are the ones of a new problem at that time"""
    nt, taut, tau, time = case["nt"], case["taut"], case["tau"], case["time"]
    kw = dict(nt=nt, taut=taut, tau=tau)
    if time is not None:
        kw["time"] = time
    p = make(case["name"], case["n"], kw)
    r = gen.rng(case["s"])
    X = p.xl + (p.xu - p.xl) * r.random((4, p.n_var))
    kinds = set()
    fronts = case["name"] == "drift" or case["name"].startswith("df")

    def now():
        return time if time is not None else 1 / nt * (tau // taut)

    def fresh():
        return make(case["name"], case["n"], dict(kw, tau=tau, time=time))

    for op in [("eval",)] + case["ops"] + [("eval",), ("front",), ("ideal",)]:
        if op[0] == "tic":
            p.tic(op[1])
            tau += op[1]
        elif op[0] == "tic1":
            p.tic()
            tau += 1
        elif op[0] == "time":
            p.time = time = op[1]
        elif op[0] == "clear":
            p.time = time = None
        kinds.add(now())
        t.require(p.tau == tau and p.time == now(), f"time {p.time} (tau {p.tau}), by definition {now()} (tau {tau}, nt {nt}, taut {taut})")
        if op[0] == "eval":
            a, b = p.evaluate(X), fresh().evaluate(X)
            t.require(np.array_equal(a, b, equal_nan=True), f"{case['name']}: values at time {now()} are {a[0]}, those of a new problem {b[0]}")
        elif op[0] == "front" and fronts:
            a, b = p.pareto_front(), fresh().pareto_front()
            t.require(np.array_equal(a, b), f"{case['name']}: the pareto front is not the one of time {now()}", "stale")
        elif op[0] == "set" and case["name"] == "drift":
            t.require(np.array_equal(p.pareto_set(), fresh().pareto_set()), f"the pareto set is not the one of time {now()}", "stale")
        elif op[0] == "ideal" and fronts:
            a, b = fresh().ideal_point(), fresh().nadir_point()
            t.require(np.array_equal(p.ideal_point(), a) and np.array_equal(p.nadir_point(), b), f"{case['name']}: ideal and nadir point are not the ones of time {now()}", "stale")
    t.nontrivial(len(kinds) > 1)


@P.check(st.fixed_dictionaries(dict(n_var=st.integers(3, 15), tau=st.integers(0, 40), s=gen.SEED)), quick=20, thorough=200)
def usable(case, t):
    """every exported dynamic test problem can be evaluated"""
    r = gen.rng(case["s"])
    for name in sorted(k for k, v in vars(cec2015).items() if isinstance(v, type) and issubclass(v, cec2015.DynamicCEC2015) and v is not cec2015.DynamicCEC2015):
        p = getattr(cec2015, name)(n_var=case["n_var"] + 11, tau=case["tau"])
        t.nontrivial(True)
        try:
            F = p.evaluate(p.xl + (p.xu - p.xl) * r.random((3, p.n_var)))
        except TypeError as e:
            t.fail(f"{name} cannot be evaluated: {e}", "usable:" + name)
            continue
        t.require(F.shape == (3, p.n_obj), f"{name}: shape {F.shape}")


class Parents(SBX):
    """the parents since somebody asked last"""

    def __init__(self):
        super().__init__(eta=15, prob=0.9)
        self.seen = []

    def _do(self, problem, X, *args, **kwargs):
        self.seen.extend(np.array(X).reshape(-1, X.shape[-1]).tolist())
        return super()._do(problem, X, *args, **kwargs)


class Watch(Callback):
    def __init__(self):
        super().__init__()
        self.rows = []

    def notify(self, algorithm):
        p = algorithm.problem
        cross = algorithm.mating.crossover
        parents = {tuple(x) for x in cross.seen}
        del cross.seen[:]
        self.rows.append(dict(parents=parents, tau=p.tau, time=p.time, n_log=len(p.log), n_eval=algorithm.evaluator.n_eval, X=algorithm.pop.get("X"), F=algorithm.pop.get("F"), oX=algorithm.opt.get("X"), oF=algorithm.opt.get("F"), n_iter=algorithm.n_iter))


ALG = st.fixed_dictionaries(dict(algo=st.sampled_from(["A", "B", "A", "B", "kgb"]), n=st.integers(5, 14), n_var=st.integers(1, 4), m=st.integers(2, 3), lo=st.sampled_from([0.0, -1.0, 5.0]), width=st.sampled_from([1.0, 0.5, 4.0]),
                                 taut=st.integers(1, 4), tau=st.integers(0, 5), nt=st.integers(1, 10), gens=st.integers(3, 10), seed=st.integers(0, 1000), detect=st.sampled_from([0.1, 0.3, 1.0]), div=st.sampled_from([0.0, 0.3, 1.0]),
                                 eps=st.sampled_from([0.0, 0.0, 0.0, 1e12]), order=st.booleans(), cancel=st.sampled_from([False, False, True])))


@P.check(ALG, quick=150, thorough=3000, shards=(4, 8))
def react(case, t):
    """D-NSGA-II and KGB-DMOEA while the time goes on: nothing is left of values of another time, and only a change costs evaluations of the population"""
    algo, n = case["algo"], case["n"]
    if algo == "kgb":
        n += 10  # clusters are part of the new population
        lo, width = 0.0, 1.0
    else:
        lo, width = case["lo"], case["width"]
    prob = Drift(case["n_var"] + (algo == "kgb"), case["m"], lo, width, seed=case["seed"], cancel=case["cancel"], nt=case["nt"], taut=case["taut"], tau=case["tau"])
    kw = dict(pop_size=n, perc_detect_change=case["detect"], perc_diversity=case["div"], eps=case["eps"])
    cross = Parents()
    alg = KGB(crossover=cross, **kw) if algo == "kgb" else DNSGA2(version=algo, crossover=cross, **kw)
    w, sim = Watch(), TimeSimulation()
    res = minimize(prob, alg, ("n_gen", case["gens"]), seed=case["seed"], callback=CallbackCollection(w, sim) if case["order"] else Both(w, sim))
    rows = w.rows
    t.require(len(rows) == case["gens"], f"{len(rows)} iterations of {case['gens']}")
    t.require([r["tau"] for r in rows] == [case["tau"] + k for k in range(len(rows))] and prob.tau == case["tau"] + len(rows), f"the time in the iterations: {[r['tau'] for r in rows]}, starting with {case['tau']}")
    what = "kgb" if algo == "kgb" else "dnsga2 " + algo
    changes, start = 0, 0
    for k, r in enumerate(rows):
        batches = prob.log[start:r["n_log"]]
        start = r["n_log"]
        t.require(r["n_eval"] == sum(len(b[1]) for b in prob.log[:r["n_log"]]), f"{what}: {r['n_eval']} evaluations counted")
        t.require(len(r["X"]) == n and len(r["oX"]) >= 1, f"{what}: {len(r['X'])} individuals")
        t.require(((r["X"] >= lo) & (r["X"] <= lo + width)).all(), f"{what}: out of bounds")
        for b in batches:
            t.require(b[0] == r["time"], f"{what}: evaluated at another time")
        changed = k > 0 and rows[k - 1]["time"] != r["time"]
        if k == 0:
            continue
        seen = changed and case["eps"] == 0.0
        around = batches[-2][1] if seen else rows[k - 1]["X"]
        t.require(r["parents"] <= {tuple(x) for x in around.tolist()}, f"{what}: a parent of the offspring is not a member of the population {'that was evaluated again' if seen else ''}", "parents")
        ns = int(np.ceil(n * case["detect"]))
        t.require(len(batches[0][1]) == ns and all(any(np.array_equal(x, y) for y in rows[k - 1]["X"]) for x in batches[0][1]), f"{what}: the first evaluations of an iteration are not those of {ns} individuals of the population")
        t.require(len(batches) == (2 if not seen else 4 if algo == "kgb" else 3), f"{what}: {[len(b[1]) for b in batches]} evaluations in an iteration {'with' if seen else 'without'} a change")
        t.require(len(batches[-1][1]) <= n, f"{what}: {len(batches[-1][1])} offspring")
        if seen:
            changes += 1
            # everything belongs to the present
            t.require(np.array_equal(r["F"], prob.values(r["X"], r["time"])), f"{what}: values of another time in the population after a change", "stale-values")
            t.require(np.array_equal(r["oF"], prob.values(r["oX"], r["time"])), f"{what}: values of another time in the optimum after a change", "stale-values")
            again = batches[-2][1]
            if algo != "kgb":
                t.require(len(again) == n, f"{what}: {len(again)} solutions evaluated again")
                kept = (again == rows[k - 1]["X"]).all(axis=1)
                t.require(case["div"] > 0 or kept.all(), f"{what}: individuals replaced although no diversity is asked for")
                if case["div"] == 1.0 and algo == "A":
                    t.require(not kept.any(), f"{what}: {kept.sum()} individuals kept although all are to be replaced by random ones")
        # survivors are the best of population and offspring (in terms of domination)
        if case["eps"] == 0.0:
            pool = np.vstack([batches[-2][2] if seen else rows[k - 1]["F"], batches[-1][2]])
            keep = ref.nondominated(pool)
            best = {tuple(f) for f in pool[keep]}
            got = {tuple(f) for f in r["F"]}
            t.require(best <= got if len(keep) <= n else got <= best, f"{what}: non-dominated solutions of population and offspring were lost")
        t.require({tuple(f) for f in r["oF"]} == {tuple(f) for f in r["F"][ref.nondominated(r["F"])]}, f"{what}: the optimum is not the non-dominated set")
    t.nontrivial(changes > 0)
    t.require(np.array_equal(res.F, rows[-1]["oF"]) and np.array_equal(res.X, rows[-1]["oX"]), f"{what}: the result is not the optimum of the last iteration")


class Both(Callback):
    """as a function of the user would do it"""

    def __init__(self, *cbs):
        super().__init__()
        self.cbs = cbs

    def update(self, algorithm):
        for c in self.cbs:
            c(algorithm)


@P.check(st.fixed_dictionaries(dict(n_var=st.integers(1, 3), nt=st.integers(1, 5), taut=st.integers(1, 4), tau=st.integers(0, 5), gens=st.integers(1, 8), so=st.booleans(), seed=st.integers(0, 100))), quick=60, thorough=600)
def simulation(case, t):
    """with a time simulation the time goes on by one per iteration, for any algorithm; static problems are refused"""
    prob = Drift(case["n_var"], 1 if case["so"] else 2, 0.0, 1.0, seed=case["seed"], nt=case["nt"], taut=case["taut"], tau=case["tau"])
    minimize(prob, (GA if case["so"] else NSGA2)(pop_size=6, eliminate_duplicates=False), ("n_gen", case["gens"]), seed=case["seed"], callback=TimeSimulation())
    t.nontrivial(case["gens"] > case["taut"])
    t.require(prob.tau == case["tau"] + case["gens"], f"tau {prob.tau} after {case['gens']} iterations, it was {case['tau']}")
    want = [1 / case["nt"] * ((case["tau"] + k) // case["taut"]) for k in range(case["gens"])]
    t.require([b[0] for b in prob.log] == want, f"evaluated at {[b[0] for b in prob.log]}, by definition {want}")
    try:
        minimize(get_problem("zdt1", n_var=3), NSGA2(pop_size=4), ("n_gen", 2), callback=TimeSimulation())
    except Exception:
        return
    t.fail("a time simulation of a static problem was accepted")
