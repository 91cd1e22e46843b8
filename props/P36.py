"""P36: hyper-parameters of an algorithm are found, set and controlled exactly; tuning evaluates exactly the algorithm with these parameters."""
import copy

import numpy as np
from hypothesis import strategies as st

from pymoo.algorithms.hyperparameters import HyperparameterProblem, MultiRun, SingleObjectiveSingleRun, create, stats_avg_nevals
from pymoo.algorithms.moo.nsga2 import NSGA2
from pymoo.algorithms.soo.nonconvex.de import DE, Variant
from pymoo.algorithms.soo.nonconvex.ga import GA
from pymoo.algorithms.soo.nonconvex.pso_ep import EPPSO, Swarm
from pymoo.core.crossover import Crossover
from pymoo.core.mixed import MixedVariableGA
from pymoo.core.mutation import Mutation
from pymoo.core.parameters import deactivate_params, flatten, get_params, hierarchical, set_params
from pymoo.core.population import Population
from pymoo.core.problem import Problem
from pymoo.core.variable import Binary, Choice, Integer, Real, Variable, get
from pymoo.operators.control import EvolutionaryParameterControl, NoParameterControl, ParameterControlMating, RandomParameterControl
from pymoo.operators.crossover.sbx import SBX
from pymoo.operators.mutation.pm import PM
from pymoo.operators.selection.rnd import RandomSelection
from pymoo.optimize import minimize
from vp import algos, gen
from vp.core import Prop

P = Prop("P36", "at least two parameters that differ in their values, or in how they are nested", ["objects that refer to each other in circles are not searched for parameters"])


class Node:
    pass


KEY = st.sampled_from(["a", "b", "eta", "prob", "x1", "vars", "crossover"])
LEAF = st.fixed_dictionaries(dict(leaf=st.sampled_from(["real", "int", "bin", "choice", "real"]), active=st.sampled_from([True, True, False]), flag=st.sampled_from(["default", "default", "other"]), v=st.integers(0, 9)))
OTHER = st.sampled_from([None, 3, 2.5, "text", [1, 2], (3,)]).map(lambda v: dict(value=v))
TREE = st.recursive(st.one_of(LEAF, OTHER, LEAF), lambda c: st.fixed_dictionaries(dict(kind=st.sampled_from(["node", "dict"]), items=st.dictionaries(KEY, c, min_size=1, max_size=4))), max_leaves=10)
ROOT = st.fixed_dictionaries(dict(kind=st.sampled_from(["node", "dict"]), items=st.dictionaries(KEY, TREE, min_size=1, max_size=5)))


def variable(s):
    kw = dict(active=s["active"], flag=s["flag"])
    if s["leaf"] == "real":
        return Real(float(s["v"]), bounds=(0.0, 10.0), **kw)
    if s["leaf"] == "int":
        return Integer(s["v"], bounds=(0, 10), **kw)
    if s["leaf"] == "bin":
        return Binary(bool(s["v"] % 2), **kw)
    return Choice("abc"[s["v"] % 3], options=["a", "b", "c"], **kw)


def build(s, path, found):
    if "leaf" in s:
        v = variable(s)
        found[path] = v
        return v
    if "items" not in s:
        return s["value"]
    items = {k: build(c, path + (k,), found) for k, c in s["items"].items()}
    if s["kind"] == "dict":
        return items
    n = Node()
    n.__dict__.update(items)
    return n


def at(obj, path):
    for k in path:
        obj = obj[k] if isinstance(obj, dict) else obj.__dict__[k]
    return obj


def paths(d, pre=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from paths(v, pre + (k,))
        else:
            yield pre + (k,), v


@P.check(st.fixed_dictionaries(dict(tree=ROOT, flag=st.sampled_from(["default", "default", "other"]), only=st.booleans(), as_value=st.booleans(), s=gen.SEED)), quick=800, thorough=15000, shards=(2, 8))
def nested(case, t):
    """the parameters of nested objects: all of them and only them, under the path they have; setting changes the named ones only"""
    found = {}
    obj = build(case["tree"], (), found)
    want = {p: v for p, v in found.items() if v.flag == case["flag"] and (v.active or not case["only"])}
    t.nontrivial(len(want) > 1 and len({len(p) for p in want}) > 1)
    params = get_params(obj, flag=case["flag"], only_active=case["only"])
    got = dict(paths(params))
    t.require(set(got) == set(want), f"parameters {sorted(got)} found, there are {sorted(want)}")
    t.require(all(got[p] is want[p] for p in want), "a parameter is another object than the one of the algorithm")
    flat = flatten(params)
    t.require({k: id(v) for k, v in flat.items()} == {".".join(p): id(v) for p, v in want.items()}, f"flattened: {sorted(flat)}")
    back = hierarchical(flat)
    t.require({p: id(v) for p, v in paths(back)} == {p: id(v) for p, v in want.items()}, f"flattened and nested again: {back}")
    # set some of them
    r = gen.rng(case["s"])
    chosen = [p for p in sorted(want) if r.random() < 0.6]
    before = {p: (v.value, v.active) for p, v in found.items()}
    new = {}
    for i, p in enumerate(chosen):
        new[p] = ("new", i) if case["as_value"] else Real(float(i))
    set_params(obj, hierarchical({".".join(p): v for p, v in new.items()}), as_value=case["as_value"])
    for p, v in found.items():
        cur = at(obj, p)
        if p not in new:
            t.require(cur is v and (v.value, v.active) == before[p], f"parameter {p} was changed although others were set")
        elif case["as_value"]:
            t.require(cur is v and v.value == new[p] and v.get() == new[p], f"parameter {p} set to {new[p]} is {v.value}", "set")
        else:
            t.require(cur is new[p], f"parameter {p} was not replaced by the given one", "set")
    if case["as_value"]:
        deactivate_params(obj)
        for p, v in found.items():
            t.require(v.active == (before[p][1] and v.flag != "default"), f"parameter {p}: active {v.active} after deactivating, before {before[p][1]}, flag {v.flag}")
        t.require(get_params(obj) == {}, "parameters found after deactivating all of them")


@P.check(st.fixed_dictionaries(dict(v=st.lists(st.sampled_from([0, 1.5, "a", None]), min_size=1, max_size=4), size=st.sampled_from([None, 1, 3, (2, 2)]), wrap=st.lists(st.booleans(), min_size=4, max_size=4), arr=st.booleans(), s=gen.SEED)), quick=200, thorough=3000)
def values(case, t):
    """a parameter is used like the plain value, one per individual if it has several"""
    args = [Variable(v) if w else v for v, w in zip(case["v"], case["wrap"])]
    size = case["size"]
    if case["arr"] and size is not None:
        r = gen.rng(case["s"])
        vals = [r.random(size) for _ in args]
        args = [Variable(v) if w else v for v, w in zip(vals, case["wrap"])]
        want = vals
    else:
        want = [v if size is None else np.full(size, v) for v in case["v"]]
    t.nontrivial(len(args) > 1 and size is not None)
    got = get(*args, size=size)
    got = (got,) if len(args) == 1 else got
    t.require(isinstance(got, tuple) and len(got) == len(want), f"{got}")
    for g, w in zip(got, want):
        t.require(np.array_equal(np.asarray(g, dtype=object), np.asarray(w, dtype=object)), f"value {g}, expected {w}")


PAR = st.fixed_dictionaries(dict(eta=st.floats(3.0, 30.0).map(lambda v: round(v, 2)), prob=st.sampled_from([0.3, 0.7, 0.9]), prob_var=st.sampled_from([0.2, 0.5, 0.9]), m_eta=st.floats(3.0, 30.0).map(lambda v: round(v, 2)), m_prob=st.sampled_from([0.2, 0.9])))


def to_params(alg, par):
    want = {"mating.crossover.eta": par["eta"], "mating.crossover.prob": par["prob"], "mating.crossover.prob_var": par["prob_var"], "mating.mutation.eta": par["m_eta"], "mating.mutation.prob": par["m_prob"]}
    return want


def points(problem, alg, gens, seed):
    p = copy.deepcopy(problem)
    key = object()
    algos.Rec.LOGS[id(key)] = []
    p.key = id(key)
    try:
        res = minimize(p, alg, ("n_gen", gens), seed=seed)
        return res, [b.tobytes() for b in algos.Rec.LOGS[id(key)]]
    finally:
        algos.Rec.LOGS.pop(id(key))


@P.check(st.fixed_dictionaries(dict(par=PAR, n=st.integers(5, 12), p=algos.problem_spec(("free", "con")), gens=st.integers(2, 5), seed=st.integers(0, 1000), seeds=st.lists(st.integers(0, 1000), min_size=1, max_size=3), kind=st.sampled_from(["single", "multi", "nevals"]), other=PAR)), quick=120, thorough=2000, shards=(4, 8))
def tuning(case, t):
    """an algorithm with parameters set from outside is the algorithm constructed with them; a performance is the one of its runs"""
    par = case["par"]
    spec = dict(algo="ga", n=case["n"], p=case["p"], gens=case["gens"], seed=case["seed"])
    problem = algos.mk_problem(case["p"], "ga")

    def mk(q):
        return GA(pop_size=case["n"], crossover=SBX(eta=q["eta"], prob=q["prob"], prob_var=q["prob_var"]), mutation=PM(eta=q["m_eta"], prob=q["m_prob"]))

    want_alg, orig = mk(par), mk(case["other"])
    before = {k: v.value for k, v in flatten(get_params(orig)).items()}
    x = to_params(orig, par)
    t.nontrivial(par != case["other"])
    t.require(set(x) <= set(before), f"parameters of a genetic algorithm: {sorted(before)}")
    made = create(orig, x)
    t.require({k: v.value for k, v in flatten(get_params(orig)).items()} == before, "the given algorithm was changed")
    t.require(all(flatten(get_params(made))[k].value == v for k, v in x.items()), "the parameters were not set")
    a, la = points(problem, want_alg, case["gens"], case["seed"])
    b, lb = points(problem, made, case["gens"], case["seed"])
    t.require(la == lb, "an algorithm with parameters set from outside takes another course than one constructed with them")
    # as a problem
    term = ("n_gen", case["gens"])
    full = {k: (x[k] if k in x else v) for k, v in before.items()}
    kw = dict(return_least_infeasible=True)
    if case["kind"] == "single":
        perf = SingleObjectiveSingleRun(problem, termination=term, seed=case["seed"], **kw)
        runs = [minimize(problem, mk(par), term, seed=case["seed"], **kw)]
    else:
        perf = MultiRun(problem, seeds=case["seeds"], termination=term, **kw) if case["kind"] == "multi" else MultiRun(problem, seeds=case["seeds"], func_stats=stats_avg_nevals, termination=term, **kw)
        runs = [minimize(problem, mk(par), term, seed=s, **kw) for s in case["seeds"]]
    want = np.mean([r.F for r in runs], axis=0) if case["kind"] != "nevals" else np.array([np.mean([r.algorithm.evaluator.n_eval for r in runs])])
    hp = HyperparameterProblem(orig, perf, n_obj=1, n_ieq_constr=problem.n_ieq_constr if case["kind"] != "nevals" else 0)
    t.require(set(hp.vars) == set(before), f"variables {sorted(hp.vars)} of the tuning, parameters {sorted(before)}")
    out = hp.evaluate(full, return_as_dictionary=True)
    t.close(np.atleast_1d(out["F"]).ravel(), np.atleast_1d(want).ravel(), "performance of a parameter setting")
    if case["kind"] != "nevals" and problem.n_ieq_constr:
        t.close(np.atleast_1d(out["G"]).ravel(), np.mean([r.G for r in runs], axis=0).ravel(), "constraints of a parameter setting")
    again = hp.evaluate(full, return_as_dictionary=True)
    t.require(np.array_equal(out["F"], again["F"]), "a parameter setting has another performance the second time")
    t.require({k: v.value for k, v in flatten(get_params(orig)).items()} == before, "the given algorithm was changed by evaluating another setting")


@P.check(st.fixed_dictionaries(dict(p=algos.problem_spec(("free",)), n=st.integers(5, 9), gens=st.integers(1, 3), hn=st.integers(4, 6), hg=st.integers(1, 3), seed=st.integers(0, 1000))), quick=16, thorough=200, shards=(4, 8))
def search(case, t):
    """a search for parameters returns a setting within its bounds together with the performance this setting really has"""
    problem = algos.mk_problem(case["p"], "ga")
    alg = GA(pop_size=case["n"])
    hp = HyperparameterProblem(alg, SingleObjectiveSingleRun(problem, termination=("n_gen", case["gens"]), seed=1), n_obj=1)
    res = minimize(hp, MixedVariableGA(pop_size=case["hn"]), ("n_gen", case["hg"]), seed=case["seed"])
    t.nontrivial(case["hg"] > 1)
    X = res.X
    for k, v in hp.vars.items():
        if isinstance(v, Real):
            t.require(v.bounds[0] <= X[k] <= v.bounds[1], f"parameter {k}: {X[k]} out of {v.bounds}")
    t.close(minimize(problem, create(alg, X), ("n_gen", case["gens"]), seed=1).F, res.F, "performance of the best parameter setting")
    hist = [np.atleast_1d(hp.evaluate(ind.X))[0] for ind in res.pop]
    t.require(min(hist) >= res.F[0], "a setting of the final population is better than the result")


class MarkX(Crossover):
    """offspring carry the parameter of their mating"""

    def __init__(self, k, o, prob=1.0):
        super().__init__(k, o, prob=prob)
        self.p = Real(0.5, bounds=(0.1, 0.9), strict=(0.0, 1.0))
        self.c = Choice("u", options=["u", "v", "w"])

    def _do(self, problem, X, **kwargs):
        p, c = get(self.p, self.c, size=X.shape[1])
        Q = np.zeros((self.n_offsprings, X.shape[1], X.shape[2]))
        Q[:, :, 0] = np.asarray(p, dtype=float)
        Q[:, :, 1] = ["uvw".index(e) for e in c]
        return Q


class MarkM(Mutation):
    def __init__(self):
        super().__init__(prob=1.0)
        self.q = Real(0.5, bounds=(0.2, 0.4))
        self.k = Integer(3, bounds=(2, 6))
        self.b = Binary(True)

    def _do(self, problem, X, **kwargs):
        q, k, b = get(self.q, self.k, self.b, size=len(X))
        X = X.copy()
        X[:, 2], X[:, 3], X[:, 4] = q, k, b
        return X


CONTROL = dict(random=RandomParameterControl, evo=EvolutionaryParameterControl)


@P.check(st.fixed_dictionaries(dict(control=st.sampled_from(sorted(CONTROL)), k=st.integers(1, 3), o=st.integers(1, 3), n=st.integers(2, 10), n_off=st.integers(1, 12), known=st.sampled_from(["none", "some", "all"]), rounds=st.integers(1, 3), s=gen.SEED)), quick=300, thorough=5000, shards=(2, 8))
def control(case, t):
    """controlled parameters: every offspring is created with, and remembers, a value of its own within the bounds"""
    r = gen.rng(case["s"])
    prob = Problem(n_var=5, n_obj=1, xl=0.0, xu=10.0)
    mating = ParameterControlMating(RandomSelection(), MarkX(case["k"], case["o"]), MarkM(), control=CONTROL[case["control"]], eliminate_duplicates=None)
    names = dict(p="ParameterControl.crossover.p", c="ParameterControl.crossover.c", q="ParameterControl.mutation.q", k="ParameterControl.mutation.k", b="ParameterControl.mutation.b")
    if not set(names.values()) <= set(mating.control.params):
        t.fail(f"parameters under control: {sorted(mating.control.params)}")
    # probabilities are parameters of operators as well - they are kept as they are here
    for k in list(mating.control.params):
        if k not in names.values():
            del mating.control.params[k]
    pop = Population.new("X", r.random((case["n"], 5)))
    pop.set("n_gen", 1)
    random_state = np.random.default_rng(case["s"])
    allseen = []
    for it in range(case["rounds"]):
        off = mating.do(prob, pop, case["n_off"], random_state=random_state)
        t.require(len(off) == case["n_off"], f"{len(off)} offspring, asked for {case['n_off']}")
        for o in off:
            p, c, q, k, b = [o.get(names[e]) for e in "pcqkb"]
            x = o.X
            t.require(0.1 <= p <= 0.9 and c in ("u", "v", "w") and 0.2 <= q <= 0.4 and k in range(2, 7) and b in (True, False), f"parameters {p, c, q, k, b} out of their bounds")
            t.require(x[0] == p and "uvw"[int(x[1])] == c, f"an offspring created with {x[0], 'uvw'[int(x[1])]} remembers the crossover parameters {p, c}", "attached")
            t.require(x[2] == q and x[3] == k and x[4] == b, f"an offspring created with {x[2], x[3], x[4]} remembers the mutation parameters {q, k, b}", "attached")
            allseen.append(p)
        off.set("n_gen", it + 2)
        pop = off if it % 2 else Population.merge(pop, off)
        if case["known"] == "none":
            pop = Population.new("X", pop.get("X"))
            pop.set("n_gen", it + 2)
    t.nontrivial(case["n_off"] > 1 and len(set(allseen)) > 1)


def snap(obj):
    return {k: np.array(v.value).tolist() for k, v in flatten(get_params(obj)).items()}


@P.check(st.fixed_dictionaries(dict(algo=st.sampled_from(["de", "epso"]), control=st.sampled_from(["random", "evo", "none"]), p=algos.problem_spec(("free", "con")), n=st.integers(6, 14), gens=st.integers(2, 6), seed=st.integers(0, 1000))), quick=80, thorough=1500, shards=(2, 8))
def in_runs(case, t):
    """differential evolution and EP-PSO with parameter control: the values of all individuals are in the bounds, and without control nothing is changed"""
    problem = algos.mk_problem(case["p"], "de" if case["algo"] == "de" else "epso")
    c = dict(CONTROL, none=NoParameterControl)[case["control"]]
    alg = DE(pop_size=case["n"], control=c, F=0.55, CR=0.37) if case["algo"] == "de" else EPPSO(pop_size=case["n"], swarm=Swarm(control=c))
    src = alg.mating if hasattr(alg, "mating") else alg.variant
    vals0 = snap(src)
    res, log = points(problem, alg, case["gens"], case["seed"])
    a = res.algorithm
    src1 = a.mating if hasattr(a, "mating") else a.variant
    params = src1.control.params
    t.nontrivial(case["control"] != "none")
    t.require(snap(src) == vals0, "the parameters of the given algorithm were changed")
    if case["control"] == "none":
        t.require(snap(src1) == vals0, "parameters without control were changed")
        return
    seen = 0
    for ind in (a.swarm if case["algo"] == "epso" else a.off if hasattr(a, "off") and a.off is not None else res.pop):
        for k, v in params.items():
            x = ind.get(k)
            if x is None:
                continue
            seen += 1
            if isinstance(v, Choice):
                t.require(x in v.options, f"{k}: {x} is none of {v.options}")
            elif isinstance(v, (Real, Integer)):
                t.require(v.bounds[0] <= x <= v.bounds[1], f"{k}: {x} out of {v.bounds}")
    t.require(seen > 0 or not params, f"no individual remembers a value of {sorted(params)}")
    _, log2 = points(problem, DE(pop_size=case["n"], control=c, F=0.55, CR=0.37) if case["algo"] == "de" else EPPSO(pop_size=case["n"], swarm=Swarm(control=c)), case["gens"], case["seed"])
    t.require(log == log2, "a run with parameter control is not determined by its seed")
