"""P14: mating fills up the offspring: number, novelty, repair, untouched parents."""
import math

import numpy as np
from hypothesis import strategies as st

from pymoo.algorithms.moo.moead import ParallelMOEAD
from pymoo.algorithms.moo.nsga2 import NSGA2
from pymoo.algorithms.soo.nonconvex.ga import GA
from pymoo.core.duplicate import DefaultDuplicateElimination, NoDuplicateElimination
from pymoo.core.individual import Individual
from pymoo.core.infill import InfillCriterion
from pymoo.core.mating import Mating
from pymoo.core.mutation import Mutation
from pymoo.core.population import Population
from pymoo.core.problem import Problem
from pymoo.core.repair import Repair
from pymoo.operators.crossover.binx import BinomialCrossover
from pymoo.operators.crossover.erx import ERX
from pymoo.operators.crossover.hux import HUX
from pymoo.operators.crossover.nox import NoCrossover
from pymoo.operators.crossover.ox import OrderCrossover
from pymoo.operators.crossover.pcx import PCX
from pymoo.operators.crossover.pntx import TwoPointCrossover
from pymoo.operators.crossover.sbx import SBX
from pymoo.operators.crossover.ux import UX
from pymoo.operators.mutation.bitflip import BFM
from pymoo.operators.mutation.inversion import InversionMutation
from pymoo.operators.mutation.nom import NoMutation
from pymoo.operators.mutation.pm import PM
from pymoo.operators.repair.rounding import RoundingRepair
from pymoo.operators.sampling.rnd import BinaryRandomSampling, FloatRandomSampling, IntegerRandomSampling, PermutationRandomSampling
from pymoo.operators.selection.rnd import RandomSelection
from vp import gen
from vp.core import Prop

P = Prop("P14", "at least two offspring are requested and some are created", ["operators are the library's own"])

DOM = dict(
    real=dict(smp=FloatRandomSampling, cx=["sbx", "sbx1", "pcx", "ux", "bx1", "no1", "no2", "no3"], mut=["pm", "none"]),
    int=dict(smp=IntegerRandomSampling, cx=["sbx-int", "ux", "two", "bx1", "no2"], mut=["pm-int", "none"]),
    bool=dict(smp=BinaryRandomSampling, cx=["ux", "hux", "two", "no1", "no2"], mut=["bfm", "none"]),
    perm=dict(smp=PermutationRandomSampling, cx=["ox", "erx", "no1"], mut=["inv", "none"]),
)
CX = {"sbx": lambda: SBX(), "sbx1": lambda: SBX(n_offsprings=1), "pcx": lambda: PCX(), "ux": lambda: UX(), "bx1": lambda: BinomialCrossover(n_offsprings=1), "no1": lambda: NoCrossover(),
      "no2": lambda: NoCrossover(n_parents=2), "no3": lambda: NoCrossover(n_parents=2, n_offsprings=3), "sbx-int": lambda: SBX(vtype=float, repair=RoundingRepair()), "two": lambda: TwoPointCrossover(),
      "hux": lambda: HUX(), "ox": lambda: OrderCrossover(), "erx": lambda: ERX()}
MUT = {"pm": lambda: PM(), "none": lambda: NoMutation(), "pm-int": lambda: PM(vtype=float, repair=RoundingRepair()), "bfm": lambda: BFM(), "inv": lambda: InversionMutation()}


class EvenRepair(Repair):
    """integers become even; records what it saw"""

    def __init__(self):
        super().__init__()
        self.calls = 0

    def _do(self, problem, X, **kwargs):
        self.calls += 1
        assert kwargs.get("random_state") is not None, "the repair got no random state"
        return X - X % 2


@st.composite
def mating_case(draw):
    dom = draw(st.sampled_from(list(DOM)))
    return dict(dom=dom, cx=draw(st.sampled_from(DOM[dom]["cx"])), mut=draw(st.sampled_from(DOM[dom]["mut"])), n=draw(st.integers(3, 10)), m=draw(st.integers(2, 5)), k=draw(st.integers(1, 12)),
                dup=draw(st.booleans()), rep=draw(st.booleans()), it=draw(st.sampled_from([1, 3, 100])), s=draw(gen.SEED))


def problem_of(dom, m):
    if dom == "real":
        return Problem(n_var=m, n_obj=1, xl=-np.ones(m), xu=2 * np.ones(m))
    if dom == "int":
        return Problem(n_var=m, n_obj=1, xl=0, xu=4, vtype=int)
    if dom == "bool":
        return Problem(n_var=m, n_obj=1, xl=False, xu=True, vtype=bool)
    return Problem(n_var=m, n_obj=1, xl=0, xu=m - 1, vtype=int)


def valid(t, dom, prob, X, msg):
    m = prob.n_var
    for x in X:
        if dom == "real":
            t.require(np.all((x >= -1) & (x <= 2)), f"{msg}: {x.tolist()} is out of bounds")
        elif dom == "int":
            t.require(np.issubdtype(np.asarray(x).dtype, np.integer) and x.min() >= 0 and x.max() <= 4, f"{msg}: {x.tolist()} is not an integer point in bounds")
        elif dom == "bool":
            t.require(np.asarray(x).dtype == bool, f"{msg}: {x.tolist()} is not boolean")
        else:
            t.require(sorted(x.tolist()) == list(range(m)), f"{msg}: {x.tolist()} is no permutation")


@P.check(mating_case(), quick=400, thorough=8000, shards=(2, 8))
def mating(case, t):
    """mating with every combination of operators: number, novelty, bounds, repair, parents untouched"""
    dom, n, k = case["dom"], case["n"], case["k"]
    prob = problem_of(dom, case["m"])
    X0 = DOM[dom]["smp"]().do(prob, n, random_state=np.random.default_rng(case["s"])).get("X")
    pop = Population.create(*[Individual(X=x.copy(), F=np.array([float(i)]), rank=i) for i, x in enumerate(X0)])
    rep = EvenRepair() if case["rep"] and dom == "int" else None
    dup = DefaultDuplicateElimination() if case["dup"] else None
    cx = CX[case["cx"]]()
    mat = Mating(RandomSelection(), cx, MUT[case["mut"]](), repair=rep, eliminate_duplicates=dup, n_max_iterations=case["it"])
    before = list(pop)
    off = mat.do(prob, pop, k, random_state=np.random.default_rng(case["s"]))
    t.nontrivial(k > 1 and len(off) > 0, f"{dom}-{case['cx']}-{case['mut']}")
    t.require(isinstance(off, Population) and len(off) <= k, f"{len(off)} offspring, {k} requested")
    if not case["dup"]:
        t.require(len(off) == k, f"{len(off)} offspring instead of {k}")
    t.require(len(pop) == n and all(a is b for a, b in zip(pop, before)), "mating changed the population")
    for i, ind in enumerate(pop):
        t.require(np.array_equal(ind.X, X0[i]) and ind.F.tolist() == [float(i)] and ind.get("rank") == i, "mating modified a parent")
    ids = {id(p) for p in pop}
    t.require(all(id(o) not in ids for o in off) and len({id(o) for o in off}) == len(off), "an offspring is a parent or occurs twice")
    t.require(all(len(o.F) == 0 for o in off), "an offspring carries objective values")
    X = [o.X for o in off]
    valid(t, dom, prob, X, f"{case['cx']}/{case['mut']}")
    if rep is not None:
        t.require(rep.calls >= 1 and all((np.asarray(x) % 2 == 0).all() for x in X), "offspring are not repaired")
    if case["dup"]:
        for i, x in enumerate(X):
            t.require(not any(np.array_equal(x, y) for y in X[:i]), "two offspring are equal")
            t.require(not any(np.array_equal(x, y) for y in X0), "an offspring equals a member of the population")
    off2 = mat.do(prob, Population.new("X", X0.copy()), k, random_state=np.random.default_rng(case["s"]))
    t.require(len(off2) == len(off) and all(np.array_equal(a.X, b.X) for a, b in zip(off, off2)), "same population and random state, other offspring")


@P.check(st.fixed_dictionaries(dict(k=st.integers(1, 15), plan=st.lists(st.integers(0, 6), min_size=1, max_size=8), it=st.integers(1, 6), override=st.sampled_from([None, 1, 4]), dup=st.booleans(), s=gen.SEED)),
         quick=300, thorough=6000)
def infill(case, t):
    """the filling loop: asks for what is missing, keeps order, stops at the limit of iterations"""
    k, plan, it = case["k"], case["plan"], case["it"]
    r = gen.rng(case["s"])
    asked, made = [], []
    limit = case["override"] or it

    class Inf(InfillCriterion):
        def _do(self, problem, pop, n_offsprings, random_state=None, **kwargs):
            asked.append(n_offsprings)
            x = r.integers(0, 4, (plan[(len(asked) - 1) % len(plan)], 1)).astype(float)
            made.append(x)
            return Population.new("X", x) if len(x) else Population.new()

    pop = Population.new("X", np.array([[0.0]]))
    inf = Inf(eliminate_duplicates=DefaultDuplicateElimination() if case["dup"] else NoDuplicateElimination(), n_max_iterations=it)
    kw = {} if case["override"] is None else dict(n_max_iterations=case["override"])
    off = inf(Problem(n_var=1, n_obj=1), pop, k, random_state=np.random.default_rng(0), **kw)
    want, n_it = [], 0
    for i in range(limit):
        if len(want) >= k:
            break
        n_it += 1
        t.require(i < len(asked) and asked[i] == k - len(want), lambda: f"iteration {i}: asked for {asked} with {len(want)} of {k} present")
        for x in made[i].ravel().tolist():
            if len(want) < k and not (case["dup"] and (x in want or x == 0.0)):
                want.append(x)
    t.nontrivial(n_it > 1)
    t.require(len(asked) == n_it, f"{len(asked)} iterations instead of {n_it}")
    t.require([float(o.X[0]) for o in off] == want, lambda: f"offspring {[float(o.X[0]) for o in off]} instead of {want}")


@P.check(st.fixed_dictionaries(dict(dom=st.sampled_from(list(DOM)), i=st.integers(0, 7), j=st.integers(0, 1), n=st.integers(4, 12), k=st.sampled_from([None, 1, 3, 7]), m=st.integers(2, 4), moo=st.booleans(), rep=st.booleans(), s=gen.SEED)),
         quick=60, thorough=1000, shards=(2, 8))
def algorithm(case, t):
    """genetic algorithms over several generations: population and offspring sizes, F of every member belongs to its X, no duplicates"""
    dom, n, k, m = case["dom"], case["n"], case["k"], case["m"]
    cx = DOM[dom]["cx"][case["i"] % len(DOM[dom]["cx"])]
    mu = DOM[dom]["mut"][case["j"] % len(DOM[dom]["mut"])]
    base = problem_of(dom, m)
    sizes = []

    class Pr(Problem):
        def _evaluate(self, X, out, *args, **kwargs):
            X = np.asarray(X, dtype=float)
            sizes.append(len(X))
            w = np.arange(1, X.shape[1] + 1)
            f = (X * w).sum(axis=1)
            out["F"] = np.column_stack([f, ((X - 1) ** 2 * w[::-1]).sum(axis=1)]) if case["moo"] else f

    prob = Pr(n_var=m, n_obj=2 if case["moo"] else 1, xl=base.xl, xu=base.xu, vtype=base.vtype)
    rep = EvenRepair() if case["rep"] and dom == "int" else None
    alg = (NSGA2 if case["moo"] else GA)(pop_size=n, n_offsprings=k, sampling=DOM[dom]["smp"](), crossover=CX[cx](), mutation=MUT[mu](), repair=rep, eliminate_duplicates=True)
    alg.setup(prob, termination=("n_gen", 5), seed=case["s"], verbose=False)
    t.nontrivial(True, f"{dom}-{cx}-{mu}")
    seen = []
    while alg.has_next():
        off = alg.ask()
        if off is None or len(off) == 0:
            break
        t.require(len(off) <= (k or n if seen else n), "too many offspring")
        X = [np.asarray(o.X) for o in off]
        valid(t, dom, prob, X, f"{cx}/{mu}")
        if rep is not None:
            t.require(all((x % 2 == 0).all() for x in X), "not repaired")
        for i, x in enumerate(X):
            t.require(not any(np.array_equal(x, y) for y in X[:i]), "two offspring are equal")
            t.require(len(seen) == 0 or not any(np.array_equal(x, p.X) for p in alg.pop), "an offspring equals a member of the population")
        alg.evaluator.eval(prob, off)
        alg.tell(infills=off)
        seen += X
        F = alg.pop.get("F")
        t.close(F, prob.evaluate(np.array([p.X for p in alg.pop])), "objective values of the population do not belong to its variables")
        t.require(len(alg.pop) == min(n, len(seen)), f"population of {len(alg.pop)} after {len(seen)} different points (size {n})")


@P.check(st.fixed_dictionaries(dict(n=st.integers(5, 12), nb=st.integers(2, 3), o=st.sampled_from([None, 2]), s=gen.SEED)), quick=40, thorough=500)
def moead(case, t):
    """ParallelMOEAD: the offspring of a subproblem is made of parents of its neighbourhood"""
    n, nb = case["n"], case["nb"]
    W = np.column_stack([np.linspace(0, 1, n), 1 - np.linspace(0, 1, n)])

    class Pr(Problem):
        def _evaluate(self, X, out, *args, **kwargs):
            out["F"] = np.column_stack([X.sum(axis=1), (1 - X).sum(axis=1)])

    prob = Pr(n_var=3, n_obj=2, xl=0.0, xu=1.0)
    alg = ParallelMOEAD(W, n_neighbors=nb, prob_neighbor_mating=1.0, crossover=UX(prob=1.0), mutation=NoMutation(), **({} if case["o"] is None else dict(n_offsprings=case["o"])))
    alg.setup(prob, termination=("n_gen", 4), seed=case["s"], verbose=False)
    alg.next()
    t.nontrivial(n > 6)
    off = alg.ask()
    X = alg.pop.get("X")
    d = np.abs(W[:, None, :] - W[None, :, :]).sum(axis=2)
    for k, o in zip(alg.indices, off):
        near = np.where(d[k] <= np.sort(d[k])[nb - 1] + 1e-9)[0]
        for j in range(3):
            if o.X[j] not in X[near, j]:
                # the pool of a subproblem is cut from the wrong axis of the offspring: it belongs to another selected mating
                t.fail("an offspring of ParallelMOEAD does not come from the neighbourhood of its subproblem",
                       sig="pmoead:other-mating" if all(o.X[i] in X[:, i] for i in range(3)) else "pmoead:other")
