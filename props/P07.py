"""P07: the evaluator evaluates every individual exactly once, counts it, and stores what the problem returned."""
import numpy as np
from hypothesis import strategies as st

from pymoo.core.evaluator import Evaluator
from pymoo.core.individual import Individual
from pymoo.core.population import Population
from vp import gen
from vp.core import Prop
from vp.probs import ElemPoly, Poly, VecPoly, mk_X, poly_spec

P = Prop("P07", "some evaluation call of the history meets both already evaluated and not yet evaluated individuals",
         ["the population holds each individual once"])

idx = st.integers(0, 40)
VALUES = [None, None, None, ["F"], ["F", "G"], ["F", "G", "H"], ["G"]]
OPS = st.lists(st.one_of(
    st.tuples(st.just("eval"), idx, idx, st.sampled_from(VALUES), st.sampled_from([None, None, True, False]), st.booleans()),
    st.tuples(st.just("ind"), idx, idx, st.sampled_from(VALUES), st.sampled_from([None, None, False]), st.booleans()),
    st.tuples(st.just("new"), idx, st.integers(1, 3), st.none(), st.none(), st.booleans()),
    st.tuples(st.just("reset"), idx, idx, st.none(), st.none(), st.booleans()),
    st.tuples(st.just("move"), idx, idx, st.none(), st.none(), st.booleans()),
    st.tuples(st.just("preset"), idx, idx, st.sampled_from(VALUES), st.none(), st.booleans()),
    st.tuples(st.just("mix"), st.integers(1, 3), idx, st.sampled_from(VALUES), st.none(), st.booleans()),
), min_size=1, max_size=12)


class Frugal(VecPoly):
    """computes only what it is asked for"""

    def _evaluate(self, X, out, *args, **kwargs):
        full = {}
        super()._evaluate(X, full, *args, **kwargs)
        for k in full:
            if k in out:
                out[k] = full[k]


@P.check(st.fixed_dictionaries(dict(p=poly_spec(), n=st.integers(1, 6), frugal=st.booleans(), ops=OPS, skip=st.sampled_from([True, True, False]), vec=st.booleans(),
                                    default=st.sampled_from([None, None, ["F"], ["F", "G"]]), s=gen.SEED)), quick=500, thorough=10000, shards=(2, 8))
def history(case, t):
    """any history of evaluations (partial, repeated, skipping, counting) against a log of the calls to the problem"""
    poly = Poly(case["p"])
    log, seen = [], []
    prob = (Frugal if case["frugal"] else VecPoly if case["vec"] else ElemPoly)(poly, "matrix", log)
    ev = Evaluator(skip_already_evaluated=case["skip"], evaluate_values_of=case["default"], callback=lambda pop: seen.append(list(pop)))
    default = case["default"] or ["F", "G", "H"]
    cnt = [0]

    def batch(k):
        cnt[0] += 1
        return Population.new("X", mk_X(poly, k, case["s"] + cnt[0]))

    pop = batch(case["n"])
    ok = [set() for _ in pop]
    n_eval, mixed = 0, False

    def do(I, vals, skip, count, single=False):
        nonlocal n_eval, mixed
        want_vals = vals or default
        sk = case["skip"] if skip is None else skip
        todo = [i for i in I if not sk or not set(want_vals) <= ok[i]]
        mixed = mixed or (0 < len(todo) < len(I))
        del log[:]
        del seen[:]
        marks = [set(ind.evaluated) for ind in pop]
        sub = pop[I[0]] if single else pop[I]
        kw = {}
        if vals is not None:
            kw["evaluate_values_of"] = list(vals)
        if skip is not None:
            kw["skip_already_evaluated"] = skip
        if not count:
            kw["count_evals"] = False
        r = ev.eval(prob, sub, **kw)
        if single:
            t.require(r is sub, "eval of an individual does not return it")
        else:
            t.require(len(r) == len(I) and all(r[k] is pop[i] for k, i in enumerate(I)), "eval does not return the population it was given")
        calls = np.vstack([np.atleast_2d(l) for l in log]) if log else np.zeros((0, poly.n))
        want = np.array([pop[i].X for i in todo]).reshape(len(todo), poly.n)
        t.require(np.array_equal(calls, want), lambda: f"the user's function saw {calls.tolist()}, expected exactly {want.tolist()}")
        n_eval += len(todo) if count else 0
        t.require(ev.n_eval == n_eval, f"n_eval is {ev.n_eval}, expected {n_eval}")
        t.require(len(seen) == 1 and len(seen[0]) == len(I), "the evaluator's callback")
        for i in todo:
            ok[i] |= set(want_vals)
            # a problem may return more than was asked for; whatever is marked must be stored
            ok[i] |= set(pop[i].evaluated)
        for i, ind in enumerate(pop):
            t.require(i in todo or set(ind.evaluated) == marks[i], lambda: f"individual {i} was not evaluated, but {sorted(marks[i])} became {sorted(ind.evaluated)}", "marks")
            for k in ind.evaluated:
                t.require(np.size(ind.get(k)) == np.size(getattr(poly, k)(ind.X)), f"{k} is marked as evaluated but is {ind.get(k)}", "marks")
        for i in I:
            F, G, H = poly.F(pop[i].X), poly.G(pop[i].X), poly.H(pop[i].X)
            for k, w in (("F", F), ("G", G), ("H", H)):
                if k in ok[i]:
                    t.require(k in pop[i].evaluated, f"{k} is not marked as evaluated")
                    t.close(pop[i].get(k), w, f"{k} of an evaluated individual")

    for op, a, b, vals, skip, count in case["ops"]:
        n = len(pop)
        marks = [(ind, set(ind.evaluated)) for ind in pop]
        if op == "eval":
            i, j = sorted((a % n, b % n))
            do(list(range(i, j + 1)), vals, skip, count)
        elif op == "ind":
            do([a % n], vals, skip, count, single=True)
        elif op == "new":
            pop = Population.merge(pop, batch(b))
            ok += [set() for _ in range(b)]
        elif op == "mix":
            pop = Population.merge(pop, batch(a))
            ok += [set() for _ in range(a)]
            do(list(range(len(pop)))[::-1] if count else list(range(len(pop))), vals, None, True)
        elif op == "reset":
            i = a % n
            x = pop[i].X
            pop[i].reset()
            pop[i].X = x
            ok[i] = set()
            t.require(all(set(ind.evaluated) == e for j, (ind, e) in enumerate(marks) if j != i), "the reset of one individual changed what is evaluated of others", "marks")
        elif op == "preset":  # the user knows some of the values (for one half of the population)
            for i in range(n):
                if (i + a) % 2 and not ok[i]:
                    for k in vals or ["F"]:
                        pop[i].set(k, getattr(poly, k)(pop[i].X))
                        pop[i].evaluated.add(k)
                        ok[i].add(k)
                else:
                    t.require(set(pop[i].evaluated) == marks[i][1], "a value stored in one individual is marked in another one", "marks")
        elif op == "move":
            i = a % n
            pop[i] = Individual(X=mk_X(poly, 1, case["s"] + b + 1000)[0])
            ok[i] = set()
    t.nontrivial(mixed)


@P.check(st.fixed_dictionaries(dict(p=poly_spec(), n=st.integers(1, 6), done=st.integers(0, 5), s=gen.SEED)), quick=100, thorough=2000)
def preevaluated(case, t):
    """individuals a user evaluated by hand are not evaluated again; copies keep their state"""
    poly = Poly(case["p"])
    log = []
    prob = VecPoly(poly, "matrix", log)
    X = mk_X(poly, case["n"], case["s"])
    pop = Population.new("X", X)
    d = min(case["done"], case["n"])
    for i in range(d):
        pop[i].F, pop[i].G, pop[i].H = np.full(poly.m, 5.0), np.full(poly.g, -1.0), np.zeros(poly.h)
        pop[i].evaluated = {"F", "G", "H"}
    t.nontrivial(0 < d < case["n"])
    ev = Evaluator()
    ev.eval(prob, pop)
    ev.eval(prob, pop)
    ev.eval(prob, Population.create(*[ind.copy() for ind in pop]))
    t.require(ev.n_eval == case["n"] - d, f"n_eval={ev.n_eval}")
    t.require(sum(len(l) for l in log) == case["n"] - d, "points evaluated more than once")
    for i in range(case["n"]):
        t.close(pop[i].F, np.full(poly.m, 5.0) if i < d else poly.F(X[i]), "F")
    ev.eval(prob, Population.empty())
    t.require(ev.n_eval == case["n"] - d, "an empty population was counted")
