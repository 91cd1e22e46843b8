"""P05: populations and individuals behave as a sequence of records."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from pymoo.core.individual import Individual
from pymoo.core.population import Population, merge, pop_from_array_or_individual
from vp import gen
from vp.core import Prop

P = Prop("P05", "the history has at least three mutating operations on a population of at least two individuals",
         ["attribute keys are not names of methods of an individual"])

KEYS = ["X", "F", "G", "H", "rank", "note", "vec", "mat"]
idx = st.integers(0, 30)
val = st.integers(-50, 50)
OPS = st.lists(st.one_of(
    st.tuples(st.just("set"), st.sampled_from(KEYS), val),
    st.tuples(st.just("set2"), st.sampled_from(KEYS), val),
    st.tuples(st.just("bcast"), st.sampled_from(["rank", "note", "flag"]), val),
    st.tuples(st.just("setind"), st.sampled_from(KEYS), idx),
    st.tuples(st.just("slice"), idx, idx),
    st.tuples(st.just("pick"), st.lists(idx, min_size=1, max_size=6), val),
    st.tuples(st.just("mask"), val, val),
    st.tuples(st.just("merge"), st.integers(1, 3), val),
    st.tuples(st.just("mergearr"), st.integers(1, 2), val),
    st.tuples(st.just("mergeind"), st.just(1), val),
    st.tuples(st.just("mergenone"), st.booleans(), val),
    st.tuples(st.just("copyind"), idx, idx),
    st.tuples(st.just("shallow"), idx, idx),
    st.tuples(st.just("duplicate"), st.sampled_from(["F", "rank", "vec"]), val),
    st.tuples(st.just("reset"), idx, st.booleans()),
    st.tuples(st.just("deep"), st.booleans(), val),
    st.tuples(st.just("bad"), st.sampled_from(KEYS), val),
    st.tuples(st.just("assign"), idx, idx),
), min_size=1, max_size=14)


class Rec(dict):
    """the model of one individual: identity matters, like for the real one"""


def fresh():
    r = Rec()
    for k in ("X", "F", "G", "H"):
        r[k] = np.array([])
    return r


def value(key, i, v):
    if key in ("X", "F", "G", "H", "vec"):
        return np.array([v + i, v - i], dtype=float)
    if key == "mat":
        return np.array([[v + i, v - i], [i, -i], [v, 1.0]], dtype=float)
    if key == "note":
        return f"n{v}-{i}"
    return float(v + i)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b))
    return a == b


def compare(t, pop, m, what):
    t.require(type(pop) is Population, f"{what}: not a Population")
    t.require(len(pop) == len(m), f"{what}: {len(pop)} individuals, expected {len(m)}")
    for i in range(len(m)):
        for j in range(i):
            t.require((pop[i] is pop[j]) == (m[i] is m[j]), f"{what}: sharing of individuals {i} and {j}")
        for k in KEYS + ["flag", "D"]:
            want = m[i].get(k)
            got = pop[i].get(k)
            t.require(same(got, want), lambda: f"{what}: {k} of individual {i} is {got!r}, expected {want!r}")
    for k in ("X", "F", "vec", "rank", "flag", "mat"):
        if all(r.get(k) is not None and np.shape(r.get(k)) == np.shape(m[0].get(k)) for r in m) and len(m):
            got = pop.get(k)
            want = np.array([r[k] for r in m])
            t.require(got.shape == want.shape and np.array_equal(got, want), f"{what}: get({k!r}) = {got!r}, expected {want!r}")
            if k == "X":
                got[...] = 777.0
                t.require(np.array_equal(pop.get(k), want), f"{what}: the matrix returned by get aliases the individuals")
    if len(m):
        a, b = pop.get("rank", "note", to_numpy=False)
        t.require(a == [r.get("rank") for r in m] and b == [r.get("note") for r in m], f"{what}: get of several keys")
        t.require(bool(pop.has("vec")) == all("vec" in r for r in m), f"{what}: has")


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 6), ops=OPS)), quick=500, thorough=10000, shards=(2, 8))
def history(case, t):
    """any history of reads, writes, slices, masks, merges and copies against a list of dictionaries"""
    n = case["n"]
    M = np.arange(2.0 * n).reshape(n, 2)
    pop = Population.new("X", M)
    m = [fresh() for _ in range(n)]
    for i in range(n):
        m[i]["X"] = M[i].copy()
    M[:] = -1
    compare(t, pop, m, "Population.new")
    muts = 0
    for op, a, b in case["ops"]:
        n = len(m)
        if op == "set" or op == "set2":
            vals = [value(a, i, b) for i in range(n)]
            arr = np.array(vals) if a != "note" else vals
            if op == "set":
                r = pop.set(a, arr)
            else:
                r = pop.set(**{a: arr})
            t.require(r is pop or n == 0, "set does not return the population")
            # individuals occurring twice keep the last value
            for i in range(n):
                m[i][a] = vals[i]
            if isinstance(arr, np.ndarray) and arr.ndim >= 2:
                arr[:] = -999
            muts += 1
        elif op == "bcast":
            v = f"s{b}" if a == "note" else b
            pop.set(a, v)
            for r in m:
                r[a] = v
            muts += 1
        elif op == "setind":
            i = b % n
            pop[i].set(a, value(a, i, 1))
            m[i][a] = value(a, i, 1)
            muts += 1
        elif op == "slice":
            i, j = sorted((a % n, b % n))
            pop, m = pop[i:j + 1], m[i:j + 1]
        elif op == "pick":
            I = np.array([e % n for e in a])
            pop, m = pop[I], [m[i] for i in I]
        elif op == "mask":
            k = (np.arange(n) * a + b) % 3 != 0
            if k.any():
                pop, m = pop[k], [r for r, keep in zip(m, k) if keep]
        elif op == "merge":
            other = Population.new(X=np.full((a, 2), float(b)))
            mo = [fresh() for _ in range(a)]
            for r in mo:
                r["X"] = np.full(2, float(b))
            if b % 3 == 0:
                pop, m = Population.merge(other, pop), mo + m
            elif b % 3 == 1:
                pop, m = Population.merge(pop, other, pop[:1]), m + mo + m[:1]
            else:
                pop, m = merge(pop, other), m + mo
            muts += 1
        elif op == "mergearr":
            arr = np.full((a, 2), float(b)) if a > 1 else np.full(2, float(b))
            mo = [fresh() for _ in range(a)]
            for r in mo:
                r["X"] = np.full(2, float(b))
            pop, m = Population.merge(pop, arr), m + mo
            muts += 1
        elif op == "mergeind":
            ind = Individual(X=np.full(2, float(b)), rank=b)
            r = fresh()
            r["X"], r["rank"] = np.full(2, float(b)), b
            pop, m = Population.merge(pop, ind), m + [r]
            muts += 1
        elif op == "mergenone":
            pop = Population.merge(pop, None) if a else Population.merge(None, pop)
            pop = Population.merge(pop, Population.empty()) if a else Population.merge(Population.empty(), pop)
        elif op == "copyind":
            i, j = a % n, b % n
            pop[i], m[i] = pop[j].copy(), Rec(copy.deepcopy(dict(m[j])))
            muts += 1
        elif op == "shallow":
            i, j = a % n, b % n
            c = pop[j].copy(deep=False)
            t.require(all(same(c.get(k), m[j].get(k)) for k in KEYS), "a shallow copy has different values")
            c.F = np.array([1e9, 1e9])
            t.require(same(pop[j].F, m[j]["F"]), "rebinding F of a shallow copy changed the original")
            nw = pop[j].new()
            t.require(nw is not pop[j] and nw.X.size == 0 and nw.get("note") is None, "new() is not an empty individual")
        elif op == "duplicate":
            for i in range(n):
                pop[i].duplicate(a, "D")
                m[i]["D"] = m[i].get(a)
            muts += 1
        elif op == "reset":
            i = a % n
            pop[i].reset(data=b)
            d = dict(m[i])
            m[i].clear()
            m[i].update(fresh())
            if not b:
                for k in d:
                    if k not in ("X", "F", "G", "H"):
                        m[i][k] = d[k]
            t.require(pop[i].evaluated == set(), "a reset individual counts as evaluated")
            muts += 1
        elif op == "deep":
            old = pop
            pop = copy.deepcopy(pop) if a else pickle.loads(pickle.dumps(pop))
            memo = {}
            m = [memo.setdefault(id(r), Rec(copy.deepcopy(dict(r)))) for r in m]
            for i in range(n):
                t.require(pop[i] is not old[i], "a deep copy shares individuals")
        elif op == "bad":
            t.raises(lambda: pop.set(a, np.zeros(n + 1)), "set accepted a wrong number of values")
        elif op == "assign":
            i, j = a % n, b % n
            pop[i] = pop[j]
            m[i] = m[j]
            muts += 1
        compare(t, pop, m, f"after {op}({a!r}, {b!r})")
        if len(m) > 40:
            break
    t.nontrivial(muts >= 3 and len(m) >= 2)


@P.check(st.fixed_dictionaries(dict(n=st.integers(0, 5), v=val)), quick=60, thorough=500)
def constructors(case, t):
    """populations from every kind of argument, and merging"""
    n = case["n"]
    t.nontrivial(n > 1)
    e = Population.empty(n)
    t.require(len(e) == n and len({id(i) for i in e}) == n, "Population.empty")
    inds = [Individual(X=np.array([float(i)]), F=np.array([float(case["v"])]), custom=i) for i in range(n)]
    p = Population.create(*inds)
    t.require(len(p) == n and all(p[i] is inds[i] for i in range(n)), "Population.create")
    t.require([i.get("custom") for i in inds] == list(range(n)), "keyword data of an individual")
    t.require(len(Population(inds[0])) == 1 if n else True, "Population of one individual")
    t.require(len(Population.new()) == 0, "Population.new() is not empty")
    t.raises(lambda: Population.new("X", np.zeros((n + 1, 1)), "F", np.zeros((n, 1))), "different lengths were accepted")
    t.raises(lambda: Population.new("X"), "an odd number of arguments was accepted")
    q = pop_from_array_or_individual(np.zeros((n + 1, 2)))
    t.require(len(q) == n + 1 and np.all(q.get("X") == 0), "population from an array")
    if n:
        t.require(pop_from_array_or_individual(inds[0])[0] is inds[0], "population from an individual")
        t.require(pop_from_array_or_individual(p) is p, "population from a population")
        got = p.collect(lambda i: i.X[0])
        t.equal(got, np.arange(float(n)), "collect")
        p.apply(lambda i: i.set("z", i.X[0] * 2))
        t.equal(p.get("z"), np.arange(float(n)) * 2, "apply")
    # every attribute with a name of its own can be read and written by it, and is the one with that key
    for k in ("X", "F", "G", "H", "dF", "dG", "dH", "ddF", "ddG", "ddH"):
        for write in (lambda i, v: setattr(i, k, v), lambda i, v: i.set(k, v)):
            i = Individual()
            before = {e: np.array(getattr(i, e), copy=True) for e in ("X", "F", "G", "H", "dF", "dG", "dH", "ddF", "ddG", "ddH")}
            v = np.array([float(case["v"]), 1.0])
            write(i, v)
            t.require(np.array_equal(getattr(i, k), v) and np.array_equal(i.get(k), v) and i.has(k), f"{k} of an individual is not what it was set to", "attribute")
            t.require(all(np.array_equal(getattr(i, e), before[e]) for e in before if e != k), f"setting {k} changed another attribute", "attribute")
            c = i.copy()
            t.require(np.array_equal(getattr(c, k), v), f"{k} of a copy", "attribute")
            if n:
                q = Population.create(i, c)
                t.require(np.array_equal(q.get(k), np.array([v, v])), f"{k} of a population", "attribute")
    # individuals do not share anything that can be changed
    for q, what in ((Population.new("X", np.arange(2.0 * (n + 2)).reshape(-1, 2), "F", np.zeros((n + 2, 1)), "G", np.ones((n + 2, 1))), "Population.new"), (Population.empty(n + 2), "Population.empty"), (Population.create(*[Individual() for _ in range(n + 2)]), "Individual()")):
        k = abs(case["v"]) % (n + 2) if isinstance(case["v"], int) else 0
        others = [i for i in range(n + 2) if i != k]
        q[k].evaluated.add("F")
        q[k].data["mark"] = 1
        q[k].config["cv_eps"] = 5.0
        q[k].config["mark"] = 1
        q[k].set("F", np.array([7.0]))
        q[k].CV = np.array([3.0])
        t.require(not any("F" in q[i].evaluated or "mark" in q[i].data or "mark" in q[i].config or q[i].config.get("cv_eps") == 5.0 or np.array_equal(q[i].F, [7.0]) or np.array_equal(q[i].CV, [3.0]) for i in others), f"{what}: changing one individual changed another", "shared")
    t.require("mark" not in Individual.default_config(), "the default configuration was changed", "shared")
    t.require(p.get("X").shape[0] == n, "get on an empty population")
