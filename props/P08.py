"""P08: duplicate elimination removes exactly the duplicates."""
import numpy as np
from hypothesis import strategies as st

from pymoo.core.duplicate import (DefaultDuplicateElimination, ElementwiseDuplicateElimination, HashDuplicateElimination,
                                  NoDuplicateElimination)
from pymoo.core.population import Population
from pymoo.util.misc import find_duplicates, get_duplicates, unique_rows
from vp import gen
from vp.core import Prop

P = Prop("P08", "some individual is removed and some is kept", ["individuals of one call are distinct objects", "variables are finite"])

CASE = st.fixed_dictionaries(dict(
    X=st.integers(1, 4).flatmap(lambda m: st.lists(st.lists(st.integers(0, 2), min_size=m, max_size=m), min_size=0, max_size=14)),
    others=st.lists(st.tuples(st.integers(0, 5), gen.SEED), max_size=3), eps=st.sampled_from([None, None, 0.0, 0.75, 1.2]),
    itself=st.booleans(), noise=st.sampled_from([0.0, 0.0, 1e-12, 1e-3]), s=gen.SEED, attr=st.sampled_from(["X", "X", "F"])))


def data(case):
    X = np.array(case["X"], dtype=float) / 2
    if X.ndim != 2:
        X = X.reshape(0, 2)
    r = gen.rng(case["s"])
    if case["noise"] and len(X):
        X = X + case["noise"] * r.integers(0, 2, X.shape)
    O = []
    for n, s in case["others"]:
        q = gen.rng(s)
        Y = q.integers(0, 3, (n, X.shape[1])) / 2.0
        if len(X) and n and q.random() < 0.6:
            Y[0] = X[q.integers(len(X))]
        O.append(Y)
    return X, O


def pop_of(X, attr):
    if len(X) == 0:
        return Population.empty()
    return Population.new("X", X) if attr == "X" else Population.new("X", np.arange(len(X), dtype=float)[:, None], attr, X)


def expect(X, O, eps, itself):
    """left = not within eps of an earlier individual, nor of any individual of the other populations"""
    keep = []
    for i in range(len(X)):
        d = itself and any(np.sqrt(((X[i] - X[j]) ** 2).sum()) <= eps for j in range(i))
        d = d or any(np.sqrt(((X[i] - y) ** 2).sum()) <= eps for Y in O for y in Y)
        if not d:
            keep.append(i)
    return keep


@P.check(CASE, quick=500, thorough=10000)
def default(case, t):
    """default elimination: survivors in order, pairwise further apart than the tolerance, everyone dropped is close to a survivor"""
    X, O = data(case)
    eps = case["eps"]
    kw = {} if eps is None else dict(epsilon=eps)
    if case["attr"] == "F":
        kw["func"] = lambda pop: pop.get("F")
    dup = DefaultDuplicateElimination(**kw)
    pop, others = pop_of(X, case["attr"]), [pop_of(Y, case["attr"]) for Y in O]
    want = expect(X, O, 1e-16 if eps is None else eps, case["itself"])
    t.nontrivial(0 < len(want) < len(X), f"eps={eps}")
    got = dup.do(pop, *others, to_itself=case["itself"])
    ids = [next(i for i in range(len(pop)) if pop[i] is g) for g in got]
    t.require(ids == want, f"kept {ids}, expected {want}")
    r, no, yes = dup.do(pop, *others, to_itself=case["itself"], return_indices=True)
    t.require(list(no) == want, f"no-duplicate indices {no}, expected {want}")
    t.require(list(yes) == [i for i in range(len(X)) if i not in want], f"duplicate indices {yes}")
    t.require(len(r) == len(want) and all(a is b for a, b in zip(r, got)), "the two return forms disagree")
    t.require(len(pop) == len(X), "the population itself was changed")
    again = dup.do(got, *others)
    if case["itself"]:
        t.require(len(again) == len(got), "a second elimination removes more")
    t.require(NoDuplicateElimination().do(pop, *others) is pop, "no elimination")


@P.check(CASE, quick=300, thorough=6000)
def elementwise_and_hash(case, t):
    """custom equality (boolean, distance) and hashing: survivors are pairwise different and cover all classes"""
    X, O = data(case)
    # the same structure at other values: negative, tiny differences, many variables
    at = gen.rng(case["s"]).integers(0, 4)
    if at == 1:
        X, O = 2 * X - 3, [2 * Y - 3 for Y in O]
    elif at == 2:
        X, O = 0.5 + 2.0 ** -30 * X, [0.5 + 2.0 ** -30 * Y for Y in O]
    elif at == 3 and X.shape[1]:
        X, O = np.hstack([X[:, [0]].repeat(600, axis=1), X, X[:, [-1]].repeat(600, axis=1)]), [np.hstack([Y[:, [0]].repeat(600, axis=1), Y, Y[:, [-1]].repeat(600, axis=1)]) for Y in O]
    pop, others = pop_of(X, "X"), [pop_of(Y, "X") for Y in O]

    class Eq(ElementwiseDuplicateElimination):
        def is_equal(self, a, b):
            return bool(np.array_equal(a.X, b.X))

    cls = [tuple(x) for x in X]
    other = {tuple(y) for Y in O for y in Y}
    classes = {c for c in cls if c not in other}
    dups = [("is_equal", Eq(), True), ("cmp_func", ElementwiseDuplicateElimination(lambda a, b: np.array_equal(a.X, b.X)), True),
            ("distance", ElementwiseDuplicateElimination(lambda a, b: float(np.abs(a.X - b.X).max())), True),
            ("hash", HashDuplicateElimination(lambda ind: tuple(ind.X.tolist())), True),
            ("hash of an array", HashDuplicateElimination(lambda ind: ind.X), True),
            ("hash of a number", HashDuplicateElimination(lambda ind: cls.index(tuple(ind.X)) - len(cls) if tuple(ind.X) in cls else str(ind.X.tolist())), True),
            ("hash of a list", HashDuplicateElimination(lambda ind: ind.X.tolist()), True)]
    for name, dup, _ in dups:
        got = dup.do(pop, *others)
        ids = [next(i for i in range(len(pop)) if pop[i] is g) for g in got]
        t.require(ids == sorted(ids), f"{name}: order changed")
        left = [cls[i] for i in ids]
        t.require(len(set(left)) == len(left), f"{name}: two equal individuals survive: {left}")
        t.require(set(left) == classes, f"{name}: kept {sorted(left)}, expected one of each of {sorted(classes)}")
    t.nontrivial(0 < len(classes) < len(X))


@P.check(CASE, quick=200, thorough=4000)
def helpers(case, t):
    """find_duplicates, get_duplicates and unique_rows against pairwise comparison"""
    X, _ = data(case)
    if len(X) == 0:
        return
    e = 1e-16 if case["eps"] is None else case["eps"]
    want = [any(np.sqrt(((X[i] - X[j]) ** 2).sum()) <= e for j in range(i)) for i in range(len(X))]
    t.equal(find_duplicates(X, epsilon=e), np.array(want), "find_duplicates")
    groups = {}
    for i, x in enumerate(X):
        groups.setdefault(tuple(x), []).append(i)
    wg = sorted(sorted(g) for g in groups.values() if len(g) > 1)
    try:
        got = sorted(sorted(map(int, g)) for g in get_duplicates(X))
    except IndexError as ex:
        t.fail(f"get_duplicates raised {ex!r} on {X.tolist()}", sig="get_duplicates-end")
    t.require(got == wg, f"get_duplicates: {got}, expected {wg}")
    u = unique_rows(X)
    t.require(sorted(map(tuple, np.asarray(u).tolist())) == sorted(groups), "unique_rows")
    t.nontrivial(0 < sum(want) < len(X))
