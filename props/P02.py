"""P02: dominance and pairwise comparison laws."""
import types

import numpy as np
from hypothesis import strategies as st

from pymoo.algorithms.moo.ctaea import comp_by_cv_dom_then_random
from pymoo.algorithms.moo.nsga2 import NSGA2, binary_tournament
from pymoo.algorithms.moo.nsga3 import comp_by_cv_then_random
from pymoo.algorithms.moo.sms import cv_and_dom_tournament
from pymoo.algorithms.moo.unsga3 import comp_by_rank_and_ref_line_dist
from pymoo.algorithms.soo.nonconvex.ga import FitnessSurvival, comp_by_cv_and_fitness
from pymoo.core.individual import Individual
from pymoo.core.population import Population
from pymoo.core.problem import Problem
from pymoo.core.replacement import ImprovementReplacement, is_better
from pymoo.core.survival import ToReplacement
from pymoo.operators.selection.tournament import compare
from pymoo.operators.survival.rank_and_crowding import RankAndCrowding
from pymoo.util.dominator import Dominator, get_relation
from vp import gen, ref
from vp.core import Prop

P = Prop("P02", "at least one pair is decided by dominance or by constraint violation, and at least one pair is not decided by the first objective alone",
         ["objective values are not NaN", "which of two equal or incomparable solutions wins a tournament is random, not specified"])


def rel(a, b):
    return 1 if ref.dom(a, b) else (-1 if ref.dom(b, a) else 0)


CVS = st.lists(st.sampled_from([0.0, 0.0, 0.0, 1e-12, 0.5, 0.5, 1.0, 2.0, 1e6]), min_size=1, max_size=12)


@P.check(st.fixed_dictionaries(dict(F=gen.points(2, 14, 1, 5), cv=CVS, G=gen.small_ints(2, 14, 1, 3, -2, 2))), quick=300, thorough=6000)
def relation(case, t):
    """the scalar and matrix dominance relation against the componentwise definition: antisymmetric, transitive, constraints first"""
    F = gen.mk(case["F"])
    n = len(F)
    cv = np.resize(np.array(case["cv"]), n)
    W = np.array([[rel(a, b) for b in F] for a in F])
    t.nontrivial((W != 0).any() and (W == 0).sum() > n)
    for i in range(n):
        for j in range(n):
            t.require(Dominator.get_relation(F[i], F[j]) == W[i, j], lambda: f"get_relation({F[i]}, {F[j]}) expected {W[i, j]}")
            w = 1 if cv[i] < cv[j] else (-1 if cv[j] < cv[i] else W[i, j])
            t.require(Dominator.get_relation(F[i], F[j], cv[i], cv[j]) == w,
                      lambda: f"get_relation({F[i]}, {F[j]}, cv {cv[i]}, {cv[j]}) expected {w}")
            a, b = Individual(F=F[i], CV=np.array([cv[i]])), Individual(F=F[j], CV=np.array([cv[j]]))
            t.require(get_relation(a, b) == w, "get_relation of individuals")
    t.equal(Dominator.calc_domination_matrix(F), W, "domination matrix")
    t.equal(Dominator.calc_domination_matrix(F, F[: n // 2]), W[:, : n // 2], "domination matrix of two sets")
    G = np.resize(np.array(case["G"], dtype=float), (n, len(case["G"][0])))
    s = np.maximum(G, 0).sum(axis=1)
    Wc = np.array([[(1 if s[i] < s[j] else (-1 if s[j] < s[i] else W[i, j])) for j in range(n)] for i in range(n)])
    t.equal(Dominator.calc_domination_matrix_loop(F, G), Wc, "constrained domination matrix")


@P.check(st.fixed_dictionaries(dict(F=gen.small_ints(2, 10, 1, 4, 0, 5), eps=st.sampled_from([0.0, 0.5, 1.0, 1.5, 3.0]))), quick=150, thorough=3000)
def epsilon_matrix(case, t):
    """with a tolerance, differences of at most epsilon do not count"""
    F = np.array(case["F"], dtype=float)
    e = case["eps"]
    n = len(F)
    W = np.zeros((n, n), dtype=int)
    for i in range(n):
        for j in range(n):
            better, worse = (F[i] + e < F[j]).any(), (F[j] + e < F[i]).any()
            W[i, j] = int(better and not worse) - int(worse and not better)
    t.nontrivial((W != 0).any() and e > 0)
    t.equal(Dominator.calc_domination_matrix(F, epsilon=e), W, "domination matrix with epsilon")


def population(F, cv):
    F = np.asarray(F, dtype=float)
    G = np.asarray(cv, dtype=float)[:, None]
    return Population.new("X", np.arange(len(F), dtype=float)[:, None], "F", F, "G", G)


ALGO = {}


def algo(kind):
    if not ALGO:
        p = Problem(n_var=2, n_obj=2, xl=0.0, xu=1.0)
        for k in ("comp_by_dom_and_crowding", "comp_by_rank_and_crowding"):
            a = NSGA2(pop_size=10)
            a.tournament_type = k
            a.setup(p, termination=("n_gen", 3), seed=1)
            ALGO[k] = a
    return ALGO[kind]


KINDS = ["nsga2-dom", "nsga2-rank", "sms", "ctaea", "ga", "nsga3", "unsga3"]


@P.check(st.fixed_dictionaries(dict(kind=st.sampled_from(KINDS), F=gen.points(2, 16, 1, 4), cv=CVS, s=gen.SEED, feas=st.booleans())),
         quick=500, thorough=10000)
def tournaments(case, t):
    """each binary tournament: the winner is of the pair, never the more violated one, never the dominated one"""
    F = gen.mk(case["F"])
    kind = case["kind"]
    if kind == "ga":
        F = F[:, :1]
    n = len(F)
    cv = np.zeros(n) if case["feas"] else np.resize(np.array(case["cv"]), n)
    r = gen.rng(case["s"])
    pop = population(F, cv)
    rank = ref.ranks(F)
    crowd = r.integers(0, 3, n).astype(float)
    crowd[r.random(n) < 0.3] = np.inf
    niche = r.integers(0, 2, n)
    pop.set("rank", rank, "crowding", crowd, "niche", niche, "dist_to_niche", r.integers(0, 3, n).astype(float))
    dist = pop.get("dist_to_niche")
    pairs = r.integers(0, n, size=(40, 2))
    rs = np.random.default_rng(case["s"])
    if kind.startswith("nsga2"):
        S = binary_tournament(pop, pairs, algo("comp_by_dom_and_crowding" if kind == "nsga2-dom" else "comp_by_rank_and_crowding"), random_state=rs)
    else:
        f = dict(sms=cv_and_dom_tournament, ctaea=comp_by_cv_dom_then_random, ga=comp_by_cv_and_fitness, nsga3=comp_by_cv_then_random,
                 unsga3=comp_by_rank_and_ref_line_dist)[kind]
        S = f(pop, pairs, random_state=rs)
    S = np.asarray(S).ravel()
    t.require(len(S) == len(pairs), "one winner per tournament")
    nt = False
    for (a, b), w in zip(pairs, S):
        t.require(w in (a, b), f"{kind}: the winner {w} is neither {a} nor {b}")
        l = b if w == a else a
        d = lambda: f"{kind}: winner F={F[w]} CV={cv[w]} rank={rank[w]} crowding={crowd[w]} niche={niche[w]},{dist[w]}; loser F={F[l]} CV={cv[l]} rank={rank[l]} crowding={crowd[l]} niche={niche[l]},{dist[l]}"
        if cv[w] > 0 or cv[l] > 0:
            if kind == "ctaea":
                t.require(not (cv[w] > 0 and cv[l] <= 0), d)
            else:
                t.require(cv[w] <= cv[l], d)
            nt = nt or cv[w] < cv[l]
            continue
        nt = nt or ref.dom(F[w], F[l])
        if kind in ("nsga2-dom", "sms", "ctaea"):
            t.require(not ref.dom(F[l], F[w]), d)
        if kind == "nsga2-rank":
            t.require(rank[w] <= rank[l], d)
        if kind == "nsga2-dom" and rel(F[w], F[l]) == 0 or kind == "nsga2-rank" and rank[w] == rank[l]:
            t.require(crowd[w] >= crowd[l], d)
        if kind == "ga":
            t.require(F[w, 0] <= F[l, 0], d)
        if kind == "unsga3" and niche[w] == niche[l]:
            t.require((rank[w], dist[w]) <= (rank[l], dist[l]), d)
    t.nontrivial(nt, kind)


@P.check(st.fixed_dictionaries(dict(a=st.sampled_from([0.0, 1.0, -1.0, 2.5, np.inf]), b=st.sampled_from([0.0, 1.0, -1.0, 2.5, np.inf]),
                                    m=st.sampled_from(["larger_is_better", "smaller_is_better"]), r=st.booleans(), s=gen.SEED)), quick=60, thorough=500)
def compare_values(case, t):
    """the comparison helpers used by tournaments: smaller/larger is better, ties resolved as told"""
    a, b = float(case["a"]), float(case["b"])
    sgn = 1 if case["m"] == "smaller_is_better" else -1
    got = compare(7, a, 9, b, method=case["m"], return_random_if_equal=case["r"], random_state=np.random.default_rng(case["s"]))
    t.nontrivial(a != b)
    if a == b:
        t.require(got in (7, 9) if case["r"] else got is None, f"compare of equal values returned {got}")
    else:
        t.require(got == (7 if sgn * a < sgn * b else 9), f"compare({a}, {b}, {case['m']}) chose {got}")


@P.check(st.fixed_dictionaries(dict(F=gen.small_ints(2, 12, 1, 1, 0, 6), cv=CVS, eps=st.sampled_from([0.0, 0.0, 0.75, 2.0]), s=gen.SEED)), quick=200, thorough=4000)
def replacement(case, t):
    """is_better and improvement replacement of single-objective algorithms"""
    F = np.array(case["F"], dtype=float)
    n = len(F)
    cv = np.resize(np.array(case["cv"]), n)
    pop = population(F, cv)
    eps = case["eps"]
    nt = False
    for i in range(n):
        for j in range(n):
            new, old = pop[i], pop[j]
            fn, fo = cv[i] <= 0, cv[j] <= 0
            want = (fn and not fo) or (fn and fo and F[j, 0] - F[i, 0] > eps) or (not fn and not fo and cv[j] - cv[i] > eps)
            nt = nt or want
            t.require(bool(is_better(new, old, eps=eps)) == bool(want),
                      f"is_better(new F={F[i]} CV={cv[i]}, old F={F[j]} CV={cv[j]}, eps={eps}) should be {want}")
    r = gen.rng(case["s"])
    X = r.integers(0, 4, size=(2 * n, 2)).astype(float)
    prob = Problem(n_var=2, n_obj=1, n_ieq_constr=1, xl=0.0, xu=4.0)
    Fo = r.integers(0, 6, size=(n, 1)).astype(float)
    cvo = np.resize(np.array(case["cv"][::-1]), n)
    A = Population.new("X", X[:n], "F", F, "G", cv[:, None])
    B = Population.new("X", X[n:], "F", Fo, "G", cvo[:, None])
    out = ImprovementReplacement().do(prob, A, B)
    t.require(len(out) == n, "replacement changed the population size")
    dup = [any(np.array_equal(X[n + i], x) for x in X[:n]) or any(np.array_equal(X[n + i], X[n + j]) for j in range(i)) for i in range(n)]
    for i in range(n):
        fn, fo = cvo[i] <= 0, cv[i] <= 0
        better = (fn and not fo) or (fn and fo and Fo[i, 0] < F[i, 0]) or (not fn and not fo and cvo[i] < cv[i])
        t.require(out[i] is A[i] or out[i] is B[i], "a survivor is neither the parent nor its offspring")
        if out[i] is B[i]:
            t.require(better, f"replaced F={F[i]} CV={cv[i]} by F={Fo[i]} CV={cvo[i]}")
            t.require(not any(np.array_equal(X[n + i], x) for x in X[:n]), "a duplicate of a population member was inserted")
        elif better:
            t.require(dup[i], f"kept F={F[i]} CV={cv[i]} though the offspring F={Fo[i]} CV={cvo[i]} is better and no duplicate")
    t.nontrivial(nt)


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 12), m=st.integers(1, 3), vals=st.integers(1, 6), con=st.booleans(), s=gen.SEED)), quick=200, thorough=3000)
def survival_replacement(case, t):
    """replacement by the order of a survival: a solution gives way to its own offspring exactly if that is better"""
    n, m, r = case["n"], case["m"], gen.rng(case["s"])
    F = r.integers(0, case["vals"], (2 * n, m)).astype(float)
    cv = r.choice([0.0, 0.0, 1.0, 2.0], 2 * n) if case["con"] else np.zeros(2 * n)
    prob = Problem(n_var=2, n_obj=m, n_ieq_constr=1, xl=0.0, xu=4.0)
    both = population(F, cv)
    old = list(both[:n])
    pop, off = both[:n], both[n:]
    out = ToReplacement(FitnessSurvival() if m == 1 else RankAndCrowding()).do(prob, pop, off)
    t.require(len(out) == n, f"{len(out)} of {n} left")
    # feasible ones by front (that is by value for a single objective), then the others by violation
    rank = np.empty(2 * n)
    ok = np.flatnonzero(cv <= 0)
    if len(ok):
        rank[ok] = ref.ranks(F[ok])
    rank[cv > 0] = 1e6 + cv[cv > 0]
    won = 0
    for k in range(n):
        a, b = rank[k], rank[n + k]
        t.require(out[k] is old[k] or out[k] is off[k], "somebody else took the place")
        if b < a:
            won += 1
            t.require(out[k] is off[k], f"F={F[k]} CV={cv[k]} was not replaced by its offspring F={F[n + k]} CV={cv[n + k]}")
        elif a < b:
            t.require(out[k] is old[k], f"F={F[k]} CV={cv[k]} was replaced by its offspring F={F[n + k]} CV={cv[n + k]}")
    t.nontrivial(0 < won < n)
