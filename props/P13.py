"""P13: parent selection."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from pymoo.algorithms.moo.ctaea import RestrictedMating, comp_by_cv_dom_then_random
from pymoo.algorithms.moo.moead import NeighborhoodSelection
from pymoo.algorithms.soo.nonconvex.brkga import EliteBiasedSelection
from pymoo.core.individual import Individual
from pymoo.core.population import Population
from pymoo.operators.control import AgeBasedTournamentSelection
from pymoo.operators.selection.des import DES
from pymoo.operators.selection.rnd import RandomSelection, fast_fill_random
from pymoo.operators.selection.tournament import TournamentSelection, compare
from pymoo.util.misc import random_permutations
from vp import gen, ref
from vp.core import Prop

P = Prop("P13", "more than one selection from a population of at least three", [])
ALPHA = 1e-12


def pop_of(n, **kw):
    return Population.create(*[Individual(X=np.array([float(i)]), F=np.array([float(i)]), **{k: v[i] for k, v in kw.items()}) for i in range(n)])


def fair(t, used, n, msg):
    """permutations are used up one after the other: nobody takes part twice more often than anybody else"""
    c = np.bincount(np.asarray(used).ravel(), minlength=n)
    t.require(len(c) == n and c.max() - c.min() <= 1, lambda: f"{msg}: how often each of {n} individuals was drawn: {c.tolist()}")


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 12), k=st.integers(1, 12), p=st.integers(1, 4), pressure=st.integers(1, 4), s=gen.SEED)), quick=400, thorough=8000)
def tournament(case, t):
    """tournaments of any pressure: every contestant is a member, used equally often, the winner is the one the comparison names"""
    n, k, p, q = case["n"], case["k"], case["p"], case["pressure"]
    pop = pop_of(n)
    seen = []

    def comp(pop_, Q, **kw):
        t.require(pop_ is pop and "random_state" in kw and kw["extra"] == 7, "arguments of the comparison function")
        t.require(Q.shape == (k * p, q), f"tournaments of shape {Q.shape}")
        seen.append(np.array(Q))
        # the last one wins
        return Q[:, -1][:, None]

    sel = TournamentSelection(func_comp=comp, pressure=q)
    t.nontrivial(n > 2 and k > 1)
    I = sel.do(None, pop, k, p, to_pop=False, random_state=np.random.default_rng(case["s"]), extra=7)
    t.require(I.shape == (k, p), f"selected indices of shape {I.shape}")
    t.require(len(seen) == 1, "the comparison function was not called once")
    fair(t, seen[0], n, "tournaments")
    t.equal(I.ravel(), seen[0][:, -1], "the winners")
    S = sel(None, pop, k, p, random_state=np.random.default_rng(case["s"]), extra=7)
    t.require(np.shape(S) == (k, p), f"selected individuals of shape {np.shape(S)}")
    t.require(all(S[i, j] is pop[I[i, j]] for i in range(k) for j in range(p)), "the selected individuals are not those of the population at the selected indices")
    flat = seen[0].ravel()
    for b in range(0, len(flat) - n + 1, n):
        t.require(len(set(flat[b:b + n].tolist())) == n, f"an individual occurs twice within one round: {flat[b:b + n].tolist()}")
    t.raises(lambda: TournamentSelection(), "a tournament without comparison function")


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 12), k=st.integers(1, 12), p=st.integers(1, 4), s=gen.SEED)), quick=300, thorough=6000)
def random(case, t):
    """random selection: everybody equally often up to one, different parents within a mating"""
    n, k, p = case["n"], case["k"], case["p"]
    pop = pop_of(n)
    t.nontrivial(n > 2 and k > 1)
    I = RandomSelection().do(None, pop, k, p, to_pop=False, random_state=np.random.default_rng(case["s"]))
    t.require(I.shape == (k, p), f"shape {I.shape}")
    fair(t, I, n, "random selection")
    S = RandomSelection()(None, pop, k, p, random_state=np.random.default_rng(case["s"]))
    t.require(all(S[i, j] is pop[I[i, j]] for i in range(k) for j in range(p)), "individuals and indices differ")
    R = random_permutations(k, n, random_state=np.random.default_rng(case["s"]))
    t.require(R.shape == (k * n,) and all(sorted(r) == list(range(n)) for r in R.reshape(k, n).tolist()), "random_permutations")
    L = random_permutations(k, n, concat=False, random_state=np.random.default_rng(case["s"]))
    t.equal(np.concatenate(L), R, "random_permutations: concat")
    # every individual is equally likely to be first
    if n <= 6:
        sel = [RandomSelection().do(None, pop, 1, 1, to_pop=False, random_state=rs)[0, 0] for rs in [np.random.default_rng(case["s"])] for _ in range(600)]
        t.require(stats.chisquare(np.bincount(sel, minlength=n)).pvalue > ALPHA if n > 1 else True, "not uniform")


@P.check(st.fixed_dictionaries(dict(v=st.sampled_from(["rand", "best", "ranked", "current-to-best", "current-to-rand"]), n=st.integers(9, 20), d=st.integers(1, 3), s=gen.SEED, none=st.booleans())), quick=300, thorough=6000)
def differential(case, t):
    """parents of differential variants: target and best at their places, all different"""
    v, n = case["v"], case["n"]
    r = gen.rng(case["s"])
    d = max(2, case["d"]) if "-to-" in v else case["d"]
    k = 2 + 2 * d
    ranks = r.integers(0, 4, n) if not case["none"] else [None if r.random() < 0.5 else int(r.integers(0, 4)) for _ in range(n)]
    pop = pop_of(n, rank=list(ranks))
    if case["none"] and all(x is None for x in ranks):
        pop[0].set("rank", 0)
        ranks[0] = 0
    Q = DES(v).do(None, pop, n, k, to_pop=False, random_state=np.random.default_rng(case["s"]))
    t.nontrivial(True, v)
    t.require(Q.shape == (n, k) and Q.min() >= 0 and Q.max() < n, f"{v}: {Q.tolist()}")
    t.equal(Q[:, 0], np.arange(n), f"{v}: the first column is not the target")
    eff = [i if x is None else x for i, x in enumerate(ranks)]
    for i, row in enumerate(Q.tolist()):
        if v in ("rand", "ranked"):
            t.require(len(set(row)) == k, f"{v}: parents occur twice {row}")
        elif v == "best":
            t.require(row[1] == 0, f"{v}: the base is not the best {row}")
            rest = row[2:]
            t.require(len(set(rest)) == len(rest) and not set(rest) & {row[0], 0}, f"{v}: parents occur twice {row}")
        elif v == "current-to-best":
            t.require(row[1] == i and row[2] == 0 and row[3] == i, f"{v}: {row}")
            rest = row[4:]
            t.require(len(set(rest)) == len(rest) and not set(rest) & {i, 0}, f"{v}: parents occur twice {row}")
        elif v == "current-to-rand":
            t.require(row[1] == i and row[3] == i, f"{v}: {row}")
            rest = [row[2]] + row[4:]
            t.require(len(set(rest)) == len(rest) and i not in rest, f"{v}: parents occur twice {row}")
        if v == "ranked":
            e = [eff[j] for j in row]
            t.require(e[1] == min(e[1:]), f"ranked: the base is not the best ranked parent: ranks {e}")
            t.require(all(e[2 + 2 * j] <= e[3 + 2 * j] for j in range(d)), f"ranked: a difference points to the worse parent: ranks {e}")
    Z = DES(v).do(None, pop, n, k, to_pop=False, random_state=np.random.default_rng(case["s"]))
    t.equal(Z, Q, f"{v}: same random state, other parents")


@P.check(st.fixed_dictionaries(dict(rows=st.integers(1, 60), n=st.integers(30, 60), cols=st.integers(1, 4), pre=st.integers(0, 1), itself=st.booleans(), s=gen.SEED)), quick=200, thorough=4000)
def fill(case, t):
    """fast_fill_random: designated columns filled with values different from each other and from the excluded ones (retries make a collision unlikelier than 1e-7)"""
    rows, n, cols, pre = case["rows"], case["n"], case["cols"], case["pre"]
    X = np.full((rows, pre + cols), -1)
    X[:, :pre] = 3
    Xp = (np.arange(rows) % n)[:, None] if case["itself"] else None
    t.nontrivial(rows > 2 and cols > 1)
    Y = fast_fill_random(X, n, columns=range(pre, pre + cols), Xp=Xp, n_max_attempts=30, random_state=np.random.default_rng(case["s"]))
    t.require(Y is X and np.all(Y[:, :pre] == 3), "columns that are not designated were changed, or not in place")
    F = Y[:, pre:]
    t.require(F.min() >= 0 and F.max() < n, f"values {F.tolist()} for {n} individuals")
    for i in range(rows):
        z = F[i].tolist() + (Xp[i].tolist() if Xp is not None else [])
        t.require(len(set(z)) == len(z), f"row {i} contains a value twice: {z}")


@P.check(st.fixed_dictionaries(dict(n=st.integers(4, 12), k=st.integers(1, 6), nb=st.integers(2, 4), p=st.integers(1, 2), prob=st.sampled_from([0.0, 0.5, 1.0]), s=gen.SEED)), quick=200, thorough=4000)
def neighborhood(case, t):
    """MOEA/D: parents from the neighbourhood with the given probability, distinct within a mating"""
    n, k, p = case["n"], case["k"], case["p"]
    r = gen.rng(case["s"])
    N = np.array([r.permutation(n)[:case["nb"]] for _ in range(k)])
    pop = pop_of(n)
    Q = NeighborhoodSelection(prob=case["prob"]).do(None, pop, k, p, neighbors=N, to_pop=False, random_state=np.random.default_rng(case["s"]))
    t.nontrivial(k > 1 and p > 1)
    t.require(Q.shape == (k, p) and Q.min() >= 0 and Q.max() < n, "neighbourhood selection: shape or range")
    for i in range(k):
        t.require(len(set(Q[i].tolist())) == p, "a parent occurs twice in a mating")
        if case["prob"] == 1:
            t.require(set(Q[i].tolist()) <= set(N[i].tolist()), f"parents {Q[i].tolist()} are not neighbours {N[i].tolist()}")
    big = NeighborhoodSelection(prob=case["prob"]).do(None, pop_of(50), 600, 1, neighbors=np.zeros((600, 1), dtype=int), to_pop=False, random_state=np.random.default_rng(case["s"]))
    q = case["prob"] + (1 - case["prob"]) / 50
    t.require(stats.binomtest(int((big == 0).sum()), 600, min(q, 1.0)).pvalue > ALPHA, f"from the neighbourhood {(big == 0).sum()} of 600 with probability {case['prob']}")
    if case["prob"] < 1:
        some = NeighborhoodSelection(prob=case["prob"]).do(None, pop, 1000, p, neighbors=np.zeros((1000, p), dtype=int) + np.arange(p), to_pop=False, random_state=np.random.default_rng(case["s"]))
        # (12 members at most, 500 of the matings go beyond the neighbourhood: one is left out with a probability below 1e-17)
        t.require(set(some.ravel().tolist()) == set(range(n)), f"of {n} members, only {sorted(set(some.ravel().tolist()))} are ever a parent")


class Recorder:
    """the archives the two parents of every mating were taken from"""

    def __init__(self, n):
        self.n, self.P = n, None

    def __call__(self, pop, P, **kwargs):
        self.P = P.copy()
        return comp_by_cv_dom_then_random(pop, P, **kwargs)


@P.check(st.fixed_dictionaries(dict(n=st.integers(2, 8), m=st.integers(1, 3), ca=st.floats(0, 1), da=st.floats(0, 1), same=st.booleans(), s=gen.SEED)), quick=200, thorough=3000)
def restricted(case, t):
    """C-TAEA: the first parent is from the archive that has more of the non-dominated solutions, the second from the convergence archive with the probability of its share"""
    n, m, N = case["n"], case["m"], 400
    r = gen.rng(case["s"])
    F = r.random((2 * n, m))
    F[:n] += (r.random((n, 1)) < case["ca"])
    F[n:] += (r.random((n, 1)) < case["da"])
    if case["same"]:
        F[n] = F[0]
    pop = Population.new("X", np.arange(2 * n, dtype=float)[:, None], "F", F, "G", np.full((2 * n, 1), -1.0), "CV", np.zeros((2 * n, 1)))
    rec = Recorder(n)
    S = RestrictedMating(func_comp=rec).do(None, pop, N, 2, to_pop=False, random_state=np.random.default_rng(case["s"]))
    nd = ref.ranks(F) == 0
    pc, pd = nd[:n].sum() / (2 * n), nd[n:].sum() / (2 * n)
    t.nontrivial(0 < pc and 0 < pd)
    T = rec.P.reshape(N, 2, -1)
    t.require(S.shape == (N, 2) and T.shape == (N, 2, 2) and T.min() >= 0 and T.max() < 2 * n, f"tournaments of shape {T.shape} for {N} matings of 2 parents")
    first, second = T[:, 0] >= n, T[:, 1] >= n
    t.require(np.all(first) if pc <= pd else not np.any(first), f"the share of the convergence archive is {pc}, of the diversity archive {pd}: the first parents come from {'CA' if not first.all() else 'DA'}")
    t.require(np.all(second[:, 0] == second[:, 1]), "a tournament between the archives")
    k = int((~second[:, 0]).sum())
    t.require(stats.binomtest(k, N, pc).pvalue > ALPHA, f"{k} of {N} second parents are from the convergence archive, its share is {pc}")
    for j in range(2):
        for i in range(N):
            w = S[i, j]
            a, b = T[i, j]
            t.require(w in (a, b), f"the winner of {a} and {b} is {w}")
            if np.all(F[a] <= F[b]) and np.any(F[a] < F[b]):
                t.require(w == a, f"{F[b]} won against {F[a]}")
            elif np.all(F[b] <= F[a]) and np.any(F[b] < F[a]):
                t.require(w == b, f"{F[a]} won against {F[b]}")
    # (random permutations: within an archive everyone has the same number of turns, up to one)
    c = np.bincount(T.ravel() % n, minlength=n)
    t.require(c.max() - c.min() <= 1, f"the members are drawn {c.tolist()} times")


@P.check(st.fixed_dictionaries(dict(n=st.integers(2, 12), k=st.integers(1, 8), e=st.integers(1, 6), s=gen.SEED)), quick=200, thorough=3000)
def special(case, t):
    """elite biased selection (BRKGA), age tournament, compare"""
    n, k = case["n"], case["k"]
    r = gen.rng(case["s"])
    types = ["elite" if i < min(case["e"], n) else "non_elite" for i in range(n)]
    types = [types[i] for i in r.permutation(n)]
    pop = pop_of(n, type=types, n_gen=r.integers(1, 4, n).tolist())
    t.nontrivial(n > 2 and k > 1)
    Q = EliteBiasedSelection().do(None, pop, k, 2, to_pop=False, random_state=np.random.default_rng(case["s"]))
    t.require(Q.shape == (k, 2), "shape")
    for a, b in Q:
        t.require(types[a] == "elite" and (types[b] == "non_elite" or "non_elite" not in types), f"parents {types[a]}, {types[b]}")
    W = AgeBasedTournamentSelection().do(None, pop, k, 2, to_pop=False, random_state=np.random.default_rng(case["s"]))
    t.require(W.shape == (k, 2) and W.min() >= 0 and W.max() < n, "age tournament")
    comp = AgeBasedTournamentSelection().func_comp
    T = np.array([[i, j] for i in range(n) for j in range(n)])
    G = pop.get("n_gen")
    S = np.asarray(comp(pop, T, random_state=np.random.default_rng(1))).ravel()
    for (a, b), w in zip(T, S):
        t.require(w in (a, b) and G[w] == max(G[a], G[b]), "age tournament: the younger individual does not win")
    a, b = r.integers(0, 3, 2).tolist()
    for method, sg in (("larger_is_better", 1), ("smaller_is_better", -1)):
        w = compare("A", a, "B", b, method=method)
        t.require(w == ("A" if sg * a > sg * b else "B" if sg * b > sg * a else None), f"compare {method} {a} {b}: {w}")
        ws = {compare("A", a, "B", b, method=method, return_random_if_equal=True, random_state=np.random.default_rng(i)) for i in range(60)}
        t.require(ws == ({"A", "B"} if a == b else {w}), f"compare {method}: random if equal gives {ws}")
    t.raises(lambda: compare(1, 1, 2, 2, method="unknown"), "an unknown method is accepted")
