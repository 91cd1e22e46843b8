"""P38: preferences of a decision maker are understood, modelled and respected."""
import itertools

import builtins
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from pymoo.algorithms.moo.pinsga2 import PINSGA2, AutomatedDM
from pymoo.core.callback import Callback
from pymoo.optimize import minimize
from pymoo.util import value_functions as mvf
from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting
from pymoo.util.vf_dominator import VFDominator
from vp import algos, gen
from vp.core import Prop

P = Prop("P38", "at least three solutions the decision maker is not indifferent about", ["the decision maker is consistent (a weak order)"])


def dense(u):
    """ranks of values, the largest is 1, equal values share a rank"""
    levels = sorted(set(u), reverse=True)
    return [levels.index(v) + 1 for v in u]


@P.check(st.fixed_dictionaries(dict(u=st.lists(st.integers(0, 6), min_size=1, max_size=8), m=st.integers(1, 4), signs=st.sampled_from([1, -1, "mixed"]), answer=st.sampled_from(["plain", "caps", "spaces", "nonsense"]), s=gen.SEED)), quick=300, thorough=5000)
def pairwise(case, t):
    """pairwise comparisons are turned into the ranks of the decision maker, whatever the order of the solutions"""
    u, m = case["u"], case["m"]
    r = gen.rng(case["s"])
    F = np.round(r.random((len(u), m)), 6)
    signs = 1 if case["signs"] == 1 else -np.ones(m) if case["signs"] == -1 else np.where(np.arange(m) % 2, -1.0, 1.0)
    val = {tuple(f * signs): v for f, v in zip(F, u)}
    shown, wrong = [], [0]

    def dm(G):
        if case["answer"] == "nonsense" and wrong[0] == 0:
            wrong[0] = 1
            return "maybe"
        wrong[0] = 0
        a, b = val[tuple(G[0])], val[tuple(G[1])]
        shown.append((tuple(G[0]), tuple(G[1])))
        ans = "a" if a > b else "b" if a < b else "c"
        return dict(plain=ans, caps=ans.upper(), spaces=f"  {ans} \n", nonsense=ans)[case["answer"]]

    import contextlib
    import io
    G = F.copy()
    with contextlib.redirect_stdout(io.StringIO()):
        ranks = PINSGA2._get_pairwise_ranks(F, signs, dm=dm)
    t.nontrivial(len(set(u)) > 1 and len(u) > 2)
    t.require(list(ranks) == dense(u), f"ranks {list(ranks)} of solutions with values {u}, expected {dense(u)}")
    t.require(np.array_equal(F, G), "the solutions were modified")
    t.require(all(a != b for a, b in shown) and len({frozenset(e) for e in shown}) == len(shown), "the same comparison was asked for twice")


FIT = st.fixed_dictionaries(dict(m=st.integers(2, 3), n=st.integers(2, 5), dm=st.sampled_from(["linear", "linear", "random", "ties"]), vf=st.sampled_from(["linear", "linear", "poly"]), method=st.sampled_from(["trust-constr", "SLSQP"]), delta=st.sampled_from([0.1, 0.1, 0.5]), tup=st.booleans(), s=gen.SEED))


def situation(case):
    r = gen.rng(case["s"])
    F = r.random((case["n"], case["m"])) + 0.05
    F = np.round(F / F.sum(axis=1, keepdims=True), 4)
    F = np.unique(F, axis=0)[r.permutation(len(np.unique(F, axis=0)))]
    if case["dm"] == "linear":
        w = r.dirichlet(np.ones(case["m"]))
        ranks = dense([round(float(v), 9) for v in F @ w])
    elif case["dm"] == "random":
        ranks = [int(v) + 1 for v in r.permutation(len(F))]
    else:
        ranks = dense([int(v) for v in r.integers(0, 3, len(F))])
    return F, ranks


def judged(t, F, ranks, res, kind, delta, tol=1e-5):
    """a fitted value function is consistent with the ranks"""
    x = np.asarray(res.params, dtype=float)
    m = F.shape[1]
    V = [float(np.asarray(res.vf(F[[i]])).ravel()[0]) for i in range(len(F))]
    if kind == "linear":
        t.require(np.all(x >= -tol) and abs(x.sum() - 1) < 1e-3, f"weights {x} of a linear value function")
        t.close(V, F @ x, "value of a linear function")
    else:
        k, c = x[:m * m].reshape(m, m), x[m * m:]
        t.require(np.all(k >= -tol) and np.abs(k.sum(axis=1) - 1).max() < 1e-3, f"coefficients {k} of a polynomial value function")
        # the terms are sums of the objectives, weighted in a rotated order, and an offset
        S = np.array([[sum(f[(j + i) % m] * k[i, j] for j in range(m)) + 2 * c[i] for i in range(m)] for f in F])
        t.require(S.min() >= -tol, f"negative term {S.min()} of a polynomial value function")
        t.close(V, S.prod(axis=1), "value of a polynomial function", rtol=1e-6, atol=1e-9)
    t.require(res.epsilon >= -tol, f"accepted with a negative margin {res.epsilon}")
    tol = tol * max(1.0, abs(res.epsilon))
    order = sorted(range(len(F)), key=lambda i: ranks[i])
    for a, b in zip(order, order[1:]):
        if ranks[a] < ranks[b]:
            t.require(V[a] - V[b] >= res.epsilon - tol, f"solution of rank {ranks[a]} has the value {V[a]}, rank {ranks[b]} {V[b]}, margin {res.epsilon}")


@P.check(FIT, quick=120, thorough=1500, shards=(8, 8), hang=300)
def fit(case, t):
    """a value function which is said to fit ranks the solutions like the decision maker, with the margin reported"""
    F, ranks = situation(case)
    if len(F) < 2:
        return
    t.nontrivial(len(F) > 2 and len(set(ranks)) > 2)
    given, G = list(ranks), F.copy()
    f = mvf.create_linear_vf if case["vf"] == "linear" else mvf.create_poly_vf
    res = f(F, given, delta=case["delta"], method=case["method"], max_iter=150 if case["vf"] == "linear" else 60)
    t.require(given == ranks and np.array_equal(F, G), "the solutions or their ranks given were modified")
    if res.fit:
        judged(t, F, ranks, res, case["vf"], case["delta"])
        for a, b in itertools.combinations(range(len(F)), 2):
            if ranks[a] == ranks[b] and res.epsilon > 0:
                k = sum(1 for e in ranks if e == ranks[a])
                V = [float(np.asarray(res.vf(F[[i]])).ravel()[0]) for i in (a, b)]
                t.require(abs(V[0] - V[1]) <= (k - 1) * case["delta"] * res.epsilon + 1e-5 * max(1.0, res.epsilon), f"solutions of the same rank with values {V}, margin {res.epsilon}")
    elif case["vf"] == "linear" and case["method"] == "SLSQP" and case["dm"] == "linear":
        t.fail("no linear value function for ranks that come from one", "not found")
    if len(F) > 1:
        i, j = 0, 1
        cmp = mvf.make_vf_comparator(res.vf, F[i])(F[j])
        d = float(np.asarray(res.vf(F[i])).ravel()[0]) - float(np.asarray(res.vf(F[j])).ravel()[0])
        t.require(cmp == (-1 if d > 0 else 1 if d < 0 else 0), f"comparison {cmp} of values that differ by {d}")


@P.check(st.fixed_dictionaries(dict(m=st.integers(2, 2), n=st.integers(2, 3), dm=st.sampled_from(["linear", "random"]), vf=st.sampled_from(["linear", "linear", "poly"]), method=st.sampled_from(["ES", "GA"]), s=gen.SEED)), quick=32, thorough=60, shards=(8, 8), hang=400)
def evolved(case, t):
    """the same for value functions found by evolution - or none is reported"""
    F, ranks = situation(case)
    if len(F) < 2:
        return
    t.nontrivial(len(F) > 2)
    given = list(ranks)
    f = mvf.create_linear_vf if case["vf"] == "linear" else mvf.create_poly_vf
    res = f(F, given, method=case["method"])
    t.require(given == ranks, "the ranks given were modified")
    if res.fit:
        judged(t, F, ranks, res, case["vf"], 0.1)
    for name in ("", "PSO", "slsqp"):
        t.raises(lambda: f(F, list(ranks), method=name), f"unknown method {name!r} was accepted", ValueError, "method")


def dominates(a, b):
    return bool(np.all(a <= b) and np.any(a < b))


class Vf:
    def __init__(self, w):
        self.w = w

    def vf(self, G):
        return G @ self.w


class Alg:
    vf_res = None
    v2 = None


@P.check(st.fixed_dictionaries(dict(p=gen.points(1, 14, 2, 4, modes=["grid", "grid2", "unit", "dup", "front"]), vf=st.booleans(), at=st.integers(0, 30), neg=st.booleans(), s=gen.SEED)), quick=300, thorough=6000, shards=(1, 4))
def domination(case, t):
    """solutions better than the second best the decision maker has ranked dominate the ones which are worse; the rest is usual domination"""
    F = gen.mk(case["p"])
    n = len(F)
    r = gen.rng(case["s"])
    alg = Alg()
    w = r.integers(0, 4, F.shape[1]).astype(float)
    if case["neg"]:
        w[0] = -1.0
    V = -F @ w
    if case["vf"]:
        alg.vf_res, alg.v2 = Vf(w), float(V[case["at"] % n])
    D = VFDominator(alg)
    M = np.asarray(D.calc_domination_matrix(F.copy()), dtype=int)
    want = np.zeros((n, n), dtype=int)
    for i in range(n):
        for j in range(n):
            up = dominates(F[i], F[j])
            down = dominates(F[j], F[i])
            if case["vf"]:
                up = up or (V[i] > alg.v2 and V[j] < alg.v2)
                down = down or (V[i] < alg.v2 and V[j] > alg.v2)
            want[i, j] = int(up) - int(down)
    t.nontrivial(n > 2 and case["vf"] and len(np.unique(V)) > 2)
    t.require(np.array_equal(M, want), f"relations {M.tolist()}, expected {want.tolist()}", "relation")
    # the plain relation: constraints first
    G = r.integers(-1, 2, (n, 2)).astype(float)
    cv = np.maximum(G, 0).sum(axis=1)
    plain = np.array([[int(dominates(F[i], F[j])) - int(dominates(F[j], F[i])) for j in range(n)] for i in range(n)]).reshape(n, n)
    con = np.where(cv[:, None] == cv[None], plain, np.where(cv[:, None] < cv[None], 1, -1))
    for i in range(n):
        for j in range(n):
            t.require(D.get_relation(F[i], F[j]) == plain[i, j] and D.get_relation(F[i], F[j], cv[i], cv[j]) == con[i, j], f"relation of {F[i].tolist()} and {F[j].tolist()}, violations {cv[i], cv[j]}", "plain")
    t.require(np.array_equal(D.calc_domination_matrix_loop(F, G), con), "relations with constraints", "plain")
    # a part against all
    if n > 1:
        t.require(np.array_equal(np.asarray(D.calc_domination_matrix(F[:2].copy(), F.copy()), dtype=int), want[:2]), "relations of a part to all", "part")
    # the best front does not depend on the order, and is the set of solutions nothing dominates
    best = {i for i in range(n) if not (want[:, i] == 1).any()}
    p = r.permutation(n)
    for idx in (np.arange(n), p):
        if best:
            fronts = NonDominatedSorting(dominator=VFDominator(alg)).do(F[idx])
            t.require({int(idx[i]) for i in fronts[0]} == best, f"first front {sorted(int(idx[i]) for i in fronts[0])}, expected {sorted(best)}", "front")


class Dm(AutomatedDM):
    """ranks by a hidden weight vector and remembers everything it was asked"""

    def __init__(self, w, kind):
        super().__init__()
        self.w, self.kind, self.asked = w, kind, []

    def u(self, F):
        return [round(-float(f @ self.w), 9) for f in F]

    def makeDecision(self, F):
        u = self.u(F)
        if self.kind == "absolute":
            self.asked.append(np.array(F))
            return np.array(dense(u))
        self.asked.append(np.array(F))
        return "a" if u[0] > u[1] else "b" if u[0] < u[1] else "c"


class Watch(Callback):
    def __init__(self):
        super().__init__()
        self.rows = []

    def notify(self, a):
        d = a.automated_dm
        self.rows.append(dict(n_gen=a.n_gen, asked=len(d.asked), eta=np.array(a.eta_F), v2=a.v2, vf=a.vf_res, pop=a.pop.get("F"), rank=a.pop.get("rank"), w=None if a.vf_res is None else np.array(a.vf_res.params)))


@P.check(st.fixed_dictionaries(dict(p=algos.problem_spec(("free",)), n=st.integers(8, 16), tau=st.integers(2, 3), eta=st.integers(2, 5), gens=st.integers(3, 7), kind=st.sampled_from(["pairwise", "absolute"]), vf=st.sampled_from(["linear", "linear", "linear", "poly"]), seed=st.integers(0, 1000), s=gen.SEED)),
         quick=120, thorough=800, shards=(8, 8), hang=300)
def run(case, t):
    """interactive runs: asked every tau generations about different solutions of the first front; the model used agrees with the answers"""
    problem = algos.mk_problem(case["p"], "nsga2")
    if problem.n_obj < 2:
        return
    r = gen.rng(case["s"])
    dm = Dm(r.dirichlet(np.ones(problem.n_obj)), case["kind"])
    alg = PINSGA2(pop_size=case["n"], tau=case["tau"], eta=case["eta"], vf_type=case["vf"], ranking_type=case["kind"], automated_dm=dm, vf_max_iter=40, opt_method="SLSQP" if case["seed"] % 2 else "trust-constr")
    w = Watch()
    res = minimize(problem, alg, ("n_gen", case["gens"]), callback=w, seed=case["seed"])
    dm = res.algorithm.automated_dm
    t.nontrivial(len(dm.asked) > 2)
    before, vf_before = 0, None
    for row in w.rows:
        time = row["n_gen"] % case["tau"] == 0
        eta = row["eta"]
        t.require(time or row["asked"] == before, f"the decision maker was asked in generation {row['n_gen']}, interval {case['tau']}")
        if time and row["asked"] > before:
            new = dm.asked[before:row["asked"]]
            shown = np.unique(np.vstack(new), axis=0)
            t.require(len(shown) <= case["eta"], f"{len(shown)} solutions shown, {case['eta']} asked for")
            if case["kind"] == "absolute":
                t.require(len(new) == 1 and len(np.unique(new[0], axis=0)) == len(new[0]), "a solution is shown twice, or they are not shown once")
            if len(eta):
                t.require(np.array_equal(shown, np.unique(eta, axis=0)), "solutions compared are not the ones selected")
            if row["vf"] is not None and row["vf"] is not vf_before and len(eta):
                u = dm.u(eta)
                ranks = dense(u)
                V = [float(np.asarray(row["vf"].vf(-eta[[i]])).ravel()[0]) for i in range(len(eta))]
                hits = [i for i in range(len(eta)) if abs(V[i] - row["v2"]) <= 1e-9 * max(1.0, abs(row["v2"]))]
                t.require(hits, f"the value {row['v2']} is the one of no solution shown, {V}")
                best = ranks.index(1)
                if ranks.count(1) == 1:
                    # the best solution is never removed from the fit, and the solution for comparison is worse
                    tol = 1e-5 * max(1.0, abs(V[best]), abs(row["vf"].epsilon))
                    t.require(V[best] >= row["v2"] - tol and best not in [i for i in hits if len(hits) == 1], f"the comparison is made with the solution preferred most: values {V}, ranks {ranks}, compared with {row['v2']}", "second")
        front = row["pop"]
        if time and len(eta):
            t.require(all((front == e).all(axis=1).any() for e in eta), "a solution shown is not in the population")
        before, vf_before = row["asked"], row["vf"]
    again = minimize(problem, PINSGA2(pop_size=case["n"], tau=case["tau"], eta=case["eta"], vf_type=case["vf"], ranking_type=case["kind"], automated_dm=Dm(dm.w, case["kind"]), vf_max_iter=40, opt_method="SLSQP" if case["seed"] % 2 else "trust-constr"), ("n_gen", case["gens"]), seed=case["seed"])
    t.require(np.array_equal(np.atleast_2d(again.pop.get("F")), np.atleast_2d(res.pop.get("F"))), "an interactive run with the same answers and seed ends elsewhere")


@P.check(st.fixed_dictionaries(dict(p=algos.problem_spec(("free",)), n=st.integers(8, 14), tau=st.integers(1, 3), eta=st.integers(2, 4), gens=st.integers(2, 5), kind=st.sampled_from(["pairwise", "absolute"]), noise=st.booleans(), signs=st.booleans(), seed=st.integers(0, 1000), s=gen.SEED)),
         quick=80, thorough=800, shards=(4, 8), hang=300)
def dialogue(case, t):
    """a person typing answers takes the run on the same course as an automated decision maker giving the same answers; nonsense is asked again"""
    problem = algos.mk_problem(case["p"], "nsga2")
    if problem.n_obj < 2:
        return
    r = gen.rng(case["s"])
    answers = []

    class Log(Dm):
        def makeDecision(self, F):
            a = super().makeDecision(F)
            answers.append(a if isinstance(a, str) else " ".join(str(int(v)) for v in a))
            return a

    kw = dict(pop_size=case["n"], tau=case["tau"], eta=case["eta"], vf_type="linear", ranking_type=case["kind"], vf_max_iter=30, opt_method="SLSQP")
    first = minimize(problem, PINSGA2(automated_dm=Log(r.dirichlet(np.ones(problem.n_obj)), case["kind"]), **kw), ("n_gen", case["gens"]), seed=case["seed"])
    todo, texts = [], []
    for a in answers:
        if case["noise"] and r.random() < 0.3:
            todo.append("what?" if case["kind"] == "pairwise" else str(r.choice(["", "0 1", "99", "none", "1, 2, x", ", ".join(a.split()[1:]), a + " 1"])))
        # as in the example shown, or separated by spaces
        todo.append((a if r.random() < 0.5 else a.replace(" ", ", ")) if case["kind"] == "absolute" else a if r.random() < 0.5 else f" {a.upper()} ")
    todo = todo[::-1]

    def answer(text=""):
        texts.append(text)
        return todo.pop()

    if case["signs"]:
        kw["presi_signs"] = np.where(np.arange(problem.n_obj) % 2 == 0, 1.0, -1.0)
    keep, builtins.input = builtins.input, answer
    try:
        with contextlib.redirect_stdout(io.StringIO()) as shown:
            second = minimize(problem, PINSGA2(automated_dm=None, **kw), ("n_gen", case["gens"]), seed=case["seed"])
    except IndexError:
        t.fail(f"asked {len(texts)} times, {len(answers)} answers were needed before", "asked")
        return
    finally:
        builtins.input = keep
    t.nontrivial(len(answers) > 1)
    t.require(not todo, f"{len(todo)} of the answers were never asked for", "asked")
    a, b = first.pop.get("X", "F"), second.pop.get("X", "F")
    t.require(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]), "the run with typed answers ends elsewhere than the one with the same answers given by a program", "course")
    if case["kind"] == "absolute" and case["signs"] and answers and problem.n_obj > 1:
        # maximized objectives are shown with their own sign
        t.require(len(shown.getvalue()) > 0, "nothing was shown")
