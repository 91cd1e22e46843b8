"""P39: single-objective searches make the moves that define them."""
import numpy as np
from hypothesis import strategies as st

from pymoo.algorithms.soo.nonconvex.brkga import BRKGA
from pymoo.algorithms.soo.nonconvex.de import DE
from pymoo.algorithms.soo.nonconvex.direct import DIRECT
from pymoo.algorithms.soo.nonconvex.es import ES, es_intermediate_recomb, es_mut_loop, es_mut_repair, es_sigma
from pymoo.algorithms.soo.nonconvex.g3pcx import G3PCX
from pymoo.algorithms.soo.nonconvex.isres import ISRES
from pymoo.algorithms.soo.nonconvex.nelder import NelderMead, adaptive_params, default_params
from pymoo.algorithms.soo.nonconvex.pattern import PatternSearch
from pymoo.algorithms.soo.nonconvex.pso import PSO, S1_exploration, S2_exploitation, S3_convergence, S4_jumping_out
from pymoo.algorithms.soo.nonconvex.pso_ep import EPPSO, Swarm
from pymoo.algorithms.soo.nonconvex.sres import SRES
from pymoo.algorithms.soo.univariate.golden import GoldenSectionSearch
from pymoo.algorithms.soo.univariate.quadr_interp import QuadraticInterpolationSearch
from pymoo.core.duplicate import DefaultDuplicateElimination, ElementwiseDuplicateElimination
from pymoo.core.individual import Individual
from pymoo.core.problem import Problem
from vp import algos, gen
from vp.core import Prop

P = Prop("P39", "the search makes at least three moves, of different kinds where there are some", ["values are finite, the functions of univariate searches are unimodal"])

PROBLEM = algos.problem_spec(("free", "free", "con", "eq", "hard", "eqstep"))


def order(ind):
    """sorts solutions like the definition says: violation first, then the objective"""
    return (float(ind.CV[0]), float(ind.F[0]))


def better(a, b):
    """strictly better: less violation if both are infeasible, feasible, or the lower objective"""
    ca, cb = float(a.CV[0]), float(b.CV[0])
    if ca <= 0 and cb <= 0:
        return float(a.F[0]) < float(b.F[0])
    return ca < cb


class Recorder:
    """drives an algorithm from outside and keeps every evaluated individual, batch by batch"""

    def __init__(self, alg, problem, seed, termination=("n_gen", 10 ** 6)):
        self.alg, self.problem = alg, problem
        alg.setup(problem, termination=termination, seed=seed)
        self.batches = []

    def step(self):
        off = self.alg.infill()
        if off is not None:
            self.alg.evaluator.eval(self.problem, off)
            self.batches.append([off] if isinstance(off, Individual) else list(off))
        self.alg.advance(infills=off)
        return self.batches[-1] if off is not None else []


# ---------------------------------------------------------------------------------------------------------- univariate


class Valley(Problem):
    """unimodal: steep or flat sides, a smooth or sharp bottom"""

    def __init__(self, c, xl, xu, power, left, right):
        super().__init__(n_var=1, n_obj=1, xl=np.array([xl]), xu=np.array([xu]))
        self.c, self.power, self.left, self.right = c, power, left, right
        self.log = []

    def value(self, x):
        d = x - self.c
        return (self.left if d < 0 else self.right) * abs(d) ** self.power

    def _evaluate(self, X, out, *args, **kwargs):
        self.log.extend(float(x[0]) for x in X)
        out["F"] = np.array([[self.value(float(x[0]))] for x in X])

    def __deepcopy__(self, memo):
        return self


VALLEY = st.fixed_dictionaries(dict(lo=st.integers(-20, 20), width=st.integers(1, 40), at=st.floats(0, 1), power=st.sampled_from([1.0, 2.0, 2.0, 3.0, 0.5]), left=st.sampled_from([1.0, 0.1, 20.0]), right=st.sampled_from([1.0, 0.1, 20.0]),
                                    own=st.sampled_from(["no", "constructor", "setup"]), gens=st.integers(2, 30), evaluated=st.booleans(), edge=st.sampled_from([0, 0, 0, 1, 2])))


def valley(case):
    lo, hi = float(case["lo"]), float(case["lo"] + case["width"])
    a, b = lo, hi
    if case["own"] != "no":  # an interval of the user within the bounds
        a, b = lo + 0.2 * case["width"], hi - 0.1 * case["width"]
    c = a + case["at"] * (b - a) if case["edge"] == 0 else a if case["edge"] == 1 else b
    return Valley(c, lo, hi, case["power"], case["left"], case["right"]), a, b


def searched(cls, prob, a, b, case):
    kw = dict(a=Individual(X=np.array([a])), b=Individual(X=np.array([b])))
    if case["evaluated"]:
        for e in kw.values():
            e.F, e.evaluated = np.array([prob.value(float(e.X[0]))]), {"F", "G", "H"}
    alg = cls(**kw) if case["own"] == "constructor" else cls()
    alg.setup(prob, termination=("n_gen", case["gens"]), **(kw if case["own"] == "setup" else {}))
    rows = []
    while alg.has_next():
        n = len(prob.log)
        alg.next()
        rows.append((sorted((float(e.X[0]), float(e.F[0])) for e in alg.pop), len(prob.log) - n, float(alg.opt[0].F[0]), alg.evaluator.n_eval))
    return alg, rows


def brackets(t, prob, a, b, rows, name, case):
    """the interval always contains the minimum, lies in the one before, and nothing better was thrown away"""
    t.require(rows and rows[0][0][0][0] == a and rows[0][0][-1][0] == b, lambda: f"{name} starts with {rows[0][0]}, the interval is [{a}, {b}]", name + ":start")
    tol = 1e-9 * (1 + abs(a) + abs(b))
    lo, hi = a, b
    for k, (pts, n, f, n_eval) in enumerate(rows):
        X = [x for x, _ in pts]
        t.require(all(v == prob.value(x) for x, v in pts), f"{name}: values of the points")
        t.require(lo - tol <= X[0] and X[-1] <= hi + tol, f"{name}: [{X[0]}, {X[-1]}] is not a part of [{lo}, {hi}]", name + ":inside")
        lo, hi = X[0], X[-1]
        t.require(lo - tol <= prob.c <= hi + tol, lambda: f"{name}: the minimum {prob.c} is not in [{lo}, {hi}] after iteration {k + 1} (points {pts})", name + ":bracket")
        if k:
            t.require(n <= 1, f"{name}: {n} evaluations in one iteration")
            t.require(f <= rows[k - 1][2], f"{name}: {rows[k - 1][2]} was reached, {f} is reported afterwards", name + ":lost")
        t.require(n_eval == sum(r[1] for r in rows[:k + 1]), f"{name}: {n_eval} evaluations counted")


@P.check(VALLEY, quick=250*3, thorough=5000, shards=(1, 4))
def golden(case, t):
    """golden section search: one evaluation per iteration, the interval with the minimum shrinks by the golden ratio"""
    prob, a, b = valley(case)
    alg, rows = searched(GoldenSectionSearch, prob, a, b, case)
    t.nontrivial(case["gens"] > 4)
    brackets(t, prob, a, b, rows, "golden", case)
    R = (5 ** 0.5 - 1) / 2
    t.require(len(rows) == case["gens"], f"{len(rows)} iterations")
    for k, (pts, n, f, _) in enumerate(rows):
        w = (b - a) * R ** k
        if w < 1e-5 * (1 + abs(a) + abs(b)):
            break
        X = [x for x, _ in pts]
        t.close([X[-1] - X[0], X[-1] - X[1], X[2] - X[0]], [w, R * w, R * w], f"golden: points {X} after iteration {k + 1}", rtol=1e-5)


@P.check(VALLEY, quick=250*3, thorough=5000, shards=(1, 4))
def quadratic(case, t):
    """quadratic interpolation: the minimum stays in the interval, and is found at once if the function is a parabola"""
    prob, a, b = valley(case)
    parabola = prob.power == 2 and prob.left == prob.right
    alg, rows = searched(QuadraticInterpolationSearch, prob, a, b, case)
    brackets(t, prob, a, b, rows, "quadratic", case)
    t.close(rows[0][0][1][0], (a + b) / 2, "quadratic: the first point is not in the middle")
    t.nontrivial(len({r[0][0][0] for r in rows}) > 1 and len({r[0][-1][0] for r in rows}) > 1)
    inside = [k for k, r in enumerate(rows) if r[0][1][1] < r[0][0][1] and r[0][1][1] < r[0][2][1]]
    if parabola and inside and inside[0] + 1 < len(rows):
        k = inside[0]
        w = rows[k][0][2][0] - rows[k][0][0][0]
        if w > 1e-3 * (b - a):
            t.require(any(abs(x - prob.c) <= 1e-6 * (b - a) for x in prob.log[:sum(r[1] for r in rows[:k + 2])]), f"the minimum {prob.c} of a parabola through {rows[k][0]} was not found: {rows[k + 1][0]}", "parabola")


# ---------------------------------------------------------------------------------------------------------- local search


def clip(prob, x):
    if prob.xl is None:
        return x
    return np.minimum(np.maximum(x, prob.xl), prob.xu)


class Pt:
    """a point of the model"""

    def __init__(self, x, poly):
        self.X = x
        self.F, self.CV = poly(x)


def judge(prob):
    def f(x):
        e = Individual(X=x)
        F, G, H = prob.values(x)
        e.F, e.G, e.H = F[0], G[0], H[0]
        return np.array(e.F), np.array(e.CV)
    return f


def longest(x, d, prob):
    """how far one can go from x along d without leaving the bounds"""
    m = np.inf
    if prob.xl is None:
        return m
    for a, s, lo, hi in zip(x, d, prob.xl, prob.xu):
        if s:
            m = min(m, ((hi if s > 0 else lo) - a) / s)
    return max(m, 0.0)


@P.check(st.fixed_dictionaries(dict(p=PROBLEM, scale=st.sampled_from([None, None, 0.02, 0.2]), par=st.sampled_from(["adaptive", "default"]), steps=st.integers(5, 60), x0=st.sampled_from(["sampled", "array", "evaluated"]), open=st.booleans(), seed=st.integers(0, 1000))), quick=160*3, thorough=3000, shards=(4, 8))
def nelder(case, t):
    """Nelder-Mead: the sequence of points is the one of the method with these parameters"""
    prob = algos.mk_problem(dict(case["p"], n=max(2, case["p"]["n"])), "nelder")
    n = prob.n_var
    f = judge(prob)
    r = gen.rng(case["seed"])
    kw = {}
    if case["x0"] != "sampled":
        x0 = prob.xl + np.round(r.random(n), 3) * (prob.xu - prob.xl)
        if case["open"]:  # a problem without bounds needs a point to start from
            prob.xl = prob.xu = None
            x0[r.random(n) < 0.2] = 0.0
        kw["x0"] = x0
        if case["x0"] == "evaluated":
            e = Individual(X=x0)
            from pymoo.core.evaluator import Evaluator
            Evaluator().eval(prob, e)
            from pymoo.core.population import Population
            kw["x0"] = Population.create(e)
    if case["scale"] is not None:
        kw["init_simplex_scale"] = case["scale"]
    par = adaptive_params if case["par"] == "adaptive" else default_params
    rec = Recorder(NelderMead(func_params=par, **kw), prob, case["seed"])
    alpha, beta, gamma, delta = (1, 1 + 2 / n, 0.75 - 1 / (2 * n), 1 - 1 / n) if case["par"] == "adaptive" else (1, 2.0, 0.5, 0.05)
    first = rec.step()
    start = min(first, key=order)
    if case["x0"] != "sampled":
        t.require(len(first) == 1 and np.array_equal(first[0].X, x0), "the search does not start at the point given")
    # the first simplex: a step along every axis
    simplex = [Pt(np.array(start.X, dtype=float), f)]
    for k in range(n):
        x = np.array(start.X, dtype=float)
        if prob.xl is None:  # relative to the point
            x[k] += (case["scale"] or 0.05) * x[k] if x[k] else 0.00025
        else:
            d = (case["scale"] or 0.05) * (prob.xu[k] - prob.xl[k])
            x[k] = x[k] + d if x[k] + d < prob.xu[k] else x[k] - d
        simplex.append(Pt(x, f))
    got = rec.step()
    want = [e.X for e in simplex]
    X = [e.X for e in got]
    t.require(len(X) >= n and all(np.abs(np.array(want) - x).max(axis=1).min() < 1e-9 for x in X) and all(np.abs(np.array(X + [start.X]) - w).max(axis=1).min() < 1e-9 for w in want), f"first simplex {np.array(X).tolist()}, expected {np.array(want).tolist()}", "simplex")
    simplex.sort(key=order)
    kinds = set()

    def model():
        nonlocal simplex
        c = np.mean([e.X for e in simplex[:-1]], axis=0)
        worst = simplex[-1]
        xr = clip(prob, c + min(alpha, longest(c, c - worst.X, prob)) * (c - worst.X))
        refl = Pt(xr, f)
        yield [xr]
        new, shrink = None, False
        if better(refl, simplex[0]):
            xe = clip(prob, c + min(beta, longest(c, xr - c, prob)) * (xr - c))
            yield [xe]
            e = Pt(xe, f)
            new = e if better(e, refl) else refl
            kinds.add("expand")
        elif better(refl, simplex[-2]):
            new = refl
            kinds.add("reflect")
        else:
            outside = better(refl, worst)
            xc = c + (gamma if outside else -gamma) * (xr - c)
            yield [xc]
            e = Pt(xc, f)
            kinds.add("outside" if outside else "inside")
            if better(e, refl if outside else worst):
                new = e
            else:
                shrink = True
        if shrink:
            kinds.add("shrink")
            others = [simplex[0].X + delta * (e.X - simplex[0].X) for e in simplex[1:]]
            yield others
            simplex = [simplex[0]] + [Pt(x, f) for x in others]
        else:
            simplex = simplex[:-1] + [new]
        simplex = sorted(simplex, key=order)

    k = 0
    while k < case["steps"]:
        vals = [order(e) for e in simplex]
        size = max(np.abs(e.X - simplex[0].X).max() for e in simplex)
        if size < 1e-4:  # rounding decides from here on
            break
        for pts in model():
            got = [e.X for e in rec.step()]
            k += 1
            # both continue from the points of the program: differences do not add up
            t.require(len(got) == len(pts), f"{len(got)} points evaluated, the method asks for {len(pts)}", "points")
            for x, y in zip(got, pts):
                t.require(np.abs(x - y).max() <= 1e-8, lambda: f"step {k}: {x.tolist()} was evaluated, expected {y.tolist()} ({sorted(kinds)})", "move")
        close = sorted(abs(a[1] - b[1]) + abs(a[0] - b[0]) for a, b in zip(sorted(vals), sorted(vals)[1:]))
        if close and 0 < close[0] < 1e-9:
            break
    t.nontrivial(len(kinds) > 2)
    if "shrink" in kinds:
        t.nontrivial(True, "shrink")


@P.check(st.fixed_dictionaries(dict(p=PROBLEM, delta=st.sampled_from([None, 0.1, 0.5]), rho=st.sampled_from([None, 0.3, 0.7]), step=st.sampled_from([None, 0.5, 2.0]), steps=st.integers(5, 80), open=st.sampled_from([False, False, True]), seed=st.integers(0, 1000))), quick=160*3, thorough=3000, shards=(4, 8))
def pattern(case, t):
    """pattern search: explores both directions of every axis around its centre, follows directions of improvement, contracts otherwise"""
    prob = algos.mk_problem(case["p"], "pattern")
    n = prob.n_var
    kw = {k: v for k, v in dict(init_delta=case["delta"], init_rho=case["rho"], step_size=case["step"]).items() if v is not None}
    if case["open"]:
        r = gen.rng(case["seed"])
        kw["x0"] = np.where(r.random(n) < 0.2, 0.0, np.round(r.uniform(-9, 9, n), 2))
        prob.xl = prob.xu = None
    alg = PatternSearch(**kw)
    rho0, delta0, step = alg.init_rho, alg.init_delta, alg.step_size
    rec = Recorder(alg, prob, case["seed"])
    center = min(rec.step(), key=order)
    queue = []

    def nxt():
        if not queue:
            queue.extend(rec.step())
        t.require(queue, "nothing was evaluated", "nothing")
        return queue.pop(0)

    evals = [0]
    kinds = set()
    if case["open"]:  # half of the distance from the origin, at least one
        width = np.maximum(np.abs(center.X) / 2, 1.0)
    else:
        width = delta0 * (prob.xu - prob.xl)

    def explore(start, sign, rho):
        cur, left = start, set(range(n))
        while left:
            first = nxt()
            evals[0] += 1
            cands = [k for k in left if np.abs(first.X - clip(prob, cur.X + np.eye(n)[k] * sign[k] * rho * width)).max() <= 1e-12]
            t.require(cands, lambda: f"{first.X.tolist()} is no step along an axis that is still to be explored from {cur.X.tolist()} (remaining {sorted(left)}, directions {sign.tolist()}, lengths {(rho * width).tolist()})", "step")
            if better(first, cur):
                left.discard(cands[0])
                cur = first
                continue
            second = nxt()
            evals[0] += 1
            cands = [k for k in cands if np.abs(second.X - clip(prob, cur.X - np.eye(n)[k] * sign[k] * rho * width)).max() <= 1e-12]
            t.require(cands, lambda: f"{second.X.tolist()} is not the step back along the axis of {first.X.tolist()} from {cur.X.tolist()}", "back")
            left.discard(cands[0])
            if better(second, cur):
                cur = second
        return cur

    expl, fails, sign = center, 0, np.ones(n)
    rho = rho0
    while evals[0] < case["steps"]:
        if not better(expl, center):
            kinds.add("contract")
            fails += 1
            rho = rho0 ** fails
            if (rho * width).max() < 1e-6:
                break
            expl = explore(center, sign, rho)
        else:
            kinds.add("pattern")
            d = expl.X - center.X
            center = expl
            trial = nxt()
            evals[0] += 1
            t.require(np.abs(trial.X - clip(prob, center.X + step * d)).max() <= 1e-9, lambda: f"pattern move to {trial.X.tolist()} from {center.X.tolist()} along {d.tolist()}, step size {step}", "pattern")
            sign = np.where(d > 0, 1.0, -1.0)
            expl = explore(trial, sign, rho)
    t.nontrivial(len(kinds) > 1)


@P.check(st.fixed_dictionaries(dict(p=PROBLEM, steps=st.integers(2, 12), cand=st.sampled_from([None, None, 2, 50]), pen=st.sampled_from([None, 1.0, 0.0]), seed=st.integers(0, 1000))), quick=100*3, thorough=1500, shards=(4, 8))
def direct(case, t):
    """DIRECT: boxes divide the search space, the ones split are the best of their size, into thirds along a longest side"""
    prob = algos.mk_problem(case["p"], "direct")
    n = prob.n_var
    kw = {k: v for k, v in dict(n_max_candidates=case["cand"], penalty=case["pen"]).items() if v is not None}
    alg = DIRECT(**kw)
    n_max, pen = alg.n_max_candidates, alg.penalty
    rec = Recorder(alg, prob, case["seed"])
    first = rec.step()
    t.require(len(first) == 1 and np.abs(first[0].X - (prob.xl + prob.xu) / 2).max() < 1e-12, "the search does not start in the centre")
    W = prob.xu - prob.xl
    boxes = [[first[0], np.ones(n)]]  # centre and relative side lengths
    for it in range(case["steps"]):
        if len(boxes) > 300:
            break
        F, CV = np.array([b[0].F[0] for b in boxes]), np.array([b[0].CV[0] for b in boxes])
        w = F.max() - F.min()
        v = (F - F.min()) / (w if w > 0 else 1.0) + pen * CV
        size = np.array([b[1].mean() for b in boxes])
        new = rec.step()
        t.require(len(new) % 2 == 0 and new, f"{len(new)} new points")
        chosen, out = [], []
        for a, b in zip(new[::2], new[1::2]):
            mid = (a.X + b.X) / 2
            k = int(np.argmin([np.abs((mid - e[0].X) / W).max() for e in boxes]))
            c, side = boxes[k]
            t.require(np.abs((mid - c.X) / W).max() < 1e-9, f"{a.X.tolist()} and {b.X.tolist()} are not symmetric to a point evaluated", "symmetric")
            d = np.abs(b.X - a.X) / W / 2
            ax = int(np.argmax(d))
            t.require(np.abs(np.delete(d, ax)).max(initial=0) < 1e-9 and abs(side[ax] - side.max()) < 1e-9 and abs(d[ax] - side[ax] / 3) < 1e-9, f"{a.X.tolist()} and {b.X.tolist()}: not thirds of a longest side of the box of {c.X.tolist()} with sides {(side * W).tolist()}", "thirds")
            t.require(k not in chosen, "a box was split twice")
            chosen.append(k)
            side = side.copy()
            side[ax] /= 3
            out += [[a, side], [b, side]]
            boxes[k] = [c, side]
        for i in chosen:
            # (the sizes of boxes that are equally large differ by rounding)
            dom = [j for j in range(len(v)) if size[j] > size[i] + 1e-9 and v[j] <= v[i] - 1e-12]
            t.require(not dom or len(v) == 1, lambda: f"the box of {boxes[i][0].X.tolist()} (size {size[i]}, value {v[i]}) was split, box {dom[0]} is larger ({size[dom[0]]}) and better ({v[dom[0]]})", "dominated")
        if len(chosen) < n_max:
            for i in range(len(v)):
                weak = [j for j in range(len(v)) if j != i and size[j] >= size[i] - 1e-9 and v[j] <= v[i] + 1e-9]
                t.require(i in chosen or weak, lambda: f"the box of {boxes[i][0].X.tolist()} (size {size[i]}, value {v[i]}) was not split", "missed")
        t.require(len(chosen) <= max(n_max, 1), f"{len(chosen)} boxes were split, at most {n_max}", "candidates")
        boxes += out
        t.nontrivial(len(chosen) > 1)
    vol = sum(np.prod(b[1]) for b in boxes)
    t.close(vol, 1.0, "volume of all boxes")
    if len(boxes) < alg.n_max_archive:
        t.require({id(b[0]) for b in boxes} == {id(e) for e in alg.pop}, "the population is not what was evaluated", "population")


# ---------------------------------------------------------------------------------------------------------- particles


@P.check(st.fixed_dictionaries(dict(p=PROBLEM, algo=st.sampled_from(["pso", "pso", "star", "ring", "random"]), n=st.integers(4, 12), steps=st.integers(2, 12), v0=st.sampled_from(["random", "zero"]), vmax=st.sampled_from([0.05, 0.2, 0.5]), seed=st.integers(0, 1000))), quick=160*3, thorough=3000, shards=(4, 8))
def particles(case, t):
    """particle swarms: everybody remembers the best position it has been at, hears of those of its neighbours, and moves no faster than allowed"""
    prob = algos.mk_problem(case["p"], "pso")
    if case["algo"] == "pso":
        alg = PSO(pop_size=case["n"], initial_velocity=case["v0"], max_velocity_rate=case["vmax"], pertube_best=case["seed"] % 2 == 0)
    else:
        alg = EPPSO(pop_size=case["n"], topology=case["algo"], init_V=case["v0"], swarm=Swarm(V_max=case["vmax"]))
    rec = Recorder(alg, prob, case["seed"])
    first = rec.step()
    n = len(first)
    t.require(n == case["n"], f"{n} particles")
    best, where = list(first), list(first)
    limit = case["vmax"] * (prob.xu - prob.xl)
    improved, same, free = 0, 0, 0
    for it in range(case["steps"]):
        if case["algo"] != "pso":
            links = [[i for i in range(n) if k in [int(e) for e in alg.neighbors[i]]] for k in range(n)]
            if case["algo"] == "star":
                t.require(all(sorted(e) == list(range(n)) for e in links), "star: not everybody hears of everybody")
            elif case["algo"] == "ring" and n > 3:
                t.require(all(set(e) == {(k - 1) % n, k, (k + 1) % n} for k, e in enumerate(links)), f"ring: neighbours {links}")
        V = np.array([e.get("V") for e in where])
        A = np.array([e.X for e in where])
        PB = np.array([e.X for e in best])
        if case["algo"] == "pso":
            SB = np.tile(alg.opt[0].X, (n, 1))
            ws, c1, c2 = (alg.w, alg.w), alg.c1, alg.c2
            skip = {min(range(n), key=lambda i: order(best[i]))} if alg.pertube_best else set()
        else:
            SB = np.array([alg.lbest[k].X for k in range(n)])
            ws, c1, c2, skip = (0.7, 0.9), 1.6, 1.6, set()
        new = rec.step()
        t.require(len(new) == n, f"{len(new)} new positions for {n} particles")
        # the equation of the swarm: inertia, what the particle remembers and what it has heard of
        B, W = np.array([e.X for e in new]), np.array([e.get("V") for e in new])
        pull = [np.minimum(0, c1 * (PB - A)) + np.minimum(0, c2 * (SB - A)), np.maximum(0, c1 * (PB - A)) + np.maximum(0, c2 * (SB - A))]
        keep = [np.minimum(ws[0] * V, ws[1] * V), np.maximum(ws[0] * V, ws[1] * V)]
        tol = 1e-9 * (1 + np.abs(A) + limit)
        low, high = (np.clip(a + b, -limit, limit) for a, b in zip(keep, pull))
        out = (A + high > prob.xu + tol) | (A + low < prob.xl - tol)  # might have left the bounds
        for k in set(range(n)) - skip:
            if case["algo"] == "pso":
                t.require(((low[k] - tol[k] <= W[k]) & (W[k] <= high[k] + tol[k])).all(), lambda: f"the velocity of particle {k} is {W[k].tolist()}, the equation of the swarm gives values from {low[k].tolist()} to {high[k].tolist()}", "velocity")
                left = (A[k] + W[k] < prob.xl) | (A[k] + W[k] > prob.xu)
                bad = (np.abs(A[k] + W[k] - B[k]) > tol[k]) & ~left
            else:
                bad = (np.abs(A[k] + W[k] - B[k]) > tol[k]) | ~(out[k] | ((low[k] - tol[k] <= W[k]) & (W[k] <= high[k] + tol[k])))
            t.require(not bad.any(), lambda: f"particle {k} moved from {A[k].tolist()} to {B[k].tolist()} with velocity {W[k].tolist()} (possible {low[k].tolist()} to {high[k].tolist()})", "position")
        for k in skip:
            # the best is perturbed where it has been best: PM leaves every variable with a probability of more than one half
            moved = PB[k] != A[k]
            same, free = same + int((B[k] == PB[k])[moved].sum()), free + int(moved.sum())
        fast = [k for k in range(n) if (np.abs(new[k].X - where[k].X) > limit + 1e-9).any()]
        if case["algo"] != "pso":
            # leaving the bounds is repaired by a random position
            hit = [k for k in fast if not (((np.abs(new[k].X - where[k].X) <= limit + 1e-9) | (np.minimum(where[k].X - prob.xl, prob.xu - where[k].X) < limit)).all())]
            t.require(not hit, lambda: f"particle {hit[0]} moved from {where[hit[0]].X.tolist()} to {new[hit[0]].X.tolist()}, at most {limit.tolist()} are allowed", "fast")
        for k in range(n):
            if better(new[k], best[k]):
                best[k] = new[k]
                improved += 1
        where = list(new)
        pop = list(alg.pop)
        for k in range(n):
            t.require(order_key(pop[k]) == order_key(best[k]), lambda: f"particle {k} remembers {pop[k].X.tolist()} with {order(pop[k])}, the best it has been at is {best[k].X.tolist()} with {order(best[k])}", "memory")
        if case["algo"] in ("star", "ring"):
            for k in range(n):
                b = min((order_key(best[i]) for i in links[k]))
                t.require(order_key(alg.lbest[k]) == b, lambda: f"the best known to particle {k} has {order(alg.lbest[k])}, the best of its neighbours {links[k]} is {b}", "neighbours")
    t.require(free < 20 or same > 0, lambda: f"none of the {free} values of the perturbed best is one of the best position known", "perturbed")
    t.nontrivial(improved > 2)


# (published vertices of the membership functions of the four states: exploration, exploitation, convergence, jumping out)
STATES = [([0, 0.4, 0.6, 0.7, 0.8, 1], [0, 0, 1, 1, 0, 0]), ([0, 0.2, 0.3, 0.4, 0.6, 1], [0, 0, 1, 1, 0, 0]), ([0, 0.1, 0.3, 1], [1, 1, 0, 0]), ([0, 0.7, 0.9, 1], [0, 0, 1, 1])]
CHANGE = [(1, -1), (0.5, -0.5), (0.5, 0.5), (-1, 1)]


@P.check(st.fixed_dictionaries(dict(p=PROBLEM, n=st.integers(4, 12), steps=st.integers(2, 15), c1=st.sampled_from([1.5, 2.0, 2.4]), c2=st.sampled_from([1.6, 2.0, 2.5]), fs=st.lists(st.floats(0, 1), min_size=1, max_size=5), seed=st.integers(0, 1000))), quick=160, thorough=3000, shards=(4, 8))
def adaptation(case, t):
    """particle swarms: state, inertia and the two coefficients follow from how far the swarm is spread around the best"""
    for f in case["fs"]:
        for k, fun in enumerate((S1_exploration, S2_exploitation, S3_convergence, S4_jumping_out)):
            t.require(abs(fun(f) - np.interp(f, *STATES[k])) < 1e-9, f"membership of {f} in state {k + 1}: {fun(f)}, expected {np.interp(f, *STATES[k])}", "membership")
    prob = algos.mk_problem(case["p"], "pso")
    alg = PSO(pop_size=case["n"], c1=case["c1"], c2=case["c2"], pertube_best=False)
    rec = Recorder(alg, prob, case["seed"])
    rec.step()
    c1, c2, w = case["c1"], case["c2"], 0.9
    t.require((alg.c1, alg.c2, alg.w) == (c1, c2, w), f"coefficients {alg.c1}, {alg.c2} and inertia {alg.w} at the beginning")
    seen, over, wrong = set(), False, []
    for it in range(case["steps"]):
        best = alg.opt[0].X.astype(float)
        rec.step()
        X = (np.array([e.X for e in alg.pop], dtype=float) - prob.xl) / (prob.xu - prob.xl)
        D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(axis=2)).sum(axis=1) / (len(X) - 1)
        g = np.sqrt(((X - (best - prob.xl) / (prob.xu - prob.xl)) ** 2).sum(axis=1)).mean()
        if D.max() - D.min() < 1e-9:
            return
        f = (g - D.min()) / (D.max() - D.min())
        t.close(alg.f, f, "the spread around the best", rtol=1e-6, atol=1e-9)
        f = alg.f
        t.close(alg.w, 1 / (1 + 1.5 * np.exp(-2.6 * f)), "the inertia", rtol=1e-9, atol=1e-12)
        S = [np.interp(f, *e) for e in STATES]
        k = alg.strategy - 1
        t.require(S[k] >= max(S) - 1e-9, f"state {k + 1} for {f}, the memberships are {S}", "state")
        seen.add(k)
        found, nearly = False, False
        for delta in np.linspace(0.05, 0.1, 501):
            a, b = (min(2.5, max(1.5, c + s * delta)) for c, s in zip((c1, c2), CHANGE[k]))
            if a + b > 4:
                over = True
                # the one known deviation: the second coefficient is scaled by a sum that contains the first one scaled already
                nearly = nearly or abs(4 * a / (a + b) - alg.c1) < 2e-4 and abs(4 * b / (4 * a / (a + b) + b) - alg.c2) < 2e-4
                a, b = 4 * a / (a + b), 4 * b / (a + b)
            found = found or abs(a - alg.c1) < 2e-4 and abs(b - alg.c2) < 2e-4
        t.require(found or nearly, lambda: f"the coefficients change from {(c1, c2)} to {(alg.c1, alg.c2)} in state {k + 1}", "coefficients")
        if not found:
            wrong.append(f"the coefficients change from {(c1, c2)} to {(alg.c1, alg.c2)} in state {k + 1}, their sum is limited to 4")
        c1, c2 = alg.c1, alg.c2
    t.nontrivial(len(seen) > 1 or over)
    t.require(not wrong, lambda: wrong[0], "coefficients:sum")


def order_key(e):
    cv = float(e.CV[0])
    return (cv, float(e.F[0])) if cv <= 0 else (cv,)


# ------------------------------------------------------------------------------------------------- evolution strategies


@P.check(st.fixed_dictionaries(dict(p=PROBLEM, algo=st.sampled_from(["es", "sres", "isres"]), mu=st.integers(2, 6), lam=st.integers(2, 4), gamma=st.sampled_from([0.85, 0.3, None]), pf=st.sampled_from([0.0, 1.0, 0.45]), steps=st.integers(2, 8), seed=st.integers(0, 1000))), quick=200*3, thorough=4000, shards=(4, 8))
def strategies(case, t):
    """evolution strategies: the best offspring become the parents, the first of them are moved along the differences to the best"""
    name = case["algo"]
    prob = algos.mk_problem(case["p"], "es" if name == "es" else "sres")
    mu, lam = case["mu"], case["mu"] * case["lam"]
    kw = dict(pop_size=mu, n_offsprings=lam)
    gamma = case["gamma"]
    if name == "isres":
        gamma = gamma or 0.85
    if name == "es" or name == "isres":
        kw["gamma"] = gamma
    else:
        gamma = 0.85
    if name != "es":
        kw["PF"] = case["pf"]
    alg = dict(es=ES, sres=SRES, isres=ISRES)[name](**kw)
    rec = Recorder(alg, prob, case["seed"])
    new = rec.step()
    n = prob.n_var
    top = (prob.xu - prob.xl) / n ** 0.5
    moved = 0
    for it in range(case["steps"]):
        pop = list(alg.pop)
        t.require(len(pop) == min(mu, len(new)) and len({id(e) for e in pop}) == len(pop) and {id(e) for e in pop} <= {id(e) for e in new}, f"{name}: the {len(pop)} parents are not {mu} of the {len(new)} last offspring", "comma")
        if name == "es" or (case["pf"] == 0.0):
            want = sorted(order_key(e) for e in new)[:mu]
            got = [order_key(e) for e in pop]
            t.require(got == want, lambda: f"{name}: parents {got}, the best offspring are {want}", "best")
        elif case["pf"] == 1.0 or prob.n_constr == 0:
            want = sorted(float(e.F[0]) for e in new)[:mu]
            t.require([float(e.F[0]) for e in pop] == want, lambda: f"{name}: parents {[float(e.F[0]) for e in pop]}, the lowest objectives are {want}", "objective")
        new = rec.step()
        t.require(len(new) == lam, f"{name}: {len(new)} offspring, expected {lam}")
        if len(pop) == mu:
            own = np.array([pop[i % mu].get("sigma") for i in range(lam)], dtype=float)
            for i, e in enumerate(new):
                if gamma is not None and i < mu - 1:
                    t.require(np.array_equal(e.get("sigma"), own[i]), lambda: f"{name}: offspring {i} follows a difference, its step sizes {e.get('sigma').tolist()} are not the ones of its parent {own[i].tolist()}", "inherit")
                x = pop[i % mu].X
                at = ((e.X == prob.xl) & (x != prob.xl)) | ((e.X == prob.xu) & (x != prob.xu))
                t.require(not at.any(), lambda: f"{name}: offspring {e.X.tolist()} of {x.tolist()} was moved to the bounds", "bounds")
        if gamma is not None and len(pop) == mu:
            for i in range(mu - 1):
                x = pop[i].X + gamma * (pop[0].X - pop[i + 1].X)
                ok = (x >= prob.xl) & (x <= prob.xu)
                t.require(np.abs(new[i].X - x)[ok].max(initial=0) < 1e-9, lambda: f"{name}: offspring {i} is {new[i].X.tolist()}, expected {x.tolist()}", "differential")
                moved += int(ok.any())
        for e in new:
            s = np.asarray(e.get("sigma"), dtype=float)
            t.require(s.shape == (n,) and (s > 0).all() and (s <= top * (1 + 1e-9)).all(), f"{name}: step sizes {s.tolist()}, at most {top.tolist()}", "sigma")
    t.nontrivial(moved > 0 or gamma is None)


@P.check(st.fixed_dictionaries(dict(n=st.integers(2, 9), m=st.integers(1, 4), trials=st.integers(1, 10), wide=st.sampled_from([0.01, 0.3, 1e9]), phi=st.sampled_from([0.0, 0.5, 1.0]), loop=st.booleans(), s=gen.SEED)), quick=200, thorough=3000)
def step_sizes(case, t):
    """mutation of strategies: log-normal step sizes, recombined by averages, steps out of the bounds taken again or not at all"""
    n, m = case["n"], case["m"]
    r = gen.rng(case["s"])
    rs = np.random.default_rng(case["s"])
    lo = r.integers(-5, 5, m).astype(float)
    hi = lo + 1 + r.integers(0, 5, m)
    X = lo + (hi - lo) * r.random((n, m))
    sg = (0.1 + r.random((n, m))) * case["wide"]
    if case["loop"]:
        Y = es_mut_loop(X.copy(), sg, lo, hi, n_trials=case["trials"], random_state=rs)
    else:
        Z = X + sg * r.standard_normal((n, m))
        Y = es_mut_repair(Z.copy(), X.copy(), sg, lo, hi, case["trials"], random_state=rs)
        inside = (Z >= lo) & (Z <= hi)
        t.require(np.array_equal(Y[inside], Z[inside]), "a value within the bounds was changed")
    t.nontrivial(case["wide"] > 0.1)
    t.require(((Y >= lo) & (Y <= hi)).all(), f"values {Y.tolist()} out of the bounds {lo.tolist()} and {hi.tolist()}")
    if case["wide"] > 1:
        # (the step would have to be smaller than 1e-8 standard deviations)
        t.require(np.array_equal(Y, X) if case["loop"] else np.array_equal(Y[~inside], X[~inside]), "no step stays within the bounds, and the parent's value is not taken")
    t.require(not (((Y == lo) | (Y == hi)) & (Y != X)).any(), "a value was moved to the bounds")
    R = es_intermediate_recomb(sg.copy(), random_state=rs)
    for i in range(n):
        for j in range(m):
            t.require(np.abs((sg[i, j] + sg[:, j]) / 2 - R[i, j]).min() <= 1e-12 * case["wide"], f"the recombined step size {R[i, j]} is not the mean of {sg[i, j]} and one of {sg[:, j].tolist()}")
    one = np.tile(sg[:1], (2000, 1))
    one[:, 1:] = one[:, :1]
    tau, taup = case["phi"] / (2 * m ** 0.5) ** 0.5, case["phi"] / (2 * m) ** 0.5
    L = np.log(es_sigma(one, tau, taup, random_state=rs) / one)
    v = tau ** 2 + taup ** 2
    # (2000 samples: six standard deviations of the estimates)
    t.require(np.all(np.abs(L.mean(axis=0)) <= 6 * (v / 2000) ** 0.5 + 1e-12), f"the mean of the logarithms of new step sizes is {L.mean(axis=0).tolist()}")
    t.require(np.all(np.abs(L.var(axis=0) - v) <= 6 * v * (2 / 2000) ** 0.5 + 1e-12), f"the variance of the logarithms of new step sizes is {L.var(axis=0).tolist()}, expected {v}")
    if m > 1:
        c = np.mean(L[:, 0] * L[:, 1])
        t.require(abs(c - taup ** 2) <= 6 * (2 * v * v / 2000) ** 0.5 + 1e-12, f"the covariance of the logarithms of the step sizes of one solution is {c}, expected {taup ** 2}")


@P.check(st.fixed_dictionaries(dict(kind=st.sampled_from(["es", "sres", "isres"]), n=st.integers(1, 12), phi=st.sampled_from([0.3, 0.5, 1.0, 2.0]), alpha=st.sampled_from([0.1, 0.2, 0.7, 1.0]), seed=st.integers(0, 1000))), quick=60, thorough=1000, shards=(4, 8))
def rates(case, t):
    """the learning rates of evolution strategies follow from the number of variables"""
    n, phi = case["n"], case["phi"]
    big = 1500
    kw = dict(pop_size=4, n_offsprings=big, phi=phi)
    alg = dict(es=ES, sres=SRES, isres=ISRES)[case["kind"]](**kw, **(dict(alpha=case["alpha"]) if case["kind"] == "isres" else {}))
    if case["kind"] == "isres":
        a = case["alpha"]
        chi = 1 / (2 * n) + 1 / (2 * n ** 0.5)
        phi = (2 / chi * np.log((np.exp(case["phi"] ** 2 * chi / 2) - (1 - a)) / a)) ** 0.5
    prob = algos.mk_problem(dict(n=n, m=2, kind="free", style="poly", s=case["seed"]), "es")
    rec = Recorder(alg, prob, case["seed"])
    rec.step()
    off = rec.step()
    t.nontrivial(n > 1)
    for name, want in (("tau", phi / (2 * n ** 0.5) ** 0.5), ("taup", phi / (2 * n) ** 0.5)):
        got = getattr(alg, name, want)
        t.require(abs(got - want) <= 1e-9 * want, f"{case['kind']}: {name} = {got} with {n} variables and phi = {case['phi']}, expected {want}", "rate")
    # all step sizes are the largest ones at first: what is left are the logarithms below zero, half of the variance
    largest = (prob.xu - prob.xl) / n ** 0.5
    S = np.array([e.get("sigma") for e in off])[4:] / largest
    t.require((S <= 1 + 1e-12).all() and (S > 0).all(), "step sizes are positive and limited", "limit")
    if case["kind"] == "isres":
        S = 1 + (S - 1) / case["alpha"]
    L = np.log(np.maximum(S, 1e-300))
    v = phi ** 2 / (2 * n) + phi ** 2 / (2 * n ** 0.5)
    if (S > 1e-6).all():
        t.require(abs((L ** 2).mean() - v / 2) <= 6 * (1.25 / len(L)) ** 0.5 * v, lambda: f"{case['kind']}: the step sizes vary by {2 * (L ** 2).mean()}, expected {v}", "spread")


# ---------------------------------------------------------------------------------------------------------- random keys


@P.check(st.fixed_dictionaries(dict(p=PROBLEM, ne=st.integers(1, 5), no=st.integers(2, 8), nm=st.integers(1, 4), bias=st.sampled_from([0.7, 0.5, 0.99]), steps=st.integers(2, 8), seed=st.integers(0, 1000))), quick=120*3, thorough=2500, shards=(4, 8))
def keys(case, t):
    """biased random keys: the elite is kept, offspring mix an elite and another solution, mutants are added"""
    prob = algos.mk_problem(case["p"], "brkga")
    alg = BRKGA(n_elites=case["ne"], n_offsprings=case["no"], n_mutants=case["nm"], bias=case["bias"])
    rec = Recorder(alg, prob, case["seed"])
    new = rec.step()
    N = case["ne"] + case["no"] + case["nm"]
    t.require(len(new) == N, f"{len(new)} initial solutions, expected {N}")
    old = new
    for it in range(case["steps"]):
        old = sorted(old, key=lambda e: order(e))
        cut = order_key(old[case["ne"] - 1]) if len(old) >= case["ne"] else order_key(old[-1])
        elite = [e for e in old if order_key(e) <= cut]
        others = [e for e in old if order_key(e) >= cut]
        new = rec.step()
        t.require(len(new) <= case["no"] + case["nm"] and len(new) > case["nm"] - 1, f"{len(new)} new solutions")
        for e in new[:len(new) - case["nm"]]:
            ok = any(all(x in (a, b) for x, a, b in zip(e.X, p.X, q.X)) for p in elite for q in others + elite)
            t.require(ok, lambda: f"offspring {e.X.tolist()} is no mixture of an elite and another solution", "mixture")
            t.nontrivial(len(elite) < len(old))
        pop = list(alg.pop)
        kept = [e for e in pop if not any(e is x for x in new)]
        t.require(len(kept) == min(case["ne"], len(old)) and sorted(order_key(e) for e in kept) == sorted(order_key(e) for e in old)[:len(kept)], lambda: f"kept {[order_key(e) for e in kept]} of {[order_key(e) for e in old]}, {case['ne']} elites", "elite")
        t.require(len(pop) == len(kept) + len(new), "the new solutions are not in the population")
        old = pop


class Near(ElementwiseDuplicateElimination):
    def is_equal(self, a, b):
        return bool(np.abs(np.asarray(a.X) - np.asarray(b.X)).max() < 0.3)


class Steps(Problem):
    """values on a coarse grid: many different points are equally good"""

    def __init__(self, n_var, q):
        super().__init__(n_var=n_var, n_obj=1, xl=0.0, xu=1.0)
        self.q = q

    def _evaluate(self, X, out, *args, **kwargs):
        out["F"] = np.floor(X.sum(axis=1, keepdims=True) * self.q)


@P.check(st.fixed_dictionaries(dict(n_var=st.integers(1, 3), q=st.sampled_from([1, 2, 4]), ne=st.integers(1, 6), no=st.integers(1, 8), nm=st.integers(1, 5), elim=st.sampled_from(["values", "near", "same"]), steps=st.integers(1, 6), seed=st.integers(0, 1000))), quick=240, thorough=3000, shards=(2, 8))
def keys_duplicates(case, t):
    """biased random keys: solutions with equal values are removed, or only those which are duplicates besides"""
    prob = Steps(case["n_var"], case["q"])
    elim = {"values": True, "near": Near(), "same": DefaultDuplicateElimination()}[case["elim"]]
    alg = BRKGA(n_elites=case["ne"], n_offsprings=case["no"], n_mutants=case["nm"], eliminate_duplicates=elim)
    rec = Recorder(alg, prob, case["seed"])
    new = rec.step()
    gone_before = 0
    before = []
    for it in range(case["steps"]):
        pop = list(alg.pop)
        pool = before + new
        t.require(all(any(e is x for x in pool) for e in pop), "a solution came from somewhere else", "pool")
        gone = [e for e in pool if not any(e is x for x in pop)]
        F = [float(e.F[0]) for e in pop]
        if case["elim"] == "values":
            t.require(len(set(F)) == len(F) and set(F) == {float(e.F[0]) for e in pool}, lambda: f"values {sorted(F)} of {sorted(float(e.F[0]) for e in pool)}: each is to be kept once", "values")
        else:
            same = (lambda a, b: np.abs(a.X - b.X).max() < 0.3) if case["elim"] == "near" else (lambda a, b: np.array_equal(a.X, b.X))
            for e in gone:
                t.require(any(x.F[0] == e.F[0] for x in pop if x is not e) and any(same(e, x) for x in pop), lambda: f"{e.X.tolist()} with {float(e.F[0])} was removed, although none of its duplicates is left", "removed")
            if case["elim"] == "same":
                t.require(not gone or len({tuple(e.X) for e in pool}) < len(pool), "different solutions were removed", "removed")
        gone_before += len(gone)
        types = [e.get("type") for e in pop]
        cut = sorted(F)[:case["ne"]]
        t.require(sorted(f for f, y in zip(F, types) if y == "elite") == cut, lambda: f"elite with {[f for f, y in zip(F, types) if y == 'elite']} of {sorted(F)}", "elite")
        before = [e for e, y in zip(pop, types) if y == "elite"]
        new = rec.step()
    t.nontrivial(gone_before > 0 or case["elim"] == "same")


# ---------------------------------------------------------------------------------------------------------- G3-PCX


@P.check(st.fixed_dictionaries(dict(p=PROBLEM, n=st.integers(5, 12), no=st.integers(1, 3), fam=st.integers(1, 4), np=st.integers(3, 4), steps=st.integers(2, 20), seed=st.integers(0, 1000))), quick=120*3, thorough=2500, shards=(4, 8))
def family(case, t):
    """G3-PCX: a family of some members and the offspring competes for the places of these members; the best solution leads"""
    prob = algos.mk_problem(case["p"], "g3pcx")
    alg = G3PCX(pop_size=case["n"], n_offsprings=case["no"], family_size=case["fam"], n_parents=case["np"])
    rec = Recorder(alg, prob, case["seed"])
    first = rec.step()
    pop = list(alg.pop)
    t.require({id(e) for e in pop} == {id(e) for e in first}, "the initial population is not what was sampled")
    t.require(order_key(pop[0]) == min(order_key(e) for e in pop), "the best solution does not lead")
    pending, changed = None, 0
    for it in range(case["steps"]):
        off = rec.alg.infill()
        now = list(alg.pop)
        if pending is not None:
            # between two requests the offspring have competed
            left = [e for e in pop if not any(e is x for x in now)]
            came = [e for e in now if not any(e is x for x in pop)]
            t.require(len(now) == len(pop) and len({id(e) for e in now}) == len(now), f"{len(now)} members, {len(pop)} before")
            t.require(len(left) == len(came) <= case["fam"] and all(any(e is x for x in pending) for e in came), f"{len(came)} new members, family of {case['fam']}", "family")
            t.require(not left or max(order_key(e) for e in came) <= min(order_key(e) for e in left), lambda: f"{[order_key(e) for e in left]} were replaced by {[order_key(e) for e in came]}", "worse")
            rest = [e for e in pending if not any(e is x for x in came)]
            t.require(not left or not rest or min(order_key(e) for e in rest) >= max(order_key(e) for e in came), "a better offspring was discarded", "discarded")
            t.require(order_key(now[0]) == min(order_key(e) for e in now), lambda: f"the first solution has {order_key(now[0])}, the best {min(order_key(e) for e in now)}", "lead")
            t.require(not rest or min(order_key(e) for e in rest) >= order_key(now[0]), "an offspring better than every member was discarded", "best lost")
            changed += len(came)
        alg.evaluator.eval(prob, off)
        pop, pending = now, [off] if isinstance(off, Individual) else list(off)
        t.require(len(pending) == case["no"], f"{len(pending)} offspring, {case['no']} asked for")
        alg.advance(infills=off)
    t.nontrivial(changed > 1)


# ------------------------------------------------------------------------------------------------ differential evolution


@P.check(st.fixed_dictionaries(dict(p=PROBLEM, n=st.integers(5, 7), sel=st.sampled_from(["rand", "best", "target-to-best"]), cross=st.sampled_from(["bin", "exp", "line", "hypercube"]), F=st.sampled_from([0.3, 0.5, 0.9]), CR=st.sampled_from([0.1, 0.5, 1.0]), jitter=st.booleans(), steps=st.integers(2, 4), seed=st.integers(0, 1000))), quick=160*3, thorough=3000, shards=(4, 8))
def differential(case, t):
    """differential evolution: trials are made of their target and a donor, a member moved along the difference of two others"""
    blend = case["cross"] in ("line", "hypercube")
    # many variables: a blend with a donor is not one with another donor by chance
    prob = algos.mk_problem(dict(case["p"], n=8 + case["p"]["n"] if blend else max(2, case["p"]["n"])), "de")
    n = prob.n_var
    alg = DE(pop_size=case["n"], variant=f"DE/{case['sel']}/1/{case['cross']}", F=case["F"], CR=case["CR"], jitter=case["jitter"], prob_mut=0.0)
    rec = Recorder(alg, prob, case["seed"])
    rec.step()
    inside = equal = 0
    for it in range(case["steps"]):
        pop = [np.array(e.X, dtype=float) for e in alg.pop]
        ks = [order_key(e) for e in alg.pop]
        old = list(alg.pop)
        lead = {i for i in range(len(ks)) if ks[i] == min(ks)}
        new = rec.step()
        tol = 1e-9 + (0.0006 * case["F"] * np.abs(prob.xu - prob.xl) if case["jitter"] else 0.0)
        for e in new:
            k = int(np.ravel(e.get("index"))[0])
            M = np.abs(e.X - pop[k]) > 1e-12
            N = len(pop)

            def origin(strict):
                for a in range(N):
                    if case["sel"] == "best" and a not in lead or case["sel"] == "rand" and strict and a == k or case["sel"] == "target-to-best" and a != k:
                        continue
                    for b in range(N):
                        if case["sel"] == "target-to-best" and b not in lead or case["sel"] == "rand" and strict and b in (a, k):
                            continue
                        for c in range(N):
                            d = pop[a] + case["F"] * (pop[b] - pop[c])
                            out = (d < prob.xl + tol) | (d > prob.xu - tol)  # drawn anew
                            if blend:
                                full = d - pop[k]
                                step, far = e.X - pop[k], case["CR"] * full
                                # as far as CR along the way to the donor, by the same part for all variables on a line
                                fits = (out | (step >= np.minimum(0, far) - tol) & (step <= np.maximum(0, far) + tol)).all()
                                big = ~out & (np.abs(full) > 0.01)
                                if fits and case["cross"] == "line" and big.any():
                                    j = int(np.argmax(np.where(out, 0.0, np.abs(full))))
                                    fits = (out | (np.abs(step - step[j] / full[j] * full) <= 3 * tol)).all()
                                if fits:
                                    return big.sum() > 1
                                continue
                            if ((np.abs(e.X - d) <= tol) | out | ~M).all():
                                return (M & ~out).any()
                return None

            found = origin(True) if M.any() else False
            if found is None:
                # parents are drawn again ten times if they are equal (three out of five are not different then with 0.6 %)
                found = origin(False)
                equal += 1
            inside += bool(found)
            found = found is not None and equal <= 4
            t.require(found, lambda: f"{case['sel']}: trial {e.X.tolist()} of target {pop[k].tolist()} contains no moved member of {[x.tolist() for x in pop]}", "donor")
        now = list(alg.pop)
        idx = [int(np.ravel(e.get("index"))[0]) for e in new]
        for j, (k, e) in enumerate(zip(idx, new)):
            if any(np.array_equal(e.X, x) for x in pop + [o.X for o in new[:j]]):
                continue  # the population never gets a solution twice
            want = e if better(e, old[k]) else old[k]
            t.require(now[k] is want, f"target {order_key(old[k])} met trial {order_key(e)} and {order_key(now[k])} is kept", "replace")
    t.nontrivial(inside > 2)
