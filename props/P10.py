"""P10: crossovers produce valid offspring made of their parents."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from pymoo.core.crossover import Crossover
from pymoo.core.individual import Individual
from pymoo.core.population import Population
from pymoo.core.problem import Problem
from pymoo.operators.crossover.binx import BX, BinomialCrossover
from pymoo.operators.crossover.dex import DEM, DEX, de_differential
from pymoo.operators.crossover.erx import ERX, erx
from pymoo.operators.crossover.expx import ExponentialCrossover, mut_exp
from pymoo.operators.crossover.hux import HUX
from pymoo.operators.crossover.nox import NoCrossover
from pymoo.operators.crossover.ox import OrderCrossover, ox
from pymoo.operators.crossover.pcx import PCX
from pymoo.operators.crossover.pntx import PointCrossover, SinglePointCrossover, TwoPointCrossover
from pymoo.operators.crossover.sbx import SBX, cross_sbx
from pymoo.operators.crossover.spx import SPX
from pymoo.operators.crossover.ux import UX
from pymoo.operators.repair.rounding import RoundingRepair
from pymoo.operators.selection.rnd import RandomSelection
from vp import gen
from vp.core import Prop

P = Prop("P10", "at least two matings of parents that differ in at least two variables", ["parents are valid points of the problem"])
ALPHA = 1e-12

EXCHANGE = ["ux", "hux", "spx", "single", "two", "pt1", "pt2", "pt3", "pt4", "pt7", "exp", "binx", "binx1"]


def exchange_op(name, prob):
    if name.startswith("pt"):
        return PointCrossover(int(name[2:]), prob=prob)
    return dict(ux=UX, hux=HUX, spx=SPX, single=SinglePointCrossover, two=TwoPointCrossover, exp=ExponentialCrossover, binx=BX, binx1=lambda prob: BinomialCrossover(n_offsprings=1, prob=prob))[name](prob=prob)


def parents_of(kind, n, k, m, r, xl=None, xu=None):
    """n matings of k parents"""
    if kind == "bool":
        return r.random((n, k, m)) < 0.5
    if kind == "int":
        return r.integers(-2, 3, (n, k, m))
    if kind == "float":
        return xl + r.random((n, k, m)) * (xu - xl)
    if kind == "object":
        X = np.empty((n, k, m), dtype=object)
        for i in np.ndindex(n, k, m):
            X[i] = ["red", "green", "a longer name", 7, None][r.integers(5)]
        return X
    if kind == "perm":
        return np.array([[r.permutation(m) for _ in range(k)] for _ in range(n)])
    raise ValueError(kind)


def call(op, prob, A, form, r, seed):
    """run a crossover on the matings A (n, k, m) given as lists of individuals or as population and index matrix"""
    n, k, m = A.shape
    if form == "lists":
        mat = [[Individual(X=A[i, j].copy()) for j in range(k)] for i in range(n)]
        flat = [ind for mm in mat for ind in mm]
        out = op(prob, mat, random_state=np.random.default_rng(seed)) if r.random() < 0.5 else op.do(prob, mat, random_state=np.random.default_rng(seed))
    else:
        perm = r.permutation(n * k)
        pop = Population.new("X", A.reshape(n * k, m)[perm])
        inv = np.argsort(perm).reshape(n, k)
        flat = [pop[inv[i, j]] for i in range(n) for j in range(k)]
        out = op.do(prob, pop, parents=inv, random_state=np.random.default_rng(seed))
    return out, flat


def common(t, name, op, out, flat, A):
    n, k, m = A.shape
    t.require(isinstance(out, Population) and len(out) == n * op.n_offsprings, f"{name}: {len(out)} offspring of {n} matings")
    t.require(all(np.array_equal(ind.X, x) for ind, x in zip(flat, A.reshape(n * k, m))), f"{name}: the parents were modified")
    ids = {id(i) for i in flat}
    t.require(all(id(o) not in ids for o in out), f"{name}: an offspring is one of the parents")
    for o in out:
        t.require(len(o.F) == 0 and len(o.evaluated) == 0, f"{name}: an offspring counts as evaluated")
        t.require(not any(np.shares_memory(np.asarray(o.X), np.asarray(p.X)) for p in flat), f"{name}: offspring share memory with parents")
    X = out.get("X")
    t.require(X.shape == (n * op.n_offsprings, m), f"{name}: shape {X.shape}")
    # offspring c of mating i is at position c * n + i
    return X.reshape(op.n_offsprings, n, m)


@P.check(st.fixed_dictionaries(dict(op=st.sampled_from(EXCHANGE), kind=st.sampled_from(["bool", "int", "object", "float"]), n=st.integers(1, 8), m=st.integers(1, 9),
                                    prob=st.sampled_from([0.0, 0.5, 0.9, 1.0]), form=st.sampled_from(["lists", "index"]), s=gen.SEED)), quick=500, thorough=10000, shards=(2, 8))
def exchange(case, t):
    """discrete recombination: every offspring value comes from a parent at the same position, pairs are complementary"""
    name, n, m = case["op"], case["n"], case["m"]
    r = gen.rng(case["s"])
    op = exchange_op(name, case["prob"])
    A = parents_of(case["kind"], n, 2, m, r, np.zeros(m), np.ones(m))
    prob = Problem(n_var=m, n_obj=1, xl=0, xu=1)
    out, flat = call(op, prob, A, case["form"], r, case["s"])
    Y = common(t, name, op, out, flat, A)
    diff = np.array([[A[i, 0, j] != A[i, 1, j] for j in range(m)] for i in range(n)], dtype=bool).reshape(n, m)
    t.nontrivial(n > 1 and (diff.sum(axis=1) > 1).any(), name)
    t.require(case["kind"] != "bool" or Y.dtype == bool, f"{name}: boolean parents, offspring of type {Y.dtype}")
    for i in range(n):
        a, b = A[i]
        for j in range(m):
            t.require(Y[0, i, j] == a[j] or Y[0, i, j] == b[j], f"{name}: a value of no parent at this position")
            if len(Y) == 2:
                t.require((Y[0, i, j] == a[j] and Y[1, i, j] == b[j]) or (Y[0, i, j] == b[j] and Y[1, i, j] == a[j]), f"{name}: the two offspring are not complementary")
        # the positions (where parents differ) exchanged
        sw = np.array([Y[0, i, j] != a[j] for j in range(m)])
        if case["prob"] == 0:
            t.require(len(Y) == 1 and np.array_equal(Y[0, i], b) or not sw.any(), f"{name}: crossover with probability zero")
        if case["prob"] == 1.0:
            d = diff[i]
            if name == "hux":
                t.require(sw.sum() == math.ceil(d.sum() / 2), f"hux: {sw.sum()} of {d.sum()} differing bits exchanged")
            if d.all():
                cuts = int((sw[1:] != sw[:-1]).sum())
                if name in ("spx", "single", "pt1"):
                    t.require(cuts == (1 if m > 1 else 0) and (m == 1 or (sw[-1] and not sw[0])), f"{name}: exchange pattern {sw.astype(int).tolist()}")
                elif name in ("two", "pt2"):
                    if m > 2:
                        t.require(cuts == 2 and not sw[0] and not sw[-1], f"{name}: exchange pattern {sw.astype(int).tolist()}")
                elif name.startswith("pt"):
                    k = int(name[2:])
                    t.require(cuts == min(k, m - 1) and not sw[0], f"{name}: exchange pattern {sw.astype(int).tolist()}")
                elif name == "exp":
                    t.require(sw.any() and int((sw != np.roll(sw, 1)).sum()) in (0, 2), f"exp: not one cyclic block {sw.astype(int).tolist()}")
                elif name == "binx":
                    t.require(not sw.all(), "binx: offspring keeps nothing of its first parent")
    out2, _ = call(exchange_op(name, case["prob"]), prob, A, "lists", gen.rng(0), case["s"])
    Y2 = out2.get("X").reshape(Y.shape)
    t.require(np.array_equal(Y, Y2), f"{name}: the same matings and random state, other offspring (lists of individuals / indices)")


@P.check(st.fixed_dictionaries(dict(op=st.sampled_from(["ox", "ox-shift", "erx"]), n=st.integers(1, 5), m=st.integers(2, 10), prob=st.sampled_from([0.0, 0.5, 1.0, 1.0]), s=gen.SEED,
                                    form=st.sampled_from(["lists", "index"]), same=st.booleans())), quick=300, thorough=6000)
def permutations(case, t):
    """order and edge recombination: permutations whose sections and neighbours come from the parents"""
    name, n, m = case["op"], case["n"], case["m"]
    r = gen.rng(case["s"])
    op = ERX(prob=case["prob"]) if name == "erx" else OrderCrossover(shift=name == "ox-shift", prob=case["prob"])
    A = parents_of("perm", n, 2, m, r)
    if case["same"]:
        A[0, 1] = A[0, 0]
    t.nontrivial(n > 1 and m > 2, name)
    prob = Problem(n_var=m, n_obj=1, xl=0, xu=m)
    out, flat = call(op, prob, A, case["form"], r, case["s"])
    Y = common(t, name, op, out, flat, A)
    t.require(np.issubdtype(Y.dtype, np.integer), f"{name}: permutations of type {Y.dtype}")
    for i in range(n):
        a, b = A[i].tolist()
        for c in range(len(Y)):
            y = Y[c, i].tolist()
            t.require(sorted(y) == list(range(m)), f"{name}: {a} x {b} -> {y} is not a permutation")
            rec, don = (a, b) if c == 0 else (b, a)
            if case["prob"] == 0:
                t.require(y in (a, b), f"{name}: crossover with probability zero")
            elif case["prob"] == 1 and name == "ox":
                # a block of the donor at the donor's positions, the rest in the order of the receiver
                ok = False
                for s in range(m):
                    for e in range(s + 1, m):
                        blk = don[s:e + 1]
                        rest = [v for v in rec if v not in blk]
                        ok = ok or y == rest[:s] + blk + rest[s:]
                t.require(ok, f"ox: {rec} x {don} -> {y} is no order crossover")
            elif case["prob"] == 1 and name == "ox-shift":
                ok = any(y[s:e + 1] == don[s:e + 1] for s in range(m) for e in range(s + 1, m))
                t.require(ok, f"ox-shift: {rec} x {don} -> {y}: no block of the donor")
            elif case["prob"] == 1 and name == "erx":
                nb = {v: set() for v in range(m)}
                for x in (a, b):
                    for k in range(m):
                        nb[x[k]] |= {x[k - 1], x[(k + 1) % m]}
                for k in range(m - 1):
                    left = nb[y[k]] - set(y[:k + 1])
                    t.require(y[k + 1] in left or not left, f"erx: {a} x {b} -> {y}: an edge of no parent although one was available at {y[k]}")
                    if left:
                        deg = {v: len(nb[v] - set(y[:k + 1])) for v in left}
                        t.require(deg[y[k + 1]] == min(deg.values()), f"erx: {a} x {b} -> {y}: not the neighbour with the fewest neighbours at {y[k]}")
    for seq in ((0, m - 1), (0, 0), (m - 1, m - 1), tuple(sorted(r.integers(0, m, 2).tolist()))):
        a, b = A[0]
        y = ox(a.copy(), b.copy(), seq=seq, shift=name == "ox-shift")
        t.require(sorted(y.tolist()) == list(range(m)), f"ox{seq}: not a permutation")
        t.require(np.array_equal(y[seq[0]:seq[1] + 1], b[seq[0]:seq[1] + 1]), f"ox{seq}: the donation is not at its place")


REAL = ["sbx", "sbx1", "sbx-eta", "pcx", "dex", "dex-exp", "dex-f", "dem", "dem-mid", "dem-bounds", "dem-rand"]


def real_op(name, prob):
    return {"sbx": lambda: SBX(prob=prob), "sbx1": lambda: SBX(prob=prob, n_offsprings=1), "sbx-eta": lambda: SBX(eta=3, prob_var=1.0, prob=prob), "pcx": lambda: PCX(prob=prob), "dex": lambda: DEX(),
            "dex-exp": lambda: DEX(variant="exp", CR=0.9, n_diffs=2), "dex-f": lambda: DEX(F=2.0, CR=1.0), "dem": lambda: DEM(F=1.5), "dem-mid": lambda: DEM(de_repair="midway", n_diffs=2),
            "dem-bounds": lambda: DEM(de_repair="to-bounds", F=2.0), "dem-rand": lambda: DEM(de_repair="rand-init", gamma=None)}[name]()


@P.check(st.fixed_dictionaries(dict(op=st.sampled_from(REAL), b=gen.bounds_spec(1, 6), n=st.integers(1, 8), prob=st.sampled_from([0.0, 0.5, 1.0]), s=gen.SEED,
                                    edge=st.booleans(), same=st.booleans(), fixed=st.booleans(), form=st.sampled_from(["lists", "index"]))), quick=500, thorough=10000, shards=(2, 8))
def real(case, t):
    """real-valued crossovers stay in bounds, keep what the parents agree on, and depend on the random state only"""
    name, n = case["op"], case["n"]
    xl, xu = gen.mk_bounds(case["b"])
    m = len(xl)
    if case["fixed"]:
        xu[-1] = xl[-1]
    r = gen.rng(case["s"])
    op = real_op(name, case["prob"])
    k = op.n_parents
    A = parents_of("float", n, k, m, r, xl, xu)
    A = np.clip(A, xl, xu)
    if case["edge"]:
        A[0, 0] = xl
        A[0, -1] = xu
        A[-1, 0, 0] = xu[0]
    if case["same"]:
        A[0] = A[0, 0]
        A[-1, :, 0] = A[-1, 0, 0]
    t.nontrivial(n > 1 and m > 1, name)
    prob = Problem(n_var=m, n_obj=1, xl=xl.copy(), xu=xu.copy())
    form = "lists" if name.startswith("dem") is False else "index"
    form = case["form"] if not name.startswith("dem") else "index"
    out, flat = call(op, prob, A, form, r, case["s"])
    Y = common(t, name, op, out, flat, A)
    t.require(np.all(np.isfinite(Y)), lambda: f"{name}: {A.tolist()} -> {Y.tolist()}")
    tol = 4 * np.spacing(np.maximum(np.abs(xl), np.abs(xu)))
    t.require(np.all(Y >= xl - tol) and np.all(Y <= xu + tol), lambda: f"{name}: {A.tolist()} -> {Y.tolist()} is out of bounds {xl.tolist()} {xu.tolist()}")
    w = np.maximum(xu - xl, np.abs(xu) * 1e-12)
    for i in range(n):
        for j in range(m):
            v = A[i, :, j]
            # PCX perturbs in all directions unless all parents are the same point
            if np.all(v == v[0]) and (name != "pcx" or np.all(A[i] == A[i, 0])):
                t.require(np.all(np.abs(Y[:, i, j] - v[0]) <= 1e-9 * w[j]), f"{name}: all parents have {v[0]}, offspring {Y[:, i, j].tolist()}")
    if name.startswith("sbx"):
        for i in range(n):
            for j in range(m):
                a, b = A[i, 0, j], A[i, 1, j]
                if len(Y) == 2:
                    y = sorted(Y[:, i, j])
                    mid = (a + b) / 2
                    t.require(y[0] <= mid + 1e-9 * w[j] and y[1] >= mid - 1e-9 * w[j], f"{name}: offspring {y} of {a},{b} are on one side of the midpoint")
                if case["prob"] == 0:
                    t.require(Y[0, i, j] in (a, b), f"{name}: crossover with probability zero")
    out2, _ = call(real_op(name, case["prob"]), prob, A, "index" if name.startswith("dem") else "lists", gen.rng(1), case["s"])
    t.equal(out2.get("X").reshape(Y.shape), Y, f"{name}: the same matings and random state, other offspring")
    t.equal(prob.xl, xl, "bounds modified")


@P.check(st.fixed_dictionaries(dict(eta=st.sampled_from([1.0, 3.0, 15.0, 30.0]), a=st.sampled_from([0.0, 0.1, 0.3, 0.45]), b=st.sampled_from([0.5, 0.7, 0.95, 1.0]), flip=st.booleans(),
                                    lo=st.sampled_from([0.0, -3.0, 100.0]), w=st.sampled_from([1.0, 1e-3, 50.0]), s=gen.SEED)), quick=40, thorough=300, shards=(2, 8))
def sbx_distribution(case, t):
    """the spread of SBX offspring follows the bounded polynomial distribution of its definition"""
    n, eta, lo, w = 1500, case["eta"], case["lo"], case["w"]
    a, b = case["a"], case["b"]
    t.nontrivial(a > 0 and b < 1)
    p = np.array([b, a] if case["flip"] else [a, b]) * w + lo
    X = np.tile(p[:, None, None], (1, n, 1))
    xl, xu = np.array([lo]), np.array([lo + w])
    one = np.ones((n, 1))
    Q = cross_sbx(X.copy(), xl, xu, one * eta, one, one * 0.0, random_state=np.random.default_rng(case["s"]))[:, :, 0]
    Q = (Q - lo) / w
    for which, q in (("lower", Q.min(axis=0)), ("upper", Q.max(axis=0))):
        room = a if which == "lower" else 1 - b
        d, mid = b - a, (a + b) / 2
        beta = 1 + 2 * room / d
        alpha = 2 - beta ** -(eta + 1)
        bq = 2 * np.abs(q - mid) / d
        u = np.where(bq <= 1, bq ** (eta + 1) / alpha, (2 - np.maximum(bq, 1) ** -(eta + 1)) / alpha)
        pv = stats.kstest(np.clip(u, 0, 1), "uniform").pvalue
        t.require(pv > ALPHA, lambda: f"the {which} offspring are not distributed as defined for parents {a} {b}, eta {eta}: p-value {pv}")
    # without exchange each offspring stays on the side of its parent, with probability one-half it is exchanged
    R = cross_sbx(X.copy(), xl, xu, one * eta, one * 0.4, one * 0.5, random_state=np.random.default_rng(case["s"]))[:, :, 0]
    ch = (R[0] != X[0, :, 0]) | (R[1] != X[1, :, 0])
    pv = stats.binomtest(int(ch.sum()), n, 0.4).pvalue
    if 0 < a and b < 1:
        t.require(pv > ALPHA, f"{ch.sum()} of {n} variables recombined with probability 0.4")
    ex = ((R[0] > R[1]) != case["flip"]) & ch
    t.require(stats.binomtest(int(ex.sum()), int(ch.sum()), 0.5).pvalue > ALPHA, f"{ex.sum()} of {ch.sum()} recombined variables exchanged with probability 0.5")
    # children are mirrored if everything is mirrored
    if abs((a + b) - 1) < 1e-9:
        t.close(Q.sum(axis=0), np.ones(n), "symmetric bounds and parents: offspring are not symmetric", rtol=1e-6)


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 5), m=st.integers(1, 4), prob_bin=st.sampled_from([0.0, 1.0]), op=st.booleans(), s=gen.SEED)), quick=100, thorough=2000)
def sbx_exchange(case, t):
    """without exchange the first offspring lies on the side of the first parent, with exchange on the other one"""
    n, m = case["n"], case["m"]
    r = gen.rng(case["s"])
    A = 0.3 + 0.4 * r.random((n, 2, m))
    t.nontrivial(n > 1 and m > 1)
    mat = [[Individual(X=A[i, j].copy()) for j in range(2)] for i in range(n)]
    Y = SBX(prob=1.0, prob_var=1.0, eta=20, prob_exch=1.0, prob_bin=case["prob_bin"])(Problem(n_var=m, n_obj=1, xl=0.0, xu=1.0), mat, random_state=np.random.default_rng(case["s"])).get("X").reshape(2, n, m)
    lower = Y[0] < Y[1]
    ok = (np.abs(Y[0] - Y[1]) > 1e-9) & (np.abs(A[:, 0] - A[:, 1]) > 1e-9)
    flip = A[:, 0] > A[:, 1]
    want = flip if case["prob_bin"] == 1.0 else ~flip
    if not np.all((lower == want)[ok]):
        sorted_ = lower == (case["prob_bin"] == 0.0)
        t.fail("SBX: offspring exchanged although the exchange probability is zero" if case["prob_bin"] == 0 else "SBX: offspring not exchanged although the exchange probability is one",
               sig="sbx-exchange:sorted" if np.all(sorted_[ok]) else "sbx-exchange:other")


@P.check(st.fixed_dictionaries(dict(op=st.sampled_from(EXCHANGE + ["sbx", "pcx"]), prob=st.sampled_from([0.2, 0.5, 0.9]), s=gen.SEED)), quick=60, thorough=500)
def probability(case, t):
    """the crossover happens with the given probability, and over many matings every position is affected"""
    name, n, m = case["op"], 600, 6
    op = SBX(prob=case["prob"], prob_var=1.0) if name == "sbx" else PCX(prob=case["prob"]) if name == "pcx" else exchange_op(name, case["prob"])
    r = gen.rng(case["s"])
    A = np.tile(np.array([np.full(m, 0.3), np.full(m, 0.7), np.full(m, 0.4) + np.arange(m) * 0.01])[:op.n_parents], (n, 1, 1))
    prob = Problem(n_var=m, n_obj=1, xl=0.0, xu=1.0)
    t.nontrivial(True, name)
    out, flat = call(op, prob, A, "lists", r, case["s"])
    Y = out.get("X").reshape(op.n_offsprings, n, m)
    ch = Y[0] != A[:, 0]
    hit = ch.any(axis=1)
    if op.n_offsprings == 1:
        # no crossover: a random parent
        hit = ~np.array([any(np.array_equal(Y[0, i], p) for p in A[i]) for i in range(n)])
    exp = dict(binx1=case["prob"] * (1 - 2 * 0.5 ** 6 - 0), ux=case["prob"] * (1 - 0.5 ** 6)).get(name, case["prob"])
    if name == "exp":
        # all positions exchanged is a crossover as well; the first offspring then is the second parent
        exp = case["prob"]
    if name == "binx1":
        exp = None
    if name == "binx":
        exp = case["prob"] * (1 - 0.5 ** 6)
        return t.require(abs(hit.mean() - exp) < 0.17, f"{name}: {hit.mean()} of the matings recombined, probability {case['prob']}")
    if exp is not None:
        t.require(stats.binomtest(int(hit.sum()), n, exp).pvalue > ALPHA, f"{name}: {hit.sum()} of {n} matings recombined, probability {case['prob']}")
    pos = ch[hit].any(axis=0)
    fixed_first = name in ("spx", "single", "two") or name.startswith("pt")
    want = np.ones(m, dtype=bool)
    if fixed_first:
        want[0] = False
    if name in ("two", "pt2"):
        want[-1] = False
    if name not in ("binx1",) and hit.sum() > 60:
        t.require(not (pos & ~want).any() and (pos[want]).mean() > 0.5, f"{name}: exchanged positions {pos.tolist()}")
        if name in ("ux", "hux", "exp", "binx", "sbx", "pcx"):
            t.require(pos.all(), f"{name}: positions never exchanged: {np.where(~pos)[0].tolist()}")


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 6), m=st.integers(1, 5), k=st.integers(1, 2), s=gen.SEED, F=st.sampled_from([0.0, 0.5, 0.8, 1.5]), CR=st.sampled_from([0.0, 0.3, 1.0]),
                                    variant=st.sampled_from(["bin", "exp"]))), quick=300, thorough=5000)
def differential(case, t):
    """DE: the donor is base + F * sum of differences, the trial takes donor values and at least one; no bounds: exact"""
    n, m, k, F = case["n"], case["m"], case["k"], case["F"]
    r = gen.rng(case["s"])
    X = r.integers(-8, 9, (1 + 2 * k, n, m)) / 4.0
    V = X[0] + sum(F * (X[1 + 2 * j] - X[2 + 2 * j]) for j in range(k))
    t.nontrivial(n > 1 and m > 1 and F > 0)
    t.close(de_differential(X.copy(), F, jitter=False, random_state=np.random.default_rng(1)), V, "de_differential")
    Vj, D = de_differential(X.copy(), F, jitter=True, gamma=1e-4, return_differentials=True, random_state=np.random.default_rng(1))
    t.close(Vj, V, "de_differential with jitter", rtol=1e-3, atol=1e-3 * 20)
    t.close(Vj - X[0], D, "the differentials", atol=1e-9)
    for dither in ("vector", "scalar"):
        W = de_differential(X.copy(), F, dither=dither, jitter=False, random_state=np.random.default_rng(2))
        if k == 1 and F < 1:
            d = X[1] - X[2]
            with np.errstate(all="ignore"):
                f = np.where(d != 0, (W - X[0]) / np.where(d == 0, 1, d), np.nan)
            for i in range(n):
                v = f[i][~np.isnan(f[i])]
                t.require(len(v) == 0 or (np.ptp(v) < 1e-9 and F - 1e-9 <= v[0] <= 1 + 1e-9), f"dither {dither}: scale {v.tolist()} for F={F}")
            if dither == "scalar":
                v = f[~np.isnan(f)]
                t.require(len(v) == 0 or np.ptp(v) < 1e-9, "scalar dither differs between the vectors")
    prob = Problem(n_var=m, n_obj=1)
    A = np.swapaxes(X, 0, 1)
    op = DEX(F=F, CR=case["CR"], variant=case["variant"], n_diffs=k)
    out, flat = call(op, prob, A, "lists", r, case["s"])
    Y = common(t, "dex", op, out, flat, A)[0]
    # DEX jitters F by gamma
    tol = 1e-3 * 20
    isdon, istar = np.abs(Y - V) <= tol, Y == X[0]
    t.require(np.all(isdon | istar), lambda: f"DEX: values of neither the donor nor the target: {Y.tolist()} donor {V.tolist()} target {X[0].tolist()}")
    if F > 0:
        d = np.abs(V - X[0]) > 2 * tol
        for i in range(n):
            if d[i].all():
                t.require((~istar[i]).any(), "DEX: nothing of the donor")
                if case["CR"] == 0 and case["variant"] == "bin":
                    t.require((~istar[i]).sum() == 1, "DEX: CR=0 takes exactly one value of the donor")
        if case["CR"] == 1:
            t.require(np.all(isdon), "DEX: CR=1 takes the whole donor")
    op = DEM(F=F, gamma=None, n_diffs=k)
    out, flat = call(op, prob, A, "index", r, case["s"])
    t.close(common(t, "dem", op, out, flat, A)[0], V, "DEM without bounds")
    M = mut_exp(n, m, case["CR"], at_least_once=True, random_state=np.random.default_rng(case["s"]))
    t.require(M.shape == (n, m) and M.any(axis=1).all(), "mut_exp: at least once")
    for row in M:
        t.require(int((row != np.roll(row, 1)).sum()) in (0, 2), "mut_exp: not one cyclic block")
    M = mut_exp(n, m, 0.0, at_least_once=False, random_state=np.random.default_rng(case["s"]))
    t.require(not M.any(), "mut_exp with probability zero")


@P.check(st.fixed_dictionaries(dict(k=st.integers(1, 3), o=st.integers(1, 5), n=st.integers(1, 5), m=st.integers(1, 4), s=gen.SEED)), quick=100, thorough=1500)
def none(case, t):
    """no crossover: offspring are copies of parents of their mating"""
    k, o, n, m = case["k"], case["o"], case["n"], case["m"]
    r = gen.rng(case["s"])
    A = r.random((n, k, m))
    # one offspring per parent unless asked for otherwise
    op = NoCrossover(n_parents=k, n_offsprings=o) if o != k else NoCrossover(n_parents=k)
    t.nontrivial(k > 1 and n > 1)
    mat = [[Individual(X=A[i, j].copy(), F=np.array([1.0])) for j in range(k)] for i in range(n)]
    out = op(Problem(n_var=m, n_obj=1), mat, random_state=np.random.default_rng(case["s"]))
    t.require(len(out) == n * o, f"{len(out)} offspring instead of {n * o}")
    ids = {id(e) for mm in mat for e in mm}
    t.require(not any(id(e) in ids for e in out), "an offspring is one of the parents")
    for i in range(n):
        ys = [e.X for e in out[i * o:(i + 1) * o]]
        cnt = [sum(np.array_equal(y, A[i, j]) for y in ys) for j in range(k)]
        t.require(sum(cnt) == o, "an offspring equals no parent of its mating")
        if o <= k:
            t.require(max(cnt) <= 1, "a parent occurs twice")
        else:
            t.require(min(cnt) >= 1, "a parent does not occur")
    for e in out:
        e.X += 1
    t.require(all(np.array_equal(mat[i][j].X, A[i, j]) for i in range(n) for j in range(k)), "changing an offspring changes its parent")


class Own(Crossover):
    """a crossover of the user: every offspring is marked as such"""

    def __init__(self, k, o, **kwargs):
        super().__init__(k, o, **kwargs)

    def _do(self, problem, X, random_state=None, **kwargs):
        return np.array([X[c % self.n_parents] + 1000.0 * (c + 1) for c in range(self.n_offsprings)])


@P.check(st.fixed_dictionaries(dict(k=st.integers(1, 4), o=st.integers(1, 7), n=st.integers(1, 8), m=st.integers(1, 4), prob=st.sampled_from([0.0, 0.4, 0.7, 1.0]), s=gen.SEED, form=st.sampled_from(["lists", "index"]))), quick=300, thorough=5000, shards=(2, 8))
def framework(case, t):
    """a crossover of any numbers of parents and offspring: offspring of its own, or copies of all parents (as many as there are offspring) of that mating"""
    k, o, n, m = case["k"], case["o"], case["n"], case["m"]
    r = gen.rng(case["s"])
    A = r.permutation(n * k * m).reshape(n, k, m).astype(float)
    op = Own(k, o, prob=case["prob"])
    t.nontrivial(0 < case["prob"] < 1 and n > 1 and k > 1)
    out, flat = call(op, Problem(n_var=m, n_obj=1, xl=0.0, xu=1e5), A, case["form"], r, case["s"])
    Y = common(t, "own", op, out, flat, A)
    hit = 0
    for i in range(n):
        if Y[0, i, 0] >= 1000:
            hit += 1
            t.require(all(np.array_equal(Y[c, i], A[i, c % k] + 1000.0 * (c + 1)) for c in range(o)), "offspring of another mating")
        else:
            src = [[j for j in range(k) if np.array_equal(A[i, j], Y[c, i])] for c in range(o)]
            t.require(all(src), f"an offspring of a mating without crossover is none of its parents: {Y[:, i]} of {A[i]}")
            cnt = np.bincount([j[0] for j in src], minlength=k)
            t.require(cnt.max() - cnt.min() <= 1, f"{o} copies of {k} parents: how often each was taken {cnt}")
            if o == k:
                t.require([j[0] for j in src] == list(range(k)), f"the parents are returned in another order: {src}")
    if case["prob"] in (0.0, 1.0):
        t.require(hit == n * case["prob"], f"{hit} of {n} crossovers with probability {case['prob']}")


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 8), m=st.integers(1, 5), lo=st.integers(-5, 5), w=st.integers(1, 9), s=gen.SEED)), quick=100, thorough=2000)
def integers(case, t):
    """real crossover on integers (vtype and rounding repair): integers in bounds, parents untouched"""
    n, m, lo, hi = case["n"], case["m"], case["lo"], case["lo"] + case["w"]
    r = gen.rng(case["s"])
    A = r.integers(lo, hi + 1, (n, 2, m))
    t.nontrivial(n > 1 and m > 1)
    mat = [[Individual(X=A[i, j].copy()) for j in range(2)] for i in range(n)]
    prob = Problem(n_var=m, n_obj=1, xl=lo, xu=hi, vtype=int)
    Y = SBX(vtype=float, repair=RoundingRepair(), eta=3, prob=1.0, prob_var=1.0)(prob, mat, random_state=np.random.default_rng(case["s"])).get("X")
    t.require(np.issubdtype(Y.dtype, np.integer) and Y.min() >= lo and Y.max() <= hi, f"offspring {Y.tolist()} of type {Y.dtype} for integers in {lo}..{hi}")
    t.require(all(np.array_equal(mat[i][j].X, A[i, j]) for i in range(n) for j in range(2)), "parents modified")
    Z = SBX(prob=1.0, prob_var=1.0, eta=3)(prob, mat, random_state=np.random.default_rng(case["s"]), to_numpy=True)
    t.require(isinstance(Z, np.ndarray) and Z.shape == (2 * n, m), "to_numpy")
