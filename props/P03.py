"""P03: compiled and Python implementations of the numerical kernels compute the same, documented function."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pymoo.functions import get_functions, is_compiled, load_function
from vp import crowd, gen
from vp.core import Prop

P = Prop("P03", "at least three points in at least two dimensions", ["inputs are finite"])
COMPILED = ["fast_non_dominated_sort", "find_non_dominated", "efficient_non_dominated_sort", "fast_best_order_sort", "dominance_degree_non_dominated_sort", "calc_distance_to_weights",
            "calc_perpendicular_distance", "stochastic_ranking", "calc_mnn", "calc_2nn", "calc_pcd"]


def both(t, name, args, msg, **kw):
    """results of the Python and the compiled implementation; the arguments must stay as they are"""
    out = []
    for impl in ("python", "cython"):
        a = [np.array(x) if isinstance(x, np.ndarray) else x for x in args]
        out.append(load_function(name, _type=impl)(*a, **kw))
        for x, y in zip(a, args):
            if isinstance(y, np.ndarray):
                t.equal(x, y, f"{name} ({impl}) changed its input")
    return out


@P.check(st.fixed_dictionaries(dict(F=gen.matrix_spec(1, 20, 1, 6, [m for m in gen.MODES if m != "scales"]), k=st.integers(1, 9), s=gen.SEED, scale=st.sampled_from([1.0, 1e-3, 1e4]))), quick=400, thorough=8000)
def perpendicular(case, t):
    """distances of points to reference lines: both implementations against projection by definition"""
    N = gen.mk(case["F"])
    m = N.shape[1]
    r = gen.rng(case["s"])
    W = (r.random((case["k"], m)) + 1e-2) * case["scale"]
    if m > 1:
        W[0] = 0.0
        W[0, r.integers(m)] = case["scale"]
    t.nontrivial(len(N) > 2 and m > 1)
    want = np.empty((len(N), len(W)))
    for i, p in enumerate(N):
        for j, w in enumerate(W):
            u = w / np.sqrt((w ** 2).sum())
            want[i, j] = np.sqrt(((p - (p @ u) * u) ** 2).sum())
    for D in both(t, "calc_perpendicular_distance", [N, W], "perpendicular"):
        t.close(D, want, "perpendicular distance", rtol=1e-6, atol=1e-7)


@P.check(st.fixed_dictionaries(dict(F=gen.matrix_spec(1, 20, 1, 6, [m for m in gen.MODES if m != "scales"]), u=st.booleans(), s=gen.SEED)), quick=400, thorough=8000)
def weights(case, t):
    """d1: length of the projection onto the weight vector; d2: distance to it"""
    F = gen.mk(case["F"])
    n, m = F.shape
    r = gen.rng(case["s"])
    W = r.random((n, m)) + 1e-2
    u = np.round(r.normal(size=m), 2) if case["u"] else None
    t.nontrivial(n > 2 and m > 1)
    d1, d2 = [], []
    for f, w in zip(F, W):
        e = w / np.sqrt((w ** 2).sum())
        g = f if u is None else f - u
        d1.append(g @ e)
        d2.append(np.sqrt(((g - (g @ e) * e) ** 2).sum()))
    for a, b in both(t, "calc_distance_to_weights", [F, W] + ([u] if u is not None else []), "weights"):
        t.close(a, d1, "distance along the weights", rtol=1e-7, atol=1e-8)
        t.close(b, d2, "distance to the weights", rtol=1e-6, atol=1e-7)


def sr_exact(f, phi, pr):
    """exact distribution of stochastic ranking over permutations"""
    n = len(f)
    dist = {(tuple(range(n)), False): 1.0}  # (order, stopped)
    for _ in range(n):
        cur = {}
        for (o, stop), p in dist.items():
            key = (o, False, stop)
            cur[key] = cur.get(key, 0) + p
        for j in range(n - 1):
            nxt = {}
            for (o, sw, stop), p in cur.items():
                if stop:
                    nxt[(o, sw, stop)] = nxt.get((o, sw, stop), 0) + p
                    continue
                a, b = o[j], o[j + 1]
                feas = phi[a] == 0 and phi[b] == 0
                for q, gt in ((1.0 if feas else pr, f[a] > f[b]), (0.0 if feas else 1 - pr, phi[a] > phi[b])):
                    if q == 0:
                        continue
                    o2 = list(o)
                    if gt:
                        o2[j], o2[j + 1] = b, a
                    key = (tuple(o2), sw or gt, stop)
                    nxt[key] = nxt.get(key, 0) + p * q
            cur = nxt
        dist = {}
        for (o, sw, stop), p in cur.items():
            key = (o, stop or not sw)
            dist[key] = dist.get(key, 0) + p
    out = {}
    for (o, _), p in dist.items():
        out[o] = out.get(o, 0) + p
    return out


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 12), vals=st.integers(1, 6), feas=st.floats(0, 1), pr=st.sampled_from([0.0, 1.0]), sub=st.booleans(), s=gen.SEED)), quick=400, thorough=6000)
def ranking(case, t):
    """stochastic ranking without chance: by objective (pr = 1), or by violation and among feasible ones by objective (pr = 0)"""
    n, r = case["n"], gen.rng(case["s"])
    f = r.integers(0, case["vals"], n).astype(float)
    phi = np.where(r.random(n) < case["feas"], 0.0, r.integers(0, case["vals"], n)).astype(float)
    start = r.permutation(n) if case["sub"] else None
    order = list(start) if start is not None else list(range(n))
    pos = {int(i): k for k, i in enumerate(order)}
    key = (lambda i: (f[i],)) if case["pr"] == 1 else (lambda i: (phi[i], f[i] if phi[i] == 0 else 0.0))
    want = [key(i) for i in sorted(range(n), key=lambda i: key(i) + (pos[i],))]
    t.nontrivial(n > 2)
    for impl in ("python", "cython"):
        a, b = f.copy(), phi.copy()
        I = load_function("stochastic_ranking", _type=impl)(a, b, case["pr"], None if start is None else np.array(start, dtype=np.int64), random_state=np.random.default_rng(case["s"]))
        I = [int(i) for i in I]
        t.require(sorted(I) == list(range(n)), f"stochastic ranking ({impl}) is no permutation: {I}")
        t.require([key(i) for i in I] == want, f"stochastic ranking ({impl}) with pr={case['pr']}: {I} for f={f.tolist()} phi={phi.tolist()}")
        t.require(np.array_equal(a, f) and np.array_equal(b, phi), "stochastic ranking changed its input")


@P.check(st.fixed_dictionaries(dict(f=st.permutations([0, 1, 2]), phi=st.lists(st.integers(0, 2), min_size=3, max_size=3), pr=st.sampled_from([0.2, 0.45, 0.8]), n=st.integers(2, 3), s=gen.SEED)), quick=25, thorough=300)
def chance(case, t):
    """stochastic ranking with chance: the distribution over all orders is that of the published procedure (error probability 1e-12)"""
    n = case["n"]
    f, phi = np.array(case["f"][:n], dtype=float), np.array(case["phi"][:n], dtype=float)
    want = sr_exact(f, phi, case["pr"])
    N = 1200
    t.nontrivial(sum(p > 0.01 for p in want.values()) > 1)
    for impl in ("python", "cython"):
        fun = load_function("stochastic_ranking", _type=impl)
        rs = np.random.default_rng(case["s"])
        cnt = {}
        for _ in range(N):
            o = tuple(int(i) for i in fun(f, phi, case["pr"], random_state=rs))
            cnt[o] = cnt.get(o, 0) + 1
        for o in itertools.permutations(range(n)):
            p, k = want.get(o, 0.0), cnt.get(o, 0)
            # Hoeffding: P(|k/N - p| > 0.11) < 2 exp(-2 N 0.0121) < 1e-12
            t.require(abs(k / N - p) <= 0.11 and (p > 0 or k == 0), f"stochastic ranking ({impl}): order {o} in {k} of {N} runs, expected {p:.3f} (f={f.tolist()} phi={phi.tolist()} pr={case['pr']})")
        a = [int(i) for i in fun(f, phi, case["pr"], random_state=np.random.default_rng(5))]
        t.require(a == [int(i) for i in fun(f, phi, case["pr"], random_state=np.random.default_rng(5))], "same random state, other ranking")


@P.check(st.fixed_dictionaries(dict(F=st.one_of(gen.matrix_spec(5, 24, 2, 4, ["grid", "grid2", "unit", "front", "const", "chain", "layered", "neg"]), gen.small_ints(1, 10, 1, 4)), kind=st.sampled_from(["pcd", "mnn", "2nn"]), rem=st.sampled_from([0.0, 0.2, 0.5, 0.8, 1.0]))), quick=500, thorough=12000, shards=(2, 8))
def crowding(case, t):
    """pruning crowding distance and nearest neighbour metrics: a result of the definition for some way of breaking ties"""
    F = np.unique(gen.mk(case["F"]), axis=0)
    F = F[np.random.default_rng(len(F)).permutation(len(F))]
    n, m = F.shape
    if case["kind"] != "pcd" and m == 1 and n < 4:
        return
    k = int(case["rem"] * n)
    want = crowd.outcomes(F, case["kind"], k)
    t.nontrivial(n > 3 and m > 1 and k > 1, f"{case['kind']}{'-ties' if want is None or len(want) > 1 else ''}")
    for impl in ("python", "cython"):
        G = F.copy()
        d = np.asarray(load_function("calc_" + case["kind"], _type=impl)(G, n_remove=np.intc(k)))
        t.equal(G, F, f"calc_{case['kind']} ({impl}) changed its input")
        t.require(d.shape == (n,) and not np.isnan(d).any(), f"calc_{case['kind']} ({impl}): {d.tolist()}")
        if want is not None:
            ok = any(np.array_equal(np.isinf(d), np.isinf(w)) and np.allclose(d[~np.isinf(d)], w[~np.isinf(w)], rtol=1e-7, atol=1e-11) for w in want)
            t.require(ok, lambda: f"calc_{case['kind']} ({impl}), {k} to remove: {d.tolist()} expected {[w.tolist() for w in want[:3]]} ({len(want)} ways) for {F.tolist()}")


@P.check(st.fixed_dictionaries(dict(F=gen.matrix_spec(10, 60, 4, 9, ["unit", "front", "neg"]), kind=st.sampled_from(["pcd", "mnn", "2nn"]), rem=st.sampled_from([0.1, 0.3, 0.6, 0.9]))), quick=200, thorough=4000, shards=(2, 8))
def many(case, t):
    """the same for many points with many objectives (almost always without ties)"""
    crowding(case, t)


@P.check(st.fixed_dictionaries(dict(i=st.integers(0, 11), bad=st.sampled_from(["nope", "calc_hv", ""]))), quick=30, thorough=60)
def loader(case, t):
    """the function loader returns the implementation asked for, and rejects names and modes it does not know"""
    names = sorted(get_functions())
    name = names[case["i"] % len(names)]
    t.nontrivial(True, name)
    t.require(is_compiled(), "the compiled modules are not available")
    py, auto = load_function(name, _type="python"), load_function(name)
    t.require(callable(py) and callable(auto), f"{name} is not callable")
    if name in COMPILED:
        cy = load_function(name, _type="cython")
        t.require(callable(cy) and cy is auto and cy is not py, f"{name}: not the implementation that was asked for")
    t.raises(lambda: load_function(case["bad"]), f"unknown function {case['bad']!r} is loaded")
    t.raises(lambda: load_function(name, _type="fortran"), "unknown mode is accepted")
