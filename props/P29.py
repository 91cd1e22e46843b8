"""P29: reference directions lie on the unit simplex, in the number and structure asked for."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from pymoo.util.ref_dirs import get_reference_directions
from pymoo.util.ref_dirs import performance as perf
from pymoo.util.ref_dirs.construction import ConstructionBasedReferenceDirectionFactory
from pymoo.util.ref_dirs.das_dennis import DasDennis
from pymoo.util.ref_dirs.energy import RieszEnergyReferenceDirectionFactory, calc_potential_energy, calc_potential_energy_with_grad
from pymoo.util.ref_dirs.genetic_algorithm import ReferenceDirectionGA
from pymoo.util.ref_dirs.misc import matrix_project_onto_sum_equals_one_plane, project_onto_sum_equals_one_plane, project_onto_sum_equals_zero_plane, project_onto_unit_simplex_recursive
from pymoo.util.ref_dirs.reduction import ReductionBasedReferenceDirectionFactory
from pymoo.util.ref_dirs.sample_and_map import RandomSamplingAndMap
from pymoo.util.reference_direction import (MultiLayerReferenceDirectionFactory, UniformReferenceDirectionFactory, default_ref_dirs, get_number_of_uniform_points, get_partition_closest_to_points,
                                            map_onto_unit_simplex, sample_on_unit_simplex, scale_reference_directions, select_points_with_maximum_distance)
from vp import gen
from vp.core import Prop

P = Prop("P29", "at least two dimensions and more than one direction", ["scaling between 0 and 1"])


def compositions(p, m):
    """all vectors of m non-negative integers that sum to p"""
    if m == 1:
        return [(p,)]
    return [(i,) + c for i in range(p + 1) for c in compositions(p - i, m - 1)]


def lexsorted(X):
    rows = [tuple(x) for x in X.tolist()]
    return rows == sorted(rows)


def same_set(t, A, B, what):
    """equal as sets of points, up to rounding"""
    t.require(A.shape == B.shape, lambda: f"{what}: {A.shape} instead of {B.shape}", "number")
    o = lambda X: X[np.lexsort(np.round(X, 6).T[::-1])]
    t.close(o(A), o(B), what, rtol=1e-9, atol=1e-9)


def on_simplex(t, X, n, m, what):
    t.require(X.shape == (n, m), lambda: f"{what}: shape {X.shape} instead of {(n, m)}", "number")
    t.require(np.isfinite(X).all() and (X >= -1e-12).all() and (np.abs(X.sum(axis=1) - 1) < 1e-9).all(), lambda: f"{what}: not on the unit simplex: {X[np.argmax(np.abs(X.sum(axis=1) - 1) - np.minimum(X.min(axis=1), 0))]}", "simplex")


def global_state():
    s = np.random.get_state()
    return s[1].tobytes(), s[2]


@P.check(st.fixed_dictionaries(dict(m=st.integers(1, 6), p=st.integers(0, 7), scaling=st.sampled_from([None, None, 1.0, 0.5, 0.25, 0.0]), by=st.sampled_from(["p", "n"]), off=st.sampled_from([0, 0, 1, -1]), name=st.sampled_from(["das-dennis", "uniform"]),
                                    sort=st.booleans(), batch=st.lists(st.integers(1, 9), min_size=1, max_size=4))), quick=1600, thorough=20000, shards=(4, 8))
def lattice(case, t):
    """Das-Dennis by partitions and by number of points against the enumerated lattice, scaled"""
    m, p = case["m"], case["p"]
    n = math.comb(m + p - 1, p)
    if n > 800:
        return
    t.equal(get_number_of_uniform_points(p, m), n, "number of uniform points")
    t.nontrivial(m > 1 and n > 1)
    s = 1.0 if case["scaling"] is None else case["scaling"]
    want = (np.array(compositions(p, m), dtype=float) / p if p else np.full((1, m), 1 / m)) * s + (1 - s) / m
    if case["by"] == "n":
        ask = n + case["off"]
        if ask < 1:
            return
        k = get_partition_closest_to_points(ask, m)
        count = lambda k: math.comb(m + k - 1, k)
        if m > 1:
            t.require(count(k) <= ask < count(k + 1), lambda: f"{k} partitions for {ask} points", "closest")
        if m > 1 and count(k) != ask or m == 1 and ask != 1:
            try:
                get_reference_directions(case["name"], m, n_points=ask)
            except Exception as e:
                if m > 1:
                    t.require(f"n_points = {count(k)} " in str(e) and f"n_points = {count(k + 1)} " in str(e), lambda: f"wrong advice: {e}", "advice")
                return
            t.fail(f"{ask} points can not be created in {m} dimensions", "count")
        got = get_reference_directions(case["name"], m, n_points=ask, scaling=case["scaling"], lexsort=case["sort"])
        if m > 1:
            want = (np.array(compositions(k, m), dtype=float) / k if k else np.full((1, m), 1 / m)) * s + (1 - s) / m
    else:
        got = get_reference_directions(case["name"], m, n_partitions=p, scaling=case["scaling"], lexsort=case["sort"])
    if m == 1:
        t.equal(got.tolist(), [[1.0]], "one dimension")
        return
    on_simplex(t, got, len(want), m, "uniform")
    same_set(t, got, want, "uniform")
    if case["sort"]:
        t.require(lexsorted(got), "not sorted", "sorted")
    if case["by"] == "p":
        dd = DasDennis(p, m, scaling=case["scaling"])
        t.equal(dd.number_of_points(), n, "number of points")
        if p == 0:
            return
        parts, i = [], 0
        while dd.has_next():
            b = case["batch"][i % len(case["batch"])]
            part = dd.next(n_points=b)
            t.require(len(part) == min(b, n - sum(map(len, parts))), lambda: f"{len(part)} points in a batch of {b}", "batch")
            parts.append(part)
            i += 1
        same_set(t, np.vstack(parts), want, "in batches")
        same_set(t, DasDennis(p, m, scaling=case["scaling"]).next(), want, "all at once")


@P.check(st.fixed_dictionaries(dict(m=st.integers(1, 5), p=st.integers(0, 6), by=st.sampled_from(["p", "n"]), off=st.sampled_from([0, 0, 1, -1]), scaling=st.sampled_from([None, None, 0.5]))), quick=800, thorough=10000, shards=(4, 8))
def incremental(case, t):
    """the boundary of the lattice with k partitions around a center, for each k up to the number of partitions"""
    m, p = case["m"], case["p"]
    if m == 1:
        t.equal(get_reference_directions("incremental", 1, n_partitions=p).tolist(), [[1.0]], "one dimension")
        return
    pts = lambda p: np.array([[(m * a + (p - k)) / (m * p) for a in c] for k in range(p + 1) for c in compositions(k, m) if min(c) == 0]) if p else np.full((1, m), 1 / m)
    t.nontrivial(p > 1)
    if case["by"] == "p":
        got, want = get_reference_directions("incremental", m, n_partitions=p, scaling=case["scaling"]), pts(p)
    else:
        n = len(pts(p)) + case["off"]
        if n < 1:
            return
        q = next(k for k in itertools.count() if len(pts(k)) >= n)
        if len(pts(q)) != n:
            try:
                get_reference_directions("incremental", m, n_points=n)
            except Exception as e:
                t.require(f"n_points = {len(pts(q - 1))} " in str(e) and f"n_points = {len(pts(q))} " in str(e), lambda: f"wrong advice: {e}", "advice")
                return
            t.fail(f"{n} points can not be created in {m} dimensions", "count")
        got, want = get_reference_directions("incremental", m, n_points=n, scaling=case["scaling"]), pts(q)
    s = 1.0 if case["scaling"] is None else case["scaling"]
    on_simplex(t, got, len(want), m, "incremental")
    same_set(t, got, want * s + (1 - s) / m, "incremental")
    t.require(lexsorted(got), "not sorted", "sorted")


def simplex_projection(x):
    """the closest point of the unit simplex by the sorting algorithm"""
    u = np.sort(x)[::-1]
    css = np.cumsum(u) - 1
    k = np.nonzero(u - css / np.arange(1, len(x) + 1) > 0)[0][-1]
    return np.maximum(x - css[k] / (k + 1), 0)


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 8), m=st.integers(1, 7), seed=gen.SEED, how=st.sampled_from(["sum", "kraemer"]), amp=st.sampled_from([0.1, 1.0, 10.0]), kind=st.sampled_from(["unit", "grid", "const"]))), quick=1600, thorough=40000, shards=(4, 8))
def mapping(case, t):
    """maps onto and samples of the simplex, projection onto it"""
    n, m = case["n"], case["m"]
    r = gen.rng(case["seed"])
    X = r.random((n, m)) if case["kind"] == "unit" else (r.integers(0, 4, (n, m)) / 4 if case["kind"] == "grid" else np.full((n, m), 0.5))
    X[:, 0] = np.maximum(X[:, 0], 0.01)
    t.nontrivial(m > 1 and n > 1)
    keep = X.copy()
    Y = map_onto_unit_simplex(X, case["how"])
    on_simplex(t, Y, n, m, case["how"])
    t.require(np.array_equal(X, keep), "the input was modified", "input")
    want = X / X.sum(axis=1, keepdims=True) if case["how"] == "sum" else np.diff(np.column_stack([np.zeros(n), np.sort(X[:, : m - 1], axis=1), np.ones(n)]), axis=1)
    t.close(Y, want, "mapped points", rtol=1e-9, atol=1e-12)
    for kind in ("sum", "kraemer"):
        g = global_state()
        S = sample_on_unit_simplex(n, m, unit_simplex_mapping=kind, seed=case["seed"])
        on_simplex(t, S, n, m, "sample")
        t.require(np.array_equal(S, sample_on_unit_simplex(n, m, unit_simplex_mapping=kind, seed=case["seed"])) and g == global_state(), "sampling depends on more than its seed", "seed")
    if m > 1:
        # projection of points on the plane onto the simplex
        Z = r.normal(0, case["amp"], (n, m))
        Z = Z + (1 - Z.sum(axis=1, keepdims=True)) / m
        if case["kind"] == "grid":
            Z[0] = 0
            Z[0, 0], Z[0, -1] = 2, -1
        got = project_onto_unit_simplex_recursive(Z.copy())
        on_simplex(t, got, n, m, "projection")
        t.close(got, np.array([simplex_projection(z) for z in Z]), "closest point of the simplex", rtol=1e-7, atol=1e-9)
        inside = (Z >= 0).all(axis=1)
        t.require(np.array_equal(got[inside], Z[inside]), "a point of the simplex was moved", "inside")
        # projection onto planes
        W = r.normal(0, case["amp"], (n, m))
        t.close(project_onto_sum_equals_zero_plane(W), W - W.mean(axis=1, keepdims=True), "plane through the origin", rtol=1e-9, atol=1e-9)
        t.close(project_onto_sum_equals_one_plane(W), W - (W.sum(axis=1, keepdims=True) - 1) / m, "plane of the simplex", rtol=1e-9, atol=1e-9)
        t.close(project_onto_sum_equals_one_plane(W[0]), W[0] - (W[0].sum() - 1) / m, "a single point", rtol=1e-9, atol=1e-9)
        t.close(matrix_project_onto_sum_equals_one_plane(W[0]), W[0] - (W[0].sum() - 1) / m, "by the system of equations", rtol=1e-6, atol=1e-6)


@P.check(st.fixed_dictionaries(dict(X=gen.matrix_spec(1, 25, 1, 4, ["unit", "grid", "front", "dup", "const"]), k=st.integers(1, 25), pre=st.integers(0, 5), seed=gen.SEED)), quick=1600, thorough=40000, shards=(4, 8))
def spread(case, t):
    """always the point that is farthest from those selected before"""
    X = gen.mk(case["X"])
    n = len(X)
    r = gen.rng(case["seed"])
    pre = r.permutation(n)[: min(case["pre"], n)].tolist()
    k = max(min(case["k"], n), len(pre))
    t.nontrivial(k > len(pre) + 1 and n > k)
    S = select_points_with_maximum_distance(X, k, selected=list(pre) if pre else None, random_state=np.random.default_rng(case["seed"]))
    S = [int(i) for i in S]
    t.require(len(S) == k and len(set(S)) == k and all(0 <= i < n for i in S) and S[: len(pre)] == pre, lambda: f"selected {S} of {n} after {pre}", "indices")
    D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(axis=2))
    for j in range(max(len(pre), 1), k):
        d = D[:, S[:j]].min(axis=1)
        rest = [i for i in range(n) if i not in S[:j]]
        t.require(d[S[j]] >= d[rest].max() - 1e-9, lambda: f"{S[j]} with a distance of {d[S[j]]} selected, {max(rest, key=lambda i: d[i])} has {d[rest].max()}", "farthest")


@P.check(st.fixed_dictionaries(dict(m=st.integers(1, 5), n=st.integers(1, 40), samples=st.sampled_from([60, 200]), kmeans=st.booleans(), sampling=st.sampled_from(["kraemer", "sum"]), scaling=st.sampled_from([None, 0.5]), seed=st.integers(0, 9), name=st.sampled_from(["reduction", "reduction", "map", "construct", "ga"]))),
         quick=320, thorough=6000, shards=(8, 8))
def reduced(case, t):
    """reduction, mapping, construction and search: as many sorted points on the simplex as asked for, determined by the seed"""
    m, n, name = case["m"], case["n"], case["name"]
    g = global_state()
    if name == "reduction":
        make = lambda s: get_reference_directions("reduction", m, n, n_sample_points=case["samples"], kmeans=case["kmeans"], sampling=case["sampling"], scaling=case["scaling"], seed=s)
    elif name == "map":
        n = n + m
        make = lambda s: RandomSamplingAndMap(m, n, scaling=case["scaling"], seed=s)()
    elif name == "construct":
        n = m + n % 8
        make = lambda s: ConstructionBasedReferenceDirectionFactory(m, n, n_samples=20, gradient_descent=case["kmeans"], scaling=case["scaling"], seed=s)()
    else:
        n = 2 + n % 5
        make = lambda s: ReferenceDirectionGA(m, n, lambda X: -perf.distance_of_closest_point(X), pop_size=6, n_gen=3, scaling=case["scaling"], seed=s)()
    X = make(case["seed"])
    if m == 1:
        t.equal(X.tolist(), [[1.0]], "one dimension")
        return
    t.nontrivial(n > 1)
    on_simplex(t, X, n, m, name)
    t.require(lexsorted(X), "not sorted", "sorted")
    t.require(np.array_equal(X, make(case["seed"])), "the same seed gives other directions", "seed")
    t.require(g == global_state(), "the global random state was used", "global")
    s = 1.0 if case["scaling"] is None else case["scaling"]
    rows = {tuple(np.round((x - (1 - s) / m) / s, 9) + 0.0) for x in X}
    if name == "reduction":
        p = get_partition_closest_to_points(n, m)
        if p > 0:
            edge = [c for c in compositions(p, m) if min(c) == 0]
            missing = [c for c in edge if tuple(np.round(np.array(c) / p, 9) + 0.0) not in rows]
            t.require(not missing, lambda: f"points of the boundary are missing: {missing[:3]}", "edge")
        t.require(len(rows) == n, "duplicates", "distinct")
    elif name in ("map", "construct"):
        t.require(all(tuple(e) in rows for e in np.eye(m).tolist()), "an extreme point is missing", "extreme")
    if name in ("map", "reduction") and n > math.comb(m + get_partition_closest_to_points(n, m) - 1, m - 1) + m:
        t.require(not np.array_equal(X, make(case["seed"] + 1)), "another seed gives the same directions", "seed")


@P.check(st.fixed_dictionaries(dict(m=st.integers(2, 5), n=st.integers(1, 14), seed=gen.SEED, freeze=st.booleans(), iters=st.integers(1, 25), norm=st.booleans(), edges=st.booleans(), ref=st.booleans(), scale=st.sampled_from([0.1, 0.3, 0.6]),
                                    reset=st.sampled_from([2, 30]), scaling=st.sampled_from([None, 0.5]))), quick=160, thorough=4000, shards=(8, 8))
def energy(case, t):
    """Riesz energy and its gradient against finite differences; optimization lowers it"""
    m, n = case["m"], case["n"]
    r = gen.rng(case["seed"])
    X = r.dirichlet(np.ones(m), n)
    if case["edges"]:
        X = np.vstack([np.eye(m), X])
        n += m
    # the energy and its gradient
    d = 2 * m
    if n > 1:
        i, j = np.triu_indices(n, 1)
        D = np.sqrt(((X[i] - X[j]) ** 2).sum(axis=1))
        if D.min() > 1e-3:
            obj, grad = calc_potential_energy_with_grad(X, d)
            want = float(np.log(np.mean(D ** -float(d))))
            t.close(obj, want, "energy", rtol=1e-9)
            t.close(calc_potential_energy(X, d), want, "energy for differentiation", rtol=1e-9)
            w = D ** -float(d) / np.sum(D ** -float(d))
            G = np.zeros_like(X)
            for a, b, q, e in zip(i, j, w, D):
                G[a] -= d * q * (X[a] - X[b]) / e ** 2
                G[b] -= d * q * (X[b] - X[a]) / e ** 2
            t.close(grad, G, "gradient", rtol=1e-7, atol=1e-9 * max(1, np.abs(G).max()))
    kw = dict(n_max_iter=case["iters"], norm_gradients=case["norm"], freeze_edges=case["freeze"], n_until_optimizer_reset=case["reset"], X=X, scaling=case["scaling"], lexsort=False)
    extra = 0
    if case["ref"] and case["edges"] and m > 2:
        extra = 5
        kw["ref_points"] = [dict(coordinates=np.full(m, 1 / m) + 0.1 * (np.eye(m)[0] - 1 / m), n_points=extra, scale=case["scale"])]
    keep = X.copy()
    t.nontrivial(n > 2)
    got = RieszEnergyReferenceDirectionFactory(m, n, **kw)()
    t.require(np.array_equal(X, keep), "the given points were modified", "input")
    s = 1.0 if case["scaling"] is None else case["scaling"]
    if extra:
        t.require(len(got) > 0 and got.shape[1] == m, "shape")
        on_simplex(t, got, len(got), m, "with a reference point")
        t.equal(len(got), n + extra, "directions with a reference point")
        # the region around the point is given by its scale, or by the part of the simplex it covers
        at = kw["ref_points"][0]["coordinates"]
        vol = dict(coordinates=at, n_points=extra, volume=case["scale"] ** (m - 1))
        by = RieszEnergyReferenceDirectionFactory(m, n, **dict(kw, ref_points=[vol], scaling=None))()
        t.require(len(by) == n + extra, "directions by volume", "volume")
        R = by[-extra:]
        low = np.maximum(at - case["scale"] / m, 0) - 1e-6
        t.require((R >= low).all() or (at < case["scale"] / m).any(), lambda: f"directions {R.tolist()} leave the region of volume {vol['volume']} around {at.tolist()}", "region")
        if s == 1.0:
            t.close(by, got, "by scale and by volume", rtol=1e-5, atol=1e-5)
    else:
        on_simplex(t, got, n, m, "energy")
        if case["freeze"]:
            fixed = (X == 0).any(axis=1)
            t.close(got[fixed], X[fixed] * s + (1 - s) / m, "points on the boundary were moved", rtol=1e-9, atol=1e-12)
        if n > 1 and s == 1.0 and case["iters"] > 20 and case["norm"]:
            e0, e1 = calc_potential_energy(X, d), calc_potential_energy(got, d)
            t.require(e1 <= e0 + 0.5, lambda: f"the energy rose from {e0} to {e1}", "energy")
    t.require(np.array_equal(got, RieszEnergyReferenceDirectionFactory(m, n, **kw)()), "the second call differs", "seed")


@P.check(st.fixed_dictionaries(dict(m=st.integers(3, 5), parts=st.lists(st.integers(1, 5), min_size=1, max_size=4), center=st.booleans(), iters=st.integers(1, 60))), quick=160, thorough=3000, shards=(8, 8))
def layerwise(case, t):
    """layer-wise energy: layers of the shapes asked for, energy not raised"""
    m = case["m"]
    parts = sorted(case["parts"], reverse=True) + ([0] if case["center"] else [])
    if len(parts) == 1 and parts[0] == 0:
        return
    t.nontrivial(len(parts) > 1)
    X = get_reference_directions("layer-energy", m, parts, n_max_iter=case["iters"])
    sizes = [math.comb(m, 2) * (p - 1) + m if p > 0 else 1 for p in parts]
    on_simplex(t, X, sum(sizes), m, "layers")
    at, scales = 0, []
    for k, (p, n) in enumerate(zip(parts, sizes)):
        L, at = X[at:at + n], at + n
        if p == 0:
            t.close(L, np.full((1, m), 1 / m), "the center", rtol=1e-9, atol=1e-9)
            continue
        base = np.array([c for c in compositions(p, m) if sum(v > 0 for v in c) <= 2]) / p
        # a scaled copy of the edges: the scale follows from the corner
        s = (L.max() - 1 / m) / (1 - 1 / m)
        t.require(-1e-9 <= s <= 1 + 1e-9, lambda: f"layer {k} is scaled by {s}", "scale")
        scales.append(s)
        same_set(t, L, base * s + (1 - s) / m, "layer")
    if not case["center"]:
        t.close(max(scales), 1.0, "the largest layer does not reach the corners", rtol=1e-9)


@P.check(st.fixed_dictionaries(dict(m=st.integers(2, 4), layers=st.lists(st.tuples(st.integers(0, 4), st.sampled_from([None, 1.0, 0.5]), st.sampled_from(["array", "factory"])), min_size=1, max_size=4), add=st.booleans(), default=st.integers(1, 3))), quick=400, thorough=8000, shards=(4, 8))
def layers(case, t):
    """multi-layer directions: the union of scaled lattices"""
    m = case["m"]
    L = [UniformReferenceDirectionFactory(m, n_partitions=p, scaling=s) for p, s, _ in case["layers"]]
    L = [f() if kind == "array" else f for f, (_, _, kind) in zip(L, case["layers"])]
    t.nontrivial(len(L) > 1)
    if case["add"]:
        f = MultiLayerReferenceDirectionFactory(L[0])
        f.add_layer(*L[1:])
        got = f()
    else:
        got = get_reference_directions("multi-layer", *L)
    want, seen = [], []
    for p, s, _ in case["layers"]:
        s = 1.0 if s is None else s
        B = np.array(sorted(compositions(p, m)), dtype=float) / p if p else np.full((1, m), 1 / m)
        for x in B * s + (1 - s) / m:
            want.append(x)
    # without duplicates (up to rounding), in the order of the layers
    uniq = []
    for x in want:
        if not any(np.abs(x - y).max() < 1e-9 for y in uniq):
            uniq.append(x)
    for x in got:
        t.require(not any(np.array_equal(x, y) for y in seen), "duplicates", "distinct")
        seen.append(x)
    t.require(all(any(np.abs(x - y).max() < 1e-9 for y in got) for x in uniq) and all(any(np.abs(x - y).max() < 1e-9 for y in uniq) for x in got), "not the union of the layers", "union")
    k = case["default"]
    D = default_ref_dirs(k)
    on_simplex(t, D, {1: 1, 2: 100, 3: 91}[k], k, "default")


@P.check(st.fixed_dictionaries(dict(n=st.integers(3, 20), m=st.integers(2, 4), seed=gen.SEED, eye=st.booleans(), p=st.integers(2, 6), batch=st.sampled_from([1, 7, 100]))), quick=400, thorough=8000, shards=(4, 8))
def metrics(case, t):
    """quality measures of sets of directions against definitions"""
    r = gen.rng(case["seed"])
    m = case["m"]
    X = r.dirichlet(np.ones(m), case["n"])
    if case["eye"]:
        X = np.vstack([X, np.eye(m)])
    n = len(X)
    t.nontrivial(True)
    keep = X.copy()
    dist = lambda A, B: np.array([[math.dist(a, b) for b in B] for a in A])
    D = dist(X, X)
    others = [[D[i, j] for j in range(n) if j != i] for i in range(n)]
    t.close(perf.distance_of_closest_point(X), min(map(min, others)), "closest distance", rtol=1e-9, atol=1e-12)
    t.close(perf.average_distance_to_other_points(X), np.mean([D[i, j] for i in range(n) for j in range(i)]), "average distance", rtol=1e-9)
    t.close(perf.potential_energy(X), np.mean([1 / D[i, j] ** 2 for i in range(n) for j in range(i)]), "energy", rtol=1e-6)
    Z = X if case["eye"] else np.vstack([X, np.eye(m)])
    E = [sorted(math.dist(a, b) for j, b in enumerate(Z) if j != i) for i, a in enumerate(Z)]
    t.close(perf.closest_point_variance(X), np.var([min(e[0], 1.0) for e in E]), "variance of the closest distances", rtol=1e-6, atol=1e-12)
    t.close(perf.mean_mean(X), np.mean([np.mean(e[: m - 1]) for e in E]), "mean of the mean distances", rtol=1e-9)
    t.close(perf.geometric_mean_var(X), np.var([np.exp(np.mean(np.log(e[: m - 1]))) for e in E]), "variance of the geometric means", rtol=1e-6, atol=1e-12)
    if case["eye"]:
        k = math.ceil(math.sqrt(m))
        t.close(perf.closest_point_variance_mod(X), np.var([e[k - 1] for e in E]), "variance of the k-th distances", rtol=1e-6, atol=1e-12)
    R = np.array(compositions(case["p"], m)) / case["p"] * 1.5 - 0.5 / m
    t.close(perf.iterative_igd(X, n_partitions=case["p"], batch_size=case["batch"]), np.mean(dist(R, X).min(axis=1)), "inverted generational distance", rtol=1e-9)
    Y = perf.project_onto_one_dim_less(X)
    t.require(Y.shape == (n, m - 1), "shape")
    t.close(dist(Y, Y), D, "the projection keeps distances", rtol=1e-7, atol=1e-9)
    Q = perf.gram_schmidt(r.normal(size=(m - 1, m)))
    t.close(Q @ Q.T, np.eye(m - 1), "not orthonormal", rtol=1e-7, atol=1e-7)
    t.require(np.array_equal(X, keep), "the points were modified")
    for s in (0.0, 0.3, 1.0):
        t.close(scale_reference_directions(X, s), X * s + (1 - s) * np.full(m, 1 / m), "scaled", rtol=1e-9, atol=1e-12)
