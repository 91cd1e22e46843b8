"""P16: rank-and-crowding survival and its crowding metrics."""
import numpy as np
from hypothesis import strategies as st

from pymoo.algorithms.moo.nsga2 import NSGA2, RankAndCrowdingSurvival, binary_tournament
from pymoo.core.population import Population
from pymoo.core.problem import Problem
from pymoo.operators.survival.rank_and_crowding import ConstrRankAndCrowding, RankAndCrowding
from pymoo.operators.survival.rank_and_crowding.metrics import calc_2nn_fast, calc_crowding_distance, calc_crowding_entropy, calc_mnn_fast, get_crowding_function
from vp import crowd, gen, ref
from vp.core import Prop

P = Prop("P16", "at least four points, and not all of them survive", ["objective values are finite"])
MODES = ["grid", "unit", "front", "layered", "dup", "const", "chain", "neg", "normal"]


# ------------------------------------------------------------------ metrics

def cd_options(F, entropy=False):
    """per point: the values crowding distance can take over all orders of equal objective values (list of sets)"""
    n, m = F.shape
    out = [{0.0} for _ in range(n)]
    for j in range(m):
        v = F[:, j]
        w = v.max() - v.min()
        u = np.unique(v)
        for i in range(n):
            if w == 0:
                opt = {0.0}
            else:
                k = int(np.where(u == v[i])[0][0])
                lo = np.inf if k == 0 else v[i] - u[k - 1]
                hi = np.inf if k == len(u) - 1 else u[k + 1] - v[i]
                if (v == v[i]).sum() == 1:
                    gaps = [(lo, hi)]
                else:
                    gaps = [(lo, 0.0), (0.0, hi), (0.0, 0.0)]
                opt = set()
                for a, b in gaps:
                    if np.isinf(a) or np.isinf(b):
                        opt.add(np.inf)
                    elif entropy:
                        s = a + b
                        e = 0.0 if a == 0 or b == 0 else -(a / s * np.log2(a / s) + b / s * np.log2(b / s))
                        opt.add(s * e / w)
                    else:
                        opt.add((a + b) / w / m)
            out[i] = {x + y for x in out[i] for y in opt}
    return out


def among(x, options):
    return any((np.isinf(o) and np.isinf(x) and x > 0) or (not np.isinf(o) and abs(x - o) <= 1e-9 * (1 + abs(o))) for o in options)


@P.check(st.fixed_dictionaries(dict(F=st.one_of(gen.matrix_spec(3, 25, 1, 4, MODES), gen.small_ints(1, 8, 1, 3)), kind=st.sampled_from(["cd", "ce"]))), quick=800, thorough=12000, shards=(2, 8))
def metric(case, t):
    """every crowding metric against its definition, for one of the ways of breaking ties"""
    F = gen.mk(case["F"])
    n, m = F.shape
    t.nontrivial(n > 3 and m > 1, case["kind"])
    G = F.copy()
    d = np.asarray((calc_crowding_distance if case["kind"] == "cd" else calc_crowding_entropy)(G))
    t.equal(G, F, "the metric changed its input")
    t.require(d.shape == (n,), f"shape {d.shape}")
    opts = cd_options(F, case["kind"] == "ce")
    for i in range(n):
        t.require(among(d[i], opts[i]), lambda: f"{case['kind']} of point {i} is {d[i]}, possible {sorted(opts[i])[:4]}: {F.tolist()}")
    for j in range(m):
        if F[:, j].max() > F[:, j].min():
            for e in (F[:, j].min(), F[:, j].max()):
                t.require(np.isinf(d[F[:, j] == e]).any(), f"no extreme point of objective {j} has infinite distance")
    if n > 2:
        # affine changes of the objectives and their order do not matter
        a = 2.0 ** np.arange(m)
        d2 = np.asarray((calc_crowding_distance if case["kind"] == "cd" else calc_crowding_entropy)(F[:, ::-1] * a))
        t.close(d2, d, "not invariant to scale and order of the objectives", rtol=1e-7, atol=1e-9)


@P.check(st.fixed_dictionaries(dict(F=st.one_of(gen.matrix_spec(3, 20, 2, 4, MODES), gen.small_ints(1, 8, 2, 3)), kind=st.sampled_from(["cd", "pcd", "pruning-cd", "ce", "mnn", "2nn", "fun"]), k=st.integers(0, 12))), quick=400, thorough=8000, shards=(2, 8))
def function(case, t):
    """the metric as the survival uses it: duplicates of a point get zero, two points or less are all extreme"""
    F = gen.mk(case["F"])
    n, m = F.shape
    k = min(case["k"], n)
    seen = []

    def own(G, n_remove=0, **kw):
        seen.append((G.copy(), int(n_remove)))
        return np.arange(len(G)) + 5.0

    kind = case["kind"]
    G = F.copy()
    d = np.asarray(get_crowding_function(own if kind == "fun" else kind).do(G, n_remove=k))
    t.equal(G, F, "the metric changed its input")
    t.nontrivial(n > 3, kind)
    t.require(d.shape == (n,) and not np.isnan(d).any(), f"{kind}: {d.tolist()}")
    if n <= 2 or (kind in ("mnn", "2nn") and n <= m):
        t.require(np.isinf(d).all(), f"{kind} of {n} points: {d.tolist()}")
        return
    if kind == "cd":
        opts = cd_options(F)
        t.require(all(among(d[i], opts[i]) for i in range(n)), f"cd: {d.tolist()}")
        return
    keep = np.array([not any(np.array_equal(F[i], F[j]) for j in range(i)) for i in range(n)])
    t.require(np.all(d[~keep] == 0), f"{kind}: a repeated point has {d[~keep].tolist()}")
    U, e = F[keep], d[keep]
    if kind == "fun":
        t.require(len(seen) == 1 and np.array_equal(seen[0][0], U) and seen[0][1] == k, "the user's metric is not called with the distinct points and the number to remove")
        t.equal(e, np.arange(len(U)) + 5.0, "the user's metric is not used")
    elif kind == "ce":
        opts = cd_options(U, True)
        t.require(all(among(e[i], opts[i]) for i in range(len(U))), f"ce: {e.tolist()}")
    else:
        if kind in ("mnn", "2nn") and len(U) > max(m, 2):
            Z = crowd.normalized(U)[0]
            near = crowd.nn_of(Z, range(len(U)), 2 if kind == "2nn" else m)
            fast = np.asarray((calc_mnn_fast if kind == "mnn" else calc_2nn_fast)(U.copy()))
            inner = ~np.isinf(fast)
            t.require((~inner).sum() <= 2 * m and np.allclose(fast[inner], [near[i] for i in np.flatnonzero(inner)], rtol=1e-7, atol=1e-11), lambda: f"fast {kind}: {fast.tolist()} instead of {near}", "fast")
        want = crowd.outcomes(U, "pcd" if kind == "pruning-cd" else kind, k)
        if want is not None:
            t.require(any(np.array_equal(np.isinf(e), np.isinf(w)) and np.allclose(e[~np.isinf(e)], w[~np.isinf(w)], rtol=1e-7, atol=1e-11) for w in want), lambda: f"{kind}, {k} to remove: {e.tolist()} expected {[w.tolist() for w in want[:3]]}")


# ------------------------------------------------------------------ survival

@st.composite
def surv_case(draw):
    return dict(F=draw(st.one_of(gen.matrix_spec(2, 30, 2, 3, MODES), gen.small_ints(1, 10, 2, 3))), con=draw(st.sampled_from(["none", "all", "some", "few", "tie"])), frac=draw(st.sampled_from([0.0, 0.2, 0.4, 0.6, 0.8, 1.0, 1.5])),
                kind=draw(st.sampled_from(["cd", "cd", "pcd", "ce", "mnn", "2nn", "fun"])), gde=draw(st.booleans()), s=draw(gen.SEED))


def population(F, con, r):
    n = len(F)
    if con == "none":
        G, H = np.zeros((n, 0)), np.zeros((n, 0))
    else:
        G = np.round(r.normal(size=(n, 2)), 2) if con != "tie" else r.integers(-1, 3, (n, 2)).astype(float)
        H = np.where(r.random((n, 1)) < 0.5, 0.0, np.round(r.normal(size=(n, 1)), 1))
        if con == "some":
            b = r.random(n) < 0.7
        elif con == "few":
            b = r.random(n) < 0.15
        elif con == "tie":
            b = r.random(n) < 0.4
        else:
            b = np.zeros(n, dtype=bool)
            G[:, 0] = np.abs(G[:, 0]) + 0.01
        G[b], H[b] = -1.0, 0.0
    pop = Population.new("X", np.arange(n, dtype=float)[:, None], "F", F.copy(), "G", G, "H", H)
    eps = 1e-4
    cv = np.maximum(G, 0).sum(axis=1) + np.where(np.abs(H) > eps, np.abs(H) - eps, 0).sum(axis=1) if con != "none" else np.zeros(n)
    return pop, cv, G, H


def own_metric(F, n_remove=0, **kw):
    return -F.sum(axis=1)


@P.check(surv_case(), quick=600, thorough=15000, shards=(2, 8))
def survival(case, t):
    """the survivors are one of the sets the definition admits; rank and crowding are stored"""
    F = gen.mk(case["F"])
    n, m = F.shape
    r = gen.rng(case["s"])
    pop, cv, G, H = population(F, case["con"], r)
    k = max(1, int(round(case["frac"] * n)))
    prob = Problem(n_var=1, n_obj=m, n_ieq_constr=0 if case["con"] == "none" else 2, n_eq_constr=0 if case["con"] == "none" else 1, xl=0, xu=n)
    kind = own_metric if case["kind"] == "fun" else case["kind"]
    cls = ConstrRankAndCrowding if case["gde"] else RankAndCrowding
    feas = np.where(cv <= 0)[0]
    infeas = np.where(cv > 0)[0]
    t.nontrivial(n > 3 and k < n, f"{case['con']}-{case['kind']}{'-gde' if case['gde'] else ''}")
    before = list(pop)
    S = cls(crowding_func=kind).do(prob, pop, n_survive=k, random_state=np.random.default_rng(case["s"]))
    where = {id(p): i for i, p in enumerate(before)}
    t.require(isinstance(S, Population) and len(S) == min(k, n), f"{len(S)} survivors, expected {min(k, n)}")
    idx = [where.get(id(p), -1) for p in S]
    t.require(-1 not in idx and len(set(idx)) == len(idx), "survivors are not distinct members of the population")
    t.require(len(pop) == n and all(a is b for a, b in zip(pop, before)), "the population was changed")
    t.require(all(np.array_equal(p.F, F[i]) and p.X[0] == i and np.array_equal(p.G, G[i]) for i, p in enumerate(pop)), "an individual was changed")
    surv = set(idx)
    if len(feas) >= k:
        t.require(surv <= set(feas.tolist()), "an infeasible individual survives although enough are feasible")
    else:
        t.require(set(feas.tolist()) <= surv, "a feasible individual dies although an infeasible one survives")
        si, di = [i for i in infeas if i in surv], [i for i in infeas if i not in surv]
        if case["gde"]:
            C = np.column_stack([np.maximum(G, 0), np.abs(H)])[infeas]
            rk = ref.ranks(C)
            pos = {i: a for a, i in enumerate(infeas.tolist())}
            for i in si:
                for j in di:
                    t.require((rk[pos[i]], cv[i]) <= (rk[pos[j]], cv[j] + 1e-9), "GDE3: an infeasible individual that is worse by rank of violations, then violation, survives")
        elif si and di:
            t.require(max(cv[si]) <= min(cv[di]) + 1e-9, "a more infeasible individual survives")
    # the feasible ones: front by front, the last one by crowding
    kf = min(k, len(feas))
    if kf == 0:
        return
    rk = ref.ranks(F[feas])
    rank = {i: int(a) for i, a in zip(feas.tolist(), rk)}
    full = 0
    for f in range(rk.max() + 1):
        members = [i for i in feas.tolist() if rank[i] == f]
        inside = [i for i in members if i in surv]
        if full >= kf:
            t.require(not inside, f"a member of front {f} survives although earlier fronts are enough")
            continue
        for i in members:
            t.require(pop[i].get("rank") == f, f"rank {pop[i].get('rank')} of an individual in front {f}")
        c = np.array([pop[i].get("crowding") for i in members], dtype=float)
        n_remove = max(0, full + len(members) - kf)
        U = F[members]
        t.require(len(inside) == len(members) - n_remove, f"front {f}: {len(inside)} of {len(members)} survive")
        if n_remove:
            a = [x for x, i in zip(c, members) if i in surv]
            b = [x for x, i in zip(c, members) if i not in surv]
            if a:
                t.require(min(a) >= max(b), f"front {f}: a survivor has crowding {min(a)}, a removed individual {max(b)}")
        # and the crowding is the metric of this front
        if len(members) <= 2 or (case["kind"] in ("mnn", "2nn") and len(members) <= m):
            t.require(np.isinf(c).all(), f"front {f}: crowding {c.tolist()}")
        elif case["kind"] == "cd":
            opts = cd_options(U)
            t.require(all(among(x, o) for x, o in zip(c, opts)), f"front {f}: crowding distance {c.tolist()}")
        elif case["kind"] == "fun" and len(np.unique(U, axis=0)) == len(U):
            t.close(c, -U.sum(axis=1), "the user's metric is not the crowding")
        full += len(members) - n_remove
    again = cls(crowding_func=kind).do(prob, population(F, case["con"], gen.rng(case["s"]))[0], n_survive=k, random_state=np.random.default_rng(case["s"]))
    t.require([int(p.X[0]) for p in again] == idx, "same random state, other survivors")


@P.check(st.fixed_dictionaries(dict(F=gen.matrix_spec(3, 15, 2, 3, ["grid", "layered", "front", "dup"]), con=st.sampled_from(["none", "some", "tie", "all"]), kind=st.sampled_from(["comp_by_dom_and_crowding", "comp_by_rank_and_crowding"]), s=gen.SEED)), quick=300, thorough=5000)
def tournament(case, t):
    """NSGA-II's tournament: violation, then dominance (or rank), then crowding"""
    F = gen.mk(case["F"])
    n, m = F.shape
    r = gen.rng(case["s"])
    pop, cv, G, H = population(F, case["con"], r)
    rank, cr = r.integers(0, 3, n), np.where(r.random(n) < 0.2, np.inf, r.integers(0, 4, n).astype(float))
    pop.set("rank", rank, "crowding", cr)

    class A:
        tournament_type = case["kind"]
        random_state = np.random.default_rng(case["s"])

    Q = r.integers(0, n, (30, 2))
    W = np.asarray(binary_tournament(pop, Q, algorithm=A(), random_state=A.random_state))
    t.nontrivial(True)
    t.require(W.shape == (30, 1), f"shape {W.shape}")
    for (a, b), w in zip(Q, W[:, 0]):
        t.require(w in (a, b), "the winner does not take part")
        l = b if w == a else a
        if a == b:
            continue
        if cv[a] > 0 or cv[b] > 0:
            t.require(cv[w] <= cv[l] + 1e-12, f"violation {cv[w]} wins against {cv[l]}")
            continue
        if case["kind"] == "comp_by_dom_and_crowding":
            t.require(not ref.dom(F[l], F[w]), "a dominated individual wins")
            decided = ref.dom(F[w], F[l])
        else:
            t.require(rank[w] <= rank[l], "the worse rank wins")
            decided = rank[w] < rank[l]
        if not decided:
            t.require(cr[w] >= cr[l], f"crowding {cr[w]} wins against {cr[l]}")
