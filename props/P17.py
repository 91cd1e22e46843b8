"""P17: environmental selection of the multi- and single-objective algorithms."""
import numpy as np
from hypothesis import strategies as st
from scipy.sparse import csr_matrix
from scipy.sparse.csgraph import maximum_bipartite_matching

from pymoo.algorithms.moo.age import AGEMOEASurvival
from pymoo.algorithms.moo.age2 import AGEMOEA2Survival
from pymoo.algorithms.moo.cmopso import CrowdingDistanceTournamentSurvival
from pymoo.algorithms.moo.ctaea import CADASurvival
from pymoo.algorithms.moo.moead import MOEAD, ParallelMOEAD
from pymoo.algorithms.moo.nsga3 import HyperplaneNormalization, ReferenceDirectionSurvival, associate_to_niches, comp_by_cv_then_random
from pymoo.algorithms.moo.omni import OmniOptimizerSurvival
from pymoo.algorithms.moo.rnsga2 import RankAndModifiedCrowdingSurvival
from pymoo.algorithms.moo.rnsga3 import AspirationPointSurvival
from pymoo.algorithms.moo.rvea import APDSurvival
from pymoo.algorithms.moo.sms import LeastHypervolumeContributionSurvival, cv_and_dom_tournament
from pymoo.algorithms.moo.spea2 import SPEA2Survival, spea_binary_tournament
from pymoo.algorithms.soo.nonconvex.ga import FitnessSurvival, comp_by_cv_and_fitness
from pymoo.algorithms.soo.nonconvex.ga_niching import EpsilonClearingSurvival, comp_by_cv_and_clearing_fitness
from pymoo.algorithms.soo.nonconvex.sres import StochasticRankingSurvival
from pymoo.core.individual import Individual
from pymoo.core.population import Population
from pymoo.core.problem import Problem
from pymoo.core.replacement import ImprovementReplacement, hierarchical_sort, is_better, parameter_less
from pymoo.decomposition.asf import ASF
from pymoo.decomposition.pbi import PBI
from pymoo.decomposition.tchebicheff import Tchebicheff
from pymoo.decomposition.weighted_sum import WeightedSum
from pymoo.util.clearing import EpsilonClearing, select_by_clearing
from pymoo.util.ref_dirs import get_reference_directions
from vp import gen, hv, ref
from vp.core import Prop
from vp.probs import Poly, VecPoly, poly_spec

P = Prop("P17", "at least four points, and not all of them survive", ["objective values are finite"])
MODES = ["grid", "unit", "front", "layered", "dup", "chain", "normal"]


def dirs(m, k):
    return get_reference_directions("das-dennis", m, n_partitions=k)


SURV = {
    "spea2": lambda m: SPEA2Survival(),
    "spea2n": lambda m: SPEA2Survival(normalize=True),
    "sms": lambda m: LeastHypervolumeContributionSurvival(),
    "nsga3": lambda m: ReferenceDirectionSurvival(dirs(m, 4)),
    "age": lambda m: AGEMOEASurvival(),
    "age2": lambda m: AGEMOEA2Survival(),
    "rvea": lambda m: APDSurvival(dirs(m, 4)),
    "rnsga2": lambda m: RankAndModifiedCrowdingSurvival(np.array([[0.3] * m, [0.6] + [0.1] * (m - 1)]), 0.01, None, "ever", False),
    "rnsga2f": lambda m: RankAndModifiedCrowdingSurvival(np.array([[0.3] * m]), 0.001, None, "no", False),
    "rnsga3": lambda m: AspirationPointSurvival(np.array([[0.3] * m, [0.6] + [0.1] * (m - 1)]), dirs(m, 3), mu=0.1),
    "cmopso": lambda m: CrowdingDistanceTournamentSurvival(),
    "omni": lambda m: OmniOptimizerSurvival(delta=0.0),
}
FRONTS = {"sms", "nsga3", "age", "age2", "rnsga2", "rnsga2f", "rnsga3", "omni"}
# methods for which degenerate fronts (constant or all equal objectives) are out of scope: their normalization is undefined
GENERIC = {"spea2n", "age", "age2", "rnsga2", "rvea", "rnsga3"}


def population(F, con, r):
    n = len(F)
    if con == "none":
        cv, G = np.zeros(n), np.zeros((n, 0))
    else:
        p = dict(some=0.7, few=0.2, all=0.0, tie=0.4)[con]
        cv = np.where(r.random(n) < p, 0.0, r.integers(1, 4, n) if con == "tie" else np.round(r.random(n) * 3 + 0.01, 3))
        G = np.where(cv > 0, cv, -np.round(r.random(n), 2))[:, None]
    pop = Population.new("X", np.column_stack([np.arange(n, dtype=float), r.random(n)]), "F", F.copy(), "G", G)
    return pop, cv, G


def snapshot(pop):
    return [(p, p.X.copy(), p.F.copy(), p.G.copy()) for p in pop]


def unchanged(t, pop, snap):
    t.require(len(pop) == len(snap) and all(p is s[0] for p, s in zip(pop, snap)), "the population given was changed")
    t.require(all(np.array_equal(p.X, x) and np.array_equal(p.F, f) and np.array_equal(p.G, g) for p, x, f, g in snap), "an individual was changed")


@P.check(st.fixed_dictionaries(dict(F=st.one_of(gen.matrix_spec(2, 25, 2, 4, MODES), gen.small_ints(1, 9, 2, 3)), name=st.sampled_from(sorted(SURV)), con=st.sampled_from(["none", "some", "few", "all", "tie"]), frac=st.sampled_from([0.1, 0.3, 0.5, 0.7, 0.9, 1.0]),
                                    rep=st.integers(1, 2), s=gen.SEED)), quick=700, thorough=15000, shards=(4, 8))
def contract(case, t):
    """all survivals: the number asked for, different members, feasible first, earlier fronts before later ones, input untouched"""
    F = gen.mk(case["F"])
    name, con = case["name"], case["con"]
    n, m = F.shape
    r = gen.rng(case["s"])
    if name in GENERIC and (len(np.unique(F, axis=0)) < m + 2 or (F.max(axis=0) - F.min(axis=0)).min() < 1e-6):
        return
    k = max(1, int(round(case["frac"] * n)))
    prob = Problem(n_var=2, n_obj=m, n_ieq_constr=0 if con == "none" else 1, xl=0, xu=n)
    surv = SURV[name](m)
    t.nontrivial(n > 3 and k < n, name)
    for rep in range(case["rep"]):  # some keep a state from one call to the next
        pop, cv, G = population(F, con, r)
        snap = snapshot(pop)
        kw = dict(n_gen=3, n_max_gen=10) if name == "rvea" else {}
        feas = np.where(cv <= 0)[0].tolist()
        if name in GENERIC and len(feas) and (len(np.unique(F[feas], axis=0)) < m + 2 or (F[feas].max(axis=0) - F[feas].min(axis=0)).min() < 1e-6):
            return
        S = surv.do(prob, pop, n_survive=k, random_state=np.random.default_rng(case["s"]), **kw)
        unchanged(t, pop, snap)
        where = {id(p): i for i, p in enumerate(pop)}
        idx = [where.get(id(p), -1) for p in S]
        t.require(isinstance(S, Population) and -1 not in idx and len(set(idx)) == len(idx), f"{name}: survivors are not distinct members of the population")
        surv_set = set(idx)
        infeas = np.where(cv > 0)[0].tolist()
        if name == "rvea":
            sf = [i for i in feas if i in surv_set]
            t.require(len(idx) <= max(k, len(surv.V)) and (len(sf) > 0 or not feas), f"rvea: {len(idx)} survivors")
        else:
            t.require(len(idx) == min(k, n), f"{name}: {len(idx)} survivors instead of {min(k, n)}")
            if len(feas) >= k:
                t.require(surv_set <= set(feas), f"{name}: an infeasible individual survives although enough are feasible")
            else:
                t.require(set(feas) <= surv_set, f"{name}: a feasible individual dies although an infeasible one survives")
        si, di = [i for i in infeas if i in surv_set], [i for i in infeas if i not in surv_set]
        if si and di:
            t.require(cv[si].max() <= cv[di].min() + 1e-12, f"{name}: a more infeasible individual survives")
        kf = min(k, len(feas))
        if kf == 0 or name in ("rvea", "cmopso"):
            continue
        rk = ref.ranks(F[feas])
        rank = dict(zip(feas, rk.tolist()))
        nd = {i for i in feas if rank[i] == 0}
        inside = surv_set & set(feas)
        t.require(nd <= inside if len(nd) <= kf else inside <= nd, f"{name}: a dominated individual survives instead of a non-dominated one")
        if name in FRONTS:
            worst = max(rank[i] for i in inside)
            t.require(all(i in inside for i in feas if rank[i] < worst), f"{name}: an individual of an earlier front dies before one of a later front")
            t.require(all(pop[i].get("rank") == rank[i] for i in inside), f"{name}: rank {[(pop[i].get('rank'), rank[i]) for i in inside]}")
    # same state, same random state: same survivors
    a = SURV[name](m).do(prob, population(F, con, gen.rng(case["s"]))[0], n_survive=k, random_state=np.random.default_rng(case["s"]), **kw)
    b = SURV[name](m).do(prob, population(F, con, gen.rng(case["s"]))[0], n_survive=k, random_state=np.random.default_rng(case["s"]), **kw)
    t.require([p.X[0] for p in a] == [p.X[0] for p in b], f"{name}: same random state, other survivors")


@P.check(st.fixed_dictionaries(dict(F=st.one_of(gen.matrix_spec(4, 16, 2, 4, ["front", "unit", "normal", "layered", "grid", "dup"]), gen.small_ints(2, 9, 2, 3)), frac=st.sampled_from([0.2, 0.4, 0.6, 0.8]))), quick=400, thorough=8000, shards=(2, 8))
def spea2(case, t):
    """strength and raw fitness; truncation removes the one with the smallest sorted distances; fill-up by fitness"""
    F = gen.mk(case["F"])
    n, m = F.shape
    k = max(1, int(round(case["frac"] * n)))
    pop = Population.new("X", np.arange(n, dtype=float)[:, None], "F", F.copy())
    S = SPEA2Survival().do(Problem(n_var=1, n_obj=m), pop, n_survive=k)
    D = ref.dom_matrix(F)
    strength = D.sum(axis=1)
    raw = np.array([strength[D[:, i]].sum() for i in range(n)])
    t.require(np.allclose(pop.get("SPEA_R").astype(float), raw), lambda: f"raw fitness {pop.get('SPEA_R').tolist()}, expected {raw.tolist()}")
    fit = pop.get("SPEA_F").astype(float)
    t.require(np.all((fit - raw > -1e-12) & (fit - raw < 1)), f"fitness {fit.tolist()} of raw fitness {raw.tolist()}")
    near = np.sqrt(((F[:, None] - F[None]) ** 2).sum(axis=2))
    np.fill_diagonal(near, np.inf)
    near = np.sort(near, axis=1)
    kk = int(np.sqrt(n))
    # (the k-th neighbour, counting the point itself or not)
    t.require(any(np.allclose(fit - raw, 1 / (near[:, min(j, n - 1)] + 2), rtol=1e-9, atol=1e-12) for j in (kk - 1, kk)), lambda: f"density {(fit - raw).tolist()}, distances to the {kk}-th neighbour {near[:, kk - 1].tolist()}", "density")
    idx = [int(p.X[0]) for p in S]
    nd = np.where(~D.any(axis=0))[0].tolist()
    if m >= 2 and (F[nd].max(axis=0) > F[nd].min(axis=0)).all():
        # normalized: the extreme non-dominated points win every tournament
        pop2, surv = Population.new("X", np.arange(n, dtype=float)[:, None], "F", F.copy()), SPEA2Survival(normalize=True)
        surv.do(Problem(n_var=1, n_obj=m), pop2, n_survive=n)
        f2 = pop2.get("SPEA_F").astype(float)
        lead = np.where(f2 == -1)[0].tolist()
        t.require(0 < len(lead) <= m and set(lead) <= set(nd), f"leading points {lead} of the non-dominated {nd}", "lead")
        ext = surv.norm.extreme_points
        t.require(all(any(np.linalg.norm(F[i] - e) <= min(np.linalg.norm(F[j] - e) for j in nd) + 1e-9 for i in lead) for e in ext), f"the points leading are {F[lead].tolist()}, the extreme points {ext.tolist()}", "lead")
    dead = [i for i in range(n) if i not in idx]
    t.nontrivial(len(nd) != k)
    if len(nd) <= k:
        rest = [i for i in idx if i not in nd]
        if rest and dead:
            t.require(max(fit[rest]) <= min(fit[dead]) + 1e-12, f"filled up with fitness {fit[rest].tolist()}, left out {fit[dead].tolist()}")
        return
    dist = np.sqrt(((F[:, None] - F[None]) ** 2).sum(axis=2))
    live, ties = list(nd), False
    while len(live) > k:
        keys = {i: sorted(dist[i, j] for j in live if j != i) for i in live}
        best = min(keys.values())
        # distances that are equal up to rounding can be ordered either way
        close = [i for i in live if np.allclose(keys[i], best, rtol=1e-9, atol=1e-12)]
        if len(close) > 1:
            same = [i for i in close if i in idx]
            drop = [i for i in close if i not in idx]
            t.require(drop, lambda: f"truncation keeps all of the closest points {close}")
            ties = True
            return
        k_drop = min(live, key=lambda i: keys[i])
        if k_drop in idx:
            # pairs have the same distance to each other: decide by what differs beyond rounding
            rivals = [i for i in live if i not in idx and np.allclose(keys[i][:1], best[:1], rtol=1e-9, atol=1e-12)]
            t.fail(f"truncation to {k}: point {k_drop} with distances {keys[k_drop][:3]} survives (others with the same nearest distance: {rivals})")
        live.remove(k_drop)
    t.require(sorted(live) == sorted(idx), f"truncation keeps {sorted(idx)}, expected {sorted(live)}")


@P.check(st.fixed_dictionaries(dict(F=st.one_of(gen.matrix_spec(3, 11, 2, 3, ["front", "layered", "grid", "unit"]), gen.small_ints(2, 8, 2, 3)), frac=st.sampled_from([0.2, 0.4, 0.6, 0.8]), eps=st.sampled_from([10.0, 1.0, 0.1]), given=st.sampled_from(["no", "wide", "narrow"]))), quick=400, thorough=6000, shards=(2, 8))
def sms(case, t):
    """the last front loses, one by one, the point with the least hypervolume contribution"""
    F = gen.mk(case["F"])
    n, m = F.shape
    k = max(1, int(round(case["frac"] * n)))
    pop = Population.new("X", np.arange(n, dtype=float)[:, None], "F", F.copy())
    ideal, nadir = F.min(axis=0), F.max(axis=0)
    kw = {}
    if case["given"] == "wide":
        ideal, nadir = ideal - 0.5, nadir + 1.0
        kw = dict(ideal=ideal, nadir=nadir)
    elif case["given"] == "narrow":
        # (of the current population, for instance: some of the points are beyond)
        ideal, nadir = F[:(n + 1) // 2].min(axis=0), F[:(n + 1) // 2].max(axis=0) + 1e-32
        if np.any(nadir - ideal < 1e-3):
            return
        kw = dict(ideal=ideal, nadir=nadir)
    S = LeastHypervolumeContributionSurvival(eps=case["eps"]).do(Problem(n_var=1, n_obj=m), pop, n_survive=k, **kw)
    idx = [int(p.X[0]) for p in S]
    rk = ref.ranks(F)
    for i in idx:
        t.require(pop[i].get("rank") == rk[i], f"rank {pop[i].get('rank')} instead of {rk[i]}")
    full = 0
    for f in range(rk.max() + 1):
        members = np.where(rk == f)[0].tolist()
        if full + len(members) <= k:
            full += len(members)
            continue
        t.nontrivial(len(members) > 2)
        gone, tied = hv.reduce(F, members, k - full, ideal, nadir, case["eps"])
        t.require(not set(gone) & set(idx), lambda: f"points with the least contribution survive: {sorted(set(gone) & set(idx))}")
        if tied:
            t.require(any(i not in idx for i in tied), f"all of the points with the least contribution survive: {tied}")
        else:
            t.require(sorted(set(members) - set(gone)) == sorted(i for i in idx if i in members), f"survivors {sorted(idx)}")
        return


def by_niches(t, F, k, pop, S, opt, W, lo, nadir):
    """survival by reference directions: association, niche preservation in the last front, the optimum"""
    n = len(F)
    rk = ref.ranks(F)
    cnt, last = 0, None
    for f in range(rk.max() + 1):
        cnt += (rk == f).sum()
        if cnt >= k:
            last = f
            break
    known = [i for i in range(n) if rk[i] <= last]
    Z = (F - lo) / np.where(nadir > lo, nadir - lo, 1e-12)
    U = W / np.sqrt((W ** 2).sum(axis=1, keepdims=True))
    D = np.sqrt(np.maximum(((Z[:, None, :] - (Z @ U.T)[:, :, None] * U[None]) ** 2).sum(axis=2), 0))
    niche = pop.get("niche")
    for i in known:
        t.require(pop[i].get("rank") == rk[i], f"rank {pop[i].get('rank')} instead of {rk[i]}")
        t.require(D[i, niche[i]] <= D[i].min() * (1 + 1e-6) + 1e-9, f"individual {i} is associated with direction {niche[i]} at distance {D[i, niche[i]]}, another is at {D[i].min()}")
        t.close(pop[i].get("dist_to_niche"), D[i, niche[i]], "distance to the direction", rtol=1e-5, atol=1e-8)
    idx = [int(p.X[0]) for p in S]
    t.require(len(set(idx)) == k, f"{len(set(idx))} survivors")
    before = [i for i in known if rk[i] < last]
    t.require(set(before) <= set(idx) and set(idx) <= set(known), "an individual of an earlier front dies, or one of a later front survives")
    cand = [i for i in known if rk[i] == last]
    chosen = [i for i in cand if i in idx]
    left = [i for i in cand if i not in idx]
    t.nontrivial(len(left) > 1 and len(chosen) > 1)
    base = np.bincount([niche[i] for i in before], minlength=len(W)) if before else np.zeros(len(W), dtype=int)
    final = base + (np.bincount([niche[i] for i in chosen], minlength=len(W)) if chosen else 0)
    for a in {niche[i] for i in chosen}:
        for b in {niche[i] for i in left}:
            t.require(final[a] - 1 <= final[b], f"niche {a} got its {final[a]}th individual while niche {b} with {final[b]} still had candidates")
        if base[a] == 0:
            d = {i: pop[i].get("dist_to_niche") for i in cand if niche[i] == a}
            t.require(min(d[i] for i in chosen if niche[i] == a) <= min(d.values()) + 1e-12, f"the first of the empty niche {a} is not the closest")
    nd = {i for i in known if rk[i] == 0}
    opt = [int(p.X[0]) for p in opt]
    t.require(len(opt) > 0 and set(opt) <= nd, f"optimum {opt} is not non-dominated")
    closest = {i for i in nd if any(D[i, j] <= D[known, j].min() + 1e-9 for j in set(niche[known].tolist()))}
    must = {i for i in nd if any(D[i, j] < min([D[q, j] for q in known if q != i] + [np.inf]) - 1e-9 for j in set(niche[known].tolist()))}
    if must:
        t.require(must <= set(opt) <= closest, f"optimum {sorted(opt)}: closest to a direction are {sorted(must)}")


@P.check(st.fixed_dictionaries(dict(F=gen.matrix_spec(4, 30, 2, 3, ["front", "layered", "unit", "grid", "dup"]), p=st.integers(2, 5), frac=st.sampled_from([0.2, 0.4, 0.6, 0.8]), rep=st.integers(1, 3), s=gen.SEED)), quick=400, thorough=8000, shards=(2, 8))
def nsga3(case, t):
    """reference directions: association by perpendicular distance, niche preservation in the last front"""
    F0 = gen.mk(case["F"])
    n, m = F0.shape
    W = dirs(m, case["p"])
    surv = ReferenceDirectionSurvival(W)
    r = gen.rng(case["s"])
    rs = np.random.default_rng(case["s"])
    lo, hi = np.full(m, np.inf), np.full(m, -np.inf)
    for rep in range(case["rep"]):
        F = F0 if rep == 0 else F0 * (1 - 0.1 * rep) + r.random((n, m)) * 0.05
        k = max(1, int(round(case["frac"] * n)))
        pop = Population.new("X", np.arange(n, dtype=float)[:, None], "F", F.copy())
        S = surv.do(Problem(n_var=1, n_obj=m), pop, n_survive=k, random_state=rs)
        lo, hi = np.minimum(lo, F.min(axis=0)), np.maximum(hi, F.max(axis=0))
        t.equal(surv.norm.ideal_point, lo, "the ideal point is not the best value seen so far")
        t.equal(surv.norm.worst_point, hi, "the worst point is not the worst value seen so far")
        nadir = surv.norm.nadir_point
        t.require(np.all(nadir >= lo) and np.all(np.isfinite(nadir)) and np.all(nadir <= hi + 1e-9), f"nadir {nadir} outside of ideal {lo} and worst {hi}")
        by_niches(t, F, k, pop, S, surv.opt, W, lo, nadir)


@P.check(st.fixed_dictionaries(dict(F=gen.matrix_spec(4, 24, 2, 3, ["front", "layered", "unit", "grid", "dup"]), p=st.integers(1, 4), n_ref=st.integers(1, 3), where=st.lists(st.sampled_from(["inside", "inside", "corner", "edge", "ideal", "beyond", "worst"]), min_size=3, max_size=3), mu=st.sampled_from([0.02, 0.1, 0.5, 1.0]), frac=st.sampled_from([0.2, 0.4, 0.6, 0.8]), rep=st.integers(1, 3), s=gen.SEED)), quick=400, thorough=8000, shards=(2, 8))
def rnsga3(case, t):
    """R-NSGA-III: the directions lie around the aspiration points seen from the ideal point, the survival niches by them"""
    F0 = gen.mk(case["F"])
    n, m = F0.shape
    W = dirs(m, case["p"])
    r = gen.rng(case["s"])
    low, high = F0.min(axis=0), F0.max(axis=0)
    span = np.where(high > low, high - low, 1.0)
    R = []
    for i in range(case["n_ref"]):
        u = 0.1 + 0.8 * r.random(m)
        w = case["where"][i]
        if w == "corner":
            u = np.eye(m)[int(r.integers(m))]
        elif w == "edge":
            u[int(r.integers(m))] = 0.0
        elif w == "ideal":
            u[:] = 0.0
        elif w == "beyond":
            u = u - 1.0
        elif w == "worst":
            u = u + 0.5
        R.append(low + u * span)
    R = np.array(R)
    surv = AspirationPointSurvival(R.copy(), W.copy(), mu=case["mu"])
    rs = np.random.default_rng(case["s"])
    lo, hi = R.min(axis=0), R.max(axis=0)
    for rep in range(case["rep"]):
        F = F0 if rep == 0 else F0 * (1 - 0.1 * rep) + r.random((n, m)) * 0.05
        k = max(1, int(round(case["frac"] * n)))
        pop = Population.new("X", np.arange(n, dtype=float)[:, None], "F", F.copy())
        S = surv.do(Problem(n_var=1, n_obj=m), pop, n_survive=k, random_state=rs)
        lo, hi = np.minimum(lo, F.min(axis=0)), np.maximum(hi, F.max(axis=0))
        t.equal(surv.ideal_point, lo, "the ideal point is not the best value seen so far, the aspiration points included")
        t.equal(surv.worst_point, hi, "the worst point is not the worst value seen so far, the aspiration points included")
        nadir = surv.nadir_point
        t.require(np.all(nadir >= lo) and np.all(np.isfinite(nadir)) and np.all(nadir <= hi + 1e-9 + 1e-9 * np.abs(hi)), f"nadir {nadir} outside of ideal {lo} and worst {hi}")
        if np.any(nadir <= lo):
            return
        D = []
        for z in (R - lo) / (nadir - lo):
            # where the ray through the point meets the simplex (the point closest to it if it is the ideal point)
            c = z / z.sum() if z.sum() / np.sqrt(m) > 1e-6 else z + (1 - z.sum()) / m
            d = c + case["mu"] * (W - W.mean(axis=0))
            if (d <= 0).any():
                d = np.maximum(d, 0)
                d = d / d.sum(axis=1, keepdims=True)
            D.append(d)
        D = np.concatenate(D + [np.eye(m)])
        t.close(surv.ref_dirs, lo + D * (nadir - lo), f"reference directions around {R.tolist()}, ideal {lo}, nadir {nadir}", rtol=1e-6, atol=1e-8)
        by_niches(t, F, k, pop, S, surv.opt, D, lo, nadir)


@P.check(st.fixed_dictionaries(dict(m=st.integers(2, 5), n=st.integers(0, 12), scale=st.lists(st.sampled_from([0.5, 1.0, 3.0, 100.0]), min_size=5, max_size=5), shift=st.integers(-5, 5), calls=st.integers(1, 3), s=gen.SEED)), quick=300, thorough=5000)
def hyperplane(case, t):
    """normalization: for a linear front with its extreme points the intercepts are recovered exactly, and never lost again"""
    m, r = case["m"], gen.rng(case["s"])
    w = np.array(case["scale"][:m])
    Z = r.dirichlet(np.ones(m), case["n"]).reshape(-1, m)
    Z = np.vstack([Z, np.eye(m)])[r.permutation(case["n"] + m)]
    F = case["shift"] + Z * w
    norm = HyperplaneNormalization(m)
    t.nontrivial(case["n"] > 0)
    norm.update(F)
    t.close(norm.ideal_point, np.full(m, case["shift"]), "ideal point", atol=1e-9)
    t.close(norm.nadir_point, case["shift"] + w, "nadir point of a linear front", rtol=1e-6)
    for _ in range(case["calls"] - 1):
        # points inside of the front: extreme points seen before are kept
        inner = case["shift"] + r.dirichlet(np.ones(m) * 5, 4) * w
        norm.update(inner, nds=np.arange(4))
        t.close(norm.nadir_point, case["shift"] + w, "nadir point after further points of the front", rtol=1e-6)
        t.close(norm.worst_point, case["shift"] + w, "worst point", rtol=1e-9)


@P.check(st.fixed_dictionaries(dict(F=gen.matrix_spec(3, 25, 2, 4, ["front", "layered", "unit", "normal"]), p=st.integers(2, 4), alpha=st.sampled_from([1.0, 2.0]), gen=st.integers(0, 10), rep=st.integers(1, 3), adapt=st.booleans(), s=gen.SEED)), quick=300, thorough=6000, shards=(2, 8))
def rvea(case, t):
    """one survivor per reference vector with members: the one with the smallest angle-penalized distance"""
    F0 = gen.mk(case["F"])
    n, m = F0.shape
    W = dirs(m, case["p"])
    surv = APDSurvival(W, alpha=case["alpha"])
    r = gen.rng(case["s"])
    ideal = np.full(m, np.inf)
    V = W / np.sqrt((W ** 2).sum(axis=1, keepdims=True))
    for rep in range(case["rep"]):
        F = F0 if rep == 0 else F0 + r.normal(size=(n, m)) * 0.1
        pop = Population.new("X", np.arange(n, dtype=float)[:, None], "F", F.copy())
        S = surv.do(Problem(n_var=1, n_obj=m), pop, n_survive=len(W), n_gen=case["gen"], n_max_gen=10)
        ideal = np.minimum(ideal, F.min(axis=0))
        Z = F - ideal
        d = np.maximum(np.sqrt((Z ** 2).sum(axis=1)), 1e-64)
        C = np.clip(V @ V.T, -1, 1)
        np.fill_diagonal(C, -1)
        gamma = np.maximum(np.arccos(C.max(axis=1)), 1e-64)
        cosine = (Z / d[:, None]) @ V.T
        if np.any(cosine > 1):  # rounding beyond the domain of arccos: undefined
            return
        ang = np.arccos(cosine)
        srt = np.sort(ang, axis=1)
        if np.any(srt[:, 1] - srt[:, 0] < 1e-7):  # between two vectors: either is right
            return
        niche = ang.argmin(axis=1)
        want = []
        for k in range(len(V)):
            I = np.where(niche == k)[0]
            if len(I):
                apd = d[I] * (1 + (m if m > 2 else 1) * (case["gen"] / 10) ** case["alpha"] * ang[I, k] / gamma[k])
                o = np.sort(apd)
                if len(o) > 1 and o[1] - o[0] <= 1e-9 * o[0]:
                    return
                want.append(int(I[apd.argmin()]))
        t.nontrivial(len(want) > 1)
        t.require([int(p.X[0]) for p in S] == want, f"survivors {[int(p.X[0]) for p in S]}, expected {want}")
        t.equal(surv.ideal, ideal, "ideal point")
        nadir = F[want].max(axis=0)
        t.equal(surv.nadir, nadir, "nadir point of the survivors")
        if case["adapt"]:
            surv.adapt()
            if np.any(nadir - ideal <= 1e-9):
                return
            A = (W / np.sqrt((W ** 2).sum(axis=1, keepdims=True))) * (nadir - ideal)
            V = A / np.sqrt((A ** 2).sum(axis=1, keepdims=True))
            t.close(surv.V, V, "adapted reference vectors", rtol=1e-7, atol=1e-9)


@P.check(st.fixed_dictionaries(dict(n=st.integers(4, 16), m=st.integers(2, 4), q=st.sampled_from([0.5, 1.0, 1.3, 2.0, 4.0]), name=st.sampled_from(["age", "age2"]), frac=st.sampled_from([0.4, 0.7, 0.9]), shift=st.sampled_from([0.0, -3.0, 10.0]), s=gen.SEED)), quick=300, thorough=5000, shards=(2, 8))
def geometry(case, t):
    """AGE-MOEA: the geometry of the first front is estimated, extreme points come first, then those far from the points chosen and close to the ideal point"""
    n, m, q = case["n"], case["m"], case["q"]
    r = gen.rng(case["s"])
    Z = r.dirichlet(np.ones(m), n) ** (1 / q)
    if case["s"] % 2:
        Z[:m] = np.eye(m)
    w = 1 + np.round(r.random(m) * 5, 2)
    F = np.round(case["shift"] + Z * w, 9)
    if len(ref.nondominated(F)) < n or n < m + 2:
        return
    N = max(m, int(n * case["frac"]))
    surv = (AGEMOEASurvival if case["name"] == "age" else AGEMOEA2Survival)()
    pop = Population.new("X", np.arange(n, dtype=float)[:, None], "F", F.copy())
    S = surv.do(Problem(n_var=1, n_obj=m), pop, n_survive=N)
    got = np.array(pop.get("crowding"), dtype=float)
    z = F.min(axis=0)
    A = np.round(F, 12) - z
    # the corners: closest to each (slightly tilted) axis, no point twice
    ext = []
    for k in range(m):
        a = 1e-6 + np.eye(m)[k]
        d = (A ** 2).sum(axis=1) - (A @ a) ** 2 / (a @ a)
        d[ext] = np.inf
        o = np.sort(d)
        if o[1] - o[0] < 1e-9:
            return
        ext.append(int(d.argmin()))
    top = A.max(axis=0)
    if np.linalg.cond(A[ext]) > 1e6:
        return
    h = np.linalg.solve(A[ext], np.ones(m))
    if np.any(np.abs(h) < 1e-9):
        return
    norm = 1 / h if np.all(h > 0) else top
    B = A / norm
    rest = [i for i in range(n) if i not in ext]
    size = (B ** 2).sum(axis=1)
    d = size - B.sum(axis=1) ** 2 / m if case["name"] == "age" else np.sqrt(size)
    o = np.sort(d[rest])
    if o[1] - o[0] < 1e-9:
        return
    c = rest[int(np.argmin(d[rest]))]
    if case["name"] == "age":
        with np.errstate(all="ignore"):
            p = np.log(m) / np.log(1 / np.mean(B[c]))
        p = 1.0 if np.isnan(p) or p <= 0.1 else min(p, 20.0)
        D = (np.abs(B[:, None] - B[None]) ** p).sum(axis=2) ** (1 / p)
    else:
        p = float(surv.compute_geometry(B.copy(), np.array(ext), m))
        pos = B[c][B[c] > 1e-6]
        if len(pos) == len(B[c]) and 0.2 < p < 15 and (pos < 0.97).all():
            t.require(abs((pos ** p).sum() - 1) < 0.02, f"p = {p} for the central point {B[c].tolist()}: sum of powers {(pos ** p).sum()}", "p")
        elif not (pos < 0.97).all():
            return
        if abs(p - 1) > 0.04 and abs(p - 1) < 0.06:
            return
        U = np.array([x / ((x[x > 0] ** p).sum() ** (1 / p)) if (x > 0).any() else x for x in B])
        if abs(p - 1) < 0.05:
            D = np.sqrt(((U[:, None] - U[None]) ** 2).sum(axis=2))
        else:
            D = np.zeros((n, n))
            for i in range(n):
                for j in range(n):
                    y = (U[i] + U[j]) / 2
                    y = y / ((y[y > 0] ** p).sum() ** (1 / p)) if (y > 0).any() else y
                    D[i, j] = np.sqrt(((U[i] - y) ** 2).sum()) + np.sqrt(((U[j] - y) ** 2).sum())
    length = (np.abs(B) ** p).sum(axis=1) ** (1 / p)
    length[length < 1e-8] = 1
    D = np.maximum(D, 1e-8)

    def scores(D):
        want = np.zeros(n)
        want[ext] = np.inf
        chosen, left = list(ext), list(rest)
        while left:
            v = np.array([np.sort(D[i, chosen])[:2].sum() for i in left])
            o = np.sort(v)[::-1]
            if len(o) > 1 and o[0] - o[1] < 1e-6:
                return None
            k = int(v.argmax())
            want[left[k]] = v[k]
            chosen.append(left.pop(k))
        return want

    want, other = scores(D / length[:, None]), scores(D / length[None])
    if want is None or other is None:
        return
    t.nontrivial(True, case["name"])
    t.require(np.array_equal(np.isinf(got), np.isinf(want)), lambda: f"{case['name']}: extreme points {np.where(np.isinf(got))[0].tolist()}, expected {sorted(ext)}", "extreme")
    o = np.sort(got)[::-1]
    if len(o) > N and o[N - 1] > o[N]:
        t.require({int(e.X[0]) for e in S} == set(np.where(got >= o[N - 1])[0].tolist()), f"{case['name']}: survivors {sorted(int(e.X[0]) for e in S)} with scores {got.tolist()}, {N} survive", "survivors")
    f = np.isfinite(want)
    if np.allclose(got[f], want[f], rtol=1e-5, atol=1e-7):
        return
    # the one known deviation: distances relative to the distance of the points chosen from the ideal point instead of one's own
    sig = "age:relative" if np.allclose(got[f], other[f], rtol=1e-5, atol=1e-7) else "scores"
    t.fail(f"{case['name']}: survival scores {got[f].tolist()}, expected {want[f].tolist()} (p = {p})", sig)


@P.check(st.fixed_dictionaries(dict(F=gen.matrix_spec(4, 20, 2, 3, ["front", "layered", "unit"]), k=st.integers(1, 3), frac=st.sampled_from([0.2, 0.5, 0.8]), norm=st.sampled_from(["no", "ever"]), w=st.booleans(), s=gen.SEED)), quick=300, thorough=5000)
def rnsga2(case, t):
    """the last front keeps those that are ranked best by distance to one of the reference points"""
    F = gen.mk(case["F"])
    n, m = F.shape
    r = gen.rng(case["s"])
    R = r.random((case["k"], m))
    w = r.random(m) + 0.1 if case["w"] else None
    surv = RankAndModifiedCrowdingSurvival(R, 0.0, w, case["norm"], False)
    k = max(1, int(round(case["frac"] * n)))
    pop = Population.new("X", np.arange(n, dtype=float)[:, None], "F", F.copy())
    S = surv.do(Problem(n_var=1, n_obj=m), pop, n_survive=k)
    idx = [int(p.X[0]) for p in S]
    rk = ref.ranks(F)
    ww = np.full(m, 1 / m) if w is None else w
    span = F.max(axis=0) - F.min(axis=0) if case["norm"] == "ever" else np.ones(m)
    if span.min() < 1e-6:
        return
    D = np.sqrt(((((F[:, None] - R[None]) / span) ** 2) * ww).sum(axis=2) * m)
    full = 0
    for f in range(rk.max() + 1):
        M = np.where(rk == f)[0]
        d = D[M]
        if any(np.min(np.diff(np.sort(d[:, j]))) < 1e-9 for j in range(d.shape[1]) if len(M) > 1):
            return
        best = np.argsort(np.argsort(d, axis=0), axis=0).min(axis=1)
        inside = [i for i in M if i in idx]
        if full + len(M) <= k:
            full += len(M)
            t.require(len(inside) == len(M), "an individual of an earlier front dies")
            t.require(all(pop[i].get("crowding") == -b for i, b in zip(M, best)), lambda: f"crowding {[pop[i].get('crowding') for i in M]}, expected {(-best).tolist()}")
            continue
        b = dict(zip(M.tolist(), best.tolist()))
        dead = [i for i in M if i not in idx]
        t.nontrivial(len(M) > 2 and len(inside) > 0)
        if inside:
            t.require(max(b[i] for i in inside) <= min(b[i] for i in dead), f"preference ranks of survivors {[b[i] for i in inside]}, of the others {[b[i] for i in dead]}")
        return


class Tie(Exception):
    pass


def smallest(v, tol=1e-9):
    """position of the smallest value; raises Tie if it is not clearly the smallest"""
    v = np.asarray(v, dtype=float)
    i = int(np.argmin(v))
    rest = np.delete(v, i)
    if len(rest) and rest.min() - v[i] < tol * (1 + abs(v[i])):
        raise Tie
    return i


def associate(F, ideal, W):
    """closest direction and the weighted Chebyshev distance from the ideal point along it"""
    niche, value = [], []
    for f in F - ideal:
        d = [np.linalg.norm(f - (f @ w) / (w @ w) * w) for w in W]
        k = smallest(d)
        niche.append(k)
        value.append((f / np.where(W[k] == 0, 1e-4, W[k])).max())
    return np.array(niche), np.array(value)


def ctaea_truncate(F, ideal, W, n):
    """feasible individuals of the convergence archive (rows of F): from the most crowded niche the worst one goes, or, of two closer to each other, the worse one"""
    rk = ref.ranks(F)
    k = 0
    while (rk <= k).sum() < n:
        k += 1
    alive = [i for i in range(len(F)) if rk[i] <= k]
    niche, value = associate(F, ideal, W)
    D = np.sqrt(((F[:, None] - F[None]) ** 2).sum(axis=-1))
    while len(alive) > n:
        count = {j: [i for i in alive if niche[i] == j] for j in set(niche[alive].tolist())}
        most = max(map(len, count.values()))
        cand = []
        for members in count.values():
            if len(members) < most:
                continue
            w = members[smallest(-value[members])]
            near = min(D[w, j] for j in alive if j != w)
            pairs = [(a, b) for i, a in enumerate(members) for b in members[i + 1:]]
            if pairs:
                d = np.array([D[a, b] for a, b in pairs])
                a, b = pairs[smallest(d)]
                if w not in (a, b):
                    if abs(d.min() - near) < 1e-9 * (1 + near):
                        raise Tie
                    if d.min() < near:
                        w = (a, b)[smallest(-value[[a, b]])]
            cand.append(w)
        alive.remove(cand[smallest(-value[cand])])
    return set(alive)


def ctaea_fill(F, CV, ideal, W, n):
    """infeasible individuals of the convergence archive: non-dominated in violation and distance first, the last of them by violation"""
    _, value = associate(F, ideal, W)
    rk = ref.ranks(np.column_stack([CV, value]))
    out = []
    for k in range(rk.max() + 1):
        front = sorted(np.flatnonzero(rk == k), key=lambda i: CV[i])
        if len(out) + len(front) > n:
            q = n - len(out)
            if q and CV[front[q]] - CV[front[q - 1]] < 1e-12:
                raise Tie
            front = front[:q]
        out.extend(front)
    return set(out)


def ctaea_diversity(F, niche_ca, ideal, W, n):
    """the diversity archive complements the convergence archive: in every round the best non-dominated one of each niche that is short of individuals"""
    niche, value = associate(F, ideal, W)
    out, itr = [], 1
    niche = niche.copy()
    while len(out) < n:
        for i in range(len(W)):
            for _ in range(itr - (niche_ca == i).sum()):
                rest = np.flatnonzero(niche == i)
                if not len(rest) or len(out) == n:
                    break
                nd = [a for a in rest if not any(ref.dom(F[b], F[a]) for b in rest)]
                a = nd[smallest(value[nd])]
                niche[a] = -1
                out.append(a)
        itr += 1
    return out


@P.check(st.fixed_dictionaries(dict(m=st.integers(2, 3), p=st.integers(1, 9), skew=st.sampled_from([1.0, 1.0, 30.0, 0.2]), con=st.sampled_from(["none", "some", "few", "all"]), rounds=st.integers(1, 3), mode=st.sampled_from(["unit", "front", "grid"]), s=gen.SEED)), quick=500, thorough=6000, shards=(4, 8))
def ctaea(case, t):
    """C-TAEA: both archives keep their size; the convergence archive prefers feasible, then non-dominated individuals"""
    m, r = case["m"], gen.rng(case["s"])
    W = dirs(m, case["p"] if m == 2 else (case["p"] + 1) // 2)
    n = len(W)
    surv = CADASurvival(W)
    prob = Problem(n_var=2, n_obj=m, n_ieq_constr=0 if case["con"] == "none" else 1)
    rs = np.random.default_rng(case["s"])

    def fresh():
        F = gen.mk(dict(n=n, m=m, mode=case["mode"], seed=int(r.integers(1 << 20))))
        return population(F * np.array([case["skew"]] + [1.0] * (m - 1)), case["con"], r)[0]

    ca, da = fresh(), Population()
    ideal = np.full(m, np.inf)
    for k in range(case["rounds"] + 1):
        off = ca if k == 0 else fresh()
        pop = ca if k == 0 else Population.merge(ca, off)
        old = list(pop)
        hd = {id(p) for p in list(da) + list(off)}
        before = list(da)
        ca, da = surv.do(prob, pop, da, n_survive=n, random_state=rs)
        ideal = np.minimum(ideal, off.get("F").min(axis=0))
        t.nontrivial(k > 0)
        t.equal(surv.ideal_point, ideal, "ideal point")
        t.require(len(ca) == n and len({id(p) for p in ca}) == n and {id(p) for p in ca} <= {id(p) for p in old}, f"convergence archive of {len(ca)}")
        t.require(len(da) == n and len({id(p) for p in da}) == n and {id(p) for p in da} <= hd, f"diversity archive of {len(da)}, expected {n} different members")
        ok = [i for i, p in enumerate(old) if p.CV[0] <= 0]
        no = [i for i, p in enumerate(old) if p.CV[0] > 0]
        pos = {id(p): i for i, p in enumerate(old)}
        got = {pos[id(p)] for p in ca}
        OF, OC = np.array([p.F for p in old]), np.array([p.CV[0] for p in old])
        try:
            if len(ok) > n:
                want = {ok[i] for i in ctaea_truncate(OF[ok], ideal, W, n)}
                t.require(got == want, lambda: f"of the feasible {OF[ok].tolist()} {OF[sorted(got)].tolist()} survive, expected {OF[sorted(want)].tolist()} (ideal {ideal.tolist()})", "truncate")
            elif len(ok) < n and no:
                want = set(ok) | {no[i] for i in ctaea_fill(OF[no], OC[no], ideal, W, n - len(ok))}
                t.require(got == want, lambda: f"of the infeasible {OF[no].tolist()} with {OC[no].tolist()} {sorted(got - set(ok))} survive, expected {sorted(want - set(ok))}", "fill")
        except Tie:
            pass
        try:
            hl = before + list(off)
            HF = np.array([p.F for p in hl])
            want = ctaea_diversity(HF, associate(np.array([p.F for p in ca]), ideal, W)[0], ideal, W, n)
            t.require({id(p) for p in da} == {id(hl[i]) for i in want}, lambda: f"the diversity archive has {sorted(p.F.tolist() for p in da)}, expected {sorted(HF[want].tolist())}", "diversity")
        except Tie:
            pass
        feas = [p for p in old if p.CV[0] <= 0]
        inside = {id(p) for p in ca}
        if len(feas) <= n:
            t.require(all(id(p) in inside for p in feas), "a feasible individual is not in the convergence archive")
        else:
            t.require(all(p.CV[0] <= 0 for p in ca), "an infeasible individual is in the convergence archive")
            F = np.array([p.F for p in feas])
            rk = ref.ranks(F)
            worst = max(x for x, p in zip(rk, feas) if id(p) in inside)
            cnt = 0
            for f in range(rk.max() + 1):
                cnt += (rk == f).sum()
                if cnt >= n:
                    break
            t.require(worst <= f, f"an individual of front {worst} is in the convergence archive although {cnt} are of front {f} or better")
        if feas:
            G = np.array([p.F for p in feas])
            t.require(len(surv.opt) > 0 and all(id(p) in inside and p.CV[0] <= 0 for p in surv.opt), "the optimum contains infeasible individuals, or none")
            t.require(all(not any(ref.dom(g, p.F) for g in G) for p in surv.opt), "a dominated individual belongs to the optimum")
            best = [p for p in ca if p.CV[0] <= 0 and not any(ref.dom(g, p.F) for g in G)]
            t.require({id(p) for p in best} == {id(p) for p in surv.opt}, "a non-dominated feasible member of the archive is not in the optimum")


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 15), vals=st.integers(1, 6), con=st.sampled_from(["none", "some", "all", "tie"]), frac=st.sampled_from([0.1, 0.4, 0.8, 1.0]), s=gen.SEED)), quick=400, thorough=6000)
def single(case, t):
    """single objective: by violation, then objective value; replacement only by improvement; sorting helpers"""
    n, r = case["n"], gen.rng(case["s"])
    F = r.integers(0, case["vals"], (n, 1)).astype(float)
    k = max(1, int(round(case["frac"] * n)))
    con = case["con"]
    prob = Problem(n_var=2, n_obj=1, n_ieq_constr=0 if con == "none" else 1, xl=0.0, xu=float(n))
    pop, cv, G = population(F, con, r)
    snap = snapshot(pop)
    key = [(cv[i], F[i, 0]) for i in range(n)]
    t.nontrivial(n > 3)
    S = FitnessSurvival().do(prob, pop, n_survive=k)
    unchanged(t, pop, snap)
    t.require([(p.CV[0], p.F[0]) for p in S] == sorted(key)[:k] and len({id(p) for p in S}) == k, f"fitness survival: {[(p.CV[0], p.F[0]) for p in S]} expected {sorted(key)[:k]}")
    rank = pop.get("rank")
    t.require(sorted(rank) == list(range(n)) and all(key[i] <= key[j] for i in range(n) for j in range(n) if rank[i] < rank[j]), f"rank {rank.tolist()}")
    S = StochasticRankingSurvival(0.0).do(prob, pop, n_survive=k, random_state=np.random.default_rng(0))
    want = sorted(key)[:k] if con == "none" else sorted((c, f if c == 0 else 0) for c, f in key)[:k]
    got = [(p.CV[0], p.F[0] if p.CV[0] == 0 else 0) for p in S] if con != "none" else [(p.CV[0], p.F[0]) for p in S]
    t.require(got == want, f"stochastic ranking survival without chance: {got} expected {want}")
    # replacement
    off, cvo, _ = population(r.integers(0, case["vals"], (n, 1)).astype(float), con, r)
    for i in range(n):
        if r.random() < 0.3:
            off[i].X = pop[int(r.integers(n))].X.copy()
    before = list(pop)
    new = ImprovementReplacement().do(prob, pop, off)
    flags = np.asarray(ImprovementReplacement().do(prob, pop, off, return_indices=True))
    for i in range(n):
        a, b = pop[i], off[i]
        dup = any(np.array_equal(b.X, q.X) for q in pop) or any(np.array_equal(b.X, off[j].X) for j in range(i))
        dup_any = dup or any(np.array_equal(b.X, off[j].X) for j in range(n) if j != i)
        better = (b.CV[0] < a.CV[0]) if a.CV[0] > 0 and b.CV[0] > 0 else (a.CV[0] > 0) if b.CV[0] <= 0 and a.CV[0] > 0 else (b.F[0] < a.F[0]) if a.CV[0] <= 0 and b.CV[0] <= 0 else False
        if not dup_any or not better or any(np.array_equal(b.X, q.X) for q in pop):
            t.require(bool(flags[i]) == (better and not dup), f"replacement of {(a.CV[0], a.F[0])} by {(b.CV[0], b.F[0])} duplicate={dup}: {bool(flags[i])}")
        t.require(new[i] is (b if flags[i] else a), "replacement takes another individual than it says")
        t.require(bool(is_better(b, a)) == better, f"is_better({(b.CV[0], b.F[0])}, {(a.CV[0], a.F[0])}) = {is_better(b, a)}")
    t.require(all(p is q for p, q in zip(pop, before)) and len(new) == n, "replacement changed the population given")
    f, c = F[:, 0], cv
    v = parameter_less(f, c)
    t.require(all(v[i] == f[i] if c[i] <= 0 else v[i] >= f.max() for i in range(n)) and all((v[i] <= v[j]) for i in range(n) for j in range(n) if c[i] < c[j]), f"parameter-less penalty {v.tolist()}")
    o = hierarchical_sort(f, c)
    w = [(c[i], f[i] if c[i] <= 0 else 0) for i in o]
    t.require(w == sorted(w), f"hierarchical sort {w}")
    t.equal(f, F[:, 0], "sorting changed the values")


@P.check(st.fixed_dictionaries(dict(n=st.integers(2, 15), eps=st.sampled_from([0.0, 0.05, 0.3, 2.0]), k=st.integers(1, 15), s=gen.SEED)), quick=300, thorough=4000)
def clearing(case, t):
    """epsilon clearing: within one round no two selected are closer than epsilon; the best remaining is always taken"""
    n, k = case["n"], min(case["k"], case["n"])
    r = gen.rng(case["s"])
    X, f = r.random((n, 2)), r.permutation(n).astype(float)
    D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(axis=2))
    order = np.argsort(f).tolist()
    want, cleared = [], set()
    t.nontrivial(k > 2 and case["eps"] > 0)
    while len(want) < k:
        rem = [i for i in order if i not in cleared]
        if not rem:
            cleared = set(want)
            continue
        i = rem[0]
        want.append(i)
        cleared |= {i} | {j for j in range(n) if D[i, j] < case["eps"]}
    pop = Population.new("X", X, "F", f[:, None])
    got = select_by_clearing(pop, D, k, lambda p: p.get("F")[:, 0].argmin(), delta=case["eps"])
    t.require([int(i) for i in got] == want, f"clearing selects {got}, expected {want}")
    c = EpsilonClearing(D, case["eps"])
    c.select(want[0])
    t.require(set(c.remaining().tolist()) == {j for j in range(n) if j != want[0] and not D[want[0], j] < case["eps"]} and c.selected() == [want[0]], "remaining after one selection")
    S = EpsilonClearingSurvival(case["eps"]).do(Problem(n_var=2, n_obj=1, xl=0.0, xu=1.0), pop, n_survive=k)
    t.require(len(S) == k and len({id(p) for p in S}) == k, f"clearing survival of {len(S)}")
    t.require([int(np.where(f == p.F[0])[0][0]) for p in S] == want, f"clearing survival {[p.F[0] for p in S]}, expected {[f[i] for i in want]}")


@P.check(st.fixed_dictionaries(dict(n=st.integers(2, 12), new=st.integers(0, 8), m=st.integers(1, 3), eps=st.sampled_from([0.05, 0.2, 0.5]), top=st.sampled_from([None, None, 1, 2, 3]), dim=st.booleans(), bad=st.sampled_from([0.0, 0.4, 1.0]), gens=st.integers(1, 3), s=gen.SEED)), quick=300, thorough=4000)
def niches(case, t):
    """clearing over generations: round, rank in the round and niche of every survivor are the ones of this generation"""
    r = gen.rng(case["s"])
    n, m, eps, top = case["n"], case["m"], case["eps"], case["top"]
    lo, w = r.integers(-5, 5, m), r.integers(1, 9, m)
    prob = Problem(n_var=m, n_obj=1, n_ieq_constr=1, xl=lo, xu=lo + w)
    survival = EpsilonClearingSurvival(eps, n_max_each_iter=top, norm_by_dim=case["dim"])
    values = iter(r.permutation(200))

    def some(k):
        v = np.array([next(values) for _ in range(k)], dtype=float)
        return Population.new("X", lo + r.random((k, m)) * w, "F", v[:, None], "G", np.where(r.random(k) < case["bad"], v + 1, -1.0)[:, None])

    pop = Population()
    t.nontrivial(case["gens"] > 1 and case["new"] > 1 and n > 4)
    for _ in range(case["gens"]):
        pop = Population.merge(pop, some(n if len(pop) == 0 else case["new"]))
        k = max(1, min(n, len(pop)) - (len(pop) == n))
        X = (pop.get("X") - lo) / w / (m ** 0.5 if case["dim"] else 1.0)
        order = sorted(range(len(pop)), key=lambda i: (pop[i].CV[0], pop[i].F[0]))
        dist = lambda i, j: float(np.sqrt(((X[i] - X[j]) ** 2).sum()))
        if any(abs(dist(i, j) - eps) < 1e-9 for i in range(len(pop)) for j in range(i)):
            return
        want, cleared, it, rank, first = [], set(), 1, 1, {}
        while len(want) < k:
            rem = [i for i in order if i not in cleared]
            if not rem or (top is not None and rank > top):
                cleared, it, rank = {e[0] for e in want}, it + 1, 1
                continue
            i = rem[0]
            if it == 1:
                first[i] = niche = rank
            else:
                niche = first[min(first, key=lambda j: dist(i, j))]
            want.append((i, it, rank, niche))
            cleared |= {i} | {j for j in range(len(pop)) if dist(i, j) < eps}
            rank += 1
        ids = {id(e): i for i, e in enumerate(pop)}
        pop = survival.do(prob, pop, n_survive=k, random_state=np.random.default_rng(1))
        got = [(ids[id(e)], int(e.get("iter")), int(e.get("rank")), int(e.get("niche"))) for e in pop]
        t.require(got == want, lambda: f"survivors with round, rank and niche {got}, expected {want}", "niche")


@P.check(st.fixed_dictionaries(dict(F=gen.matrix_spec(3, 12, 1, 3, ["grid", "front", "layered"]), name=st.sampled_from(["fitness", "nsga3", "spea2", "sms", "niche"]), con=st.sampled_from(["none", "some", "tie", "all"]), s=gen.SEED)), quick=300, thorough=4000)
def tournaments(case, t):
    """binary tournaments: feasibility, then the method's own value; ties are broken by the random state alone"""
    F = gen.mk(case["F"])
    name = case["name"]
    if name in ("fitness", "niche"):
        F = F[:, :1]
    n = len(F)
    r = gen.rng(case["s"])
    pop, cv, _ = population(F, case["con"], r)
    val = r.integers(0, 4, n).astype(float)
    pop.set("SPEA_F", val)
    turn, place = r.integers(1, 4, n), r.integers(1, 5, n)
    for i in range(n):
        pop[i].set("iter", int(turn[i]))
        pop[i].set("rank", int(place[i]))
    fun = dict(niche=comp_by_cv_and_clearing_fitness, fitness=comp_by_cv_and_fitness, nsga3=comp_by_cv_then_random, spea2=spea_binary_tournament, sms=cv_and_dom_tournament)[name]
    Q = r.integers(0, n, (25, 2))
    W = np.asarray(fun(pop, Q, algorithm=None, random_state=np.random.default_rng(case["s"])))
    t.nontrivial(True, name)
    for (a, b), w in zip(Q, W[:, 0]):
        t.require(w in (a, b), "the winner does not take part")
        l = b if w == a else a
        if cv[a] > 0 or cv[b] > 0:
            t.require(cv[w] <= cv[l], f"{name}: violation {cv[w]} wins against {cv[l]}")
        elif name == "fitness":
            t.require(F[w, 0] <= F[l, 0], f"fitness {F[w, 0]} wins against {F[l, 0]}")
        elif name == "niche":
            t.require((turn[w], place[w]) <= (turn[l], place[l]), f"round {turn[w]}, rank {place[w]} wins against round {turn[l]}, rank {place[l]}")
        elif name == "spea2":
            t.require(val[w] <= val[l], "the worse fitness wins")
        elif name == "sms":
            t.require(not ref.dom(F[l], F[w]), "a dominated individual wins")
    for _ in range(2):
        t.equal(np.asarray(fun(pop, Q, algorithm=None, random_state=np.random.default_rng(case["s"]))), W, f"{name}: same random state, other winners")


# ----------------------------------------------------------------------------------------------------------------- MOEA/D

DEC = {"tch": (Tchebicheff, lambda F, w, z: np.abs((F - z) * w).max(axis=1)), "ws": (WeightedSum, lambda F, w, z: (F * w).sum(axis=1)),
       "pbi": (PBI, lambda F, w, z: (lambda d1: d1 + 5.0 * np.linalg.norm(F - z - d1[:, None] * w / np.linalg.norm(w), axis=1))(((F - z) @ w) / np.linalg.norm(w))),
       "asf": (ASF, lambda F, w, z: ((F - z) / np.where(w == 0, 1e-10, w)).max(axis=1))}


@P.check(st.fixed_dictionaries(dict(m=st.integers(2, 3), p=st.integers(2, 5), T=st.integers(2, 8), dec=st.sampled_from(["default"] + sorted(DEC)), par=st.booleans(), gens=st.integers(1, 3), n_off=st.integers(1, 9), k=poly_spec(3), seed=st.integers(0, 1000))),
         quick=300, thorough=5000, shards=(4, 8))
def moead(case, t):
    """an offspring replaces exactly those members of one neighborhood that it improves, each neighborhood having its turn once per iteration"""
    m = case["m"]
    W = dirs(m, case["p"])
    n = len(W)
    T = min(case["T"], n)
    poly = Poly(dict(case["k"], m=m, g=0, h=0))
    problem = VecPoly(poly)
    name = case["dec"] if case["dec"] != "default" else "tch" if m == 2 else "pbi"
    kw = dict(n_neighbors=T, decomposition=None if case["dec"] == "default" else DEC[name][0]())
    if case["par"]:
        alg = ParallelMOEAD(W, n_offsprings=min(case["n_off"], n), **kw)
    else:
        alg = MOEAD(W, **kw)
    g = DEC[name][1]
    D = np.sqrt(((W[:, None] - W[None]) ** 2).sum(axis=2))
    far = np.sort(D, axis=1)[:, T - 1]
    sure, may = D < far[:, None] - 1e-9, D <= far[:, None] + 1e-9
    alg.setup(problem, termination=("n_gen", case["gens"] + 1), seed=case["seed"])
    known, turns, replaced = [], [], 0
    for _ in range((n + 1) * case["gens"] + 1):
        if not alg.has_next():
            break
        off = alg.infill()
        first = alg.n_iter is None or alg.n_iter == 1 and not known
        old, oldF = (list(alg.pop), np.array([e.F for e in alg.pop])) if not first else ([], None)
        alg.evaluator.eval(problem, off)
        news = [off] if isinstance(off, Individual) else list(off)
        for e in news:
            t.equal(e.F, poly.F(e.X), "values of an evaluated solution")
            known.append(np.array(e.F))
        alg.advance(infills=off)
        if first:
            t.require(len(alg.pop) == n and len(news) == n, f"{len(alg.pop)} initial solutions for {n} directions")
            continue
        new = list(alg.pop)
        t.require(len(new) == n, "population size changed")
        z = np.min(known, axis=0)
        newF = np.array([e.F for e in new])
        gain = [j for j in range(n) if new[j] is not old[j]]
        for j in gain:
            t.require(any(new[j] is e for e in news), f"solution of direction {j} was replaced by something other than an offspring")
        scale = 1.0 + np.abs(newF - z).max() + np.abs(oldF - z).max()
        tol = 1e-9 * scale * (1e10 if name == "asf" and (W == 0).any() else 1)
        a, b = np.array([g(oldF[j:j + 1], W[j], z)[0] for j in range(n)]), np.array([g(newF[j:j + 1], W[j], z)[0] for j in range(n)])
        if case["par"]:
            for j in gain:
                t.require(b[j] < a[j] + tol, f"direction {j}: decomposed value {a[j]} was replaced by {b[j]}")
            # every offspring that could not improve a single direction is not part of the population, each replaces in one neighborhood
            for e in news:
                where = np.array([j for j in range(n) if new[j] is e], dtype=int)
                t.require(len(where) <= T and may[:, where].all(axis=1).any(), f"an offspring replaced solutions of directions {where.tolist()} which are not neighbors")
            replaced += len(gain)
            continue
        c = np.array([g(news[0].F[None], W[j], z)[0] for j in range(n)])
        G = np.isin(np.arange(n), gain)
        must, can = c < a - tol, c < a + tol
        t.require((can | ~G).all(), lambda: f"direction {int(np.where(G & ~can)[0][0])}: a better solution was replaced")
        fits = [k for k in range(n) if (may[k] | ~G).all() and not (sure[k] & must & ~G).any() and (must & ~G & may[k]).sum() <= may[k].sum() - T and (G & may[k] & ~sure[k]).sum() <= T - sure[k].sum()]
        t.require(len(fits) > 0, lambda: f"{name}: offspring {news[0].F.tolist()} replaced the solutions {gain} of {oldF.tolist()} (ideal {z.tolist()}), which is not what it improves in any neighborhood", "neighborhood")
        replaced += len(gain)
        turns.append(fits)
        if len(turns) == n:
            M = np.zeros((n, n), dtype=int)
            for i, f in enumerate(turns):
                M[i, f] = 1
            match = maximum_bipartite_matching(csr_matrix(M))
            t.require((match >= 0).all(), lambda: f"{name}: not each of the neighborhoods had its turn once: {turns}", "turns")
            turns = []
    t.nontrivial(replaced > 0, name)
