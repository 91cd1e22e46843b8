"""P01: non-dominated sorting returns exactly the Pareto ranks."""
import sys

import numpy as np
from hypothesis import strategies as st

from pymoo.functions import load_function
from pymoo.util.dominator import Dominator
from pymoo.util.nds.fast_non_dominated_sort import fast_non_dominated_sort as nds_util
from pymoo.util.nds.non_dominated_sorting import NonDominatedSorting, find_non_dominated, rank_from_fronts
from vp import gen, ref
from vp.core import Prop

P = Prop("P01", "the point set has at least two Pareto ranks, or contains duplicate points, or ties in some objective",
         ["objective values are finite (moocore, which ranks for pymoo, is not defined on infinities with three or more objectives)", "the order of the indices inside one front is not specified"])


def inf_spec(F, case):
    k = case["inf"]
    if k and len(F):
        r = gen.rng(case["s"])
        F = F.copy()
        for _ in range(k):
            F[r.integers(len(F)), r.integers(F.shape[1])] = np.inf if r.random() < 0.7 else -np.inf
    return F


def interesting(F, rank):
    return len(F) > 1 and (rank.max() > 0 or any(len(np.unique(F[:, j])) < len(F) for j in range(F.shape[1])))


def same_fronts(t, got, want, msg):
    got = [list(map(int, f)) for f in got]
    t.require(all(len(f) == len(set(f)) for f in got), f"{msg}: an index occurs twice in a front: {got}")
    t.require([set(f) for f in got] == want, f"{msg}: fronts {[sorted(f) for f in got]} expected {[sorted(f) for f in want]}")


POINTS = st.fixed_dictionaries(dict(F=gen.points(1, 60, 1, 7), inf=st.just(0), s=gen.SEED))
POINTS_BIG = st.fixed_dictionaries(dict(F=gen.matrix_spec(60, 300, 2, 5), inf=st.just(0), s=gen.SEED))


@P.check(st.one_of(POINTS, POINTS, POINTS, POINTS_BIG).flatmap(
    lambda c: st.fixed_dictionaries(dict(c=st.just(c), stop=st.integers(1, 60), nf=st.integers(1, 6),
                                         kind=st.sampled_from(["float", "int", "readonly", "fortran"])))),
    quick=400, thorough=8000)
def sorting(case, t):
    """NonDominatedSorting().do and its stopping options against peeling by definition"""
    F = inf_spec(gen.mk(case["c"]["F"]), case["c"])
    if case["kind"] == "int" and np.all(np.isfinite(F)) and np.all(np.abs(F) < 1e6):
        F = np.round(F * 3).astype(int)
    elif case["kind"] == "fortran":
        F = np.asfortranarray(F)
    elif case["kind"] == "readonly":
        F = F.copy()
        F.flags.writeable = False
    F0 = F.copy()
    rank = ref.ranks(F)
    want = ref.fronts(rank)
    t.nontrivial(interesting(F, rank))
    nds = NonDominatedSorting()
    same_fronts(t, nds.do(F), want, "do(F)")
    fr, rk = nds.do(F, return_rank=True)
    same_fronts(t, fr, want, "do(F, return_rank=True)")
    t.equal(rk, rank, "returned rank")
    nd = nds.do(F, only_non_dominated_front=True)
    same_fronts(t, [nd], want[:1], "only_non_dominated_front")
    k = case["stop"]
    pre = [f for i, f in enumerate(want) if sum(len(g) for g in want[:i]) < k]
    fr, rk = nds.do(F, n_stop_if_ranked=k, return_rank=True)
    same_fronts(t, fr, pre, f"n_stop_if_ranked={k}")
    t.equal(rk, np.where(rank < len(pre), rank, sys.maxsize), "rank of a stopped sorting")
    same_fronts(t, nds.do(F, n_fronts=case["nf"]), want[:case["nf"]], f"n_fronts={case['nf']}")
    got = find_non_dominated(F)
    same_fronts(t, [got], want[:1], "find_non_dominated")
    t.require(np.array_equal(F, F0), "the objective matrix was modified")


@P.check(st.fixed_dictionaries(dict(a=gen.points(0, 25, 1, 4), b=gen.matrix_spec(1, 25, 1, 4), grid=st.booleans())),
         quick=200, thorough=4000)
def against_other_set(case, t):
    """find_non_dominated(F, G): those of F that no point of G dominates"""
    A = gen.mk(case["a"])
    B = gen.mk(case["b"])
    m = A.shape[1] if A.ndim == 2 else B.shape[1]
    A = A.reshape(len(A), m)
    B = np.resize(B, (len(B), m))
    if case["grid"]:
        A, B = np.round(A), np.round(B)
    D = ref.dom_matrix(B, A)
    want = {i for i in range(len(A)) if not D[:, i].any()}
    t.nontrivial(0 < len(want) < len(A))
    same_fronts(t, [find_non_dominated(A, B)], [want], "find_non_dominated(F, G)")


IMPLS = [("fast_non_dominated_sort", m, {}) for m in ("python", "cython")]
IMPLS += [("efficient_non_dominated_sort", m, dict(strategy=s)) for m in ("python", "cython") for s in ("sequential", "binary")]
IMPLS += [("dominance_degree_non_dominated_sort", m, dict(strategy=s)) for m in ("python", "cython") for s in ("efficient", "fast")]
IMPLS += [("tree_based_non_dominated_sort", "python", {}), ("fast_best_order_sort", "cython", {}),
          ("fast_non_dominated_sort", "python", dict(native_biobj_sorting=True))]


@P.check(st.fixed_dictionaries(dict(F=gen.points(1, 40, 1, 6), impl=st.integers(0, len(IMPLS) - 1))),
         quick=700, thorough=15000, shards=(2, 8))
def implementations(case, t):
    """every loadable sorting implementation gives the same ranks"""
    F = gen.mk(case["F"])
    name, mode, kw = IMPLS[case["impl"]]
    rank = ref.ranks(F)
    t.nontrivial(interesting(F, rank), name + "/" + mode + str(sorted(kw.values())))
    F0 = F.copy()
    got = load_function(name, mode)(F, **kw)
    same_fronts(t, got, ref.fronts(rank), f"{name} ({mode}, {kw})")
    t.equal(F, F0, "input modified")


@P.check(st.fixed_dictionaries(dict(F=gen.points(1, 40, 1, 5))), quick=150, thorough=3000)
def non_dominated_functions(case, t):
    """the compiled and the Python find_non_dominated against the definition"""
    F = gen.mk(case["F"])
    want = set(ref.nondominated(F).tolist())
    t.nontrivial(0 < len(want) < len(F))
    for mode in ("python", "cython"):
        same_fronts(t, [load_function("find_non_dominated", mode)(F)], [want], f"find_non_dominated ({mode})")


class Flip(Dominator):
    """dominance after a monotone decreasing transformation of every objective (i.e. maximization)"""

    def calc_domination_matrix(self, F, _F=None):
        return super().calc_domination_matrix(-F, None if _F is None else -_F)


@P.check(st.fixed_dictionaries(dict(F=gen.points(1, 40, 1, 5), stop=st.integers(1, 40))), quick=150, thorough=3000)
def custom_dominator(case, t):
    """sorting under a user-supplied dominance relation"""
    F = gen.mk(case["F"])
    rank = ref.ranks(-F)
    want = ref.fronts(rank)
    t.nontrivial(rank.max() > 0)
    nds = NonDominatedSorting(dominator=Flip())
    same_fronts(t, nds.do(F), want, "custom dominator")
    same_fronts(t, [nds.do(F, only_non_dominated_front=True)], want[:1], "custom dominator, first front")
    k = case["stop"]
    pre = [f for i, f in enumerate(want) if sum(len(g) for g in want[:i]) < k]
    same_fronts(t, nds.do(F, n_stop_if_ranked=k), pre, "custom dominator, n_stop_if_ranked")
    same_fronts(t, nds_util(F), ref.fronts(ref.ranks(F)), "fast_non_dominated_sort")
    same_fronts(t, nds_util(F, dominator=Flip()), want, "fast_non_dominated_sort, custom dominator")
    t.equal(rank_from_fronts([np.array(sorted(f)) for f in want], len(F)), rank, "rank_from_fronts")


@P.check(st.fixed_dictionaries(dict(F=gen.points(2, 40, 1, 5), s=gen.SEED, d=st.integers(0, 39))), quick=150, thorough=3000)
def metamorphic(case, t):
    """permuting points, permuting objectives, positive scaling by powers of two and duplicating a point"""
    F = gen.mk(case["F"])
    r = gen.rng(case["s"])
    base = NonDominatedSorting().do(F, return_rank=True)[1]
    t.nontrivial(base.max() > 0)
    p = r.permutation(len(F))
    t.equal(NonDominatedSorting().do(F[p], return_rank=True)[1], base[p], "permuted points")
    q = r.permutation(F.shape[1])
    t.equal(NonDominatedSorting().do(F[:, q], return_rank=True)[1], base, "permuted objectives")
    t.equal(NonDominatedSorting().do(F * 2.0 ** r.integers(-5, 6, F.shape[1]), return_rank=True)[1], base, "scaled objectives")
    d = case["d"] % len(F)
    t.equal(NonDominatedSorting().do(np.vstack([F, F[[d]]]), return_rank=True)[1], np.append(base, base[d]), "duplicated point")
