"""P28: scaling to the unit range and back, and distances, are what they are defined to be."""
import numpy as np
from hypothesis import strategies as st

from pymoo.core.problem import Problem
from pymoo.problems.zero_to_one import ZeroToOne
from pymoo.util import misc
from pymoo.util.normalization import (NoNormalization, PreNormalization, SimpleZeroToOneNormalization, ZeroToOneNormalization, denormalize, destandardize, normalize, standardize)
from vp import gen
from vp.core import Prop

P = Prop("P28", "some bound is missing, shared by both sides or far from zero, or the data has several rows", ["lower bounds are not above upper bounds; data is finite"])

BND = st.lists(st.tuples(st.sampled_from([0.0, -1.0, 0.5, 3.0, -1e6, 1e3]), st.sampled_from([1.0, 0.0, 2.0, 1e-3, 1e6, 0.7]), st.sampled_from(["both", "both", "both", "lower", "upper", "none"])), min_size=1, max_size=6)
DATA = st.fixed_dictionaries(dict(b=BND, shape=st.sampled_from(["1d", "2d", "2d", "3d", "empty"]), seed=gen.SEED, ints=st.booleans(), bint=st.booleans()))


def mk(case, partial=True):
    r = gen.rng(case["seed"])
    b = case["b"]
    lo = np.array([x[0] for x in b])
    hi = lo + np.array([x[1] for x in b])
    kind = [x[2] if partial else "both" for x in b]
    n = len(b)
    shape = {"1d": (n,), "2d": (4, n), "3d": (2, 3, n), "empty": (0, n)}[case["shape"]]
    u = np.round(r.random(shape) * 1.6 - 0.3, 2)
    X = lo + u * np.where(hi > lo, hi - lo, 1.0)
    if case["ints"]:
        X = np.round(X).astype(int)
    xl = np.array([np.nan if k in ("upper", "none") else v for k, v in zip(kind, lo)])
    xu = np.array([np.nan if k in ("lower", "none") else v for k, v in zip(kind, hi)])
    if case["bint"] and all(k == "both" for k in kind):
        xl, xu = np.floor(lo).astype(int), np.ceil(hi).astype(int)
        lo, hi = xl.astype(float), xu.astype(float)
    return X, xl, xu, lo, hi, kind


def forward(X, xl, xu):
    """elementwise, from the definition"""
    out = np.empty(X.shape)
    for i in np.ndindex(X.shape):
        a, b, x = float(xl[i[-1]]), float(xu[i[-1]]), float(X[i])
        if np.isnan(a) and np.isnan(b):
            out[i] = x
        elif np.isnan(b) or a == b:
            out[i] = x - a
        elif np.isnan(a):
            out[i] = 1.0 - (b - x)
        else:
            out[i] = (x - a) / (b - a)
    return out


def note(case, t):
    t.nontrivial(case["shape"] != "empty" and any(k != "both" or w == 0 or abs(v) >= 1e3 for v, w, k in case["b"]))


@P.check(DATA, quick=3200, thorough=60000, shards=(4, 8))
def unit(case, t):
    """every normalization forward and backward, with missing and equal bounds, against the naive formula"""
    note(case, t)
    X, xl, xu, lo, hi, kind = mk(case)
    keep = [X.copy(), xl.copy(), xu.copy()]
    norm = ZeroToOneNormalization(xl, xu)
    N = norm.forward(X)
    tol = 1e-9
    size = np.abs(X).max(initial=1.0) + np.abs(lo).max()
    t.close(N, forward(X, xl, xu), "forward", rtol=tol, atol=tol)
    back = norm.backward(N)
    for a, b in zip((X, xl, xu), keep):
        t.require(np.array_equal(a, b, equal_nan=True), "an input was modified", "modified")
    t.require(norm.forward(X).tobytes() == N.tobytes(), "the second call differs")
    eq = np.array([k == "both" and a == b for k, a, b in zip(kind, xl, xu)])
    free = ~eq
    t.close(back[..., free], X[..., free].astype(float), "backward of forward", rtol=1e-9, atol=1e-9 * (hi - lo).max(initial=1.0) + 1e-12 * size)
    for j in np.where(eq)[0]:
        # a single possible value: whatever is inside maps to it
        M = np.clip(N, 0, 1)
        t.require((norm.backward(M)[..., j] == lo[j]).all() or case["shape"] == "empty", "equal bounds: mapped back to another value", "equal")
    # points of the unit range map into the bounds, the corners exactly
    both = np.array([k == "both" for k in kind])
    n = len(lo)
    Z = norm.backward(np.zeros((1, n)))[0]
    O = norm.backward(np.ones((1, n)))[0]
    t.require((Z[both] == lo[both]).all(), "0 does not map to the lower bound")
    t.close(O[both], hi[both], "1 maps to the upper bound", rtol=1e-12, atol=1e-12)
    t.close(norm.forward(np.where(both, lo, 0.0)[None, :])[0][both], np.zeros(both.sum()), "the lower bound maps to 0", atol=0, rtol=0)
    up = both & (hi > lo)
    t.close(norm.forward(np.where(both, hi, 0.0)[None, :])[0][up], np.ones(up.sum()), "the upper bound maps to 1", rtol=1e-12, atol=0)


@P.check(DATA, quick=2400, thorough=40000, shards=(4, 8))
def functional(case, t):
    """normalize/denormalize/standardize on their own, and estimated bounds"""
    note(case, t)
    if case["shape"] in ("3d", "empty"):
        case = dict(case, shape="2d")
    X, xl, xu, lo, hi, kind = mk(case, partial=False)
    N = normalize(X, xl, xu)
    t.close(N, forward(X, xl, xu), "normalize", rtol=1e-9, atol=1e-9)
    wide = np.asarray(xu > xl)
    t.close(denormalize(N, xl, xu)[..., wide], X[..., wide].astype(float), "denormalize", rtol=1e-9, atol=1e-9 * max(1.0, np.abs(X).max()))
    N2, l2, u2 = normalize(X, xl, xu, return_bounds=True)
    t.require(np.array_equal(N2, N) and np.array_equal(l2, lo) and np.array_equal(u2[wide], hi[wide]), "return_bounds returns other bounds or values")
    # numbers as bounds hold for every column
    t.close(normalize(X, -2, 3.0), forward(X, np.full(X.shape[-1], -2.0), np.full(X.shape[-1], 3.0)), "bounds as numbers", rtol=1e-9, atol=1e-9)
    if X.ndim == 2:
        a, b = X.min(axis=0), X.max(axis=0)
        E, l3, u3 = normalize(X, return_bounds=True)
        t.require(np.array_equal(l3, a), "the estimated lower bound is not the minimum")
        t.close(E, forward(X, a, b), "estimated bounds", rtol=1e-9, atol=1e-9)
        t.require((E >= 0).all() and (E <= 1).all(), "outside of the unit range with estimated bounds")
        L, H = normalize(X, xl=lo, estimate_bounds_if_none=False), normalize(X, xu=hi, estimate_bounds_if_none=False)
        t.close(L, X - lo, "only a lower bound", rtol=1e-9, atol=1e-9)
        t.close(H, 1 - (hi - X), "only an upper bound", rtol=1e-9, atol=1e-9)
        S, m, s = standardize(X[:, b > a], return_bounds=True)
        if (b > a).any():
            Y = X[:, b > a].astype(float)
            t.close(m, np.array([sum(c) / len(c) for c in Y.T]), "mean", rtol=1e-9, atol=1e-9)
            if (s > 1e-9 * np.abs(Y).max(axis=0)).all():
                t.close(S.mean(axis=0), np.zeros(Y.shape[1]), "standardized mean", atol=1e-5, rtol=0)
                t.close(S.std(axis=0), np.ones(Y.shape[1]), "standardized deviation", rtol=1e-5)
                t.close(destandardize(S, m, s), Y, "destandardize", rtol=1e-9, atol=1e-9 * max(1.0, np.abs(Y).max()))
                t.require(np.array_equal(standardize(X[:, b > a]), S), "without bounds the values differ")
        # the simple variant learns its bounds from the first data and keeps them
        simple = SimpleZeroToOneNormalization()
        A = simple.forward(X)
        t.close(A, forward(X, a, b), "simple, estimated", rtol=1e-9, atol=1e-9)
        B = simple.forward(X[:1] + 1)
        ok = b > a
        t.close(B[:, ok], forward(X[:1] + 1, a, b)[:, ok], "simple keeps the estimated bounds", rtol=1e-9, atol=1e-9)
    keep = [lo.copy(), hi.copy()]
    simple = SimpleZeroToOneNormalization(lo, hi)
    S = simple.forward(X)
    t.close(S[..., wide], N[..., wide], "simple", rtol=1e-9, atol=1e-9)
    t.close(simple.backward(S)[..., wide], X[..., wide].astype(float), "simple backward", rtol=1e-9, atol=1e-9 * max(1.0, np.abs(X).max()))
    t.require(np.array_equal(lo, keep[0]) and np.array_equal(hi, keep[1]), "bounds modified")
    no = NoNormalization()
    t.require(no.forward(X) is X and no.backward(X) is X, "no normalization changes something")
    pre = PreNormalization(zero_to_one=True, ideal=lo, nadir=hi)
    t.close(pre.normalization.forward(X), N, "pre-normalization", rtol=1e-9, atol=1e-9)
    t.require(np.array_equal(pre.ideal, np.zeros(len(lo))) and np.array_equal(pre.nadir, np.ones(len(lo))), "ideal and nadir after normalization")
    pre = PreNormalization(ideal=lo, nadir=hi)
    t.require(pre.normalization.forward(X) is X and pre.ideal is lo, "normalized although not asked for")


class Plain(Problem):
    def __init__(self, xl, xu, con):
        super().__init__(n_var=len(xl), n_obj=2, n_ieq_constr=int(con), xl=xl, xu=xu)

    def _evaluate(self, X, out, *args, **kwargs):
        assert self.__class__.__name__ != "" and X.shape[1] == self.n_var
        out["F"] = np.column_stack([X.sum(axis=1), (X ** 2).sum(axis=1)])
        if self.n_ieq_constr:
            out["G"] = X[:, [0]] - 0.3

    def _calc_pareto_set(self, *args, **kwargs):
        return None


PLAIN = {"euclidean": (misc.func_euclidean_distance, lambda d: np.sqrt((d ** 2).sum())), "manhatten": (misc.func_manhatten_distance, lambda d: np.abs(d).sum()), "tchebychev": (misc.func_tchebychev_distance, lambda d: np.abs(d).max())}
NORMED = {"euclidean": misc.norm_eucl_dist, "manhatten": misc.norm_manhatten_dist, "tchebychev": misc.norm_tchebychev_dist}


@P.check(st.fixed_dictionaries(dict(b=BND, a=st.integers(1, 6), c=st.integers(1, 6), seed=gen.SEED, kind=st.sampled_from(sorted(PLAIN)), row=st.sampled_from(["both", "a", "b", "none"]), con=st.booleans())),
         quick=2400, thorough=40000, shards=(4, 8))
def distances(case, t):
    """tables of (normalized) Euclidean, Manhattan and Chebyshev distances against pairwise definitions"""
    r = gen.rng(case["seed"])
    n = len(case["b"])
    lo = np.array([x[0] for x in case["b"]])
    hi = lo + np.array([x[1] for x in case["b"]])
    w = np.where(hi > lo, hi - lo, 1.0)
    A = lo + r.integers(0, 5, size=(case["a"], n)) / 4 * (hi - lo)
    B = lo + r.integers(0, 5, size=(case["c"], n)) / 4 * (hi - lo)
    one, dist = PLAIN[case["kind"]]
    t.nontrivial(case["a"] > 1 and case["c"] > 1 and n > 1)

    def table(w):
        return np.array([[float(dist((a - b) / w)) for b in B] for a in A])
    tol = 1e-9
    D = misc.vectorized_cdist(A, B, func_dist=one)
    t.close(D, table(1.0), case["kind"], rtol=tol, atol=1e-9 * np.abs(A).max())
    N = NORMED[case["kind"]](Plain(lo, hi, False), A, B)
    t.close(N, table(w), "normalized " + case["kind"], rtol=1e-7, atol=1e-9)
    t.close(misc.cdist(A, B), np.array([[np.sqrt(((a - b) ** 2).sum()) for b in B] for a in A]), "cdist", rtol=tol, atol=1e-9)
    t.close(NORMED[case["kind"]](Plain(lo, hi, False), A[0], B), table(w)[0], "from a single point", rtol=1e-7, atol=1e-9)
    # as everything that looks for the closest one expects it: zero to itself, symmetric
    S = misc.vectorized_cdist(A, A, func_dist=one)
    t.require((np.diag(S) == 0).all() and np.array_equal(S, S.T), "not a distance")
    I = misc.vectorized_cdist(A, A, func_dist=one, fill_diag_with_inf=True)
    t.require(np.isinf(np.diag(I)).all() and np.array_equal(I[~np.eye(len(A), dtype=bool)], S[~np.eye(len(A), dtype=bool)]), "fill_diag_with_inf")
    if len(A) > 1:
        k, d = misc.distance_of_closest_points_to_others(A)
        E = np.array([[np.sqrt(((a - b) ** 2).sum()) for b in A] for a in A])
        np.fill_diagonal(E, np.inf)
        t.close(d, E.min(axis=1), "distance to the closest other point", rtol=tol, atol=1e-9 * np.abs(A).max())
        t.require((E[np.arange(len(A)), k] <= E.min(axis=1) * (1 + tol) + 1e-9).all(), "another point is closer")
    dup = misc.find_duplicates(A)
    t.require([bool(x) for x in dup] == [any((A[i] == A[j]).all() for j in range(i)) for i in range(len(A))], "find_duplicates")


@P.check(st.fixed_dictionaries(dict(b=BND, con=st.booleans(), n=st.integers(1, 6), seed=gen.SEED)), quick=800, thorough=12000, shards=(4, 8))
def problem(case, t):
    """a problem seen through the unit range is the same problem"""
    r = gen.rng(case["seed"])
    lo = np.array([x[0] for x in case["b"]])
    hi = lo + np.array([x[1] for x in case["b"]])
    inner = Plain(lo.copy(), hi.copy(), case["con"])
    prob = ZeroToOne(inner)
    t.nontrivial(case["n"] > 1)
    t.require((prob.xl == 0).all() and (prob.xu == 1).all() and prob.n_var == len(lo) and prob.n_obj == 2 and prob.n_ieq_constr == int(case["con"]), "definition of the problem")
    U = r.integers(0, 5, size=(case["n"], len(lo))) / 4
    X = prob.denormalize(U)
    t.close(X, lo + U * (hi - lo), "denormalize", rtol=1e-9, atol=1e-9)
    wide = hi > lo
    t.close(prob.normalize(X)[:, wide], U[:, wide], "normalize", rtol=1e-7, atol=1e-9 + 1e-15 * float((np.abs(lo) / np.where(wide, hi - lo, np.inf)).max()))
    keys = ["F", "G"] if case["con"] else ["F"]
    got, want = prob.evaluate(U, return_as_dictionary=True), inner.evaluate(lo + U * (hi - lo), return_as_dictionary=True)
    for k in keys:
        t.close(got[k], want[k], f"{k} of the problem", rtol=1e-7, atol=1e-9 * max(1.0, np.abs(want[k]).max()))
    t.require((inner.xl == lo).all() and (inner.xu == hi).all(), "the wrapped problem was modified")
