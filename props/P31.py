"""P31: multi-criteria decision making selects the solutions it is defined to select."""
import numpy as np
from hypothesis import strategies as st

from pymoo.core.decision_making import NeighborFinder, find_outliers_upper_tail
from pymoo.mcdm.high_tradeoff import HighTradeoffPoints
from pymoo.mcdm.pseudo_weights import PseudoWeights
from vp import gen, ref
from vp.core import Prop

P = Prop("P31", "more than two solutions", ["solutions are mutually non-dominated for pseudo weights; objective values are finite"])

FRONT = gen.matrix_spec(1, 30, 2, 5, ["front", "unit", "grid", "const", "layered", "neg", "scales", "dup"])


def front(spec):
    F = gen.mk(spec)
    return F[ref.nondominated(F)]


@P.check(st.fixed_dictionaries(dict(F=FRONT, w=st.lists(st.integers(0, 5), min_size=5, max_size=5), box=st.sampled_from(["none", "none", "ideal", "nadir", "both", "zero"]), ret=st.booleans(), flat=st.booleans())), quick=3200, thorough=60000, shards=(4, 8))
def pseudo(case, t):
    """pseudo weights by definition, invariant under rescaling, the closest solution is chosen"""
    F = front(case["F"])
    m = F.shape[1]
    w = np.array(case["w"][:m], dtype=float)
    w = w / w.sum() if w.sum() > 0 else np.full(m, 1 / m)
    r = gen.rng(case["F"]["seed"] + 1)
    ideal, nadir, kw = F.min(axis=0), F.max(axis=0), {}
    if case["box"] in ("ideal", "both", "zero"):
        ideal = kw["ideal"] = ideal - np.round(r.random(m), 2)
    if case["box"] in ("nadir", "both", "zero"):
        nadir = kw["nadir"] = nadir + np.round(r.random(m), 2)
    if case["box"] == "zero":
        kw["zero_to_one"] = True
    width = np.where(nadir > ideal, nadir - ideal, 1.0)
    A = (nadir - F) / width
    if (A.sum(axis=1) <= 0).any():
        # a single solution that is its own nadir has no pseudo weight
        t.require(PseudoWeights(w, **kw).do(F) in range(len(F)), "not an index")
        return
    A = A / A.sum(axis=1, keepdims=True)
    t.nontrivial(len(F) > 2)
    keep = F.copy()
    dec = PseudoWeights(w, **kw)
    G = F[0] if case["flat"] and len(F) == 1 else F
    if case["ret"]:
        i, got = dec.do(G, return_pseudo_weights=True)
        t.close(got, A, "pseudo weights", rtol=1e-7, atol=1e-9)
        t.close(got.sum(axis=1), np.ones(len(F)), "sum of the pseudo weights", rtol=1e-9)
    else:
        i = dec.do(G)
    d = [float(sum(abs(a - b) for a, b in zip(x, w))) for x in A]
    t.require(0 <= i < len(F) and d[int(i)] <= min(d) + 1e-9, lambda: f"selected {i} with a distance of {d[int(i)]}, the closest one has {min(d)}", "closest")
    t.require(np.array_equal(F, keep), "the objective values were modified")
    if not case["ret"]:
        t.require(dec(G) == i, "the second call differs")


def naive_neighbors(F, i, eps, auto):
    d = np.sqrt(((F - F[i]) ** 2).sum(axis=1))
    N = set(np.where(d <= eps)[0].tolist())
    if auto and len(N) < min(2 * F.shape[1], len(F) - 1):
        N = set(np.argsort(d, kind="stable")[:min(2 * F.shape[1], len(F) - 1) + 1].tolist())
    return N


def outliers(mu):
    I = [k for k, v in enumerate(mu) if np.isfinite(v)]
    if not I:
        return None
    v = np.array([mu[k] for k in I])
    m, s = v.mean(), v.std()
    if s <= 1e-12 * max(abs(m), 1e-300):
        return None
    d = (v - m) / s
    S = [k for k, x in zip(I, d) if x >= 2]
    if not S and d.max() > 1:
        S = [I[int(np.argmax(d))]]
    return S or None


def clear(mu):
    """no value is so close to a threshold that rounding decides"""
    v = np.array([x for x in mu if np.isfinite(x)])
    if len(v) == 0:
        return True
    if v.std() <= 1e-9 * max(np.abs(v).max(), 1e-300):
        return False
    d = (v - v.mean()) / v.std()
    top = np.sort(d)[::-1]
    return not (np.abs(d - 2) < 1e-6).any() and not (np.abs(d.max() - 1) < 1e-6) and (len(top) < 2 or top[0] - top[1] > 1e-6 or top[0] > 2 or top[0] <= 1)


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 40), m=st.integers(2, 5), seed=gen.SEED, knee=st.booleans(), eps=st.sampled_from([None, None, 0.01, 0.05, 0.3, 2.0]), z=st.booleans(), scale=st.sampled_from([1.0, 1.0, 100.0]))), quick=2400, thorough=40000, shards=(4, 8))
def tradeoff(case, t):
    """trade-off of every solution with its neighbourhood against the definition; outliers by their rule"""
    F = gen.mk(dict(n=case["n"], m=case["m"], mode="front", seed=case["seed"]))
    r = gen.rng(case["seed"] + 2)
    if case["knee"]:
        k = r.integers(0, len(F))
        F[k] *= 0.6
        F = F[ref.nondominated(F)]
    kw = {}
    if case["z"]:
        kw = dict(zero_to_one=True, ideal=np.zeros(case["m"]), nadir=np.full(case["m"], case["scale"]))
        F = F * case["scale"]
    if case["eps"] is not None:
        kw["epsilon"] = case["eps"]
    eps = 0.125 if case["eps"] is None else case["eps"]
    N = F / case["scale"] if case["z"] else F
    mu = []
    for i in range(len(N)):
        v = []
        for j in naive_neighbors(N, i, eps, True):
            s, g = sum(max(0, b - a) for a, b in zip(N[i], N[j])), sum(max(0, a - b) for a, b in zip(N[i], N[j]))
            if s > 0 or g > 0:
                v.append(s / g if g > 0 else np.inf)
        mu.append(min(v) if v else np.nan)
    keep = F.copy()
    got = HighTradeoffPoints(**kw).do(F)
    t.require(np.array_equal(F, keep), "the objective values were modified")
    t.nontrivial(len(F) > 2)
    D = np.sqrt(((N[:, None] - N[None]) ** 2).sum(axis=2))
    if not clear(mu) or (np.abs(D - eps) < 1e-9).any():
        return
    want = outliers(mu)
    t.equal(None if got is None else sorted(int(x) for x in got), want, "selected solutions")


@P.check(st.fixed_dictionaries(dict(mu=st.lists(st.one_of(st.integers(-5, 5).map(float), st.sampled_from([50.0, 100.0, float("nan"), float("inf"), float("-inf")])), min_size=1, max_size=15))), quick=2400, thorough=40000, shards=(2, 8))
def upper_tail(case, t):
    """the upper tail of values by its definition"""
    mu = np.array(case["mu"])
    got = find_outliers_upper_tail(mu.copy())
    t.nontrivial(np.isfinite(mu).sum() > 2)
    v = mu[np.isfinite(mu)]
    if len(v) and v.std() == 0:
        t.require(got is None, "outliers of equal values")
        return
    if len(v):
        d = (v - v.mean()) / v.std()
        if (np.abs(d - 2) < 1e-9).any() or abs(d.max() - 1) < 1e-9:
            return
    want = outliers(mu)
    got = None if got is None else [int(x) for x in got]
    if want is not None and len(want) == 1 and got is not None and len(got) == 1:
        t.require(mu[got[0]] == mu[want[0]], "outliers")
    else:
        t.equal(got, want, "outliers")


@P.check(st.fixed_dictionaries(dict(n=st.integers(2, 20), m=st.integers(2, 4), seed=gen.SEED, how=st.sampled_from(["2d", "eps", "number", "auto", "least"]), k=st.integers(1, 5), eps=st.sampled_from([0.05, 0.125, 0.5]))), quick=1600, thorough=30000, shards=(2, 8))
def neighbors(case, t):
    """neighbourhoods by radius, at least as many members as asked for"""
    F = gen.rng(case["seed"]).random((case["n"], case["m"]))
    n, how = len(F), case["how"]
    k = min(case["k"], n - 1)
    if how == "2d":
        F = F[:, :2]
        f = NeighborFinder(F)
    elif how == "eps":
        f = NeighborFinder(F, epsilon=case["eps"], consider_2d=False)
    elif how == "number":
        f = NeighborFinder(F, epsilon=None, n_neighbors=k, consider_2d=False)
    elif how == "least":
        f = NeighborFinder(F, epsilon=case["eps"], n_min_neigbors=k, consider_2d=False)
    else:
        f = NeighborFinder(F, epsilon=case["eps"], n_min_neigbors="auto", consider_2d=False)
    t.nontrivial(n > 2)
    for i in range(n):
        d = np.sqrt(((F - F[i]) ** 2).sum(axis=1))
        got = set(int(x) for x in f.find(i))
        if how == "2d":
            o = np.argsort(F[:, 0])
            p = int(np.where(o == i)[0][0])
            want = set(o[max(0, p - 1):p].tolist() + o[p + 1:p + 2].tolist())
        elif how == "number":
            want = set(np.argsort(d)[:k + 1].tolist())
        elif how == "least":
            want = set(np.where(d <= case["eps"])[0].tolist())
            if len(want) < k:
                want = set(np.argsort(d)[:k + 1].tolist())
        else:
            want = naive_neighbors(F, i, case["eps"], how == "auto")
        t.equal(got, want, f"neighbors ({how})")
