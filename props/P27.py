"""P27: performance indicators are what they are defined to be."""
import moocore
import numpy as np
from hypothesis import strategies as st

from pymoo.core.problem import Problem
from pymoo.indicators.epsilon import Epsilon, EpsilonMultiplicative
from pymoo.indicators.gd import GD
from pymoo.indicators.gd_plus import GDPlus
from pymoo.indicators.hv import HV, Hypervolume
from pymoo.indicators.hv.approximate import ApproximateHypervolume
from pymoo.indicators.igd import IGD
from pymoo.indicators.igd_plus import IGDPlus
from pymoo.indicators.migd import MIGD
from pymoo.indicators.rmetric import RMetric
from pymoo.indicators.spacing import SpacingIndicator
from pymoo.util.display.multi import MultiObjectiveOutput
from pymoo.util.running_metric import RunningMetric
from vp import gen, hv as exact, ref
from vp.core import Prop

P = Prop("P27", "both sets have at least two points and the value is not zero", ["objective values are finite; the ratios of the multiplicative indicator are of positive values"])


def naive_distance(kind, F, pf, norm):
    plus = kind.endswith("+")

    def d(z, a):
        x = a - z
        if plus:
            x = np.maximum(x, 0)
        return float(np.sqrt(np.sum((x / norm) ** 2)))
    if kind.startswith("i"):
        return float(np.mean([min(d(z, a) for a in F) for z in pf]))
    return float(np.mean([min(d(z, a) for z in pf) for a in F]))


def slack(F, pf):
    """rounding allowed for igd: its library computes |a - b|^2 as |a|^2 + |b|^2 - 2ab, off by some ulps of |a|^2"""
    F, pf = np.atleast_2d(F), np.atleast_2d(pf)
    s = max((F ** 2).sum(axis=1).max(), (pf ** 2).sum(axis=1).max())
    d = np.sqrt(((pf[:, None] - F[None]) ** 2).sum(axis=2)).min(axis=1)
    return float(np.mean(np.sqrt(d ** 2 + 32 * F.shape[1] * 2.3e-16 * s) - d))


def unit(X, lo, hi):
    """0 at the ideal, 1 at the nadir; shifted only where they are equal"""
    w = np.where(hi > lo, hi - lo, 1.0)
    return (X - lo) / w


CLS = {"gd": GD, "gd+": GDPlus, "igd": IGD, "igd+": IGDPlus}
SETS = ["grid", "normal", "unit", "front", "layered", "dup", "const", "neg", "scales"]
BOX = st.sampled_from(["pf", "pf", "own", "ideal", "nadir"])


def sets(case):
    pf = gen.mk(case["pf"])
    F = gen.mk(dict(case["F"], m=pf.shape[1]))
    if case["near"]:
        r = gen.rng(case["F"]["seed"])
        F = pf[r.integers(0, len(pf), size=len(F))] + np.round(r.normal(size=F.shape) * 0.3, 1)
    return F, pf


TWO = dict(pf=gen.matrix_spec(1, 12, 1, 5, SETS), F=gen.matrix_spec(1, 12, 1, 1, SETS), near=st.booleans())


def box(case, pf):
    """explicit ideal and nadir, and what they default to"""
    r = gen.rng(case["pf"]["seed"])
    ideal, nadir = pf.min(axis=0), pf.max(axis=0)
    kw = {}
    if case["box"] in ("own", "ideal"):
        ideal = ideal - np.round(r.random(pf.shape[1]), 1)
        kw["ideal"] = ideal.copy()
    if case["box"] in ("own", "nadir"):
        nadir = nadir + np.round(r.random(pf.shape[1]), 1)
        kw["nadir"] = nadir.copy()
    return ideal, nadir, kw


def unchanged(t, arrays, f):
    before = [a.copy() for a in arrays]
    v = f()
    for a, b in zip(arrays, before):
        t.require(np.array_equal(a, b), "an input was modified", "modified")
    return v


def close(t, got, want, what, rel=1e-9, floor=1e-12):
    t.require(np.isfinite(got) and abs(got - want) <= rel * abs(want) + floor, lambda: f"{what}: {got!r}, by definition {want!r}", what)


@P.check(st.fixed_dictionaries(dict(TWO, kind=st.sampled_from(sorted(CLS)), z=st.booleans(), by=st.sampled_from([False, False, True]), box=BOX, shape=st.sampled_from(["2d", "2d", "1d", "pf1d", "empty"]))),
         quick=2400, thorough=60000, shards=(4, 8))
def distance(case, t):
    """GD, GD+, IGD, IGD+ with every option against nearest distances by definition"""
    F, pf = sets(case)
    ideal, nadir, kw = box(case, pf)
    by = case["by"] and bool((nadir > ideal).all())
    scale = max(1.0, np.abs(F).max(), np.abs(pf).max())
    arg = pf
    if case["shape"] == "1d":
        F = F[:1]
    if case["shape"] == "pf1d":
        pf, arg = pf[:1], pf[0]
        ideal, nadir, kw = box(dict(case, box="own"), pf)
        by = by and bool((nadir > ideal).all())
    ind = CLS[case["kind"]](arg, zero_to_one=case["z"], norm_by_dist=by, **kw)
    if case["shape"] == "empty":
        t.equal(ind(np.zeros((0, pf.shape[1]))), 0.0, "indicator of an empty set")
        F2 = F
    if case["z"]:
        want = naive_distance(case["kind"], unit(F, ideal, nadir), unit(pf, ideal, nadir), 1.0)
    else:
        want = naive_distance(case["kind"], F, pf, (nadir - ideal) if by else 1.0)
    G = F[0] if case["shape"] == "1d" else F
    got = unchanged(t, [F, pf] + list(kw.values()), lambda: ind(G))
    t.nontrivial(len(F) > 1 and len(pf) > 1 and want > 0)
    t.require(np.ndim(got) == 0, f"{case['kind']}: not a number but {got!r}")
    w = (nadir - ideal)[nadir > ideal]
    floor = 1e-14 * scale / (min(w.min(), 1.0) if len(w) and (by or case["z"]) else 1.0) * 50
    lib = 0.0
    if case["kind"] == "igd" and not by:
        lib = slack(unit(F, ideal, nadir), unit(pf, ideal, nadir)) if case["z"] else slack(F, pf)
    close(t, got, want, f"{case['kind']}", floor=floor + lib)
    t.require(ind.do(G) == got, "the same indicator returned another value the second time")
    if not by and not case["z"]:
        if want == 0 or want > 1e-12 * scale + 2 * lib:
            t.require((got <= 1e-12 * scale + lib) == (want == 0), "zero exactly if all points are found")


@P.check(st.fixed_dictionaries(dict(TWO, mult=st.booleans(), z=st.booleans(), one=st.booleans())), quick=1600, thorough=40000, shards=(4, 8))
def epsilon(case, t):
    """additive and multiplicative epsilon against the definition"""
    F, pf = sets(case)
    if case["one"]:
        F = F[:1]
    if case["mult"]:
        F, pf = np.abs(F) + 0.5, np.abs(pf) + 0.5
    z = case["z"] and not case["mult"]
    lo, hi = pf.min(axis=0), pf.max(axis=0)
    A, B = (unit(F, lo, hi), unit(pf, lo, hi)) if z else (F, pf)
    if case["mult"]:
        want = max(min(np.max(a / b) for a in A) for b in B)
        ind = EpsilonMultiplicative(pf)
    else:
        want = max(min(np.max(a - b) for a in A) for b in B)
        ind = Epsilon(pf, zero_to_one=z)
    got = unchanged(t, [F, pf], lambda: ind(F[0] if case["one"] else F))
    t.nontrivial(len(F) > 1 and len(pf) > 1 and want > 0)
    t.require(np.ndim(got) == 0, "not a number")
    w = (hi - lo)[hi > lo]
    floor = 1e-13 * max(1.0, np.abs(F).max(), np.abs(pf).max()) / (min(w.min(), 1.0) if len(w) and z else 1.0)
    close(t, float(got), float(want), "epsilon", floor=floor)
    t.equal(ind(np.zeros((0, pf.shape[1]))), 0.0, "indicator of an empty set")


@P.check(st.fixed_dictionaries(dict(TWO, z=st.booleans(), box=BOX, ref=st.sampled_from(["pf", "own", "own", "low"]), norm=st.booleans(), alias=st.booleans())), quick=1600, thorough=40000, shards=(4, 8))
def hypervolume(case, t):
    """hypervolume and exclusive contributions against slicing by inclusion-exclusion"""
    F, pf = sets(case)
    F, pf = F[:9], pf[:9]
    ideal, nadir, kw = box(case, pf)
    r = gen.rng(case["F"]["seed"] + 1)
    rp = pf.max(axis=0)
    if case["ref"] != "pf":
        both = np.vstack([F, pf])
        q = both.max(axis=0) if case["ref"] == "own" else both.min(axis=0) + 0.6 * (both.max(axis=0) - both.min(axis=0))
        rp = kw["ref_point"] = q + np.round(r.random(pf.shape[1]), 1) * (case["ref"] == "own")
    lo, hi = (ideal, nadir) if case["z"] else (np.zeros(pf.shape[1]), np.ones(pf.shape[1]))
    rn = rp
    if case["z"]:
        if not case["norm"]:
            kw["norm_ref_point"] = False
            kw["ref_point"] = rn = np.full(pf.shape[1], 1.1)
        else:
            rn = unit(rp, lo, hi)
    ind = (HV if case["alias"] else Hypervolume)(pf=pf, zero_to_one=case["z"], **kw)
    N = unit(F, lo, hi) if case["z"] else F
    want = exact.hv(N, rn)
    got = unchanged(t, [F, pf] + [v for v in kw.values() if isinstance(v, np.ndarray)], lambda: ind(F))
    t.nontrivial(len(F) > 1 and want > 0)
    size = float(np.prod(np.maximum(rn - np.minimum(N.min(axis=0), rn), 0)))
    amp = max(1.0, float(np.abs(np.vstack([N, rn[None]])).max()) / max(1e-300, float(np.min((rn - N.min(axis=0))[(rn - N.min(axis=0)) > 0], initial=1.0))))
    close(t, float(got), want, "hypervolume", rel=1e-9, floor=1e-14 * size * amp + 1e-300)
    t.equal(ind(np.zeros((0, pf.shape[1]))), 0.0, "hypervolume of an empty set")
    one = ind(F[0])
    close(t, float(one), exact.hv(N[:1], rn), "hypervolume of one point", floor=1e-14 * size * amp + 1e-300)
    t.require(one <= got * (1 + 1e-9) + 1e-14 * size * amp, "one point of the set covers more than the set")


def contributions(S, rp):
    """what the non-dominated points contribute to them; nothing for dominated ones"""
    out = np.zeros(len(S))
    nd = ref.nondominated(S) if len(S) else []
    for i in nd:
        out[i] = exact.hv(S[nd], rp) - exact.hv(S[[j for j in nd if j != i]], rp)
    return out


@P.check(st.fixed_dictionaries(dict(F=gen.matrix_spec(1, 8, 2, 4, ["unit", "front", "layered", "grid", "dup"]), ops=st.lists(st.integers(0, 20), min_size=1, max_size=6), seed=st.integers(0, 50),
                                     kw=st.sampled_from([None, (1000, "DZ2019-MC"), (2000, "DZ2019-HW"), (3000, "Rphi-FWE+")]))),
         quick=160, thorough=3000, shards=(4, 8))
def approximate(case, t):
    """Monte-Carlo hypervolume over histories of additions and deletions: in the order of the exact one and equal to the library's of the remaining points, contributions exact"""
    A = gen.mk(case["F"])
    m = A.shape[1]
    rp = np.full(m, A.max() + 0.5)
    kw = dict(n_samples=case["kw"][0], method=case["kw"][1]) if case["kw"] else {}
    h = ApproximateHypervolume(rp, seed=case["seed"], **kw)
    t.equal(h.hv, 0.0, "hypervolume before adding anything")
    S = np.zeros((0, m))
    i = 0
    for op in case["ops"]:
        if op % 3 < 2 or len(S) == 0:
            k = 1 + op % 4
            B = A[[(i + j) % len(A) for j in range(k)]]
            i += k
            t.require(h.add(B) is h, "add returns the object")
            S = np.vstack([S, B])
        else:
            t.require(h.delete(op % len(S)) is h, "delete returns the object")
            S = np.delete(S, op % len(S), axis=0)
        want = exact.hv(S, rp)
        t.require(np.array_equal(h.F, S), "the points are not the added and not deleted ones")
        # how good the approximation is depends on the library: only its order of magnitude, but exactly its value for these points
        t.require(kw or abs(h.hv - want) <= 0.3 * want, lambda: f"approximated hypervolume {h.hv} of {want}", "approx")
        if kw and len(S):
            lib = moocore.hv_approx(S, ref=rp, nsamples=kw["n_samples"], method=kw["method"], seed=case["seed"])
            t.close(h.hv, lib, "approximation with the given method, samples and seed", rtol=1e-12)
        t.close(np.asarray(h.hvc), contributions(S, rp), "contributions", rtol=1e-7, atol=1e-12 * max(1.0, float(np.prod(rp))))
        t.nontrivial(len(S) > 2)


@P.check(st.fixed_dictionaries(dict(TWO, z=st.booleans(), box=BOX)), quick=800, thorough=20000, shards=(4, 8))
def spacing(case, t):
    """spacing from city-block distances to the nearest neighbour"""
    F, pf = sets(case)
    if len(F) < 2:
        F = np.vstack([F, F + 1])
    ideal, nadir, kw = box(case, pf)
    ind = SpacingIndicator(pf, zero_to_one=case["z"], **kw)
    N = unit(F, ideal, nadir) if case["z"] else F
    d = np.array([min(np.abs(N[i] - N[j]).sum() for j in range(len(N)) if j != i) for i in range(len(N))])
    want = float(np.sqrt(np.mean((d - d.mean()) ** 2)))
    got = unchanged(t, [F, pf], lambda: ind(F))
    t.nontrivial(len(F) > 2 and want > 0)
    close(t, float(got), want, "spacing", floor=1e-9 * max(d.max(), np.abs(N).max() * 1e-4))


def naive_rmetric(F, others, pf, refs, w, delta):
    """Li, Deb & Yao: R-IGD and R-HV"""
    if others is not None:
        F = np.array([f for f in F if not any((o <= f).all() and (o < f).any() for o in others)]).reshape(-1, F.shape[1])
    wp = refs + 2 * w

    def asf(f, i):
        return np.max((f - refs[i]) / (wp[i] - refs[i]))
    S, T = [], []
    owner = [int(np.argmin([np.sum((f - r) ** 2) for r in refs])) for f in F]
    for i in range(len(refs)):
        own = [f for f, o in zip(F, owner) if o == i]
        if own:
            z = min(own, key=lambda f: asf(f, i))
            # the point of the line from the reference to the worst point with the same value
            iso = refs[i] + asf(z, i) * (wp[i] - refs[i])
            S += [f + (iso - z) for f in own if (np.abs(f - z) < delta / 2).all()]
        c = min(pf, key=lambda f: asf(f, i))
        T += [f for f in pf if (np.abs(f - c) < delta / 2).all()]
    if not S:
        return None, None
    S, T = np.array(S), np.array(T)
    return (naive_distance("igd", S, T, 1.0), slack(S, T)), exact.hv(S, wp.max(axis=0)) if F.shape[1] <= 3 else None


@P.check(st.fixed_dictionaries(dict(seed=gen.SEED, m=st.integers(2, 4), n=st.integers(1, 20), k=st.integers(1, 3), npf=st.integers(2, 30), others=st.integers(0, 4), delta=st.sampled_from([0.05, 0.2, 0.5, 2.0]), own=st.booleans(),
                                    hv=st.booleans(), weights=st.booleans())), quick=800, thorough=20000, shards=(4, 8))
def rmetric(case, t):
    """R-metric: representative point, trimming, transfer and indicator step by step"""
    r = gen.rng(case["seed"])
    m = case["m"]
    pf = gen.mk(dict(n=case["npf"], m=m, mode="front", seed=case["seed"]))
    F = gen.mk(dict(n=case["n"], m=m, mode="front", seed=case["seed"] + 1)) * (1 + 0.2 * r.random((case["n"], 1)))
    refs = r.random((case["k"], m)) * 0.6
    others = pf[r.integers(0, len(pf), size=case["others"])] * 1.05 if case["others"] else None
    w = r.random(m) + 0.2 if case["weights"] else np.ones(m)
    prob = type("Own", (), {"pareto_front": lambda self: pf})()
    kw = dict(w=w) if case["weights"] else {}
    ind = RMetric(prob, refs, delta=case["delta"], pf=pf if case["own"] else None, **kw)
    arrays = [F, pf, refs] + ([others] if others is not None else [])
    got = unchanged(t, arrays, lambda: ind.do(F, others=others, calc_hv=case["hv"]))
    igd, vol = naive_rmetric(F, others, pf, refs, w, case["delta"])
    t.nontrivial(igd is not None and case["n"] > 1)
    if case["hv"]:
        got_igd, got_hv = got
        if vol is None:
            t.require(got_hv is None, f"R-HV {got_hv} where there is none")
        else:
            close(t, float(got_hv), vol, "R-HV", floor=1e-10)
    else:
        got_igd = got
    if igd is None:
        t.require(got_igd is None, f"R-IGD {got_igd} of an empty set")
    else:
        close(t, float(got_igd), igd[0], "R-IGD", floor=1e-10 + igd[1])


class Alg:
    """what callbacks and outputs look at"""

    def __init__(self, problem, F, n=1):
        from pymoo.core.population import Population
        self.problem, self.n_gen, self.n_iter = problem, n, n
        self.pop = self.opt = Population.new("X", np.arange(len(F) * 2, dtype=float).reshape(len(F), 2), "F", F)
        if problem.n_ieq_constr:
            for k, ind in enumerate(self.pop):
                ind.G = np.array([1.0 if k in problem.bad else -1.0])
        self.evaluator = type("E", (), {"n_eval": 10 * n})()
        self.has_terminated = False


class Fronts(Problem):
    def __init__(self, pf, con, bad=()):
        super().__init__(n_var=2, n_obj=pf.shape[1], n_ieq_constr=int(con), xl=0, xu=1)
        self.front, self.bad = pf, bad

    def _calc_pareto_front(self, *args, **kwargs):
        return self.front


@P.check(st.fixed_dictionaries(dict(pf=gen.matrix_spec(2, 10, 2, 4, ["front", "unit", "const"]), steps=st.lists(gen.matrix_spec(1, 8, 1, 1, ["unit", "front", "normal", "grid"]), min_size=1, max_size=4), con=st.booleans(), bad=st.sets(st.integers(0, 7), max_size=4))),
         quick=480, thorough=8000, shards=(4, 8))
def output(case, t):
    """the indicators shown during a run are those of the feasible optimum of that iteration"""
    pf = gen.mk(case["pf"])
    lo, hi = pf.min(axis=0), pf.max(axis=0)
    prob = Fronts(pf, case["con"], case["bad"])
    out = MultiObjectiveOutput()
    for k, s in enumerate(case["steps"]):
        F = gen.mk(dict(s, m=pf.shape[1]))
        a = Alg(prob, F, k + 1)
        out(a)
        ok = [i for i in range(len(F)) if not (case["con"] and i in case["bad"])]
        t.equal(out.n_nds.value, len(F), "number of non-dominated solutions")
        t.equal(out.igd in out.columns and out.gd in out.columns, True, "gd and igd are columns")
        t.equal(out.hv in out.columns, pf.shape[1] == 2, "hv is a column")
        if not ok:
            for c in (out.igd, out.gd, out.hv):
                t.equal(c.value, None, f"{c.name} without feasible solutions")
            continue
        N, Z = unit(F[ok], lo, hi), unit(pf, lo, hi)
        t.nontrivial(len(ok) > 1 and k > 0)
        close(t, out.igd.value, naive_distance("igd", N, Z, 1.0), "displayed igd", floor=1e-10 + slack(N, Z))
        close(t, out.gd.value, naive_distance("gd", N, Z, 1.0), "displayed gd", floor=1e-10)
        if pf.shape[1] == 2:
            close(t, out.hv.value, exact.hv(N, np.where(hi > lo, 1.0, 0.0)), "displayed hv", floor=1e-10)


@P.check(st.fixed_dictionaries(dict(m=st.integers(2, 4), period=st.sampled_from([None, None, 1, 2, 3]), hv=st.booleans(), steps=st.lists(gen.matrix_spec(1, 8, 1, 1, ["unit", "front", "normal", "grid", "grid2", "const"]), min_size=1, max_size=5))),
         quick=480, thorough=8000, shards=(4, 8))
def running(case, t):
    """running metric over generated histories of fronts: ideal, nadir and front movement"""
    m = case["m"]
    run = RunningMetric(period=case["period"], indicator="hv" if case["hv"] else "igd")
    prob = Fronts(np.eye(m), False)
    hist = []
    for k, s in enumerate(case["steps"]):
        F = gen.mk(dict(s, m=m))
        run.update(Alg(prob, F, k + 1))
        hist.append(F)
        if case["period"]:
            hist = hist[-case["period"]:]
        lo, hi = F.min(axis=0), F.max(axis=0)
        w = np.where(hi > lo, hi - lo, 1.0)
        if not (hi > lo).all():
            # nothing to normalize by: only that it is a number
            for name in ("delta_ideal", "delta_nadir", "delta_f"):
                t.require(np.isfinite(getattr(run, name)).all() and len(getattr(run, name)) == len(hist), lambda: f"{name} is {getattr(run, name)}", "running:degenerate")
            continue
        t.nontrivial(len(hist) > 1)
        for name, fun in (("delta_ideal", lambda A: A.min(axis=0)), ("delta_nadir", lambda A: A.max(axis=0))):
            want = [float(np.max(np.abs((fun(b) - fun(a)) / w))) for a, b in zip(hist, hist[1:])] + [0.0]
            t.close(np.array(getattr(run, name)), np.array(want), name, rtol=1e-9, atol=1e-12)
        N = [unit(A, lo, hi) for A in hist]
        want = [exact.hv(A, np.ones(m)) if case["hv"] else naive_distance("igd", A, N[-1], 1.0) for A in N]
        t.close(np.array(run.delta_f), np.array(want), "delta_f", rtol=1e-9, atol=1e-10 + (0.0 if case["hv"] else max(slack(A, N[-1]) for A in N)))


@P.check(st.fixed_dictionaries(dict(m=st.integers(2, 3), re=st.booleans(), steps=st.lists(gen.matrix_spec(1, 8, 1, 1, ["unit", "normal", "grid"]), min_size=1, max_size=5))), quick=240, thorough=4000, shards=(4, 8))
def migd(case, t):
    """averaged IGD over a changing problem, with and without re-evaluation"""
    m = case["m"]

    class Dyn(Problem):
        """moves with time, so old objective values are outdated"""

        def __init__(self):
            super().__init__(n_var=m, n_obj=m, xl=-10, xu=10)
            self.time = 0.0

        def _evaluate(self, X, out, *args, **kwargs):
            out["F"] = X + self.time

        def _calc_pareto_front(self, *args, **kwargs):
            return np.eye(m) + self.time ** 2
    from pymoo.core.population import Population
    prob, cb, want, room = Dyn(), MIGD(reevaluate=case["re"]), [], 0.0
    prob.cache = {}
    for k, s in enumerate(case["steps"]):
        X = gen.mk(dict(s, m=m))
        prob.time = 0.5 * k
        prob.cache.clear()
        old = X - 1.0
        a = Alg(prob, X, k + 1)
        a.pop = Population.new("X", X, "F", old)
        pf = np.eye(m) + prob.time ** 2
        cb.update(a)
        A = X + prob.time if case["re"] else old
        want.append(naive_distance("igd", A, pf, 1.0))
        room = max(room, slack(A, pf))
        close(t, float(cb.value()), float(np.mean(want)), "mean igd", floor=1e-12 + room)
    t.nontrivial(len(want) > 1)
