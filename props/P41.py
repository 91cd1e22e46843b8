"""P41: recorders and the shared building blocks (distances, subsets, windows, random selection) compute what they promise."""
from itertools import chain, combinations

import numpy as np
from hypothesis import strategies as st

from pymoo.core.callback import CallbackCollection
from pymoo.core.evaluator import Evaluator
from pymoo.core.problem import Problem
from pymoo.core.recorder import DefaultMultiObjectiveRecorder, DefaultSingleObjectiveRecorder, Recorder
from pymoo.core.termination import Termination
from pymoo.optimize import minimize
from pymoo.termination.max_eval import MaximumFunctionCallTermination
from pymoo.termination.max_gen import MaximumGenerationTermination
from pymoo.util import misc
from pymoo.util.cache import Cache
from pymoo.util.randomized_argsort import randomized_argsort
from pymoo.util.roulette import RouletteWheelSelection
from pymoo.util.sliding_window import SlidingWindow
from pymoo.util.vectors import max_alpha
from vp import algos, gen
from vp.core import Prop

P = Prop("P41", "more than one element, with ties or repetitions among them; recorders: at least three generations", ["values are finite", "random selection is judged by frequencies (false alarm below 1e-9 per case)"])


# -------------------------------------------------------------------------------------------------------------- distances


def pair(kind, a, b, w):
    d = [abs(x - y) / z for x, y, z in zip(a, b, w)]
    if kind == "euclidean":
        return float(np.sqrt(sum(e * e for e in d)))
    if kind == "manhatten":
        return float(sum(d))
    return float(max(d))


KINDS = ["euclidean", "manhatten", "tchebychev"]
FUNCS = {"euclidean": misc.func_euclidean_distance, "manhatten": misc.func_manhatten_distance, "tchebychev": misc.func_tchebychev_distance}
NORM = {"euclidean": misc.norm_eucl_dist, "manhatten": misc.norm_manhatten_dist, "tchebychev": misc.norm_tchebychev_dist}
BOUNDS = {"euclidean": misc.norm_eucl_dist_by_bounds, "manhatten": misc.norm_manhatten_dist_by_bounds, "tchebychev": misc.norm_tchebychev_dist_by_bounds}


@P.check(st.fixed_dictionaries(dict(A=gen.points(1, 12, 1, 5), B=gen.points(1, 12, 1, 5), kind=st.sampled_from(KINDS), rowa=st.booleans(), rowb=st.booleans(), same=st.booleans(), diag=st.booleans(), ints=st.booleans(), s=gen.SEED)), quick=900, thorough=30000)
def distances(case, t):
    """tables of distances between points or sets (given shape, ordinary or normalized, diagonal left out) against pairwise definitions"""
    A, B = gen.mk(case["A"]), gen.mk(case["B"])
    d = min(A.shape[1], B.shape[1])
    A, B = A[:, :d], B[:, :d]
    if case["ints"]:
        A, B = np.round(np.clip(A, -1e6, 1e6)).astype(int), np.round(np.clip(B, -1e6, 1e6)).astype(int)
    if case["same"]:
        B = A.copy()
    a, b = (A[0] if case["rowa"] else A), (B[0] if case["rowb"] else B)
    if case["rowa"]:
        A = A[:1]
    if case["rowb"]:
        B = B[:1]
    t.nontrivial(len(A) > 1 and len(B) > 1)
    kind = case["kind"]
    D = np.array([[pair(kind, x, y, np.ones(d)) for y in B] for x in A])

    def shaped(M, diag=False):
        M = M.copy()
        if diag:
            for i in range(min(M.shape)):
                M[i, i] = np.inf
        return M[0, 0] if case["rowa"] and case["rowb"] else M[0] if case["rowa"] else M

    a0, b0 = a.copy(), b.copy()
    got = misc.vectorized_cdist(a, b, func_dist=FUNCS[kind], fill_diag_with_inf=case["diag"])
    want = shaped(D, case["diag"])
    t.require(np.shape(got) == np.shape(want), "shape of the distances %s %s" % (np.shape(got), np.shape(want)), "shape")
    t.close(got, want, "%s distances" % kind, rtol=1e-9, atol=1e-12)
    if kind == "euclidean":
        t.close(misc.vectorized_cdist(a, b), shaped(D), "distances are Euclidean unless stated", rtol=1e-9, atol=1e-12)
        t.close(misc.cdist(A, B), D, "cdist", rtol=1e-7, atol=1e-9)
    r = np.random.RandomState(case["s"])
    xl = np.round(r.uniform(-3, 3, d), 1)
    xu = xl + r.choice([0.0, 0.5, 1.0, 2.0, 1e3], d)
    w = np.where(xu > xl, xu - xl, 1.0)
    want = shaped(np.array([[pair(kind, x, y, w) for y in B] for x in A]))
    got = BOUNDS[kind](a, b, xl, xu)
    t.close(got, want, "normalized %s distances" % kind, rtol=1e-9, atol=1e-12)
    t.equal(NORM[kind](Problem(n_var=d, n_obj=1, xl=xl, xu=xu), a, b), got, "distances normalized by a problem")
    t.require(np.array_equal(a, a0) and np.array_equal(b, b0), "the points have been modified")
    if len(A) > 1:
        E = np.array([[pair("euclidean", x, y, np.ones(d)) for y in A] for x in A])
        np.fill_diagonal(E, np.inf)
        I, v = misc.distance_of_closest_points_to_others(A)
        t.close(v, E.min(axis=1), "distance of the closest point", rtol=1e-9, atol=1e-12)
        t.require(all(I[k] != k for k in range(len(A))), "a point is its own neighbour")
        t.close(E[np.arange(len(A)), I], E.min(axis=1), "index of the closest point", rtol=1e-9, atol=1e-12)
        eps = 10.0 ** -r.randint(1, 17)
        C = misc.cdist(A, A)
        want = [any(C[i, j] <= eps for j in range(i)) for i in range(len(A))]
        t.equal(list(misc.find_duplicates(A, epsilon=eps)), want, "find_duplicates")


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 5), lo=st.booleans(), hi=st.booleans(), s=gen.SEED, zero=st.booleans())), quick=450, thorough=10000)
def step_to_bound(case, t):
    """the largest step along a direction that stays within the bounds"""
    n = case["n"]
    r = np.random.RandomState(case["s"])
    xl = r.uniform(-5, 5, n) if case["lo"] else None
    base = xl if xl is not None else r.uniform(-5, 5, n)
    xu = base + r.uniform(0.5, 4, n) if case["hi"] else None
    x = base + 0.4 * r.uniform(0.05, 1, n)
    d = r.normal(size=n)
    if case["zero"]:
        d[r.randint(n)] = 0.0
    d0 = d.copy()
    t.nontrivial(n > 1 and case["lo"] and case["hi"])
    got = max_alpha(x, d, xl, xu)
    t.require(np.array_equal(d, d0), "direction modified")
    best = np.inf
    for k in range(n):
        if d[k] < 0 and xl is not None:
            best = min(best, (xl[k] - x[k]) / d[k])
        if d[k] > 0 and xu is not None:
            best = min(best, (xu[k] - x[k]) / d[k])
    if np.isfinite(best):
        t.close(got, best, "largest step inside of the bounds", rtol=1e-9)
    elif not case["lo"] and not case["hi"]:
        t.require(got == np.inf, "there is no bound")


# ------------------------------------------------------------------------------------------------------------- collections


@P.check(st.fixed_dictionaries(dict(v=st.lists(st.integers(-3, 3), max_size=10), u=st.lists(st.integers(-3, 3), max_size=8), f=st.booleans(), s=gen.SEED)), quick=900, thorough=20000)
def collections(case, t):
    """grouping, unique values, intersections, power sets, dictionaries"""
    v, u = case["v"], case["u"]
    t.nontrivial(len(set(v)) < len(v) and len(u) > 0)
    groups = {}
    for k, e in enumerate(v):
        groups.setdefault(e, []).append(k)
    got = misc.where_is_what(iter(v))
    t.require({k: list(map(int, e)) for k, e in got.items()} == groups, "where_is_what", "where")
    if v:
        vals, idx = misc.unique_and_all_indices(np.array(v) * (0.5 if case["f"] else 1))
        t.equal(list(vals), sorted(e * (0.5 if case["f"] else 1) for e in groups), "unique values")
        t.require([list(map(int, e)) for e in idx] == [groups[k] for k in sorted(groups)], "indices of the unique values", "unique")
    t.require(misc.intersect(v, u) == [e for e in v if e in u], "intersect keeps the entries of the first in order", "intersect")
    w = sorted(set(v))
    got = [tuple(e) for e in misc.powerset(w)]
    want = list(chain.from_iterable(combinations(w, n) for n in range(len(w) + 1)))
    t.require(len(got) == 2 ** len(w) and sorted(got) == sorted(want), "powerset", "powerset")
    x = np.array(v, dtype=float)
    drop = [k for k in u if 0 <= k < len(v)]
    t.require(list(misc.all_except(x, *drop)) == [e for k, e in enumerate(v) if k not in drop], "all_except", "except")
    l = [dict(a=e, b=k % 2) for k, e in enumerate(v)]
    t.require(misc.list_of_dicts_unique(l, "a") == list(groups), "list_of_dicts_unique", "dicts")
    for key in set(u):
        t.require(misc.list_of_dicts_filter(l, ("a", key), ("b", 1)) == [e for e in l if e["a"] == key and e["b"] == 1], "list_of_dicts_filter", "dicts")
    kw, dv = {"p%d" % e: k for k, e in enumerate(v)}, {"p%d" % e: 100 + k for k, e in enumerate(u)}
    a, b, c, d = dict(kw), dict(kw), dict(kw), dict(kw)
    misc.set_defaults(a, dv)
    t.require(a == {**dv, **kw}, "set_defaults keeps what is given", "defaults")
    misc.set_defaults(b, dv, overwrite=True, func_get=lambda z: -z)
    t.require(b == {**kw, **{k: -z for k, z in dv.items()}}, "set_defaults with overwrite", "defaults")
    misc.set_if_none_from_tuples(c, *dv.items())
    for k, z in dv.items():
        misc.set_if_none(d, k, z)
    t.require(c == a and d == a, "set_if_none", "defaults")
    t.require(misc.from_dict(kw, "p1", "p0", "p9") == [kw.get("p1"), kw.get("p0"), None], "from_dict", "defaults")
    t.require(misc.filter_params(kw, "p-") == {k[2:]: z for k, z in kw.items() if k[:2] == "p-"}, "filter_params", "filter")
    t.require(misc.filter_params(kw, "p-", delete_prefix=False) == {k: z for k, z in kw.items() if k[:2] == "p-"}, "filter_params", "filter")
    if len(v) > 1 and u:
        M = [np.array([(e >> k) & 1 for k in range(3)], dtype=bool) for e in v]
        t.equal(misc.logical_op(np.logical_and, *M), np.all(M, axis=0), "logical_op and")
        t.equal(misc.logical_op(np.logical_or, *M), np.any(M, axis=0), "logical_op or")
        A = np.column_stack([v, np.arange(len(v))]).astype(float)
        t.require([[int(i) for i in e] for e in map(sorted, misc.get_duplicates(A[:, :1]))] == [groups[k] for k in sorted(groups) if len(groups[k]) > 1], "get_duplicates", "duplicates")
        rows = misc.unique_rows(A[:, :1] + 0.0)
        t.require(sorted(rows[:, 0]) == sorted(groups), "unique_rows", "rows")
        B = np.array(u, dtype=float)[:, None]
        got = misc.all_combinations(np.array(v, dtype=float)[:, None], B[:, 0])
        t.require([tuple(e) for e in got] == [(p, q) for p in v for q in u], "all_combinations", "combinations")
        x = np.array(v, dtype=float)
        x[x == 1] = np.nan
        y = misc.replace_nan_by(x, 9.0)
        t.require(list(y) == [9.0 if e == 1 else e for e in v] and np.isnan(x).sum() == v.count(1), "replace_nan_by works on a copy", "nan")
        misc.replace_nan_by(x, 9.0, inplace=True)
        t.equal(x, y, "replace_nan_by in place")
        F, CV = A[:, :1].copy(), np.maximum(0, np.array(u * len(v), dtype=float)[:len(v)])[:, None]
        got = misc.parameter_less(F, CV)
        t.equal(F, A[:, :1], "parameter_less works on a copy")
        want = [e if c <= 0 else max(v) + c for e, c in zip(v, CV[:, 0])]
        t.equal(got[:, 0], want, "parameter_less")
        t.require(all(got[i, 0] < got[j, 0] for i in range(len(v)) for j in range(len(v)) if CV[i, 0] <= 0 < CV[j, 0]), "an infeasible solution is not worse", "parameterless")
        t.equal(misc.parameter_less(F, CV, fmax=50.0)[:, 0], [e if c <= 0 else 50 + c for e, c in zip(v, CV[:, 0])], "parameter_less with a given maximum")
    M = np.array(u, dtype=float)
    one = misc.at_least_2d_array(M)
    t.require(one.shape == (1, len(u)) and misc.at_least_2d_array(M, extend_as="column").shape == (len(u), 1), "at_least_2d_array", "2d")
    t.require(misc.at_least_2d_array(one) is one and misc.at_least_2d_array(None) is None and misc.at_least_2d_array(3.0).shape == (1, 1), "at_least_2d_array", "2d")
    t.require(misc.at_least_2d_array(M, return_if_reshaped=True)[1] and not misc.at_least_2d_array(one, return_if_reshaped=True)[1], "return_if_reshaped", "2d")
    a, b = misc.at_least_2d(M, one)
    t.require(a.shape == b.shape == one.shape and misc.at_least_2d(M).shape == one.shape, "at_least_2d", "2d")
    t.require(list(misc.to_1d_array_if_possible(one)) == u and list(misc.to_1d_array_if_possible(one.T)) == u and misc.to_1d_array_if_possible(np.zeros((2, 3))).shape == (2, 3), "to_1d_array_if_possible", "1d")
    t.require(misc.stack(one, one).shape == (2, len(u)) and misc.stack(one, one, one, flatten=False).shape == (3, 1, len(u)), "stack", "stack")


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 8), d=st.integers(1, 6), p=st.sampled_from([0.0, 0.2, 0.5, 1.0]), s=gen.SEED)), quick=300, thorough=5000)
def masks(case, t):
    """mask based exchange, ensured selection, swaps, subsets"""
    n, d = case["n"], case["d"]
    r = np.random.RandomState(case["s"])
    X, M = r.randint(0, 4, (2, n, d)), r.random_sample((n, d)) < case["p"]
    t.nontrivial(n > 1 and M.any() and not M.all())
    X0, M0 = X.copy(), M.copy()
    Y = misc.crossover_mask(X, M)
    t.require(np.array_equal(X, X0) and np.array_equal(M, M0), "crossover_mask modified its input")
    for i in range(n):
        for j in range(d):
            t.require((Y[0, i, j], Y[1, i, j]) == ((X[1, i, j], X[0, i, j]) if M[i, j] else (X[0, i, j], X[1, i, j])), "values are exchanged exactly where the mask is true", "mask")
    R = misc.row_at_least_once_true(M.copy(), random_state=np.random.default_rng(case["s"]))
    for i in range(n):
        t.require(np.array_equal(R[i], M0[i]) if M0[i].any() else R[i].sum() == 1, "row_at_least_once_true", "once")
    k = max(n, 2)
    A = r.random_sample((k, d))
    B = A.copy()
    i, j = r.randint(k), r.randint(k)
    I = list(range(k))
    misc.swap(I, i, j)
    want = list(range(k))
    want[i], want[j] = j, i
    t.require(I == want, "swap", "swap")
    xl, w = r.randint(-3, 3, d), r.randint(1, 6, d)
    Z = xl + r.random_sample((n, d)) * w
    q = Problem(n_var=d, n_obj=1, xl=xl, xu=xl + w, vtype=int)
    got = misc.covert_to_type(q, Z)
    t.require(got.dtype.kind == "i" and np.all(np.abs(got - Z) <= 0.5) and np.all(got >= xl) and np.all(got <= xl + w), "conversion to integers", "convert")
    got = misc.covert_to_type(Problem(n_var=d, n_obj=1, xl=xl, xu=xl + w, vtype=float), Z)
    t.equal(got, Z, "conversion to floats")
    for spec, cls, val in ((("n_gen", n), MaximumGenerationTermination, n), (("n_eval", d), MaximumFunctionCallTermination, d)):
        term = misc.termination_from_tuple(spec)
        t.require(isinstance(term, cls) and val in (getattr(term, "n_max_gen", None), getattr(term, "n_max_evals", None)), "termination_from_tuple", "termination")
        t.require(misc.termination_from_tuple(term) is term and misc.termination_from_tuple(None) is None, "termination_from_tuple keeps terminations", "termination")
    t.require(isinstance(misc.termination_from_tuple("soo"), Termination), "termination_from_tuple of a name", "termination")
    del A, B


# ------------------------------------------------------------------------------------------------- windows, caches, sorting


@P.check(st.fixed_dictionaries(dict(size=st.sampled_from([None, 1, 2, 3, 5]), ops=st.lists(st.sampled_from(["add"] * 6 + ["clear"]), max_size=20))), quick=300, thorough=5000)
def window(case, t):
    """a sliding window against a list"""
    w, model, size = SlidingWindow(case["size"]), [], case["size"]
    for k, op in enumerate(case["ops"]):
        if op == "add":
            w.append(k)
            model = (model + [k]) if size is None else (model + [k])[-size:]
        else:
            w.clear()
            model = []
        t.require(list(w) == model and list(w.to_numpy()) == model, "the window holds the last entries", "window")
        t.require(bool(w.is_full()) == (size is not None and len(model) == size), "is_full", "full")
    t.nontrivial(size is not None and case["ops"].count("add") > size)


class Cached:
    def __init__(self):
        self.calls = 0

    @Cache
    def a(self, x=0):
        self.calls += 1
        return ("a", x, self.calls)

    @Cache
    def b(self):
        self.calls += 1
        return None


@P.check(st.lists(st.tuples(st.integers(0, 1), st.sampled_from("ab"), st.booleans(), st.booleans(), st.integers(0, 3)), max_size=12), quick=300, thorough=5000)
def cache(ops, t):
    """cached results belong to the object and method they were computed for"""
    objs, memory, calls = [Cached(), Cached()], [{}, {}], [0, 0]
    t.nontrivial(len(ops) > 3)
    for o, f, use, keep, x in ops:
        args = (x,) if f == "a" else ()
        got = getattr(objs[o], f)(*args, use_cache=use, set_cache=keep)
        if use and f in memory[o]:
            want = memory[o][f]
        else:
            calls[o] += 1
            want = ("a", x, calls[o]) if f == "a" else None
            if keep:
                memory[o][f] = want
        t.require(got == want, "value remembered from the first call", "cache")
        t.require(objs[o].calls == calls[o], "the function has been called again (or not at all)", "calls")


@P.check(st.fixed_dictionaries(dict(v=st.lists(st.integers(0, 4), min_size=1, max_size=12), order=st.sampled_from(["ascending", "descending"]), method=st.sampled_from(["numpy", "quicksort"]), s=gen.SEED)), quick=450, thorough=10000)
def argsort(case, t):
    """randomized sorting: sorted, ties in random order, determined by the random state"""
    v = np.array(case["v"], dtype=float)
    t.nontrivial(len(set(case["v"])) < len(v))
    v0 = v.copy()
    I = randomized_argsort(v, method=case["method"], order=case["order"], random_state=np.random.default_rng(case["s"]))
    t.require(np.array_equal(v, v0), "values modified")
    t.require(sorted(int(i) for i in I) == list(range(len(v))), "the indices are not a permutation", "permutation")
    s = v[I] if case["order"] == "ascending" else v[I][::-1]
    t.require(bool(np.all(np.diff(s) >= 0)), "not sorted", "sorted")
    if case["method"] == "numpy":
        t.equal(randomized_argsort(v, method="numpy", order=case["order"], random_state=np.random.default_rng(case["s"])), I, "same seed, same order")
        if len(v) <= 4 and len(set(case["v"])) == 1 and len(v) > 1:
            g = np.random.default_rng(case["s"])
            first = [int(randomized_argsort(v, order=case["order"], random_state=g)[0]) for _ in range(400)]
            t.require(set(first) == set(range(len(v))), "ties are not broken randomly", "ties")


@P.check(st.fixed_dictionaries(dict(v=st.lists(st.sampled_from([0, 1, 1, 2, 3, 10]), min_size=1, max_size=6), larger=st.booleans(), s=gen.SEED)), quick=180, thorough=3000)
def roulette(case, t):
    """roulette selection in proportion to fitness"""
    v = np.array(case["v"], dtype=float)
    p = v if case["larger"] else v.max() - v
    if p.sum() <= 0:
        return
    p = p / p.sum()
    t.nontrivial(len(set(case["v"])) > 1)
    wheel, g, N = RouletteWheelSelection(v.copy(), larger_is_better=case["larger"]), np.random.default_rng(case["s"]), 4000
    I = np.asarray(wheel.next(N, random_state=g))
    t.require(I.shape == (N,) and I.min() >= 0 and I.max() < len(v), "selected indices", "range")
    count = np.bincount(I.astype(int), minlength=len(v))
    for k in range(len(v)):
        sd = np.sqrt(N * p[k] * (1 - p[k]))
        t.require(abs(count[k] - N * p[k]) <= 7 * sd + 1e-9, "value %s of %s selected %s times out of %s" % (v[k], list(v), count[k], N), "frequency")
    one = wheel.next(random_state=g)
    t.require(np.ndim(one) == 0 and p[one] > 0, "single selection", "single")


# -------------------------------------------------------------------------------------------------------------- recorders


class WithFront(Problem):
    """delegates to a generated problem, front as given (None: unknown, "error": fails)"""

    def __init__(self, inner, front):
        super().__init__(n_var=inner.n_var, n_obj=inner.n_obj, n_ieq_constr=inner.n_ieq_constr, n_eq_constr=inner.n_eq_constr, xl=inner.xl, xu=inner.xu)
        self.inner, self.front = inner, front

    def _evaluate(self, X, out, *args, **kwargs):
        for k, v in self.inner.evaluate(X, return_values_of=["F", "G", "H"], return_as_dictionary=True).items():
            out[k] = v

    def _calc_pareto_front(self, *args, **kwargs):
        if isinstance(self.front, str):
            raise Exception("no front")
        return self.front


class Count(Recorder):
    def save(self, algorithm):
        return dict(n_eval=algorithm.evaluator.n_eval, n_gen=algorithm.n_gen, F=[list(e.F) for e in algorithm.opt], cv=[float(e.CV[0]) for e in algorithm.opt], feas=[bool(np.all(e.FEAS)) for e in algorithm.opt])


RUN = algos.run_spec(("nsga2", "ga", "de", "spea2", "pso", "age", "nelder"), gens=(2, 8))


@P.check(st.fixed_dictionaries(dict(r=RUN, nth=st.sampled_from([None, 1, 7, 10, 25, 100]), front=st.sampled_from(["given", "given", "none", "error"]), s=gen.SEED)), quick=360, thorough=10000, shards=(8, 8))
def recorders(case, t):
    """default and running recorders against the course of generated runs"""
    spec = case["r"]
    inner = algos.mk_problem(spec["p"], spec["algo"])
    r = np.random.RandomState(case["s"])
    front = {"given": np.unique(np.round(r.random_sample((5, inner.n_obj)) * 4 - 2, 2), axis=0), "none": None, "error": "error"}[case["front"]]
    prob = WithFront(inner, front)
    cls = DefaultMultiObjectiveRecorder if inner.n_obj > 1 else DefaultSingleObjectiveRecorder
    every, some, rec = Count(), Count(nth_evals=case["nth"]), cls(nth_evals=case["nth"])
    inner.key = id(inner)
    algos.Rec.LOGS[inner.key] = []
    try:
        minimize(prob, algos.mk_algo(spec), ("n_gen", spec["gens"]), seed=spec["seed"], callback=CallbackCollection(every, some, rec))
    finally:
        del algos.Rec.LOGS[inner.key]
    log = every.data
    t.nontrivial(len(log) >= 3)
    t.require([e["n_gen"] for e in log] == list(range(1, len(log) + 1)), "one entry per generation", "each")
    want, due = [], 0
    for e in log:
        if case["nth"] is None or e["n_eval"] >= due:
            want.append(e)
            if case["nth"]:
                due = (e["n_eval"] // case["nth"] + 1) * case["nth"]
    t.require(some.data == want, "recorded after %s evaluations, not after %s (every %s)" % ([e["n_eval"] for e in some.data], [e["n_eval"] for e in want], case["nth"]), "nth")
    t.require(len(rec.data) == len(want), "number of records", "nth")
    n_eval, cv = rec.get("n_evals", "cv")
    t.equal(list(n_eval), [e["n_eval"] for e in want], "evaluations recorded")
    t.close(np.array(cv, dtype=float), np.array([min(e["cv"]) for e in want]), "violation recorded", rtol=1e-12, atol=0)
    for k, e in enumerate(want):
        F = np.array([f for f, ok in zip(e["F"], e["feas"]) if ok])
        if inner.n_obj == 1:
            f = F.min() if len(F) else np.inf
            t.require(rec.data[k]["f"] == f, "objective recorded %s, not %s" % (rec.data[k]["f"], f), "f")
            gap = f - front.min() if case["front"] == "given" else np.inf
            t.require(rec.data[k]["fgap"] == gap, "gap recorded %s, not %s" % (rec.data[k]["fgap"], gap), "gap")
        elif len(F) == 0 or case["front"] != "given":
            t.require(rec.data[k]["igd"] == np.inf and rec.data[k]["igd+"] == np.inf, "an unknown distance is not infinite", "igd")
        else:
            lo, hi = front.min(axis=0), front.max(axis=0)
            w = np.where(hi > lo, hi - lo, 1.0)
            f, z = (F - lo) / w, (front - lo) / w
            igd = np.mean([min(np.sqrt(((a - b) ** 2).sum()) for b in f) for a in z])
            plus = np.mean([min(np.sqrt((np.maximum(b - a, 0) ** 2).sum()) for b in f) for a in z])
            t.close(rec.data[k]["igd"], igd, "distance recorded", rtol=1e-9, atol=1e-9)
            t.close(rec.data[k]["igd+"], plus, "distance recorded (plus)", rtol=1e-9, atol=1e-9)
    lists = rec.get("n_evals", as_array=False)[0]
    t.require(isinstance(lists, list) and lists == [e["n_eval"] for e in want], "values as list", "list")


class At:
    """what a recorder needs of an algorithm"""

    def __init__(self, n_eval):
        self.evaluator, self.n_gen, self.opt = Evaluator(), 1, []
        self.evaluator.n_eval = n_eval


@P.check(st.fixed_dictionaries(dict(steps=st.lists(st.one_of(st.integers(0, 5), st.integers(1, 60)), min_size=3, max_size=25), nth=st.one_of(st.none(), st.integers(1, 30)))), quick=300, thorough=5000)
def cadence(case, t):
    """every n-th evaluation is recorded, however many evaluations the iterations take"""
    n = np.cumsum(case["steps"]).tolist()
    nth = case["nth"]
    t.nontrivial(nth is not None and min(case["steps"]) < nth < max(case["steps"]))
    rec = Count(nth_evals=nth)
    for e in n:
        rec.notify(At(e))
    # an iteration is recorded if it is the first one or the first one in its block of n evaluations
    want = [e for k, e in enumerate(n) if nth is None or k == 0 or e // nth > n[k - 1] // nth]
    t.require([d["n_eval"] for d in rec.data] == want, lambda: f"recorded after {[d['n_eval'] for d in rec.data]} evaluations of {n}, not after {want} (every {nth})", "nth")
