"""P18: an archive holds exactly the best solutions it has been shown, within its size."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from pymoo.core.population import Population
from pymoo.core.problem import Problem
from pymoo.operators.survival.rank_and_crowding import RankAndCrowding
from pymoo.util.archive import Archive, MultiObjectiveArchive, SingleObjectiveArchive, SurvivalTruncation, VoidArchive, default_archive
from vp import algos, gen, ref
from vp.core import Prop

P = Prop("P18", "some addition removes a member or rejects a candidate", ["objective and constraint values are finite"])

OPS = st.lists(st.one_of(
    st.tuples(st.just("add"), st.integers(1, 12), gen.SEED),
    st.tuples(st.just("again"), st.integers(0, 5), gen.SEED),
    st.tuples(st.sampled_from(["copy", "deepcopy", "pickle", "slice", "mask", "view"]), st.just(0), gen.SEED),
), min_size=1, max_size=8)

CFG = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["multi", "multi", "multi-rac", "multi-nodup", "single", "default", "default", "unlimited"]),
    m=st.integers(1, 3), max_size=st.integers(1, 12), trunc=st.integers(1, 12),
    infeas=st.sampled_from([0.0, 0.0, 0.5, 0.9, 1.0]), ops=OPS, levels=st.integers(2, 8), shape=st.sampled_from(["mixed", "front", "front", "step"])))


def Dummy(m):
    return Problem(n_var=2, n_obj=m, n_ieq_constr=1, xl=0, xu=20)


def mk_archive(case):
    k, m = case["kind"], case["m"]
    ms, ts = case["max_size"], case["trunc"]
    if k == "single":
        return SingleObjectiveArchive(max_size=ms), 1, ms, ms, True
    m = max(2, m)
    if k == "multi":
        return MultiObjectiveArchive(max_size=ms, truncate_size=ts), m, ms, min(ms, ts), True
    if k == "multi-rac":
        return MultiObjectiveArchive(max_size=ms, truncate_size=ts, truncation=SurvivalTruncation(RankAndCrowding(), problem=Dummy(m))), m, ms, min(ms, ts), True
    if k == "multi-nodup":
        return MultiObjectiveArchive(max_size=ms, truncate_size=ts, duplicate_elimination=None), m, ms, min(ms, ts), False
    if k == "unlimited":
        return MultiObjectiveArchive(max_size=None, truncate_size=None), m, None, None, True
    m = case["m"]
    if m == 1:
        return default_archive(Dummy(1), max_size=ms), 1, ms, ms, True
    return default_archive(Dummy(m), max_size=ms, truncate_size=ts), m, ms, min(ms, ts), True


def batch(case, m, k, seed):
    r = gen.rng(seed)
    n = case["levels"]
    X = r.integers(0, n, size=(k, 2)).astype(float)
    # the objective values are a function of the variables (equal points have equal values)
    Z = np.column_stack([X[:, 0], X[:, 1]])
    F = np.array([[((z[0] * (j + 2) + z[1] * (3 * j + 1) + z[0] * z[1] * (j + 1)) % (n + 1 + j)) for j in range(m)] for z in Z], dtype=float)
    if case["shape"] != "mixed":  # nobody dominates anybody, or only few do
        a = X[:, 0] * n + X[:, 1]
        if case["shape"] == "step":
            a = np.floor(a / 3)
        F = np.column_stack([a, -a, a % 3][:m]) if m > 1 else np.floor(a[:, None] / (3 * n))
    bad = ((Z[:, 0] * 7 + Z[:, 1] * 3) % 10) / 10.0 < case["infeas"]
    G = np.where(bad, 1.0 + (Z[:, 0] + Z[:, 1]) % 3, -1.0)[:, None]
    return Population.new(X=X, F=F, G=G)


def best(sols):
    """the solutions a perfect archive would keep"""
    feas = [s for s in sols if s.feas]
    if feas:
        F = np.array([s.F for s in feas])
        return [feas[i] for i in ref.nondominated(F)]
    m = min(s.CV[0] for s in sols)
    return [s for s in sols if s.CV[0] == m]


def rows(sols):
    return sorted(tuple(s.X) for s in sols)


def uniq(sols):
    out = {}
    for s in sols:
        out.setdefault(tuple(s.X), s)
    return list(out.values())


@P.check(CFG, quick=500, thorough=8000, shards=(2, 8))
def histories(case, t):
    """any history of additions, copies, pickles and truncations against a reference archive"""
    arch, m, ms, ts, dedup = mk_archive(case)
    kept, shown, truncated = [], [], False  # kept: what it must hold as long as it was never truncated
    for op, k, s in case["ops"]:
        if op in ("add", "again"):
            sols = batch(case, m, k + 1, s) if op == "add" or not shown else Population.create(*[shown[(s + i) % len(shown)] for i in range(k + 1)])
            before, old = list(arch), arch
            vals = [(i, np.array(i.X), np.array(i.F), np.array(i.G)) for i in sols]
            given = list(sols)
            arch = old.add(sols)
            t.require(isinstance(arch, type(old)), f"add returned a {type(arch).__name__}")
            t.require([id(i) for i in old] == [id(i) for i in before], "add changed the archive it was called on")
            t.require([id(i) for i in sols] == [id(i) for i in given], "add changed the given population")
            for i, X, F, G in vals:
                t.require(np.array_equal(i.X, X) and np.array_equal(i.F, F) and np.array_equal(i.G, G), "add changed an individual")
            pool = before + given
            shown += given
            ids = {id(i) for i in pool}
            t.require(all(id(i) in ids for i in arch), "the archive holds an individual nobody gave it")
            cand = best(pool)
            size = len(uniq(cand)) if dedup else len(cand)
            if ms is not None and size > ms:
                truncated = True
                t.require(len(arch) == ts, lambda: f"{len(arch)} members after a truncation to {ts}")
                have = {tuple(c.X) for c in cand}
                t.require(all(tuple(i.X) in have for i in arch), "a truncated archive keeps a solution that is not among the best")
            else:
                want = rows(uniq(cand) if dedup else cand)
                t.require(rows(arch) == want, lambda: f"archive {rows(arch)} expected {want}")
            t.nontrivial(len(arch) < len(pool))
            # and without any reference to the pool
            if dedup:
                t.require(len({tuple(i.X) for i in arch}) == len(arch), "the archive holds duplicates")
            if any(i.feas for i in shown):
                t.require(all(i.feas for i in arch), "infeasible member although a feasible solution was given")
            if arch[0].feas:
                A = np.array([i.F for i in arch])
                t.require(len(ref.nondominated(A)) == len(A), "members dominate each other")
                if m == 1:
                    t.require(A.min() == min(i.F[0] for i in shown if i.feas), "the best solution is not in the archive")
                if not truncated:
                    D = ref.dom_matrix(np.array([i.F for i in shown if i.feas]), A)
                    t.require(not D.any(), "a member is dominated by a solution given before")
            else:
                t.require(all(i.CV[0] == min(j.CV[0] for j in shown) for i in arch), "not the least infeasible solutions")
        elif len(arch) > 0:
            ids = [id(i) for i in arch]
            if op == "copy":
                arch = copy.copy(arch)
                t.require([id(i) for i in arch] == ids, "copy holds other individuals")
            elif op == "deepcopy":
                new = copy.deepcopy(arch)
                t.require(rows(new) == rows(arch) and not set(map(id, new)) & set(ids), "deep copy is not a copy of the individuals")
                arch = new
            elif op == "pickle":
                new = pickle.loads(pickle.dumps(arch))
                t.require(rows(new) == rows(arch), "a pickled archive has other members")
                arch = new
            elif op == "slice":
                j = s % len(arch)
                t.require([id(i) for i in arch[j:]] == ids[j:], "slice")
            elif op == "mask":
                M = np.arange(len(arch)) % 2 == s % 2
                t.require([id(i) for i in arch[M]] == [i for i, b in zip(ids, M) if b], "mask")
            elif op == "view":
                t.require(np.array_equal(arch.get("F"), [i.F for i in arch]), "get")


@P.check(st.fixed_dictionaries(dict(n=st.integers(1, 6), s=gen.SEED)), quick=30, thorough=200)
def void(case, t):
    """an archive that keeps nothing"""
    a = VoidArchive()
    b = a.add(Population.new(X=gen.rng(case["s"]).random((case["n"], 2))))
    t.nontrivial(case["n"] > 0)
    t.require(b is a and len(b) == 0, "a void archive kept something")


NAMES = [n for n in algos.ALGOS if n not in ("dnsga2", "dnsga2b", "kgb", "mopso_cd")]


@P.check(st.fixed_dictionaries(dict(r=algos.run_spec(NAMES), size=st.sampled_from([None, 5, 30]))), quick=240, thorough=4000, shards=(8, 8))
def in_runs(case, t):
    """the archive of a run against the log of everything that was evaluated"""
    spec, size = case["r"], case["size"]
    prob = algos.mk_problem(spec["p"], spec["algo"])
    cls = SingleObjectiveArchive if prob.n_obj == 1 else MultiObjectiveArchive
    arch = cls(max_size=size) if prob.n_obj == 1 else cls(max_size=size, truncate_size=size)
    res, trace, log, _ = algos.run(spec, problem=prob, setup=dict(archive=arch))
    t.require(len(arch) == 0, "the run changed the archive object it was configured with")
    X = np.concatenate(log)
    F, G, H = prob.values(X)
    pop = Population.new(X=X, F=F, G=G, H=H)
    t.require(res.archive is not None and len(res.archive) > 0, "no archive in the result")
    want = uniq(best(list(pop)))
    t.nontrivial(len(want) < len(X))
    got = res.archive
    bX = {tuple(w.X) for w in want}
    if size is None or len(want) <= size and all(len(uniq(best(list(pop[:k])))) <= size for k in np.cumsum([len(b) for b in log])):
        t.require({tuple(i.X) for i in got} == bX and len(got) == len(bX), lambda: f"{spec['algo']}: archive holds {len(got)} solutions, the best of all {len(X)} evaluated are {len(bX)}: {sorted(bX)[:5]} vs {rows(got)[:5]}")
    else:
        t.require(len(got) <= size, f"{len(got)} members, at most {size} allowed")
        A = np.array([i.F for i in got])
        if any(i.feas for i in pop):
            t.require(all(i.feas for i in got), "infeasible member")
            t.require(len(ref.nondominated(A)) == len(A), "members dominate each other")
