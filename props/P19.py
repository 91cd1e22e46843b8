"""P19: what a run reports is true: evaluated points with their values, feasible and non-dominated."""
import numpy as np
from hypothesis import strategies as st

from pymoo.core.population import Population
from pymoo.util.optimum import filter_optimum
from vp import algos, gen, ref
from vp.core import Prop

P = Prop("P19", "the final population holds several solutions of different quality (objective values or violations)", ["objective and constraint values are finite and a function of the variables"])

# the optimum holds every non-dominated feasible member of the final population
COMPLETE = {"nsga2", "dnsga2", "dnsga2b", "kgb", "sms", "spea2", "age", "age2", "moead", "pmoead", "nsde", "nsde-exp", "gde3", "gde3mnn", "gde32nn", "gde3pcd", "cmopso"}


def values(prob, X):
    F, G, H = prob.values(X)
    cv = np.maximum(G, 0.0).sum(axis=1) + np.maximum(np.abs(H) - 1e-4, 0.0).sum(axis=1)
    return F, G, H, cv


def check_members(t, prob, pop, known, what):
    if pop is None or len(pop) == 0:
        return
    X = np.array([p["X"] for p in pop])
    F, G, H, cv = values(prob, X)
    for i, p in enumerate(pop):
        t.require(X[i].tobytes() in known, lambda: f"{what}: {X[i].tolist()} was never evaluated")
        t.require(np.array_equal(p["F"], F[i]) and np.array_equal(p["G"], G[i]) and np.array_equal(p["H"], H[i]),
                  lambda: f"{what}: {X[i].tolist()} carries F={p['F'].tolist()} G={p['G'].tolist()} H={p['H'].tolist()}, the problem says {F[i].tolist()} {G[i].tolist()} {H[i].tolist()}")
        t.require(abs(p["CV"] - cv[i]) <= 1e-9 * max(1.0, cv[i]), lambda: f"{what}: violation {p['CV']}, expected {cv[i]}")
        t.require(p["feas"] == (cv[i] <= 0), f"{what}: feasibility")


# by design: one optimum per niche; epsilon-dominance
NICHES, EPSILON = {"nichega"}, {"omni"}


def check_opt(t, name, pop, opt, what):
    """opt and pop are snapshots"""
    if name in NICHES:
        best = min((p["CV"], p["F"][0]) if not p["feas"] else (0.0, p["F"][0]) for p in pop)
        t.require(any(((p["CV"], p["F"][0]) if not p["feas"] else (0.0, p["F"][0])) == best for p in opt), f"{what}: the best of the population is not in the optimum")
        return
    t.require(opt is not None and len(opt) > 0, f"{what}: no optimum")
    feas = [p for p in pop if p["feas"]]
    if feas or any(p["feas"] for p in opt):
        t.require(all(p["feas"] for p in opt), f"{what}: the optimum holds an infeasible solution although feasible ones are known")
        A = np.array([p["F"] for p in opt])
        B = np.array([p["F"] for p in feas]).reshape(len(feas), A.shape[1])
        if name in EPSILON:
            return
        t.require(len(ref.nondominated(A)) == len(A), lambda: f"{what}: members of the optimum dominate each other: {A.tolist()}", "opt-dominates-itself:" + name)
        t.require(not ref.dom_matrix(B, A).any(), lambda: f"{what}: the population holds a solution that dominates the optimum: {A.tolist()} vs {B.tolist()}", "pop-dominates-opt:" + name)
    else:
        m = min(p["CV"] for p in pop)
        t.require(all(p["CV"] <= m + 1e-12 for p in opt), lambda: f"{what}: violation {[p['CV'] for p in opt]} in the optimum, {m} in the population")


SPEC = algos.run_spec(kinds=("free", "con", "con", "eq", "hard", "eqonly", "eqstep"))


@P.check(st.fixed_dictionaries(dict(r=SPEC, least=st.booleans())), quick=640, thorough=8000, shards=(8, 8))
def runs(case, t):
    """whole runs: every reported solution was evaluated, has the values of its variables, and opt/result/pop/history agree"""
    spec = case["r"]
    name = spec["algo"]
    res, rows, log, prob = algos.run(spec, setup=dict(return_least_infeasible=case["least"]))
    known = {x.tobytes() for b in log for x in b}
    for k, row in enumerate(rows):
        check_members(t, prob, row["pop"], known, f"{name}: population of iteration {k + 1}")
        check_members(t, prob, row["opt"], known, f"{name}: optimum of iteration {k + 1}")
        if row["opt"] is not None:
            check_opt(t, name, row["pop"], row["opt"], f"{name}: iteration {k + 1}")
    pop = algos.snap(res.pop)
    check_members(t, prob, pop, known, f"{name}: res.pop")
    t.nontrivial(len({(tuple(p["F"]), p["CV"]) for p in pop}) > 1)
    opt = res.algorithm.opt
    snap = algos.snap(opt)
    check_members(t, prob, snap, known, f"{name}: opt")
    check_opt(t, name, pop, snap, name)
    feasible = any(p["feas"] for p in snap)
    t.require(res.success == feasible, f"{name}: success={res.success}, feasible solution found: {feasible}")
    t.require(isinstance(res.message, str) and res.problem is prob, "message or problem")
    if not feasible and not case["least"]:
        t.require(res.opt is None and res.X is None and res.F is None and res.G is None and res.H is None and res.CV is None,
                  f"{name}: infeasible solution reported although not asked for")
        return
    t.require(res.opt is not None and len(res.opt) > 0, f"{name}: nothing reported")
    if not feasible:
        t.require(len(res.opt) == 1, "more than one least infeasible solution")
    X, F, G, H, CV = (np.asarray(e, dtype=float) for e in (res.X, res.F, res.G, res.H, res.CV))
    if prob.n_obj == 1 and len(res.opt) == 1:
        t.require(X.shape == (prob.n_var,) and F.shape == (1,) and CV.shape == (1,) and G.shape == (prob.n_ieq_constr,), f"{name}: shapes {X.shape} {F.shape}")
        X, F, G, H, CV = X[None], F[None], G[None], H[None], CV[None]
    t.require(len(X) == len(res.opt), lambda: f"{name}: {len(X)} solutions in res.X, {len(res.opt)} in res.opt")
    for v, k in ((X, "X"), (F, "F"), (G, "G"), (H, "H"), (CV, "CV")):
        t.equal(v, res.opt.get(k).astype(float).reshape(v.shape), f"{name}: res.{k} is not res.opt's")
    eF, eG, eH, ecv = values(prob, X)
    t.equal(F, eF, f"{name}: res.F of res.X")
    t.equal(G, eG, f"{name}: res.G of res.X")
    t.equal(H, eH, f"{name}: res.H of res.X")
    if name in COMPLETE and feasible:
        fe = [p for p in pop if p["feas"]]
        nd = {tuple(fe[i]["X"]) for i in ref.nondominated([p["F"] for p in fe])}
        t.require(nd <= {tuple(x) for x in X}, lambda: f"{name}: non-dominated member(s) {sorted(nd - {tuple(x) for x in X})} of the population missing in the result")
    if prob.n_obj == 1 and feasible:
        t.require(F.min() <= min([p["F"][0] for p in pop if p["feas"]] + [np.inf]), f"{name}: the population holds a better solution")


@P.check(st.fixed_dictionaries(dict(n=st.integers(0, 12), m=st.integers(1, 3), infeas=st.sampled_from([0.0, 0.5, 1.0]), least=st.booleans(), s=gen.SEED)),
         quick=300, thorough=5000)
def filter_opt(case, t):
    """filter_optimum on populations of any feasibility against the definition"""
    r = gen.rng(case["s"])
    n, m = case["n"], case["m"]
    F = r.integers(0, 4, size=(n, m)).astype(float)
    G = np.where(r.random(n) < case["infeas"], r.integers(1, 4, size=n), -1)[:, None].astype(float)
    pop = Population.new(X=r.random((n, 2)), F=F, G=G) if n else Population.empty()
    ids = [id(i) for i in pop]
    got = filter_optimum(pop, least_infeasible=case["least"])
    t.require([id(i) for i in pop] == ids, "the population was changed")
    feas = np.where(G[:, 0] <= 0)[0]
    t.nontrivial(0 < len(feas) < n)
    if n == 0 or (len(feas) == 0 and not case["least"]):
        t.require(got is None, "an optimum although there is none")
    elif len(feas) == 0:
        t.require(len(got) == 1 and id(got[0]) in ids and got[0].CV[0] == G.min(), "not a least infeasible one")
    elif m == 1:
        t.require(len(got) == 1 and got[0].feas and got[0].F[0] == F[feas].min(), "not the best feasible one")
    else:
        want = [ids[feas[i]] for i in ref.nondominated(F[feas])]
        t.require(sorted(id(i) for i in got) == sorted(want), "not exactly the feasible non-dominated ones")
