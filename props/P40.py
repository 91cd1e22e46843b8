"""P40: populations evolve as the multi-objective (and genetic) methods prescribe, generation by generation."""
import numpy as np
from hypothesis import strategies as st

from pymoo.algorithms.moo.cmopso import CMOPSO
from pymoo.algorithms.moo.gde3 import GDE3
from pymoo.algorithms.moo.moead import MOEAD, ParallelMOEAD
from pymoo.algorithms.moo.mopso_cd import MOPSO_CD
from pymoo.algorithms.moo.nsde import NSDE
from pymoo.algorithms.moo.nsga2 import NSGA2
from pymoo.algorithms.moo.rvea import RVEA
from pymoo.algorithms.moo.sms import SMSEMOA, LeastHypervolumeContributionSurvival
from pymoo.core.crossover import Crossover
from pymoo.core.individual import Individual
from pymoo.core.mutation import Mutation
from pymoo.util.ref_dirs import get_reference_directions
from vp import algos, gen, hv, ref
from vp.core import Prop

P = Prop("P40", "at least two generations, in which some offspring survive and some do not", ["values are finite"])

PROBLEM = algos.problem_spec(("free", "free", "con", "eq", "hard"))


class Driver:
    """drives an algorithm from outside, keeps what was evaluated in each iteration"""

    def __init__(self, alg, problem, seed, termination=("n_gen", 10 ** 6)):
        self.alg, self.problem = alg, problem
        alg.setup(problem, termination=termination, seed=seed)

    def ask(self):
        off = self.alg.infill()
        if off is not None:
            self.alg.evaluator.eval(self.problem, off)
        self.off = off
        return [] if off is None else [off] if isinstance(off, Individual) else list(off)

    def tell(self):
        self.alg.advance(infills=self.off)


def cv_of(e):
    return float(e.CV[0])


def classes(pop):
    """what counts before everything else: feasible solutions by their front, infeasible ones by their violation"""
    cv = np.array([cv_of(e) for e in pop])
    out = [None] * len(pop)
    I = np.where(cv <= 0)[0]
    if len(I):
        rk = ref.ranks(np.array([pop[i].F for i in I]))
        for i, k in zip(I, rk):
            out[i] = (0, float(k))
    for i in np.where(cv > 0)[0]:
        out[i] = (1, float(cv[i]))
    return out


# ---------------------------------------------------------------------------------------------------------- generations


class Blend(Crossover):
    """offspring between their parents; what went in and came out is remembered"""

    def __init__(self, n_parents=2, n_offsprings=2):
        super().__init__(n_parents, n_offsprings, prob=1.0)
        self.ins, self.outs = [], []

    def _do(self, problem, X, *args, random_state=None, **kwargs):
        self.ins.append(np.array(X))
        w = random_state.random((self.n_offsprings,) + X.shape[1:])
        Y = w * X[0] + (1 - w) * X[-1]
        self.outs.append(Y.copy())
        return Y


class Shake(Mutation):
    """a mutation that remembers what it was given and what it made of it"""

    def __init__(self):
        super().__init__(prob=1.0)
        self.ins, self.outs = [], []

    def _do(self, problem, X, *args, random_state=None, **kwargs):
        self.ins.append(np.array(X))
        r = random_state.random(X.shape)
        Y = np.clip(X + 0.2 * (r - 0.5) * (problem.xu - problem.xl), problem.xl, problem.xu)
        self.outs.append(Y.copy())
        return Y


GENETIC = ["nsga2", "nsga3", "unsga3", "rnsga2", "rnsga3", "age", "age2", "ctaea", "rvea", "sms", "spea2", "omni", "ga", "ga1", "nichega"]
SORTED = {"nsga2", "ga", "ga1"}  # the survivors follow from classes alone (up to the front that has to be split)
FRONTS = {"nsga2", "nsga3", "unsga3", "rnsga2", "age", "age2", "sms"}


def rows(A):
    return {tuple(x) for x in np.asarray(A, dtype=float).reshape(-1, np.shape(A)[-1]).tolist()}


@P.check(st.fixed_dictionaries(dict(algo=st.sampled_from(GENETIC), n=st.integers(6, 14), p=PROBLEM, gens=st.integers(2, 7), n_off=st.sampled_from([None, None, 1, 3, 20]), np=st.sampled_from([2, 2, 3]), no=st.integers(1, 3), seed=st.integers(0, 1000))), quick=240, thorough=5000, shards=(4, 8))
def generations(case, t):
    """offspring are made of members of the population; the next one consists of the best of both"""
    name = case["algo"]
    prob = algos.mk_problem(case["p"], name)
    cross, mut = Blend(case["np"], case["no"]), Shake()
    kw = dict(crossover=cross, mutation=mut)
    if case["n_off"] is not None and name not in ("ga1", "ctaea"):
        kw["n_offsprings"] = case["n_off"]
    alg = algos.mk_algo(dict(algo=name, n=case["n"], p=case["p"]), **kw)
    d = Driver(alg, prob, case["seed"], termination=("n_gen", case["gens"] + 3))
    first = d.ask()
    d.tell()
    N = alg.pop_size
    n_off = 1 if name == "ga1" else kw.get("n_offsprings", alg.n_offsprings)
    t.require(len(first) == N, f"{name}: {len(first)} initial solutions, expected {N}")
    came = went = 0
    for g in range(case["gens"]):
        old = list(alg.pop)
        pool = old + ([] if name != "ctaea" else list(alg.da))
        t.require(len({id(e) for e in old}) == len(old), f"{name}: a solution twice in the population")
        del cross.ins[:], cross.outs[:], mut.ins[:], mut.outs[:]
        new = d.ask()
        if not new:
            return
        X = rows([e.X for e in pool])
        for A in cross.ins:
            t.require(rows(A) <= X, f"{name}: a parent is not a member of the population", "parents")
        Y = set().union(*[rows(A) for A in mut.outs]) if mut.outs else set()
        t.require(rows([e.X for e in new]) <= Y, f"{name}: an offspring that was not made by the operators", "operators")
        t.require(all(rows(B) <= rows(A) for A, B in zip(cross.outs, mut.ins)) and len(cross.outs) == len(mut.ins), f"{name}: the mutation was not given the offspring of the crossover", "operators")
        t.require(len(new) <= n_off, f"{name}: {len(new)} offspring, {n_off} asked for", "number")
        if len(Y) >= n_off and case["no"] == 1 and len(cross.outs) == 1:
            t.require(len(new) == n_off or len(Y) < n_off, f"{name}: {len(new)} offspring, {n_off} asked for and created", "number")
        d.tell()
        now = list(alg.pop)
        if name == "nichega":
            t.require({id(e) for e in alg.opt} == {id(e) for e in now if e.get("iter") == 1}, "nichega: the optimum is not what was selected in the first round, one solution per niche", "optimum")
        both = old + new
        ids = {id(e) for e in both}
        t.require(len({id(e) for e in now}) == len(now), f"{name}: a solution twice in the population")
        if name != "ctaea":
            t.require(all(id(e) in ids for e in now), f"{name}: a member comes neither from the population nor the offspring", "members")
        want = min(N, len(both))
        if name == "rvea":
            t.require(0 < len(now) <= want, f"{name}: {len(now)} members")
        elif name == "ctaea":
            t.require(len(now) == len(alg.ref_dirs), f"{name}: {len(now)} members")
        else:
            t.require(len(now) == want, f"{name}: {len(now)} members, expected {want}", "size")
        if name == "ctaea":
            continue
        kept = {id(e) for e in now}
        C = classes(both)
        inn = [c for e, c in zip(both, C) if id(e) in kept]
        out = [c for e, c in zip(both, C) if id(e) not in kept]
        came += sum(id(e) in kept for e in new)
        went += len(out)
        if not out:
            continue
        if name in FRONTS:
            t.require(max(inn) <= min(out) or abs(max(inn)[1] - min(out)[1]) < 1e-9 and max(inn)[0] == min(out)[0], lambda: f"{name}: generation {g + 1} keeps {max(inn)} and drops {min(out)} (0: feasible and front, 1: violation)", "fronts")
        elif name in ("ga", "ga1"):
            K = [(c[0], c[1]) if c[0] else (0, float(e.F[0])) for e, c in zip(both, C)]
            a, b = [k for e, k in zip(both, K) if id(e) in kept], [k for e, k in zip(both, K) if id(e) not in kept]
            t.require(max(a) <= min(b), lambda: f"{name}: generation {g + 1} keeps {max(a)} and drops {min(b)}", "best")
        elif name == "rvea":
            # one feasible solution per vector, and the least violated ones if that is not enough
            a, b = [c[1] for c in inn if c[0]], [c[1] for c in out if c[0]]
            t.require(not a or not b or max(a) <= min(b), f"{name}: violation {max(a, default=0)} was kept, {min(b, default=0)} dropped", "violation")
        elif name == "nichega":
            t.require(min(inn) <= min(out), f"{name}: the best solution was dropped", "best")
        else:
            # feasible before infeasible
            t.require(max(c[0] for c in inn) <= min(c[0] for c in out), f"{name}: an infeasible solution was kept, a feasible one dropped", "feasible")
    t.nontrivial(came > 0 and went > came - 1, name)


@P.check(st.fixed_dictionaries(dict(p=PROBLEM, m=st.integers(2, 3), n=st.integers(3, 8), n_off=st.integers(1, 5), norm=st.sampled_from([True, True, False]), eps=st.sampled_from([10.0, 1.0, 0.1]), gens=st.integers(1, 5), seed=st.integers(0, 1000))), quick=160, thorough=3000, shards=(4, 8))
def contributions(case, t):
    """SMS-EMOA: of the front that has to be split, the least contributors go, seen in the range of the population before its offspring"""
    prob = algos.mk_problem(dict(case["p"], m=case["m"], kind="free"), "sms")
    n = case["n"]
    alg = SMSEMOA(pop_size=n, n_offsprings=case["n_off"], normalize=case["norm"], survival=LeastHypervolumeContributionSurvival(eps=case["eps"]))
    d = Driver(alg, prob, case["seed"])
    d.ask()
    d.tell()
    sure = 0
    for g in range(case["gens"]):
        old = list(alg.pop)
        both = old + d.ask()
        d.tell()
        F = np.array([e.F for e in both])
        now = {id(e) for e in alg.pop}
        kept = [i for i in range(len(both)) if id(both[i]) in now]
        rk = ref.ranks(F)
        base = F[:len(old)] if case["norm"] else F
        lo, hi = base.min(axis=0), base.max(axis=0)
        full = 0
        for f in range(rk.max() + 1):
            members = np.where(rk == f)[0].tolist()
            if full + len(members) <= n:
                full += len(members)
                t.require(set(members) <= set(kept), f"generation {g + 1}: front {f} did not survive")
                continue
            if np.any(hi - lo < 1e-6):
                return
            gone, tied = hv.reduce(F, members, n - full, lo, hi, case["eps"])
            sure += len(gone)
            t.require(not set(gone) & set(kept), lambda: f"generation {g + 1}: points with the least contribution survive: {F[sorted(set(gone) & set(kept))].tolist()} among {F[members].tolist()} (range {lo.tolist()} to {hi.tolist()})", "contribution")
            if tied:
                t.require(any(i not in kept for i in tied), f"generation {g + 1}: all of the points with the least contribution survive: {tied}", "contribution")
            break
    t.nontrivial(sure > 1)


# ------------------------------------------------------------------------------------------------------ neighbourhoods


@P.check(st.fixed_dictionaries(dict(m=st.integers(2, 3), k=st.integers(3, 6), T=st.integers(2, 6), prob=st.sampled_from([0.0, 1.0, 1.0]), par=st.booleans(), n_off=st.integers(1, 9), gens=st.integers(1, 3), p=PROBLEM, seed=st.integers(0, 1000))), quick=120, thorough=2500, shards=(4, 8))
def neighbours(case, t):
    """MOEA/D: the parents of a mating are neighbours of each other; each neighbourhood has its turn once per generation"""
    m = case["m"]
    W = get_reference_directions("das-dennis", m, n_partitions=case["k"])
    n = len(W)
    T = min(case["T"], n)
    spec = dict(case["p"], m=m, kind="free")
    prob = algos.mk_problem(spec, "moead")
    cross, mut = Blend(2, 1), Shake()
    kw = dict(n_neighbors=T, prob_neighbor_mating=case["prob"], crossover=cross, mutation=mut)
    alg = ParallelMOEAD(W, n_offsprings=min(case["n_off"], n), **kw) if case["par"] else MOEAD(W, **kw)
    D = np.sqrt(((W[:, None] - W[None]) ** 2).sum(axis=2))
    far = np.sort(D, axis=1)[:, T - 1]
    d = Driver(alg, prob, case["seed"])
    first = d.ask()
    d.tell()
    t.require(len(first) == n, f"{len(first)} initial solutions for {n} directions")
    n_off = min(case["n_off"], n) if case["par"] else n
    own = 0
    for g in range(case["gens"]):
        for _ in range(1 if case["par"] else n):
            pop = list(alg.pop)
            # (the next mating of the loop may have happened already, with the population as it is)
            new = d.ask()
            t.require(len(new) == (n_off if case["par"] else 1), f"{len(new)} offspring", "number")
            A = np.concatenate(cross.ins, axis=1)
            t.require(A.shape[1] == len(new), f"{A.shape[1]} matings for {len(new)} offspring", "number")
            for j in range(A.shape[1]):
                I = [[i for i in range(n) if np.array_equal(pop[i].X, A[k, j])] for k in range(2)]
                t.require(all(I), "a parent is not a member of the population", "parents")
                t.require(any(a != b for a in I[0] for b in I[1]), "both parents are the same member", "distinct")
                if case["prob"] == 1.0:
                    ok = any((D[c, a] <= far[c] + 1e-9) and (D[c, b] <= far[c] + 1e-9) for c in range(n) for a in I[0] for b in I[1] if a != b)
                    t.require(ok, lambda: f"the parents {A[:, j].tolist()} belong to the directions {[W[i].tolist() for i in (I[0][0], I[1][0])]}, which have no neighbourhood of {T} in common", "neighbours")
                    own += 1
            del cross.ins[:]
            d.tell()
    t.nontrivial(own > 2 and T < n)


# ---------------------------------------------------------------------------------------------- differential evolution


@P.check(st.fixed_dictionaries(dict(p=PROBLEM, algo=st.sampled_from(["nsde", "gde3"]), n=st.integers(6, 8), sel=st.sampled_from(["rand", "ranked", "best", "current-to-best", "current-to-rand"]), cross=st.sampled_from(["bin", "exp"]), F=st.sampled_from([0.3, 0.5, 0.9, (0.4, 0.6)]), CR=st.sampled_from([0.1, 0.5, 1.0]), gamma=st.sampled_from([None, 1e-4, 0.3]), steps=st.integers(1, 3), seed=st.integers(0, 1000))), quick=120, thorough=2500, shards=(4, 8))
def trials(case, t):
    """NSDE and GDE3: trials of target and donor; GDE3: the trial competes with its target"""
    prob = algos.mk_problem(dict(case["p"], n=max(2, case["p"]["n"])), "nsde")
    sel, F = case["sel"], case["F"]
    alg = (NSDE if case["algo"] == "nsde" else GDE3)(pop_size=case["n"], variant=f"DE/{sel}/1/{case['cross']}", F=F, CR=case["CR"], gamma=case["gamma"], de_repair="to-bounds")
    d = Driver(alg, prob, case["seed"])
    d.ask()
    d.tell()
    moved = 0
    low, high = F if isinstance(F, (tuple, list)) else (F, F)
    low, high = low * (1 - (case["gamma"] or 0) / 2), high * (1 + (case["gamma"] or 0) / 2)

    def scaled(v):
        """a difference times a factor between low and high"""
        return np.minimum(low * v, high * v), np.maximum(low * v, high * v)

    for it in range(case["steps"]):
        pop = list(alg.pop)
        X = np.array([e.X for e in pop], dtype=float)
        N = len(pop)
        C = classes(pop)
        best = {i for i in range(N) if C[i] <= min(C)}
        new = d.ask()
        t.require(len(new) == N, f"{len(new)} trials for {N} targets", "number")
        rank = np.array([e.get("rank") if e.get("rank") is not None else i for i, e in enumerate(pop)], dtype=float)
        for k in range(N):
            e = new[k]
            M = np.abs(e.X - X[k]) > 1e-12
            if not M.any():
                continue
            found = False
            for a in range(N):
                if found:
                    break
                if sel in ("rand", "ranked") and a == k or sel == "best" and a not in best:
                    continue
                others = [i for i in range(N) if i not in (a, k)]
                if sel.startswith("current"):
                    # a: the one the target is moved towards
                    if a == k and sel == "current-to-rand" or sel == "current-to-best" and a not in best:
                        continue
                    base = [X[k] + v for v in scaled(X[a] - X[k])]
                else:
                    base = [X[a], X[a]]
                for b in others:
                    if sel == "ranked" and rank[b] < rank[a]:
                        continue
                    for c in others:
                        if b == c or sel == "ranked" and rank[c] < rank[b]:
                            continue
                        v, w = (np.clip(p + q, prob.xl, prob.xu) for p, q in zip(base, scaled(X[b] - X[c])))
                        if ((e.X >= v - 1e-9) & (e.X <= w + 1e-9))[M].all():
                            found = True
                            break
                    if found:
                        break
            t.require(found, lambda: f"{case['algo']} {sel}: trial {e.X.tolist()} of target {X[k].tolist()} contains no moved member of {X.tolist()}", "donor")
            moved += 1
        d.tell()
        now = list(alg.pop)
        ids = {id(e) for e in now}
        t.require(len(now) == N and ids <= {id(e) for e in pop + new}, f"{len(now)} members")
        if case["algo"] == "gde3":
            for a, b in zip(pop, new):
                ca, cb = cv_of(a), cv_of(b)
                G = [np.maximum(np.append(z.G, np.abs(z.H) - 1e-4), 0) for z in (a, b)]
                if ca <= 0 and cb <= 0:
                    if ref.dom(a.F, b.F):
                        t.require(id(b) not in ids, "GDE3: a trial dominated by its target survives", "loser")
                    elif ref.dom(b.F, a.F):
                        t.require(id(a) not in ids, "GDE3: a target dominated by its trial survives", "loser")
                elif ca <= 0:
                    t.require(id(b) not in ids, "GDE3: an infeasible trial of a feasible target survives", "loser")
                elif cb <= 0:
                    t.require(id(a) not in ids, "GDE3: an infeasible target of a feasible trial survives", "loser")
    t.nontrivial(moved > 3, sel)


# ------------------------------------------------------------------------------------------------------------- particles


def reach(v, lo, hi, vmax):
    """can the velocity v result from a value in [lo, hi] limited to vmax?"""
    tol = 1e-9 * (1 + np.abs(vmax))
    lo, hi = np.clip(lo, -vmax, vmax), np.clip(hi, -vmax, vmax)
    return bool(((v >= lo - tol) & (v <= hi + tol)).all())


def span(*moves):
    """the interval of sums of moves, each scaled by a factor of its own between zero and one"""
    return sum(np.minimum(m, 0) for m in moves), sum(np.maximum(m, 0) for m in moves)


@P.check(st.fixed_dictionaries(dict(p=PROBLEM, n=st.integers(4, 10), rate=st.sampled_from([0.05, 0.2, 0.5]), v0=st.sampled_from(["random", "zero"]), elite=st.integers(2, 6), gens=st.integers(1, 6), seed=st.integers(0, 1000))), quick=160, thorough=3000, shards=(4, 8))
def competitive(case, t):
    """CMOPSO: particles are drawn towards one of the elites, no faster than allowed; the best of old and new positions continue"""
    prob = algos.mk_problem(case["p"], "cmopso")
    alg = CMOPSO(pop_size=case["n"], max_velocity_rate=case["rate"], initial_velocity=case["v0"], elite_size=case["elite"], mutation_rate=0.0)
    d = Driver(alg, prob, case["seed"])
    first = d.ask()
    d.tell()
    vmax = case["rate"] * (prob.xu - prob.xl)
    t.require(len(first) == case["n"], f"{len(first)} particles")
    V = np.array([e.get("V") for e in alg.pop], dtype=float)
    t.require((V == 0).all() if case["v0"] == "zero" else ((V >= 0) & (V <= vmax)).all(), "initial velocities")
    fast = 0
    for g in range(case["gens"]):
        pop = list(alg.pop)
        L = [np.array(e.X, dtype=float) for e in alg.elites]
        known = first if g == 0 else known
        t.require(L and all(any(np.array_equal(x, e.X) for e in known) for x in L), "an elite was never evaluated", "elites")
        new = d.ask()
        t.require(len(new) == len(pop), f"{len(new)} new positions of {len(pop)} particles")
        for e, o in zip(new, pop):
            v, v0, x = np.array(e.get("V"), dtype=float), np.array(o.get("V"), dtype=float), np.array(o.X, dtype=float)
            t.require((np.abs(v) <= vmax * (1 + 1e-9)).all(), f"velocity {v.tolist()}, at most {vmax.tolist()} is allowed", "velocity")
            t.require(np.abs(e.X - np.clip(x + v, prob.xl, prob.xu)).max() <= 1e-9 * (1 + np.abs(x).max()), f"{x.tolist()} moved by {v.tolist()} to {e.X.tolist()}", "position")
            t.require(any(reach(v, *span(v0, w - x), vmax) for w in L), lambda: f"the particle at {x.tolist()} with velocity {v0.tolist()} got {v.tolist()}, which leads to none of the elites {[w.tolist() for w in L]}", "leader")
            fast += int((np.abs(v) > 0).any())
        d.tell()
        known = known + new
        both = pop + new
        now = list(alg.pop)
        ids = {id(e) for e in now}
        t.require(len(now) == case["n"] and len(ids) == len(now) and ids <= {id(e) for e in both}, f"{len(now)} particles continue")
        C = classes(both)
        inn, out = [c for e, c in zip(both, C) if id(e) in ids], [c for e, c in zip(both, C) if id(e) not in ids]
        t.require(max(c[0] for c in inn) <= min(c[0] for c in out), "an infeasible particle was kept, a feasible one dropped", "feasible")
        # non-dominated ones come first
        nd_in, nd_out = [c == (0, 0.0) for c in inn], [c == (0, 0.0) for c in out]
        t.require(not any(nd_out) or all(nd_in), "a dominated particle was kept, a non-dominated one dropped", "front")
    t.nontrivial(fast > 3)


@P.check(st.fixed_dictionaries(dict(p=PROBLEM, n=st.integers(4, 10), rate=st.sampled_from([0.05, 0.2, 0.5]), w=st.sampled_from([0.0, 0.6, 1.0]), c1=st.sampled_from([0.0, 2.0]), c2=st.sampled_from([0.0, 2.0, 0.5]), size=st.integers(2, 12), gens=st.integers(1, 6), seed=st.integers(0, 1000))), quick=160, thorough=3000, shards=(4, 8))
def crowding(case, t):
    """MOPSO-CD: particles are drawn towards their own best and one of the archive, no faster than allowed"""
    prob = algos.mk_problem(case["p"], "mopso_cd")
    alg = MOPSO_CD(pop_size=case["n"], max_velocity_rate=case["rate"], w=case["w"], c1=case["c1"], c2=case["c2"], archive_size=case["size"])
    d = Driver(alg, prob, case["seed"])
    first = d.ask()
    d.tell()
    vmax = case["rate"] * (prob.xu - prob.xl)
    known = list(first)
    own = [list(z) for z in zip(first)]
    moved = 0
    for g in range(case["gens"]):
        pop = list(alg.pop)
        V0 = np.array(alg.velocities, dtype=float)
        best = [np.array(e.X, dtype=float) for e in alg.pbest]
        L = [np.array(e.X, dtype=float) for e in alg.archive]
        t.require(all(any(np.array_equal(b, e.X) for e in own[i]) for i, b in enumerate(best)), "the best position of a particle is one it has never been at", "memory")
        t.require(L and all(any(np.array_equal(x, e.X) for e in known) for x in L), "a leader that was never evaluated", "archive")
        t.require((np.abs(V0) <= vmax * (1 + 1e-9)).all(), f"velocities {V0.tolist()}, at most {vmax.tolist()}", "velocity")
        new = d.ask()
        t.require(len(new) == len(pop), f"{len(new)} new positions of {len(pop)} particles")
        V = np.array(alg.velocities, dtype=float)
        t.require((np.abs(V) <= vmax * (1 + 1e-9)).all(), f"velocities {V.tolist()}, at most {vmax.tolist()}", "velocity")
        for i, (e, o) in enumerate(zip(new, pop)):
            x = np.array(o.X, dtype=float)
            t.require(np.abs(e.X - np.clip(x + V[i], prob.xl, prob.xu)).max() <= 1e-9 * (1 + np.abs(x).max()), f"{x.tolist()} moved by {V[i].tolist()} to {e.X.tolist()}", "position")

            def possible(l):
                lo, hi = span(case["c1"] * (best[i] - x), case["c2"] * (l - x))
                return reach(V[i], case["w"] * V0[i] + lo, case["w"] * V0[i] + hi, vmax)
            t.require(any(possible(l) for l in L), lambda: f"the particle at {x.tolist()} (velocity {V0[i].tolist()}, own best {best[i].tolist()}) got {V[i].tolist()}, which no leader of {[l.tolist() for l in L]} explains", "leader")
            moved += int((np.abs(V[i]) > 0).any())
        old = [np.array(e.F) for e in alg.pbest]
        d.tell()
        known += new
        for i, e in enumerate(new):
            own[i].append(e)
            now = np.array(alg.pbest[i].F)
            t.require(np.array_equal(now, old[i]) or np.array_equal(now, e.F), "the own best is neither the one before nor the new position", "memory")
            if ref.dom(e.F, old[i]):
                t.require(np.array_equal(now, e.F), f"position with {e.F.tolist()} is not remembered, {old[i].tolist()} was the best", "better")
            if ref.dom(old[i], e.F):
                t.require(np.array_equal(now, old[i]), f"position with {e.F.tolist()} is remembered, {old[i].tolist()} was the best", "worse")
        t.require(len(alg.archive) <= case["size"], f"archive of {len(alg.archive)}, at most {case['size']}")
    t.nontrivial(moved > 3)


# ------------------------------------------------------------------------------------------------------- reference vectors


@P.check(st.fixed_dictionaries(dict(m=st.integers(2, 3), k=st.integers(2, 5), n=st.integers(4, 14), alpha=st.sampled_from([1.0, 2.0]), freq=st.sampled_from([None, 0.1, 0.3, 0.5]), gens=st.integers(2, 9), by=st.sampled_from(["n_gen", "n_gen", "n_eval"]), p=PROBLEM, seed=st.integers(0, 1000))), quick=160, thorough=3000, shards=(4, 8))
def vectors(case, t):
    """RVEA: the penalty grows with the part of the run that is over, the reference vectors are adapted as often as asked for"""
    m, gens = case["m"], case["gens"]
    W = get_reference_directions("das-dennis", m, n_partitions=case["k"])
    prob = algos.mk_problem(dict(case["p"], m=m), "rvea")
    N = max(case["n"], len(W))
    alg = RVEA(W, alpha=case["alpha"], adapt_freq=case["freq"], pop_size=N)
    d = Driver(alg, prob, case["seed"], termination=("n_gen", gens) if case["by"] == "n_gen" else ("n_eval", gens * N))
    unit = W / np.sqrt((W ** 2).sum(axis=1, keepdims=True))
    V, ideal, old, adapted = unit, np.full(m, np.inf), [], 0
    g = 0
    while alg.has_next():
        g += 1
        t.require(g <= gens, f"generation {g} of {gens}", "generations")
        new = d.ask()
        if not new:
            return
        d.tell()
        both = old + new
        feas = [e for e in both if cv_of(e) <= 0]
        now = list(alg.pop)
        if g == 1:
            t.require({id(e) for e in now} == {id(e) for e in new}, "the initial population is not what was sampled")
            old = now
            continue
        if not feas:
            best = sorted(cv_of(e) for e in both)[:N]
            t.close(sorted(cv_of(e) for e in now), best[:len(now)], "violations of the survivors while nothing is feasible")
            old = now
            continue
        F = np.array([e.F for e in feas])
        ideal = np.minimum(ideal, F.min(axis=0))
        Z = F - ideal
        dist = np.maximum(np.sqrt((Z ** 2).sum(axis=1)), 1e-64)
        C = np.clip(V @ V.T, -1, 1)
        np.fill_diagonal(C, -1)
        gamma = np.maximum(np.arccos(C.max(axis=1)), 1e-64)
        cosine = (Z / dist[:, None]) @ V.T
        if np.any(cosine > 1) or np.any(gamma < 1e-6):
            return
        ang = np.arccos(cosine)
        srt = np.sort(ang, axis=1)
        if np.any(srt[:, 1] - srt[:, 0] < 1e-7):
            return
        niche, want = ang.argmin(axis=1), []
        for k in range(len(V)):
            I = np.where(niche == k)[0]
            if len(I):
                apd = dist[I] * (1 + (m if m > 2 else 1) * ((g - 1) / gens) ** case["alpha"] * ang[I, k] / gamma[k])
                o = np.sort(apd)
                if len(o) > 1 and o[1] - o[0] <= 1e-9 * o[0]:
                    return
                want.append(id(feas[int(I[apd.argmin()])]))
        got = [id(e) for e in now if cv_of(e) <= 0]
        t.require(sorted(got) == sorted(want), lambda: f"generation {g} of {gens}: {len(got)} survivors {[e.F.tolist() for e in now]}, expected {[e.F.tolist() for e in feas if id(e) in want]}", "survivors")
        if case["freq"] is not None and g % int(np.ceil(gens * case["freq"])) == 0:
            nadir = np.array([e.F for e in feas if id(e) in want]).max(axis=0)
            if np.any(nadir - ideal <= 1e-9):
                return
            A = unit * (nadir - ideal)
            V = A / np.sqrt((A ** 2).sum(axis=1, keepdims=True))
            adapted += 1
        old = now
    t.require(g == gens or case["by"] == "n_eval", f"{g} generations of {gens}", "generations")
    t.nontrivial(adapted > 0 and g > 2)
