"""P20: a run is determined by its seed and its configuration, and leaves everything else alone."""
import copy
import os
import pickle
import random
import signal

import numpy as np
from hypothesis import strategies as st

from pymoo.core.population import Population
from pymoo.core.termination import TerminateIfAll, TerminateIfAny, Termination
from pymoo.optimize import minimize
from pymoo.termination import get_termination
from pymoo.termination.cv import ConstraintViolationTermination
from pymoo.termination.default import DefaultMultiObjectiveTermination, DefaultSingleObjectiveTermination
from pymoo.termination.ftol import MultiObjectiveSpaceTermination, SingleObjectiveSpaceTermination
from pymoo.termination.robust import RobustTermination
from pymoo.termination.xtol import DesignSpaceTermination
from vp import algos, gen
from vp.core import Prop

P = Prop("P20", "the run uses random numbers (another seed gives another run) for at least two iterations", ["the problem itself is deterministic"])

SPEC = algos.run_spec(kinds=("free", "free", "con", "eq", "hard", "eqonly", "eqstep"), gens=(2, 6))
DETERMINISTIC = {"direct"}


def fingerprint(out):
    res, rows, log, prob = out
    return dict(
        log=[b.tobytes() for b in log], n=[r["n_eval"] for r in rows],
        opt=[[(p["X"].tobytes(), p["F"].tobytes(), p["CV"]) for p in r["opt"] or []] for r in rows],
        pop=[[(p["X"].tobytes(), p["F"].tobytes(), p["CV"]) for p in r["pop"] or []] for r in rows],
        F=None if res.F is None else np.asarray(res.F, dtype=float).tobytes(), X=None if res.X is None else np.asarray(res.X, dtype=float).tobytes())


def compare(t, a, b, what):
    for k, name in (("log", "evaluated points"), ("n", "evaluation counters"), ("pop", "populations"), ("opt", "optima"), ("X", "res.X"), ("F", "res.F")):
        if a[k] != b[k]:
            i = next((i for i, (x, y) in enumerate(zip(a[k], b[k])) if x != y), min(len(a[k]), len(b[k]))) if isinstance(a[k], list) else ""
            t.fail(f"{what}: {name} differ{f' from iteration/batch {i}' if i != '' else ''}")


def global_state():
    s = np.random.get_state()
    return s[1].tobytes(), s[2], random.getstate()


@P.check(st.fixed_dictionaries(dict(r=SPEC, noise=gen.SEED, other=SPEC)), quick=400, thorough=6000, shards=(8, 8))
def seeds(case, t):
    """the same run twice, with another run and other global random numbers in between"""
    spec = case["r"]
    name = spec["algo"]
    np.random.seed(case["noise"])
    random.seed(case["noise"])
    before = global_state()
    a = fingerprint(algos.run(spec))
    if global_state() != before:  # the first run may import modules that use it
        before = global_state()
        a = fingerprint(algos.run(spec))
        t.require(global_state() == before, f"{name}: the run used the global random state")
    o = dict(case["other"], algo=name)  # the same algorithm with other settings and problem
    algos.run(o)
    algos.run(case["other"])
    np.random.seed(case["noise"] + 1)
    random.seed(case["noise"] + 1)
    np.random.random(7)
    b = fingerprint(algos.run(spec))
    compare(t, a, b, f"{name}: two runs with seed {spec['seed']}")
    c = fingerprint(algos.run(dict(spec, seed=spec["seed"] + 1)))
    t.nontrivial(len(a["log"]) > 1 and c["log"] != a["log"])
    if name not in DETERMINISTIC:
        t.require(c["log"] != a["log"], f"{name}: another seed gives the same points")


def isolated(f):
    """f() in a copy of this process: what it does to shared objects is gone afterwards"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = (True, f())
            except Exception as e:
                out = (False, f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as fh:
                pickle.dump(out, fh)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("the copy of the process died")
    ok, val = pickle.loads(data)
    if not ok:
        raise RuntimeError(val)
    return val


def alternate(spec, s2):
    """two instances, one iteration of each at a time"""
    name = spec["algo"]
    pa, pb = algos.mk_problem(spec["p"], name), algos.mk_problem(spec["p"], name)
    A, B = algos.mk_algo(spec), algos.mk_algo(spec)
    pa.key, pb.key = "A", "B"
    algos.Rec.LOGS["A"], algos.Rec.LOGS["B"] = [], []
    A.setup(pa, termination=("n_gen", spec["gens"]), seed=spec["seed"])
    B.setup(pb, termination=("n_gen", spec["gens"]), seed=s2["seed"])
    while A.has_next() or B.has_next():
        if A.has_next():
            A.next()
        if B.has_next():
            B.next()
    return algos.Rec.LOGS.pop("A"), algos.Rec.LOGS.pop("B")


@P.check(st.fixed_dictionaries(dict(r=SPEC, p2=algos.problem_spec(("free",)), extra=st.integers(0, 3))), quick=300, thorough=4000, shards=(8, 8))
def objects(case, t):
    """one algorithm object for several runs; algorithm, termination and problem stay as they were"""
    spec = case["r"]
    name = spec["algo"]
    alg = algos.mk_algo(spec)
    a = fingerprint(algos.run(spec))
    b = fingerprint(algos.run(spec, algorithm=alg))
    compare(t, a, b, f"{name}: first run of an algorithm object")
    t.nontrivial(len(a["log"]) > 1)
    if case["extra"]:
        algos.run(dict(spec, seed=spec["seed"] + case["extra"], gens=spec["gens"] + 1), algorithm=alg)
    t.require(alg.problem is None and not alg.is_initialized and alg.pop is None and alg.opt is None and alg.n_iter is None and alg.evaluator.n_eval == 0,
              f"{name}: minimize changed the algorithm object")
    c = fingerprint(algos.run(spec, algorithm=alg))
    compare(t, a, c, f"{name}: repeated run of an algorithm object")
    d = fingerprint(algos.run(spec, algorithm=copy.deepcopy(alg)))
    compare(t, a, d, f"{name}: run of a copied algorithm object")
    # two instances that are set up alternately do not influence each other
    s2 = dict(spec, seed=spec["seed"] + 1)
    la, lb = isolated(lambda: alternate(spec, s2))
    t.require([x.tobytes() for x in la] == a["log"], f"{name}: a run that alternates with another instance takes another course")
    t.require([x.tobytes() for x in lb] == fingerprint(algos.run(s2))["log"], f"{name}: a run that alternates with another instance takes another course (second)")
    # nor does one that was used for another problem before: default operators are shared between instances
    o = dict(spec, p=case["p2"] if "rnsga" in name else dict(case["p2"], m=spec["p"]["m"]))

    def after():
        pc = algos.mk_problem(o["p"], name)
        C = algos.mk_algo(o)
        C.setup(pc, termination=("n_gen", spec["gens"]), seed=spec["seed"] + 2)
        while C.has_next():
            C.next()
        return fingerprint(algos.run(spec))

    e = isolated(after)
    compare(t, a, e, f"{name}: a run after another instance has been used for another problem")


def mk_termination(tree):
    kind = tree[0]
    if kind in ("any", "all"):
        return (TerminateIfAny if kind == "any" else TerminateIfAll)(*[mk_termination(c) for c in tree[1]])
    k = tree[1]
    if kind == "gen":
        return get_termination("n_gen", k + 1)
    if kind == "eval":
        return get_termination("n_eval", 10 * k + 5)
    if kind == "f":
        return RobustTermination(SingleObjectiveSpaceTermination(tol=10.0 ** -k), period=k + 1)
    if kind == "mo":
        return RobustTermination(MultiObjectiveSpaceTermination(tol=10.0 ** -k, n_skip=k % 2), period=k + 1)
    if kind == "x":
        return RobustTermination(DesignSpaceTermination(tol=10.0 ** -k), period=k + 1)
    if kind == "cv":
        return RobustTermination(ConstraintViolationTermination(tol=10.0 ** -k), period=k + 1)
    return (DefaultMultiObjectiveTermination if kind == "dmo" else DefaultSingleObjectiveTermination)(period=k + 1, n_max_gen=12)


def leaves(kinds):
    return st.tuples(st.sampled_from(kinds), st.integers(0, 4))


def tree(kinds):
    return st.one_of(leaves(kinds), st.tuples(st.sampled_from(["any", "all"]), st.lists(st.one_of(leaves(kinds), st.tuples(st.sampled_from(["any", "all"]), st.lists(leaves(kinds), min_size=1, max_size=2))), min_size=1, max_size=3)))


def states(term):
    """the state of a criterion and of the ones it is made of"""
    out, todo, seen = [], [term], set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        d = dict(vars(x))
        out.append((type(x).__name__, x.perc, x.force_termination, {k: len(v) for k, v in d.items() if isinstance(v, list)}))
        for v in d.values():
            todo += [e for e in (v if isinstance(v, (list, tuple)) else [v]) if isinstance(e, Termination)]
    return out


@P.check(st.fixed_dictionaries(dict(r=algos.run_spec(sorted(set(algos.ALGOS) - {"rvea", "nrbo"}), kinds=("free", "con", "eq", "hard", "eqstep"), gens=(2, 6)), so=tree(["gen", "eval", "f", "x", "cv", "dso"]), mo=tree(["gen", "eval", "mo", "x", "cv", "dmo"]), n=st.integers(1, 2))), quick=200, thorough=3000, shards=(8, 8))
def terminations(case, t):
    """a termination object (simple, default or combined of others) serves any number of runs, and is not changed by them"""
    spec = dict(case["r"], gens=12)
    name = spec["algo"]
    mo = algos.ALGOS[name].mo
    inner = mk_termination(case["mo" if mo else "so"])
    term = TerminateIfAny(inner, get_termination("n_gen", 12), get_termination("n_eval", 400))
    alg = algos.mk_algo(spec)
    before = states(term)
    outs = [fingerprint(algos.run(spec, termination=term, algorithm=alg)) for _ in range(case["n"])]
    t.require(states(term) == before, f"{name}: a run changed the given termination object: {states(term)}, before {before}")
    algos.run(dict(spec, seed=spec["seed"] + 1), termination=term)
    fresh = TerminateIfAny(mk_termination(case["mo" if mo else "so"]), get_termination("n_gen", 12), get_termination("n_eval", 400))
    b = fingerprint(algos.run(spec, termination=fresh))
    outs.append(fingerprint(algos.run(spec, termination=term)))
    t.nontrivial(1 < len(b["n"]) < 12)
    for a in outs:
        compare(t, a, b, f"{name}: runs with the same termination object")


def freeze(X):
    X.setflags(write=False)
    return X


SAMPLED = sorted(n for n in algos.ALGOS if not n.startswith("cmaes") and n not in ("nelder", "pattern", "direct", "random", "es", "sres", "isres", "brkga", "rnsga2", "rnsga3", "optuna", "mopso_cd"))


@P.check(st.fixed_dictionaries(dict(r=algos.run_spec(SAMPLED, gens=(1, 4)), kind=st.sampled_from(["array", "pop", "evaluated", "mixed"]), s=gen.SEED)), quick=250, thorough=4000, shards=(4, 8))
def inputs(case, t):
    """what the user passes in (samples, populations, reference directions, bounds) is not modified"""
    spec = case["r"]
    name = spec["algo"]
    prob = algos.mk_problem(spec["p"], name)
    r = gen.rng(case["s"])
    n = max(spec["n"], algos.ALGOS[name].nmin)
    if name in ("nsga3", "unsga3", "rvea", "ctaea", "nsder", "moead", "pmoead"):
        n = max(n, len(algos._dirs(prob.n_obj, n)))
    if name in ("moead", "pmoead"):  # one individual per direction
        n = len(algos.mk_algo(spec).ref_dirs)
    X = prob.xl + r.random((n, prob.n_var)) * (prob.xu - prob.xl)
    kind = case["kind"]
    sampling = X.copy() if kind == "array" else Population.new("X", X.copy())
    if kind in ("evaluated", "mixed"):
        k = n if kind == "evaluated" else n // 2
        F, G, H = prob.values(X[:k])
        sampling[:k].set("F", F, "G", G, "H", H)
        for i in range(k):
            sampling[i].evaluated.update(("F", "G", "H"))
    given_ids = None if kind == "array" else [id(i) for i in sampling]
    xl, xu = prob.xl.copy(), prob.xu.copy()
    alg = algos.mk_algo(spec, sampling=sampling)
    rd = getattr(alg, "ref_dirs", None)
    rd0 = None if rd is None else np.array(rd)
    res, rows, log, _ = algos.run(spec, problem=prob, algorithm=alg)
    t.nontrivial(len(log) > 0)
    t.require(np.array_equal(prob.xl, xl) and np.array_equal(prob.xu, xu), f"{name}: the bounds of the problem were changed")
    if rd is not None:
        t.require(np.array_equal(rd, rd0), f"{name}: the reference directions were changed")
    if kind == "array":
        t.require(np.array_equal(sampling, X), f"{name}: the given sample was changed")
    else:
        t.require([id(i) for i in sampling] == given_ids, f"{name}: the given population was changed")
        for i, ind in enumerate(sampling):
            t.require(np.array_equal(ind.X, X[i]), f"{name}: a given individual was changed")
            done = kind == "evaluated" or (kind == "mixed" and i < n // 2)
            t.require(bool(ind.evaluated) == done, f"{name}: a given individual was evaluated in place")
            if done:
                t.require(np.array_equal(ind.F, F[i]) and np.array_equal(ind.G, G[i]), f"{name}: values of a given individual were changed")
        k = dict(pop=0, evaluated=n, mixed=n // 2)[kind]
        if name not in ("dnsga2", "dnsga2b", "kgb", "mopso_cd"):  # re-evaluate (MOPSO-CD a second sample) by design
            t.require(rows[0]["n_eval"] == n - k, f"{name}: {rows[0]['n_eval']} evaluations in the first iteration, {n - k} of the {n} given individuals were not evaluated")
    # and nothing about it depends on how often it was used
    res2, rows2, log2, _ = algos.run(spec, algorithm=alg, problem=algos.mk_problem(spec["p"], name))
    t.require([b.tobytes() for b in log] == [b.tobytes() for b in log2], f"{name}: a second run from the same sample takes another course")


@P.check(st.fixed_dictionaries(dict(n=st.integers(2, 4), k=algos.problem_spec(("eqonly", "hard")), pop=st.integers(4, 8), restarts=st.integers(1, 3), bipop=st.booleans(), seed=st.integers(0, 1000))), quick=60, thorough=800, shards=(2, 8))
def restarts(case, t):
    """restarts of CMA-ES go on with the random numbers of the run: they do not sample the points of the run before once more"""
    from pymoo.algorithms.soo.nonconvex.cmaes import CMAES
    prob = algos.mk_problem(dict(case["k"], n=case["n"]), "cmaes")
    key = prob.key = id(case)
    algos.Rec.LOGS[key] = []
    try:
        alg = CMAES(pop_size=case["pop"], restarts=case["restarts"], bipop=case["bipop"], x0=np.full(prob.n_var, 0.5) * (prob.xl + prob.xu))
        alg.setup(prob, termination=("n_iter", 60), seed=case["seed"])
        sizes = []
        while alg.has_next():
            alg.next()
            sizes.append(len(alg.pop))
        X = np.vstack(algos.Rec.LOGS[key])
    finally:
        algos.Rec.LOGS.pop(key, None)
    t.nontrivial(len(set(sizes[1:])) > 1 or case["bipop"])
    inside = X[((X > prob.xl) & (X < prob.xu)).all(axis=1)][1:]
    t.require(len(np.unique(inside, axis=0)) == len(inside), f"{len(inside) - len(np.unique(inside, axis=0))} of {len(inside)} points sampled were sampled before")
