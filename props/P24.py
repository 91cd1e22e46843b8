"""P24: observing a run (callback, history, display, archive) shows its true course and does not change it."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from pymoo.core.callback import Callback, CallbackCollection
from pymoo.core.population import Population
from pymoo.util.archive import MultiObjectiveArchive, SingleObjectiveArchive
from pymoo.util.display.column import Column
from pymoo.util.display.multi import MultiObjectiveOutput
from pymoo.util.display.output import Output
from pymoo.util.display.single import SingleObjectiveOutput
from pymoo.util.running_metric import RunningMetric
from vp import algos, gen, ref
from vp.core import Prop

P = Prop("P24", "the run has at least two iterations and at least one observer besides the recording one", ["the observers themselves do not modify the algorithm"])

SPEC = algos.run_spec(kinds=("free", "free", "con", "eq", "hard", "eqonly", "eqstep"), gens=(1, 6))
# evaluate (also) on their own, so that an archive does not see every solution
OWN_EVAL = {"dnsga2", "dnsga2b", "kgb", "mopso_cd"}


class Log(Callback):
    """records every call of every hook"""

    def __init__(self):
        super().__init__()
        self.calls = []

    def initialize(self, algorithm):
        self.calls.append(("initialize", algorithm.n_iter))

    def notify(self, algorithm):
        self.calls.append(("notify", algorithm.n_iter))

    def update(self, algorithm):
        self.calls.append(("update", algorithm.n_iter))
        return super().update(algorithm)

    def _update(self, algorithm):
        self.calls.append(("_update", algorithm.n_iter))


class OnlyNotify(Callback):
    def __init__(self):
        super().__init__()
        self.data["n"] = []

    def notify(self, algorithm):
        self.data["n"].append(algorithm.n_iter)


class OnlyUpdate(Callback):
    def __init__(self):
        super().__init__()
        self.data["n"] = []

    def _update(self, algorithm):
        self.data["n"].append(algorithm.n_iter)


class TracedOutput:
    """an output column of the user"""

    def __call__(self, algorithm):
        return float(np.min(algorithm.pop.get("F")))


def prints(rows, log):
    return dict(log=[b.tobytes() for b in log], n=[r["n_eval"] for r in rows],
                pop=[[(p["X"].tobytes(), p["F"].tobytes(), p["CV"]) for p in r["pop"] or []] for r in rows],
                opt=[[(p["X"].tobytes(), p["F"].tobytes(), p["CV"]) for p in r["opt"] or []] for r in rows])


def archived(t, name, arch, prob, X, mo, where):
    """the archive holds the best of all points evaluated so far"""
    F, G, H = prob.values(X)
    cv = np.maximum(G, 0.0).sum(axis=1) + np.maximum(np.abs(H) - 1e-4, 0.0).sum(axis=1)
    ok = cv <= 0
    if not ok.any():
        t.require(len(arch) > 0 and (arch.get("CV") <= cv.min() + 1e-12).all(), f"{name} ({where}): the archive does not hold the least infeasible solutions")
    elif mo:
        keep = ref.nondominated(F[ok])
        t.require({tuple(x) for x in arch.get("X")} <= {tuple(x) for x in X[ok][keep]} and
                  {tuple(f) for f in arch.get("F")} == {tuple(f) for f in F[ok][keep]}, f"{name} ({where}): the archive is not the set of non-dominated solutions evaluated", "archive:" + name)
    else:
        t.require(len(arch) > 0 and arch.get("F").min() == F[ok].min(), f"{name} ({where}): the archive does not hold the best solution evaluated", "archive:" + name)


OBS = st.fixed_dictionaries(dict(
    callback=st.sampled_from(["none", "function", "collection", "running", "collection"]), history=st.booleans(),
    verbose=st.booleans(), progress=st.sampled_from([False, False, True]), archive=st.booleans(), output=st.sampled_from(["default", "single", "multi", "base", "custom"])))


def number(text):
    return None if text.strip() == "-" else float(text)


def near(t, text, value, what):
    got = number(text)
    if value is None:
        t.require(got is None, f"{what}: displayed {text}, there is none")
    elif abs(value) < 1e90 and (value == 0 or abs(value) > 1e-90):
        t.require(got is not None and abs(got - value) <= 2e-6 * max(abs(value), 1e-5 if abs(value) >= 1e-5 else 0) + (1e-10 if 1e-5 <= value < 10 else 0), lambda: f"{what}: displayed {text}, value is {value}")


@P.check(st.fixed_dictionaries(dict(r=SPEC, o=OBS)), quick=480, thorough=6000, shards=(8, 8))
def observers(case, t):
    """callback, history, display, archive and progress in any combination: the same run, and a true record of it"""
    spec, o = case["r"], case["o"]
    name = spec["algo"]
    mo = algos.ALGOS[name].mo
    _, rows, log, _ = algos.run(spec)
    want = prints(rows, log)
    seen = []
    log_cb, n_cb, u_cb = Log(), OnlyNotify(), OnlyUpdate()
    trace = algos.Trace()
    extra = dict(save_history=o["history"], verbose=o["verbose"], progress=o["progress"])
    if o["archive"]:
        extra["archive"] = MultiObjectiveArchive() if mo else SingleObjectiveArchive()
    # without a callback the history is all there is
    if o["callback"] == "none":
        cb = None
    elif o["callback"] == "function":
        def cb(algorithm):
            trace(algorithm)
            seen.append(algorithm.n_iter)
    elif o["callback"] == "running":
        run_cb = RunningMetric()
        cb = CallbackCollection(trace, run_cb)
    else:
        cb = CallbackCollection(log_cb, trace, n_cb, u_cb)
    if cb is not None:
        extra["callback"] = cb
    col = None
    if o["output"] != "default":
        out = dict(single=SingleObjectiveOutput, multi=MultiObjectiveOutput, base=Output, custom=Output)[o["output"]]()
        if o["output"] == "single" and mo:
            out = Output()
        if o["output"] == "custom":
            col = Column("lowest", func=TracedOutput())
            out.columns += [col]
        extra["output"] = out
    key = id(case)
    prob = algos.mk_problem(spec["p"], name)
    prob.key = key
    algos.Rec.LOGS[key] = []
    buf = io.StringIO()
    try:
        from pymoo.optimize import minimize
        with contextlib.redirect_stdout(buf):
            res = minimize(prob, algos.mk_algo(spec), ("n_gen", spec["gens"]), seed=spec["seed"], **extra)
        log2 = algos.Rec.LOGS[key]
    finally:
        algos.Rec.LOGS.pop(key, None)
    t.nontrivial(len(rows) > 1 and (cb is not None or o["history"] or o["verbose"] or o["archive"]))
    n = len(rows)
    its = list(range(1, n + 1))
    # the course is the same
    got = prints(trace.rows, log2)
    t.require(got["log"] == want["log"], f"{name}: the observed run evaluates other points")
    if cb is not None:
        for k in want:
            t.require(got[k] == want[k], f"{name}: the observed run has other {k}")
    fin = algos.snap(res.pop)
    t.require([p["X"].tobytes() for p in fin] == [p[0] for p in want["pop"][-1]], f"{name}: the final population differs")
    # callbacks are called once per iteration
    if o["callback"] == "function":
        t.require(seen == its, f"{name}: callback called in iterations {seen} of {n}")
    elif o["callback"] == "collection":
        t.require(log_cb.calls == [("initialize", 1)] + [(h, k) for k in its for h in ("notify", "update", "_update")], lambda: f"callback in a collection: hooks {log_cb.calls[:12]}", "hooks")
        t.require(n_cb.data["n"] == its and u_cb.data["n"] == its, f"callbacks in a collection: {n_cb.data['n']} {u_cb.data['n']}", "hooks")
    # the history
    t.require(isinstance(res.history, list) and len(res.history) == (n if o["history"] else 0), f"{name}: {len(res.history)} entries in the history of {n} iterations")
    for k, h in enumerate(res.history):
        t.require(h.n_iter == k + 1 and h.evaluator.n_eval == rows[k]["n_eval"], f"{name}: history entry {k}: iteration {h.n_iter}, {h.evaluator.n_eval} evaluations")
        for what in ("pop", "opt"):
            s = algos.snap(getattr(h, what))
            t.require([(p["X"].tobytes(), p["F"].tobytes(), p["CV"]) for p in s or []] == want[what][k], f"{name}: history entry {k}: {what} is not the one of that iteration")
        if o["archive"] and name not in OWN_EVAL:
            archived(t, name, h.archive, prob, np.vstack(log)[:rows[k]["n_eval"]], mo, f"history entry {k}")
    # the archive has seen every solution
    if o["archive"] and name not in OWN_EVAL:
        archived(t, name, res.archive, prob, np.vstack(log), mo, "result")
    # what is displayed
    text = buf.getvalue()
    if not o["verbose"]:
        if not o["progress"]:
            t.require(text == "", f"{name}: output although not verbose")
        return
    if o["progress"]:
        return
    lines = text.rstrip("\n").split("\n")
    t.require(len(lines) == n + 3 and set(lines[0]) == {"="} and lines[0] == lines[2], lambda: f"{name}: {len(lines)} lines displayed for {n} iterations: {lines[:5]}")
    head = [h.strip() for h in lines[1].split("|")]
    t.require(head[:2] == ["n_gen", "n_eval"], f"{name}: columns {head}")
    for k, line in enumerate(lines[3:]):
        cells = line.split(" | ")
        t.require(len(cells) == len(head) and all(len(c) == len(h) for c, h in zip(cells, lines[1].split(" | "))), f"{name}: row {line!r} does not fit {lines[1]!r}")
        d = dict(zip(head, cells))
        r = rows[k]
        t.require(int(d["n_gen"]) == k + 1 and int(d["n_eval"]) == r["n_eval"], lambda: f"{name}: row {line!r}, iteration {k + 1} with {r['n_eval']} evaluations")
        feas = [p for p in r["opt"] if p["feas"]]
        if "f_min" in d and name != "nichega":
            near(t, d["f_min"], feas[0]["F"][0] if r["opt"][0]["feas"] else None, f"{name}: f_min")
        if "f_avg" in d:
            fe = [p["F"][0] for p in r["pop"] if p["feas"]]
            near(t, d["f_avg"], np.mean(fe) if fe else None, f"{name}: f_avg")
        if "cv_min" in d:
            near(t, d["cv_min"], min(p["CV"] for p in r["opt"]), f"{name}: cv_min")
        if "cv_avg" in d:
            near(t, d["cv_avg"], np.mean([p["CV"] for p in r["pop"]]), f"{name}: cv_avg")
        if "n_nds" in d:
            t.require(int(d["n_nds"]) == len(r["opt"]), f"{name}: n_nds")
        if col is not None:
            near(t, d["lowest"], min(p["F"].min() for p in r["pop"]), f"{name}: own column")


class Stop(Callback):
    """ends the run in iteration n, by force"""

    def __init__(self, n, how):
        super().__init__()
        self.n, self.how, self.its = n, how, []

    def notify(self, algorithm):
        self.its.append(algorithm.n_iter)
        if algorithm.n_iter == self.n:
            if self.how == "terminate":
                algorithm.termination.terminate()
            else:
                algorithm.termination.force_termination = True


@P.check(st.fixed_dictionaries(dict(r=SPEC, at=st.integers(1, 4), how=st.sampled_from(["terminate", "flag"]), archive=st.booleans(), verbose=st.booleans())), quick=250, thorough=4000, shards=(8, 8))
def stopped(case, t):
    """a run ended by force from a callback is the beginning of the whole run, and so is all that was recorded about it"""
    spec, at = dict(case["r"], gens=case["r"]["gens"] + 3), case["at"]
    name = spec["algo"]
    _, rows, log, _ = algos.run(spec)
    want = prints(rows, log)
    cb, trace = Stop(at, case["how"]), algos.Trace()
    extra = dict(archive=MultiObjectiveArchive() if algos.ALGOS[name].mo else SingleObjectiveArchive()) if case["archive"] else {}
    prob = algos.mk_problem(spec["p"], name)
    key = id(case)
    prob.key = key
    algos.Rec.LOGS[key] = []
    buf = io.StringIO()
    try:
        from pymoo.optimize import minimize
        with contextlib.redirect_stdout(buf):
            res = minimize(prob, algos.mk_algo(spec), ("n_gen", spec["gens"]), seed=spec["seed"], callback=CallbackCollection(trace, cb), save_history=True, verbose=case["verbose"], **extra)
        log2 = algos.Rec.LOGS[key]
    finally:
        algos.Rec.LOGS.pop(key, None)
    n = len(trace.rows)
    t.nontrivial(n < len(rows))
    # forced to end in iteration k, it does not go on for more than one further iteration
    t.require(cb.its == list(range(1, n + 1)) and n == min(at + 1, len(rows)), f"{name}: ended by force in iteration {at}, iterations {cb.its}")
    got = prints(trace.rows, log2)
    t.require(got["log"] == want["log"][:len(got["log"])], f"{name}: the run ended by force evaluates other points")
    for k in ("n", "pop", "opt"):
        t.require(got[k] == want[k][:n], f"{name}: the run ended by force has other {k}")
    t.require([(h.n_iter, h.evaluator.n_eval) for h in res.history] == [(k + 1, rows[k]["n_eval"]) for k in range(n)], f"{name}: history of {[h.n_iter for h in res.history]} after {n} iterations")
    for k, h in enumerate(res.history):
        t.require([(p["X"].tobytes(), p["F"].tobytes(), p["CV"]) for p in algos.snap(h.pop)] == want["pop"][k], f"{name}: history entry {k} is not the population of that iteration")
        if case["archive"] and name not in OWN_EVAL:
            archived(t, name, h.archive, prob, np.vstack(log)[:rows[k]["n_eval"]], algos.ALGOS[name].mo, f"history entry {k}")
    if case["verbose"]:
        t.require(len(buf.getvalue().rstrip("\n").split("\n")) == n + 3, f"{name}: lines displayed for {n} iterations")
    t.require([p["X"].tobytes() for p in algos.snap(res.pop)] == [p[0] for p in want["pop"][n - 1]], f"{name}: the final population is not the one of the last iteration")
