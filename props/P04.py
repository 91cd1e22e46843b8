"""P04: the constraint violation and feasibility of a solution follow from its constraint values."""
import copy

import numpy as np
from hypothesis import strategies as st

from pymoo.core.evaluator import Evaluator
from pymoo.core.individual import Individual, calc_cv, constr_to_cv
from pymoo.core.population import Population
from pymoo.core.population import calc_cv as pop_calc_cv
from pymoo.core.problem import Problem
from pymoo.util.misc import has_feasible
from vp import gen
from vp.core import Prop

P = Prop("P04", "at least one constraint is violated and at least one is satisfied (or has slack through eps)",
         ["constraint values are finite", "aggregations are sum, mean and max"])

FUNCS = dict(sum=np.sum, mean=np.mean, max=np.max)
vals = st.one_of(st.integers(-4, 4).map(lambda i: i / 2.0), st.sampled_from([0.0, 1e-4, -1e-4, 1.0000001e-4, 9.9e-5, 1e-9, -1e-9, 2e-4, 1e6]),
                 st.floats(-5, 5, allow_nan=False))


@st.composite
def sub(draw, eps):
    return dict(scale=draw(st.sampled_from([None, None, 2.0, 0.5])), eps=draw(st.sampled_from(eps)),
                pow=draw(st.sampled_from([None, None, 2.0, 1.0])), func=draw(st.sampled_from(["sum", "sum", "mean", "max"])))


CONFIG = st.one_of(st.none(), st.fixed_dictionaries(dict(
    cache=st.booleans(), cv_eps=st.sampled_from([0.0, 0.0, 0.5, 1e-3]), cv_ieq=sub([0.0, 0.0, 0.25, 1e-6]), cv_eq=sub([1e-4, 0.0, 0.5]))))
ROWS = st.integers(0, 4).flatmap(lambda g: st.integers(0, 3).flatmap(lambda h: st.lists(
    st.tuples(st.lists(vals, min_size=g, max_size=g), st.lists(vals, min_size=h, max_size=h)), min_size=1, max_size=6)))


def mkconf(c):
    if c is None:
        return None
    c = copy.deepcopy(c)
    for k in ("cv_ieq", "cv_eq"):
        c[k]["func"] = FUNCS[c[k]["func"]]
    return c


def one(c, eps, scale, pow, func):
    if len(c) == 0:
        return 0.0
    v = [max(0.0, x - eps) for x in c]
    if scale is not None:
        v = [x / scale for x in v]
    if pow is not None:
        v = [x ** pow for x in v]
    return dict(sum=sum(v), mean=sum(v) / len(v), max=max(v))[func]


def model(g, h, c):
    if c is None:
        c = dict(cv_eps=0.0, cv_ieq=dict(scale=None, eps=0.0, pow=None, func="sum"), cv_eq=dict(scale=None, eps=1e-4, pow=None, func="sum"))
    cv = one(g, **c["cv_ieq"]) + one([abs(x) for x in h], **c["cv_eq"])
    return cv, cv <= c.get("cv_eps", 0.0)


def nontriv(rows, ms):
    return any(m[0] > 0 for m in ms) and any(x <= 0 for g, h in rows for x in g + h)


@P.check(st.fixed_dictionaries(dict(rows=ROWS, conf=CONFIG)), quick=500, thorough=10000)
def violation(case, t):
    """CV, cv, FEAS, feas of individuals and populations; calc_cv on vectors and matrices"""
    rows = [(list(map(float, g)), list(map(float, h))) for g, h in case["rows"]]
    ms = [model(g, h, case["conf"]) for g, h in rows]
    t.nontrivial(nontriv(rows, ms), "default" if case["conf"] is None else "custom")
    conf = mkconf(case["conf"])
    G, H = np.array([g for g, _ in rows]), np.array([h for _, h in rows])
    W = np.array([m[0] for m in ms])
    t.close(calc_cv(G=G, H=H, config=conf), W, "calc_cv of matrices")
    pop = Population.create(*[Individual(config=mkconf(case["conf"]), X=np.zeros(2), F=np.zeros(1), G=G[i], H=H[i]) for i in range(len(rows))])
    t.close(pop_calc_cv(pop, conf), W, "calc_cv of a population")
    for i, (cv, feas) in enumerate(ms):
        t.close(calc_cv(G=G[i], H=H[i], config=conf), cv, "calc_cv of vectors")
        for _ in range(2):
            t.close(pop[i].CV, [cv], f"Individual.CV of G={rows[i][0]} H={rows[i][1]}")
        t.close(pop[i].cv, cv, "Individual.cv")
        got = np.asarray(pop[i].CV)[0]
        t.require(bool(pop[i].feas) == feas or abs(cv - (case["conf"] or {}).get("cv_eps", 0.0)) < 1e-9, f"feas of cv={cv}: {pop[i].feas}")
        t.require(bool(pop[i].FEAS[0]) == bool(pop[i].feas), "FEAS and feas disagree")
        t.require(got >= 0, "negative constraint violation")
    t.close(pop.get("CV"), W[:, None], "population CV")
    t.require(bool(has_feasible(pop)) == bool(pop.get("FEAS").any()), "has_feasible")


@P.check(st.fixed_dictionaries(dict(c=st.lists(vals, min_size=0, max_size=5), k=sub([0.0, 0.25, 1.0]))), quick=200, thorough=5000)
def single_constraint_vector(case, t):
    """calc_cv on one vector and on a matrix gives the configured aggregation"""
    k = dict(case["k"])
    w = one(list(map(float, case["c"])), **k)
    k["func"] = FUNCS[k["func"]]
    t.nontrivial(w > 0)
    c = np.array(case["c"], dtype=float)
    c0 = c.copy()
    t.close(constr_to_cv(c, **k), w, "constr_to_cv")
    t.equal(c, c0, "constr_to_cv changed its input")


OPS = st.lists(st.one_of(
    st.tuples(st.just("G"), st.integers(0, 3), st.lists(vals, min_size=2, max_size=2)),
    st.tuples(st.just("H"), st.integers(0, 3), st.lists(vals, min_size=1, max_size=1)),
    st.tuples(st.just("popG"), st.integers(0, 3), st.lists(vals, min_size=2, max_size=2)),
    st.tuples(st.just("read"), st.integers(0, 3), st.just([])),
    st.tuples(st.just("copy"), st.integers(0, 3), st.just([])),
    st.tuples(st.just("reset"), st.integers(0, 3), st.just([])),
    st.tuples(st.just("eval"), st.integers(0, 3), st.lists(vals, min_size=3, max_size=3)),
    st.tuples(st.just("skip"), st.integers(0, 3), st.just([])),
), min_size=1, max_size=14)


class Dynamic(Problem):
    def __init__(self):
        super().__init__(n_var=1, n_obj=1, n_ieq_constr=2, n_eq_constr=1, xl=-1.0, xu=1.0)
        self.v = [0.0, 0.0, 0.0]

    def _evaluate(self, X, out, *args, **kwargs):
        out["F"] = X[:, [0]]
        out["G"] = np.tile(np.array(self.v[:2], dtype=float), (len(X), 1))
        out["H"] = np.tile(np.array(self.v[2:], dtype=float), (len(X), 1))


@P.check(st.fixed_dictionaries(dict(ops=OPS, cache=st.booleans())), quick=300, thorough=6000)
def history(case, t):
    """after any history of updates, copies and re-evaluations, CV reflects the current G and H"""
    from pymoo.core.individual import default_config
    conf = default_config()
    conf["cache"] = case["cache"]
    inds = [Individual(config=dict(conf), X=np.array([i / 4.0]), G=np.zeros(2), H=np.zeros(1)) for i in range(4)]
    pop = Population.create(*inds)
    m = [([0.0, 0.0], [0.0]) for _ in range(4)]
    done = [False] * 4
    prob, ev = Dynamic(), Evaluator()
    changes = 0
    for op, i, v in case["ops"]:
        v = list(map(float, v))
        if op == "G":
            pop[i].G = np.array(v)
            m[i] = (v, m[i][1])
        elif op == "H":
            pop[i].set("H", np.array(v))
            m[i] = (m[i][0], v)
        elif op == "popG":
            pop[i:i + 1].set("G", np.array([v]))
            m[i] = (v, m[i][1])
        elif op == "copy":
            j = (i + 1) % 4
            pop[i] = pop[j].copy()
            m[i], done[i] = m[j], done[j]
        elif op == "reset":
            pop[i].reset()
            pop[i].X = np.array([i / 4.0])
            m[i], done[i] = ([], []), False
        elif op == "eval":
            prob.v = v
            ev.eval(prob, pop, skip_already_evaluated=False)
            m = [(v[:2], v[2:])] * 4
            done = [True] * 4
        elif op == "skip":
            ev.eval(prob, pop)
            m = [m[k] if done[k] else (prob.v[:2], prob.v[2:]) for k in range(4)]
            done = [True] * 4
        changes += op != "read"
        for k in ([i] if op == "read" else range(0, 4, 2)):
            t.close(pop[k].CV, [model(*m[k], None)[0]], f"CV of individual {k} after {op} with G={m[k][0]} H={m[k][1]}")
    for k in range(4):
        cv, feas = model(*m[k], None)
        t.close(pop[k].CV, [cv], f"CV of individual {k} at the end, G={m[k][0]} H={m[k][1]}")
        t.require(bool(pop[k].feas) == feas, f"feasibility at the end with G={m[k][0]} H={m[k][1]}")
    t.nontrivial(changes > 2 and any(model(*x, None)[0] > 0 for x in m))
