"""P37: plots show exactly the data they are given."""
import io

import matplotlib

matplotlib.use("Agg")

import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from matplotlib.collections import PatchCollection, PathCollection  # noqa: E402
from matplotlib.colors import to_rgba  # noqa: E402

from pymoo.algorithms.moo.nsga2 import NSGA2  # noqa: E402
from pymoo.algorithms.soo.nonconvex.de import DE  # noqa: E402
from pymoo.algorithms.soo.nonconvex.ga import GA  # noqa: E402
from pymoo.algorithms.soo.nonconvex.pso import PSO  # noqa: E402
from pymoo.core.callback import Callback, CallbackCollection  # noqa: E402
from pymoo.core.problem import Problem  # noqa: E402
from pymoo.optimize import minimize  # noqa: E402
from pymoo.util import value_functions  # noqa: E402
from pymoo.util.running_metric import RunningMetric, RunningMetricAnimation  # noqa: E402
from pymoo.visualization.fitness_landscape import FitnessLandscape  # noqa: E402
from pymoo.visualization.heatmap import Heatmap  # noqa: E402
from pymoo.visualization.pcp import PCP  # noqa: E402
from pymoo.visualization.petal import Petal  # noqa: E402
from pymoo.visualization.radar import Radar  # noqa: E402
from pymoo.visualization.radviz import Radviz  # noqa: E402
from pymoo.visualization.scatter import Scatter  # noqa: E402
from pymoo.visualization.star_coordinate import StarCoordinate  # noqa: E402
from pymoo.visualization.util import plot, plot_problem_surface  # noqa: E402
from pymoo.visualization.video.one_var_one_obj import OneVariableOneObjectiveVisualization  # noqa: E402
from pymoo.visualization.video.two_var_one_obj import TwoVariablesOneObjectiveVisualization  # noqa: E402
from vp import gen  # noqa: E402
from vp.core import Prop  # noqa: E402

P = Prop("P37", "at least two different points are plotted", ["matplotlib draws the artists it is given (the artists are compared, not pixels)"])


def data(m_lo=2, m_hi=6, sets=4, unit=False):
    return st.fixed_dictionaries(dict(m=st.integers(m_lo, m_hi), k=st.lists(st.integers(1, 4), min_size=1, max_size=sets), scale=st.sampled_from([1.0, 1.0, 1e-3, 5e4]), shift=st.sampled_from([0.0, 0.0, -2.0, 3.0]),
                                      const=st.sampled_from([False, False, False, True]), s=gen.SEED))


def mk(d, unit=False):
    r = gen.rng(d["s"])
    out = [np.round(r.random((k, d["m"])), 3) for k in d["k"]]
    if d["const"]:
        for F in out:
            F[:, 0] = 0.5
    if not unit:
        out = [F * d["scale"] + d["shift"] * d["scale"] for F in out]
    return out


FRAME = st.fixed_dictionaries(dict(title=st.sampled_from([None, "a title", "tuple"]), labels=st.sampled_from(["f", "obj", "list"]), legend=st.booleans(), ax=st.booleans(), one=st.booleans(), how=st.sampled_from(["do", "do", "show", "figure", "axes", "save"]), look=st.booleans()))


def frame(fr, m, own=True):
    """keyword arguments of a plot; an axes of the user which is not the current one"""
    kw = dict(labels=[f"name {i}" for i in range(m)] if fr["labels"] == "list" else fr["labels"], legend=fr["legend"])
    if fr["title"] is not None:
        kw["title"] = ("a title", dict(pad=3)) if fr["title"] == "tuple" else fr["title"]
    other = None
    if own and fr["ax"]:
        fig, ax = plt.subplots()
        kw["fig"], kw["ax"] = fig, ax
        other = plt.figure().add_subplot()
    return kw, other


def names(fr, m):
    return [f"name {i}" for i in range(m)] if fr["labels"] == "list" else [f"${fr['labels']}_{{{i}}}$" for i in range(1, m + 1)]


def add(plot, sets, fr, t, styles=None):
    """add all sets (single points as vectors) and remember copies to see that they are not modified"""
    given = []
    for i, F in enumerate(sets):
        G = F[0].copy() if fr["one"] and len(F) == 1 else F.copy()
        given.append((G, G.copy()))
        plot.add(G, label=f"set {i}", **(styles[i] if styles else {}))
    plot.add(None)
    return given


def draw(plot, fr, t):
    """draw in one of the ways offered; looking at the plot again changes nothing"""
    def save():
        out = io.BytesIO()
        got = plot.save(out, dpi=20, format="png")
        t.require(out.getvalue()[:4] == b"\x89PNG", "nothing was saved", "save")
        return got

    got = dict(do=plot.do, show=plot.show, figure=plot.get_figure, axes=plot.get_axes, save=save)[fr["how"]]()
    t.require(got is {"figure": plot.fig, "axes": plot.ax}.get(fr["how"], plot), f"{fr['how']} returned {got}", "returned")
    if fr["look"]:
        plot.show()
        plot.get_figure()


def finish(plot, given, fr, t, other, n_sets, legend=True):
    t.require(all(np.array_equal(a, b) for a, b in given), "the data given was modified")
    if other is not None:
        t.require(len(other.lines) + len(other.collections) + len(other.patches) + len(other.texts) + len(other.images) == 0, "something was plotted into an axes which was not given", "foreign axes")
    axes = np.array(plot.ax).flatten()
    for ax in axes:
        if fr["title"] is not None:
            t.require(ax.get_title() == "a title", f"title {ax.get_title()!r}")
    if legend and fr["legend"]:
        for ax in axes[:1]:
            t.require([e.get_text() for e in ax.get_legend().get_texts()] == [f"set {i}" for i in range(n_sets)], "the legend does not name the sets in order")


def scattered(ax):
    return [c for c in ax.collections if isinstance(c, PathCollection)]


def closing(f):
    def g(case, t):
        try:
            f(case, t)
        finally:
            plt.close("all")
    g.__name__, g.__doc__ = f.__name__, f.__doc__
    return g


@P.check(st.fixed_dictionaries(dict(d=data(1, 5), f=FRAME, flat=st.booleans(), mode=st.lists(st.sampled_from(["default", "scatter", "plot", "line"]), min_size=4, max_size=4), color=st.booleans(), cube=st.booleans())), quick=120, thorough=2000, shards=(4, 8))
@closing
def scatter(case, t):
    """scatter plots in one to five dimensions: every set at its coordinates, in its own colour, in every pair of axes"""
    d, fr = case["d"], case["f"]
    m = d["m"]
    if case["cube"]:
        d = dict(d, k=[d["k"][0]] * len(d["k"]))
    sets = mk(d)
    three = m == 3 and not case["flat"]
    kw, other = frame(fr, m, own=m <= 2)
    if fr["ax"] and three:
        fig = plt.figure()
        kw["fig"], kw["ax"] = fig, fig.add_subplot(projection="3d")
        other = plt.figure().add_subplot()
    t.nontrivial(len(np.unique(np.vstack(sets), axis=0)) > 1)
    plot = Scatter(plot_3d=not case["flat"], **kw)
    modes = case["mode"] if not case["cube"] else ["scatter"] * 4
    # lines of pairwise plots have no size as their markers in the diagonal
    if m > 2 and not three:
        modes = ["default"] * 4
    styles = [dict(dict(default={}, scatter=dict(mode="scatter"), plot=dict(mode="plot"), line=dict(plot_type="line"))[modes[i]], **(dict(color="black") if case["color"] and i == 0 else {})) for i in range(len(sets))]
    if case["cube"]:
        A = np.array(sets)
        plot.add(A, label="set 0")
        given = [(A, A.copy())]
    else:
        given = add(plot, sets, fr, t, styles)
    draw(plot, fr, t)
    pal = plt.get_cmap("tab10").colors
    nm = names(fr, m)

    def look(ax, coords, i, j):
        """artists of one axes against the columns given"""
        sc, ln = list(scattered(ax)), list(ax.lines)
        for k, F in enumerate(sets):
            want = np.column_stack([F[:, i], F[:, j] if j is not None else np.zeros(len(F))])
            if modes[k] in ("plot", "line"):
                a = ln.pop(0)
                got, col = np.column_stack(a.get_data()), a.get_color()
            else:
                a = sc.pop(0)
                got, col = np.asarray(a.get_offsets()), a.get_facecolor()[0]
            t.require(np.array_equal(got, want), f"set {k} in dimensions {i, j}: plotted at {got.tolist()}, values {want.tolist()}")
            t.require(np.allclose(to_rgba(col), to_rgba("black" if styles[k].get("color") and not case["cube"] else pal[k % 10])), f"set {k} has the colour {col}")
        t.require(not sc and not ln, "more is plotted than was given")

    if m == 1:
        look(plot.ax, None, 0, None)
        t.require(plot.ax.get_xlabel() == nm[0], "label of the axis")
    elif m == 2:
        look(plot.ax, None, 0, 1)
        t.require((plot.ax.get_xlabel(), plot.ax.get_ylabel()) == tuple(nm), f"labels {plot.ax.get_xlabel(), plot.ax.get_ylabel()} of the axes, expected {nm}")
    elif three:
        sc, ln = list(scattered(plot.ax)), list(plot.ax.lines)
        for k, F in enumerate(sets):
            got = np.column_stack(ln.pop(0).get_data_3d()) if modes[k] in ("plot", "line") else np.column_stack([np.asarray(e) for e in sc.pop(0)._offsets3d])
            t.require(np.array_equal(got, F), f"set {k}: plotted at {got.tolist()}, values {F.tolist()}")
        t.require((plot.ax.get_xlabel(), plot.ax.get_ylabel(), plot.ax.get_zlabel()) == tuple(nm), "labels of the axes")
    else:
        t.require(np.shape(plot.ax) == (m, m), f"{np.shape(plot.ax)} axes for {m} dimensions")
        for i in range(m):
            for j in range(m):
                if i != j:
                    look(plot.ax[i, j], None, i, j)
                    t.require((plot.ax[i, j].get_xlabel(), plot.ax[i, j].get_ylabel()) == (nm[i], nm[j]), f"labels of the axes of dimensions {i, j}")
                else:
                    t.require([e.get_text() for e in plot.ax[i, i].texts] == [nm[i]] * len(sets), f"label of dimension {i}")
    finish(plot, given, fr, t, other, len(sets), legend=m <= 3 and not case["cube"] and not (m == 3 and case["flat"]))


def bounds_of(case, sets):
    F = np.vstack(sets)
    lo, hi = F.min(axis=0), F.max(axis=0)
    if case["bounds"] == "none":
        return None, lo, hi
    if case["bounds"] == "scalar":
        a, b = float(F.min()) - 1.0, float(F.max()) + 1.0
        return [a, b], np.full(F.shape[1], a), np.full(F.shape[1], b)
    lo, hi = lo - 0.5, hi + np.arange(1, F.shape[1] + 1)
    return [lo.copy(), hi.copy()] if case["bounds"] == "list" else np.array([lo, hi]), lo, hi


def unit(F, lo, hi):
    return (F - lo) / np.where(hi == lo, 1.0, hi - lo)


BOUNDS = st.sampled_from(["none", "scalar", "list", "array"])


def text(v):
    return "{:.2e}".format(v) if v > 1e3 else "{:.2f}".format(v)


@P.check(st.fixed_dictionaries(dict(d=data(), f=FRAME, bounds=BOUNDS, each=st.booleans(), show=st.booleans(), ticks=st.sampled_from([None, 3, 5]), again=st.sampled_from([False, False, True]))), quick=120, thorough=2000, shards=(2, 8))
@closing
def pcp(case, t):
    """parallel coordinates: one line per point through its normalized values, the bounds in the units of the data"""
    d, fr = case["d"], case["f"]
    sets = mk(d)
    m = d["m"]
    kw, other = frame(fr, m)
    b, lo, hi = bounds_of(case, sets)
    if b is None and not case["each"]:
        lo, hi = np.full(m, np.vstack(sets).min()), np.full(m, np.vstack(sets).max())
    t.nontrivial(len(np.unique(np.vstack(sets), axis=0)) > 1)
    plot = PCP(bounds=b, normalize_each_axis=case["each"], show_bounds=case["show"], n_ticks=case["ticks"], **kw)
    if case["again"] and other is None:
        # drawn before, with other data
        plot.add(sets[0] * 0.5 - 1.0)
        plot.do()
        plot.to_plot.clear()
        plot.reset()
    given = add(plot, sets, fr, t)
    draw(plot, fr, t)
    lines = [ln for ln in plot.ax.lines if len(ln.get_xdata()) == m and np.array_equal(ln.get_xdata(), np.arange(m))]
    # with two axes the vertical axes have two points as well, but at the same place
    pal = plt.get_cmap("tab10").colors
    F = np.vstack([unit(e, lo, hi) for e in sets])
    t.require(len(lines) == len(F), f"{len(lines)} lines for {len(F)} points", "lines")
    k = [i for i, e in enumerate(sets) for _ in e]
    for i, ln in enumerate(lines):
        t.close(ln.get_ydata(), F[i], f"line of point {i}", rtol=1e-7, atol=1e-9)
        t.require(np.allclose(to_rgba(ln.get_color()), to_rgba(pal[k[i] % 10])), f"colour of point {i} of set {k[i]}")
    vert = [ln.get_xdata()[0] for ln in plot.ax.lines if len(set(ln.get_xdata())) == 1]
    t.require(vert == list(range(m)), f"axes at {vert}, there are {m}")
    t.require([e.get_text() for e in plot.ax.get_xticklabels()] == names(fr, m), "labels of the axes")
    texts = [e.get_text() for e in plot.ax.texts]
    want = [text(v) for i in range(m) for v in (lo[i], hi[i])] if case["show"] else []
    t.require(texts == want, f"bounds {texts}, expected {want}")
    t.require(len(plot.ax.collections) == (m * case["ticks"] if case["ticks"] else 0), "ticks of the axes")
    if case["ticks"]:
        seg = np.array([c.get_segments()[0] for c in plot.ax.collections])
        t.close(seg[:, 0, 1], np.tile(np.linspace(0, 1, case["ticks"]), m), "heights of the ticks")
        t.close(seg[:, :, 0].mean(axis=1), np.repeat(np.arange(m), case["ticks"]), "ticks on the axes")
    finish(plot, given, fr, t, other, len(sets), legend=False)


def circle(n):
    a = 2 * np.pi * np.arange(n) / n
    return np.column_stack([np.cos(a), np.sin(a)])


@P.check(st.fixed_dictionaries(dict(d=data(), f=FRAME, kind=st.sampled_from(["radviz", "star"]), bounds=BOUNDS, style=st.booleans())), quick=100, thorough=2000, shards=(2, 8))
@closing
def circular(case, t):
    """RadViz and star coordinates: every point at the weighted mean, or the sum, of its axes"""
    d, fr = case["d"], case["f"]
    sets = mk(d, unit=case["kind"] == "radviz")
    m = d["m"]
    if case["kind"] == "radviz":
        sets = [F + 0.01 for F in sets]
    kw, other = frame(fr, m)
    t.nontrivial(len(np.unique(np.vstack(sets), axis=0)) > 1)
    V = circle(m)
    style = dict(color="red")
    if case["kind"] == "radviz":
        plot = Radviz(endpoint_style=style, **kw) if case["style"] else Radviz(**kw)
        want = [(F @ V) / F.sum(axis=1)[:, None] for F in sets]
    else:
        b, lo, hi = bounds_of(case, sets)
        far = 1.03 if case["style"] else 1.5
        plot = StarCoordinate(bounds=b, **kw) if case["style"] else StarCoordinate(bounds=b, axis_extension=far, **kw)
        want = [unit(F, lo, hi) @ V for F in sets]
    given = add(plot, sets, fr, t)
    draw(plot, fr, t)
    sc = scattered(plot.ax)
    if case["kind"] == "radviz":
        t.require(np.allclose(sc[0].get_offsets(), V), "ends of the axes")
        sc = sc[1:]
        lines = [np.column_stack(ln.get_data()) for ln in plot.ax.lines]
        t.require(any(len(e) == m + 1 and np.allclose(e, np.vstack([V, V[:1]])) for e in lines), "no line around the axes", "foreign axes")
        t.require(any(len(e) > 100 and np.allclose((e**2).sum(axis=1), 1.0) for e in lines), "no circle around the axes", "foreign axes")
    else:
        t.require(len(plot.ax.patches) == m, f"{len(plot.ax.patches)} arrows for {m} axes")
        for v, p in zip(V, plot.ax.patches):
            # the tip is one length of the head beyond the end
            t.require(np.abs((p.get_xy() @ v).max() - far) < 0.02 and np.abs(p.get_xy() @ np.array([-v[1], v[0]])).max() < 0.02, f"arrow {p.get_xy().tolist()} for the axis {v.tolist()}, extended by {far}")
    t.require(len(sc) == len(sets), f"{len(sc)} sets plotted, {len(sets)} given")
    for k, (c, w) in enumerate(zip(sc, want)):
        t.close(c.get_offsets(), w, f"positions of set {k}", rtol=1e-7, atol=1e-9)
    t.require([e.get_text() for e in plot.ax.texts] == names(fr, m), "labels of the axes")
    finish(plot, given, fr, t, other, len(sets))


def polygons(ax):
    return [p.vertices[:-1] if np.array_equal(p.vertices[0], p.vertices[-1]) else p.vertices for c in ax.collections if isinstance(c, PatchCollection) for p in c.get_paths()]


@P.check(st.fixed_dictionaries(dict(d=data(2, 5, sets=2), f=FRAME, kind=st.sampled_from(["petal", "radar"]), bounds=st.sampled_from(["scalar", "list", "array"]), rev=st.booleans(), each=st.booleans(), style=st.booleans())), quick=100, thorough=1500, shards=(4, 8))
@closing
def sections(case, t):
    """petal and radar diagrams: every point in a diagram of its own with sections, or corners, as long as its normalized values"""
    d, fr = case["d"], case["f"]
    sets = mk(d)
    m = d["m"]
    if case["kind"] == "radar" and not case["each"]:
        sets = [np.abs(F) + 1.0 for F in sets]
    kw, _ = frame(fr, m, own=False)
    kw["legend"] = False
    b, lo, hi = bounds_of(case, sets)
    t.nontrivial(len(np.unique(np.vstack(sets), axis=0)) > 1)
    style = dict(s=20)
    plot = Petal(bounds=b, reverse=case["rev"], **kw) if case["kind"] == "petal" else Radar(bounds=b, reverse=case["rev"], normalize_each_objective=case["each"], point_style=style if case["style"] else None, **kw)
    given = add(plot, sets, fr, t)
    draw(plot, fr, t)
    V = circle(m)
    t.require(np.shape(plot.ax) == (len(sets), max(len(F) for F in sets)), f"{np.shape(plot.ax)} diagrams")
    for k, F in enumerate(sets):
        N = unit(F, lo, hi)
        if case["rev"]:
            N = 1 - N
        for j in range(len(F)):
            ax = plot.ax[k, j]
            lines = [np.column_stack(ln.get_data()) for ln in ax.lines]
            polys = polygons(ax)
            if case["kind"] == "petal":
                t.require(len(polys) == m, f"{len(polys)} sections for {m} objectives")
                for i, p in enumerate(polys):
                    rad = np.sqrt((p**2).sum(axis=1))
                    ends = p[rad > 1e-12]
                    t.require(np.allclose(rad[rad > 1e-12], N[j, i], atol=1e-9), f"section {i} of point {j} is {rad.max()} long, value {N[j, i]}")
                    if len(ends):
                        mid = np.array([np.cos(2 * np.pi * (i + 0.5) / m), np.sin(2 * np.pi * (i + 0.5) / m)])
                        cosang = ends @ mid / rad[rad > 1e-12]
                        t.require(cosang.min() >= np.cos(np.pi / m) - 1e-9 and np.isclose(cosang.min(), np.cos(np.pi / m)), f"section {i} of point {j} is not between its axes")
                circ = [e for e in lines if len(e) > 100]
                t.require(len(circ) == 1 and np.allclose((circ[0] ** 2).sum(axis=1), 1.0), f"{len(circ)} circles around the diagram of point {j} of set {k}", "foreign axes")
                t.require(len([e for e in lines if len(e) == 2]) == m, f"{len(lines) - len(circ)} axes in the diagram of point {j} of set {k}", "foreign axes")
            else:
                if case["each"]:
                    inner, outer = np.zeros((m, 2)), V
                else:
                    inner, outer = lo[:, None] * V / hi.max(), hi[:, None] * V / hi.max()
                pos = inner + N[j][:, None] * (outer - inner)
                t.require(len(polys) == 2, f"{len(polys)} polygons")
                t.close(scattered(ax)[0].get_offsets(), pos, f"corners of point {j} of set {k}", rtol=1e-7, atol=1e-9)
                p = polys[1]
                t.require(all(np.isclose(p, q, atol=1e-9).all(axis=1).any() for q in pos), "polygon of the point")
                t.require(any(len(e) == m + 1 and np.allclose(e, np.vstack([outer, outer[:1]])) for e in lines), f"no outer line around point {j} of set {k}", "foreign axes")
            t.require([e.get_text() for e in ax.texts] == names(fr, m), "labels of the axes")
    finish(plot, given, fr, t, None, len(sets), legend=False)
    t.require(style == dict(s=20), "the style given was modified")


@P.check(st.fixed_dictionaries(dict(d=data(2, 6, sets=1), n=st.integers(1, 8), f=FRAME, bounds=BOUNDS, rev=st.booleans(), order=st.sampled_from(["no", "true", "index", "list"]), i=st.integers(0, 5), labels=st.sampled_from(["true", "false", "none", "own"]), ties=st.booleans(), again=st.sampled_from([False, False, True]))), quick=100, thorough=2000, shards=(2, 8))
@closing
def heatmap(case, t):
    """heat maps: every row holds the normalized values of the solution it is labelled with, sorted by the objectives asked for"""
    d, fr = dict(case["d"], k=[case["n"]]), case["f"]
    m, n = d["m"], case["n"]
    F = mk(d)[0]
    if case["ties"]:
        F = np.round(F / d["scale"]) * d["scale"]
    kw, other = frame(dict(fr, legend=False), m)
    kw["legend"] = False
    b, lo, hi = bounds_of(case, [F])
    i = case["i"] % m
    perm = [(i + 1 + j) % m for j in range(m)]
    order = dict(no=False, true=True, index=i, list=perm)[case["order"]]
    own = [f"solution {j}" for j in range(n)]
    plot = Heatmap(bounds=b, reverse=case["rev"], order_by_objectives=order, solution_labels=dict(true=True, false=False, none=None, own=own)[case["labels"]], **kw)
    given = add(plot, [F], fr, t)
    draw(plot, fr, t)
    if case["again"] and other is None:
        plot.reset()
        draw(plot, fr, t)
    t.nontrivial(n > 1 and len(np.unique(F)) > 1)
    N = unit(F, lo, hi)
    if case["rev"]:
        N = 1 - N
    got = np.asarray(plot.ax.images[0].get_array())
    L = dict(no=None, true=list(range(m)), index=[i] + [j for j in range(m) if j != i], list=perm)[case["order"]]
    idx = list(range(n)) if L is None else sorted(range(n), key=lambda r: [N[r, j] for j in L])
    t.close(got, N[idx], f"values shown (order {case['order']})", rtol=1e-9, atol=1e-12)
    t.require([e.get_text() for e in plot.ax.get_xticklabels()] == names(fr, m), "labels of the objectives")
    rows = [e.get_text() for e in plot.ax.get_yticklabels()]
    if case["labels"] in ("false", "none"):
        t.require(rows == [], f"labels of the solutions {rows} although none were asked for")
    else:
        t.require(rows == [own[j] if case["labels"] == "own" else str(j + 1) for j in idx], f"labels {rows} of the rows, solutions {idx}")
    t.require(own == [f"solution {j}" for j in range(n)], "the labels given were modified")
    finish(plot, given, dict(fr, legend=False), t, other, 1, legend=False)


class Quad(Problem):
    def __init__(self, n_var, s):
        r = np.random.default_rng(s)
        lo = r.integers(-4, 3, n_var).astype(float)
        super().__init__(n_var=n_var, n_obj=1, xl=lo, xu=lo + r.integers(1, 6, n_var))
        self.a, self.c = r.random(n_var) + 0.2, lo + 1.0

    def _evaluate(self, X, out, *args, **kwargs):
        out["F"] = self.value(X)[:, None]

    def value(self, X):
        return (self.a * (X - self.c) ** 2).sum(axis=1) + X[:, 0]


@P.check(st.fixed_dictionaries(dict(n_var=st.integers(1, 2), n=st.integers(3, 9), kind=st.sampled_from(["surface", "contour", "surface+contour"]), bar=st.booleans(), s=gen.SEED, own=st.booleans())), quick=40, thorough=500, shards=(2, 8))
@closing
def landscape(case, t):
    """fitness landscapes: the values of the problem over its whole search space"""
    prob = Quad(case["n_var"], case["s"])
    t.nontrivial()
    n = case["n"]
    ck = dict(linestyles="solid", offset=-1)
    plot = FitnessLandscape(prob, _type=case["kind"], n_samples=n, colorbar=case["bar"], **(dict(kwargs_contour=ck) if case["own"] else {}))
    plot.do()
    if case["n_var"] == 1:
        t.require(len(plot.ax.lines) == 1, f"{len(plot.ax.lines)} lines plotted for a problem with one variable", "one variable")
        x = np.linspace(prob.xl[0], prob.xu[0], n)
        t.close(plot.ax.lines[0].get_xdata(), x, "points plotted")
        t.close(plot.ax.lines[0].get_ydata(), prob.value(x[:, None]), "values plotted")
        return
    if "surface" in case["kind"]:
        surf = [c for c in plot.ax.collections if type(c).__name__ == "Poly3DCollection"][0]
        v = np.asarray(surf._faces if hasattr(surf, "_faces") else surf._vec.T).reshape(-1, np.asarray(surf._faces).shape[-1] if hasattr(surf, "_faces") else surf._vec.shape[0])[:, :3]
        t.require(len(np.unique(v[:, :2].round(9), axis=0)) == n * n, "number of different points of the surface")
        t.close(v[:, 2], prob.value(v[:, :2]), "height of the surface", rtol=1e-7, atol=1e-7)
        t.close([v.min(axis=0)[:2], v.max(axis=0)[:2]], [prob.xl, prob.xu], "extent of the surface")
    else:
        cs = [c for c in plot.ax.collections if type(c).__name__ == "QuadContourSet"][0]
        x = np.linspace(prob.xl[0], prob.xu[0], n), np.linspace(prob.xl[1], prob.xu[1], n)
        Z = prob.value(np.array([(a, b) for a in x[0] for b in x[1]]))
        t.close([cs.zmin, cs.zmax], [Z.min(), Z.max()], "range of the contours")
        # every contour runs where the (bilinearly interpolated) values are the ones of its level - at its corners on grid lines
        for level, path in zip(cs.levels, cs.get_paths()):
            for vx, vy in path.vertices:
                i, j = np.searchsorted(x[0], vx), np.searchsorted(x[1], vy)
                on0, on1 = np.isclose(x[0], vx, rtol=0, atol=1e-9).any(), np.isclose(x[1], vy, rtol=0, atol=1e-9).any()
                if not (on0 or on1):
                    t.fail(f"contour point {vx, vy} is not on a line of the grid")
                vals = []
                gx = [x[0][np.isclose(x[0], vx, rtol=0, atol=1e-9)][0]] if on0 else [x[0][i - 1], x[0][i]]
                gy = [x[1][np.isclose(x[1], vy, rtol=0, atol=1e-9)][0]] if on1 else [x[1][j - 1], x[1][j]]
                vals = [prob.value(np.array([[a, b]]))[0] for a in gx for b in gy]
                t.require(min(vals) - 1e-6 <= level <= max(vals) + 1e-6, f"contour of {level} between values {vals}")
    t.require(not case["own"] or ck == dict(linestyles="solid", offset=-1), "the style given was modified", "style")


class Bumps(Problem):
    def __init__(self, n_var, c):
        super().__init__(n_var=n_var, n_obj=1, xl=np.array([-1.0, 2.0][:n_var]), xu=np.array([3.0, 4.0][:n_var]))
        self.c = c

    def _evaluate(self, X, out, *args, **kwargs):
        out["F"] = np.sin(3 * X[:, 0] + self.c) + 0.3 * X.sum(axis=1)


def drawn(cls, shots, **kw):
    """an animation that notes what is in the figure it has drawn"""

    class Noting(cls):
        def do(self, problem, algorithm, **kwargs):
            fig = super().do(problem, algorithm, **kwargs)
            ax = (fig or plt.gcf()).axes[0]
            marks = [(c.get_label(), np.array(c.get_offsets(), dtype=float), [tuple(e) for e in c.get_facecolors()]) for c in ax.collections if isinstance(c, PathCollection)]
            lines = [(ln.get_label(), np.array(ln.get_xdata(), dtype=float), np.array(ln.get_ydata(), dtype=float), ln.get_marker()) for ln in ax.lines]
            pop, off = algorithm.pop, algorithm.off
            shots.append(dict(gen=algorithm.n_gen, marks=marks, lines=lines, title=ax.get_title(), lim=(ax.get_xlim(), ax.get_ylim()), pop=list(pop), X=pop.get("X"), F=pop.get("F"), off=(off.get("X"), off.get("F")) if off is not None else None))
            return fig

    return Noting(**kw)


@P.check(st.fixed_dictionaries(dict(n_var=st.integers(1, 2), c=st.integers(0, 6), nth=st.integers(1, 3), algo=st.sampled_from(["ga", "de", "pso"]), n=st.integers(4, 8), gens=st.integers(1, 6), s=gen.SEED)), quick=40, thorough=600, shards=(2, 8), hang=120)
def animation(case, t):
    """each picture of an animated run: the population, the offspring and what is new since the last picture"""
    shots = []
    prob = Bumps(case["n_var"], case["c"])
    cls = OneVariableOneObjectiveVisualization if case["n_var"] == 1 else TwoVariablesOneObjectiveVisualization
    cb = drawn(cls, shots, nth_gen=case["nth"], n_samples_for_surface=50)
    algo = dict(ga=GA, de=DE, pso=PSO)[case["algo"]](pop_size=case["n"])
    try:
        minimize(prob, algo, ("n_gen", case["gens"]), seed=case["s"], callback=cb)
        left = plt.get_fignums()
    finally:
        plt.close("all")
    t.nontrivial(len(shots) >= 2)
    t.require([e["gen"] for e in shots] == [g for g in range(1, case["gens"] + 1) if g == 1 or g % case["nth"] == 0], f"pictures of the generations {[e['gen'] for e in shots]}, every {case['nth']}-th was asked for", "which")
    t.require(not left, f"{len(left)} figures are left open", "open")
    last = None
    for e in shots:
        new = [last is None or not any(i is j for j in last) for i in e["pop"]]
        last = e["pop"]
        pts = (lambda X, F: np.column_stack([X[:, 0], F[:, 0]])) if case["n_var"] == 1 else (lambda X, F: X)
        got = {}
        for label, off, _ in e["marks"]:
            got[label if case["n_var"] == 2 else len(got)] = off
        want = [("Solutions", pts(e["X"], e["F"]))]
        if any(new):
            want.append(("Survivors", pts(e["X"][new], e["F"][new])))
        if e["off"] is not None:
            want.append(("Offsprings", pts(*e["off"])))
        t.require(len(got) == len(want), f"{len(got)} sets of points are drawn in generation {e['gen']}, there are {len(want)}", "marks")
        for k, (label, p) in enumerate(want):
            g = got.get(label if case["n_var"] == 2 else k)
            t.require(g is not None and g.shape == p.shape and np.array_equal(g, p), lambda: f"{label} of generation {e['gen']} are drawn at {g}, they are at {p}", "marks")
        t.require(e["title"] == f"Generation: {e['gen']}", f"the title of generation {e['gen']} is {e['title']}", "title")
        if case["n_var"] == 2:
            t.require(e["lim"] == ((-1.0, 3.0), (2.0, 4.0)), f"the axes show {e['lim']}", "lim")
        else:
            _, x, y, _ = e["lines"][0]
            t.require(len(x) == 50 and x[0] == -1.0 and x[-1] == 3.0, "the problem is not drawn from bound to bound", "line")
            t.close(y, np.sin(3 * x + case["c"]) + 0.3 * x, "the line of the problem")


@P.check(st.fixed_dictionaries(dict(delta=st.integers(1, 4), plots=st.integers(1, 3), n=st.integers(4, 10), gens=st.integers(2, 10), s=gen.SEED)), quick=24, thorough=400, hang=120)
def running(case, t):
    """the animated running metric: one line per remembered picture, as long as the run was then"""
    shots, metric, seen = [], RunningMetric(), []

    class Observe(Callback):
        def update(self, algorithm):
            metric.update(algorithm)
            seen.append((algorithm.n_gen, list(metric.delta_f), [max(a, b) > 0.005 for a, b in zip(metric.delta_ideal, metric.delta_nadir)]))

    class Noting(RunningMetricAnimation):
        def draw(self, data, ax):
            super().draw(data, ax)
            shots.append((self.last_gen, [(ln.get_label(), [float(v) for v in ln.get_xdata()], [float(v) for v in ln.get_ydata()], ln.get_marker()) for ln in ax.lines]))

        def do(self, problem, algorithm, **kwargs):
            self.last_gen = algorithm.n_gen
            super().do(problem, algorithm, **kwargs)

    r = gen.rng(case["s"])
    a, b = r.random(2) * 2

    class Two(Problem):
        def __init__(self):
            super().__init__(n_var=2, n_obj=2, xl=-1.0, xu=1.0)

        def _evaluate(self, X, out, *args, **kwargs):
            out["F"] = np.column_stack([(X[:, 0] - a) ** 2 + X[:, 1] ** 2, X[:, 0] ** 2 + (X[:, 1] + b) ** 2])

    try:
        minimize(Two(), NSGA2(pop_size=case["n"]), ("n_gen", case["gens"]), seed=case["s"], callback=CallbackCollection(Observe(), Noting(delta_gen=case["delta"], n_plots=case["plots"], key_press=False)))
    finally:
        plt.close("all")
    due = [e for e in seen if e[0] % case["delta"] == 0]
    t.nontrivial(len(due) > 1)
    t.require([g for g, _ in shots] == [e[0] for e in due], f"drawn in generations {[g for g, _ in shots]}, not in {[e[0] for e in due]}", "which")
    for k, (g, lines) in enumerate(shots):
        shown = due[max(0, k + 1 - case["plots"]):k + 1]
        curves = [ln for ln in lines if not ln[0].startswith("_")]
        t.require([c[0] for c in curves] == [f"t={e[0]}" for e in shown[:-1]] + [f"t={g} (*)"], f"lines {[c[0] for c in curves]} after generation {g}", "lines")
        for c, (tau, f, _) in zip(curves, shown):
            t.require(c[1] == list(range(1, tau + 1)), f"the line of generation {tau} is drawn at {c[1]}", "lines")
            t.close(c[2], np.array(f, dtype=float), f"line of generation {tau}")
        dots = sorted(ln[1][0] for ln in lines if ln[3] == "o")
        t.require(dots == [j + 1.0 for j, v in enumerate(shown[-1][2]) if v], f"marks at {dots} after generation {g}, the extreme points moved after {[j + 1 for j, v in enumerate(shown[-1][2]) if v]}", "marks")


@P.check(st.fixed_dictionaries(dict(n_var=st.integers(1, 2), c=st.integers(0, 6), n=st.integers(3, 9), kind=st.sampled_from(["wireframe", "contour", "wireframe+contour"]), back=st.booleans())), quick=40, thorough=500)
def surface(case, t):
    """the surface of a problem: the value at every point of the grid is the one of the problem there"""
    asked = []

    class Noting(Bumps):
        def _evaluate(self, X, out, *args, **kwargs):
            asked.append(X.copy())
            out["F"] = np.sin(3 * X[:, 0] + self.c) + (0.3 * X[:, 1] ** 2 if X.shape[1] > 1 else 0.0)

    prob = Noting(case["n_var"], case["c"])
    n = case["n"]
    seen = []
    from mpl_toolkits.mplot3d import Axes3D

    def note(name, orig):
        def f(self, *args, **kwargs):
            if len(args) >= 3:
                seen.append((name, *[np.array(e, dtype=float) for e in args[:3]]))
            return orig(self, *args, **kwargs)
        return f

    kept = {}
    for cls, name in ((Axes3D, "plot_wireframe"), (Axes3D, "plot_surface"), (Axes3D, "contour"), (matplotlib.axes.Axes, "contour")):
        kept[cls, name] = cls.__dict__[name]
        setattr(cls, name, note(name, kept[cls, name]))
    try:
        ret = plot_problem_surface(prob, n, plot_type=case["kind"], show=False, return_figure=case["back"])
        lines = [(np.array(ln.get_xdata(), dtype=float), np.array(ln.get_ydata(), dtype=float)) for ln in plt.gcf().axes[0].lines]
        if case["back"]:
            t.require(ret[0] is plt.gcf() and ret[1] is ret[0].axes[0], "the figure and its axes are not returned", "return")
    finally:
        for (cls, name), orig in kept.items():
            setattr(cls, name, orig)
        plt.close("all")
    t.nontrivial(True)
    X = np.vstack(asked)
    if case["n_var"] == 1:
        t.close(X[:, 0], np.linspace(-1.0, 3.0, n), "points of the line")
        t.require(len(lines) == 1, "one line is drawn", "line")
        t.close(lines[0][0], np.linspace(-1.0, 3.0, n), "the line")
        t.close(lines[0][1], np.sin(3 * lines[0][0] + case["c"]), "the line")
        return
    names_ = dict(wireframe=["plot_wireframe"], contour=["contour"])
    drawn_ = [e for e in seen if e[0] in names_.get(case["kind"], ["plot_surface", "contour"])]
    t.require(len({e[0] for e in drawn_}) == (2 if "+" in case["kind"] else 1), f"drawn: {[e[0] for e in drawn_]}", "what")
    for what, A, B, Z in drawn_:
        t.require(A.shape == B.shape == Z.shape == (n, n) and {*A.flatten()} == {*np.linspace(-1.0, 3.0, n)} and {*B.flatten()} == {*np.linspace(2.0, 4.0, n)}, f"{what}: the grid does not span the bounds", "grid")
        t.close(Z, np.sin(3 * A + case["c"]) + 0.3 * B ** 2, f"{what}: values on the grid")


@P.check(st.fixed_dictionaries(dict(n=st.integers(2, 5), poly=st.booleans(), ties=st.booleans(), s=gen.SEED)), quick=10, thorough=100)
def contours(case, t):
    """the plot of a value function: every solution, and the contour it is on"""
    r = gen.rng(case["s"])
    F = np.round(r.random((case["n"], 2)) * 4, 1)
    w = np.array([0.5, 0.25])
    if case["ties"]:
        F[1] = F[0] + [0.5, -1.0]
    k = np.array([0.25, 0.75, 0.5, 0.5, 1.0, 2.0])
    vf = (lambda Q: value_functions.poly_vf(Q, k)) if case["poly"] else (lambda Q: value_functions.linear_vf(Q, w))
    ref = (lambda a: float(np.squeeze(vf(a)))) if case["poly"] else (lambda a: a[0] * w[0] + a[1] * w[1])
    t.nontrivial(len({tuple(f) for f in F}) > 1)
    # a value function of equal values only has nothing to be drawn
    if np.ptp(F[:, 0]) == 0 or np.ptp(F[:, 1]) == 0 or np.ptp([ref(f) for f in F]) < 1e-6:
        return
    try:
        value_functions.plot_vf(F.copy(), vf, show=False)
        ax = plt.gcf().axes[0]
        pts = [np.array(c.get_offsets(), dtype=float) for c in ax.collections if isinstance(c, PathCollection)][0]
        names_ = [(e.get_text(), tuple(map(float, e.xy))) for e in ax.texts if hasattr(e, "xy")]
        levels = [np.array(c.levels, dtype=float) for c in ax.collections if hasattr(c, "levels")][0]
    finally:
        plt.close("all")
    t.require(np.array_equal(pts, F), "the solutions are not drawn where they are", "points")
    t.require(names_ == [(f"P{i + 1}", tuple(f)) for i, f in enumerate(F.tolist())], f"names {names_}", "names")
    V = [ref(f) for f in F]
    t.require(all(np.abs(levels - v).min() <= 1e-9 for v in V) and all(min(abs(v - u) for v in V) <= 1e-9 for u in levels), f"contours of {levels}, the solutions have the values {V}", "levels")


@P.check(st.fixed_dictionaries(dict(d=data(2, 3), labels=st.booleans(), no_fill=st.booleans(), style=st.sampled_from([{}, {}, dict(alpha=0.5), dict(alpha=0.25, zorder=7)]))), quick=40, thorough=500)
def shortcut(case, t):
    """the plotting function: every set of points at its coordinates, with its label and the style given"""
    sets = mk(case["d"])
    kept = [F.copy() for F in sets]
    labels = [f"set {i}" for i in range(len(sets))]
    try:
        plot(*sets, show=False, no_fill=case["no_fill"], labels=labels if case["labels"] else None, **case["style"])
        ax = plt.gcf().axes[0]
        cols = [c for c in ax.collections if isinstance(c, PathCollection)]
        pts = [np.column_stack([np.array(e, dtype=float) for e in c._offsets3d]) if case["d"]["m"] == 3 else np.array(c.get_offsets(), dtype=float) for c in cols]
        texts = [e.get_text() for e in ax.get_legend().get_texts()] if ax.get_legend() else []
        own = [c.get_alpha() for c in cols]
    finally:
        plt.close("all")
    t.nontrivial(sum(map(len, sets)) > 1)
    t.require(len(cols) == len(sets), f"{len(cols)} sets are drawn, {len(sets)} were given", "sets")
    for k, (p, F) in enumerate(zip(pts, kept)):
        t.require(p.shape == F.shape and np.array_equal(p, F), lambda: f"set {k} is drawn at {p}, it is {F}", "points")
        t.require(own[k] == case["style"].get("alpha"), f"set {k}: transparency {own[k]}", "style")
    t.require(texts == (labels if case["labels"] else []), f"legend {texts}", "legend")
    t.require(all(np.array_equal(a, b) for a, b in zip(sets, kept)), "the points given were modified", "given")
