"""Generated test problems (explicit formulas), shared by several properties."""
import numpy as np
from hypothesis import strategies as st

from pymoo.core.problem import ElementwiseProblem, Problem

from . import gen


@st.composite
def poly_spec(draw, nmax=4, mmax=3, gmax=2, hmax=1):
    return dict(n=draw(st.integers(1, nmax)), m=draw(st.integers(1, mmax)), g=draw(st.integers(0, gmax)), h=draw(st.integers(0, hmax)),
                s=draw(st.integers(0, 10 ** 6)))


class Poly:
    """f_i(x) = a_i . (x - c_i)^2 + b_i . x with dyadic coefficients, likewise g and h"""

    def __init__(self, spec):
        r = np.random.default_rng(spec["s"])
        n = spec["n"]
        self.n, self.m, self.g, self.h = n, spec["m"], spec["g"], spec["h"]

        def coef(k):
            return r.integers(-4, 5, (k, n)) / 4.0, r.integers(-4, 5, (k, n)) / 4.0, r.integers(-4, 5, (k, n)) / 2.0

        self.cF, self.cG, self.cH = coef(self.m), coef(self.g), coef(self.h)
        self.cF = (np.abs(self.cF[0]) + 0.25, *self.cF[1:])
        self.xl, self.xu = -1.0 - r.integers(0, 3, n), 1.0 + r.integers(0, 3, n)

    @staticmethod
    def _ev(c, x):
        a, z, b = c
        out = []
        for i in range(len(a)):
            v = 0.0
            for j in range(len(x)):
                v += a[i, j] * (x[j] - z[i, j]) ** 2 + b[i, j] * x[j]
            out.append(v)
        return np.array(out, dtype=float)

    def F(self, x):
        return self._ev(self.cF, x)

    def G(self, x):
        return self._ev(self.cG, x) - 0.5

    def H(self, x):
        return self._ev(self.cH, x)

    def all(self, X):
        k = len(X)
        return (np.array([self.F(x) for x in X]).reshape(k, self.m), np.array([self.G(x) for x in X]).reshape(k, self.g),
                np.array([self.H(x) for x in X]).reshape(k, self.h))

    def kw(self):
        return dict(n_var=self.n, n_obj=self.m, n_ieq_constr=self.g, n_eq_constr=self.h, xl=self.xl.astype(float), xu=self.xu.astype(float))


class VecPoly(Problem):
    def __init__(self, poly, style="matrix", log=None, **kw):
        super().__init__(**poly.kw(), **kw)
        self.poly, self.style, self.log = poly, style, log

    def _evaluate(self, X, out, *args, **kwargs):
        if self.log is not None:
            self.log.append(np.array(X))
        F, G, H = self.poly.all(X)
        for k, v in dict(F=F, G=G, H=H).items():
            if v.shape[1] == 0 and self.style != "matrix":
                continue
            if self.style == "columns":
                v = [v[:, i] for i in range(v.shape[1])]
            elif self.style == "flat" and v.shape[1] == 1:
                v = v[:, 0]
            out[k] = v
        if kwargs.get("tag") is not None:
            out["tag"] = np.full(len(X), float(kwargs["tag"]))


class ElemPoly(ElementwiseProblem):
    def __init__(self, poly, style="matrix", log=None, **kw):
        super().__init__(**poly.kw(), **kw)
        self.poly, self.style, self.log = poly, style, log

    def _evaluate(self, x, out, *args, **kwargs):
        if self.log is not None:
            self.log.append(np.array(x))
        F, G, H = self.poly.F(x), self.poly.G(x), self.poly.H(x)
        for k, v in dict(F=F, G=G, H=H).items():
            if len(v) == 0 and self.style != "matrix":
                continue
            if self.style == "columns":
                v = [float(e) for e in v]
            elif self.style == "flat" and len(v) == 1:
                v = float(v[0])
            out[k] = v
        if kwargs.get("tag") is not None:
            out["tag"] = float(kwargs["tag"])


def mk_X(poly, k, seed):
    r = gen.rng(seed)
    return np.round(poly.xl + r.random((k, poly.n)) * (poly.xu - poly.xl), 3)
