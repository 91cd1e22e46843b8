"""Reference formulas of the benchmark problems, written point by point in plain Python from their published definitions.

`REF[name](x, P)` gets one point (a list of numbers) and the problem's parameters and returns (F, G, H).
"""
from math import cos, sin, pi, exp, sqrt, log, fabs, prod, atan2, floor, ceil, inf, hypot

REF = {}


def ref(*names):
    def deco(f):
        for n in names:
            REF[n] = f
        return f
    return deco


def single(name):
    def deco(f):
        REF[name] = lambda x, P: ([f(x, P)], [], [])
        return f
    return deco


def sq(v):
    return v * v


# ------------------------------------------------------------------------------------------- unconstrained, one objective

@single("ackley")
def _(x, P):
    n = len(x)
    a, b, c = P.get("a", 20), P.get("b", 0.2), P.get("c", 2 * pi)
    rms = sqrt(sum(v * v for v in x) / n)
    return a - a * exp(-b * rms) + exp(1) - exp(sum(cos(c * v) for v in x) / n)


@single("griewank")
def _(x, P):
    return sum(v * v for v in x) / 4000 - prod(cos(v / sqrt(i)) for i, v in enumerate(x, 1)) + 1


@single("himmelblau")
def _(x, P):
    a, b = x
    return sq(a * a + b - 11) + sq(b * b + a - 7)


@single("rastrigin")
def _(x, P):
    A = P.get("A", 10.0)
    return sum(A + v * v - A * cos(2 * pi * v) for v in x)


@single("rosenbrock")
def _(x, P):
    return sum(100 * sq(b - a * a) + sq(a - 1) for a, b in zip(x, x[1:]))


@single("schwefel")
def _(x, P):
    return sum(418.9829 - v * sin(sqrt(abs(v))) for v in x)


@single("sphere")
def _(x, P):
    return sum(sq(v - 0.5) for v in x)


@single("zakharov")
def _(x, P):
    s = sum(i * v for i, v in enumerate(x, 1)) / 2
    return sum(v * v for v in x) + s ** 2 + s ** 4


@single("mm1")
def _(x, P):
    return 1 - exp(-x[0] ** 2) * sin(2 * pi * x[0]) ** 2


@single("mm2")
def _(x, P):
    return 1.1 - exp(2 * x[0]) * sin(5 * pi * x[0]) ** 2


@single("simple01")
def _(x, P):
    a, b = x
    return -exp(-9 * abs(a * b)) * sq(sin(3 * pi * a)) * sq(sin(3 * pi * b))


@ref("cantilevered_beam")
def _(x, P):
    b1, h1, b2, H = x
    E, L, load = 1e7, 36.0, 1000.0
    web = b2 * (H - 2 * h1) ** 3 / 12
    flange = b1 * h1 ** 3 / 12 + b1 * h1 * sq(H - h1) / 4
    inertia = web + 2 * flange
    volume = L * (2 * b1 * h1 + b2 * (H - 2 * h1))
    sigma = load * L * H / (2 * inertia)
    delta = load * L ** 3 / (3 * E * inertia)
    return [volume], [sigma / 5000 - 1, delta / 0.1 - 1], []


@ref("pressure_vessel")
def _(x, P):
    ts, th, r, L = x[0] / 16, x[1] / 16, x[2], x[3]
    f = 0.6224 * ts * r * L + 1.7781 * th * r * r + 3.1661 * ts * ts * L + 19.84 * ts * ts * r
    return [f], [(0.0193 * r - ts) / 3, (0.00954 * r - th) / 3,
                 1 - pi * (r * r * L + 4 / 3 * r ** 3) / 1296000, L / 240 - 1], []


# --------------------------------------------------------------------------------------------------------- CEC2006 (G)

@ref("g1")
def _(x, P):
    _, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13 = [0] + list(x)
    f = sum(5 * v - 5 * v * v for v in x[:4]) - sum(x[4:])
    return [f], [2 * (x1 + x2) + x10 + x11 - 10, 2 * (x1 + x3) + x10 + x12 - 10, 2 * (x2 + x3) + x11 + x12 - 10,
                 x10 - 8 * x1, x11 - 8 * x2, x12 - 8 * x3,
                 x10 - 2 * x4 - x5, x11 - 2 * x6 - x7, x12 - 2 * x8 - x9], []


@ref("g2")
def _(x, P):
    num = sum(cos(v) ** 4 for v in x) - 2 * prod(cos(v) ** 2 for v in x)
    den = sqrt(sum(i * v * v for i, v in enumerate(x, 1)))
    return [-abs(num / den)], [0.75 - prod(x), sum(x) - 7.5 * len(x)], []


@ref("g3")
def _(x, P):
    n = len(x)
    return [-(sqrt(n) ** n) * prod(x)], [], [sum(v * v for v in x) - 1]


@ref("g4")
def _(x, P):
    x1, x2, x3, x4, x5 = x
    f = 5.3578547 * x3 * x3 + 0.8356891 * x1 * x5 + 37.293239 * x1 - 40792.141
    a = 85.334407 + 0.0056858 * x2 * x5 + 0.0006262 * x1 * x4 - 0.0022053 * x3 * x5
    b = 80.51249 + 0.0071317 * x2 * x5 + 0.0029955 * x1 * x2 + 0.0021813 * x3 * x3
    c = 9.300961 + 0.0047026 * x3 * x5 + 0.0012547 * x1 * x3 + 0.0019085 * x3 * x4
    return [f], [0 - a, a - 92, 90 - b, b - 110, 20 - c, c - 25], []


@ref("g5")
def _(x, P):
    a, b, c, d = x
    f = 3 * a + 1e-6 * a ** 3 + 2 * b + 2e-6 / 3 * b ** 3
    return [f], [c - d - 0.55, d - c - 0.55], [
        1000 * (sin(-c - 0.25) + sin(-d - 0.25)) + 894.8 - a,
        1000 * (sin(c - 0.25) + sin(c - d - 0.25)) + 894.8 - b,
        1000 * (sin(d - 0.25) + sin(d - c - 0.25)) + 1294.8]


@ref("g6")
def _(x, P):
    a, b = x
    return [(a - 10) ** 3 + (b - 20) ** 3], [100 - sq(a - 5) - sq(b - 5), sq(a - 6) + sq(b - 5) - 82.81], []


@ref("g7")
def _(x, P):
    a, b, c, d, e, f, g, h, i, j = x
    v = (a * a + b * b + a * b - 14 * a - 16 * b + sq(c - 10) + 4 * sq(d - 5) + sq(e - 3) + 2 * sq(f - 1) + 5 * g * g
         + 7 * sq(h - 11) + 2 * sq(i - 10) + sq(j - 7) + 45)
    return [v], [-105 + 4 * a + 5 * b - 3 * g + 9 * h, 10 * a - 8 * b - 17 * g + 2 * h, -8 * a + 2 * b + 5 * i - 2 * j - 12,
                 3 * sq(a - 2) + 4 * sq(b - 3) + 2 * c * c - 7 * d - 120, 5 * a * a + 8 * b + sq(c - 6) - 2 * d - 40,
                 a * a + 2 * sq(b - 2) - 2 * a * b + 14 * e - 6 * f, 0.5 * sq(a - 8) + 2 * sq(b - 4) + 3 * e * e - f - 30,
                 -3 * a + 6 * b + 12 * sq(i - 8) - 7 * j], []


@ref("g8")
def _(x, P):
    a, b = x
    f = -(sin(2 * pi * a) ** 3) * sin(2 * pi * b) / (a ** 3 * (a + b))
    return [f], [a * a - b + 1, 1 - a + sq(b - 4)], []


@ref("g9")
def _(x, P):
    a, b, c, d, e, f, g = x
    v = (sq(a - 10) + 5 * sq(b - 12) + c ** 4 + 3 * sq(d - 11) + 10 * e ** 6 + 7 * f * f + g ** 4 - 4 * f * g - 10 * f - 8 * g)
    return [v], [2 * a * a + 3 * b ** 4 + c + 4 * d * d + 5 * e - 127, 7 * a + 3 * b + 10 * c * c + d - e - 282,
                 23 * a + b * b + 6 * f * f - 8 * g - 196,
                 4 * a * a + b * b - 3 * a * b + 2 * c * c + 5 * f - 11 * g], []


@ref("g10")
def _(x, P):
    a, b, c, d, e, f, g, h = x
    return [a + b + c], [0.0025 * (d + f) - 1, 0.0025 * (e + g - d) - 1, 0.01 * (h - e) - 1,
                         -a * f + 833.33252 * d + 100 * a - 83333.333, -b * g + 1250 * e + b * d - 1250 * d,
                         -c * h + 1250000 + c * e - 2500 * e], []


@ref("g11")
def _(x, P):
    a, b = x
    return [a * a + sq(b - 1)], [b - a * a], []


@ref("g12")
def _(x, P):
    f = -(100 - sum(sq(v - 5) for v in x)) / 100
    near = [min(sq(v - k) for k in range(1, 10)) for v in x]
    return [f], [sum(near) - 0.0625], []


@ref("g13")
def _(x, P):
    a, b, c, d, e = x
    return [exp(a * b * c * d * e)], [], [sum(v * v for v in x) - 10, b * c - 5 * d * e, a ** 3 + b ** 3 + 1]


@ref("g14")
def _(x, P):
    c = (-6.089, -17.164, -34.054, -5.914, -24.721, -14.986, -24.1, -10.708, -26.662, -22.179)
    s = sum(x)
    f = sum(v * (k + log(v) - log(s)) for v, k in zip(x, c))
    return [f], [], [x[0] + 2 * (x[1] + x[2]) + x[5] + x[9] - 2, x[3] + 2 * x[4] + x[5] + x[6] - 1,
                     x[2] + x[6] + x[7] + 2 * x[8] + x[9] - 1]


@ref("g15")
def _(x, P):
    a, b, c = x
    return [1000 - a * a - 2 * b * b - c * c - a * b - a * c], [], [a * a + b * b + c * c - 25, 8 * a + 14 * b + 7 * c - 56]


@ref("g16")
def _(x, P):
    x1, x2, x3, x4, x5 = x
    y1 = x2 + x3 + 41.6
    c1 = 0.024 * x4 - 4.62
    y2 = 12.5 / c1 + 12
    c2 = 0.0003535 * x1 * x1 + 0.5311 * x1 + 0.08705 * y2 * x1
    c3 = 0.052 * x1 + 78 + 0.002377 * y2 * x1
    y3 = c2 / c3
    y4 = 19 * y3
    c4 = 0.04782 * (x1 - y3) + 0.1956 * sq(x1 - y3) / x2 + 0.6376 * y4 + 1.594 * y3
    c5 = 100 * x2
    c6 = x1 - y3 - y4
    c7 = 0.950 - c4 / c5
    y5 = c6 * c7
    y6 = x1 - y5 - y4 - y3
    c8 = 0.995 * (y4 + y5)
    y7 = c8 / y1
    y8 = c8 / 3798
    c9 = y7 - 0.0663 * y7 / y8 - 0.3153
    y9 = 96.82 / c9 + 0.321 * y1
    y10 = 1.29 * y5 + 1.258 * y4 + 2.29 * y3 + 1.71 * y6
    y11 = 1.71 * x1 - 0.452 * y4 + 0.58 * y3
    c10 = 12.3 / 752.3
    c11 = 1.75 * y2 * 0.995 * x1
    c12 = 0.995 * y10 + 1998
    y12 = c10 * x1 + c11 / c12
    y13 = c12 - 1.75 * y2
    y14 = 3623 + 64.4 * x2 + 58.4 * x3 + 146312 / (y9 + x5)
    c13 = 0.995 * y10 + 60.8 * x2 + 48 * x4 - 0.1121 * y14 - 5095
    y15 = y13 / c13
    y16 = 148000 - 331000 * y15 + 40 * y13 - 61 * y15 * y13
    c14 = 2324 * y10 - 28740000 * y2
    y17 = 14130000 - 1328 * y10 - 531 * y11 + c14 / c12
    c15 = y13 / y15 - y13 / 0.52
    c16 = 1.104 - 0.72 * y15
    c17 = y9 + x5
    f = (0.000117 * y14 + 0.1365 + 0.00002358 * y13 + 0.000001502 * y16 + 0.0321 * y12 + 0.004324 * y5
         + 0.0001 * c15 / c16 + 37.48 * y2 / c12 - 0.0000005843 * y17)
    G = [0.28 / 0.72 * y5 - y4, x3 - 1.5 * x2, 3496 * y2 / c12 - 21, 110.6 + y1 - 62212 / c17]
    bounds = [(y1, 213.1, 405.23), (y2, 17.505, 1053.6667), (y3, 11.275, 35.03), (y4, 214.228, 665.585),
              (y5, 7.458, 584.463), (y6, 0.961, 265.916), (y7, 1.612, 7.046), (y8, 0.146, 0.222), (y9, 107.99, 273.366),
              (y10, 922.693, 1286.105), (y11, 926.832, 1444.046), (y12, 18.766, 537.141), (y13, 1072.163, 3247.039),
              (y14, 8961.448, 26844.086), (y15, 0.063, 0.386), (y16, 71084.33, 140000), (y17, 2802713, 12146108)]
    for v, lo, hi in bounds:
        G += [lo - v, v - hi]
    return [f], G, []


@ref("g17")
def _(x, P):
    a, b, c, d, e, w = x
    f = (30 if a < 300 else 31) * a + (28 if b < 100 else 29 if b < 200 else 30) * b
    k = c * d / 131.078
    p, q = 0.90798 * c * c / 131.078, 0.90798 * d * d / 131.078
    u, v, z = 1.48477 - w, 1.48477 + w, 1.47588
    return [f], [], [-a + 300 - k * cos(u) + p * cos(z), -b - k * cos(v) + q * cos(z),
                     -e - k * sin(v) + q * sin(z), 200 - k * sin(u) + p * sin(z)]


@ref("g18")
def _(x, P):
    x1, x2, x3, x4, x5, x6, x7, x8, x9 = x
    f = -0.5 * (x1 * x4 - x2 * x3 + x3 * x9 - x5 * x9 + x5 * x8 - x6 * x7)
    d = lambda a, b: a * a + b * b - 1
    return [f], [d(x3, x4), x9 * x9 - 1, d(x5, x6), d(x1, x2 - x9), d(x1 - x5, x2 - x6), d(x1 - x7, x2 - x8),
                 d(x3 - x5, x4 - x6), d(x3 - x7, x4 - x8), d(x7, x8 - x9), x2 * x3 - x1 * x4, -x3 * x9, x5 * x9,
                 x6 * x7 - x5 * x8], []


@ref("g19")
def _(x, P):
    A = ((-16, 2, 0, 1, 0), (0, -2, 0, 0.4, 2), (-3.5, 0, 2, 0, 0), (0, -2, 0, -4, -1), (0, -9, -2, 1, -2.8),
         (2, 0, -4, 0, 0), (-1, -1, -1, -1, -1), (-1, -2, -3, -2, -1), (1, 2, 3, 4, 5), (1, 1, 1, 1, 1))
    b = (-40, -2, -0.25, -4, -4, -1, -40, -60, 5, 1)
    c = ((30, -20, -10, 32, -10), (-20, 39, -6, -31, 32), (-10, -6, 10, -6, -10), (32, -31, -6, 39, -20), (-10, 32, -10, -20, 30))
    d = (4, 8, 10, 6, 2)
    e = (-15, -27, -36, -18, -12)
    y, z = x[:10], x[10:]
    f = sum(c[i][j] * z[i] * z[j] for i in range(5) for j in range(5)) + 2 * sum(d[j] * z[j] ** 3 for j in range(5)) \
        - sum(b[i] * y[i] for i in range(10))
    G = [-2 * sum(c[i][j] * z[i] for i in range(5)) - 3 * d[j] * z[j] ** 2 - e[j] + sum(A[i][j] * y[i] for i in range(10))
         for j in range(5)]
    return [f], G, []


@ref("g20")
def _(x, P):
    a = (0.0693, 0.0577, 0.05, 0.2, 0.26, 0.55, 0.06, 0.1, 0.12, 0.18, 0.1, 0.09)
    b = (44.094, 58.12, 58.12, 137.4, 120.9, 170.9, 62.501, 84.94, 133.425, 82.507, 46.07, 60.097)
    c = (123.7, 31.7, 45.7, 14.7, 84.7, 27.7, 49.7, 7.1, 2.1, 17.7, 0.85, 0.64)
    d = (31.244, 36.12, 34.784, 92.7, 82.7, 91.6, 56.708, 82.7, 80.8, 64.517, 49.4, 49.1)
    e = (0.1, 0.3, 0.4, 0.3, 0.6, 0.3)
    lo, up = x[:12], x[12:]
    s = sum(x)
    f = sum(k * (u + v) for k, u, v in zip(a, lo, up))
    slo, sup = sum(v / k for v, k in zip(lo, b)), sum(v / k for v, k in zip(up, b))
    G = [(lo[i] + up[i]) / (s + e[i]) for i in range(3)] + [(lo[i] + up[i]) / (s + e[i]) for i in (3, 4, 5)]
    G[3:] = [(x[i + 3] + x[i + 15]) / (s + e[i]) for i in (3, 4, 5)]
    H = [up[i] / (b[i] * sup) - c[i] * lo[i] / (40 * b[i] * slo) for i in range(12)]
    H += [s - 1, sum(v / k for v, k in zip(lo, d)) + 0.7302 * 530 * 14.7 / 40 * sup - 1.671]
    return [f], G, H


@ref("g21")
def _(x, P):
    a, b, c, d, e, f, g = x
    return [a], [35 * b ** 0.6 + 35 * c ** 0.6 - a], [
        -300 * c + 7500 * e - 7500 * f - 25 * d * e + 25 * d * f + c * d,
        100 * b + 155.365 * d + 2500 * g - b * d - 25 * d * g - 15536.5,
        log(900 - d) - e, log(d + 300) - f, log(700 - 2 * d) - g]


@ref("g22")
def _(x, P):
    v = dict(enumerate(x, 1))
    ln = log
    H = [v[5] - 1e5 * v[8] + 1e7, v[6] + 1e5 * v[8] - 1e5 * v[9], v[7] + 1e5 * v[9] - 5e7, v[5] + 1e5 * v[10] - 3.3e7,
         v[6] + 1e5 * v[11] - 4.4e7, v[7] + 1e5 * v[12] - 6.6e7, v[5] - 120 * v[2] * v[13], v[6] - 80 * v[3] * v[14],
         v[7] - 40 * v[4] * v[15], v[8] - v[11] + v[16], v[9] - v[12] + v[17], ln(v[10] - 100) - v[18],
         ln(300 - v[8]) - v[19], ln(v[16]) - v[20], ln(400 - v[9]) - v[21], ln(v[17]) - v[22],
         -v[8] - v[10] + v[13] * v[18] - v[13] * v[19] + 400,
         v[8] - v[9] - v[11] + v[14] * v[20] - v[14] * v[21] + 400,
         v[9] - v[12] - 4.60517 * v[15] + v[15] * v[22] + 100]
    return [v[1]], [-v[1] + v[2] ** 0.6 + v[3] ** 0.6 + v[4] ** 0.6], H


@ref("g23")
def _(x, P):
    a, b, c, d, e, f, g, h, i = x
    return [-9 * e - 15 * h + 6 * a + 16 * b + 10 * (f + g)], [i * c + 0.02 * f - 0.025 * e, i * d + 0.02 * g - 0.015 * h], [
        a + b - c - d, 0.03 * a + 0.01 * b - i * (c + d), c + f - e, d + g - h]


@ref("g24")
def _(x, P):
    a, b = x
    return [-a - b], [-2 * a ** 4 + 8 * a ** 3 - 8 * a * a + b - 2, -4 * a ** 4 + 32 * a ** 3 - 88 * a * a + 96 * a + b - 36], []


# ------------------------------------------------------------------------------------------- two and more objectives

@ref("bnh")
def _(x, P):
    a, b = x
    return [4 * (a * a + b * b), sq(a - 5) + sq(b - 5)], [(sq(a - 5) + b * b - 25) / 25, (7.7 - sq(a - 8) - sq(b + 3)) / 7.7], []


@ref("carside", "csi")
def _(x, P):
    x1, x2, x3, x4, x5, x6, x7 = x
    weight = 1.98 + 4.9 * x1 + 6.67 * x2 + 6.98 * x3 + 4.01 * x4 + 1.78 * x5 + 1e-5 * x6 + 2.73 * x7
    force = 4.72 - 0.5 * x4 - 0.19 * x2 * x3
    vmbp = 10.58 - 0.674 * x1 * x2 - 0.67275 * x2
    vfd = 16.45 - 0.489 * x3 * x7 - 0.843 * x5 * x6
    G = [(1.16 - 0.3717 * x2 * x4 - 0.0092928 * x3, 1.0),
         (0.261 - 0.0159 * x1 * x2 - 0.06486 * x1 - 0.019 * x2 * x7 + 0.0144 * x3 * x5 + 0.0154464 * x6, 0.32),
         (0.214 + 0.00817 * x5 - 0.045195 * x1 - 0.0135168 * x1 + 0.03099 * x2 * x6 - 0.018 * x2 * x7 + 0.007176 * x3
          + 0.023232 * x3 - 0.00364 * x5 * x6 - 0.018 * x2 * x2, 0.32),
         (0.74 - 0.61 * x2 - 0.031296 * x3 - 0.031872 * x7 + 0.227 * x2 * x2, 0.32),
         (28.98 + 3.818 * x3 - 4.2 * x1 * x2 + 1.27296 * x6 - 2.68065 * x7, 32.0),
         (33.86 + 2.95 * x3 - 5.057 * x1 * x2 - 3.795 * x2 - 3.4431 * x7 + 1.45728, 32.0),
         (46.36 - 9.9 * x2 - 4.4505 * x1, 32.0), (force, 4.0), (vmbp, 9.9), (vfd, 15.7)]
    scale = P["scaled"]
    return [weight, force, (vmbp + vfd) / 2], [(v / k - 1) if scale else v - k for v, k in G], []


@ref("clutch")
def _(x, P):
    ri, ro, t, F, Z = 60 + x[0], 90 + x[1], 1 + 0.5 * x[2], 600 + x[3], 2 + x[4]
    area = pi * (ro ** 2 - ri ** 2)
    ratio = 2 / 3 * (ro ** 3 - ri ** 3) / (ro ** 2 - ri ** 2)
    pressure = F / area
    Mh = 0.5 * F * Z * ratio / 1000
    v = pi * ratio * 250 / 30
    T = 55 * (pi * 250 / 30) / (Mh + 3)
    mass = area * t * (Z + 1) * 0.0000078
    return [mass, T], [20 - (ro - ri), (Z + 1) * (t + 0.5) - 30, pressure - 1, pressure * v - 10000, v - 10000,
                       60 - Mh, -T, T - 15], []


@ref("kursawe")
def _(x, P):
    return [sum(-10 * exp(-0.2 * hypot(a, b)) for a, b in zip(x, x[1:])), sum(abs(v) ** 0.8 + 5 * sin(v ** 3) for v in x)], [], []


@ref("omnitest")
def _(x, P):
    return [sum(sin(pi * v) for v in x), sum(cos(pi * v) for v in x)], [], []


@ref("osy")
def _(x, P):
    a, b, c, d, e, f = x
    f1 = -(25 * sq(a - 2) + sq(b - 2) + sq(c - 1) + sq(d - 4) + sq(e - 1))
    return [f1, sum(v * v for v in x)], [1 - (a + b) / 2, (a + b) / 6 - 1, (b - a) / 2 - 1, (a - 3 * b) / 2 - 1,
                                         (sq(c - 3) + d) / 4 - 1, 1 - (sq(e - 3) + f) / 4], []


@ref("srn")
def _(x, P):
    a, b = x
    return [2 + sq(a - 2) + sq(b - 1), 9 * a - sq(b - 1)], [a * a + b * b - 225, a - 3 * b + 10], []


@ref("tnk")
def _(x, P):
    a, b = x
    return [a, b], [-(a * a + b * b - 1 - 0.1 * cos(16 * atan2(a, b))), 2 * (sq(a - 0.5) + sq(b - 0.5)) - 1], []


@ref("truss2d")
def _(x, P):
    a, b, y = x
    ac, bc = sqrt(16 + y * y), sqrt(1 + y * y)
    stress = max(20 * ac / (y * a) if a else inf, 80 * bc / (y * b) if b else inf)
    return [a * ac + b * bc, stress], [stress - 1e5], []


@ref("welded_beam")
def _(x, P):
    h, l, t, b = x
    load, L = 6000, 14
    R = sqrt(l * l / 4 + sq((h + t) / 2))
    M = load * (L + l / 2)
    J = 2 * (sqrt(0.5) * h * l * (l * l / 12 + sq((h + t) / 2)))
    ta, tb = load / (sqrt(2) * h * l), M * R / J
    tau = sqrt(ta * ta + tb * tb + l * ta * tb / R)
    sigma = 504000 / (t * t * b)
    pc = 64746.022 * (1 - 0.0282346 * t) * t * b ** 3
    return [1.10471 * h * h * l + 0.04811 * t * b * (14 + l), 2.1952 / (t ** 3 * b)], [
        tau / 13600 - 1, sigma / 30000 - 1, (h - b) / 4.875, 1 - pc / load], []


@ref("wrm")
def _(x, P):
    a, b, c = x
    inv = 1 / (a * b)
    F = [106780.37 * (b + c) + 61704.67, 3000 * a, 305700 * 2289 * b / (0.06 * 2289) ** 0.65,
         250 * 2289 * exp(-39.75 * b + 9.9 * c + 2.74), 25 * (1.39 * inv + 4940 * c - 80)]
    G = [0.00139 * inv + 4.94 * c - 0.08 - 1, 0.000306 * inv + 1.082 * c - 0.0986 - 1,
         12.307 * inv + 49408.24 * c + 4051.02 - 50000, 2.098 * inv + 8046.33 * c - 696.71 - 16000,
         2.138 * inv + 7883.39 * c - 705.04 - 10000, 0.417 * inv + 1721.26 * c - 136.54 - 2000,
         0.164 * inv + 631.13 * c - 54.58 - 550]
    return F, G, []


@ref("sympart", "sympart_rotated")
def _(x, P):
    a, b, c = P.get("length", 1), P.get("v_dist", 10), P.get("h_dist", 10)
    w = P.get("angle", 0)
    u, v = cos(w) * x[0] + sin(w) * x[1], -sin(w) * x[0] + cos(w) * x[1]
    if w == 0:
        u, v = x

    def tile(z, half, width):
        s = (z > 0) - (z < 0)
        k = ceil((abs(z) - half) / width)
        k = max(-1, min(1, k))
        return s * k

    t1, t2 = tile(u, a + c / 2, 2 * a + c), tile(v, b / 2, b)
    p, q = u - t1 * c, v - t2 * b
    return [sq(p + a) + q * q, sq(p - a) + q * q], [], []


# ---------------------------------------------------------------------------------------------------------------- ZDT

def _zdt(name, g, f2, f1=lambda x: x[0]):
    def f(x, P):
        a, k = f1(x), g(x)
        return [a, f2(a, k)], [], []
    REF[name] = f


_mean9 = lambda x: 1 + 9 * sum(x[1:]) / (len(x) - 1)
_zdt("zdt1", _mean9, lambda a, g: g - sqrt(a * g))
_zdt("zdt2", _mean9, lambda a, g: g - a * a / g)
_zdt("zdt3", _mean9, lambda a, g: g - sqrt(a * g) - a * sin(10 * pi * a))
_zdt("zdt4", lambda x: 1 + sum(10 + v * v - 10 * cos(4 * pi * v) for v in x[1:]), lambda a, g: g - sqrt(a * g))
_zdt("zdt6", lambda x: 1 + 9 * (sum(x[1:]) / (len(x) - 1)) ** 0.25, lambda a, g: g - a * a / g,
     lambda x: 1 - exp(-4 * x[0]) * sin(6 * pi * x[0]) ** 6)


@ref("zdt5")
def _(x, P):
    m, n = P.get("m", 11), P.get("n", 5)
    f1 = 1 + sum(1 for v in x[:30] if v)
    g = 0
    for i in range(m - 1):
        u = sum(1 for v in x[30 + i * n:30 + (i + 1) * n] if v)
        g += 1 if u == n else 2 + u
    f2 = g / f1
    if P.get("normalize", True):
        lo, hi = (m - 1) / 31, m - 1
        f1, f2 = (f1 - 1) / 30, (f2 - lo) / (hi - lo)
    return [f1, f2], [], []


# --------------------------------------------------------------------------------------------------------------- DTLZ

def _g_rastrigin(z):
    return 100 * sum(1 + sq(v - 0.5) - cos(20 * pi * (v - 0.5)) for v in z)


def _g_sphere(z):
    return sum(sq(v - 0.5) for v in z)


def _linear(pos, r):
    """f_1 = r x1 x2 ..., f_i = r x1 .. x_{M-i} (1 - x_{M-i+1})"""
    M = len(pos) + 1
    return [r * prod(pos[:M - 1 - i]) * ((1 - pos[M - 1 - i]) if i else 1) for i in range(M)]


def _sphere(pos, r):
    M = len(pos) + 1
    th = [v * pi / 2 for v in pos]
    return [r * prod(cos(t) for t in th[:M - 1 - i]) * (sin(th[M - 1 - i]) if i else 1) for i in range(M)]


def dtlz(k, x, P):
    M = P["n_obj"]
    pos, dist = list(x[:M - 1]), list(x[M - 1:])
    if k == 1:
        g = _g_rastrigin(dist)
        return _linear(pos, 0.5 * (1 + g)), g
    if k == 2:
        g = _g_sphere(dist)
        return _sphere(pos, 1 + g), g
    if k == 3:
        g = _g_rastrigin(dist)
        return _sphere(pos, 1 + g), g
    if k == 4:
        g = _g_sphere(dist)
        a = P.get("alpha", 100)
        return _sphere([v ** a for v in pos], 1 + g), g
    if k in (5, 6):
        g = _g_sphere(dist) if k == 5 else sum(v ** 0.1 for v in dist)
        th = [pos[0]] + [(1 + 2 * g * v) / (2 * (1 + g)) for v in pos[1:]]
        return _sphere(th, 1 + g), g
    if k == 7:
        g = 1 + 9 * sum(dist) / len(dist)
        h = M - sum(v / (1 + g) * (1 + sin(3 * pi * v)) for v in pos)
        return pos + [(1 + g) * h], g
    raise ValueError(k)


def _c2(F, r):
    M = len(F)
    tot = sum(v * v for v in F)
    v1 = min(sq(v - 1) + tot - v * v - r * r for v in F)
    v2 = sum(sq(v - 1 / sqrt(M)) for v in F) - r * r
    return [min(v1, v2)]


_C1R = lambda M: 9.0 if M < 5 else 12.5 if M <= 12 else 15.0
_C2R = lambda M: {2: 0.2, 3: 0.4}.get(M, 0.5)

DTLZ = {  # name: (base, transform of the objectives, constraints)
    "dtlz1^-1": (1, lambda F, g, P: [0.5 * (1 + g) - v for v in F], None),
    "sdtlz1": (1, lambda F, g, P: [v * P.get("scale_factor", 10) ** i for i, v in enumerate(F)], None),
    "convex_dtlz2": (2, lambda F, g, P: [v ** 4 for v in F[:-1]] + [F[-1] ** 2], None),
    "convex_dtlz4": (4, lambda F, g, P: [v ** 4 for v in F[:-1]] + [F[-1] ** 2], None),
    "c1dtlz1": (1, None, lambda x, F, g, P: [F[-1] / 0.6 + sum(F[:-1]) / 0.5 - 1]),
    "c1dtlz3": (3, None, lambda x, F, g, P: [-(sum(v * v for v in F) - 16) * (sum(v * v for v in F) - sq(P.get("r") or _C1R(len(F))))]),
    "c2dtlz2": (2, None, lambda x, F, g, P: _c2(F, P.get("r") or _C2R(len(F)))),
    "c3dtlz1": (1, None, lambda x, F, g, P: [1 - v - sum(F) for v in F]),
    "c3dtlz4": (4, None, lambda x, F, g, P: [1 + 0.75 * v * v - sum(w * w for w in F) for v in F]),
    "dc1dtlz1": (1, None, lambda x, F, g, P: [0.95 - cos(5 * pi * x[0])]),
    "dc1dtlz3": (3, None, lambda x, F, g, P: [0.95 - cos(5 * pi * x[0])]),
    "dc2dtlz1": (1, None, lambda x, F, g, P: [0.9 - cos(3 * pi * g / 100), 0.9 - exp(-g / 100)]),
    "dc2dtlz3": (3, None, lambda x, F, g, P: [0.9 - cos(3 * pi * g / 100), 0.9 - exp(-g / 100)]),
    "dc3dtlz1": (1, None, lambda x, F, g, P: [0.5 - cos(5 * pi * v) for v in [g] + list(x[:P["n_obj"] - 1])]),
    "dc3dtlz3": (3, None, lambda x, F, g, P: [0.5 - cos(5 * pi * v) for v in [g] + list(x[:P["n_obj"] - 1])]),
}
for _k in range(1, 8):
    DTLZ["dtlz%d" % _k] = (_k, None, None)


def _dtlz(name):
    base, tf, con = DTLZ[name]

    def f(x, P):
        F, g = dtlz(base, x, P)
        G = con(x, F, g, P) if con else []
        return (tf(F, g, P) if tf else F), G, []
    REF[name] = f


for _n in DTLZ:
    _dtlz(_n)


# ---------------------------------------------------------------------------------------------------------------- CTP

CTP = {2: [(-0.2, 0.2, 10, 1, 6, 1)], 3: [(-0.2, 0.1, 10, 1, 0.5, 1)], 4: [(-0.2, 0.75, 10, 1, 0.5, 1)],
       5: [(-0.2, 0.1, 10, 2, 0.5, 1)], 6: [(0.1, 40, 0.5, 1, 2, -2)], 7: [(-0.05, 40, 5, 1, 6, 0)],
       8: [(0.1, 40, 0.5, 1, 2, -2), (-0.05, 40, 2, 1, 6, 0)]}


def _ctp_g(z, P):
    if P.get("option", "linear") == "linear":
        return 1 + sum(z)
    return 1 + sum(10 + v * v - 10 * cos(2 * pi * v) for v in z)


def _ctp(k):
    def f(x, P):
        g = _ctp_g(x[1:], P)
        f1, f2 = x[0], g * (1 - sqrt(x[0] / g))
        G = []
        for th, a, b, c, d, e in CTP[k]:
            t = th * pi
            u = cos(t) * (f2 - e) - sin(t) * f1
            w = sin(t) * (f2 - e) + cos(t) * f1
            w = a * abs(sin(b * pi * w ** c)) ** d
            G.append(1 - u / w)
        return [f1, f2], G, []
    REF["ctp%d" % k] = f


for _k in CTP:
    _ctp(_k)


@ref("ctp1")
def _(x, P):
    J = P.get("n_ieq_constr", 2)
    a, b, delta = [1.0], [1.0], 1 / (J + 1)
    for j in range(J):
        pos = (j + 1) * delta
        beta = a[j] * exp(-b[j] * pos)
        a.append((a[j] + beta) / 2)
        b.append(-log(beta / a[j + 1]) / pos)
    g = _ctp_g(x[1:], P)
    f1, f2 = x[0], g * exp(-x[0] / g)
    return [f1, f2], [a[j] * exp(-b[j] * f1) - f2 for j in range(1, J + 1)], []


# ------------------------------------------------------------------------------------------------------------- DASCMOP

DIFF = [(0.25, 0, 0), (0, 0.25, 0), (0, 0, 0.25), (0.25,) * 3, (0.5, 0, 0), (0, 0.5, 0), (0, 0, 0.5), (0.5,) * 3,
        (0.75, 0, 0), (0, 0.75, 0), (0, 0, 0.75), (0.75,) * 3, (0, 1, 0), (0.5, 1, 0), (0, 1, 0.5), (0.5, 1, 0.5)]


def _das_dist(x, M, kind):
    n = len(x)
    if kind == 1:
        return sum(sq(v - sin(pi * x[0] / 2)) for v in x[M - 1:])
    if kind == 2:
        return sum(1 + sq(v - 0.5) - cos(20 * pi * (v - 0.5)) for v in x[M - 1:])
    return sum(sq(x[j - 1] - cos(0.25 * j / n * pi * (x[0] + x[1]))) for j in range(M, n + 1))


def _das(k):
    def f(x, P):
        diff = P["difficulty"]
        eta, zeta, gamma = DIFF[diff - 1] if isinstance(diff, int) else diff
        M = 2 if k <= 6 else 3
        g = _das_dist(x, M, 1 if k <= 3 else 2 if k <= 8 else 3)
        a = x[0]
        if M == 2:
            shape = {0: lambda: 1 - sqrt(a) + 0.5 * abs(sin(5 * pi * a)), 1: lambda: 1 - a * a, 2: lambda: 1 - sqrt(a)}[k % 3]()
            F = [a + g, shape + g]
        elif k == 7:
            F = [x[0] * x[1] + g, x[1] * (1 - x[0]) + g, 1 - x[1] + g]
        else:
            F = [cos(pi * a / 2) * cos(pi * x[1] / 2) + g, cos(pi * a / 2) * sin(pi * x[1] / 2) + g, sin(pi * a / 2) + g]
        b = 2 * eta - 1
        d = 0.5 if zeta != 0 else 0.0
        e = d - log(zeta) if zeta > 0 else 1e30
        r = 0.5 * gamma
        C = [sin(20 * pi * a) - b]
        if M == 3:
            C.append(cos(20 * pi * x[1]) - b)
        C.append(1e-4 - abs(e - g) if zeta == 1 else (e - g) * (g - d))
        if M == 2:
            th = -pi / 4
            for p, q in zip((0, 1, 0, 1, 2, 0, 1, 2, 3), (1.5, 0.5, 2.5, 1.5, 0.5, 3.5, 2.5, 1.5, 0.5)):
                u, v = F[0] - p, F[1] - q
                C.append(sq(u * cos(th) - v * sin(th)) / 0.3 + sq(u * sin(th) + v * cos(th)) / 1.2 - r)
        else:
            s = 1 / sqrt(3)
            for c in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (s, s, s)):
                C.append(sum(sq(u - v) for u, v in zip(F, c)) - r * r)
        return F, [-v for v in C], []
    REF["dascmop%d" % k] = f


for _k in range(1, 10):
    _das(_k)


# ----------------------------------------------------------------------------------------------------------------- MW

def _mw_g(kind, x, M):
    d = len(x)
    if kind == 1:
        return 1 + sum(1 - exp(-10 * sq(x[i] ** (d - M) - 0.5 - i / (2 * d))) for i in range(M - 1, d))
    if kind == 2:
        z = [1 - exp(-10 * sq(x[i] - i / d)) for i in range(M - 1, d)]
        return 1 + sum(1.5 + 0.1 / d * v * v - 1.5 * cos(2 * pi * v) for v in z)
    return 1 + sum(2 * sq(x[i] + sq(x[i - 1] - 0.5) - 1) for i in range(M - 1, d))


def _root(v):
    return sqrt(max(v, 0.0))


def mw(k, x, P):
    M = P.get("n_obj", 3) if k in (4, 8, 14) else 2
    g = _mw_g({1: 1, 2: 2, 3: 3, 4: 1, 5: 1, 6: 2, 7: 3, 8: 2, 9: 1, 10: 2, 11: 3, 12: 1, 13: 2, 14: 3}[k], x, M)
    a = x[0]
    s2 = sqrt(2)
    if k in (1, 2, 3):
        F = [a, g - 0.85 * a if k == 1 else g - a]
        l = s2 * (F[1] - F[0])
        s = F[0] + F[1]
        if k == 1:
            return F, [s - 1 - 0.5 * sin(2 * pi * l) ** 8]
        if k == 2:
            return F, [s - 1 - 0.5 * sin(3 * pi * l) ** 8]
        return F, [s - 1.05 - 0.45 * sin(0.75 * pi * l) ** 6, 0.85 - s + 0.3 * sin(0.75 * pi * l) ** 2]
    if k == 4:
        F = [g * prod(1 - v for v in x[:M - 1 - i]) * (x[M - 1 - i] if i else 1) for i in range(M)]
        l = F[-1] - sum(F[:-1])
        return F, [sum(F) - 1 - 0.4 * sin(2.5 * pi * l) ** 8]
    if k in (5, 6, 7):
        F = [g * a, g * _root((1.21 if k == 6 else 1) - a * a)]
        r2 = F[0] ** 2 + F[1] ** 2
        l = atan2(F[1], F[0])
        if k == 5:
            t = pi / 2 - 2 * abs(l - pi / 4)
            return F, [r2 - sq(1.7 - 0.2 * sin(2 * l)), sq(1 + 0.5 * sin(6 * t ** 3)) - r2, sq(1 - 0.45 * sin(6 * t ** 3)) - r2]
        if k == 6:
            w = cos(6 * l ** 4) ** 10
            return F, [sq(F[0] / (1 + 0.15 * w)) + sq(F[1] / (1 + 0.75 * w)) - 1]
        return F, [r2 - sq(1.2 + abs(0.4 * sin(4 * l) ** 16)), sq(1.15 - 0.2 * sin(4 * l) ** 8) - r2]
    if k == 8:
        F = [g * prod(cos(pi * v / 2) for v in x[:M - 1 - i]) * (sin(pi * x[M - 1 - i] / 2) if i else 1) for i in range(M)]
        r2 = sum(v * v for v in F)
        from math import asin
        l = asin(max(-1.0, min(1.0, F[-1] / sqrt(r2))))
        return F, [r2 - sq(1.25 - 0.5 * sin(6 * l) ** 2)]
    if k == 9:
        F = [g * a, g * (1 - a ** 0.6)]
        u, v = F
        return F, [min((1 - 0.64 * u * u - v) * (1 - 0.36 * u * u - v), (sq(1.35) - sq(u + 0.35) - v) * (sq(1.15) - sq(u + 0.15) - v))]
    if k == 10:
        u = g * a ** len(x)
        v = g * (1 - sq(a ** len(x)))
        return [u, v], [-(2 - 4 * u * u - v) * (2 - 8 * u * u - v), (2 - 2 * u * u - v) * (2 - 16 * u * u - v),
                        (1 - u * u - v) * (1.2 - 1.2 * u * u - v)]
    if k == 11:
        u, v = g * a, g * _root(2 - a * a)
        return [u, v], [-(3 - u * u - v) * (3 - 2 * u * u - v), (3 - 0.625 * u * u - v) * (3 - 7 * u * u - v),
                        -(1.62 - 0.18 * u * u - v) * (1.125 - 0.125 * u * u - v), (2.07 - 0.23 * u * u - v) * (0.63 - 0.07 * u * u - v)]
    if k == 12:
        u, v = g * a, g * (0.85 - 0.8 * a - 0.08 * abs(sin(3.2 * pi * a)))
        S = lambda z: 0.08 * sin(2 * pi * z)
        return [u, v], [-(1 - 0.625 * u - v + S(v - u / 1.6)) * (1.4 - 0.875 * u - v + S(v / 1.4 - u / 1.6)),
                        (1 - 0.8 * u - v + S(v - u / 1.5)) * (1.8 - 1.125 * u - v + S(v / 1.8 - u / 1.6))]
    if k == 13:
        u, v = g * a, g * (5 - exp(a) - abs(0.5 * sin(3 * pi * a)))
        S = 0.5 * sin(3 * pi * u)
        return [u, v], [-(5 - (1 + u + 0.5 * u * u) - S - v) * (5 - (1 + 0.7 * u) - S - v),
                        (5 - exp(u) - S - v) * (5 - (1 + 0.4 * u) - S - v)]
    pos = x[:M - 1]
    wave = lambda u: 1.5 * sin(1.1 * pi * u * u)
    last = g / (M - 1) * sum(6 - exp(u) - wave(u) for u in pos)
    alpha = sum(6.1 - (1 + u + 0.5 * u * u) - wave(u) for u in pos) / (M - 1)
    return list(pos) + [last], [last - alpha]


for _k in range(1, 15):
    REF["mw%d" % _k] = (lambda k: lambda x, P: mw(k, list(x), P) + ([],))(_k)


# ---------------------------------------------------------------------------------------------------------------- WFG

def _01(v):
    return 0.0 if -1e-10 <= v < 0 else 1.0 if 1 < v <= 1 + 1e-10 else v


def s_linear(y, A):
    return _01(abs(y - A) / abs(floor(A - y) + A))


def s_decept(y, A, B, C):
    t1 = floor(y - A + B) * (1 - C + (A - B) / B) / (A - B)
    t2 = floor(A + B - y) * (1 - C + (1 - A - B) / B) / (1 - A - B)
    return _01(1 + (abs(y - A) - B) * (t1 + t2 + 1 / B))


def s_multi(y, A, B, C):
    t = abs(y - C) / (2 * (floor(C - y) + C))
    return _01((1 + cos((4 * A + 2) * pi * (0.5 - t)) + 4 * B * t * t) / (B + 2))


def b_flat(y, A, B, C):
    return _01(A + min(0, floor(y - B)) * A * (B - y) / B - min(0, floor(C - y)) * (1 - A) * (y - C) / (1 - C))


def b_param(y, u, A=0.98 / 49.98, B=0.02, C=50.0):
    v = A - (1 - 2 * u) * abs(floor(0.5 - u) + A)
    return _01(y ** (B + (C - B) * v))


def r_sum(y, w=None):
    w = w or [1] * len(y)
    return _01(sum(a * b for a, b in zip(y, w)) / sum(w))


def r_nonsep(y, A):
    n = len(y)
    num = sum(y[j] + sum(abs(y[j] - y[(j + k + 1) % n]) for k in range(A - 1)) for j in range(n))
    h = ceil(A / 2)
    return _01(num / (n / A * h * (1 + 2 * A - 2 * h)))


def _groups(y, k, M, red):
    gap = k // (M - 1)
    return [red(y[i * gap:(i + 1) * gap], i) for i in range(M - 1)]


def wfg(num, x, P):
    M, n, k = P["n_obj"], len(x), P["k"]
    y = [v / (2 * (i + 1)) for i, v in enumerate(x)]
    mean = lambda z, i=None: r_sum(z)
    nonsep = lambda z, i=None: r_nonsep(z, len(z))
    if num == 1:
        y = y[:k] + [b_flat(s_linear(v, 0.35), 0.8, 0.75, 0.85) for v in y[k:]]
        y = [_01(v ** 0.02) for v in y]
        gap = k // (M - 1)
        t = _groups(y, k, M, lambda z, i: r_sum(z, [2 * (i * gap + j + 1) for j in range(gap)]))
        t.append(r_sum(y[k:], [2 * (j + 1) for j in range(k, n)]))
    elif num in (2, 3):
        y = y[:k] + [s_linear(v, 0.35) for v in y[k:]]
        d = [r_nonsep([y[i], y[i + 1]], 2) for i in range(k, n, 2)]
        t = _groups(y, k, M, mean) + [mean(d)]
    elif num == 4:
        y = [s_multi(v, 30, 10, 0.35) for v in y]
        t = _groups(y, k, M, mean) + [mean(y[k:])]
    elif num == 5:
        y = [s_decept(v, 0.35, 0.001, 0.05) for v in y]
        t = _groups(y, k, M, mean) + [mean(y[k:])]
    elif num == 6:
        y = y[:k] + [s_linear(v, 0.35) for v in y[k:]]
        t = _groups(y, k, M, nonsep) + [nonsep(y[k:])]
    elif num == 7:
        y = [b_param(y[i], mean(y[i + 1:])) for i in range(k)] + [s_linear(v, 0.35) for v in y[k:]]
        t = _groups(y, k, M, mean) + [mean(y[k:])]
    elif num == 8:
        y = y[:k] + [s_linear(b_param(y[i], mean(y[:i])), 0.35) for i in range(k, n)]
        t = _groups(y, k, M, mean) + [mean(y[k:])]
    else:
        y = [b_param(y[i], mean(y[i + 1:])) for i in range(n - 1)] + [y[-1]]
        y = [s_decept(v, 0.35, 0.001, 0.05) for v in y[:k]] + [s_multi(v, 30, 95, 0.35) for v in y[k:]]
        t = _groups(y, k, M, nonsep) + [nonsep(y[k:])]
    A = [1] + [0 if num == 3 else 1] * (M - 2)
    z = [max(t[-1], a) * (v - 0.5) + 0.5 for v, a in zip(t, A)]
    if num in (1, 2):
        h = [prod(1 - cos(v * pi / 2) for v in z[:M - 1 - i]) * ((1 - sin(z[M - 1 - i] * pi / 2)) if i else 1) for i in range(M - 1)]
        if num == 1:
            h.append(1 - z[0] - cos(10 * pi * z[0] + pi / 2) / (10 * pi))
        else:
            h.append(1 - z[0] * cos(5 * pi * z[0]) ** 2)
    elif num == 3:
        h = _linear(z, 1)
    else:
        h = [prod(sin(v * pi / 2) for v in z[:M - 1 - i]) * (cos(z[M - 1 - i] * pi / 2) if i else 1) for i in range(M)]
    return [t[-1] + 2 * (i + 1) * _01(v) for i, v in enumerate(h)]


for _k in range(1, 10):
    REF["wfg%d" % _k] = (lambda k: lambda x, P: (wfg(k, list(x), P), [], []))(_k)


# ----------------------------------------------------------------------------------------------------------------- DF

def df(num, x, t):
    n = len(x)
    G = sin(pi * t / 2)
    a0, rest = x[0], list(x[1:])
    if num == 1:
        g = 1 + sum(sq(v - abs(G)) for v in rest)
        return [a0, g * (1 - (a0 / g) ** (1.25 + 0.75 * G))]
    if num == 2:
        r = int((n - 1) * abs(G))
        g = 1 + sum(sq(v - abs(G)) for i, v in enumerate(x) if i != r)
        return [x[r], g - sqrt(x[r] * g)]
    if num == 3:
        H = 1.5 + G
        g = 1 + sum(sq(v - G - a0 ** H) for v in rest)
        return [a0, g * (1 - (a0 / g) ** H)]
    if num == 4:
        b = 1 + abs(cos(pi * t / 2))
        c = max(abs(G), G + b)
        H = 1.5 + G
        g = 1 + sum(sq(x[i] - G * sq(a0 / c) / (i + 1)) for i in range(1, n))
        return [g * abs(a0 - G) ** H, g * abs(a0 - G - b) ** H]
    if num == 5:
        g = 1 + sum(sq(v - G) for v in rest)
        wave = 0.02 * sin(floor(10 * G) * pi * a0)
        return [g * (a0 + wave), g * (1 - a0 + wave)]
    if num == 6:
        e = 0.2 + 2.8 * abs(G)
        g = 1 + sum(abs(G) * sq(v - G) - 10 * cos(2 * pi * (v - G)) + 10 for v in rest)
        wave = 0.1 * sin(3 * pi * a0)
        return [g * (a0 + wave) ** e, g * (1 - a0 + wave) ** e]
    if num == 7:
        s = 1 / (1 + exp(5 * cos(pi * t / 2) * (a0 - 2.5)))
        g = 1 + sum(sq(v - s) for v in rest)
        return [g * (1 + t) / a0, g * a0 / (1 + t)]
    if num == 8:
        e = 2.25 + 2 * cos(2 * pi * t)
        s = G * sin(4 * pi * a0) / (1 + abs(G))
        g = 1 + sum(sq(v - s) for v in rest)
        wave = 0.1 * sin(3 * pi * a0)
        return [g * (a0 + wave), g * (1 - a0 + wave) ** e]
    if num == 9:
        N = 1 + floor(10 * abs(G))
        g = 1 + sum(sq(x[i] - cos(4 * t + a0 + x[i - 1])) for i in range(1, n))
        wave = max(0, (0.1 + 0.5 / N) * sin(2 * N * pi * a0))
        return [g * (a0 + wave), g * (1 - a0 + wave)]
    b0, rest = x[1], list(x[2:])
    A, B = pi * a0 / 2, pi * b0 / 2
    if num == 10:
        H = 2.25 + 2 * cos(pi * t / 2)
        s = sin(4 * pi * (a0 + b0)) / (1 + abs(G))
        g = 1 + sum(sq(v - s) for v in rest)
        return [g * sin(A) ** H, g * (sin(B) * cos(A)) ** H, g * (cos(B) * cos(A)) ** H]
    if num == 11:
        G = abs(G)
        g = 1 + G + sum(sq(v - 0.5 * G * a0) for v in rest)
        u, w = (pi * G / 6 + (pi / 2 - pi * G / 3) * v for v in (a0, b0))
        return [g * sin(u), g * sin(w) * cos(u), g * cos(w) * cos(u)]
    if num == 12:
        k = 10 * sin(pi * t)
        g = 1 + sum(sq(v - sin(t * a0)) for v in rest)
        g += abs(sin(floor(k * (2 * a0 - 1)) * pi / 2) * sin(floor(k * (2 * b0 - 1)) * pi / 2))
        return [g * cos(B) * cos(A), g * sin(B) * cos(A), g * sin(A)]
    g = 1 + sum(sq(v - G) for v in rest)
    if num == 13:
        p = floor(6 * G)
        return [g * cos(A) ** 2, g * cos(B) ** 2,
                g * (sin(A) ** 2 + sin(A) * cos(p * pi * a0) ** 2 + sin(B) ** 2 + sin(B) * cos(p * pi * b0) ** 2)]
    y = 0.5 + G * (a0 - 0.5)
    S = lambda v: 0.05 * sin(6 * pi * v)
    return [g * (1 - y + S(y)), g * (1 - b0 + S(b0)) * (y + S(y)), g * (b0 + S(b0)) * (y + S(y))]


for _k in range(1, 15):
    REF["df%d" % _k] = (lambda k: lambda x, P: (df(k, list(x), P["time"]), [], []))(_k)


# ------------------------------------------------------------------------------------------------------------------- ZCAT


def zcat(k, x, P):
    m, n = P["n_obj"], len(x)
    y = [min(max(v / i + 0.5, 0.0), 1.0) for i, v in enumerate(x, 1)]
    S = lambda v: sin(v * pi / 2)
    C = lambda v: cos(v * pi / 2)
    p = y[:m - 1]
    a = y[0]
    # the chains of the first m - 1 objectives: positions before, and the last one (only from the second objective on)
    chains = [(y[:m - 1], None)] + [(y[:m - j], y[m - j]) for j in range(2, m)]

    def product(f, g):
        return [prod(f(v) for v in h) * (g(z) if z is not None else 1.0) for h, z in chains]

    def mean(f, g):
        return [(sum(f(v) for v in h) + (g(z) if z is not None else 0.0)) / (len(h) + (z is not None)) for h, z in chains]

    def waves(q):
        return (cos((2 * q - 1) * a * pi) + 2 * a + 4 * q * (1 - a) - 1) / (4 * q)

    def fifth(vs):
        return sum((0.5 - v) ** 5 for v in vs) / len(vs) / (2 * 0.5 ** 5) + 0.5

    mu = sum(p) / (m - 1)
    grow = lambda v: (exp(8 * v) - 1) / (exp(8) - 1)
    near = lambda v, lo, hi: lo - 1e-15 < v < hi + 1e-15
    if k == 1:
        F = product(S, C) + [1 - S(a)]
    elif k == 2:
        F = product(lambda v: 1 - C(v), lambda v: 1 - S(v)) + [1 - S(a)]
    elif k == 3:
        F = mean(lambda v: v, lambda v: 1 - v) + [1 - a]
    elif k == 4:
        F = p + [1 - mu]
    elif k == 5:
        F = p + [grow(1 - mu)]
    elif k == 6:
        q, r = 40.0, 0.05
        lg = lambda v: 1 / (1 + exp(v))
        F = p + [(lg(2 * q * mu - q) - r * mu - lg(q) + r) / (lg(-q) - lg(q) + r)]
    elif k == 7:
        F = p + [fifth(p)]
    elif k == 8:
        F = [1 - v for v in product(lambda v: 1 - S(v), lambda v: 1 - C(v))] + [C(a)]
    elif k == 9:
        F = mean(S, C) + [C(a)]
    elif k == 10:
        r = 0.02
        F = p + [(1 / r - 1 / (1 - mu + r)) / (1 / r - 1 / (1 + r))]
    elif k == 11:
        F = mean(lambda v: v, lambda v: 1 - v) + [waves(4)]
    elif k == 12:
        F = [1 - v for v in product(lambda v: 1 - v, lambda v: v)] + [waves(3)]
    elif k == 13:
        F = [1 - v for v in mean(S, C)] + [1 - waves(3)]
    elif k in (14, 16):
        e = 1 if k == 16 else 2
        F = [S(a) ** (e + (j / (m - 2) if j else 0)) for j in range(max(1, m - 2))]
        F += [0.5 * (1 + sin((10 if k == 16 else 6) * a * pi / 2 - pi / 2))] if m > 2 else []
        F += [waves(5) if k == 16 else C(a)]
    elif k == 15:
        F = [a ** (1 + j / (4 * m)) for j in range(m - 1)] + [waves(3)]
    else:
        if k == 17:
            same = all(v <= 0.5 for v in p)
        elif k == 18:
            same = all(near(v, 0, 0.4) for v in p) or all(near(v, 0.6, 1) for v in p)
        elif k == 19:
            same = near(a, 0, 0.2) or near(a, 0.4, 0.6)
        else:
            same = near(a, 0.1, 0.4) or near(a, 0.6, 0.9)
        q = [a] * (m - 1) if same else p
        b = a if same else mu
        F = q + [grow(1 - b) if k == 17 else 1 - b - cos(10 * pi * b + pi / 2) / (10 * pi) if k == 19 else fifth(q)]
    d = 1 if k in (14, 15, 16) or (k in (19, 20) and same) else m - 1
    t = n - d
    beta = [0.0] * m
    if t:
        th = [2 * pi * j / t for j in range(t)]
        u = y[:d]
        ub = sum(u) / d
        avg = lambda f, o: sum(f(v, o) for v in u) / d
        kind = (4, 5, 2, 7, 9, 4, 5, 2, 7, 9, 3, 10, 1, 6, 8, 10, 1, 8, 6, 3)[k - 1] if P["complicated_pareto_set"] else 0
        den6 = -10 * exp(-0.4) - exp(-1) + 10 + exp(1)
        g = {0: lambda o: 0.2210,
             1: lambda o: avg(lambda v, o: sin(1.5 * pi * v + o), o) / 2 + 0.5,
             2: lambda o: avg(lambda v, o: v * v * sin(4.5 * pi * v + o), o) / 2 + 0.5,
             3: lambda o: avg(lambda v, o: cos(pi * v + o) ** 2, o),
             4: lambda o: ub / 2 * cos(4 * pi * ub + o) + 0.5,
             5: lambda o: avg(lambda v, o: sin(2 * pi * v - 1 + o) ** 3, o) / 2 + 0.5,
             6: lambda o: (-10 * exp(-0.4 * sqrt(sum(v * v for v in u) / d)) - exp(avg(lambda v, o: cos(11 * pi * v + o) ** 3, o)) + 10 + exp(1)) / den6,
             7: lambda o: (ub + exp(sin(7 * pi * ub - pi / 2 + o)) - exp(-1)) / (1 + exp(1) - exp(-1)),
             8: lambda o: avg(lambda v, o: abs(sin(2.5 * pi * (v - 0.5) + o)), o),
             9: lambda o: ub / 2 - avg(lambda v, o: abs(sin(2.5 * pi * v - pi / 2 + o)), o) / 2 + 0.5,
             10: lambda o: avg(lambda v, o: sin((4 * v - 2) * pi + o), o) ** 3 / 2 + 0.5}[kind]
        w = [v - g(o) for v, o in zip(y[d:], th)]
        w = [0.0 if abs(v) < 1e-14 else v for v in w]  # what is left by rounding
        if P["bias"]:
            if min(abs(v) for v in w) < 1e-12:
                raise ValueError("decided by rounding")
            w = [abs(v) ** 0.05 for v in w]
        z3 = lambda J: 10 / len(J) * sum((v * v - cos(9 * pi * v) + 1) / 3 for v in J)
        z4 = lambda J: 10 / (2 * exp(1) - 2) * (exp(max(abs(v) for v in J) ** 0.5) - exp(sum(0.5 * (cos(9 * pi * v) + 1) for v in J) / len(J)) - 1 + exp(1))
        z1 = lambda J: 10 / len(J) * sum(v * v for v in J)
        Z = {1: z1, 2: lambda J: 10 * max(abs(v) for v in J), 3: z3, 4: z4,
             5: lambda J: -0.7 * z3(J) + 10 / len(J) * sum(abs(v) ** 0.002 for v in J),
             6: lambda J: -0.7 * z4(J) + 10 * (sum(abs(v) for v in J) / len(J)) ** 0.002}
        for i in range(m):
            J = w[i::m] or w[:1]
            f = (z4 if i % 2 else z1) if P["imbalance"] else Z[P["level"]]
            beta[i] = f(J)
    return [(i + 1) ** 2 * (f + b) for i, (f, b) in enumerate(zip(F, beta))]


for _k in range(1, 21):
    REF["zcat%d" % _k] = (lambda k: lambda x, P: (zcat(k, list(x), P), [], []))(_k)
