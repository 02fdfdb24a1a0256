"""Reference geometry of total charge transitions (TCTs), written from the documentation, in plain arithmetic."""
import math

import numpy as np


class Tct:
    """One TCT: zigzag of slopes a (left segments, length l) and b (right segments, length r) with bends rounded by
    quadratic Bezier arcs from (xl, yl) to (xr, yr); `peaks` upper bends."""

    def __init__(self, params, peaks):
        self.l, self.r, self.a, self.b, self.xl, self.yl, self.xr, self.yr = [float(p) for p in params]
        self.peaks = peaks
        self.cx = (self.yl - self.yr + self.xr * self.b - self.xl * self.a) / (self.b - self.a)
        self.cy = self.yl + self.a * (self.cx - self.xl)
        self.e1, self.e2 = self.cx - self.xl, self.xr - self.cx

    def bends(self):
        """[(left end, control, right end)] of all 2*peaks-1 bends, left to right, unrotated"""
        out, cx, cy = [], self.cx, self.cy
        for i in range(2 * self.peaks - 1):
            if i % 2 == 0:
                out.append(((cx - self.e1, cy - self.e1 * self.a), (cx, cy), (cx + self.e2, cy + self.e2 * self.b)))
                cx, cy = cx + self.r, cy + self.r * self.b
            else:
                out.append(((cx - self.e2, cy - self.e2 * self.b), (cx, cy), (cx + self.e1, cy + self.e1 * self.a)))
                cx, cy = cx + self.l, cy + self.l * self.a
        return out

    def y(self, x):
        """the curve at x (outside the wave: straight lines)"""
        bends = self.bends()
        if x <= bends[0][0][0]:
            return self.yl + self.a * (x - self.xl)
        if x >= bends[-1][2][0]:
            (ex, ey) = bends[-1][2]
            return ey + self.b * (x - ex)
        return self.wave(x, bends)

    def wave(self, x, bends):
        for i, (p, c, q) in enumerate(bends):
            if x <= q[0] or i + 1 == len(bends):
                return arc(p, c, q, max(x, p[0]))
            if x <= bends[i + 1][0][0]:
                return q[1] + (self.b if i % 2 == 0 else self.a) * (x - q[0])

    def y_periodic(self, x):
        """the periodic continuation in both directions (no peak limit)"""
        period = self.l + self.r
        n = math.floor((x - self.xl) / period)
        t = Tct([self.l, self.r, self.a, self.b, self.xl, self.yl, self.xr, self.yr], 2)
        drop = self.l * self.a + self.r * self.b
        return t.wave(min(max(x - n * period, self.xl), self.xl + period), t.bends()) + n * drop


def arc(p, c, q, x):
    """y of the quadratic Bezier arc p, c, q (x monotone) at x"""
    A, B, C = p[0] - 2 * c[0] + q[0], 2 * (c[0] - p[0]), p[0] - x
    if abs(A) < 1e-12 * max(1e-300, abs(B)):
        t = -C / B if B != 0 else 0.0
    else:
        # monotone x(t) on [0, 1] has B >= 0 and 2A + B >= 0; the root with derivative >= 0
        t = 2 * -C / (B + math.sqrt(max(B * B - 4 * A * C, 0.0))) if B > 0 or C != 0 else 0.0
    t = min(max(t, 0.0), 1.0)
    return (1 - t) ** 2 * p[1] + 2 * t * (1 - t) * c[1] + t * t * q[1]


def rot(p, angle):
    c, s = math.cos(angle), math.sin(angle)
    return (c * p[0] - s * p[1], s * p[0] + c * p[1])


def dist(p, a, b):
    """signed distance of p to the line from a to b as documented: positive right of the direction a -> b"""
    dx, dy = b[0] - a[0], b[1] - a[1]
    return -(dx * (p[1] - a[1]) - dy * (p[0] - a[0])) / math.hypot(dx, dy)


def random_params(ctx, name="tct", scale=1.0):
    """one valid TCT parameter vector"""
    a = ctx.real(name + " left slope", 0.1, 0.9)
    b = -ctx.real(name + " right slope", 0.1, 0.9)
    l = scale * ctx.real(name + " left length", 0.4, 2.0)
    r = scale * ctx.real(name + " right length", 0.4, 2.0)
    e1 = ctx.real(name + " bend left", 0.02, 0.5) * l
    e2 = ctx.real(name + " bend right", 0.02, 0.5) * r
    cx, cy = ctx.real(name + " x", -2, 2), ctx.real(name + " y", -2, 2)
    # lengths of exactly twice the bend are allowed, but rounding may then reject them
    e1, e2 = min(e1, 0.499999 * l), min(e2, 0.499999 * r)
    return [l, r, a, b, cx - e1, cy - e1 * a, cx + e2, cy + e2 * b]


def valid_tcts(ctx, n, scale=1.0):
    """n nested TCT parameter vectors (list of arrays) and a rotation"""
    p = random_params(ctx, "tct1", scale)
    a, b, l, r = p[2], p[3], p[0], p[1]
    t = Tct(p, 1)
    cx, cy = t.cx, t.cy
    out = [np.array(p)]
    for k in range(2, n + 1):
        gap = scale * ctx.real(f"gap{k}", 0.05, 0.6)
        d = ctx.real(f"shift{k}", -0.4, 0.4) * gap / (a - b)
        cx, cy = cx + d - r, cy + gap - r * b
        e1 = ctx.real(f"bend left {k}", 0.02, 0.45) * l
        e2 = ctx.real(f"bend right {k}", 0.02, 0.45) * r
        out.append(np.array([l, r, a, b, cx - e1, cy - e1 * a, cx + e2, cy + e2 * b]))
    rotation = ctx.choice("rotation", [-math.pi / 4, None], [2, 1])
    if rotation is None:
        rotation = ctx.real("angle", -1.3, 0.4)
    return out, rotation


def window(ctx, tcts, rotation, above=1):
    """a voltage window near the first len-above TCTs: (g1 lo, g1 hi, g2 lo, g2 hi)"""
    n = len(tcts)
    k = ctx.int("window at TCT", 1, n - above)
    t = Tct(tcts[k - 1], k)
    bends = t.bends()
    bx = bends[ctx.int("window at bend", 0, len(bends) - 1)][1]
    x = bx[0] + ctx.real("window dx", -1, 1) * t.l
    y = t.y(x) + ctx.real("window dy", -0.5, 0.2)
    v = rot((x, y), rotation)
    w = ctx.real("window width", 0.3, 2.5) * t.l
    h = ctx.real("window height", 0.3, 2.5) * t.l
    return v[0] - w / 2, v[0] + w / 2, v[1] - h / 2, v[1] + h / 2


def below(tcts, x, y, eps=1e-9):
    """(min, max) of the number of TCTs at or below the unrotated point, allowing for rounding"""
    lo = hi = 0
    for k, p in enumerate(tcts, 1):
        c = Tct(p, k).y(x)
        lo += c <= y - eps
        hi += c <= y + eps
    return lo, hi


def split(tcts, rotation, total, p, cdf, gamma):
    """documented occupations of the two dots at voltage point p for a given total"""
    up = Tct(tcts[total], total + 1).bends()
    dn = Tct(tcts[total - 1], total).bends()
    a, b = rot(up[1][1], rotation), rot(dn[0][1], rotation)
    d = dist(p, a, b)
    occ = 0.0
    for i in range(0, len(dn), 2):
        left, mid, right = [dist(rot(q, rotation), a, b) for q in dn[i]]
        g = (right - left) / gamma
        if cdf == "sigmoid":
            occ += 0.5 * (1 + math.tanh((d - mid) / g))
        else:
            occ += math.atan((d - mid) / g) / math.pi + 0.5
    return occ, total - occ
