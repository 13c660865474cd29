"""C32: shapes composed and translated in Python contain exactly the points of the set operation, and models built from them exactly those sites"""
import pymon
import math

import numpy as np
import pybinding as pb
from pymon import CaseSkipped


class S:
    """A shape with a reference: inside(points) -> (True/False, unsure) in double precision"""
    def __init__(self, shape, inside, text, depth=0):
        self.shape, self.inside, self.text, self.depth = shape, inside, text, depth


def polygon_inside(v):
    v = np.array(v, dtype=float)

    def f(p):
        x, y = p[:, 0], p[:, 1]
        inside = np.zeros(len(p), dtype=bool)
        dist = np.full(len(p), np.inf)
        for a, b in zip(v, np.roll(v, -1, axis=0)):
            cond = (a[1] > y) != (b[1] > y)
            with np.errstate(all="ignore"):
                cross = (b[0] - a[0]) * (y - a[1]) / (b[1] - a[1]) + a[0]
            inside ^= cond & (x < cross)
            ab = b - a
            t = np.clip(((p[:, :2] - a) @ ab) / max(ab @ ab, 1e-30), 0, 1)
            dist = np.minimum(dist, np.linalg.norm(p[:, :2] - (a + t[:, None] * ab), axis=1))
        return inside, dist < 1e-4
    return f


def make(c, ndim, depth):
    r = c.rng
    if depth and r.p(0.75):
        kind = r.choice(["and", "or", "xor", "sub", "add", "offset", "offset"])
        a = make(c, ndim, depth - 1)
        if kind == "offset":
            return moved(c, a)
        b = make(c, ndim, depth - 1)
        op = {"and": lambda p, q: p & q, "or": lambda p, q: p | q, "xor": lambda p, q: p ^ q, "sub": lambda p, q: p - q, "add": lambda p, q: p + q}[kind]
        lo = {"and": np.logical_and, "or": np.logical_or, "xor": np.logical_xor, "sub": lambda p, q: p & ~q, "add": np.logical_or}[kind]

        def inside(p):
            (x, ux), (y, uy) = a.inside(p), b.inside(p)
            return lo(x, y), ux | uy
        return S(op(a.shape, b.shape), inside, "(%s %s %s)" % (a.text, kind, b.text), 1 + max(a.depth, b.depth))
    kind = r.choice(["polygon", "rectangle", "regular", "circle", "free"]) if ndim == 2 else r.choice(["ball", "box", "ball", "circle"])
    if kind == "rectangle":
        x, y = r.q(0.5, 4), r.q(0.5, 4)
        square = r.p(0.3)
        y = x if square else y
        sh = pb.rectangle(x) if square else pb.rectangle(x, y)
        return S(sh, polygon_inside([[x / 2, y / 2], [x / 2, -y / 2], [-x / 2, -y / 2], [-x / 2, y / 2]]), "rectangle(%s, %s)" % (x, y))
    if kind == "regular":
        n, rad, ang = r.i(3, 8), r.q(0.5, 2.5), r.choice([0, r.q(-3, 3)])
        sh = pb.regular_polygon(n, rad, ang) if ang else pb.regular_polygon(n, rad)
        v = [(rad * math.sin(ang + 2 * math.pi * k / n), rad * math.cos(ang + 2 * math.pi * k / n)) for k in range(n)]
        return S(sh, polygon_inside(v), "regular(%d, %s, %s)" % (n, rad, ang))
    if kind == "polygon":
        n = r.i(3, 7)
        ang = sorted(r.uniform(0, 2 * math.pi) for _ in range(n))
        v = [[round(64 * r.uniform(0.5, 2.5) * math.cos(t)) / 64, round(64 * r.uniform(0.5, 2.5) * math.sin(t)) / 64] for t in ang]
        return S(pb.Polygon(v), polygon_inside(v), "polygon(%s)" % v)
    if kind == "circle":
        rad = r.q(0.5, 2.5)
        ctr = (0, 0) if r.p(0.5) else (r.q(-1, 1), r.q(-1, 1))
        sh = pb.circle(rad) if ctr == (0, 0) else pb.circle(rad, list(ctr))

        def inside(p):
            d = np.hypot(p[:, 0] - ctr[0], p[:, 1] - ctr[1])
            return d < rad, np.abs(d - rad) < 1e-4
        return S(sh, inside, "circle(%s, %s)" % (rad, ctr))
    if kind == "free":
        w, h = r.q(1, 4), r.q(1, 4)
        ctr = [r.q(-1, 1), r.q(-1, 1)]

        def contains(x, y, z):
            return np.logical_and(np.abs(x - ctr[0]) < w / 2, np.abs(y - ctr[1]) < h / 2)

        def inside(p):
            a, b = np.abs(p[:, 0] - ctr[0]) - w / 2, np.abs(p[:, 1] - ctr[1]) - h / 2
            return (a < 0) & (b < 0), (np.abs(a) < 1e-4) | (np.abs(b) < 1e-4)
        return S(pb.FreeformShape(contains, [w, h], ctr), inside, "free(%s, %s, %s)" % (w, h, ctr))
    ctr = [r.q(-1, 1), r.q(-1, 1), r.q(-1, 1)]
    if r.p(0.3):
        ctr = [0, 0, 0]
    if kind == "ball":
        rad = r.q(0.5, 2)

        def contains(x, y, z):
            return np.sqrt((x - ctr[0])**2 + (y - ctr[1])**2 + (z - ctr[2])**2) < rad

        def inside(p):
            d = np.linalg.norm(p - ctr, axis=1)
            return d < rad, np.abs(d - rad) < 1e-4
        sh = pb.FreeformShape(contains, [2 * rad] * 3, ctr) if any(ctr) else pb.FreeformShape(contains, [2 * rad] * 3)
        return S(sh, inside, "ball(%s, %s)" % (rad, ctr))
    w = [r.q(0.5, 3) for _ in range(3)]

    def contains(x, y, z):
        return (np.abs(x - ctr[0]) < w[0] / 2) & (np.abs(y - ctr[1]) < w[1] / 2) & (np.abs(z - ctr[2]) < w[2] / 2)

    def inside(p):
        e = np.abs(p - ctr) - np.array(w) / 2
        return np.all(e < 0, axis=1), np.any(np.abs(e) < 1e-4, axis=1)
    return S(pb.FreeformShape(contains, w, ctr), inside, "box(%s, %s)" % (w, ctr))


def moved(c, a):
    r = c.rng
    v = [r.q(-2, 2) for _ in range(r.choice([1, 2, 2, 2, 3]))]
    full = np.array(v + [0.0] * (3 - len(v)))
    arg = r.choice([list, tuple, np.array])(v)
    return S(a.shape.with_offset(arg), lambda p: a.inside(p - full), "%s+%s" % (a.text, v), a.depth)


def points(c, n, ndim):
    rng = c.rng.np()
    p = np.round(rng.uniform(-5, 5, size=(n, 3)) * 64) / 64
    if c.rng.p(0.5):
        p = np.round(rng.uniform(-2.5, 2.5, size=(n, 3)) * 64) / 64
    if ndim == 2 and c.rng.p(0.5):
        p[:, 2] = 0
    return p


def check_contains(c, s, p, what):
    p32 = p.astype(np.float32)
    got = s.shape.contains(p32[:, 0], p32[:, 1], p32[:, 2])
    want, unsure = s.inside(p)
    got = np.asarray(got)
    c.check(got.shape == want.shape and got.dtype == bool, lambda: "%s: contains() gives %s of %s" % (what, got.shape, got.dtype))
    bad = (got != want) & ~unsure
    c.check(not bad.any(), lambda: "%s: point %s is %s" % (what, p[bad][0], "inside, should be outside" if got[bad][0] else "outside, should be inside"))
    c.count("points_inside", int(got.sum()))
    c.count("points_outside", int((~got).sum()))


def check_model(c, s, ndim, what):
    r = c.rng
    a = [[r.q(0.3, 0.9), r.q(-0.2, 0.2), 0], [r.q(-0.2, 0.2), r.q(0.3, 0.9), 0]]
    if ndim == 3:
        a.append([r.q(-0.2, 0.2), r.q(-0.2, 0.2), r.q(0.4, 0.9)])
    lat = pb.Lattice(*a)
    subs = [[0, 0, 0]] if r.p(0.5) else [[0, 0, 0], [r.q(-0.4, 0.4), r.q(-0.4, 0.4), 0 if ndim == 2 else r.q(-0.4, 0.4)]]
    for i, p in enumerate(subs):
        lat.add_one_sublattice("AB"[i], p)
    n = 30 if ndim == 2 else 16
    idx = np.stack(np.meshgrid(*[np.arange(-n, n + 1)] * ndim, indexing="ij"), axis=-1).reshape(-1, ndim)
    cells = idx @ np.array(a)
    p = np.concatenate([cells + np.array(q) for q in subs])
    inside, unsure = s.inside(p)
    if not (inside & ~unsure).any() or (inside & unsure).any() and r.p(0.5):
        raise CaseSkipped("no site is clearly inside")
    # the whole shape must be covered by the enumerated block: it would reach its border otherwise
    border = np.concatenate([np.max(np.abs(idx), axis=1) >= n - 1] * len(subs))
    if (inside & border).any():
        raise CaseSkipped("the shape is larger than the enumeration")
    try:
        m = pb.Model(lat, s.shape)
        got = m.system.xyz.astype(float)
    except RuntimeError as e:
        c.check(not (inside & ~unsure).any(), lambda: "%s: %s although %d sites are inside" % (what, e, inside.sum()))
        return
    c.check(m.shape is s.shape, "Model.shape")
    def key(x):
        return {tuple(v) for v in np.round(x * 64).astype(int).tolist()}
    must, may = key(p[inside & ~unsure]), key(p[inside | unsure])
    have = key(got)
    c.check(len(have) == len(got) or len(subs) > 1, what + ": sites at the same position")
    c.check(must <= have, lambda: "%s: %d of %d sites are missing, e.g. %s" % (what, len(must - have), len(must), np.array(sorted(must - have)[0]) / 64))
    c.check(have <= may, lambda: "%s: %d sites are outside, e.g. %s" % (what, len(have - may), np.array(sorted(have - may)[0]) / 64))
    c.count("sites_in_models", len(got))


def line_case(c):
    r = c.rng
    a, b = [r.q(-3, 3), r.q(-3, 3)], [r.q(-3, 3), r.q(-3, 3)]
    if a == b:
        b[0] += 1
    v = [r.q(-3, 3) for _ in range(r.i(1, 3))]
    l = pb.line(a, b)
    m = l.with_offset(v)
    v2 = np.array((v + [0, 0])[:2])
    c.note("line", a, b, "offset", v)
    c.close(m.a, np.array(a) + v2, "first end of the moved line")
    c.close(m.b, np.array(b) + v2, "second end of the moved line")
    c.equal(l.a, a, "the original line")
    p = points(c, 200, 2)

    def inside(p, a, b):
        a, b = np.array(a), np.array(b)
        t = (p[:, :2] - a) @ (b - a) / ((b - a) @ (b - a))
        return (t >= 0) & (t <= 1), (np.abs(t) < 1e-3) | (np.abs(t - 1) < 1e-3)
    check_contains(c, S(l, lambda q: inside(q, a, b), ""), p, "line")
    check_contains(c, S(m, lambda q: inside(q, np.array(a) + v2, np.array(b) + v2), ""), p, "moved line")
    c.sig("line", a, b, v)


def random_case(c):
    r = c.rng
    if r.p(0.1):
        return line_case(c)
    ndim = r.choice([2, 2, 3])
    s = make(c, ndim, r.i(0, 3))
    c.note(s.text)
    check_contains(c, s, points(c, 500, ndim), s.text)
    vert = np.array(s.shape.vertices)
    m = moved(c, s)
    c.note(m.text)
    check_contains(c, m, points(c, 500, ndim), m.text)
    c.equal(np.array(s.shape.vertices), vert, "the vertices of the shape which was moved")
    check_contains(c, s, points(c, 100, ndim), s.text + " after it was moved")
    check_model(c, r.choice([s, m]), ndim, "Model of the shape")
    c.seen("compositions", s.text)
    c.sig(s.text, m.text)


def p_sets(c):
    a, b = pb.rectangle(4, 2), pb.circle(1.5, [1, 0])
    x = np.linspace(-3, 3, 61).astype(np.float32)
    xx, yy = [v.reshape(-1) for v in np.meshgrid(x, x)]
    z = np.zeros_like(xx)
    ia, ib = a.contains(xx, yy, z), b.contains(xx, yy, z)
    for s, want in [(a & b, ia & ib), (a | b, ia | ib), (a ^ b, ia ^ ib), (a - b, ia & ~ib), (b - a, ib & ~ia), (a + b, ia | ib)]:
        c.equal(s.contains(xx, yy, z), want, "set operation")
        c.equal(s.contains(xx[:1], yy[:1], z[:1]), want[:1], "set operation on one point")
    c.sig("sets")


PINNED = {"sets": p_sets}
if __name__ == "__main__":
    pymon.main("C32", random_case, PINNED, "random shapes composed up to three levels deep and moved; contains() at random points and the sites of a model of "
               "a random lattice must equal a reference computed in double precision (points within 1e-4 of an edge are not judged); "
               "a case counts by its expression")
