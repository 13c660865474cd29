"""Random lattices, shapes and models made through the public Python interface"""
import numpy as np
import pybinding as pb


def rand_onsite(c, norb, complex_=True):
    r = c.rng
    if norb == 1 and r.p(0.7):
        return r.q(-2, 2) if r.p(0.8) else 0.0
    if r.p(0.3):
        return [r.q(-2, 2) for _ in range(norb)]
    m = np.array([[r.q(-2, 2) for _ in range(norb)] for _ in range(norb)])
    m = m.astype(complex)
    if complex_:
        m = m + 1j * np.array([[r.q(-1, 1) for _ in range(norb)] for _ in range(norb)])
    m = (m + m.conj().T) / 2
    return m if complex_ else m.real


def rand_hopping(c, n1, n2, complex_=False):
    r = c.rng
    if n1 == n2 == 1 and r.p(0.8):
        v = r.q(-2, 2) or 1.0
        return v + 1j * r.q(-2, 2) if complex_ else v
    m = np.array([[r.q(-2, 2) for _ in range(n2)] for _ in range(n1)])
    if complex_:
        m = m + 1j * np.array([[r.q(-2, 2) for _ in range(n2)] for _ in range(n1)])
    return m


class Lat:
    """A random lattice together with everything which was asked of it"""
    def __init__(self, c, ndim=None, max_sub=3, multi=None, complex_=None, aliases=False, max_hop=5, reach=1):
        r = c.rng
        self.ndim = ndim or r.choice([1, 2, 2, 2, 3])
        self.complex = r.p(0.25) if complex_ is None else complex_
        multi = r.p(0.4) if multi is None else multi
        self.vectors = []
        for i in range(self.ndim):
            v = [r.q(-0.3, 0.3) if j < self.ndim else 0.0 for j in range(3)]
            v[i] = r.q(0.6, 1.3)
            self.vectors.append(v)
        self.offset = [0.0, 0.0, 0.0]
        names = r.sample(["A", "B", "C", "D", "up", "x1"], max_sub)
        self.subs = {}     # name -> (position, onsite, norb)
        self.alias = {}    # name -> original
        for i in range(r.i(1, max_sub)):
            norb = r.i(1, 3) if multi else 1
            pos = [r.q(-0.5, 0.5) if j < self.ndim or r.p(0.2) else 0.0 for j in range(3)]
            self.subs[names[i]] = (pos, rand_onsite(c, norb, self.complex), norb)
        if aliases and r.p(0.5):
            orig = r.choice(list(self.subs))
            self.alias["ali"] = (orig, [r.q(-0.5, 0.5) if j < self.ndim else 0.0 for j in range(3)])
        self.families = {}  # registered name -> matrix or scalar
        self.hops = []      # (relative index, from, to, name or value)
        every = list(self.subs) + list(self.alias)
        seen = set()
        for k in range(r.i(1, max_hop)):
            a, b = r.choice(every), r.choice(every)
            rel = tuple(r.i(-reach, reach) if j < self.ndim else 0 for j in range(3))
            if (rel == (0, 0, 0) and a == b) or (rel, a, b) in seen or (tuple(-x for x in rel), b, a) in seen:
                continue
            seen.add((rel, a, b))
            n1, n2 = self.norb(a), self.norb(b)
            if r.p(0.6):
                name = "t%d" % len(self.families)
                self.families[name] = rand_hopping(c, n1, n2, self.complex)
                self.hops.append((rel, a, b, name))
            else:
                self.hops.append((rel, a, b, rand_hopping(c, n1, n2, self.complex)))
        c.note(repr(self))

    def norb(self, name):
        return self.subs[self.alias[name][0] if name in self.alias else name][2]

    def original(self, name):
        return self.alias[name][0] if name in self.alias else name

    def __repr__(self):
        return "Lattice(%s, subs=%s, alias=%s, families=%s, hops=%s)" % (
            self.vectors, {k: (v[0], np.asarray(v[1]).tolist()) for k, v in self.subs.items()}, self.alias,
            {k: np.asarray(v).tolist() for k, v in self.families.items()},
            [h[:3] + (h[3] if isinstance(h[3], str) else np.asarray(h[3]).tolist(),) for h in self.hops])

    def build(self):
        lat = pb.Lattice(*self.vectors)
        lat.add_sublattices(*[(n, p, e) for n, (p, e, _) in self.subs.items()])
        if self.alias:
            lat.add_aliases(*[(n, o, p) for n, (o, p) in self.alias.items()])
        lat.register_hopping_energies(self.families)
        lat.add_hoppings(*self.hops)
        if any(self.offset):
            lat.offset = self.offset
        return lat


def rand_shape(c, ndim, size=2.5):
    """A shape (or primitive) with at least one unit cell or so"""
    r = c.rng
    kind = r.choice(["primitive", "rectangle", "circle", "polygon", "composite"]) if ndim == 2 else \
        r.choice(["primitive", "line"] if ndim == 1 else ["primitive", "ball"])
    if kind == "primitive":
        n = [r.i(2, 4) if i < ndim else 1 for i in range(3)]
        c.note("primitive", n)
        return pb.primitive(*n[:ndim]), n
    if kind == "rectangle":
        x, y = r.q(2, size * 2), r.q(2, size * 2)
        c.note("rectangle", x, y)
        return pb.rectangle(x, y), None
    if kind == "circle":
        x = r.q(1, size)
        c.note("circle", x)
        return pb.circle(x), None
    if kind == "polygon":
        n, rad, ang = r.i(3, 7), r.q(1.3, size), r.q(0, 3)
        c.note("polygon", n, rad, ang)
        return pb.regular_polygon(n, rad, ang), None
    if kind == "line":
        x = r.q(2, size * 2)
        c.note("line", x)
        return pb.line([-x, 0], [x, 0]), None
    if kind == "ball":
        x = r.q(1.2, 1.8)
        c.note("ball", x)
        return pb.FreeformShape(lambda x1, y1, z1: np.sqrt(x1**2 + y1**2 + z1**2) < x, [2 * x] * 3), None
    a, b = pb.rectangle(r.q(2, size * 2), r.q(2, size * 2)), pb.circle(r.q(1, size))
    c.note("composite")
    return r.choice([a | b, a & b, a + b]), None


def rand_symmetry(c, ndim):
    r = c.rng
    args = [r.choice([True, True, False, 2, 3]) if i < ndim else False for i in range(3)]
    if not any(args[:ndim]):
        args[0] = True
    c.note("symmetry", args)
    return pb.translational_symmetry(*args)
