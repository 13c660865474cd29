"""C33: the Python Lattice interface records what it is given, copies independently and derives true reciprocal geometry"""
import pymon
import copy
import itertools
import math

import numpy as np
import pybinding as pb
from pymon import CaseSkipped

f32 = np.float32


def as_matrix(energy):
    """The matrix which an energy argument stands for"""
    e = np.asarray(energy)
    if e.ndim == 0:
        return e.reshape(1, 1).astype(complex)
    if e.ndim == 1:
        return np.diag(e).astype(complex)
    return e.astype(complex)


class Ref:
    """What the lattice must say about itself"""
    def __init__(self, vectors):
        self.vectors, self.subs, self.hops = vectors, [], []  # subs: (name, position, matrix, alias of)
        self.offset, self.min_neighbors = (0, 0, 0), 1

    def sub(self, name):
        return next((k for k, s in enumerate(self.subs) if s[0] == name), None)

    def copy(self):
        r = Ref(self.vectors)
        r.subs, r.hops = list(self.subs), [(n, e, list(t)) for n, e, t in self.hops]
        r.offset, r.min_neighbors = self.offset, self.min_neighbors
        return r

    def norb(self, name):
        return self.subs[self.sub(name)][2].shape[0]


def pad(v):
    v = np.atleast_1d(np.asarray(v, dtype=float)).reshape(-1)
    return np.concatenate([v, np.zeros(3 - len(v))])


def compare(c, lat, ref, when):
    c.count("lattices compared")
    c.equal([lat.ndim, lat.nsub, lat.nhop], [len(ref.vectors), len(ref.subs), len(ref.hops)], "ndim, nsub, nhop " + when)
    c.check(len(lat.vectors) == lat.ndim, "number of vectors " + when)
    for got, want in zip(lat.vectors, ref.vectors):
        c.equal(got, pad(want).astype(f32), "lattice vector " + when)
    c.equal(lat.offset, pad(ref.offset).astype(f32), "offset " + when)
    c.equal(lat.min_neighbors, ref.min_neighbors, "min_neighbors " + when)
    subs = lat.sublattices
    c.equal(sorted(subs), sorted(s[0] for s in ref.subs), "sublattice names " + when)
    for k, (name, pos, matrix, original) in enumerate(ref.subs):
        s = subs[name]
        c.equal(s.position, pad(pos).astype(f32), "position of %s %s" % (name, when))
        c.equal(s.energy, matrix, "onsite energy of %s %s" % (name, when))
        c.equal([s.unique_id, s.alias_id], [k, k if original is None else ref.sub(original)], "ids of %s %s" % (name, when))
    hops, ids = lat.hoppings, []
    c.equal(sorted(hops), sorted(h[0] for h in ref.hops), "hopping names " + when)
    for name, matrix, terms in ref.hops:
        h = hops[name]
        c.equal(h.energy, matrix, "energy of %s %s" % (name, when))
        ids.append(h.family_id)
        got = [(tuple(t.relative_index), t.from_id, t.to_id) for t in h.terms]
        c.check(got == terms, "terms of %s %s: got %s, expected %s" % (name, when, got, terms))
    c.equal(sorted(ids), list(range(len(ref.hops))), "hopping ids " + when)


def spell(c, v):
    """The same vector given in different ways"""
    r = c.rng
    v = [float(x) for x in v]
    while len(v) > 1 and v[-1] == 0 and r.p(0.5):
        v.pop()
    return r.choice([lambda: v, lambda: tuple(v), lambda: np.array(v), lambda: np.array(v, dtype=f32)])()


def new_energy(c, norb):
    """An onsite energy and its completed matrix"""
    r = c.rng
    if norb == 1 and r.p(0.7):
        e = r.choice([r.q(-2, 2), float(r.q(-2, 2)), r.i(-2, 2), np.float64(r.q(-2, 2)), f32(r.q(-2, 2))])
        return e, as_matrix(e)
    if r.p(0.4):
        e = [r.q(-2, 2) for _ in range(norb)]
        return (e if r.p(0.5) else np.array(e)), as_matrix(e)
    m = np.array([[r.q(-2, 2) + (1j * r.q(-2, 2) if i < j else 0) for j in range(norb)] for i in range(norb)])
    up = np.triu(m)
    full = up + np.triu(up, 1).conj().T
    if r.p(0.3):
        full = full.real.astype(complex)
        up = up.real
    e = up if r.p(0.5) else (full if np.iscomplexobj(up) else full.real)
    return (e if r.p(0.5) else e.tolist()), full


def new_hop(c, n1, n2):
    r = c.rng
    if n1 == n2 == 1 and r.p(0.7):
        e = r.choice([r.q(-2, 2), r.i(-2, 2), r.q(-2, 2) + 1j * r.q(-2, 2), np.float64(r.q(-2, 2)), np.complex64(1j * r.q(-2, 2))])
        return e, as_matrix(e)
    m = np.array([[r.q(-2, 2) for _ in range(n2)] for _ in range(n1)])
    if r.p(0.4):
        m = m + 1j * np.array([[r.q(-2, 2) for _ in range(n2)] for _ in range(n1)])
    return r.choice([m, m.tolist()]), m.astype(complex)


def add_term(c, lat, ref):
    """One hopping, possibly one which must be refused"""
    r = c.rng
    a, b = r.choice(ref.subs)[0], r.choice(ref.subs)[0]
    nd = len(ref.vectors)
    rel = [r.i(-2, 2) for _ in range(nd)]
    full = tuple(rel) + (0,) * (3 - nd)
    given = r.choice([rel, tuple(rel), np.array(rel)])
    if nd == 1 and r.p(0.5):
        given = rel[0]
    named = [h for h in ref.hops]
    if named and r.p(0.5):
        h = r.choice(named)
        arg, matrix, name = h[0], h[1], h[0]
    else:
        arg, matrix = new_hop(c, ref.norb(a), ref.norb(b)) if r.p(0.9) else new_hop(c, r.i(1, 3), r.i(1, 3))
        name = None
    ia, ib = ref.sub(a), ref.sub(b)
    term, conj = (full, ia, ib), (tuple(-x for x in full), ib, ia)
    bad = (ia == ib and not any(full)) or matrix.shape != (ref.norb(a), ref.norb(b)) or \
        any(t in (term, conj) for h in ref.hops for t in h[2])
    c.note("hop", full, a, b, "->", name or np.asarray(arg).tolist(), "(refused)" if bad else "")
    call = r.choice([lambda: lat.add_one_hopping(given, a, b, arg), lambda: lat.add_hoppings((given, a, b, arg)),
                     lambda: lat.add_hoppings([given, a, b, arg])])
    if bad:
        c.count("refused calls")
        c.raises((RuntimeError, ValueError, KeyError, IndexError), "an invalid hopping", call)
        return
    call()
    if name is None:
        same = next((h for h in ref.hops if h[1].shape == matrix.shape and np.array_equal(h[1], matrix)), None)
        if same is None:
            given_names = set(lat.hoppings) - set(h[0] for h in ref.hops)
            c.check(len(given_names) == 1, "names given to an unnamed hopping: %s" % sorted(given_names))
            same = (given_names.pop(), matrix, [])
            ref.hops.append(same)
    else:
        same = next(h for h in ref.hops if h[0] == name)
    same[2].append(term)


def definition(c):
    r = c.rng
    nd = r.i(1, 3)
    vectors = []
    for i in range(nd):
        v = [r.q(-0.5, 0.5) if j < nd else 0.0 for j in range(3)]
        v[i] = r.q(0.6, 1.5) * r.choice([1, 1, -1])
        vectors.append(v)
    c.note("vectors", vectors)
    args = [spell(c, v) for v in vectors]
    if nd == 1 and vectors[0][1] == 0 and r.p(0.5):
        args[0] = vectors[0][0]
    lat = pb.Lattice(*args) if r.p(0.5) else pb.Lattice(**{"a%d" % (i + 1): a for i, a in enumerate(args)})
    ref = Ref(vectors)
    compare(c, lat, ref, "when new")
    copies = []
    for step in range(r.i(4, 14)):
        kind = r.choice(["sub", "sub", "sub", "alias", "family", "hop", "hop", "hop", "hop", "offset", "min", "copy", "bad"])
        when = "after step %d (%s)" % (step, kind)
        if kind == "sub" and len(ref.subs) < 5:
            new = []
            for k in range(r.i(1, 2)):
                name = "s%d%s" % (len(ref.subs) + k, r.choice(["", "|x", " y"]))
                e, m = new_energy(c, r.i(1, 3))
                pos = [r.q(-1, 1) for _ in range(3)]
                new.append((name, pos, e, m))
                c.note("sub", name, pos, np.asarray(e).tolist())
            if r.p(0.5):
                lat.add_sublattices(*[(n, spell(c, p), e) for n, p, e, _ in new])
            else:
                for n, p, e, _ in new:
                    lat.add_one_sublattice(n, spell(c, p), e) if r.p(0.5) else lat.add_one_sublattice(n, spell(c, p), onsite_energy=e)
            ref.subs += [(n, p, m, None) for n, p, _, m in new]
        elif kind == "sub":
            name, pos = "d%d" % len(ref.subs), [r.q(-1, 1)]
            lat.add_one_sublattice(name, pos)
            ref.subs.append((name, pos, np.zeros((1, 1), dtype=complex), None))
        elif kind == "alias" and ref.subs:
            o = r.choice(ref.subs)
            name, pos = "al%d" % len(ref.subs), [r.q(-1, 1) for _ in range(3)]
            c.note("alias", name, o[0])
            lat.add_one_alias(name, o[0], spell(c, pos)) if r.p(0.5) else lat.add_aliases((name, o[0], spell(c, pos)))
            ref.subs.append((name, pos, o[2], o[3] or o[0]))
        elif kind == "family":
            fam = {}
            for k in range(r.i(1, 3)):
                fam["%s%d" % (r.choice("tgz"), len(ref.hops) * 4 + k)] = new_hop(c, r.i(1, 3), r.i(1, 3))
            c.note("register", sorted(fam))
            lat.register_hopping_energies({k: v[0] for k, v in fam.items()})
            ref.hops += [(k, fam[k][1], []) for k in sorted(fam)]
        elif kind == "hop" and ref.subs:
            add_term(c, lat, ref)
        elif kind == "offset":
            x = [r.q(-0.45, 0.45) for _ in range(nd)]
            off = sum(t * np.array(v) for t, v in zip(x, vectors)).astype(f32)
            if r.p(0.25):
                far = (off + 2 * np.array(vectors[0])).astype(f32)
                c.count("refused calls")
                c.raises((RuntimeError, ValueError), "an offset which is too large", lambda: setattr(lat, "offset", far))
            else:
                lat.offset = spell(c, off)
                ref.offset = off
        elif kind == "min":
            lat.min_neighbors = ref.min_neighbors = r.i(0, 4)
        elif kind == "bad" and ref.subs:
            name = ref.subs[0][0]
            which = r.i(0, 5)
            c.count("refused calls")
            refused = (RuntimeError, ValueError, KeyError, IndexError, TypeError)
            if which == 0:
                c.raises(refused, "a second sublattice of the same name", lambda: lat.add_one_sublattice(name, [0, 0]))
            elif which == 1:
                c.raises(refused, "a blank sublattice name", lambda: lat.add_one_sublattice("", [0, 0]))
            elif which == 2:
                c.raises(refused, "an alias of nothing", lambda: lat.add_one_alias("zz", "no such", [0, 0]))
            elif which == 3:
                c.raises(refused, "an onsite matrix with a complex diagonal", lambda: lat.add_one_sublattice("zz", [0, 0], [[1j, 0], [0, 1]]))
            elif which == 4:
                c.raises(refused, "a hopping of an unknown name", lambda: lat.add_one_hopping([1] * nd, name, name, "no such"))
            else:
                c.raises(refused, "a hopping to an unknown sublattice", lambda: lat.add_one_hopping([1] * nd, name, "no such", 1.0))
        elif kind == "copy":
            how = r.choice(["offset", "min", "deepcopy"])
            c.note("copy by", how)
            other = ref.copy()
            if how == "offset":
                x = [r.q(-0.45, 0.45) for _ in range(nd)]
                off = sum(t * np.array(v) for t, v in zip(x, vectors)).astype(f32)
                new, other.offset = lat.with_offset(off), off
            elif how == "min":
                other.min_neighbors = r.i(0, 5)
                new = lat.with_min_neighbors(other.min_neighbors)
            else:
                new = copy.deepcopy(lat)
            compare(c, new, other, "of the copy made by " + how)
            if r.p(0.5):  # go on with the copy
                (lat, ref), (new, other) = (new, other), (lat, ref)
            copies.append((new, other))
        compare(c, lat, ref, when)
    for new, other in copies:
        compare(c, new, other, "of the other copy at the end")
    c.count("independent copies", len(copies))
    c.seen("definitions", c.describe)
    c.sig(c.describe)


def reduce2(a, b):
    a, b = np.array(a, dtype=float), np.array(b, dtype=float)
    while True:
        if a @ a > b @ b:
            a, b = b, a
        n = round((a @ b) / (a @ a))
        if n == 0:
            return a, b
        b = b - n * a


def zone(b1, b2):
    """The first Brillouin zone by clipping with all the half planes which matter"""
    r1, r2 = reduce2(b1, b2)
    size = 4 * (np.linalg.norm(r1) + np.linalg.norm(r2))
    poly = [np.array(p) * size for p in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
    for i, j in itertools.product(range(-3, 4), repeat=2):
        if i == j == 0:
            continue
        g = i * r1 + j * r2
        h = g @ g / 2
        new = []
        for p, q in zip(poly, poly[1:] + poly[:1]):
            dp, dq = p @ g - h, q @ g - h
            if dp <= 0:
                new.append(p)
            if (dp < 0 < dq) or (dq < 0 < dp):
                new.append(p + (q - p) * (dp / (dp - dq)))
        poly = new
    return np.array(poly)


def area(p):
    x, y = np.array(p).T
    return 0.5 * float(np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y))


def edge_distance(p, poly):
    best = np.inf
    for a, b in zip(poly, np.roll(poly, -1, axis=0)):
        ab = b - a
        t = np.clip((p - a) @ ab / max(ab @ ab, 1e-300), 0, 1)
        best = min(best, np.linalg.norm(p - a - t * ab))
    return best


def check_geometry(c, vectors):
    nd = len(vectors)
    lat = pb.Lattice(*vectors)
    stored = [np.array(v, dtype=f32).astype(float) for v in map(pad, vectors)]
    b = lat.reciprocal_vectors()
    c.check(len(b) == nd, "one reciprocal vector per primitive vector")
    for i, j in itertools.product(range(nd), repeat=2):
        c.check(np.shape(b[j]) == (3,), "shape of a reciprocal vector: %s" % (np.shape(b[j]),))
        got, size = float(np.dot(stored[i], b[j])), np.linalg.norm(stored[i]) * np.linalg.norm(b[j])
        c.check(abs(got - 2 * math.pi * (i == j)) <= 1e-5 * size, "a%d . b%d = %s" % (i + 1, j + 1, got))
    for v in b:
        c.check(not np.any(v[nd:]), "component of a reciprocal vector outside of the lattice's space: %s" % v)
    c.count("reciprocal bases")
    if nd == 1:
        z = lat.brillouin_zone()
        half = math.pi / abs(stored[0][0])
        c.close(z, [-half, half], "Brillouin zone of a chain", 1e-6, half)
    elif nd == 2:
        exact = 2 * math.pi * np.linalg.inv(np.array([v[:2] for v in stored])).T
        want = zone(exact[0], exact[1])
        got = np.array(lat.brillouin_zone())
        size = float(np.max(np.abs(want)))
        c.check(got.ndim == 2 and got.shape[1] == 2 and len(got) >= 4, "vertices of the Brillouin zone: shape %s" % (got.shape,))
        full = abs(np.linalg.det(exact))
        c.check(abs(area(got) - full) <= 1e-4 * full, "area of the Brillouin zone: %s (counter-clockwise: positive), expected %s" % (area(got), full))
        for p in got:
            d = edge_distance(p, want)
            c.check(d <= 1e-4 * size, "vertex %s is not on the edge of the Brillouin zone (%g away)" % (p, d))
        for p in want:
            d = edge_distance(p, got)
            c.check(d <= 1e-4 * size, "corner %s of the Brillouin zone is missing (%g away from the outline)" % (p, d))
        c.count("Brillouin zones")
        c.count("skewed bases" if any(abs(np.dot(exact[0], exact[1])) > 0.5 * min(e @ e for e in exact) * 1.001 for _ in [0]) else "reduced bases")
    else:
        c.raises(RuntimeError, "Brillouin zone of a 3D lattice", lat.brillouin_zone)
    # the Hamiltonian of the lattice has the period of the reciprocal vectors
    if c.rng.p(0.5):
        r = c.rng
        lat.add_one_sublattice("A", [0, 0], 0.5)
        lat.add_one_sublattice("B", pad(vectors[0]) * 0.25)
        lat.add_hoppings(([0] * nd, "A", "B", 1.0), *[([int(i == k) for i in range(nd)], "A", r.choice("AB"), 0.5 + k) for k in range(nd)])
        model = pb.Model(lat, pb.translational_symmetry())
        k0 = np.array([r.q(-3, 3) if j < nd else 0.0 for j in range(3)])
        model.set_wave_vector(k0)
        e0 = np.linalg.eigvalsh(model.hamiltonian.toarray())
        n = [r.i(-2, 2) for _ in range(nd)]
        model.set_wave_vector(k0 + sum(m * np.array(v) for m, v in zip(n, b)))
        c.close(np.linalg.eigvalsh(model.hamiltonian.toarray()), e0, "bands one period %s away" % n, 2e-4, 5.0)
        c.count("band periods")


def check_plot_geometry(c, vectors):
    """Radius of the sites and the visible sublattices"""
    r = c.rng
    lat = pb.Lattice(*vectors)
    pos = []
    grid = [[r.q(-0.5, 0.5, 8) if j < len(vectors) or r.p(0.4) else 0.0 for j in range(3)] for _ in range(3)]
    for k in range(r.i(1, 5)):
        p = list(r.choice(grid))
        if r.p(0.4):
            p[2] = r.q(-0.5, 0.5, 8)
        pos.append(p)
        lat.add_one_sublattice("s%d" % k, p)
    c.note("positions", pos)
    pos = np.array(pos)
    d = [np.linalg.norm(a - b) for a, b in itertools.combinations(pos, 2)]
    d = [x for x in d if x > 0]
    spacing = min(d) if d else min(np.linalg.norm(v) for v in vectors)
    for frac in (0.33, 0.05, 0.5):
        rad = lat.site_radius_for_plot(frac) if frac != 0.33 else lat.site_radius_for_plot()
        c.check(0 < rad <= frac * spacing * (1 + 1e-5), "radius %s for spacing %s and fraction %s" % (rad, spacing, frac))
    big = pb.Lattice(*[2 * pad(v) for v in vectors])
    for k, p in enumerate(pos):
        big.add_one_sublattice("s%d" % k, 2 * p)
    c.close(big.site_radius_for_plot(), 2 * lat.site_radius_for_plot(), "radius for a lattice of twice the size", 1e-5)
    for axes in ("xy", "yz", "xz", "zx", "yx"):
        i, j = ("xyz".index(a) for a in axes)
        z = 3 - i - j
        vis = lat._visible_sublattices(axes)
        top = {}
        for k, p in enumerate(pos):
            key = (p[i], p[j])
            top[key] = max(top.get(key, -np.inf), p[z])
        got = sorted((float(s.position[i]), float(s.position[j]), float(s.position[z])) for s in vis.values())
        c.check(got == sorted(k + (v,) for k, v in top.items()), "sublattices visible in %s: %s of %s" % (axes, sorted(vis), pos.tolist()))
    c.count("plot geometries")


def geometry(c):
    r = c.rng
    nd = r.choice([1, 2, 2, 2, 2, 3])
    kind = r.choice(["random", "random", "skewed", "square", "hex", "long"]) if nd == 2 else "random"
    if kind == "hex":
        a = r.q(0.2, 2)
        ang = math.pi / 3 * r.choice([1, 2])
        vectors = [[a, 0], [a * math.cos(ang), a * math.sin(ang)]]
    elif kind == "square":
        vectors = [[r.q(0.2, 2), 0], [0, r.q(0.2, 2)]]
        if r.p(0.5):
            vectors[1][1] = vectors[0][0]
    elif kind == "long":
        vectors = [[r.q(0.2, 0.5), 0], [r.q(-1, 1), r.q(3, 10)]]
    else:
        vectors = []
        for i in range(nd):
            v = [r.q(-0.5, 0.5) if j < nd else 0.0 for j in range(3)]
            v[i] = r.q(0.6, 1.5)
            vectors.append(v)
    if nd == 2:
        if kind == "skewed" or r.p(0.3):
            n = r.choice([-3, -2, -1, 1, 2, 3])
            vectors[1] = [x + n * y for x, y in zip(vectors[1], vectors[0])]
            if r.p(0.3):
                m = r.choice([-2, -1, 1, 2])
                vectors[0] = [x + m * y for x, y in zip(vectors[0], vectors[1])]
        if r.p(0.3):
            vectors.reverse()
        ang = r.choice([0, 0, r.uniform(0, 6)])
        rot = np.array([[math.cos(ang), -math.sin(ang)], [math.sin(ang), math.cos(ang)]])
        vectors = [list(rot @ np.array(v[:2])) for v in vectors]
        area2 = abs(np.linalg.det(np.array(vectors)))
        if area2 < 0.02 * np.linalg.norm(vectors[0]) * np.linalg.norm(vectors[1]):
            raise CaseSkipped("nearly parallel")
    if nd == 3 and abs(np.linalg.det(np.array(vectors))) < 0.1:
        raise CaseSkipped("nearly coplanar")
    c.note(kind, vectors)
    check_geometry(c, vectors)
    check_plot_geometry(c, vectors)
    c.seen("bases", vectors)
    c.sig(kind, vectors)


def random_case(c):
    (definition if c.rng.p(0.5) else geometry)(c)


def p_skewed(c):
    for v in ([[1, 0], [2, 1]], [[1, 0], [3, 1]], [[1, 0], [-2.5, 1]], [[5, 2], [2, 1]], [[1, 0], [1, 1]], [[0, 1], [0.5, 0.5]]):
        check_geometry(c, v)
    c.sig("skewed")


def p_1d(c):
    for v in (1, 0.25, -2, [-0.5], [1.5, 0.25]):
        check_geometry(c, [v])
    c.sig("chains")


PINNED = {"skewed": p_skewed, "chains": p_1d}
if __name__ == "__main__":
    pymon.main("C33", random_case, PINNED, "random sequences of calls to the Python Lattice interface compared with a reference record after every call, "
               "and reciprocal vectors, Brillouin zones and plotting sizes of random bases compared with independent geometry; a case counts by its definition")
