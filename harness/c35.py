"""C35: the material repository is the tight-binding model which its documentation names, for every parameter and wave vector"""
import pymon
import itertools
import math

import numpy as np
import pybinding as pb
from pymon import CaseSkipped
from pybinding.repository import examples, graphene, group6_tmd, phosphorene
from pybinding.repository.graphene import utils as graphene_utils

HBAR = 6.58211899e-16  # eV s
PHI0 = 2 * math.pi * HBAR
A_CC, A, T, T_NN, BETA = 0.142, 0.24595, -2.8, 0.1, 3.37
VF = 3 / (2 * HBAR) * abs(T) * A_CC
S3 = math.sqrt(3)


def bloch(lat, k):
    model = pb.Model(lat, pb.translational_symmetry())
    model.set_wave_vector(list(k))
    return model.hamiltonian.toarray()


def cell(lat):
    """Vectors, names and positions of the unit cell"""
    names = sorted(lat.sublattices, key=lambda s: lat.sublattices[s].unique_id)
    return [np.array(v, dtype=float) for v in lat.vectors], names, np.array([lat.sublattices[s].position for s in names], dtype=float)


def by_distance(vectors, pos, k, hop, onsite, reach=3):
    """A Bloch Hamiltonian which follows from geometry: hop(i, j, distance vector) -> energy"""
    n = len(pos)
    h = np.diag(np.array(onsite, dtype=complex))
    bonds = 0
    for cells in itertools.product(range(-reach, reach + 1), repeat=len(vectors)):
        shift = sum(m * v for m, v in zip(cells, vectors))
        for i, j in itertools.product(range(n), repeat=2):
            d = pos[j] + shift - pos[i]
            if not any(cells) and i == j:
                continue
            t = hop(i, j, d)
            if t:
                bonds += 1
                h[i, j] += t * np.exp(1j * np.dot(k, shift))
    return h, bonds


def compare_bands(c, lat, hop, onsite, what, num=2):
    r = c.rng
    vectors, names, pos = cell(lat)
    b = lat.reciprocal_vectors()
    for _ in range(num):
        k = sum(r.uniform(-1, 1) * np.array(v) for v in b)
        want, bonds = by_distance(vectors, pos, k, hop, onsite)
        c.check(np.allclose(want, want.conj().T), "reference")
        got = bloch(lat, k)
        c.close(np.linalg.eigvalsh(got), np.linalg.eigvalsh(want), "%s: energies at k = %s" % (what, k), 1e-4, 5.0)
        c.count("band structures compared")
    terms = sum(len(f.terms) for f in lat.hoppings.values())
    c.check(2 * terms == bonds, "%s: %d hoppings are defined, %d bonds are expected" % (what, terms, bonds // 2))


def near(x, y):
    return abs(x - y) < 2e-3 * max(1.0, abs(y)) and abs(x - y) < 0.01


def planar(d):
    return math.hypot(d[0], d[1])


def graphene_monolayer(c):
    r = c.rng
    nn = r.i(1, 3)
    onsite = (0, 0) if r.p(0.3) else (r.q(-1, 1), r.q(-1, 1))
    kw = {}
    for name in ("t", "t_nn", "t_nnn"):
        if r.p(0.5):
            kw[name] = r.q(-3, 3) or 1.0
    t = {"t": T, "t_nn": T_NN, "t_nnn": 0.05, **kw}
    if len({t["t"], t["t_nn"], t["t_nnn"]}) < 3:
        raise CaseSkipped("equal energies")
    lat = graphene.monolayer(nn, **kw) if onsite == (0, 0) else graphene.monolayer(nn, onsite, **kw) if r.p(0.5) else graphene.monolayer(nearest_neighbors=nn, onsite=onsite, **kw)
    c.note("graphene.monolayer", nn, onsite, kw)
    extra = 3 * t["t_nn"] if nn >= 2 else 0
    shells = [(A_CC, t["t"]), (A, t["t_nn"]), (2 * A_CC, t["t_nnn"])][:nn]

    def hop(i, j, d):
        return next((e for l, e in shells if near(planar(d), l)), 0)
    compare_bands(c, lat, hop, [o + extra for o in onsite], "graphene.monolayer")
    c.check(sorted(lat.sublattices) == ["A", "B"] and lat.min_neighbors == 2, "graphene.monolayer: sublattices and neighbours")
    if onsite == (0, 0):
        kk = np.array([4 * math.pi / (3 * A), 0, 0])
        e = np.linalg.eigvalsh(bloch(lat, kk))
        c.close(e, [0, 0], "graphene: energy of the Dirac point", 2e-4, max(abs(v) for v in t.values()))
    if nn == 1 and onsite[0] == onsite[1] == 0:
        for q in (0.01, 0.02):  # the slope of the cone is the Fermi velocity
            ang = r.uniform(0, 6)
            kk = np.array([4 * math.pi / (3 * A) + q * math.cos(ang), q * math.sin(ang), 0])
            e = np.linalg.eigvalsh(bloch(lat, kk))
            c.close(e[1] / q, 3 / 2 * abs(t["t"]) * A_CC, "slope of the Dirac cone", 5e-3)
    c.raises(RuntimeError, "more neighbours than there are", graphene.monolayer, 4)
    c.sig("monolayer", nn, onsite, sorted(kw.items()))


def graphene_variants(c):
    r = c.rng
    onsite = (r.q(-1, 1), r.q(-1, 1)) if r.p(0.7) else (0, 0)
    hop = lambda i, j, d: T if near(planar(d), A_CC) else 0
    c.note("variants", onsite)
    alt = graphene.monolayer_alt(onsite) if any(onsite) else graphene.monolayer_alt()
    compare_bands(c, alt, hop, onsite, "monolayer_alt")
    four = graphene.monolayer_4atom(onsite) if any(onsite) else graphene.monolayer_4atom()
    _, names, _ = cell(four)
    c.check(names == ["A", "B", "A2", "B2"], "sublattices of the 4 atom cell")
    compare_bands(c, four, hop, [onsite["AB".index(n[0])] for n in names], "monolayer_4atom")
    # the same material whatever its cell: folded bands
    k = np.array([r.uniform(-10, 10), r.uniform(-10, 10), 0])
    g = np.array(four.reciprocal_vectors()[1])
    mono = graphene.monolayer(1, onsite)
    e = np.sort(np.concatenate([np.linalg.eigvalsh(bloch(mono, k)), np.linalg.eigvalsh(bloch(mono, k + g))]))
    c.close(np.linalg.eigvalsh(bloch(four, k)), e, "bands of the 4 atom cell are not those of the 2 atom cell", 2e-4, 5.0)
    c.close(np.linalg.eigvalsh(bloch(alt, k)), np.linalg.eigvalsh(bloch(mono, k)), "bands of the other 2 atom cell", 2e-4, 5.0)
    for lat in (alt, four, mono):
        m = pb.Model(lat, pb.circle(r.q(0.6, 1.2)))
        c.check(m.system.count_neighbors().min() >= 2, "dangling atoms")
    # finite pieces have the same spectrum per atom pair count: 4 atom sites carry the names of their originals
    s = pb.Model(four, pb.primitive(3, 2)).system
    c.check(int(np.sum(np.asarray(s.sublattices == "A"))) == int(np.sum(np.asarray(s.sublattices == "B"))), "as many A as B sites")
    c.sig("variants", onsite, k.tolist())


def graphene_bilayer(c):
    r = c.rng
    g3, g4 = r.p(0.5), r.p(0.5)
    onsite = tuple(r.q(-1, 1) for _ in range(4)) if r.p(0.7) else (0, 0, 0, 0)
    c.note("bilayer", g3, g4, onsite)
    kw = {k: v for k, v in dict(gamma3=g3, gamma4=g4, onsite=onsite).items() if v is True or v and k == "onsite" and any(v) or r.p(0.4)}
    lat = graphene.bilayer(**kw)
    _, names, pos = cell(lat)
    c.check(names == ["A1", "B1", "A2", "B2"], "sublattices of the bilayer: %s" % names)
    c.close(pos[:2, 2] - pos[2:, 2], [0.335, 0.335], "distance of the layers", 1e-5)

    def hop(i, j, d):
        a, b = names[i], names[j]
        if a[1] == b[1]:
            return T if near(planar(d), A_CC) else 0
        pair = {a, b}
        if pair == {"B1", "A2"}:
            return -0.4 if planar(d) < 1e-3 else 0
        if g3 and pair == {"B2", "A1"}:
            return -0.3 if near(planar(d), A_CC) else 0
        if g4 and pair == {"A1", "A2"}:
            return -0.04 if near(planar(d), A_CC) else 0
        return 0
    compare_bands(c, lat, hop, onsite, "bilayer")
    c.sig("bilayer", g3, g4, onsite)


TMD = {"MoS2": [0.3190, 1.046, 2.104, -0.184, 0.401, 0.507, 0.218, 0.338, 0.057],
       "WS2": [0.3191, 1.130, 2.275, -0.206, 0.567, 0.536, 0.286, 0.384, -0.061],
       "MoSe2": [0.3326, 0.919, 2.065, -0.188, 0.317, 0.456, 0.211, 0.290, 0.130],
       "WSe2": [0.3325, 0.943, 2.179, -0.207, 0.457, 0.486, 0.263, 0.329, 0.034],
       "MoTe2": [0.3557, 0.605, 1.972, -0.169, 0.228, 0.390, 0.207, 0.239, 0.252],
       "WTe2": [0.3560, 0.606, 2.102, -0.175, 0.342, 0.410, 0.233, 0.270, 0.190]}


def liu(p, k):
    """The Hamiltonian published for these materials (G.-B. Liu et al., PRB 88, 085433, eqs. 11-18)"""
    a, e1, e2, t0, t1, t2, t11, t12, t22 = p
    al, be = k[0] * a / 2, S3 * k[1] * a / 2
    ca, cb, sa, sb = math.cos(al), math.cos(be), math.sin(al), math.sin(be)
    h0 = 2 * t0 * (math.cos(2 * al) + 2 * ca * cb) + e1
    h1 = -2 * S3 * t2 * sa * sb + 2j * t1 * (math.sin(2 * al) + sa * cb)
    h2 = 2 * t2 * (math.cos(2 * al) - ca * cb) + 2j * S3 * t1 * ca * sb
    h11 = 2 * t11 * math.cos(2 * al) + (t11 + 3 * t22) * ca * cb + e2
    h22 = 2 * t22 * math.cos(2 * al) + (3 * t11 + t22) * ca * cb + e2
    h12 = S3 * (t22 - t11) * sa * sb + 4j * t12 * sa * (ca - cb)
    return np.array([[h0, h1, h2], [np.conj(h1), h11, h12], [np.conj(h2), np.conj(h12), h22]])


def tmd(c):
    r = c.rng
    override = None
    name = r.choice(sorted(TMD))
    p = TMD[name]
    if r.p(0.4):
        p = [r.q(0.3, 0.4, 256)] + [r.q(-2, 2) for _ in range(8)]
        name = r.choice([name, "NbS2"])
        override = {name: p}
    c.note("tmd", name, override)
    lat = group6_tmd.monolayer_3band(name, override) if override else group6_tmd.monolayer_3band(name)
    b = lat.reciprocal_vectors()
    c.check(list(lat.sublattices) == [name[:2]] if name[1].islower() else list(lat.sublattices) == [name[0]], "name of the metal: %s" % list(lat.sublattices))
    c.close(np.linalg.norm(np.array(lat.vectors), axis=1), [p[0], p[0]], "lattice constant", 1e-5)
    for _ in range(3):
        k = sum(r.uniform(-1, 1) * np.array(v) for v in b)
        got, want = np.linalg.eigvalsh(bloch(lat, k)), np.linalg.eigvalsh(liu(p, k))
        c.close(got, want, "%s: energies at k = %s" % (name, k), 1e-4, 5.0)
        ang = 2 * math.pi / 3
        rk = np.array([k[0] * math.cos(ang) - k[1] * math.sin(ang), k[0] * math.sin(ang) + k[1] * math.cos(ang), 0])
        c.close(np.linalg.eigvalsh(bloch(lat, rk)), got, "%s: three-fold symmetry of the bands" % name, 1e-4, 5.0)
        c.count("band structures compared", 2)
    if override and name in TMD:  # the defaults are not changed by an override
        k = [1.0, 2.0, 0]
        c.close(np.linalg.eigvalsh(bloch(group6_tmd.monolayer_3band(name), k)), np.linalg.eigvalsh(liu(TMD[name], k)), "%s after an override" % name, 1e-4, 5.0)
    c.sig("tmd", name, p, k)


def phosphor(c):
    r = c.rng
    n = r.i(2, 5)
    c.note("phosphorene", n)
    lat = phosphorene.monolayer_4band() if n == 5 and r.p(0.5) else phosphorene.monolayer_4band(n) if r.p(0.5) else phosphorene.monolayer_4band(num_hoppings=n)
    vectors, names, pos = cell(lat)
    energies = {"t1": -1.22, "t2": 3.665, "t3": -0.205, "t4": -0.105, "t5": -0.055}
    ax, ay, a = 0.438, 0.332, 0.222
    c.close([v[i] for i, v in enumerate(vectors)], [ax, ay], "cell of phosphorene", 1e-5)
    h = a * math.sin(math.radians(103.69 - 90))
    level = [round(p[2] / h) for p in pos]
    c.close(pos[:, 2], [h * l for l in level], "heights of the atoms", 1e-4)

    # the neighbours of the published model (Rudenko and Katsnelson): by the lengths of the bonds
    s = 0.5 * ax - a * math.cos(math.radians(96.79) / 2)
    lengths = {
        "t1": math.hypot(ax / 2 - s, ay / 2),               # in one sublayer
        "t2": math.hypot(s, h),                             # between the sublayers, up the zigzag ridge
        "t3": math.hypot(math.hypot(ax / 2 + s, ay / 2), 0),
        "t4": math.sqrt((ax / 2) ** 2 + (ay / 2) ** 2 + h ** 2),
        "t5": math.hypot(ax - s, h),
    }

    def hop(i, j, d):
        l = float(np.linalg.norm(d))
        for t in list(energies)[:n]:
            if t == "t1" and level[i] == level[j] and near(l, lengths[t]) and abs(d[1]) > 0.01:
                return energies[t]
            if t == "t3" and level[i] == level[j] and near(l, lengths[t]) and abs(d[1]) > 0.01:
                return energies[t]
            if t in ("t2", "t4", "t5") and level[i] != level[j] and near(l, lengths[t]) and (abs(d[1]) > 0.01) == (t == "t4"):
                return energies[t]
        return 0
    compare_bands(c, lat, hop, [0] * 4, "phosphorene with %d hoppings" % n, 3)
    for bad in (0, 1, 6):
        c.raises(RuntimeError, "phosphorene with %d hoppings" % bad, phosphorene.monolayer_4band, bad)
    c.sig("phosphorene", n, r.random())


def simple(c):
    r = c.rng
    a, t, v = r.q(0.2, 2), r.q(-2, 2) or 1.0, r.q(-1, 1)
    c.note("examples", a, t, v)
    lat = examples.chain_lattice(a, t, v)
    k = r.uniform(-4, 4)
    c.close(bloch(lat, [k, 0, 0]), [[v + 2 * t * math.cos(k * a)]], "chain", 1e-5, 5.0)
    lat = examples.square_lattice(a, t)
    kx, ky = r.uniform(-4, 4), r.uniform(-4, 4)
    x, y = kx * a, ky * a
    c.close(bloch(lat, [kx, ky, 0]), [[2 * t * (math.cos(x) + math.cos(y) + math.cos(x + y) + math.cos(x - y))]], "square lattice", 1e-4, 10.0)
    c.count("band structures compared", 2)
    x, y = 0.2 * kx, 0.2 * ky
    c.close(bloch(examples.square_lattice(), [kx, ky, 0]), [[-2 * (math.cos(x) + math.cos(y) + math.cos(x + y) + math.cos(x - y))]], "default square lattice", 1e-4, 10.0)
    c.close(bloch(examples.chain_lattice(), [k, 0, 0]), [[-2 * math.cos(k)]], "default chain", 1e-5, 5.0)
    for field, n in [(r.uniform(0.1, 200), r.i(0, 5))]:
        want = VF * 1e-9 * math.sqrt(2 * HBAR * field * n)  # vF sqrt(2 e hbar B n), in eV
        c.close(graphene_utils.landau_level(field, n), want, "Landau level", 1e-6, 1e-2 + want)
    c.sig("examples", a, t, v, k, kx, ky)


def flake(c, lattice=None):
    r = c.rng
    lat = lattice or graphene.monolayer(r.i(1, 2))
    shape = r.choice([lambda: pb.circle(r.q(0.5, 1.0)), lambda: pb.rectangle(r.q(0.8, 2), r.q(0.8, 2)), lambda: pb.primitive(r.i(2, 5), r.i(2, 5))])()
    return lat, shape


def positions(m):
    return np.array(m.system.positions, dtype=float).T


def modifiers(c):
    r = c.rng
    lat, shape = flake(c)
    plain = pb.Model(lat, shape)
    xyz, h = positions(plain), plain.hamiltonian.toarray()
    on = np.real(np.diag(h)).copy()
    is_a = np.asarray(plain.system.sublattices == "A")
    kind = r.choice(["mass", "coulomb", "field", "field", "triaxial", "bump"])
    if kind == "mass":
        d = r.q(-1, 1)
        c.note("mass", d)
        got = pb.Model(lat, shape, graphene.mass_term(d)).hamiltonian.toarray()
        c.close(got, h + np.diag(np.where(is_a, d, -d)), "mass term", 1e-5, 3.0)
        if r.p(0.5):
            e = np.linalg.eigvalsh(pb_bloch_with(graphene.monolayer(), graphene.mass_term(d), [4 * math.pi / (3 * A), 0, 0]))
            c.close(e, [-abs(d), abs(d)], "gap of a mass term", 1e-3, 1.0)
        extra = d
    elif kind == "coulomb":
        beta, cut = r.q(-2, 2), r.choice([0.0, r.q(0.05, 0.5)])
        off = (0, 0, 0) if r.p(0.3) else (r.q(-0.3, 0.3), r.q(-0.3, 0.3), r.q(0.05, 0.3))
        c.note("coulomb", beta, cut, off)
        dist = np.linalg.norm(xyz - np.array(off), axis=1)
        if dist.min() < 1e-3:
            raise CaseSkipped("charge on a site")
        mod = graphene.coulomb_potential(beta, cut, off) if (cut or any(off)) else graphene.coulomb_potential(beta)
        got = pb.Model(lat, shape, mod).hamiltonian.toarray()
        want = h - np.diag(beta * HBAR * VF / np.maximum(dist, cut))
        c.close(got, want, "Coulomb potential", 1e-4, float(np.abs(want).max()))
        extra = (beta, cut, off)
    elif kind == "field":
        field = r.choice([r.uniform(-500, 500), r.uniform(-5000, 5000)])
        c.note("field", field)
        m = pb.Model(lat, shape, graphene.constant_magnetic_field(field))
        got = m.hamiltonian.toarray()
        c.check(np.iscomplexobj(got), "a magnetic field makes the Hamiltonian complex")
        c.close(np.abs(got), np.abs(h), "magnitudes in a magnetic field", 1e-4, 3.0)
        c.close(got, got.conj().T, "Hermitian", 1e-6, 3.0)
        loops(c, got, h, xyz, field)
        extra = field
    elif kind == "triaxial":
        field = r.uniform(-300, 300)
        c.note("triaxial", field)
        m = pb.Model(lat, shape, graphene.triaxial_strain(field))
        s = field * A_CC / (4 * HBAR * BETA) * 1e-18
        x, y = xyz[:, 0], xyz[:, 1]
        want = np.stack([x + 2 * s * x * y, y + s * (x ** 2 - y ** 2), xyz[:, 2]], axis=1)
        strained(c, m, h, on, want, "triaxial strain", np.argsort)
        extra = field
    else:
        height, sigma = r.q(-1, 1), r.q(0.3, 1.5)
        ctr = (0, 0) if r.p(0.4) else (r.q(-1, 1), r.q(-1, 1))
        c.note("bump", height, sigma, ctr)
        m = pb.Model(lat, shape, graphene.gaussian_bump(height, sigma, ctr) if ctr != (0, 0) else graphene.gaussian_bump(height, sigma))
        r2 = (xyz[:, 0] - ctr[0]) ** 2 + (xyz[:, 1] - ctr[1]) ** 2
        want = np.stack([xyz[:, 0], xyz[:, 1], height * np.exp(-r2 / sigma ** 2)], axis=1)
        strained(c, m, h, on, want, "Gaussian bump", None)
        extra = (height, sigma, ctr)
    c.count("modifier: " + kind)
    c.sig(kind, extra, xyz.shape, float(xyz.sum()))


def pb_bloch_with(lat, mod, k):
    model = pb.Model(lat, pb.translational_symmetry(), mod)
    model.set_wave_vector(list(k))
    return model.hamiltonian.toarray()


def strained(c, m, h, on, want, what, _):
    got = positions(m)
    c.close(got, want, what + ": positions", 1e-5, 2.0)
    d = np.linalg.norm(want[:, None] - want[None, :], axis=2)
    hop = (h - np.diag(np.diag(h))) * np.exp(-BETA * (d / A_CC - 1))
    c.close(m.hamiltonian.toarray(), hop + np.diag(on), what + ": Hamiltonian", 1e-4, max(3.0, float(np.abs(hop).max())))


def loops(c, got, h, xyz, field):
    """The phase around every closed path is the enclosed flux (one sign for all of them)"""
    r = c.rng
    n = len(h)
    nb = [[j for j in np.nonzero(np.abs(h[i]) > 0.05)[0] if j != i] for i in range(n)]
    # a spanning tree; every other bond closes one loop
    start = r.i(0, n - 1)
    parent, order = {start: None}, [start]
    for i in order:
        for j in nb[i]:
            if j not in parent:
                parent[j] = i
                order.append(j)
    closing = [(i, j) for i in parent for j in nb[i] if i < j and parent[j] != i and parent[i] != j]
    r.shuffle(closing)
    for i, j in closing[:20]:
        up, down = [i], [j]
        while parent[up[-1]] is not None:
            up.append(parent[up[-1]])
        while parent[down[-1]] is not None:
            down.append(parent[down[-1]])
        path = list(reversed(up)) + down  # start ... i j ... start
        phase, area = 1.0, 0.0
        for p, q in zip(path, path[1:]):
            z = got[p, q] / h[p, q]
            phase *= z / abs(z)
            area += 0.5 * (xyz[p, 0] * xyz[q, 1] - xyz[q, 0] * xyz[p, 1])
        flux = 2 * math.pi * field * area * 1e-18 / PHI0
        err = abs(phase - np.exp(1j * flux))
        c.check(err < 2e-3, "phase %s around an area of %s nm^2 in %s T; the flux gives %s" % (np.angle(phase), area, field, np.angle(np.exp(1j * flux))))
        c.count("flux loops")


def hexagon(c):
    r = c.rng
    w = r.uniform(0.3, 3.0)
    c.note("hexagon", w)
    shape = graphene.hexagon_ac(w)
    lat = graphene.monolayer()
    s = pb.Model(lat, shape).system
    xyz = np.array(s.positions, dtype=float).T[:, :2]
    v = np.array(shape.vertices, dtype=float)[:, :2]
    side = np.linalg.norm(v[0] - v[1])
    c.close(np.linalg.norm(v - np.roll(v, 1, axis=0), axis=1), [side] * 6, "sides of the hexagon", 1e-5)
    c.check(abs(side - w) <= 3 * A_CC + 1e-3, "side %s for the wanted width %s" % (side, w))
    c.check(s.count_neighbors().min() >= 2, "dangling atoms")
    ang = math.pi / 3
    rot = xyz @ np.array([[math.cos(ang), math.sin(ang)], [-math.sin(ang), math.cos(ang)]])
    d = np.linalg.norm(rot[:, None] - xyz[None], axis=2).min(axis=1)
    c.check(d.max() < 1e-3, "the flake does not have six-fold symmetry: %s" % d.max())
    # armchair edges: the atoms with a missing neighbour are bonded to one another
    edge = s.count_neighbors() == 2
    coo = s.hoppings.tocoo()
    pairs = np.zeros(len(xyz), dtype=int)
    for i, j in zip(coo.row, coo.col):
        if edge[i] and edge[j]:
            pairs[i] += 1
            pairs[j] += 1
    c.check(np.all(pairs[edge] >= 1), "an edge which is not armchair")
    c.count("hexagons")
    c.sig("hexagon", len(xyz))


def random_case(c):
    r = c.rng
    r.choice([graphene_monolayer, graphene_variants, graphene_bilayer, tmd, tmd, phosphor, simple, modifiers, modifiers, modifiers, hexagon])(c)


def p_constants(c):
    from pybinding import constants as k
    from pybinding.repository.graphene import constants as g
    for got, want in [(k.e, 1.602176634e-19), (k.epsilon0, 8.8541878128e-12), (k.hbar, 6.582119569e-16), (k.phi0, 4.135667696e-15), (k.c, 299792458.0)]:
        c.check(abs(got / want - 1) < 2e-4, "constant %s should be %s" % (got, want))
    x, y, z = k.pauli.x, k.pauli.y, k.pauli.z
    c.equal(x @ y - y @ x, 2j * z, "Pauli matrices")
    c.equal(y @ z - z @ y, 2j * x, "Pauli matrices")
    c.equal(x @ x, np.eye(2), "Pauli matrices")
    c.close([g.a, g.a_cc, g.t, g.t_nn, g.beta], [A, A_CC, T, T_NN, BETA], "graphene constants", 1e-9)
    c.close(g.vf / VF, 1.0, "Fermi velocity", 1e-6)
    c.sig("constants")


def p_shapes(c):
    for w in np.linspace(0.2, 3, 15):
        c.note(w)
        c.rng.uniform = lambda a, b, w=w: w
        hexagon(c)
    c.sig("hexagons")


PINNED = {"constants": p_constants, "hexagons": p_shapes}
if __name__ == "__main__":
    pymon.main("C35", random_case, PINNED, "every prebuilt lattice with random parameters: Bloch energies at random wave vectors compared with Hamiltonians built from interatomic distances "
               "or from the published formulas; every graphene modifier on random flakes compared with its defining formula; a case counts by its parameters")
