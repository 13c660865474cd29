"""C27: structures, maps and results keep their parts together when they are indexed, cropped, reduced or mirrored"""
import pymon
import os
import shutil
import tempfile

import numpy as np
import pybinding as pb
import pygen
from pybinding import results
from pymon import CaseSkipped


# ---------------------------------------------------------------- structures
def dense(hop, n):
    """Family ids + 1, so that family 0 is told from no hopping at all"""
    csr = hop.tocsr()
    coo = hop.tocoo()
    out = np.zeros((n, n), dtype=int)
    np.add.at(out, (np.asarray(coo.row), np.asarray(coo.col)), np.asarray(coo.data).astype(int) + 1)
    return csr, coo, out


class Ref:
    """Plain arrays which say what the structure must contain"""
    def __init__(self, xyz, ids, hop, boundaries, data=None):
        self.xyz, self.ids, self.hop, self.boundaries, self.data = xyz, ids, hop, boundaries, data

    @classmethod
    def of(cls, s, data=None):
        n = s.num_sites
        return cls(np.array(s.xyz), np.array(s.sublattices), dense(s.hoppings, n)[2],
                   [(np.array(b.shift), dense(b.hoppings, n)[2]) for b in s.boundaries], data)

    def take(self, idx):
        k = np.arange(len(self.xyz))[idx]
        ix = np.ix_(k, k)
        return Ref(self.xyz[k], self.ids[k], self.hop[ix], [(s, h[ix]) for s, h in self.boundaries],
                   None if self.data is None else self.data[k])


def same(c, s, ref, names, what):
    n = len(ref.xyz)
    c.equal(s.num_sites, n, what + ": num_sites")
    c.equal(s.xyz.reshape(-1, 3), ref.xyz.reshape(-1, 3), what + ": xyz")
    for k, a in enumerate("xyz"):
        c.equal(getattr(s, a), ref.xyz[:, k], what + ": " + a)
        c.equal(getattr(s.positions, a), ref.xyz[:, k], what + ": positions." + a)
    for attr in ("sublattices", "sub"):
        v = getattr(s, attr)
        c.equal(np.array(v), ref.ids, what + ": " + attr)
        for name, i in names.items():
            c.equal(np.array(v == name, dtype=bool), ref.ids == i, what + ": %s == %r" % (attr, name))
            c.equal(np.array(v != name, dtype=bool), ref.ids != i, what + ": %s != %r" % (attr, name))
    if ref.data is not None:
        c.equal(s.data, ref.data, what + ": data")
    if not hasattr(s, "hoppings"):
        return
    csr, coo, h = dense(s.hoppings, n)
    c.equal(csr.shape, (n, n), what + ": hoppings shape")
    c.equal(coo.shape, (n, n), what + ": hoppings shape")
    c.equal(h, ref.hop, what + ": hoppings")
    c.equal(len(s.hoppings) if hasattr(s.hoppings, "__len__") else s.hoppings.nnz, np.count_nonzero(ref.hop), what + ": number of hoppings")
    c.equal(s.hoppings.nnz, np.count_nonzero(ref.hop), what + ": hoppings.nnz")
    c.equal(len(s.boundaries), len(ref.boundaries), what + ": number of boundaries")
    for b, (shift, hb) in zip(s.boundaries, ref.boundaries):
        c.equal(np.array(b.shift), shift, what + ": boundary shift")
        c.equal(dense(b.hoppings, n)[2], hb, what + ": boundary hoppings")
    c.count("structures_compared")
    c.count("hoppings_compared", int(np.count_nonzero(ref.hop)))


def families(c, s, lat, what):
    """Every hopping carries the name of a family which the lattice has between just these positions"""
    ids = s.hoppings.tocsr().mapping
    sub = {}
    for name in lat.subs:
        sub.update({i: name for i in np.unique(np.array(s.sublattices)[np.array(s.sublattices == name)])})
    vec = np.array(lat.vectors)

    def position(n):
        return np.array(lat.alias[n][1] if n in lat.alias else lat.subs[n][0])
    expected = {}
    for rel, a, b, name in lat.hops:
        if not isinstance(name, str):  # an energy which is already registered is not registered again
            name = next((k for k, v in lat.families.items() if np.shape(np.atleast_2d(v)) == np.shape(np.atleast_2d(name))
                         and np.allclose(np.atleast_2d(v), np.atleast_2d(name))), None)
        if name is not None:
            d = sum(r * v for r, v in zip(rel, vec)) + position(b) - position(a)
            expected.setdefault(name, []).append((lat.original(a), lat.original(b), d))
    for part, shift in [(s.hoppings, np.zeros(3))] + [(b.hoppings, np.array(b.shift)) for b in s.boundaries]:
        coo = part.tocoo()
        for name, terms in expected.items():
            pick = np.array(coo.data == name, dtype=bool)
            if name not in [str(k) for k in ids]:
                c.violation("%s: family %s is not in the names of the hoppings: %s" % (what, name, ids))
            c.equal(pick, np.array(coo.data) == ids[name], what + ": hoppings named " + name)
            for i, j in zip(np.asarray(coo.row)[pick], np.asarray(coo.col)[pick]):
                d = s.xyz[j] - s.xyz[i]
                fits = any((sub[int(s.sublattices[i])], sub[int(s.sublattices[j])]) == (a, b) and np.allclose(d - sg * shift, t, atol=1e-4)
                           or (sub[int(s.sublattices[j])], sub[int(s.sublattices[i])]) == (a, b) and np.allclose(d - sg * shift, -t, atol=1e-4)
                           for a, b, t in terms for sg in (1, -1))
                c.check(fits, lambda: "%s: hopping %d->%d is called %s but connects %s to %s at distance %s" % (
                    what, i, j, name, sub[int(s.sublattices[i])], sub[int(s.sublattices[j])], d))
                c.count("family_names_checked")


def pick_index(c, s, ref):
    """Something to index with, and the plain numpy index it stands for"""
    r, n = c.rng, len(ref.xyz)
    kind = r.choice(["mask", "mask", "list", "array", "slice", "shape", "crop", "sub", "one", "coord"])
    if kind == "mask":
        m = r.np().random_sample(n) < r.choice([0.2, 0.5, 0.9, 1.1, -1])
        return kind, m, m
    if kind in ("list", "array"):
        k = r.sample(range(n), r.i(0 if n == 0 else 1, n))
        if r.p(0.3):
            k = sorted(k)
        if r.p(0.3):
            k = [i - n if r.p(0.5) else i for i in k]
        return kind, (k if kind == "list" else np.array(k, dtype=int)), np.array(k, dtype=int)
    if kind == "slice":
        sl = slice(r.choice([None, r.i(-n - 1, n + 1)]), r.choice([None, r.i(-n - 1, n + 1)]), r.choice([None, 1, 2, -1, 3]))
        return kind, sl, sl
    if kind == "shape":
        sh = r.choice([lambda: pb.circle(r.q(0.2, 2)), lambda: pb.rectangle(r.q(0.3, 4), r.q(0.3, 4)), lambda: pb.regular_polygon(r.i(3, 6), r.q(0.5, 2))])()
        m = np.array(sh.contains(*[np.array(ref.xyz[:, k]) for k in range(3)]), dtype=bool).reshape(n)
        return kind, sh, m
    if kind == "crop":
        lim, m = {}, np.ones(n, dtype=bool)
        for a in r.sample(["x", "y", "z"], r.i(1, 3)):
            v = ref.xyz[:, "xyz".index(a)]
            lo, hi = sorted([r.choice([r.q(-2, 2), float(v[r.i(0, n - 1)]) if n else 0.0]) for _ in range(2)])
            lim[a] = r.choice([(lo, hi), [lo, hi]])
            m &= (v >= lo) & (v < hi)
        return kind, lim, m
    if kind == "sub":
        name = r.choice(list(c.names))
        return kind, s.sublattices == name, ref.ids == c.names[name]
    if kind == "coord":
        a = r.i(0, 2)
        v = getattr(s, "xyz"[a])
        t = r.q(-1, 1)
        return kind, v > t, ref.xyz[:, a] > t
    return kind, slice(0, 1), slice(0, 1)


def structure(c):
    r = c.rng
    lat = pygen.Lat(c, aliases=r.p(0.3))
    lattice = lat.build()
    shape, _ = pygen.rand_shape(c, lat.ndim)
    parts = [shape]
    if r.p(0.4):
        parts.append(pygen.rand_symmetry(c, lat.ndim))
    try:
        m = pb.Model(lattice, *parts)
        s = m.system
        n = s.num_sites
    except RuntimeError as e:
        raise CaseSkipped("no such system")
    if n == 0 or n > 400:
        raise CaseSkipped("unusual number of sites")
    c.names = {name: lattice.sublattices[name].alias_id for name in lat.subs}
    c.families = True
    ref = Ref.of(s)
    c.sig(n, np.count_nonzero(ref.hop), len(ref.boundaries))
    same(c, s, ref, c.names, "system")
    families(c, s, lat, "system")
    orbitals(c, m, s, ref, lat)
    nearest(c, s, ref, "system", lat)
    # maps
    obj, what = s, "system"
    kind = r.choice(["structure", "map", "spatial"])
    if kind != "structure":
        data = r.np().random_sample(n) if r.p(0.7) else r.np().randint(-5, 5, n)
        obj = s.with_data(data)
        ref = Ref(ref.xyz, ref.ids, ref.hop, ref.boundaries, data)
        what = "map"
        same(c, obj, ref, c.names, what)
        if kind == "spatial":
            obj = obj.spatial_map
            what = "spatial map"
            same(c, obj, ref, c.names, what)
        elif r.p(0.3):
            obj = pb.results.StructureMap(data, s[:]._sites, s.hoppings, s.boundaries)
    for step in range(r.i(1, 4)):
        name, idx, plain = pick_index(c, obj, ref)
        what = (what + " -> " + name)[-150:]
        c.note(name, idx if isinstance(idx, (list, slice, dict)) else "")
        before = ref
        try:
            new = obj.cropped(**idx) if name == "crop" else obj[idx]
        except Exception as e:
            import traceback
            c.describe += traceback.format_exc()[-600:]
            c.violation("%s failed: %s: %s" % (what, type(e).__name__, e))
        newref = ref.take(plain)
        same(c, new, newref, c.names, what)
        same(c, obj, before, c.names, what + " (the original)")
        c.check(isinstance(new, type(obj)) or type(obj) is pb.system.System and isinstance(new, results.Structure),
                what + ": became a " + type(new).__name__)
        if hasattr(obj, "lattice"):
            c.check(new.lattice is obj.lattice, what + ": lattice lost")
        obj, ref = new, newref
        c.seen("index_chains", (kind, what))
        if len(ref.xyz) == 0:
            break
        if kind == "structure":
            nearest(c, obj, ref, what, lat)
            if r.p(0.3):
                data = r.np().random_sample(len(ref.xyz))
                obj = obj.with_data(data)
                ref = Ref(ref.xyz, ref.ids, ref.hop, ref.boundaries, data)
                kind = "map"
                same(c, obj, ref, c.names, what + " -> with_data")
        else:
            if r.p(0.3):
                lo, hi = sorted([r.q(-1, 1), r.q(-1, 1)])
                cl = obj.clipped(lo, hi)
                c.equal(cl.data, np.clip(ref.data, lo, hi), what + ": clipped")
                c.equal(obj.data, ref.data, what + ": data of the original after clipped")
                same(c, cl, Ref(ref.xyz, ref.ids, ref.hop, ref.boundaries, np.clip(ref.data, lo, hi)), c.names, what + ": clipped")
                c.check(type(cl) is type(obj), "clipped returned a " + type(cl).__name__)
            if r.p(0.3):
                d2 = r.np().random_sample(len(ref.xyz))
                o2 = obj.with_data(d2)
                c.equal(o2.data, d2, what + ": with_data")
                c.equal(obj.data, ref.data, what + ": data of the original after with_data")
                same(c, o2, Ref(ref.xyz, ref.ids, ref.hop, ref.boundaries, d2), c.names, what + ": with_data")
            if r.p(0.2):
                convolved(c, obj, ref)
            if r.p(0.2):
                saved_txt(c, obj, ref)
            if kind == "map" and r.p(0.3):
                sm = obj.spatial_map
                same(c, sm, ref, c.names, what + ": spatial_map")


def convolved(c, obj, ref):
    sigma = c.rng.q(0.1, 0.6)
    x, y = ref.xyz[:, 0], ref.xyz[:, 1]
    rad = np.sqrt(x**2 + y**2)
    if np.any(np.abs(np.abs(rad[:, None] - rad) - sigma) < 1e-6):
        return
    data = ref.data.astype(float)
    w = np.where(np.abs(rad[:, None] - rad) < sigma, np.exp(-0.5 * ((rad[:, None] - rad) / sigma)**2), 0)
    o = obj.with_data(data.copy())
    o.convolve(sigma)
    c.close(o.data, w @ data / w.sum(axis=1), "convolve", 1e-4)
    c.equal(obj.data, ref.data, "convolve changed the original")


def saved_txt(c, obj, ref):
    d = tempfile.mkdtemp(prefix="c27-")
    try:
        obj.save_txt(os.path.join(d, "map"))
        got = np.loadtxt(os.path.join(d, "map.dat"), ndmin=2)
        want = np.column_stack([ref.xyz[:, 0], ref.xyz[:, 1], ref.data])
        c.close(got, want, "SpatialMap.save_txt", 1e-5)
    finally:
        shutil.rmtree(d)


def orbitals(c, m, s, ref, lat):
    r, n = c.rng, len(ref.xyz)
    by_id = {i: lat.subs[name][2] for name, i in c.names.items()}
    norb = np.array([by_id[i] for i in ref.ids])
    total = int(norb.sum())
    c.equal(s.hamiltonian_size, total, "hamiltonian_size")
    c.equal(m.hamiltonian.shape, (total, total), "hamiltonian shape")
    start = np.concatenate([[0], np.cumsum(norb)])
    ex = s.expanded_positions
    for k, a in enumerate("xyz"):
        c.equal(getattr(ex, a), np.repeat(ref.xyz[:, k], norb), "expanded_positions." + a)
    pick = r.sample(range(n), min(n, 3))
    for i in pick:
        c.equal(np.ravel(s.to_hamiltonian_indices(i)), np.arange(start[i], start[i + 1]), "to_hamiltonian_indices")
    data = r.np().random_sample(total)
    want = np.array([data[start[i]:start[i + 1]].sum() for i in range(n)])
    c.close(s.reduce_orbitals(data), want if total != n else data, "reduce_orbitals", 1e-12)
    c.close(s.with_data(data).data, want if total != n else data, "with_data of one value per orbital", 1e-12)
    small = r.np().random_sample(n)
    c.equal(s.reduce_orbitals(small), small, "reduce_orbitals of one value per site")
    if total + 1 != n:
        c.raises(RuntimeError, "data of the wrong size", s.reduce_orbitals, np.zeros(total + 1))
    nb = (ref.hop > 0).sum(axis=0) + (ref.hop > 0).sum(axis=1)
    c.equal(np.array(s.count_neighbors()), nb, "count_neighbors")


def nearest(c, s, ref, what, lat):
    r = c.rng
    target = [r.q(-2, 2) for _ in range(r.choice([3, 3, 2, 1]))] if type(s) is not pb.system.System else [r.q(-2, 2) for _ in range(3)]
    d = np.linalg.norm(ref.xyz[:, :len(target)].astype(float) - np.array(target), axis=1)
    present = [name for name, i in c.names.items() if (ref.ids == i).any() and name not in [o for o, _ in lat.alias.values()]]
    for name in [""] + present:
        mask = np.ones(len(d), dtype=bool) if name == "" else ref.ids == c.names[name]
        i = s.find_nearest(target, name) if name else s.find_nearest(target)
        i = int(i)
        c.check(0 <= i < len(d) and mask[i] and d[i] <= d[mask].min() + 1e-5,
                lambda: "%s: find_nearest(%s, %r) = %d at %.6f, the nearest is at %.6f" % (what, target, name, i, d[i], d[mask].min()))
        sites = s._sites
        i2 = int(sites.find_nearest(target, name))
        c.check(mask[i2] and d[i2] <= d[mask].min() + 1e-5, what + ": Sites.find_nearest")
        order = np.array(sites.argsort_nearest(target, name or None))
        c.equal(np.sort(order), np.arange(len(d)), what + ": argsort_nearest is not a permutation")
        k = mask.sum()
        c.check(mask[order[:k]].all(), what + ": argsort_nearest: other families come first")
        c.check(bool((np.diff(d[order[:k]]) > -1e-5).all()), what + ": argsort_nearest is not sorted")
        c.count("nearest_checked")
    c.close(s._sites.distances(target), d, what + ": distances", 1e-5)
    c.equal(s._sites.xyz, ref.xyz, what + ": Sites.xyz")
    c.equal(len(s._sites), len(d), what + ": len(Sites)")


# ---------------------------------------------------------------- plain results
def sites(c):
    r = c.rng
    n = r.i(1, 12)
    xyz = np.array([[r.q(-2, 2) for _ in range(3)] for _ in range(n)])
    pos = r.choice([lambda: xyz.T, lambda: [list(v) for v in xyz.T], lambda: tuple(xyz.T)])()
    ids = r.choice([None, r.np().randint(0, 3, n)])
    data = [r.q(-2, 2) for _ in range(n)]
    given = r.choice([np.array(data), data, tuple(data)])
    c.sig(n, ids is None, type(given).__name__)
    sm = pb.results.SpatialMap(given, pos, ids) if ids is not None or r.p(0.5) else pb.results.SpatialMap(given, pb.system.Sites(pos))
    want_ids = np.zeros(n) if ids is None else ids
    for _ in range(r.i(1, 3)):
        k = r.choice([r.np().random_sample(len(xyz)) < 0.6, r.sample(range(len(xyz)), r.i(1, len(xyz))) if len(xyz) else [], slice(None, None, r.choice([1, 2, -1]))])
        if len(xyz) == 0:
            break
        c.equal(sm.num_sites, len(xyz), "SpatialMap.num_sites")
        c.equal(sm.xyz.reshape(-1, 3), xyz, "SpatialMap.xyz")
        c.equal(sm.data, np.array(data), "SpatialMap.data")
        c.equal(np.array(sm.sublattices), want_ids, "SpatialMap.sublattices")
        sm, xyz, data, want_ids = sm[k], xyz[k], np.array(data)[k], np.array(want_ids)[k]
    c.raises(RuntimeError, "data which does not match the sites", pb.results.SpatialMap, np.zeros(n + 1), pos)


def series(c):
    r = c.rng
    n, k = r.i(1, 9), r.i(1, 4)
    x = np.cumsum([r.q(0.1, 1) for _ in range(n)])
    y = r.np().random_sample((n, k)) if r.p(0.7) else r.np().random_sample(n)
    s = results.Series(x, y, labels=r.choice([None, {"data": "E"}]))
    c.sig(n, y.shape)
    c.equal(s.variable, x, "Series.variable")
    c.equal(s.data, y, "Series.data")
    c.equal(s.labels["variable"], "x", "Series label")
    if y.ndim == 2:
        red = s.reduced()
        c.close(red.data, y.sum(axis=1), "Series.reduced", 1e-12)
        c.equal(red.variable, x, "Series.reduced variable")
        c.equal(s.data, y, "Series.data after reduced")
    z = r.np().random_sample(n)
    c.equal(s.with_data(z).data, z, "Series.with_data")
    c.equal(s.data, y, "Series.data after with_data")


def sweep(c):
    r = c.rng
    nx, ny = r.i(2, 8), r.i(2, 8)
    x = np.cumsum([r.q(0.2, 1) for _ in range(nx)]) - r.choice([0, 1, 2])
    y = np.cumsum([r.q(0.2, 1) for _ in range(ny)]) - r.choice([0, 1, 2])
    if r.p(0.4):
        x -= x[0]
    if r.p(0.4):
        y -= y[0]
    data = r.np().random_sample((nx, ny))
    labels = r.choice([None, {"title": "T", "x": "a $\\mu$", "data": "LDOS"}])
    s = results.Sweep(x, y, data, labels, tags={"t": 1})
    for _ in range(r.i(1, 3)):
        before = (s, x, y, data)
        op = r.choice(["slice", "slice1", "mask", "int", "yint", "crop", "mirror", "interp", "text"])
        c.note(op)
        if op == "slice":
            a, b = [slice(r.choice([None, r.i(-3, 3)]), r.choice([None, r.i(-3, 6)]), r.choice([None, 1, 2])) for _ in range(2)]
            if not x[a].size or not y[b].size:
                continue
            s, x, y, data = s[a, b], x[a], y[b], data[a, b]
        elif op == "slice1":
            a = slice(r.i(0, 1), None)
            if not x[a].size:
                continue
            s, x, data = s[a], x[a], data[a]
        elif op == "mask":
            m = r.np().random_sample(len(x)) < 0.8
            if not m.any():
                continue
            s, x, data = s[m], x[m], data[m]
        elif op == "int":
            k = r.i(-len(x), len(x) - 1)
            s, x, data = s[k], x[k:][:1], data[k][None, :]
        elif op == "yint":
            k = r.i(-len(y), len(y) - 1)
            s, y, data = s[:, k], y[k:][:1], data[:, k][:, None]
        elif op == "crop":
            kw, mx, my = {}, np.ones(len(x), bool), np.ones(len(y), bool)
            if r.p(0.7):
                lo, hi = sorted([r.choice([r.q(-2, 4), float(r.choice(list(x)))]) for _ in range(2)])
                kw["x"], mx = (lo, hi), (x >= lo) & (x <= hi)
            if r.p(0.7):
                lo, hi = sorted([r.choice([r.q(-2, 4), float(r.choice(list(y)))]) for _ in range(2)])
                kw["y"], my = (lo, hi), (y >= lo) & (y <= hi)
            if not mx.any() or not my.any():
                continue
            s, x, y, data = s.cropped(**kw), x[mx], y[my], data[np.ix_(mx, my)]
        elif op == "mirror":
            ax = r.choice("xy")
            c.raises(RuntimeError, "mirrored along an axis which does not exist", s.mirrored, "w")
            if ax == "x":
                s, x, data = (s.mirrored() if r.p(0.5) else s.mirrored("x")), np.concatenate([-x[:0:-1], -x[:1], x[1:]]), np.vstack([data[:0:-1], data])
            else:
                s, y, data = s.mirrored("y"), np.concatenate([-y[:0:-1], -y[:1], y[1:]]), np.hstack([data[:, :0:-1], data])
        elif op == "interp":
            if len(x) < 2 or len(y) < 2 or (np.diff(x) <= 0).any() or (np.diff(y) <= 0).any():
                continue
            if r.p(0.5):
                mx, my = r.i(1, 3), r.i(1, 3)
                new = s.interpolated(mul=(mx, my)) if r.p(0.7) else s.interpolated(mul=mx)
                if not (len(new.y) == len(y) * my and my != 1):
                    my = 1 if len(new.y) == len(y) else my
                sx, sy = len(x) * mx, len(y) * my
            else:
                sx, sy = r.i(2, 12), r.i(2, 12)
                new = s.interpolated(size=(sx, sy))
            x2 = np.linspace(x.min(), x.max(), sx) if sx != len(x) else x
            y2 = np.linspace(y.min(), y.max(), sy) if sy != len(y) else y
            d2 = np.array([np.interp(x2, x, data[:, j]) for j in range(len(y))]).T
            d2 = np.array([np.interp(y2, y, d2[i]) for i in range(len(x2))])
            c.close(new.x, x2, "Sweep.interpolated x", 1e-9)
            c.close(new.y, y2, "Sweep.interpolated y", 1e-9)
            c.close(new.data, d2, "Sweep.interpolated data", 1e-6)
            s, x, y, data = new, np.array(new.x), np.array(new.y), np.array(new.data)
        else:
            d = tempfile.mkdtemp(prefix="c27-")
            try:
                s.save_txt(os.path.join(d, "s"))
                got = np.loadtxt(os.path.join(d, "s"), ndmin=2)
                want = np.array([[a, b, data[i, j]] for i, a in enumerate(x) for j, b in enumerate(y)])
                c.close(got, want, "Sweep.save_txt", 1e-5)
                head = open(os.path.join(d, "s")).readline()
                c.check(head.startswith("#") and (labels is None or "mu" in head and "$" not in head), "Sweep.save_txt: header " + head)
            finally:
                shutil.rmtree(d)
        c.equal(s.x, x, op + ": x")
        c.equal(s.y, y, op + ": y")
        c.equal(s.data, data, op + ": data")
        c.check(s.tags == {"t": 1} and s.labels["x"] == (labels or {"x": "x"})["x"], op + ": labels or tags are lost")
        b = before
        c.equal(b[0].data, b[3], op + ": data of the original")
        c.equal(b[0].x, b[1], op + ": x of the original")
        v = r.q(-2, 4)
        if len(set(np.abs(x - v))) == len(x):
            k = int(np.abs(x - v).argmin())
            row, at = s._slice_x(v)
            c.equal(row, data[k], "slice at x")
            c.equal(at, x[k], "slice at x: value")
        if len(set(np.abs(y - v))) == len(y):
            k = int(np.abs(y - v).argmin())
            row, at = s._slice_y(v)
            c.equal(row, data[:, k], "slice at y")
            c.equal(at, y[k], "slice at y: value")
        c.sig(op, len(x), len(y))
        c.seen("sweep_ops", op)


def ndsweep(c):
    r = c.rng
    dims = [r.i(1, 4) for _ in range(r.i(1, 4))]
    v = tuple(np.arange(d) * 0.5 for d in dims)
    data = r.np().random_sample(int(np.prod(dims)))
    s = results.NDSweep(v, data, labels={"axes": list("pqrs")[:len(dims)]})
    c.sig(*dims)
    c.equal(s.data, data.reshape(dims), "NDSweep.data")
    for k, a in enumerate("xyz"[:len(dims)]):
        c.equal(s.labels[a], "pqrs"[k], "NDSweep.labels")
    idx = tuple(r.i(0, d - 1) for d in dims)
    flat = 0
    for k, d in zip(idx, dims):
        flat = flat * d + k
    c.equal(s.data[idx], data[flat], "NDSweep element")


def path(c):
    r = c.rng
    nd = r.choice([0, 1, 2, 2, 3])
    n = r.i(2, 5)
    pts = [np.array([r.q(-3, 3) for _ in range(max(nd, 1))]) for _ in range(n)]
    if r.p(0.15):
        pts[1] = pts[0] + 0.01
    if nd == 2 and r.p(0.2):
        pts[1][0] = pts[0][0]
    step = r.q(0.05, 1.5) + 0.01
    p = results.make_path(*[float(q[0]) if nd == 0 else r.choice([list, np.array, tuple])(q) for q in pts], step=step)
    c.sig(n, nd, len(p))
    c.note([q.tolist() for q in pts], step)
    dim = max(nd, 1)
    c.check(len(p.point_indices) == n, "make_path: %d point indices for %d points" % (len(p.point_indices), n))
    c.close(np.array(p.points).reshape(-1, dim), np.array(pts), "make_path: the given points", 1e-12)
    c.equal(np.array(p.shape), [p.point_indices[-1] + 1, dim], "make_path: shape")
    flat = np.array(p).reshape(-1, dim)
    for k in range(n - 1):
        i, j = p.point_indices[k], p.point_indices[k + 1]
        seg = flat[i:j + 1]
        t = np.linspace(0, 1, j - i + 1)
        c.close(seg, pts[k] + t[:, None] * (pts[k + 1] - pts[k]) if j > i else pts[k][None, :], "make_path: segment", 1e-9)
        length = np.linalg.norm(pts[k + 1] - pts[k])
        if length >= 2 * step:
            gap = length / (j - i)
            c.check(step * 0.999 <= gap <= 1.6 * step, "make_path: points are %.4g apart, the step is %.4g" % (gap, step))
    c.check(p.is_simple == (n == 2), "Path.is_simple")
    if n == 2 and np.array_equal(pts[0], pts[1]):
        return  # one axis out of none
    one = np.array(p.as_1d())
    c.check(len(one) == len(p), "Path.as_1d: length")
    if len(p) > 1:
        if n == 2:
            col = [k for k in range(dim) if pts[0][k] != pts[1][k]]
            if col:
                c.close(one.ravel(), flat[:, col[0]], "Path.as_1d of a straight path", 1e-12)
        else:
            c.equal(one, np.arange(len(p)), "Path.as_1d")
    energy = np.random.rand(len(p), 3)
    b = results.Bands(p, energy)
    c.equal(b.num_bands, 3, "Bands.num_bands")
    c.equal(np.array(b.k_path), np.array(p), "Bands.k_path")
    c.check(list(b.k_path.point_indices) == list(p.point_indices), "Bands: the points of the path are lost")
    b2 = results.Bands(np.array(p), energy)
    c.check(list(b2.k_path.point_indices) == [0, len(p) - 1], "Bands of a plain array")
    bad = np.zeros(dim + 1)
    c.raises(RuntimeError, "make_path with points of different dimensions", results.make_path, pts[0], bad)
    e = np.sort(np.random.rand(5))
    ev = results.Eigenvalues(e)
    c.equal(ev.values, e, "Eigenvalues.values")
    c.equal(ev.indices, np.arange(5), "Eigenvalues.indices")


def random_case(c):
    kind = c.rng.choice(["structure"] * 5 + ["sweep", "sweep", "path", "series", "ndsweep", "sites"])
    c.note(kind)
    c.count("kind: " + kind)
    dict(structure=structure, sweep=sweep, path=path, series=series, ndsweep=ndsweep, sites=sites)[kind](c)


def p_zero_family(c):
    """Hoppings of family 0 and slices which keep one side of a periodic boundary"""
    lat = pb.Lattice([1, 0], [0, 1])
    lat.add_sublattices(("A", [0, 0]), ("B", [0.5, 0.5]))
    lat.register_hopping_energies({"t0": 1.0, "t1": 2.0})
    lat.add_hoppings(([0, 0], "A", "B", "t0"), ([1, 0], "A", "A", "t1"), ([0, 1], "B", "B", "t0"))
    m = pb.Model(lat, pb.primitive(4, 3), pb.translational_symmetry(4, 3))
    s = m.system
    ref = Ref.of(s)
    c.names = {n: lat.sublattices[n].alias_id for n in "AB"}
    same(c, s, ref, c.names, "system")
    for text, idx in (("A", s.sub == "A"), ("x", s.x > 0), ("reverse", slice(None, None, -1)), ("list", [3, 1, 2]), ("none", s.x > 100)):
        plain = np.array(idx) if not isinstance(idx, (slice, list)) else idx
        same(c, s[idx], ref.take(plain), c.names, text)
    c.sig(1)


def p_short_path(c):
    """Points closer together than the step are still on the path"""
    p = results.make_path(0.0, 0.05, 1.0, 1.0, 0.96, step=0.1)
    c.close(np.array(p.points).ravel(), [0, 0.05, 1.0, 1.0, 0.96], "points", 1e-12)
    c.sig(len(p))


def p_list_data(c):
    """A map made from plain lists"""
    sm = pb.results.SpatialMap([1, 2, 3], [[0, 1, 2], [0, 0, 0], [0, 0, 0]])
    c.equal(sm[[2, 0]].data, [3, 1], "data")
    c.equal(sm[[2, 0]].x, [2, 0], "x")
    c.equal(sm[sm.x > 0].y, [0, 0], "y")
    c.sig(1)


if __name__ == "__main__":
    pymon.main("C27", random_case, {"zero-family": p_zero_family, "short-path": p_short_path, "list-data": p_list_data},
               "structures made through the Python interface are indexed, cropped, clipped and given data, and every part of the result is compared with "
               "plain numpy arrays; sweeps, paths, series and text files are compared with their definitions")
