"""C28: what is pickled, saved or copied comes back equal, works the same and is independent of the original"""
import pymon
import copy
import io
import os
import pathlib
import pickle
import shutil
import tempfile

import numpy as np
import pybinding as pb
import pygen
import c27
from pybinding import results
from pybinding.support.alias import AliasArray
from pymon import CaseSkipped

WAYS = ["pickle2", "pickle3", "pickle4", "pickle5", "deepcopy", "save", "save-ext", "save-path", "save-file", "load-noext", "twice"]


def trip(c, obj, way=None):
    """The object after a round trip"""
    r = c.rng
    way = way or r.choice(WAYS)
    c.note(way)
    c.seen("round_trips", (type(obj).__name__, way))
    c.count("round_trips")
    if way.startswith("pickle"):
        return pickle.loads(pickle.dumps(obj, protocol=int(way[6:])))
    if way == "deepcopy":
        return copy.deepcopy(obj)
    if way == "twice":
        return pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(obj))))
    if way == "save-file":
        f = io.BytesIO()
        pb.save(obj, f)
        f.seek(0)
        return pb.load(f)
    d = tempfile.mkdtemp(prefix="c28-")
    try:
        name = os.path.join(d, r.choice(["x", "a b", "data.1"]))
        if way == "save":
            pb.save(obj, os.path.join(d, "plain"))
            c.check(os.path.exists(os.path.join(d, "plain.pbz")), "save without an extension: files are %s" % os.listdir(d))
            return pb.load(os.path.join(d, "plain.pbz"))
        if way == "save-ext":
            pb.save([1, 2], name + ".bin")
            pb.save(obj, name + ".bin")
            c.check(os.listdir(d) == [os.path.basename(name) + ".bin"], "save with an extension: files are %s" % os.listdir(d))
            return pb.load(name + ".bin")
        if way == "save-path":
            pb.save(obj, pathlib.Path(d) / "p.pbz")
            return pb.load(pathlib.Path(d) / "p.pbz")
        if way == "load-noext":
            pb.save(obj, os.path.join(d, "plain"))
            return pb.load(r.choice([str, pathlib.Path])(os.path.join(d, "plain")))
    finally:
        shutil.rmtree(d)
    raise AssertionError(way)


def same_lattice(c, a, b, what):
    c.equal(b.ndim, a.ndim, what + ": ndim")
    c.equal(b.nsub, a.nsub, what + ": nsub")
    c.equal(b.nhop, a.nhop, what + ": nhop")
    c.equal(np.array(b.vectors), np.array(a.vectors), what + ": vectors")
    c.equal(np.array(b.offset), np.array(a.offset), what + ": offset")
    c.equal(b.min_neighbors, a.min_neighbors, what + ": min_neighbors")
    sa, sb = a.sublattices, b.sublattices
    c.check(sorted(sa) == sorted(sb), lambda: "%s: sublattices %s, expected %s" % (what, sorted(sb), sorted(sa)))
    for n in sa:
        c.equal(sb[n].position, sa[n].position, "%s: position of %s" % (what, n))
        c.equal(sb[n].energy, sa[n].energy, "%s: energy of %s" % (what, n))
        c.equal(sb[n].unique_id, sa[n].unique_id, "%s: unique_id of %s" % (what, n))
        c.equal(sb[n].alias_id, sa[n].alias_id, "%s: alias_id of %s" % (what, n))
    ha, hb = a.hoppings, b.hoppings
    c.check(sorted(ha) == sorted(hb), lambda: "%s: hoppings %s, expected %s" % (what, sorted(hb), sorted(ha)))
    for n in ha:
        c.equal(hb[n].energy, ha[n].energy, "%s: energy of %s" % (what, n))
        c.equal(hb[n].family_id, ha[n].family_id, "%s: family_id of %s" % (what, n))
        c.equal(len(hb[n].terms), len(ha[n].terms), "%s: terms of %s" % (what, n))
        for x, y in zip(hb[n].terms, ha[n].terms):
            c.equal(np.array(x.relative_index), np.array(y.relative_index), "%s: relative_index" % what)
            c.equal([x.from_id, x.to_id], [y.from_id, y.to_id], "%s: ends of a term" % what)


def snapshot(m):
    h = m.hamiltonian
    return np.array(m.system.xyz), np.array(m.system.sublattices), h.indptr.copy(), h.indices.copy(), h.data.copy(), h.dtype


def extend(lat, name, ndim):
    """The same additions to each of two lattices"""
    lat.add_sublattices((name, [0.1, 0.2 if ndim > 1 else 0, 0], 1.25))
    lat.register_hopping_energies({"h" + name: 0.5})
    lat.add_hoppings(([1, 0, 0], name, name, "h" + name), ([1, 0, 0][:3], name, sorted(lat.sublattices)[0], 0.3125)
                     if lat.sublattices[sorted(lat.sublattices)[0]].energy.shape == (1, 1) and sorted(lat.sublattices)[0] != name
                     else ([2, 0, 0], name, name, 0.3125))


def lattice(c):
    r = c.rng
    lat = pygen.Lat(c, aliases=r.p(0.3))
    a = lat.build()
    if r.p(0.4):
        off = [r.q(-0.2, 0.2) if k < lat.ndim else 0.0 for k in range(3)]
        a.offset = off
    if r.p(0.3):
        a.min_neighbors = r.i(1, 2)
    c.sig(a.nsub, a.nhop, lat.ndim)
    b = trip(c, a)
    same_lattice(c, a, b, "copy of a lattice")
    shape, _ = pygen.rand_shape(c, lat.ndim)
    parts = [shape] + ([pygen.rand_symmetry(c, lat.ndim)] if r.p(0.4) else [])

    def build(x):
        try:
            return snapshot(pb.Model(x, *parts))
        except RuntimeError as e:
            return str(e)
    x, y = build(a), build(b)
    if isinstance(x, str) or isinstance(y, str):
        c.check(isinstance(x, str) and isinstance(y, str), "a model of the copy: %s instead of %s" % (y if isinstance(y, str) else "a system", x if isinstance(x, str) else "a system"))
    else:
        for p, q, n in zip(x, y, ["positions", "sublattices", "indptr", "indices", "values", "dtype"]):
            if n == "dtype":
                c.check(p == q, "a model of the copy: dtype")
            else:
                c.equal(q, p, "a model of the copy: " + n)
        c.count("models_compared")
    # independent of each other
    ref = trip(c, a, "pickle4")
    what = r.choice(["copy", "original"])
    changed, other = (b, a) if what == "copy" else (a, b)
    extend(changed, "new", lat.ndim)
    if r.p(0.5):
        changed.offset = [0.01, 0, 0]
        changed.min_neighbors = 3
    same_lattice(c, ref, other, "after the %s was extended" % what)
    extend(other, "new", lat.ndim)
    other.offset, other.min_neighbors = changed.offset, changed.min_neighbors
    same_lattice(c, changed, other, "both extended")
    # copies with one thing changed
    src = trip(c, ref, "deepcopy")
    o = [r.q(-0.2, 0.2) if k < lat.ndim else 0.0 for k in range(3)]
    moved = src.with_offset(o)
    c.close(np.array(moved.offset), np.array(o), "with_offset")
    same_lattice(c, ref, src, "after with_offset")
    mn = src.with_min_neighbors(2)
    c.equal(mn.min_neighbors, 2, "with_min_neighbors")
    same_lattice(c, ref, src, "after with_min_neighbors")
    moved.offset, mn.min_neighbors = ref.offset, ref.min_neighbors
    same_lattice(c, ref, moved, "with_offset kept the rest")
    same_lattice(c, ref, mn, "with_min_neighbors kept the rest")


def same_structure(c, a, b, names, what):
    data = a.data if hasattr(a, "data") else None
    if hasattr(a, "hoppings"):
        ref = c27.Ref.of(a, data)
    else:
        ref = c27.Ref(np.array(a.xyz), np.array(a.sublattices), None, None, data)
    c.check(type(b) is type(a), "%s: a %s came back as %s" % (what, type(a).__name__, type(b).__name__))
    c27.same(c, b, ref, names, what)
    if data is not None:
        c.check(b.data.dtype == a.data.dtype, what + ": dtype of the data")
    if hasattr(a, "lattice"):
        same_lattice(c, a.lattice, b.lattice, what + ": lattice")
    return ref


def structure(c):
    r = c.rng
    lat = pygen.Lat(c, aliases=r.p(0.3))
    lattice_ = lat.build()
    shape, _ = pygen.rand_shape(c, lat.ndim)
    parts = [shape] + ([pygen.rand_symmetry(c, lat.ndim)] if r.p(0.4) else [])
    try:
        m = pb.Model(lattice_, *parts)
        s = m.system
        n = s.num_sites
    except RuntimeError:
        raise CaseSkipped("no such system")
    if not 0 < n < 400:
        raise CaseSkipped("unusual number of sites")
    names = {name: lattice_.sublattices[name].alias_id for name in lat.subs}
    c.sig(n, s.hoppings.nnz, len(s.boundaries))
    kind = r.choice(["system", "system", "structure", "map", "spatial", "sliced"])
    obj = s
    if kind == "structure":
        obj = s[r.np().random_sample(n) < 0.7]
    elif kind in ("map", "spatial", "sliced"):
        obj = s.with_data(r.np().random_sample(n).astype(r.choice([np.float64, np.float32])))
        if kind == "sliced":
            obj = obj[r.np().random_sample(n) < 0.7]
        elif kind == "spatial":
            obj = obj.spatial_map
    b = trip(c, obj)
    ref = same_structure(c, obj, b, names, "copy of a " + kind)
    if kind == "system":
        c.equal(b.hamiltonian_size, s.hamiltonian_size, "copy: hamiltonian_size")
        for a in "xyz":
            c.equal(getattr(b.expanded_positions, a), getattr(s.expanded_positions, a), "copy: expanded_positions")
        c.equal(b.count_neighbors(), s.count_neighbors(), "copy: count_neighbors")
        for name in [""] + [k for k in names if (ref.ids == names[k]).any() and k not in [o for o, _ in lat.alias.values()]]:
            p = [r.q(-2, 2) for _ in range(3)]
            c.equal(b.find_nearest(p, name), s.find_nearest(p, name), "copy: find_nearest")
        for i in r.sample(range(n), min(3, n)):
            c.equal(np.ravel(b.to_hamiltonian_indices(i)), np.ravel(s.to_hamiltonian_indices(i)), "copy: to_hamiltonian_indices")
        data = r.np().random_sample(s.hamiltonian_size)
        c.equal(b.reduce_orbitals(data), s.reduce_orbitals(data), "copy: reduce_orbitals")
        c.equal(b.impl.site_registry.name_map == s.impl.site_registry.name_map, True, "copy: site names")
        c.equal(b.impl.hopping_registry.name_map == s.impl.hopping_registry.name_map, True, "copy: hopping names")
        c27.families(c, b, lat, "copy of a system")
    # still good when the model is gone, and for further slicing
    want = c27.Ref.of(b) if hasattr(b, "hoppings") else None
    del m, s, obj
    if len(ref.xyz):
        k = r.np().random_sample(len(ref.xyz)) < 0.6
        if want is not None:
            c27.same(c, b[k], ref.take(k), names, "slice of the copy")
        else:
            c.equal(b[k].data, ref.data[k], "slice of the copy")
    if r.p(0.3):
        b2 = trip(c, b)
        same_structure(c, b, b2, names, "copy of the copy")


def plain(a, b, c, what, attrs):
    for k in attrs:
        x, y = getattr(a, k), getattr(b, k)
        if isinstance(x, (dict, list, tuple, str, type(None))) and not any(isinstance(i, np.ndarray) for i in (x if isinstance(x, (list, tuple)) else ())):
            c.check(x == y and type(x) is type(y), lambda: "%s: %s is %r, was %r" % (what, k, y, x))
        elif isinstance(x, (list, tuple)):
            c.check(len(x) == len(y), what + ": " + k)
            for p, q in zip(x, y):
                c.equal(q, p, "%s: %s" % (what, k))
        else:
            c.equal(y, x, "%s: %s" % (what, k))
            if isinstance(x, np.ndarray):
                c.check(y.dtype == x.dtype and type(y) is type(x), "%s: type of %s" % (what, k))


def result(c):
    r = c.rng
    rnd = r.np()
    n, k = r.i(1, 7), r.i(1, 5)
    kind = r.choice(["series", "sweep", "ndsweep", "eigenvalues", "bands", "path", "spatial", "alias", "list"])
    c.note(kind)
    c.sig(kind, n, k)
    if kind == "series":
        a = results.Series(rnd.random_sample(n), rnd.random_sample((n, k)), labels=r.choice([None, dict(data="E", title="T")]))
        attrs = ["variable", "data", "labels"]
    elif kind == "sweep":
        a = results.Sweep(rnd.random_sample(n), rnd.random_sample(k), rnd.random_sample((n, k)).astype(r.choice([np.float32, float, complex])),
                          labels=r.choice([None, dict(x="X")]), tags=r.choice([None, dict(a=1, b="c")]))
        attrs = ["x", "y", "data", "labels", "tags"]
    elif kind == "ndsweep":
        a = results.NDSweep((np.arange(n), np.arange(k) / 2.0), rnd.random_sample(n * k), labels=r.choice([None, dict(axes=["p", "q"])]), tags=dict(t=2))
        attrs = ["variables", "data", "labels", "tags"]
    elif kind == "eigenvalues":
        a = results.Eigenvalues(rnd.random_sample(n), r.choice([None, rnd.random_sample(n)]))
        attrs = ["values"] + (["probability"] if a.probability.dtype != object else [])
    elif kind in ("bands", "path"):
        pts = [list(rnd.random_sample(2) * 3) for _ in range(r.i(2, 4))]
        p = results.make_path(*pts, step=0.3)
        if kind == "path":
            b = trip(c, p)
            c.check(type(b) is type(p), "path came back as " + type(b).__name__)
            c.equal(np.array(b), np.array(p), "path")
            c.check(list(b.point_indices) == list(p.point_indices), "path: the points are lost")
            c.equal(np.array(b.points), np.array(p.points), "path: points")
            c.check(b.is_simple == p.is_simple, "path: is_simple")
            return
        a = results.Bands(p, rnd.random_sample((len(p), k)))
        b = trip(c, a)
        c.equal(np.array(b.k_path), np.array(p), "bands: path")
        c.check(type(b.k_path) is type(a.k_path) and list(b.k_path.point_indices) == list(p.point_indices), "bands: the points of the path are lost")
        c.equal(b.energy, a.energy, "bands: energy")
        c.equal(b.num_bands, k, "bands: num_bands")
        return
    elif kind == "spatial":
        a = results.SpatialMap(rnd.random_sample(n), rnd.random_sample((3, n)), rnd.randint(0, 3, n))
        b = trip(c, a)
        c.equal(b.xyz, a.xyz, "spatial map: xyz")
        c.equal(b.data, a.data, "spatial map: data")
        c.equal(np.array(b.sublattices), np.array(a.sublattices), "spatial map: sublattices")
        return
    elif kind == "alias":
        names = {"A": 0, "B|1": 1, "B|2": 2, "C": 7}
        arr = AliasArray(rnd.choice([0, 1, 2, 7], size=r.choice([(n,), (n, k)])), names)
        if arr.ndim == 2:
            arr = arr[:, 0]
        b = trip(c, arr)
        c.check(type(b) is AliasArray and {str(q): v for q, v in b.mapping.items()} == names, "alias array: the names are lost")
        c.equal(np.array(b), np.array(arr), "alias array")
        for name in ("A", "B", "B|1", "B|2", "C", "D"):
            c.equal(np.array(b == name), np.array(arr == name), "alias array == " + name)
            c.equal(np.array(b != name), np.array(arr != name), "alias array != " + name)
        return
    else:
        s1 = results.Series(rnd.random_sample(n), rnd.random_sample(n))
        box = {"a": [s1, (s1, 3)], "p": results.make_path(0, 1)}
        b = trip(c, box)
        c.check(b["a"][0] is b["a"][1][0], "a list of results: shared objects are separate")
        plain(s1, b["a"][0], c, "a list of results", ["variable", "data", "labels"])
        c.equal(np.array(b["p"]), np.array(box["p"]), "a list of results: path")
        return
    b = trip(c, a)
    c.check(type(b) is type(a), "%s came back as %s" % (kind, type(b).__name__))
    plain(a, b, c, kind, attrs)
    # independent
    data = "values" if kind == "eigenvalues" else "data"
    before = getattr(a, data).copy()
    getattr(b, data)[...] = 0
    c.equal(getattr(a, data), before, kind + ": changed together with its copy")


def versions(c):
    """States written by another version are refused, states without a version are taken as they are"""
    r = c.rng
    a = results.Series([1, 2], [3, 4])
    st = a.__getstate__()
    c.sig(sorted(st))
    b = results.Series.__new__(results.Series)
    b.__setstate__(dict(st["dict"]))
    plain(a, b, c, "state without a version", ["variable", "data", "labels"])
    bad = dict(st, version=st["version"] + r.i(1, 3))
    c.raises(RuntimeError, "state of another version", results.Series.__new__(results.Series).__setstate__, bad)
    from pybinding.support.pickle import pickleable

    @pickleable(props="twice", version=3)
    class Thing:
        def __init__(self, v):
            self.v = v
            self._twice = 2 * v

        @property
        def twice(self):
            return self._twice

        @twice.setter
        def twice(self, v):
            self._twice = v
    t = Thing(4)
    st = t.__getstate__()
    u = Thing.__new__(Thing)
    u.__setstate__(st)
    c.equal([u.v, u.twice], [4, 8], "a pickleable class of one's own")
    # as written by earlier versions: no properties were an empty list
    value = c.rng.q(-2, 2)
    e = pb.results.Eigenvalues.__new__(pb.results.Eigenvalues)
    e.__setstate__({"version": 0, "dict": {"values": np.array([value]), "probability": np.array([None])}, "props": [], "impl": []})
    c.equal(e.values, [value], "a result saved by an earlier version")


def random_case(c):
    kind = c.rng.choice(["lattice", "lattice", "structure", "structure", "structure", "result", "result", "versions"])
    c.note(kind)
    c.count("kind: " + kind)
    dict(lattice=lattice, structure=structure, result=result, versions=versions)[kind](c)


if __name__ == "__main__":
    pymon.main("C28", random_case, {"versions": versions},
               "lattices, systems, slices, maps and results go through pickle (protocols 2 to 5), copy.deepcopy and save/load (names with and without an "
               "extension, paths, open files); what comes back is compared field by field with the original, used the same way, and changed to see that it is independent")
