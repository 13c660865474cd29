"""C25: whatever the Python package hands out stays valid and unchanged"""
import pymon
import ctypes
import gc
import warnings

import numpy as np
import pybinding as pb
import pygen
from pybinding import _cpp

try:
    _poisoned = ctypes.CDLL(None).__asan_region_is_poisoned
    _poisoned.restype = ctypes.c_void_p
    _poisoned.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
except AttributeError:
    _poisoned = None


def poisoned(a):
    if a.size == 0 or _poisoned is None:
        return False
    lo, hi = np.lib.array_utils.byte_bounds(a) if hasattr(np.lib, "array_utils") else np.byte_bounds(a)
    return bool(_poisoned(lo, hi - lo))


class Keeper:
    """Everything handed out so far with its value at that time"""
    def __init__(self, c):
        self.c, self.items, self.kinds = c, [], set()

    def array(self, label, a):
        a = np.asarray(a) if not isinstance(a, np.ndarray) else a
        self.check_poison(label, a)
        self.items.append((label, a, np.array(a, copy=True)))
        self.kinds.add(label)
        self.c.count("arrays_kept")

    def csr(self, label, m):
        self.array(label + ".data", m.data)
        self.array(label + ".indices", m.indices)
        self.array(label + ".indptr", m.indptr)

    def value(self, label, get):
        """A function which must go on returning the same arrays: the wrapper it reads is kept alive by it alone"""
        self.items.append((label, get, [np.array(v, copy=True) for v in get()]))
        self.kinds.add(label)
        self.c.count("wrappers_kept")

    def check_poison(self, label, a):
        self.c.check(not poisoned(a), lambda: "%s: the memory it shows was released" % label)

    def verify(self, after):
        c = self.c
        for label, a, then in self.items:
            if callable(a):
                now = list(a())
                c.check(len(now) == len(then), lambda: "%s: another size after %s" % (label, after))
                for x, y in zip(now, then):
                    self.check_poison(label + " after " + after, np.asarray(x))
                    c.equal(x, y, "%s after %s" % (label, after))
            else:
                self.check_poison(label + " after " + after, a)
                c.equal(a, then, "%s after %s" % (label, after))
        c.count("verifications")

    def drop_some(self):
        r = self.c.rng
        self.items = [i for i in self.items if r.p(0.7)]


def keep_system(c, k, s, label):
    r = c.rng
    what = r.choice(["x", "pos", "sub", "hop", "bound", "exp", "wrap", "impl", "registry", "slice", "neigh", "cs", "with_data"])
    if what == "x":
        for n in "xyz":
            k.array(label + "." + n, getattr(s, n))
    elif what == "pos":
        p = s.positions
        k.value(label + ".positions", lambda: [p.x, p.y, p.z])
    elif what == "sub":
        k.array(label + ".sublattices", s.sublattices)
    elif what == "hop":
        h = s.hoppings
        k.csr(label + ".hoppings", h.tocsr())
        k.value(label + ".hopping_blocks", lambda: [h.tocsr().data, h.tocsr().indices, h.nnz])
    elif what == "bound":
        b = s.boundaries
        for x in b:
            k.array(label + ".boundary.shift", x.shift)
            k.value(label + ".boundary", lambda x=x: [x.shift, x.hoppings.tocsr().data, x.hoppings.tocsr().indices])
        one = list(b)[r.i(0, len(b) - 1)] if len(b) else None
        del b
        if one is not None:
            h = one.hoppings
            k.value(label + ".boundary.hoppings", lambda: [h.tocsr().indptr, h.nnz])
    elif what == "exp":
        e = s.expanded_positions
        k.array(label + ".expanded.x", e.x)
        k.value(label + ".expanded", lambda: [e.x, e.y, e.z])
    elif what == "wrap":
        k.value(label, lambda: [s.xyz, s.sublattices, s.hoppings.tocsr().data, s.num_sites])
    elif what == "impl":
        i = s.impl
        p = i.positions
        k.array(label + ".impl.positions.y", p.y)
        k.value(label + ".impl", lambda: [i.positions.x, i.hamiltonian_size])
    elif what == "registry":
        i = s.impl.site_registry if r.p(0.5) else s.impl.hopping_registry
        k.value(label + ".registry", lambda: [sorted(i.name_map.items())])
    elif what == "slice" and s.num_sites > 1:
        sl = s[:s.num_sites // 2]
        k.value(label + "[...]", lambda: [sl.x, sl.sublattices, sl.hoppings.tocsr().data])
    elif what == "neigh":
        k.array(label + ".neighbors", s.count_neighbors())
    elif what == "cs":
        i = s.impl.compressed_sublattices
        k.array(label + ".alias_ids", i.alias_ids)
        k.array(label + ".site_counts", i.site_counts)
        k.array(label + ".orbital_counts", i.orbital_counts)
        k.value(label + ".compressed", lambda: [i.decompressed(), i.site_counts])
    elif what == "with_data":
        m = s.with_data(np.arange(s.num_sites))
        k.value(label + ".map", lambda: [m.x, m.data, m.hoppings.tocsr().indices])


def keep_lattice(c, k, lat, label):
    r = c.rng
    what = r.choice(["vectors", "subs", "energy", "hops", "terms", "offset"])
    if what == "vectors":
        for v in lat.vectors:
            k.array(label + ".vectors", v)
    elif what == "subs":
        for n, s in lat.sublattices.items():
            k.array(label + ".sublattice.position", s.position)
            k.array(label + ".sublattice.energy", s.energy)
    elif what == "energy":
        for n, s in lat.sublattices.items():
            k.value(label + ".sublattice", lambda s=s: [s.position, s.energy, s.unique_id, s.alias_id])
    elif what == "hops":
        for n, h in lat.hoppings.items():
            k.array(label + ".hopping.energy", h.energy)
            k.value(label + ".hopping", lambda h=h: [h.energy, h.family_id])
    elif what == "terms":
        for n, h in lat.hoppings.items():
            for t in h.terms:
                k.array(label + ".term.relative_index", t.relative_index)
                k.value(label + ".term", lambda t=t: [t.relative_index, t.from_id, t.to_id])
    elif what == "offset":
        k.array(label + ".offset", lat.offset)


def keep_leads(c, k, m):
    r = c.rng
    for l in list(m.leads):
        what = r.choice(["h0", "h1", "indices", "system", "spec", "wrap"])
        if what in ("h0", "h1"):
            k.csr("lead." + what, getattr(l, what))
        elif what == "indices":
            k.array("lead.indices", l.indices)
        elif what == "system":
            keep_system(c, k, l.system, "lead.system")
        elif what == "spec":
            s = l.impl.spec
            sh = s.shape
            k.value("lead.spec", lambda s=s, sh=sh: [s.axis, s.sign] + list(sh.vertices))
        else:
            k.value("lead", lambda l=l: [l.indices, l.h0.data, l.h1.data, l.h0.indices])


def keep_hamiltonian(c, k, m):
    r = c.rng
    what = r.choice(["matrix", "raw", "raw2", "diag", "slice"])
    if what == "matrix":
        k.csr("hamiltonian", m.hamiltonian)
    elif what == "raw":
        h = m.raw_hamiltonian
        k.value("raw_hamiltonian", lambda: [h.csrref.data, h.csrref.indices, h.csrref.indptr])
    elif what == "raw2":
        k.csr("raw_hamiltonian.csrref", m.raw_hamiltonian.csrref)
    elif what == "diag":
        k.array("hamiltonian.diagonal", m.hamiltonian.diagonal())
    else:
        k.csr("hamiltonian.T", m.hamiltonian.T)


def keep_kpm(c, k, m):
    r = c.rng
    n = m.hamiltonian.shape[0]
    h = m.hamiltonian
    if n > 400 or abs(h - h.conj().T).max() > 1e-5 or abs(h).sum() == 0:
        return
    e = np.linspace(-1, 1, 5)
    t = pb.kpm(m, energy_range=(-20, 20), silent=True, num_threads=r.i(1, 3))
    what = r.choice(["greens", "ldos", "opt", "kernel", "moments", "deferred", "stats", "dos"])
    if what == "greens":
        k.array("kpm.greens", t.calc_greens(0, n - 1, e, 1.0))
    elif what == "ldos":
        s = t.calc_ldos(e, 1.0, [0, 0], reduce=r.p(0.5))
        k.array("kpm.ldos", s.data)
        k.array("kpm.ldos.variable", s.variable)
    elif what == "opt":
        o = _cpp.OptimizedHamiltonian(m.raw_hamiltonian, r.i(0, n - 1))
        k.csr("optimized.matrix", o.matrix)
        k.array("optimized.sizes", o.sizes)
        k.array("optimized.indices", o.indices)
    elif what == "kernel":
        kr = t.kernel
        t.calc_dos(e, 2.0)
        k.array("kernel.damping", kr.damping_coefficients(16))
        k.value("kernel", lambda: [kr.damping_coefficients(8), kr.required_num_moments(0.1)])
    elif what == "moments":
        v = np.zeros(n, dtype=complex)
        v[0] = 1
        k.array("kpm.moments", t.moments(8, v))
    elif what == "deferred":
        d = t.deferred_ldos(e, 1.0, [0, 0])
        del t
        d.compute()
        k.array("deferred.result", d.result)
        k.value("deferred", lambda: [d.result])
    elif what == "stats":
        t.calc_dos(e, 2.0)
        s = t.impl.stats
        k.value("kpm.stats", lambda: [s.num_moments, s.nnz, s.vec])
    else:
        k.array("kpm.dos", t.calc_dos(e, 2.0, num_random=r.i(1, 2)).data)
        keep_system(c, k, t.system, "kpm.system") if "t" in dir() else None


def keep_solver(c, k, m):
    r = c.rng
    if m.hamiltonian.shape[0] > 300:
        return
    s = pb.solver.lapack(m)
    what = r.choice(["values", "vectors", "prob", "system", "bands"])
    if what == "values":
        k.array("solver.eigenvalues", s.eigenvalues)
    elif what == "vectors":
        k.array("solver.eigenvectors", s.eigenvectors)
    elif what == "prob":
        p = s.calc_probability(0)
        k.value("solver.probability", lambda: [p.data, p.x, p.hoppings.tocsr().data])
    elif what == "system":
        keep_system(c, k, s.system, "solver.system")
    if r.p(0.5):
        s.clear()
        s.model = pb.Model(pb.Lattice([1, 0])) if r.p(0.3) else m


def keep_shape(c, k, sh):
    if hasattr(sh, "vertices"):
        for v in sh.vertices:
            k.array("shape.vertices", v)
        x = np.linspace(-1, 1, 7).astype(np.float32)
        k.array("shape.contains", sh.contains(x, x, 0 * x))
        k.value("shape", lambda: list(sh.vertices) + [sh.contains(x, x, 0 * x), sh.lattice_offset])


_kept_args = []


def random_modifier(c, lat):
    """Modifiers and generators; returns (kind, object)"""
    r = c.rng
    kind = r.choice(["onsite", "hopping", "state", "position", "site_gen", "hop_gen", "complex", "double"])
    v = r.q(0.1, 2)
    if kind == "onsite":
        @pb.onsite_energy_modifier
        def f(energy, x, sub_id):
            return energy + sub_id.eye * v
    elif kind == "hopping":
        @pb.hopping_energy_modifier
        def f(energy, x1, x2):
            return energy * v
    elif kind == "state":
        @pb.site_state_modifier
        def f(state, x):
            state[x > v] = False
            return state
    elif kind == "position":
        @pb.site_position_modifier
        def f(x, y, z):
            return x + np.float32(v), y, z
    elif kind == "site_gen":
        @pb.site_generator("new%d" % r.i(0, 10**9), energy=v)
        def f(system):
            return [0.0, 1.0], [0.0, v], [0.0, 0.0]
    elif kind == "hop_gen":
        cut = r.q(0.2, 0.8)

        @pb.hopping_generator("gen%d" % r.i(0, 10**9), energy=v)
        def f(system):
            # only between sites with a single orbital
            n = system.num_sites
            cs = system.impl.compressed_sublattices
            norb = np.repeat(cs.orbital_counts, cs.site_counts)
            one = np.flatnonzero(norb == 1)
            k = max(0, int(len(one) * cut) - 1)
            # only where there is no hopping: tocsr() isn't defined for two hoppings on one pair of sites
            have = system.hoppings.tocsr()
            have = set(zip(have.tocoo().row, have.tocoo().col))
            pairs = [(i, j) for i, j in zip(one[:k], one[1:k + 1]) if (i, j) not in have and (j, i) not in have]
            return np.array([p[0] for p in pairs], dtype=int), np.array([p[1] for p in pairs], dtype=int)
    elif kind == "complex":
        f = pb.force_complex_numbers()
    else:
        f = pb.force_double_precision()
    c.note("add", kind)
    return kind, f


def random_case(c):
    r = c.rng
    k = Keeper(c)
    spec = pygen.Lat(c, ndim=r.choice([1, 2, 2, 3]), max_sub=2)
    lat = spec.build()
    models = []
    ops = []

    def new_model():
        m = pb.Model(lat)
        sh, prim = pygen.rand_shape(c, spec.ndim, 2)
        m.add(sh)
        keep_shape(c, k, sh)
        if r.p(0.5):
            m.add(pygen.rand_symmetry(c, spec.ndim))
        if spec.ndim == 2 and r.p(0.5):
            try:
                for d in r.sample([-1, 1, -2, 2], r.i(1, 2)):
                    w = r.q(0.7, 2)
                    m.attach_lead(d, pb.line([0, -w], [0, w]) if abs(d) == 1 else pb.line([-w, 0], [w, 0]))
            except RuntimeError:
                c.count("refused")
        models.append(m)
        return m

    new_model()
    for step in range(r.i(6, 12)):
        m = r.choice(models)
        # take some things
        for _ in range(r.i(1, 4)):
            take = r.choice(["system", "system", "h", "h", "lattice", "leads", "leads", "kpm", "solver", "maps"])
            ops.append(take)
            try:
                if take == "system":
                    keep_system(c, k, m.system, "system")
                elif take == "h":
                    keep_hamiltonian(c, k, m)
                elif take == "lattice":
                    keep_lattice(c, k, m.lattice if r.p(0.5) else lat, "lattice")
                elif take == "leads":
                    keep_leads(c, k, m)
                elif take == "kpm":
                    keep_kpm(c, k, m)
                elif take == "solver":
                    keep_solver(c, k, m)
                elif take == "maps":
                    om = m.onsite_map
                    k.value("onsite_map", lambda om=om: [om.data, om.x, om.sublattices, om.hoppings.tocsr().data])
            except RuntimeError as e:
                c.count("refused")
        # change something
        change = r.choice(["modifier", "modifier", "shape", "symmetry", "wave", "lead", "delete", "new", "lattice", "offset",
                           "gc", "drop", "eval", "report"])
        ops.append(change)
        c.note("[%s]" % change)
        try:
            if change == "modifier":
                kind, f = random_modifier(c, lat)
                m.add(f)
                if r.p(0.5):
                    del f
            elif change == "shape":
                sh, _ = pygen.rand_shape(c, spec.ndim, 2)
                m.add(sh)
                keep_shape(c, k, sh)
            elif change == "symmetry":
                m.add(pygen.rand_symmetry(c, spec.ndim))
            elif change == "wave":
                m.set_wave_vector([r.q(-3, 3) for _ in range(3)])
            elif change == "lead":
                d = r.choice([-1, 1] + ([-2, 2] if spec.ndim > 1 else []))
                if spec.ndim == 2:
                    w = r.q(0.5, 2)
                    sh = pb.line([-w, -w], [w, w]) if r.p(0.3) else (pb.line([0, -w], [0, w]) if abs(d) == 1 else pb.line([-w, 0], [w, 0]))
                    m.attach_lead(d, sh)
                elif spec.ndim == 1:
                    m.attach_lead(d, pb.line([0, 0], [0.5, 0]))
                else:
                    m.attach_lead(d, pb.FreeformShape(lambda x, y, z: np.sqrt(x**2 + y**2 + z**2) < 1.2, [2, 2, 2]))
            elif change == "delete":
                models.remove(m)
                del m
                if not models:
                    new_model()
            elif change == "new":
                new_model()
            elif change == "lattice":
                n = "S%d" % step
                lat.add_one_sublattice(n, [0.1 * step, 0, 0], 1.0)
                for j in range(r.i(1, 6)):
                    lat.add_one_hopping([j + 1] + [0] * (spec.ndim - 1), n, n, r.choice([0.5, 1.5]))
            elif change == "offset":
                lat.offset = [r.q(-0.2, 0.2) if j < spec.ndim else 0 for j in range(3)]
                lat.min_neighbors = r.i(0, 1)
            elif change == "drop":
                k.drop_some()
            elif change == "eval":
                m.eval()
            elif change == "report":
                m.report()
        except RuntimeError:
            c.count("refused")
        m = None
        if r.p(0.4) or change in ("gc", "delete"):
            gc.collect()
        # evaluate the changed models so that what was replaced is really released
        if models and r.p(0.7):
            try:
                models[-1].hamiltonian
                list(models[-1].leads)
            except RuntimeError:
                pass
        k.verify(change)
    models.clear()
    del lat, spec
    gc.collect()
    k.verify("everything else was deleted")
    for kind in k.kinds:
        c.seen("kinds_of_data_kept", kind)
    c.count("operations", len(ops))
    c.sig(tuple(ops), sorted(k.kinds))


def p_detects(c):
    """The monitor itself: released memory is recognised"""
    libc = ctypes.CDLL(None)
    libc.malloc.restype = ctypes.c_void_p
    libc.free.argtypes = [ctypes.c_void_p]
    p = libc.malloc(256)
    a = np.frombuffer((ctypes.c_char * 256).from_address(p), dtype=np.uint8)
    c.check(not poisoned(a), "allocated memory is valid")
    libc.free(p)
    c.check(poisoned(a), "the monitor does not see released memory: is the address sanitizer loaded?")
    c.sig("detects")


def p_hamiltonian(c):
    from pybinding.repository import graphene
    k = Keeper(c)
    m = pb.Model(graphene.monolayer(), pb.rectangle(1.5), pb.translational_symmetry())
    k.csr("hamiltonian", m.hamiltonian)
    m.set_wave_vector([1, 1])
    m.hamiltonian
    k.verify("set_wave_vector")
    m.add(pb.constant_potential(1))
    m.hamiltonian
    k.verify("add")
    h = m.raw_hamiltonian.csrref
    k.csr("raw", h)
    del m, h
    gc.collect()
    k.verify("delete")
    c.sig("hamiltonian")


def p_lattice(c):
    k = Keeper(c)
    lat = pb.Lattice([1, 0], [0, 1])
    lat.add_sublattices(("A", [0, 0], 1.0), ("B", [0.5, 0.5], [[1, 2], [2, 1]]))
    lat.register_hopping_energies({"t": 1.0})
    lat.add_hoppings(([1, 0], "A", "A", "t"))
    for n, h in lat.hoppings.items():
        for t in h.terms:
            k.value("term", lambda t=t: [t.relative_index, t.from_id, t.to_id])
        k.array("energy", h.energy)
    for n, s in lat.sublattices.items():
        k.array("sub.energy", s.energy)
        k.value("sub", lambda s=s: [s.position, s.energy])
    for i in range(2, 40):
        lat.add_one_hopping([i, 0], "A", "A", "t")
        lat.add_one_hopping([i, 1], "A", "A", float(i))
        lat.add_one_sublattice("S%d" % i, [0, i], 1.0)
        k.verify("adding hoppings")
    del lat
    gc.collect()
    k.verify("delete")
    c.sig("lattice")


PINNED = {"monitor": p_detects, "hamiltonian": p_hamiltonian, "lattice": p_lattice}
if __name__ == "__main__":
    pymon.main("C25", random_case, PINNED, "sessions of building, changing and deleting random models and lattices; every array, matrix and "
               "wrapper which was handed out is kept with a copy of its values; after each change its memory must not be poisoned "
               "(address sanitizer) and its values must be the same; a case counts by its operations and the kinds of data kept")
