"""C26: Python modifiers and generators do exactly what their function says, whichever arguments it asks for and however its result is laid out"""
import pymon
import itertools

import numpy as np
import pybinding as pb
import pygen
from pymon import CaseSkipped


def make_function(args, impl):
    """A function with exactly the given arguments which calls impl(dict of arguments)"""
    space = {"impl": impl}
    exec("def f(%s): return impl(dict(%s))" % (", ".join(args), ", ".join("%s=%s" % (a, a) for a in args)), space)
    return space["f"]


class Ref:
    """Dense reference made from the structure of a model and the given energies"""
    def __init__(self, c, model, onsite, hopping, k=(0, 0, 0)):
        s = model.system
        self.s = s
        self.pos = s.xyz.astype(float)
        self.sub = np.asarray(s.sublattices)
        names = {}
        for n, i in s.sublattices.mapping.items():
            names.setdefault(i, []).append(str(n))
        self.sub_names = names
        self.onsite, self.hopping = onsite, hopping
        self.name = [next(n for n in names[i] if n in onsite) for i in self.sub]
        self.norb = np.array([np.atleast_2d(onsite[n]).shape[0] for n in self.name], dtype=int)
        self.start = np.concatenate([[0], np.cumsum(self.norb)]).astype(int)
        self.size = int(self.start[-1])
        self.blocks = []
        csr = s.hoppings.tocsr()
        self.hop_names = {i: str(n) for n, i in csr.data.mapping.items()}
        coo = csr.tocoo()
        self.hops = [(int(i), int(j), self.hop_names[int(d)], self.pos[i], self.pos[j], 1.0)
                     for i, j, d in zip(coo.row, coo.col, np.asarray(coo.data))]
        for b in s.boundaries:
            coo = b.hoppings.tocsr().tocoo()
            shift = np.asarray(b.shift, dtype=float)
            ph = np.exp(1j * np.dot(shift, k))
            self.hops += [(int(i), int(j), self.hop_names[int(d)], self.pos[i], self.pos[j] - shift, ph)
                          for i, j, d in zip(coo.row, coo.col, np.asarray(coo.data))]

    def matrix(self, onsite_fs=(), hopping_fs=()):
        h = np.zeros((self.size, self.size), dtype=complex)
        for i, n in enumerate(self.name):
            e = np.atleast_2d(np.asarray(self.onsite[n], dtype=complex)).copy()
            for f in onsite_fs:
                e = f(e, self.pos[i], n)
            h[self.start[i]:self.start[i + 1], self.start[i]:self.start[i + 1]] += e
        for i, j, n, p1, p2, ph in self.hops:
            t = np.atleast_2d(np.asarray(self.hopping[n], dtype=complex)).copy()
            for f in hopping_fs:
                t = f(t, p1, p2, n)
            a, b = slice(self.start[i], self.start[i + 1]), slice(self.start[j], self.start[j + 1])
            h[a, b] += t * ph
            h[b, a] += (t * ph).conj().T
        return h


def layout(c, kind, r, energy):
    """The same values in another memory layout"""
    if kind == "C":
        return np.ascontiguousarray(r).copy()
    if kind == "F":
        return np.asfortranarray(r).copy(order="F")
    if kind == "K":
        return r + 0
    if kind == "reversed":
        return np.ascontiguousarray(r[::-1])[::-1]
    if kind == "strided":
        return np.stack([r, r + 100], axis=-1)[..., 0]
    if kind == "real":
        return r if np.iscomplexobj(r) else (r + 5j).real
    if kind == "inplace" and energy is not None and np.can_cast(r.dtype, energy.dtype, "same_kind"):
        energy[...] = r.reshape(energy.shape)
        return energy
    if kind == "reshaped":
        return r.reshape(-1).reshape(r.shape)
    if kind == "transposed" and r.ndim == 3:
        return np.ascontiguousarray(r.transpose(0, 2, 1)).transpose(0, 2, 1)
    if kind == "sitelast" and r.ndim == 3:
        return np.moveaxis(np.ascontiguousarray(np.moveaxis(r, 0, 2)), 2, 0)
    if kind == "single" or kind == "double":
        small = kind == "single"
        return r.astype((np.complex64 if small else np.complex128) if np.iscomplexobj(r) else (np.float32 if small else np.float64))
    if kind == "broadcast":
        if r.size and np.all(r == r.flat[0]):
            return np.broadcast_to(r.flat[0], r.shape)
    return r


LAYOUTS = ["C", "F", "K", "reversed", "strided", "real", "inplace", "reshaped", "transposed", "sitelast", "single", "double", "broadcast", "none"]


def subset(c, keywords, must=()):
    r = c.rng
    args = [k for k in keywords if k in must or r.p(0.5)]
    r.shuffle(args)
    return args


def onsite_modifier(c, names, seen):
    r = c.rng
    args = subset(c, ["energy", "x", "y", "z", "sub_id", "sites"])
    if "energy" not in args and ("sub_id" not in args or not set(args) & set("xyz")):
        args = ["energy"] + args
        r.shuffle(args)
    a = r.choice([1.0, 0.5, -2.0]) if r.p(0.7) else r.q(-1, 1) + 0.5j
    coef = {k: r.q(-1, 1) for k in "xyz" if k in args}
    if r.p(0.15):
        coef = {k: 0.0 for k in coef}
    sites_coef = r.q(-1, 1) if "sites" in args else 0.0
    special = r.choice(names) if names and "sub_id" in args and r.p(0.6) else None
    negate = r.p(0.3)
    extra = r.q(-2, 2)
    shift_eye = r.q(-1, 1) if "sub_id" in args else 0
    lay = r.choice(LAYOUTS)
    center = [r.q(-1, 1), r.q(-1, 1), r.q(-1, 1)][:r.i(1, 3)]
    double = r.p(0.2)
    c.note("onsite(%s) a=%s coef=%s special=%s layout=%s double=%s" % (args, a, coef, special, lay, double))
    seen["layouts"].add("onsite:" + lay)
    seen["args"].add("onsite:" + ",".join(sorted(args)))

    def impl(kw):
        energy = kw.get("energy")
        sub = kw.get("sub_id")
        three = (energy is not None and energy.ndim == 3) or any(kw[k].ndim == 3 for k in coef)
        seen["calls"] += 1
        if energy is not None:
            res = energy * a
        else:
            res = np.zeros((1, 1)) * sub.eye * (kw[next(iter(coef))] * 0)
        for k, v in coef.items():
            res = res + v * kw[k] * (sub.eye if sub is not None and three else 1)
        if "sites" in kw:
            s = kw["sites"]
            d = s.distances(center)
            n = res.shape[0] if three else res.size
            assert len(s) == n and d.shape == (n,), "sites have %s elements, %s sites" % (d.shape, n)
            d = d.reshape((n, 1, 1)) if three else d
            res = res + sites_coef * d
        if sub is not None:
            res = res + shift_eye * sub.eye
            if special is not None:
                if bool(sub == special) != negate if not negate else bool(sub != special):
                    res = res + extra * sub.eye
        if res.ndim == 2 and not three:
            res = res.reshape(-1)
        return layout(c, lay, res, energy)

    def ref(e, pos, name):
        o = e.shape[0]
        eye = np.eye(o)
        three = o > 1
        res = e * a if "energy" in args else np.zeros((o, o), dtype=complex)
        for i, k in enumerate("xyz"):
            if k in coef:
                res = res + coef[k] * pos[i] * (eye if "sub_id" in args and three else 1)
        if "sites" in args:
            res = res + sites_coef * np.linalg.norm(pos[:len(center)] - center)
        if "sub_id" in args:
            res = res + shift_eye * eye
            if special is not None and (name != special if negate else name == special):
                res = res + extra * eye
        return res

    f = make_function(args, impl)
    mod = pb.onsite_energy_modifier(is_double=double)(f) if double or r.p(0.5) else pb.onsite_energy_modifier(f)
    return mod, ref, double, isinstance(a, complex)


def hopping_modifier(c, names, seen):
    r = c.rng
    args = subset(c, ["energy", "x1", "y1", "z1", "x2", "y2", "z2", "hop_id"], must=["energy"])
    a = r.choice([1.0, 0.5, -2.0]) if r.p(0.6) else r.q(-1, 1) + 0.25j
    coef = {k: r.q(-1, 1) for k in args if k[0] in "xyz"}
    phase = r.p(0.3)
    special = r.choice(names) if "hop_id" in args and names and r.p(0.7) else None
    factor = r.q(-2, 2)
    eye = r.q(-2, 2) if r.p(0.5) else 0
    lay = r.choice(LAYOUTS)
    c.note("hopping(%s) a=%s coef=%s phase=%s special=%s layout=%s" % (args, a, coef, phase, special, lay))
    seen["layouts"].add("hopping:" + lay)
    seen["args"].add("hopping:" + ",".join(sorted(args)))

    def impl(kw):
        seen["calls"] += 1
        energy = kw["energy"]
        res = energy * a
        arg = 0
        for k, v in coef.items():
            assert kw[k].shape == (energy.shape if energy.ndim == 1 else (energy.shape[0], 1, 1)), kw[k].shape
            arg = arg + v * kw[k]
        res = res * np.exp(1j * arg) if phase else res + arg
        if eye and "hop_id" in kw:
            e = eye * kw["hop_id"].eye
            res = res + (e if energy.ndim == 3 else e.reshape(-1))
        if special is not None and kw["hop_id"] == special:
            res = res * factor
        return layout(c, lay, res, energy)

    def ref(t, p1, p2, name):
        res = t * a
        arg = sum(v * (p1 if k[1] == "1" else p2)["xyz".index(k[0])] for k, v in coef.items())
        res = res * np.exp(1j * arg) if phase else res + arg
        if eye and "hop_id" in args:
            res = res + eye * np.eye(*t.shape)
        return res * factor if special is not None and name == special else res

    complex_, double = r.p(0.2), r.p(0.2)
    f = make_function(args, impl)
    if complex_ or double or r.p(0.5):
        mod = pb.hopping_energy_modifier(is_double=double, is_complex=complex_)(f)
    else:
        mod = pb.hopping_energy_modifier(f)
    return mod, ref, double, complex_ or isinstance(a, complex) or phase


def state_modifier(c, names, seen):
    r = c.rng
    args = subset(c, ["state", "x", "y", "z", "sub_id", "sites"])
    if not set(args) & {"state", "x", "y", "z", "sites"}:
        args.append("state")
    coef = {k: r.q(-1, 1) for k in "xyz" if k in args}
    cut = r.q(-0.5, 1.5)
    special = r.choice(names) if names and "sub_id" in args and r.p(0.6) else None
    lay = r.choice(["C", "reversed", "strided", "inplace", "none", "broadcast"])
    c.note("state(%s) coef=%s cut=%s special=%s layout=%s" % (args, coef, cut, special, lay))
    seen["layouts"].add("state:" + lay)
    seen["args"].add("state:" + ",".join(sorted(args)))
    constant = r.p(0.2)

    def impl(kw):
        seen["calls"] += 1
        some = kw[next(k for k in args if k != "sub_id")]
        n = len(some)
        v = np.zeros(n, dtype=np.float32)
        for k, w in coef.items():
            v = v + np.float32(w) * kw[k]
        keep = np.full(n, True) if constant else v < cut
        if special is not None:
            keep = np.logical_or(keep, kw["sub_id"] == special)
        if "sites" in kw:
            keep = np.logical_and(keep, kw["sites"].x > -50)
        if "state" in kw:
            keep = np.logical_and(keep, kw["state"])
        state = kw.get("state")
        if lay == "reversed":
            return np.ascontiguousarray(keep[::-1])[::-1]
        if lay == "strided":
            return np.stack([keep, ~keep], axis=-1)[..., 0]
        if lay == "inplace" and state is not None:
            state[...] = keep
            return state
        if lay == "broadcast" and keep.all() and "state" in kw:
            return np.broadcast_to(True, keep.shape) if state.all() else keep
        return keep

    def ref(xyz, name):
        v = np.zeros(len(xyz), dtype=np.float32)
        for k, w in coef.items():
            v = v + np.float32(w) * xyz[:, "xyz".index(k)].astype(np.float32)
        keep = np.full(len(xyz), True) if constant else v < cut
        close = (np.abs(v.astype(float) - cut) < 1e-5) & (not constant)
        if special is not None:
            keep = np.logical_or(keep, np.array([n == special for n in name], dtype=bool))
        return keep, close
    return pb.site_state_modifier(make_function(args, impl)), ref, "state" in args


def position_modifier(c, names, seen):
    r = c.rng
    args = subset(c, ["x", "y", "z", "sub_id", "sites"], must=["x", "y", "z"])
    m = np.array([[r.q(-0.5, 0.5) for _ in range(3)] for _ in range(3)]) + np.eye(3)
    special = r.choice(names) if names and "sub_id" in args and r.p(0.6) else None
    lay = r.choice([l for l in LAYOUTS if l != "inplace"])
    c.note("position(%s) special=%s layout=%s" % (args, special, lay))
    seen["layouts"].add("position:" + lay)
    seen["args"].add("position:" + ",".join(sorted(args)))

    def impl(kw):
        seen["calls"] += 1
        p = np.array([kw["x"], kw["y"], kw["z"]])
        q = m @ p
        if special is not None:
            q = q + 2.5 * bool(kw["sub_id"] == special)
        if "sites" in kw:
            assert np.array_equal(kw["sites"].y, kw["y"])
        return tuple(layout(c, lay, v, None) for v in q)

    def ref(xyz, name):
        q = xyz @ m.T
        if special is not None:
            q = q + 2.5 * np.array([n == special for n in name])[:, None]
        return q
    return pb.site_position_modifier(make_function(args, impl)), ref


def tolerance(double):
    return 1e-9 if double else 3e-5


def check_hamiltonian(c, model, ref, of, hf, double, complex_, what):
    h = model.hamiltonian
    want = ref.matrix(of, hf)
    got = h.toarray()
    if double:
        # positions are single precision all the same
        c.check(h.dtype in (np.float64, np.complex128), lambda: "%s: %s although double precision was asked for" % (what, h.dtype))
    c.close(got, want, what, tol=tolerance(False), scale=max(1.0, np.abs(want).max() if want.size else 1.0))
    if not np.iscomplexobj(got):
        c.check(not np.any(np.abs(want.imag) > 1e-6), what + ": the imaginary part was lost")


def build(c, spec, lat, prim=None):
    m = pb.Model(lat)
    return m


def random_case(c):
    r = c.rng
    spec = pygen.Lat(c, max_sub=3, aliases=r.p(0.3))
    lat = spec.build()
    sh, _ = pygen.rand_shape(c, spec.ndim, 2)
    sym = pygen.rand_symmetry(c, spec.ndim) if r.p(0.4) else None
    base_args = [sh] + ([sym] if sym is not None else [])
    onsite = {n: (np.atleast_2d(np.diag(e) if isinstance(e, list) else e)) for n, (_, e, o) in spec.subs.items()}
    for n, s in lat.sublattices.items():
        if n in onsite:
            c.close(s.energy, onsite[n], "energy of sublattice " + n)
    hopping = {n: h.energy.copy() for n, h in lat.hoppings.items()}
    for n, e in spec.families.items():
        c.close(hopping[n], np.atleast_2d(e), "energy of hopping " + n)
    names = list(spec.subs)
    # structure modifiers see the sites of an alias under the name of the alias, which the system does not keep
    structure_names = [n for n in names if not spec.alias]
    seen = dict(layouts=set(), args=set(), calls=0)
    try:
        base = pb.Model(lat, *base_args)
        ns = base.system.num_sites
    except RuntimeError as e:
        raise CaseSkipped("the shape holds no sites" if "sites" in str(e) or True else "")
    if ns > 250:
        raise CaseSkipped("too many sites")
    ref = Ref(c, base, onsite, hopping)
    check_hamiltonian(c, base, ref, (), (), False, False, "unmodified Hamiltonian")
    mods = []

    # structure
    kind = r.choice(["none", "none", "state", "position", "sites", "hoppings", "state+position"])
    c.note("structure:", kind)
    if kind == "state":
        mod, f, uses_state = state_modifier(c, structure_names, seen)
        if sym is None and uses_state:
            keep, close = f(ref.pos, ref.name)
            m = pb.Model(lat, *base_args, mod)
            if not close.any():
                if not keep.any():
                    c.raises(RuntimeError, "a state modifier which removes everything", lambda: m.system.num_sites and None)
                    return
                c.equal(m.system.xyz, base.system.xyz[keep], "positions of the remaining sites")
                c.equal(np.asarray(m.system.sublattices), ref.sub[keep], "sublattices of the remaining sites")
                a = base.system.hoppings.tocsr().tocoo()
                new_id = np.cumsum(keep) - 1
                want = sorted((int(new_id[i]), int(new_id[j]), int(d)) for i, j, d in zip(a.row, a.col, np.asarray(a.data)) if keep[i] and keep[j])
                b = m.system.hoppings.tocsr().tocoo()
                c.equal(sorted((int(i), int(j), int(d)) for i, j, d in zip(b.row, b.col, np.asarray(b.data))), want, "hoppings between the remaining sites")
                mods = [mod]
    elif kind == "position":
        mod, f = position_modifier(c, structure_names, seen)
        m = pb.Model(lat, *base_args, mod)
        want = f(ref.pos, ref.name)
        c.close(m.system.xyz, want, "modified positions", tol=1e-5, scale=max(1.0, np.abs(want).max()))
        mods = [mod]
    elif kind == "sites":
        n = r.i(1, 5)
        norb = r.i(1, 2)
        e = pygen.rand_onsite(c, norb, spec.complex)
        pos = np.array([[r.q(-2, 2) for _ in range(3)] for _ in range(n)])
        args = subset(c, ["system", "x", "y", "z"])
        style = r.choice(["list", "f32", "f64", "tuple", "strided"])
        c.note("site_generator", args, style, n, norb)

        def impl(kw):
            seen["calls"] += 1
            for i, k in enumerate("xyz"):
                if k in kw:
                    c.equal(kw[k], base.system.xyz[:, i], "generator argument " + k)
            if "system" in kw:
                c.equal(kw["system"].xyz, base.system.xyz, "generator argument system")
            v = pos.T
            if style == "list":
                return tuple(list(x) for x in v)
            if style == "f32":
                return tuple(x.astype(np.float32) for x in v)
            if style == "strided":
                return v[0], v[1], v[2]
            return tuple(tuple(x) for x in v) if style == "tuple" else tuple(np.array(x) for x in v)
        mods = [pb.site_generator("new", e)(make_function(args, impl))]
        onsite = dict(onsite, new=np.atleast_2d(np.diag(e) if isinstance(e, list) else e))
        m = pb.Model(lat, *base_args, *mods)
        s = m.system
        is_new = np.asarray(s.sublattices == "new")
        c.equal(is_new.sum(), n, "number of generated sites")
        c.close(s.xyz[is_new], pos, "positions of the generated sites", tol=1e-6)
        c.equal(s.xyz[~is_new], base.system.xyz, "positions of the other sites")
    elif kind == "hoppings" and ns > 1:
        orb = {o for o in ref.norb}
        n1 = r.choice(sorted(orb))
        n2 = r.choice(sorted(orb))
        i1 = np.flatnonzero(ref.norb == n1)
        i2 = np.flatnonzero(ref.norb == n2)
        e = pygen.rand_hopping(c, n1, n2, spec.complex)
        existing = {(min(i, j), max(i, j)) for i, j, *_ in ref.hops}
        pairs, used = [], set()
        masks = r.p(0.4)
        for _ in range(r.i(1, 8)):
            i, j = int(r.choice(i1)), int(r.choice(i2))
            key = (min(i, j), max(i, j))
            if i == j or key in used or key in existing:
                continue
            used.add(key)
            pairs.append((i, j))
        if masks and pairs:
            # boolean arrays mark the sites in order
            i, j = pairs[0]
            pairs = [(i, j)]
        if pairs:
            args = subset(c, ["system", "x", "y", "z"])
            c.note("hopping_generator", args, pairs, masks)

            def impl(kw):
                seen["calls"] += 1
                for i, k in enumerate("xyz"):
                    if k in kw:
                        c.equal(kw[k], base.system.xyz[:, i], "generator argument " + k)
                a = np.array([p[0] for p in pairs])
                b = np.array([p[1] for p in pairs])
                if masks:
                    x = np.zeros(ns, dtype=bool)
                    y = np.zeros(ns, dtype=bool)
                    x[a], y[b] = True, True
                    return x, y
                return (list(a), list(b)) if r.p(0.3) else (a, b)
            mods = [pb.hopping_generator("gen", e)(make_function(args, impl))]
            hopping = dict(hopping, gen=np.atleast_2d(e))
            m = pb.Model(lat, *base_args, *mods)
            coo = m.system.hoppings.tocsr().tocoo()
            gen = m.system.hoppings.tocsr().data.mapping["gen"]
            sel = np.asarray(coo.data) == gen
            c.equal(sorted(zip(coo.row[sel].tolist(), coo.col[sel].tolist())), sorted(pairs), "generated hoppings")
    elif kind == "state+position":
        mods = [state_modifier(c, structure_names, seen)[0], position_modifier(c, structure_names, seen)[0]]

    # energies
    fs_o, fs_h, double, complex_ = [], [], False, False
    try:
        structure = pb.Model(lat, *base_args, *mods)
        structure.system.num_sites
    except RuntimeError:
        raise CaseSkipped("the modifiers leave no sites")
    names = list(onsite)
    ref = Ref(c, structure, onsite, hopping)
    energy_mods = []
    for _ in range(r.i(1, 4)):
        what = r.choice(["onsite", "onsite", "hopping", "hopping", "potential", "double", "complex"])
        if what == "onsite":
            mod, f, d, z = onsite_modifier(c, names, seen)
            fs_o.append(f)
        elif what == "hopping":
            mod, f, d, z = hopping_modifier(c, list(hopping), seen)
            fs_h.append(f)
        elif what == "potential":
            v = r.q(-2, 2)
            mod, d, z = pb.constant_potential(v), False, False
            fs_o.append(lambda e, pos, name, v=v: e + v * np.eye(e.shape[0]))
            c.note("constant_potential", v)
        elif what == "double":
            mod, d, z = pb.force_double_precision(), True, False
        else:
            mod, d, z = pb.force_complex_numbers(), False, True
        energy_mods.append(mod)
        double |= d
    every = mods + energy_mods
    model = pb.Model(lat, *base_args)
    style = r.i(0, 2)
    if style == 0:
        model.add(*every)
    elif style == 1:
        for m in every:
            model.add(m)
    else:
        model.add(every[:1], tuple(every[1:]))
    check_hamiltonian(c, model, ref, fs_o, fs_h, double, complex_, "modified Hamiltonian")
    if sym is not None and r.p(0.7):
        k = [r.q(-3, 3) if i < spec.ndim else 0 for i in range(3)]
        model.set_wave_vector(k)
        check_hamiltonian(c, model, Ref(c, structure, onsite, hopping, k), fs_o, fs_h, double, complex_, "modified Hamiltonian at a wave vector")
    for l in seen["layouts"]:
        c.seen("result_layouts", l)
    for l in seen["args"]:
        c.seen("argument_sets", l)
    c.count("modifier_calls", seen["calls"])
    c.sig(c.describe)


def p_refused(c):
    """Results and arguments which cannot be right are refused with the documented exceptions"""
    lat = pb.Lattice([1, 0], [0, 1])
    lat.add_sublattices(("A", [0, 0], 1.0), ("B", [0.5, 0.5], [[1, 2], [2, 1]]))
    lat.add_hoppings(([0, 0], "A", "B", [[1, 2]]))

    def model(f):
        return pb.Model(lat, pb.primitive(3, 2), f)
    for dec, kw, n in [(pb.onsite_energy_modifier, "energy", 1), (pb.hopping_energy_modifier, "energy", 1),
                       (pb.site_state_modifier, "state", 1), (pb.site_position_modifier, "x", 3)]:
        c.raises(RuntimeError, "unknown argument of " + kw, lambda: dec(make_function([kw, "banana"], lambda kw: None)))
        for bad, what in [(lambda kw: 5, "a number"), (lambda kw: [1, 2], "a list"), (lambda kw: None, "None"),
                          (lambda kw: np.zeros(1000), "another size"), (lambda kw: (np.zeros(6),) * 2, "two arrays"),
                          (lambda kw: np.array(["a"] * kw[list(kw)[0]].size), "strings")]:
            m = model(dec(make_function([kw], bad)))
            c.raises((TypeError, RuntimeError), "%s result is %s" % (kw, what), lambda: m.hamiltonian)
            c.raises((TypeError, RuntimeError), "%s result is %s (again)" % (kw, what), lambda: m.hamiltonian)
    m = model(pb.site_state_modifier(make_function(["state"], lambda kw: kw["state"].astype(int))))
    c.raises(TypeError, "integer state", lambda: m.system)
    m = model(pb.site_position_modifier(make_function(["x", "y", "z"], lambda kw: (kw["x"] * 1j, kw["y"], kw["z"]))))
    c.raises(TypeError, "complex position", lambda: m.system)
    c.raises(RuntimeError, "None instead of a modifier", lambda: pb.Model(lat, None))
    c.sig("refused")


def p_layouts(c):
    """Every layout with asymmetric multi-orbital energies"""
    lat = pb.Lattice([1, 0], [0, 1])
    lat.add_sublattices(("A", [0, 0], [[1, 2], [2, -1]]), ("B", [0.5, 0.25], np.array([[1, 2j, 3], [-2j, 4, 5], [3, 5, 6]])))
    lat.add_hoppings(([0, 0], "A", "B", [[1, 2, 3], [4, 5, 6]]), ([1, 0], "A", "A", [[1, 2], [3, 4]]))
    onsite = {n: s.energy.copy() for n, s in lat.sublattices.items()}
    hopping = {n: h.energy.copy() for n, h in lat.hoppings.items()}
    base = pb.Model(lat, pb.primitive(3, 2))
    ref = Ref(c, base, onsite, hopping)
    for lay in LAYOUTS:
        for constant in (False, True):
            def impl_o(kw):
                return layout(c, lay, kw["energy"] * (0 if constant else 1) + (kw["x"] if not constant else 3.0), kw["energy"])

            def impl_h(kw):
                return layout(c, lay, kw["energy"] * (0 if constant else 1) + (kw["y2"] if not constant else 3.0), kw["energy"])
            m = pb.Model(lat, pb.primitive(3, 2), pb.onsite_energy_modifier(make_function(["x", "energy"], impl_o)),
                         pb.hopping_energy_modifier(make_function(["y2", "energy"], impl_h)))
            want = ref.matrix([lambda e, p, n: e * (not constant) + (3.0 if constant else p[0])],
                              [lambda t, p1, p2, n: t * (not constant) + (3.0 if constant else p2[1])])
            c.close(m.hamiltonian.toarray(), want, "layout %s (constant: %s)" % (lay, constant), tol=1e-5)
    c.sig("layouts")


PINNED = {"refused": p_refused, "layouts": p_layouts}
if __name__ == "__main__":
    pymon.main("C26", random_case, PINNED, "random lattices, shapes and symmetries with random Python modifiers and generators: subsets and orders of "
               "arguments, memory layouts and types of results; the structure and the dense Hamiltonian must equal a reference which "
               "applies the same formulas site by site to the unmodified system; a case counts by its complete description")
