"""C29: the Python solvers return eigenpairs of the current Hamiltonian, and the quantities derived from them follow their definitions"""
import pymon
import math

from unittest import mock
import numpy as np
from scipy.sparse.linalg import ArpackNoConvergence, eigsh as scipy_eigsh
import pybinding as pb
import pygen
from pybinding import results
from pymon import CaseSkipped


def dense(m):
    return np.asarray(m.hamiltonian.toarray()).astype(complex)


def gauss(e, energies, broadening):
    d = np.asarray(e, dtype=float)[:, None] - np.atleast_1d(energies).astype(float)
    return np.exp(-0.5 * d**2 / broadening**2) / (broadening * math.sqrt(2 * math.pi))


class Setup:
    """A lattice, what a model is made of, and the current model with its wave vector"""
    def __init__(self, c, limit=120):
        r = c.rng
        self.lat = pygen.Lat(c)
        self.lattice = self.lat.build()
        self.parts = None
        shape, _ = pygen.rand_shape(c, self.lat.ndim, 1.8)
        self.parts = [shape]
        self.periodic = r.p(0.5)
        if self.periodic:
            self.parts.append(pygen.rand_symmetry(c, self.lat.ndim))
        if r.p(0.3):
            v = r.q(-1, 1)

            @pb.onsite_energy_modifier
            def shift(energy, x):
                return energy + v * np.asarray(x)[(slice(None),) + (None,) * (energy.ndim - 1)] * np.ones(energy.shape) if energy.ndim == 1 else energy
            self.parts.append(shift)
        self.limit = limit
        self.model()

    def model(self, k=None):
        try:
            m = pb.Model(self.lattice, *self.parts)
            n = m.system.num_sites
        except RuntimeError:
            raise CaseSkipped("no such system")
        size = m.system.hamiltonian_size
        if not 1 < size <= self.limit:
            raise CaseSkipped("unusual size")
        self.n = n
        self.norb = np.array([self.lat.subs[[s for s in self.lat.subs if self.lattice.sublattices[s].alias_id == i][0]][2]
                              for i in np.array(m.system.sublattices)])
        self.start = np.concatenate([[0], np.cumsum(self.norb)])
        if k is not None:
            m.set_wave_vector(k)
        return m

    def reduce(self, data):
        return np.array([data[self.start[i]:self.start[i + 1]].sum() for i in range(self.n)])


def rand_k(c):
    return [c.rng.q(-4, 4) for _ in range(3)]


def groups(c, e, tol):
    """Runs of states which are closer than tol to their neighbours; None when it is a close call"""
    d = np.abs(np.diff(np.asarray(e)))
    if np.any(np.abs(d - tol) < 0.05 * tol):
        return None
    out, run = [], [0]
    for i, x in enumerate(d):
        if x < tol:
            run.append(i + 1)
        else:
            out.append(run)
            run = [i + 1]
    out.append(run)
    return [g for g in out if len(g) > 1]


def pairs(c, solver, h, what, expected_count=None, near=None):
    """Eigenvalues are sorted and belong to h, eigenvectors are orthonormal"""
    e, v = np.array(solver.eigenvalues, dtype=float), np.array(solver.eigenvectors)
    n = len(h)
    scale = max(1.0, np.abs(h).sum(axis=1).max())
    c.equal(v.shape, (n, len(e)), what + ": shape of the eigenvectors")
    c.check((np.diff(e) >= 0).all(), what + ": the eigenvalues are not sorted")
    if expected_count is not None:
        c.equal(len(e), expected_count, what + ": number of eigenvalues")
    ref = np.linalg.eigvalsh(h)
    tol = 0
    if near is not None:  # shift and invert in single precision
        tol = 5e-6 * np.max(np.abs(e - near))**2 / np.min(np.abs(ref - near)) / scale
        tol += 5e-7 * np.max(np.abs(ref - near)) / np.min(np.abs(ref - near))
    c.close(h @ v, v * e, what + ": H v - e v", 2e-4 + tol, scale)
    overlap = v.conj().T @ v
    if near is not None:  # scipy.sparse.linalg.eigsh promises no more within a degenerate complex eigenspace
        overlap = np.where((np.abs(e[:, None] - e) < 1e-2 * scale) & ~np.eye(len(e), dtype=bool), 0, overlap)
    c.close(overlap, np.eye(len(e)), what + ": orthonormality", 5e-4, 1.0)
    if near is None and len(e) == n:
        c.close(e, ref, what + ": spectrum", 5e-5, scale)
    elif near is not None and np.min(np.diff(ref)) > 5e-3 * scale:
        c.count("arpack_selections")
        want = np.sort(np.abs(ref - near))[:len(e)]
        c.close(np.sort(np.abs(e - near)), want, what + ": the eigenvalues closest to %s" % near, 2e-4 + tol, scale)
    c.count("eigenpairs_checked", len(e))
    return e, v


def derived(c, s, m, solver, h, what):
    """All quantities which follow from the full spectrum"""
    r = c.rng
    ref_e, ref_v = np.linalg.eigh(h)
    scale = max(1.0, np.abs(h).sum(axis=1).max())
    op = r.choice(["dos", "ldos", "spatial", "probability", "eigenvalues", "eigenvalues_at"])
    c.count("query: " + op)
    c.note(op)
    broadening = r.q(0.1, 0.8) + 0.02
    energies = np.sort(np.array([r.q(-4, 4) for _ in range(r.i(2, 9))]))
    given = r.choice([energies, energies.astype(np.float32), list(energies)])
    tol = 3e-3
    if op == "dos":
        got = solver.calc_dos(given, broadening)
        c.close(got.data, gauss(ref_e, energies, broadening).sum(axis=0), what + ": calc_dos", tol, max(1, len(h)) / broadening)
        c.close(got.variable, energies, what + ": calc_dos energies")
    elif op == "ldos":
        subs = [n for n in s.lat.subs if np.any(m.system.sublattices == n)]
        sub = r.choice([""] + subs)
        pos = [r.q(-1, 1) for _ in range(3)]
        site = int(m.system.find_nearest(pos, sub))
        k = np.arange(s.start[site], s.start[site + 1])
        want = (np.abs(ref_v[k])**2 @ gauss(ref_e, energies, broadening))
        if r.p(0.5):
            got = solver.calc_ldos(given, broadening, pos, sub)
            c.close(got.data, want.sum(axis=0), what + ": calc_ldos", tol, len(k) / broadening)
        else:
            got = solver.calc_ldos(given, broadening, pos, sub, reduce=False)
            want = want.T
            c.close(got.data, want if len(k) > 1 else want[:, 0], what + ": calc_ldos per orbital", tol, 1 / broadening)
        c.close(got.variable, energies, what + ": calc_ldos energies")
    elif op == "spatial":
        e = float(energies[0])
        got = solver.calc_spatial_ldos(e, broadening)
        want = s.reduce(np.abs(ref_v)**2 @ gauss(ref_e, [e], broadening)[:, 0])
        c.close(got.data, want, what + ": calc_spatial_ldos", tol, 3 / broadening)
        c.equal(got.xyz, m.system.xyz, what + ": calc_spatial_ldos positions")
        c.close(got.data.sum(), gauss(ref_e, [e], broadening).sum(), what + ": calc_spatial_ldos adds up to the dos", tol, len(h) / broadening)
    elif op == "probability":
        v, e = np.array(solver.eigenvectors), np.array(solver.eigenvalues)
        n = r.i(0, len(e) - 1)
        kind = r.choice(["degenerate", "one", "list", "wide"])
        if kind == "list":
            n = sorted(r.sample(range(len(e)), r.i(1, min(4, len(e)))))
            got, pick = solver.calc_probability(n), n
        elif kind == "one":
            got, pick = solver.calc_probability(n, reduce=0), [n]
        else:
            tolerance = 1e-5 if kind == "degenerate" else 0.25
            d = np.abs(e - e[n])
            if np.any(np.abs(d - tolerance) < 0.05 * tolerance):
                return
            got = solver.calc_probability(n) if kind == "degenerate" else solver.calc_probability(n, reduce=0.25)
            pick = np.flatnonzero(d < tolerance)
        c.close(got.data, s.reduce((np.abs(v[:, pick])**2).sum(axis=1)), what + ": calc_probability " + kind, 1e-5, len(pick))
        c.close(got.data.sum(), len(pick), what + ": calc_probability adds up", 1e-3)
        c.equal(got.xyz, m.system.xyz, what + ": calc_probability positions")
    elif op == "eigenvalues":
        got = solver.calc_eigenvalues()
        c.close(got.values, ref_e, what + ": calc_eigenvalues", 5e-5, scale)
        c.equal(got.indices, np.arange(len(h)), what + ": calc_eigenvalues indices")
    else:
        pos = [r.q(-1, 1) for _ in range(3)]
        site = int(m.system.find_nearest(pos))
        given = r.choice([pos, tuple(pos), np.array(pos)])
        got = solver.calc_eigenvalues(map_probability_at=given)
        v, e = np.array(solver.eigenvectors), np.array(solver.eigenvalues)
        g = groups(c, e, 1e-5)
        if g is None:
            return
        p = (np.abs(v[s.start[site]:s.start[site + 1]])**2).sum(axis=0)
        for run in g:
            p[run] = p[run].sum() / len(run)
        c.close(got.probability, p, what + ": probability at a position", 1e-5, 1.0)
        c.close(got.values, ref_e, what + ": values", 5e-5, scale)
        c.close(got.probability.sum(), s.norb[site], what + ": the probabilities add up to the number of orbitals", 1e-3)


def lapack(c):
    r = c.rng
    s = Setup(c)
    k = rand_k(c) if r.p(0.6) else None
    m = s.model(k)
    k = k or [0, 0, 0]
    solver = pb.solver.lapack(m)
    c.sig(m.system.hamiltonian_size, s.periodic, s.lat.complex)
    h = dense(m)
    for step in range(r.i(2, 6)):
        what = "lapack step %d" % step
        op = r.choice(["query"] * 5 + ["pairs", "k", "model", "clear", "bands"])
        c.note(op)
        c.seen("solver_ops", op)
        if op == "query":
            derived(c, s, m, solver, h, what)
        elif op == "pairs":
            pairs(c, solver, h, what, len(h))
            c.check(solver.model is m or np.array_equal(solver.model.hamiltonian.toarray(), m.hamiltonian.toarray()), what + ": model")
            c.equal(solver.system.xyz, m.system.xyz, what + ": system")
            c.check("Converged" in solver.report() and isinstance(solver.report(True), str), what + ": report")
        elif op == "k":
            k = rand_k(c)
            solver.set_wave_vector(k)
            h = dense(s.model(k))
            c.close(dense(m), h, what + ": Hamiltonian after set_wave_vector", 1e-6)
            pairs(c, solver, h, what + " after set_wave_vector", len(h))
        elif op == "model":
            old = s
            solver.eigenvalues  # noqa: B018
            if r.p(0.5):
                s = Setup(c)
            k = rand_k(c)
            m = s.model(k)
            solver.model = m
            h = dense(m)
            pairs(c, solver, h, what + " after the model was replaced", len(h))
        elif op == "clear":
            k = rand_k(c)
            m.set_wave_vector(k)
            solver.clear()
            h = dense(s.model(k))
            if r.p(0.5):
                solver.solve()
            pairs(c, solver, h, what + " after clear", len(h))
        else:
            nd = s.lat.ndim if s.periodic else 1
            pts = [[r.q(-3, 3) for _ in range(nd)] for _ in range(r.i(2, 3))]
            if nd == 1 and r.p(0.5):
                pts = [p[0] for p in pts]
            length = sum(np.linalg.norm(np.subtract(a, b)) for a, b in zip(pts, pts[1:]))
            stepsize = max(0.3, length / 8)
            got = solver.calc_bands(*pts, step=stepsize)
            path = results.make_path(*pts, step=stepsize)
            c.equal(np.array(got.k_path), np.array(path), what + ": path of the bands")
            c.check(list(got.k_path.point_indices) == list(path.point_indices), what + ": points of the bands")
            c.equal(got.energy.shape, (len(path), len(h)), what + ": shape of the bands")
            c.equal(got.num_bands, len(h), what + ": num_bands")
            for i, kk in enumerate(np.array(path)):
                full = list(kk) + [0.0] * (3 - len(kk))
                want = np.linalg.eigvalsh(dense(s.model(full)))
                c.close(got.energy[i], want, what + ": bands at %s" % kk, 5e-5, max(1, np.abs(h).sum(axis=1).max()))
                c.count("band_points")
            k = list(np.array(path)[-1]) + [0.0] * (3 - len(np.array(path)[-1]))
            h = dense(s.model(k))
            pairs(c, solver, h, what + " after calc_bands", len(h))


def subset(c):
    """Keyword arguments are handed to the underlying routine, for every solve"""
    r = c.rng
    s = Setup(c)
    m = s.model(rand_k(c))
    h = dense(m)
    lo = r.i(0, len(h) - 1)
    hi = r.i(lo, len(h) - 1)
    c.sig(lo, hi, len(h))
    solver = pb.solver.lapack(m, subset_by_index=[lo, hi])
    e, v = pairs(c, solver, h, "subset", hi - lo + 1)
    scale = max(1, np.abs(h).sum(axis=1).max())
    c.close(e, np.linalg.eigvalsh(h)[lo:hi + 1], "subset: spectrum", 5e-5, scale)
    k = rand_k(c)
    solver.set_wave_vector(k)
    h = dense(s.model(k))
    c.close(solver.eigenvalues, np.linalg.eigvalsh(h)[lo:hi + 1], "subset after set_wave_vector", 5e-5, scale)


def arpack(c):
    r = c.rng
    s = Setup(c)
    k = rand_k(c)
    m = s.model(k)
    h = dense(m)
    if len(h) < 5:
        raise CaseSkipped("too small for arpack")
    count = r.i(1, min(6, len(h) - 2))
    sigma = r.choice([0, 0, r.q(-3, 3) + 0.0137])
    c.sig(len(h), count, sigma)
    ref = np.linalg.eigvalsh(h)

    def close_to_singular(ref):
        return np.min(np.abs(ref - sigma)) < 1e-2 * max(1, np.abs(ref).max())
    if close_to_singular(ref):
        raise CaseSkipped("close to singular")
    start = np.random.default_rng(r.i(0, 1 << 30))  # scipy's own is another one each time

    def eigsh(a, *args, **kwargs):
        kwargs.setdefault("v0", start.standard_normal(a.shape[0]).astype(a.dtype))
        return scipy_eigsh(a, *args, **kwargs)
    with mock.patch("scipy.sparse.linalg.eigsh", eigsh):
        arpack_case(c, s, m, h, count, sigma, close_to_singular)


def arpack_case(c, s, m, h, count, sigma, close_to_singular):
    r = c.rng
    solver = pb.solver.arpack(m, k=count, sigma=sigma) if sigma or r.p(0.5) else pb.solver.arpack(m, count)
    try:
        solver.solve()
    except (ArpackNoConvergence, RuntimeError) as e:
        raise CaseSkipped("arpack: %s" % type(e).__name__)
    e, v = pairs(c, solver, h, "arpack", count, near=sigma)
    if r.p(0.5):
        k = rand_k(c)
        h2 = dense(s.model(k))
        ref = np.linalg.eigvalsh(h2)
        if not close_to_singular(ref):
            solver.set_wave_vector(k)
            try:
                solver.solve()
            except (ArpackNoConvergence, RuntimeError) as e2:
                raise CaseSkipped("arpack: %s" % type(e2).__name__)
            pairs(c, solver, h2, "arpack after set_wave_vector", count, near=sigma)
    else:
        energies = np.linspace(-1, 1, 4)
        c.close(solver.calc_dos(energies, 0.3).data, gauss(e, energies, 0.3).sum(axis=0), "arpack: calc_dos", 1e-3, 4.0)


def degenerate(c):
    r = c.rng
    n = r.i(1, 25)
    tol = r.choice([None, 1e-5, 0.01, 0.5])
    t = tol or 1e-5
    gaps = [r.choice([0, 0.3 * t, 2 * t, r.q(0.5, 2), 0.6 * t]) for _ in range(n - 1)]
    e = np.cumsum([r.q(-2, 2)] + gaps)
    c.note(e.tolist(), tol)
    g = groups(c, e, t)
    if g is None:
        raise CaseSkipped("a close call")
    c.sig(n, [len(x) for x in g])
    got = pb.solver.Solver.find_degenerate_states(e) if tol is None else pb.solver.Solver.find_degenerate_states(e, tol)
    c.check([[int(i) for i in x] for x in got] == g, lambda: "find_degenerate_states: %s, expected %s" % (got, g))


def leads(c):
    r = c.rng
    lat = pygen.Lat(c, ndim=2, max_sub=2)
    lattice = lat.build()
    m = pb.Model(lattice, pb.rectangle(r.q(2, 4), r.q(2, 4)))
    d = r.choice([1, -1, 2, -2])
    ln = r.q(0.5, 2)
    line = pb.line([0, -ln], [0, ln]) if abs(d) == 1 else pb.line([-ln, 0], [ln, 0])
    try:
        m.attach_lead(d, line)
        lead = m.leads[0]
        h0, h1 = lead.h0.toarray().astype(complex), lead.h1.toarray().astype(complex)
    except (RuntimeError, TypeError) as e:
        raise CaseSkipped("no lead: " + str(e)[:40])
    if not 0 < len(h0) <= 60:
        raise CaseSkipped("unusual lead")
    c.sig(len(h0), np.count_nonzero(h1), d)
    c.equal(len(m.leads), 1, "number of leads")
    start, end = r.choice([(-math.pi, math.pi), (r.q(-3, 0), r.q(0.5, 3))])
    got = lead.calc_bands(start, end, step=0.5) if r.p(0.7) else lead.calc_bands(step=0.4)
    path = np.array(got.k_path).ravel()
    c.equal(got.energy.shape, (len(path), len(h0)), "lead bands: shape")
    c.check(path[0] in (start, -math.pi) and path[-1] in (end, math.pi), "lead bands: ends of the path")
    scale = max(1, (np.abs(h0) + 2 * np.abs(h1)).sum(axis=1).max())
    for k, e in zip(path, got.energy):
        want = np.linalg.eigvalsh(h0 + h1 * np.exp(1j * k) + h1.conj().T * np.exp(-1j * k))
        c.close(e, want, "lead bands at %s" % k, 2e-5, scale)
        c.count("lead_band_points")
    kwant(c, m, lat, lattice)


def kwant(c, m, lat, lattice):
    from pybinding.support import kwant as pk
    if not pk.kwant_installed:
        c.raises(ImportError, "tokwant without kwant", m.tokwant)
    ks = pk.KwantFiniteSystem(m)
    n, nd = m.system.num_sites, lat.ndim
    c.equal(ks.graph.num_nodes, n, "kwant: nodes")
    by = {lattice.sublattices[s].alias_id: v[2] for s, v in lat.subs.items()}
    norb = np.array([by[i] for i in np.array(m.system.sublattices)])
    for i in c.rng.sample(range(n), min(n, 4)):
        c.equal(ks.pos(i), m.system.xyz[i][:nd], "kwant: pos")
    h = m.hamiltonian.toarray()
    c.equal(np.asarray(ks.hamiltonian_submatrix()), h, "kwant: Hamiltonian")
    c.equal(ks.hamiltonian_submatrix(sparse=True).toarray(), h, "kwant: sparse Hamiltonian")
    h2, to, fr = ks.hamiltonian_submatrix(return_norb=True)
    c.equal(np.asarray(h2), h, "kwant: Hamiltonian with norb")
    c.equal(np.asarray(to), norb, "kwant: to_norb")
    c.equal(np.asarray(fr), norb, "kwant: from_norb")
    if (norb == 1).all():
        i, j = c.rng.i(0, n - 1), c.rng.i(0, n - 1)
        c.equal(ks.hamiltonian(i, j), h[i, j], "kwant: element")
    c.equal(len(ks.leads), len(m.leads), "kwant: leads")
    for kl, ki, l in zip(ks.leads, ks.lead_interfaces, m.leads):
        c.equal(np.array(ki), np.array(l.indices), "kwant: lead interface")
        c.equal(np.asarray(kl.cell_hamiltonian()), l.h0.toarray(), "kwant: cell_hamiltonian")
        c.equal(kl.cell_hamiltonian(sparse=True).toarray(), l.h0.toarray(), "kwant: sparse cell_hamiltonian")
        c.equal(np.asarray(kl.inter_cell_hopping()), l.h1.toarray(), "kwant: inter_cell_hopping")
        c.equal(kl.inter_cell_hopping(sparse=True).toarray(), l.h1.toarray(), "kwant: sparse inter_cell_hopping")
    c.count("kwant_systems")


def maps(c):
    s = Setup(c, 400)
    m = s.model(rand_k(c))
    h = dense(m)
    c.sig(len(h), s.n)
    c.close(m.onsite_map.data, s.reduce(np.real(np.diag(h))), "onsite_map", 1e-5)
    data = np.random.rand(s.n)
    c.equal(m.structure_map(data).data, data, "structure_map")
    data = np.random.rand(len(h))
    c.close(m.structure_map(data).data, s.reduce(data) if len(h) != s.n else data, "structure_map of one value per orbital", 1e-9)
    c.check(m.lattice is s.lattice, "Model.lattice")
    if isinstance(s.parts[0], pb._cpp.Shape):
        c.check(m.shape is s.parts[0], "Model.shape")
    kwant(c, m, s.lat, s.lattice)
    if not hasattr(pb._cpp, "FEAST"):
        c.raises(Exception, "feast without FEAST", pb.solver.feast, m, (-1, 1), 10)


def p_absent_family(c):
    """The first family of the lattice is not in the system: the orbital counts still belong to the right sites"""
    lat = pb.Lattice([1, 0], [0, 1])
    lat.add_sublattices(("A", [0, 0], 1.0), ("B", [0.25, 0], [2.0, 3.0]), ("C", [0, 0.25], [1.0, 2.0, 3.0]))
    lat.add_hoppings(([1, 0], "A", "A", 1.0), ([1, 0], "B", "B", [[1, 0.5], [0.5, 1]]), ([0, 1], "C", "C", np.eye(3)))

    @pb.site_state_modifier
    def drop(state, sub_id):
        state[sub_id == "A"] = False
        return state
    from pybinding.support import kwant as pk
    m = pb.Model(lat, pb.primitive(2, 2), drop)
    _, to, fr = pk.KwantFiniteSystem(m).hamiltonian_submatrix(return_norb=True)
    want = np.where(np.array(m.system.sublattices == "B"), 2, 3)
    c.equal(np.asarray(to), want, "to_norb")
    c.equal(np.asarray(fr), want, "from_norb")
    c.sig(len(want))


def p_multi_probability(c):
    """The probability at a site counts all of its orbitals"""
    lat = pb.Lattice([1, 0], [0, 1])
    lat.add_sublattices(("A", [0, 0], [1.0, 2.0]))
    lat.add_hoppings(([1, 0], "A", "A", [[0.3, 0.1], [0.2, 0.4]]))
    m = pb.Model(lat, pb.primitive(3, 2))
    solver = pb.solver.lapack(m)
    for i in range(m.system.num_sites):
        p = solver.calc_eigenvalues(map_probability_at=m.system.xyz[i])
        c.close(p.probability.sum(), 2.0, "probabilities at site %d" % i, 1e-4)
    c.sig(1)


def random_case(c):
    kind = c.rng.choice(["lapack"] * 4 + ["subset", "arpack", "arpack", "degenerate", "leads", "leads", "maps"])
    c.note(kind)
    c.count("kind: " + kind)
    dict(lapack=lapack, subset=subset, arpack=arpack, degenerate=degenerate, leads=leads, maps=maps)[kind](c)


if __name__ == "__main__":
    pymon.main("C29", random_case, {"absent-family": p_absent_family, "multi-probability": p_multi_probability},
               "histories of queries, wave vectors, model changes and clears on LAPACK and ARPACK solvers; eigenpairs are checked by residual and orthonormality, "
               "derived quantities against a double precision decomposition of the Hamiltonian of a fresh model; lead bands and the kwant view against h0, h1 and the Hamiltonian")
