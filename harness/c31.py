"""C31: what the Python KPM interface returns is the kernel polynomial expansion of the current model, for the sites and options asked for"""
import pymon
import io
import math
import os
import sys

import numpy as np
import pybinding as pb
import pygen
import pykpm
from pybinding import chebyshev
from pymon import CaseSkipped
from scipy.sparse import csr_matrix, random as sparse_random


class Made:
    """A model with what is needed to look things up in it"""
    def __init__(self, c, multi=None, limit=70, ndim=None):
        r = c.rng
        self.lat = pygen.Lat(c, multi=multi, ndim=ndim)
        lattice = self.lat.build()
        shape, _ = pygen.rand_shape(c, self.lat.ndim, 1.8)
        parts = [shape]
        if r.p(0.3):
            parts.append(pygen.rand_symmetry(c, self.lat.ndim))
        self.double = r.p(0.2)
        if self.double:
            parts.append(pb.force_double_precision())
        try:
            self.model = pb.Model(lattice, *parts)
            system = self.model.system
        except RuntimeError:
            raise CaseSkipped("no such system")
        if r.p(0.3) and any(not callable(p) and type(p).__name__ == "TranslationalSymmetry" for p in parts):
            self.model.set_wave_vector([r.q(-2, 2), r.q(-2, 2), r.q(-2, 2)])
        self.size = system.hamiltonian_size
        if not 1 < self.size <= limit:
            raise CaseSkipped("unusual size")
        self.n = system.num_sites
        self.pos = np.array([system.x, system.y, system.z], dtype=float).T
        ids = {self.lattice_id(lattice, s): s for s in self.lat.subs}
        self.names = [ids[i] for i in np.array(system.sublattices)]
        self.norb = np.array([self.lat.subs[s][2] for s in self.names])
        self.start = np.concatenate([[0], np.cumsum(self.norb)])
        self.h = np.asarray(self.model.hamiltonian.toarray()).astype(complex)
        self.complex = np.iscomplexobj(self.model.hamiltonian.data)
        e = np.linalg.eigvalsh(self.h)
        self.lo, self.hi = e[0], e[-1]
        if self.hi - self.lo < 0.3:
            raise CaseSkipped("a narrow spectrum")

    @staticmethod
    def lattice_id(lattice, name):
        return lattice.sublattices[name].alias_id

    def nearest(self, c):
        """A position, a sublattice name and the site which is meant"""
        r = c.rng
        name = r.choice(list(self.lat.subs)) if r.p(0.5) else ""
        candidates = [i for i in range(self.n) if not name or self.names[i] == name]
        if not candidates:
            raise CaseSkipped("no site of that name")
        pos = self.pos[r.choice(candidates)] + np.array([r.q(-0.2, 0.2) if k < self.lat.ndim else 0 for k in range(3)])
        d = np.linalg.norm(self.pos[candidates] - pos, axis=1)
        k = np.argsort(d, kind="stable")
        if len(k) > 1 and d[k[1]] - d[k[0]] < 1e-3:
            raise CaseSkipped("two nearest sites")
        pos = pos[:r.choice([2, 3])] if self.lat.ndim < 3 and np.all(self.pos[:, 2] == self.pos[0, 2]) and pos[2] == 0 else pos
        return r.choice([list, tuple, np.array])(pos), name, candidates[k[0]]


class Session:
    def __init__(self, c):
        r = c.rng
        self.c = c
        self.made = Made(c)
        self.kernel = pykpm.Kernel(c)
        kw = {}
        self.reports = None
        if r.p(0.3):
            kw["energy_range"] = (math.floor(self.made.lo * 8) / 8 - r.q(0, 1), math.ceil(self.made.hi * 8) / 8 + r.q(0, 1))
        self.range = kw.get("energy_range")
        k = self.kernel.make()
        if not isinstance(k, str) or r.p(0.5):
            kw["kernel"] = k
        for key, values in dict(matrix_format=["CSR", "ELL"], optimal_size=[True, False], interleaved=[True, False]).items():
            if r.p(0.4):
                kw[key] = r.choice(values)
        kw["num_threads"] = r.choice([1, 2, 3])
        mode = r.choice(["silent", "callback", "default"])
        if mode == "silent":
            kw["silent"] = True
        elif mode == "callback":
            self.reports = []
            kw["progress_callback"] = lambda d, t: self.reports.append((d, t))
        self.silent = mode == "silent"
        self.kw = {k: v for k, v in kw.items()}
        c.note({k: str(v)[:30] for k, v in kw.items()}, self.kernel.kind, self.kernel.lam)
        self.kpm = pb.kpm(self.made.model, **kw)

    def factors(self):
        c = self.c
        a, b = self.kpm.scaling_factors
        if self.range:
            lo, hi = self.range
            c.close([a, b], [0.5 * (hi - lo) * 1.01, 0.5 * (hi + lo)], "scaling factors of the energy range", 1e-5, 1 + abs(lo) + abs(hi))
        if self.made.lo < b - a or self.made.hi > b + a:
            raise CaseSkipped("the spectrum isn't inside the bounds")  # C19 judges them
        return a, b

    def expansion(self, broadening=None, max_num=50):
        r = self.c.rng
        ab = self.factors()
        if broadening is None:
            broadening = (self.kernel.lam if self.kernel.lorentz else math.pi) / r.uniform(2, max_num) * ab[0]
        e = pykpm.Expansion(self.made.h, ab, self.kernel, broadening)
        if e.num is None:
            raise CaseSkipped("number of moments within rounding")
        self.c.equal(self.kpm.kernel.required_num_moments(broadening / ab[0]), e.num, "required_num_moments")
        self.c.close(self.kpm.kernel.damping_coefficients(e.num), e.g, "damping_coefficients", 1e-6, 1.0)
        self.c.seen("numbers_of_moments", e.num)
        return e, broadening

    def energies(self, e):
        r = self.c.rng
        en = np.array([e.b + e.a * r.uniform(-0.96, 0.96) for _ in range(r.i(1, 7))])
        return r.choice([en, np.sort(en), np.repeat(en, 2)[::2]])

    def within(self, got, want, tol, what):
        got, want = np.asarray(got), np.asarray(want)
        self.c.equal(got.shape, want.shape, what + ": shape")
        tol = np.broadcast_to(tol, got.shape)
        ok = np.abs(got - want) <= tol
        self.c.check(ok.all(), lambda: "%s: got %s, expected %s (tolerance %s)" % (what, pymon.show(got), pymon.show(want), pymon.show(tol)))
        self.c.count("values_compared", got.size)

    def progress(self, total):
        if self.reports is None:
            return
        rep, self.reports[:] = list(self.reports), []
        self.c.equal(rep[0], (-1, total), "first progress report")
        self.c.equal(rep[-1], (total, total), "last progress report")
        self.c.check(all(t == total and d > 0 for d, t in rep[1:]), lambda: "progress reports %s of %d" % (rep, total))
        self.c.equal(sum(d for d, t in rep[1:-1]), total, "sum of the progress reports")
        self.c.count("progress_reports", len(rep))

    # -- the operations

    def ldos(self):
        c, m = self.c, self.made
        e, broadening = self.expansion()
        en = self.energies(e)
        pos, name, i = m.nearest(c)
        reduce = c.rng.choice([True, False, None])
        kw = {} if reduce is None else dict(reduce=reduce)
        if name:
            kw["sublattice"] = name
        s = self.kpm.calc_ldos(en, broadening, pos, **kw)
        want = np.array([e.ldos(k, en) for k in range(m.start[i], m.start[i + 1])]).T
        tol = e.tol(en)
        if reduce is not False or m.norb[i] == 1:
            want, tol = want.sum(axis=1), tol * m.norb[i]
        else:
            tol = tol[:, None]
            want, tol = np.atleast_1d(want.squeeze()), np.atleast_1d(np.broadcast_to(tol, want.shape).squeeze())
        self.within(s.data, want, tol, "LDOS of site %d" % i)
        c.equal(s.variable, en, "energies of the LDOS")
        c.equal(s.labels["data"], "LDOS", "label")
        self.progress(int(m.norb[i]))

    def spatial(self):
        c, m, r = self.c, self.made, self.c.rng
        e, broadening = self.expansion(max_num=30)
        en = self.energies(e)
        rad, centre = r.q(0.4, 3), [r.q(-1, 1), r.q(-1, 1)]
        shape = pb.circle(rad, centre)
        name = r.choice(list(m.lat.subs)) if r.p(0.4) else ""
        if max(m.norb) > 1 or any(v[2] > 1 for v in m.lat.subs.values()):
            c.raises(RuntimeError, "spatial LDOS of several orbitals", self.kpm.calc_spatial_ldos, en, broadening, shape, name)
            return
        d = np.hypot(m.pos[:, 0] - centre[0], m.pos[:, 1] - centre[1])
        if np.any(np.abs(d - rad) < 1e-3):
            raise CaseSkipped("a site on the edge")
        if name and name not in m.names:
            return
        idx = [i for i in range(m.n) if d[i] < rad and (not name or m.names[i] == name)]
        s = self.kpm.calc_spatial_ldos(en, broadening, shape, name) if name else self.kpm.calc_spatial_ldos(en, broadening, shape)
        want = np.array([e.ldos(i, en) for i in idx]).T.reshape(len(en), len(idx))
        self.within(s.data, want, e.tol(en)[:, None], "spatial LDOS")
        c.equal(s.structure.num_sites, len(idx), "number of sites of the spatial LDOS")
        c.close(np.array([s.structure.x, s.structure.y, s.structure.z]).T, m.pos[idx], "positions of the spatial LDOS", 1e-6, 1.0)
        if idx:
            self.progress(len(idx))
            at = r.choice(list(en)) + 1e-3
            k = np.argmin(np.abs(en - at))
            sm = s.structure_map(at)
            c.equal(sm.data, s.data[k], "structure map")
            c.close(np.array([sm.x, sm.y, sm.z]).T, m.pos[idx], "positions of the structure map", 1e-6, 1.0)
            j = r.choice(idx)
            dd = np.sort(np.linalg.norm(m.pos[idx] - m.pos[j], axis=1))
            if len(dd) == 1 or dd[1] > 1e-3:
                series = s.ldos(m.pos[j], m.names[j])
                c.equal(series.data, s.data[:, idx.index(j)], "LDOS at a position of the spatial LDOS")
                c.equal(series.variable, en, "energies of the LDOS at a position")

    def dos(self):
        c, r = self.c, self.c.rng
        e, broadening = self.expansion(max_num=30)
        en = self.energies(e)
        num = r.choice([40, 60])
        s = self.kpm.calc_dos(en, broadening, num) if r.p(0.7) else self.kpm.calc_dos(en, broadening, num_random=num)
        value, sigma = e.dos(en)
        self.within(s.data.reshape(-1), value, 9 * sigma / math.sqrt(num) + e.tol(en) * len(e.h), "DOS")
        c.equal(s.variable, en, "energies of the DOS")
        self.progress(num)

    def greens(self):
        c, r, n = self.c, self.c.rng, self.made.size
        e, broadening = self.expansion()
        en = self.energies(e)
        i = r.i(0, n - 1)
        if r.p(0.5):
            j = r.choice([i, r.i(0, n - 1), r.i(0, n - 1)])
            g = self.kpm.calc_greens(i, j, en, broadening)
            self.within(np.asarray(g), e.greens(i, j, en), 2 * math.pi * e.tol(en), "Green's function %d, %d" % (i, j))
        else:
            cols = [r.i(0, n - 1) for _ in range(r.i(1, 4))]
            g = self.kpm.calc_greens(i, cols, en, broadening)
            c.equal(len(g), len(cols), "number of Green's functions")
            for j, x in zip(cols, g):
                self.within(np.asarray(x), e.greens(i, j, en), 2 * math.pi * e.tol(en), "Green's function %d, %d of %s" % (i, j, cols))
        c.raises((IndexError, RuntimeError, ValueError, TypeError, Exception), "an index past the end", self.kpm.calc_greens, 0, n, en, broadening)

    def moments(self):
        c, r, m = self.c, self.c.rng, self.made
        ab = self.factors()
        num = r.i(1, 20)
        full = pykpm.rounded(num)
        g = self.kernel.damping(full)
        rng = r.np()

        def vec():
            v = rng.randint(-64, 65, m.size) / 64
            return v + 1j * rng.randint(-64, 65, m.size) / 64 if m.complex else v
        alpha, beta = vec(), vec() if r.p(0.6) else None
        op = None
        if r.p(0.4):
            op = sparse_random(m.size, m.size, 0.2, format=r.choice(["csr", "coo", "csc"]), random_state=rng)
            beta = vec() if beta is None else beta
        ev, v = np.linalg.eigh(m.h)
        th = np.arccos(np.clip((ev - ab[1]) / ab[0], -1, 1))
        left = (alpha if beta is None else beta).conj()
        if op is not None:
            left = left @ op.toarray()
        want = np.array([(left @ (v * np.cos(k * th))) @ (v.conj().T @ alpha) for k in range(num)]) * g[:num]
        want[0] *= 0.5
        got = np.asarray(self.kpm.moments(num, alpha, beta, op) if r.p(0.5) else self.kpm.moments(num, alpha=alpha, beta=beta, op=op))
        scale = np.linalg.norm(alpha) * np.linalg.norm(left) + 1e-3
        self.within(got, want, 2e-5 * scale * (1 + np.arange(num)), "moments")
        if not m.complex:
            c.raises(Exception, "complex vectors and a real model", self.kpm.moments, num, alpha + 1j * (1 + np.arange(m.size)))
        c.raises(Exception, "vectors of another size", self.kpm.moments, num, np.ones(m.size + 1))

    def conductivity(self):
        c, r, m = self.c, self.c.rng, self.made
        if m.size > 40:
            return
        e, broadening = self.expansion(max_num=12)
        lo, hi = self.range or (e.b - e.a / 1.01, e.b + e.a / 1.01)
        direction = "".join(r.choice("xyz"[:max(2, m.lat.ndim)]) for _ in range(2))
        mus = np.array([r.q(-2, 2) for _ in range(r.i(1, 4))])
        t, points, num, volume = r.q(50, 3000), r.i(3, 20), 600, r.choice([1.0, 2.0, 0.25])
        s = self.kpm.calc_conductivity(mus, broadening, t, direction, volume, num, points)
        again = self.kpm.calc_conductivity(chemical_potential=mus, broadening=broadening, temperature=t, direction=direction, num_random=num, num_points=points)
        x, y = [np.repeat(m.pos[:, "xyz".index(d)], m.norb) for d in direction]
        value, sigma, size = e.conductivity(x, y, mus, t, points, (lo, hi))
        tol = 10 * sigma / math.sqrt(num) + 2e-5 * size + 1e-6
        c.count("conductivities", len(mus))
        c.count("conductivities compared to better than 20%", int(np.sum(tol < 0.2 * np.abs(value))))
        self.within(s.data, value / volume, tol / volume, "conductivity " + direction)
        self.within(again.data, value, tol, "conductivity %s without a volume" % direction)
        c.equal(s.variable, mus, "chemical potentials of the conductivity")
        for bad in ["x", "xq", "", "xyz"]:
            c.raises(Exception, "direction " + bad, self.kpm.calc_conductivity, mus, broadening, t, bad)

    def change(self):
        made = Made(self.c)
        if self.range and (made.lo < self.range[0] or made.hi > self.range[1]):
            raise CaseSkipped("the spectrum isn't inside the bounds")
        self.made = made
        self.kpm.model = made.model
        self.c.count("model_changes")

    def views(self):
        c, m = self.c, self.made
        s = self.kpm.system
        c.close(np.array([s.x, s.y, s.z]).T, m.pos, "positions of the system of the KPM", 1e-6, 1.0)
        c.equal(np.asarray(self.kpm.model.hamiltonian.toarray()), np.asarray(m.model.hamiltonian.toarray()), "Hamiltonian of the model of the KPM")
        for short in (True, False):
            c.check(isinstance(self.kpm.report(short), str), "report")

    def deferred(self):
        c, m = self.c, self.made
        e, broadening = self.expansion()
        en = self.energies(e)
        pos, name, i = m.nearest(c)
        d = self.kpm.deferred_ldos(en, broadening, pos, name) if name else self.kpm.deferred_ldos(en, broadening, pos)
        if c.rng.p(0.3):
            self.kpm.calc_dos(en, broadening)
        d.compute()
        want = sum(e.ldos(k, en) for k in range(m.start[i], m.start[i + 1]))
        self.within(np.asarray(d.result).reshape(-1), want, e.tol(en) * m.norb[i], "deferred LDOS of site %d" % i)
        if self.reports is not None:
            self.reports.clear()

    def python(self):
        """The implementation in Python gives the same"""
        c, m, r = self.c, self.made, self.c.rng
        impl = chebyshev._kpm_python(m.model, self.range, "default" if self.kernel.kind == "default" else self.kernel.make())
        h = m.h
        if m.size < 5:
            return
        a, b = impl.impl._scaling_factors()
        if self.range is not None and self.range[0] != self.range[1]:
            lo, hi, slack = self.range[0], self.range[1], 1e-5 * max(abs(v) for v in self.range)
        else:
            lo, hi, slack = m.lo, m.hi, 0.02 * (m.hi - m.lo) + 0.02 * max(abs(m.lo), abs(m.hi))
        c.check(abs(b - (lo + hi) / 2) <= slack and abs(a - 0.505 * (hi - lo)) <= slack,
                "scaling factors %s of the implementation in Python for energies from %s to %s" % ((a, b), lo, hi))
        if m.lo < b - a or m.hi > b + a:
            raise CaseSkipped("the spectrum isn't inside the bounds")
        broadening = (self.kernel.lam if self.kernel.lorentz else math.pi) / r.uniform(2, 40) * a
        e = pykpm.Expansion(h, (a, b), self.kernel, broadening)
        if e.num is None:
            raise CaseSkipped("number of moments within rounding")
        en = self.energies(e)
        pos, name, i = m.nearest(c)
        s = impl.calc_ldos(en, broadening, pos, name)
        want = sum(e.ldos(k, en) for k in range(m.start[i], m.start[i + 1]))
        self.within(np.asarray(s.data).reshape(-1), want, e.tol(en) * m.norb[i], "LDOS in Python")
        c.check("@" in impl.report(), "report in Python")


OPS = ["ldos", "ldos", "spatial", "spatial", "dos", "greens", "greens", "moments", "conductivity", "change", "views", "deferred", "python"]


def quiet():
    """The progress bars go to the standard output as it was when the package was imported"""
    if not getattr(quiet, "done", False) and "--out" in sys.argv:
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    quiet.done = True


def random_case(c):
    quiet()
    s = Session(c)
    before = sys.stdout, sys.stderr
    done = 0
    for _ in range(c.rng.i(2, 6)):
        op = c.rng.choice(OPS)
        c.note("[%s]" % op)
        if s.reports:
            s.reports.clear()
        captured = io.StringIO()
        try:
            if s.silent:
                sys.stdout = captured
            getattr(s, op)()
            done += 1
            c.count("query: " + op)
        except CaseSkipped as e:
            c.count("part skipped: %s" % e)
        finally:
            now = sys.stdout
            sys.stdout = before[0]
        if s.silent:
            c.check(now is captured and captured.getvalue() == "", lambda: "a silent calculation printed " + captured.getvalue())
        else:
            c.check((now, sys.stderr) == before, "the output streams were not restored")
    if not done:
        raise CaseSkipped("no query was possible")
    c.sig(c.describe)


def p_refused(c):
    lat = pb.Lattice([1, 0], [0, 1])
    lat.add_sublattices(("A", [0, 0], 0.5))
    lat.add_hoppings(([1, 0], "A", "A", 1.0), ([0, 1], "A", "A", -0.5))
    m = pb.Model(lat, pb.primitive(4, 3))
    c.raises(TypeError, "KPM(model)", pb.chebyshev.KPM, m)
    c.raises(Exception, "kpm_cuda without CUDA", pb.chebyshev.kpm_cuda, m)
    c.raises(Exception, "an inverted energy range", pb.kpm, m, (2, -2))
    c.raises(Exception, "lambda 0", pb.lorentz_kernel, 0)
    c.raises(Exception, "lambda -1", pb.lorentz_kernel, -1)
    kpm = pb.kpm(m, silent=True)
    c.raises(Exception, "an unknown sublattice", kpm.calc_ldos, [0.1], 0.5, [0, 0], "Q")
    c.raises(Exception, "an unknown sublattice", kpm.deferred_ldos([0.1], 0.5, [0, 0], "Q").compute)
    c.sig(1)


if __name__ == "__main__":
    pymon.main("C31", random_case, {"refused": p_refused},
               "sessions of calls on KPM objects with random models, kernels, energy ranges and options; every result is compared with the damped expansion of the "
               "dense Hamiltonian in double precision (stochastic traces within 9 standard deviations of the estimator), progress reports and outputs with what was asked for; "
               "a case counts by its description")
