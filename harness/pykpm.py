"""The kernel polynomial expansion in double precision, from its definition"""
import math

import numpy as np
import pybinding as pb

KB = 8.6173303e-5


def rounded(n):
    """The algorithms take four moments at a time, after the first two"""
    return 2 if n < 2 else n + -(n - 2) % 4


class Kernel:
    def __init__(self, c, kinds=("default", "jackson", "lorentz", "lorentz4", "dirichlet")):
        r = c.rng
        self.kind = r.choice(kinds)
        self.lam = 4.0 if self.kind == "lorentz4" else r.q(0.5, 6) + 0.1

    def make(self):
        return {"default": lambda: "default", "jackson": pb.jackson_kernel, "lorentz": lambda: pb.lorentz_kernel(self.lam),
                "lorentz4": pb.lorentz_kernel, "dirichlet": pb.dirichlet_kernel}[self.kind]()

    @property
    def lorentz(self):
        return self.kind.startswith("lorentz")

    def num(self, scaled_broadening):
        """None when rounding could give another number"""
        x = (self.lam if self.lorentz else math.pi) / scaled_broadening
        if abs(x - round(x)) < 1e-3 * max(1.0, abs(x)) * 1e-2 + 1e-4:
            return None
        return rounded(int(x) + 1)

    def damping(self, num):
        n = np.arange(num, dtype=float)
        if self.lorentz:
            return np.sinh(self.lam * (1 - n / num)) / math.sinh(self.lam)
        if self.kind == "dirichlet":
            return np.ones(num)
        m = num + 1
        return ((m - n) * np.cos(math.pi * n / m) + np.sin(math.pi * n / m) / math.tan(math.pi / m)) / m


class Expansion:
    """Everything which follows from a dense matrix, the scaling factors, a kernel and a broadening"""
    def __init__(self, h, ab, kernel, broadening):
        self.a, self.b = ab
        self.h = np.asarray(h).astype(complex)
        self.num = kernel.num(broadening / self.a)
        if self.num is None:
            return
        self.g = kernel.damping(self.num)
        e, self.v = np.linalg.eigh(self.h)
        self.theta = np.arccos(np.clip((e - self.b) / self.a, -1, 1))
        self.cheb = np.cos(np.arange(self.num)[:, None] * self.theta)      # [moment, state]

    def moments(self, i, j):
        return self.cheb @ (self.v[i] * self.v[j].conj())

    def tol(self, energy):
        """What single precision may do to a sum over the moments, for moments of size one"""
        w = np.asarray(self.scaled(energy))
        q = 1 / np.sqrt(1 - w**2)
        n = np.arange(self.num)
        eps = 6e-8
        de = eps * (1 + (np.max(np.abs(energy), initial=0) + abs(self.b)) / self.a) * 8
        s = (self.g * ((n + 4)[None, :] * (de * q[..., None] + 20 * eps + 4 * de) + 5e-8)).sum(axis=-1)
        return 2 / self.a * q * s * (1 + 10 * eps * q * q) + 1e-9

    def scaled(self, energy):
        return (np.asarray(energy, dtype=float) - self.b) / self.a

    def density_from(self, mu, energy):
        w = self.scaled(energy)
        m = mu.real * self.g
        m[0] *= 0.5
        return 2 / (self.a * math.pi * np.sqrt(1 - w**2)) * (np.cos(np.arccos(w)[:, None] * np.arange(self.num)) @ m)

    def ldos(self, i, energy):
        return self.density_from(self.moments(i, i), energy)

    def greens(self, i, j, energy):
        w = self.scaled(energy)
        m = self.moments(i, j) * self.g
        m[0] *= 0.5
        return -2j / (self.a * np.sqrt(1 - w**2)) * (np.exp(-1j * np.arccos(w)[:, None] * np.arange(self.num)) @ m)

    def dos(self, energy):
        """The value and the standard deviation of one random vector, at each energy"""
        w = self.scaled(energy)
        k = self.g * np.where(np.arange(self.num) == 0, 0.5, 1.0)
        weights = 2 / (self.a * math.pi * np.sqrt(1 - w**2))[:, None] * (np.cos(np.arccos(w)[:, None] * np.arange(self.num)) * k) @ self.cheb
        value, sigma = [], []
        for row in weights:
            m = (self.v * row) @ self.v.conj().T
            value.append(np.trace(m).real)
            sigma.append(math.sqrt(2) * np.linalg.norm(m - np.diag(np.diag(m))))
        return np.array(value), np.array(sigma)

    def conductivity(self, x, y, mus, temperature, points, bounds):
        """The trace and the standard deviation of one pair of random vectors"""
        h = self.h
        vl, vr = h * (x[:, None] - x[None, :]), h * (y[:, None] - y[None, :])
        es = (np.linspace(bounds[0], bounds[1], points) - self.b) / self.a
        k = self.g * np.where(np.arange(self.num) == 0, 0.5, 1.0)
        t = [(self.v * row) @ self.v.conj().T for row in self.cheb]
        n = np.arange(self.num)
        gammas = []
        for e in es:
            q, th = math.sqrt(1 - e * e), math.acos(e)
            gp = (e - 1j * n[None, :] * q) * np.exp(1j * n[None, :] * th) * np.cos(n[:, None] * th)
            gammas.append((gp + gp.conj().T) * np.outer(k, k) / (1 - e * e)**2)
        weight = np.full(points, 2.0)
        weight[[0, -1]] = 1.0
        coeff = (es[-1] - es[0]) / (2 * points)
        value, sigma, size = [], [], []
        for mu in mus:
            with np.errstate(over="ignore"):
                f = 1 / (1 + np.exp((es - (mu - self.b) / self.a) * self.a / (KB * temperature)))
            total = np.einsum("s,snm->nm", 4 / self.a**2 * coeff * weight * f, np.array(gammas))
            # sum over (i, j) of m(i, j) gamma(i, j) where m(i, j) = <r| T_j^+ vr^+ ... : r^+ (vr T_j)^+ (T_i vl) r
            m = np.zeros_like(h)
            for j in range(self.num):
                left = sum(total[i, j] * t[i] for i in range(self.num)) @ vl
                m += (vr @ t[j]).conj().T @ left
            value.append(np.trace(m).real)
            s = (m + m.conj().T) / 2
            size.append(np.abs(total).sum() * np.linalg.norm(vl) * np.linalg.norm(vr))
            sigma.append(math.sqrt(2) * np.linalg.norm(s - np.diag(np.diag(s))))
        return np.array(value), np.array(sigma), np.array(size)
