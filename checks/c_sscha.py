"""Self-consistent harmonic approximation: displacement correlations and force
constants from samples."""
import itertools
import types
from fractions import Fraction

import numpy as np

from .common import *

MASS = {1: [4.0], 2: [4.0, 9.0], 4: [4.0] * 4}


class Shadow:
    """numpy of the module with another eigensolver"""

    def __init__(self, np_, eigh):
        self.__dict__["np_"] = np_
        self.__dict__["linalg"] = types.SimpleNamespace(eigh=eigh, eigvalsh=np_.linalg.eigvalsh, pinv=np_.linalg.pinv, inv=np_.linalg.inv, norm=np_.linalg.norm)

    def __getattr__(self, n):
        return getattr(self.np_, n)


class Cell:
    def __init__(self, masses):
        self.masses = np.array(masses)

    def __len__(self):
        return len(self.masses)


def symmetric(ctx, n, name="h"):
    h = ctx.reals(name, (n, n, 3, 3), lo=-20, hi=20)
    for i, j in np.ndindex(n, n):
        for a, b in np.ndindex(3, 3):
            if (i, a) > (j, b):
                h[i, j, a, b] = h[j, i, b, a]
    return h


def phonon(n):
    """eigenproblem of the supercell"""

    def h(ctx):
        import phono3py.sscha.sscha as mod
        from phonopy.units import VaspToTHz

        m = MASS[n]
        fc = symmetric(ctx, n)
        w, v = ctx.reals("w", (3 * n,), lo=-50, hi=50), ctx.reals("v", (3 * n, 3 * n), lo=-1, hi=1)
        for x in w:
            ctx.assume(ctx.Or(x > 1e-9, x < -1e-9))
        seen = []

        def eigh(a, *args, **kw):
            seen.append(a)
            return w.copy(), v.copy()

        old = mod.np
        mod.np = Shadow(old, eigh)
        try:
            for f in (None, 2.0):
                del seen[:]
                s = mod.SupercellPhonon(Cell(m), fc.copy()) if f is None else mod.SupercellPhonon(Cell(m), fc.copy(), frequency_factor_to_THz=f)
                ctx.check(len(seen) == 1 and np.shape(seen[0]) == (3 * n, 3 * n), "one eigenproblem")
                for i, j in np.ndindex(n, n):
                    for a, b in np.ndindex(3, 3):
                        ctx.equal(seen[0][3 * i + a, 3 * j + b], fc[i, j, a, b] / ctx.num((m[i] * m[j]) ** 0.5), "dynamical matrix")
                        ctx.equal(s.force_constants[3 * i + a, 3 * j + b], fc[i, j, a, b], "force constants as a matrix")
                k = VaspToTHz if f is None else f
                for q in range(3 * n):
                    ctx.equal(s.eigenvalues[q], w[q], "eigenvalue")
                    fr = s.frequencies[q]
                    ctx.equal(fr * fr, ctx.If(w[q] > 0, w[q], 0 - w[q]) * ctx.num(k) * ctx.num(k), "squared frequency", rtol=1e-9)
                    ctx.check(ctx.eq(ctx.If(fr > 0, ctx.num(1.0), ctx.num(0.0)), ctx.If(w[q] > 0, ctx.num(1.0), ctx.num(0.0))), "imaginary modes are negative")
                ctx.equal(s.eigenvectors, v, "eigenvectors are columns")
        finally:
            mod.np = old
        ctx.reach("phonon")

    return h


def variance(ctx, f, T):
    """<Q^2> of an oscillator of frequency f (THz) in AMU Angstrom^2"""
    hbar, kb, amu, e = 1.05457266e-34, 8.617343e-5, 1.6605402e-27, 1.60217733e-19
    from phonopy.units import AMU, EV, Hbar, Kb, THzToEv

    for a, b in ((hbar, Hbar * EV), (kb, Kb), (amu, AMU), (e, EV)):
        if abs(a / b - 1) > 1e-4:
            raise HarnessError("constants")
    x = ctx.fn("exp", f * ctx.num(THzToEv) / (ctx.num(Kb) * T))
    n = 1 / (x - 1)
    return (n + ctx.num(0.5)) / f * ctx.num(Hbar * EV / (2 * np.pi * 1e12) / AMU / 1e-20)


def modes(ctx, n, free, cutoff):
    """frequencies: the free ones arbitrary, the others fixed"""
    f = ctx.const(np.array([2.0 + 0.5 * k for k in range(n)]))
    for k in free:
        f[k] = ctx.real("f%d" % k, lo=-5, hi=20)
        ctx.assume(ctx.Or(f[k] > cutoff + 1e-9, f[k] < cutoff - 1e-9))
        # no underflow of the Bose-Einstein factor
        ctx.assume(ctx.Or(f[k] > 1e-3, f[k] < cutoff))
    return f


def corr(n, free, cutoff=None, api=False):
    def h(ctx):
        import phono3py.sscha.sscha as mod

        m = MASS[n]
        c = 1e-5 if cutoff is None else cutoff
        fr = modes(ctx, 3 * n, free, c)
        v = ctx.reals("v", (3 * n, 3 * n), lo=-1, hi=1)
        T = ctx.real("T", lo=30, hi=3000)
        if api:
            old = mod.SupercellPhonon
            mod.SupercellPhonon = lambda sc, fc: types.SimpleNamespace(frequencies=fr, eigenvectors=v, supercell=sc, force_constants=fc)
            try:
                d = mod.get_sscha_matrices(Cell(m), None, cutoff_frequency=cutoff)
            finally:
                mod.SupercellPhonon = old
        else:
            d = mod.DispCorrMatrix(types.SimpleNamespace(frequencies=fr, eigenvectors=v, supercell=Cell(m)), **({} if cutoff is None else dict(cutoff_frequency=cutoff)))
        d.run(T)
        up = [ctx.branch(x > c) for x in fr]
        a2 = [variance(ctx, x, T) if u else None for x, u in zip(fr, up)]
        for i, j in np.ndindex(3 * n, 3 * n):
            mm = (m[i // 3] * m[j // 3]) ** 0.5
            s = t = ctx.num(0.0)
            for k, x in enumerate(a2):
                if x is not None:
                    s = s + x * v[i, k] * v[j, k]
                    t = t + v[i, k] * v[j, k] / x
            ctx.equal(d.psi_matrix[i, j], s / ctx.num(mm), "displacement correlation", rtol=1e-8)
            ctx.equal(d.upsilon_matrix[i, j], t * ctx.num(mm), "inverse of the displacement correlation", rtol=1e-8, scale=1e4)
        p = ctx.num(1.0)
        for x in a2:
            if x is not None:
                p = p * x * ctx.num(2 * np.pi)
        ctx.equal(d.prefactor * d.prefactor * p, ctx.num(1.0), "normalisation of the Gaussian", rtol=1e-8)
        ctx.reach("corr")

    return h


def bose():
    def h(ctx):
        from phono3py.phonon.func import bose_einstein, sigma_squared
        from phonopy.units import Kb, THzToEv

        T = ctx.real("T", lo=30, hi=3000)
        f = ctx.real("f", lo=0.01, hi=50)
        ctx.assume(f > 0.01)
        x = ctx.fn("exp", f * ctx.num(THzToEv) / (ctx.num(Kb) * T))
        ctx.equal(bose_einstein(f, T) * (x - 1), ctx.num(1.0), "occupation", rtol=1e-8)
        ctx.equal(sigma_squared(f, T), variance(ctx, f, T), "variance of an oscillator", rtol=1e-8)
        ctx.reach("func")

    return h


class D2F:
    """dynamical matrices to force constants, all phases +-1"""

    ctx = None

    def __init__(self, primitive, supercell, is_full_fc=True, **k):
        self.p, self.s = primitive, supercell
        if not is_full_fc:
            raise HarnessError("full force constants are needed")

    POINTS = np.array([[0, 0, 0], [0.5, 0, 0], [0, 0.5, 0], [0.5, 0.5, 0]])
    R = np.array([[0, 0], [1, 0], [0, 1], [1, 1]])

    @property
    def commensurate_points(self):
        return self.POINTS[:len(self.s.masses) // len(self.p.masses)]

    def create_dynamical_matrices(self, eigenvalues, eigenvectors):
        self.d = []
        for w, e in zip(eigenvalues, eigenvectors):
            n = len(w)
            if n != 3 * len(self.p.masses):
                raise HarnessError("number of modes")
            self.d.append([[sum((w[k] * e[a, k] * e[b, k] for k in range(n)), self.ctx.num(0.0)) for b in range(n)] for a in range(n)])

    def run(self, **k):
        n, m = 4, self.s.masses
        L = len(self.commensurate_points)
        fc = self.ctx.const(np.zeros((n, n, 3, 3)))
        for i, j in np.ndindex(n, n):
            for a, b in np.ndindex(3, 3):
                s = self.ctx.num(0.0)
                for q, d in zip(self.commensurate_points, self.d):
                    ph = round(float(np.cos(2 * np.pi * np.dot(q[:2], self.R[j % L] - self.R[i % L]))))
                    s = s + d[3 * (i // L) + a][3 * (j // L) + b] * ph
                fc[i, j, a, b] = s * ctx_num(self.ctx, (m[i] * m[j]) ** 0.5 / L)
        self.force_constants = fc


def ctx_num(ctx, x):
    return ctx.num(float(x))


def mesh(free, cutoff=None, nat=1, fixed=False):
    """correlations from phonons at commensurate points = those of the supercell"""

    def h(ctx):
        import phono3py.sscha.sscha as mod

        m = MASS[4] if nat == 1 else [4.0, 4.0, 9.0, 9.0]
        L = 4 // nat
        c = 1e-5 if cutoff is None else cutoff
        fr = modes(ctx, 12, free, c)
        if fixed:
            for k in range(12):
                if k not in free:
                    fr[k] = ctx.num(0.25 if k % 2 else -3.0)
        fr = fr.reshape(L, 3 * nat)
        T = ctx.real("T", lo=30, hi=3000)
        if fixed:
            v = ctx.const(np.random.RandomState(3).randint(1, 8, size=(L, 3 * nat, 3 * nat)) / 8.0)
        else:
            v = ctx.reals("v", (L, 3 * nat, 3 * nat), lo=-1, hi=1)
        D2F.ctx = ctx
        old = mod.DynmatToForceConstants
        mod.DynmatToForceConstants = D2F
        try:
            d = mod.DispCorrMatrixMesh(Cell(m[::L]), Cell(m), **({} if cutoff is None else dict(cutoff_frequency=cutoff)))
            ctx.check(len(d.commensurate_points) == L, "commensurate points")
            d.run(fr, v, T)
        finally:
            mod.DynmatToForceConstants = old
        # the same modes as those of the supercell
        w = ctx.const(np.zeros((12, 12)))
        for q in range(L):
            for k in range(3 * nat):
                for i in range(4):
                    ph = round(float(np.cos(2 * np.pi * np.dot(D2F.POINTS[q][:2], D2F.R[i % L]))))
                    for a in range(3):
                        w[3 * i + a, 3 * nat * q + k] = v[q, 3 * (i // L) + a, k] * (ph / L**0.5)
        e = mod.DispCorrMatrix(types.SimpleNamespace(frequencies=fr.reshape(12), eigenvectors=w, supercell=Cell(m)), cutoff_frequency=c)
        e.run(T)
        ctx.check(np.shape(d.psi_matrix) == (12, 12) and np.shape(d.upsilon_matrix) == (12, 12), "shape")
        for i, j in np.ndindex(12, 12):
            ctx.equal(d.psi_matrix[i, j], e.psi_matrix[i, j], "displacement correlation", rtol=1e-8)
            ctx.equal(d.upsilon_matrix[i, j], e.upsilon_matrix[i, j], "inverse of the displacement correlation", rtol=1e-8, scale=1e4)
        ctx.reach("mesh")

    return h


def samples(n, k=0):
    """displacements that determine all coordinates; multiples of 1/64"""
    r = np.random.RandomState(11 + k)
    u = r.randint(-24, 25, size=(3 * n + 4, n, 3)) / 64.0
    return u


def inverse(a):
    """exact inverse of a matrix of fractions"""
    n = len(a)
    m = [[Fraction(float(x)) for x in r] + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(a)]
    for c in range(n):
        p = next(r for r in range(c, n) if m[r][c] != 0)
        m[c], m[p] = m[p], m[c]
        m[c] = [x / m[c][c] for x in m[c]]
        for r in range(n):
            if r != c and m[r][c] != 0:
                m[r] = [x - m[r][c] * y for x, y in zip(m[r], m[c])]
    return np.array([[float(x) for x in r[n:]] for r in m])


def sc(ctx, fc, n):
    return types.SimpleNamespace(force_constants=np.transpose(fc, (0, 2, 1, 3)).reshape(3 * n, 3 * n) if ctx.symbolic else np.array(np.transpose(fc, (0, 2, 1, 3)).reshape(3 * n, 3 * n)), supercell=Cell(MASS[n]), frequencies=None, eigenvectors=None)


def second(n, harmonic):
    def h(ctx):
        import phono3py.sscha.sscha as mod

        u = samples(n)
        N = len(u)
        fc = symmetric(ctx, n)
        F = ctx.const(np.zeros(u.shape)) if harmonic else ctx.reals("F", u.shape, lo=-10, hi=10)
        if harmonic:
            for s, i, a in np.ndindex(*u.shape):
                x = ctx.num(0.0)
                for j, b in np.ndindex(n, 3):
                    x = x - fc[i, j, a, b] * ctx.num(u[s, j, b])
                F[s, i, a] = x
        o = mod.SecondOrderFC(ctx.const(u), F.copy(), sc(ctx, fc, n))
        o.run(T=300.0)
        ctx.check(np.shape(o.fc2) == (n, n, 3, 3), "shape")
        if harmonic:
            ctx.equal(o.fc2, fc, "harmonic forces give back the force constants", rtol=1e-8, scale=100)
        else:
            U = u.reshape(N, -1)
            for j, b in np.ndindex(n, 3):
                for p in range(3 * n):
                    x = y = ctx.num(0.0)
                    for q in range(3 * n):
                        x = x + ctx.num(float((U.T @ U)[p, q])) * o.fc2[q // 3, j, q % 3, b]
                    for s in range(N):
                        y = y - ctx.num(U[s, p]) * F[s, j, b]
                    ctx.equal(x, y, "least squares", rtol=1e-8, scale=100)
        ctx.reach("second")

    return h


def third(n):
    """formula of the third-order force constants for arbitrary forces"""

    def h(ctx):
        import phono3py.sscha.sscha as mod

        u = samples(n)
        N = len(u)
        U = u.reshape(N, -1)
        fc = symmetric(ctx, n)
        F = ctx.reals("F", u.shape, lo=-10, hi=10)
        o = mod.ThirdOrderFC(ctx.const(u), F.copy(), sc(ctx, fc, n))
        o.run(T=300.0)
        ctx.check(np.shape(o.fc3) == (n,) * 3 + (3,) * 3, "shape")
        ui = U @ inverse(U.T @ U) * N
        g = ctx.const(np.zeros((N, 3 * n)))
        for s in range(N):
            for i, a in np.ndindex(n, 3):
                x = F[s, i, a]
                for t in range(N):
                    x = x - F[t, i, a] / N
                for j, b in np.ndindex(n, 3):
                    x = x + ctx.num(u[s, j, b]) * fc[j, i, b, a]
                g[s, 3 * i + a] = x
        ctx.equal(o.ff, g, "forces beyond the harmonic ones", scale=10)
        for i, j, k in np.ndindex(3 * n, 3 * n, 3 * n):
            x = ctx.num(0.0)
            for s in range(N):
                x = x - ctx.num(ui[s, i] * ui[s, j] / N) * g[s, k]
            ctx.equal(o.fc3[i // 3, j // 3, k // 3, i % 3, j % 3, k % 3], x, "third-order force constants", rtol=1e-8, scale=1e4)
        ctx.reach("third")

    return h


def cubic(single):
    """displacements distributed as in a Gaussian up to fourth moments: the cubic
    constants of the potential come out"""

    def h(ctx):
        import phono3py.sscha.sscha as mod

        g = 3**0.5 * 0.125
        u = np.array(list(itertools.product((g, -g, 0, 0, 0, 0), repeat=3))).reshape(-1, 1, 3)
        N = len(u)
        fc = symmetric(ctx, 1)
        P = {}
        for q in itertools.combinations_with_replacement(range(3), 3):
            v = ctx.real("P%d%d%d" % q, lo=-50, hi=50) if not single or q == single else ctx.num(0.0)
            for r in itertools.permutations(q):
                P[r] = v
        F = ctx.const(np.zeros(u.shape))
        for s in range(N):
            x = u[s, 0]
            for a in range(3):
                f = ctx.num(0.0)
                for b in range(3):
                    f = f - fc[0, 0, a, b] * ctx.num(x[b])
                    for c in range(3):
                        if x[b] * x[c] != 0:
                            f = f - P[a, b, c] * ctx.num(x[b] * x[c] / 2)
                F[s, 0, a] = f
        o = mod.ThirdOrderFC(ctx.const(u), F, sc(ctx, fc, 1))
        o.run()
        for q in np.ndindex(3, 3, 3):
            ctx.equal(o.fc3[(0, 0, 0) + q], P[q], "cubic constants of the potential", rtol=1e-8, scale=1e4)
        ctx.reach("cubic")

    return h


PH, CO, FU, ME, SE, TH, CU = ([x] for x in ("phonon", "corr", "func", "mesh", "second", "third", "cubic"))
PROPS = {
    "R01": Prop(
        "R01",
        [
            Slice("phonon-1", phonon(1), bounds="1 atom", reach=PH),
            Slice("phonon-2", phonon(2), bounds="2 atoms of different masses", reach=PH),
            Slice("bose", bose(), bounds="all frequencies and temperatures", reach=FU),
            Slice("corr-1", corr(1, (0, 1, 2)), bounds="1 atom, all frequencies symbolic", reach=CO),
            Slice("corr-2", corr(2, (0, 3)), bounds="2 atoms, 2 of 6 frequencies symbolic", reach=CO),
            Slice("corr-cutoff", corr(2, (0, 5), 1.0), bounds="cutoff frequency", reach=CO),
            Slice("corr-api", corr(1, (0, 2), 0.5, True), bounds="get_sscha_matrices", reach=CO),
            Slice("mesh", mesh((0, 4)), bounds="4 commensurate points, 2 of 12 frequencies symbolic", reach=ME),
            Slice("mesh-soft", mesh((2,), 1.0, 2, True), bounds="one mode with a symbolic frequency, others soft or imaginary; one set of eigenvectors", reach=ME),
            Slice("mesh-masses", mesh((2, 7), 1.0, 2), bounds="2 commensurate points, 2 atoms of different masses", reach=ME),
            Slice("mesh-cutoff", mesh((1, 11), 1.0), bounds="cutoff frequency", reach=ME),
            Slice("second-harmonic", second(2, True), bounds="2 atoms, 10 samples", reach=SE),
            Slice("second-any", second(2, False), bounds="2 atoms, 10 samples", reach=SE),
            Slice("third-1", third(1), bounds="1 atom, 7 samples", reach=TH),
            Slice("third-2", third(2), bounds="2 atoms, 10 samples", reach=TH),
            Slice("cubic", cubic(None), bounds="216 samples with the moments of a Gaussian", reach=CU),
        ],
        modules=["phono3py.sscha.sscha", "phono3py.phonon.func"],
    ),
}
