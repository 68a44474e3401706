"""Velocity operators and group-velocity matrices."""
import numpy as np
from engine.expr import Cx
from .common import *
from .lattice import *
from .c_kubo import parts


def unitary(k):
    """orthonormal columns with entries that are exact"""
    H = np.array([[1, 1, 1, 1], [1, 1j, -1, -1j], [1, -1, 1, -1], [1, -1j, -1, 1j]]) / 2
    R = np.array([[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]]) / 2
    ph = np.array([1, 1j, -1, -1j])
    U = (H if k % 2 else R)[np.roll(np.arange(4), k // 2)]
    return U * ph[(np.arange(4) * (k % 3) + k) % 4]


def dag(a):
    return np.conj(np.transpose(a)) if not (isinstance(a, np.ndarray) and a.dtype == object) else np.vectorize(lambda z: z.conjugate() if hasattr(z, "conjugate") else z, otypes=[object])(a.T)


def mm(ctx, *ms):
    """product of small complex matrices entry by entry"""
    r = ms[0]
    for b in ms[1:]:
        n, k, m = len(r), len(b), len(b[0])
        r = [[sumc([mul(r[i][x], b[x][j]) for x in range(k)]) for j in range(m)] for i in range(n)]
    return r


def mul(x, y):
    a, b = x
    c, d = y
    return (a * c - b * d, a * d + b * c)


def sumc(v):
    return (sum(x[0] for x in v), sum(x[1] for x in v))


def cmat(U):
    return [[(float(z.real), float(z.imag)) for z in r] for r in np.asarray(U)]


def cdag(M):
    return [[(M[j][i][0], -M[j][i][1]) for j in range(len(M))] for i in range(len(M[0]))]


def put(ctx, M):
    """as an array of the code under test"""
    o = ctx.const(np.zeros((len(M), len(M[0])), dtype="complex128"))
    for i, r in enumerate(M):
        for j, z in enumerate(r):
            o[i, j] = Cx(z[0], z[1]) if ctx.symbolic else complex(z[0], z[1])
    return o


def same(ctx, a, b):
    """same numbers"""
    for x, y in zip(np.asarray(a).ravel(), np.asarray(b).ravel()):
        p, q = parts(x), parts(y)
        for u, v in zip(p, q):
            if u is v:
                continue
            if hasattr(u, "op") or hasattr(v, "op"):
                if repr(u) != repr(v):
                    return False
            elif float(u) != float(v):
                return False
    return True


class Dyn:
    """dynamical matrices of named points with known eigenvectors"""

    def __init__(self, ctx, cell, nac):
        self.ctx, self.primitive, self.nac = ctx, Mock(cell=ctx.const(np.array(cell))), nac
        self.points, self.seen = [], []
        self.nac_method = "gonze" if nac else None

    def is_nac(self):
        return self.nac

    def add(self, q, lam, U):
        u = cmat(U)
        D = mm(self.ctx, u, [[(lam[i] if i == j else 0, 0) for j in range(len(lam))] for i in range(len(lam))], cdag(u))
        self.points.append((np.array(q, dtype=float), lam, U, put(self.ctx, D), D))

    def run(self, q, q_direction=None):
        q = np.array([float(x) for x in q])
        d = [x for x in self.points if np.abs(x[0] - q).max() < 1e-7]
        self.ctx.check(len(d) == 1, "dynamical matrix asked for at the point and its displaced points only", str(q))
        self.seen.append((q, None if q_direction is None else np.array([float(x) for x in q_direction])))
        self.now = d[0]

    @property
    def dynamical_matrix(self):
        return self.now[3].copy()

    def eigh(self, a, *k, **kw):
        for q, lam, U, D, _ in self.points:
            if np.shape(a) == D.shape and same(self.ctx, a, D):
                w = self.ctx.const(np.zeros(len(lam)))
                for i, x in enumerate(lam):
                    w[i] = x
                return w, self.ctx.const(np.array(U))
        raise HarnessError("eigh of an unexpected matrix")


CELL = [[2.0, 0.5, 0.0], [0.0, 1.0, 0.25], [0.5, 0.0, 4.0]]
L_ = 0.125


class Shim:
    """numpy of a module with its own eigh"""

    def __init__(self, ctx, np_, eigh):
        self._np, self._ctx = np_, ctx
        outer = np_.linalg

        class La:
            def __getattr__(s, n):
                return getattr(outer, n)

            def eigh(s, *a, **k):
                return eigh(*a, **k)

        self.linalg = La()

    def sign(self, a):
        """one path per sign"""
        if not self._ctx.symbolic:
            return self._np.sign(a)
        o = self._ctx.const(np.zeros(np.shape(a)))
        for ix in np.ndindex(*np.shape(a)):
            v = a[ix]
            o[ix] = self._np.sign(v) if not hasattr(v, "op") else 1 if self._ctx.branch(v > 0) else -1 if self._ctx.branch(v < 0) else 0
        return o

    def __getattr__(self, n):
        return getattr(self._np, n)


def operator(qs, nac=False, pert=None, cell=CELL):
    """matrix elements of the derivative of the square root of the dynamical
    matrix between the modes of the point"""

    def h(ctx):
        import phono3py.phonon.velocity_operator as mod

        dyn = Dyn(ctx, cell, nac)
        keep = getattr(mod, "np")
        mod.np = Shim(ctx, keep, dyn.eigh)
        mod.print = lambda *a, **k: None
        try:
            nb = 4
            ref = {}
            dirs = [np.eye(3)[i] for i in range(3)]
            p0 = np.array([1.0, 0, 0]) if pert is None else np.linalg.solve(np.array(cell), np.array(pert, dtype=float))
            p0 = p0 / np.linalg.norm(p0)
            for n, q in enumerate(qs):
                q = np.array(q, dtype=float)
                lam0 = [ctx.const(0.25 * (b + 1)) for b in range(nb)]
                dyn.add(q, lam0, unitary(n))
                done = [(q, None)]
                for d in range(4):
                    dq = np.array(cell) @ ((dirs[d - 1] if d else p0) * L_)
                    if d == 0 and any(np.abs(np.array(cell) @ (x * L_) - dq).max() < 1e-9 for x in dirs):
                        continue
                    for s in (-1, 1):
                        k = 2 * d + (s > 0)
                        lam = [ctx.real("l%d_%d_%d" % (n, k, b), lo=0.01, hi=100) if (b + k) % 2 or b == 3 else ctx.const(0.25 * (k + b + 1) ** 2) for b in range(nb)]
                        U = unitary(3 * n + k + 1)
                        dyn.add(q + s * dq, lam, U)
                        if d:
                            ref[n, d - 1, s] = (lam, U)
            vo = mod.VelocityOperator(dyn, q_length=L_, frequency_factor_to_THz=ctx.num(2.5), cutoff_frequency=ctx.num(1e-4))
            vo.run([ctx.const(np.array(q, dtype=float)) for q in qs], perturbation=None if pert is None else np.array(pert, dtype=float))
            ctx.reach("operator")
            out = vo.velocity_operators
            ctx.check(np.shape(out) == (len(qs), nb, nb, 3), "shape")
            for n, q in enumerate(qs):
                U0 = cmat(unitary(n))
                for a in range(3):
                    gamma = np.linalg.norm(q) < np.linalg.norm(np.array(cell) @ (dirs[a] * L_))
                    S = {}
                    for s in (-1, 1):
                        lam, U = ref[n, a, s]
                        u = cmat(U)
                        w = [0 if gamma and b < 3 else ctx.fn("sqrt", lam[b]) for b in range(nb)]
                        S[s] = mm(ctx, u, [[(w[i] if i == j else 0, 0) for j in range(nb)] for i in range(nb)], cdag(u))
                    dS = [[tuple((S[1][i][j][x] - S[-1][i][j][x]) / (2 * L_) for x in range(2)) for j in range(nb)] for i in range(nb)]
                    e = mm(ctx, cdag(U0), dS, U0)
                    for i in range(nb):
                        for j in range(nb):
                            re, im = parts(out[n, i, j, a])
                            ctx.equal(re, e[i][j][0] * ctx.num(2.5), "velocity operator", scale=10)
                            ctx.equal(im, e[i][j][1] * ctx.num(2.5), "velocity operator", scale=10)
            if nac:
                for q, d in dyn.seen:
                    at = [x for x in qs if np.abs(np.array(x) - q).max() < 1e-9]
                    near = np.linalg.norm(q) < 2 * max(np.linalg.norm(np.array(cell) @ (x * L_)) for x in dirs + [p0]) and not at
                    if at:
                        continue
                    base = min(qs, key=lambda x: np.linalg.norm(np.array(x) - q))
                    if np.linalg.norm(base) < 1e-9:
                        ctx.check(d is not None and np.abs(d - q / np.linalg.norm(q)).max() < 1e-9, "direction of the displacement at Gamma")
                    else:
                        ctx.check(d is None, "no direction away from Gamma")
        finally:
            mod.np = keep

    return h


def matrix(qs, deg=False, pert=None, sym=None, cell=CELL, cut=None):
    """derivative of the dynamical matrix between modes over 2 sqrt(w w')"""

    def h(ctx):
        import phono3py.phonon.group_velocity_matrix as mod
        import phonopy.phonon.group_velocity as base

        nb = 4
        C = np.array(cell)
        pts, mats = [], {}
        fac = 1.5

        class D2:
            primitive = Mock(cell=ctx.const(C))

            def run(s, q, q_direction=None):
                q = np.array([float(x) for x in q])
                d = [i for i, x in enumerate(pts) if np.abs(x - q).max() < 1e-7]
                ctx.check(len(d) == 1, "dynamical matrix asked for at the point and its displaced points only", str(q))
                s.now = d[0]

            @property
            def dynamical_matrix(s):
                return mats[s.now].copy()

        rot2 = unitary(3)[:2, :2] * np.sqrt(2) if False else np.array([[0, 1j], [1, 0]])
        lam = {}
        p0 = np.array([1.0, 2, 3]) if pert is None else np.linalg.solve(C, np.array(pert, dtype=float))
        p0 = p0 / np.linalg.norm(p0)
        dirs = [p0] + [np.eye(3)[i] for i in range(3)]
        D = {}
        for n, q in enumerate(qs):
            q = np.array(q, dtype=float)
            l = [ctx.real("l%d_%d" % (n, b), lo=0.5 + b * 20, hi=10 + b * 20) for b in range(nb)]
            if deg:
                l[2] = l[1]
            if cut is not None:
                l[0] = ctx.real("low%d" % n, lo=-4, hi=10)
            lam[n] = l
            U = cmat(unitary(n + 1))
            M = mm(ctx, U, [[(l[i] if i == j else 0, 0) for j in range(nb)] for i in range(nb)], cdag(U))
            pts.append(q)
            mats[len(pts) - 1] = put(ctx, M)
            for d in range(4):
                for s in (-1, 1):
                    x = q + s * (C @ (dirs[d] * L_))
                    Z = [[None] * nb for _ in range(nb)]
                    for i in range(nb):
                        for j in range(i, nb):
                            r = ctx.real("D%d_%d_%d_%d_%d" % (n, d, s, i, j), lo=-50, hi=50) if (i + j + d) % 3 == 0 else ctx.const(0.25 * ((i * 5 + j * 3 + d + s) % 7))
                            m = ctx.real("E%d_%d_%d_%d_%d" % (n, d, s, i, j), lo=-50, hi=50) if i != j and (i + j + d) % 3 == 1 else ctx.const(0.0 if i == j else 0.125 * ((i + 2 * j + d + s) % 5))
                            Z[i][j] = (r, m)
                            Z[j][i] = (r, -m)
                    pts.append(x)
                    mats[len(pts) - 1] = put(ctx, Z)
                    D[n, d, s] = Z

        small = []

        def eigh(a, *k, **kw):
            a = np.asarray(a)
            if len(a) == nb:
                for n in range(len(qs)):
                    i = 9 * n
                    if same(ctx, a, mats[i]):
                        w = ctx.const(np.zeros(nb))
                        for b in range(nb):
                            w[b] = lam[n][b]
                        return w, ctx.const(unitary(n + 1))
                raise HarnessError("eigh of an unexpected matrix")
            small.append(a)
            if len(a) == 1:
                w = ctx.const(np.zeros(1))
                return w, ctx.const(np.array([[1.0 + 0j]]))
            return ctx.const(np.zeros(len(a))), ctx.const(rot2)

        keep = mod.np
        mod.np = Shim(ctx, keep, eigh)
        try:
            S = None
            if sym is not None:
                S = Mock(reciprocal_operations=np.array(sym), tolerance=1e-5)
            gm = mod.GroupVelocityMatrix(D2(), q_length=L_, symmetry=S, frequency_factor_to_THz=ctx.num(fac), cutoff_frequency=ctx.num(1e-4 if cut is None else cut))
            gm.run([ctx.const(np.array(q, dtype=float)) for q in qs], perturbation=None if pert is None else np.array(pert, dtype=float))
            ctx.reach("matrix")
            out = gm.group_velocity_matrices
            ctx.check(np.shape(out) == (len(qs), 3, nb, nb), "shape")
            rec = np.linalg.inv(C)
            for n, q in enumerate(qs):
                q = np.array(q, dtype=float)
                U = unitary(n + 1).copy()
                if deg:
                    U[:, 1:3] = U[:, 1:3] @ rot2
                u = cmat(U)
                f = []
                for b in range(nb):
                    l = lam[n][b]
                    lo = ctx.num(1e-4 if cut is None else cut)
                    d = ctx.num(1e-9)
                    if cut is None or b:
                        f.append(ctx.fn("sqrt", l) * ctx.num(fac))
                        continue
                    if not ctx.branch(l > 0):
                        f.append(None)
                        continue
                    w = ctx.fn("sqrt", l) * ctx.num(fac)
                    ctx.assume(ctx.Or(w > lo + d, w < lo - d))
                    f.append(w if ctx.branch(w > lo) else None)
                V = {}
                for a in range(3):
                    dD = [[tuple((D[n, a + 1, 1][i][j][x] - D[n, a + 1, -1][i][j][x]) / (2 * L_) for x in range(2)) for j in range(nb)] for i in range(nb)]
                    e = mm(ctx, cdag(u), dD, u)
                    for i in range(nb):
                        for j in range(nb):
                            if f[i] is None or f[j] is None:
                                V[a, i, j] = (0, 0)
                            else:
                                den = ctx.fn("sqrt", 2 * f[i]) * ctx.fn("sqrt", 2 * f[j])
                                V[a, i, j] = tuple(z * ctx.num(fac * fac) / den for z in e[i][j])
                if sym is not None and pert is None:
                    qq = q - np.rint(q)
                    rs = [rec @ np.array(r) @ np.linalg.inv(rec) for r in sym if np.abs(np.array(r) @ qq - qq).max() < 1e-5]
                    W = {}
                    for a in range(3):
                        for i in range(nb):
                            for j in range(nb):
                                t = [0, 0]
                                for r in rs:
                                    for b in range(3):
                                        c = float(round(r[a, b], 12))
                                        if c:
                                            for x in range(2):
                                                t[x] = t[x] + V[b, i, j][x] * c
                                W[a, i, j] = tuple(z / len(rs) for z in t)
                    V = W
                for a in range(3):
                    for i in range(nb):
                        for j in range(nb):
                            re, im = parts(out[n, a, i, j])
                            ctx.equal(re, V[a, i, j][0], "group-velocity matrix", scale=10)
                            ctx.equal(im, V[a, i, j][1], "group-velocity matrix", scale=10)
            if deg:
                # the perturbation is diagonalized within the degenerate modes
                for n in range(len(qs)):
                    u = cmat(unitary(n + 1)[:, 1:3])
                    dD = [[tuple((D[n, 0, 1][i][j][x] - D[n, 0, -1][i][j][x]) / (2 * L_) for x in range(2)) for j in range(nb)] for i in range(nb)]
                    e = mm(ctx, cdag(u), dD, u)
                    a = [x for x in small if len(x) == 2][n]
                    for i in range(2):
                        for j in range(2):
                            re, im = parts(a[i, j])
                            ctx.equal(re, e[i][j][0], "derivative within the degenerate modes", scale=10)
                            ctx.equal(im, e[i][j][1], "derivative within the degenerate modes", scale=10)
        finally:
            mod.np = keep

    return h


RO, RM = ("operator",), ("matrix",)
C2 = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[-1, 0, 0], [0, -1, 0], [0, 0, 1]], [[0, 1, 0], [1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, -1]]]
SQ = np.diag([2.0, 2.0, 4.0])
PROPS = {
    "V01": Prop(
        "V01",
        [
            Slice("operator", operator([[2.5, 0.25, 1.0], [1.0, 1.5, -0.5]]), bounds="2 points, 4 modes, arbitrary frequencies at displaced points", reach=RO),
            Slice("operator-gamma", operator([[0, 0, 0]]), bounds="Gamma", reach=RO),
            Slice("operator-gamma-nac", operator([[0, 0, 0], [3.0, 3.0, 3.0]], nac=True), bounds="Gamma with dipole-dipole interaction", reach=RO),
            Slice("operator-direction", operator([[2.0, 2.0, 2.0]], pert=(0, 1, 1)), bounds="direction given", reach=RO),
            Slice("matrix", matrix([[0.25, 0.5, 1.0], [0, 0, 0]]), bounds="2 points, 4 modes, arbitrary derivatives", reach=RM),
            Slice("matrix-degenerate", matrix([[0.25, 0.5, 1.0]], deg=True), bounds="two degenerate modes", reach=RM),
            Slice("matrix-cutoff", matrix([[0.25, 0.5, 1.0]], cut=0.5), bounds="one frequency arbitrary, incl. imaginary", reach=RM),
            Slice("matrix-direction", matrix([[0.25, 0.5, 1.0]], deg=True, pert=(1, 0, 1), sym=C2, cell=SQ), bounds="direction given", reach=RM),
            Slice("matrix-symmetry", matrix([[0.25, 0.25, 0.0], [0.0, 0.0, 0.25], [1.5, 0.25, 0.25], [1.0, -1.0, 0.25]], sym=C2, cell=SQ), bounds="averaged over the rotations that fix the point", reach=RM),
        ],
        modules=["phono3py.phonon.velocity_operator", "phono3py.phonon.group_velocity_matrix"],
        patch=("phonopy.phonon.degeneracy", "phonopy.phonon.group_velocity", "phonopy.utils"),
        assumptions=["eigensolver returns the eigenvectors of the harness (arbitrary eigenvalues, fixed exact unitary matrices)"],
    ),
}
