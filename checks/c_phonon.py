"""Phonons on the grid: dynamical matrices handed to the eigensolver, the
non-analytical term, the bookkeeping of solved points and the rotation of
eigenvectors."""
import numpy as np

from engine.expr import Cx
from engine.pyshim import concrete
from .common import *
from .lattice import bzgrid
from .c_fc3 import cell, combo, ops_of
from .c_interaction import cx, re, im, cis


class Eig:
    """module-like numpy whose eigh is a recorder with arbitrary results"""

    def __init__(self, ctx, np_, log):
        self._np, self._ctx, self._log = np_, ctx, log
        self.linalg = self
        self.want = None

    def __getattr__(self, n):
        if n in ("norm", "inv", "det"):
            return getattr(self._np.linalg, n)
        return getattr(self._np, n)

    def eigh(self, m, UPLO="L"):
        k = len(self._log)
        self._log.append((m.copy(), UPLO))
        n = len(m)
        if self.want is not None and k not in self.want:
            return self._ctx.const(np.ones(n)), self._ctx.const(np.eye(n, dtype="c16"))
        w = self._ctx.reals("eig%d" % k, (n,))
        free = self.want is None or k == min(self.want)
        for x in range(1 if free else 0, n):
            self._ctx.assume(w[x] > 0)
        v = self._ctx.complexes("vec%d" % k, (n, n))
        self._log[-1] += (w, v)
        return w, v


def stub_eigh(ctx, mod, full=False):
    base = getattr(mod, "_np0", None) or mod.np
    mod._np0 = base
    log = []
    mod.np = Eig(ctx, base, log)
    return (log, mod.np) if full else log


def rec_lattice(prim):
    return np.array(np.linalg.inv(np.array(prim.cell)), dtype="double", order="C")


class DM:
    """what the solver reads of phonopy's dynamical matrix"""

    def __init__(self, ctx, name, comp, nac, born_sym=True):
        sc, prim, _ = cell(name)
        self.primitive = prim
        n, p = len(sc), len(prim)
        self.force_constants = ctx.reals("fc", ((p if comp else n), n, 3, 3))
        self.nac = nac
        if nac:
            self.born = ctx.reals("Z", (p, 3, 3))
            self.dielectric_constant = ctx.const(np.array([[2.0, 0.3, 0.1], [0.3, 3.0, 0.2], [0.1, 0.2, 2.5]]))
            for i in range(3):
                self.dielectric_constant[i, i] = ctx.real("eps%d" % i, lo=2, hi=20)
            self.nac_factor = ctx.real("nacf", pos=True)
            self.nac_method = nac
            if nac == "gonze":
                rl = rec_lattice(prim)
                self.Gl = np.array([rl @ np.array(g) for g in ((0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, -1))])
                self.lam = 0.4
                self.q0 = ctx.complexes("dd0", (p, 3, 3))
                self.gfc = ctx.reals("gfc", self.force_constants.shape)
                raw = ctx.out((p * 9, 2), "double")
                for x in range(p * 9):
                    z = self.q0.ravel()[x]
                    raw[x, 0], raw[x, 1] = re(z), im(z)
                self.made = False
                self._data = [self.gfc, raw, 10.0, ctx.const(self.Gl), self.lam]

    def is_nac(self):
        return bool(self.nac)

    def make_Gonze_nac_dataset(self):
        self.made = True

    @property
    def Gonze_nac_dataset(self):
        return self._data if self.made else [None] * 5


def oracle(ctx, dm, comp, q, direction):
    """q: exact fractions; direction only used at q = 0"""
    prim = dm.primitive
    p2s, s2p = list(prim.p2s_map), list(prim.s2p_map)
    np_, n = len(p2s), len(s2p)
    svecs, multi = prim.get_smallest_vectors()
    rl = rec_lattice(prim)
    zero = all(x == 0 for x in q)
    cart = lambda v: [sum(ctx.num(float(rl[a, b])) * v[b] for b in range(3)) for a in range(3)]
    d = direction if zero else [ctx.num(float(x)) if not ctx.symbolic else x for x in q]
    nacterm = None
    fc = dm.force_constants
    if dm.nac and d is not None:
        qc = cart(d)
        den = sum(qc[a] * dm.dielectric_constant[a, b] * qc[b] for a in range(3) for b in range(3))
    if dm.nac == "wang" and d is not None:
        zq = [[sum(qc[a] * dm.born[i, a, b] for a in range(3)) for b in range(3)] for i in range(np_)]
        nacterm = lambda i, j, a, b: zq[i][a] * zq[j][b] * dm.nac_factor / den / (n // np_)
    if dm.nac == "gonze":
        fc = dm.gfc
    M = np.empty((np_, 3, np_, 3), dtype=object)
    for i in range(np_):
        for j in range(np_):
            for a in range(3):
                for b in range(3):
                    M[i, a, j, b] = cx(ctx, 0)
            for k in range(n):
                if s2p[k] != p2s[j]:
                    continue
                m, ad = int(multi[k, i, 0]), int(multi[k, i, 1])
                ph = cx(ctx, 0)
                for x in range(m):
                    t = 0
                    for y in range(3):
                        t = t + (q[y] if ctx.symbolic else float(q[y])) * float(svecs[ad + x, y])
                    t = float(t)
                    ph = ph + cx(ctx, ctx.num(np.cos(2 * np.pi * t) / m), ctx.num(np.sin(2 * np.pi * t) / m))
                row = i if comp else p2s[i]
                for a in range(3):
                    for b in range(3):
                        v = fc[row, k, a, b]
                        if nacterm:
                            v = v + nacterm(i, j, a, b)
                        M[i, a, j, b] = M[i, a, j, b] + ph * v
    if dm.nac == "gonze":
        pos = np.array(prim.positions)
        qg = cart([ctx.num(float(x)) if not ctx.symbolic else x for x in q])
        for i in range(np_):
            for j in range(np_):
                dd = [[cx(ctx, 0) for _ in range(3)] for _ in range(3)]
                for G in dm.Gl:
                    K = [ctx.num(float(G[a])) + qg[a] for a in range(3)]
                    Kf = G + rl @ np.array([float(x) for x in q])
                    if np.linalg.norm(Kf) < 1e-5:
                        if direction is None:
                            continue
                        K = cart(direction)
                        damp = 1
                    dn = sum(K[a] * dm.dielectric_constant[a, b] * K[b] for a in range(3) for b in range(3))
                    if np.linalg.norm(Kf) >= 1e-5:
                        damp = ctx.fn("exp", -dn / ctx.num(4 * dm.lam**2))
                    ph = 2 * np.pi * float(np.dot(pos[i] - pos[j], G))
                    for a in range(3):
                        for b in range(3):
                            dd[a][b] = dd[a][b] + cx(ctx, ctx.num(np.cos(ph)), ctx.num(np.sin(ph))) * (K[a] * K[b] / dn * damp)
                for a in range(3):
                    for b in range(3):
                        t = cx(ctx, 0)
                        for x in range(3):
                            for y in range(3):
                                t = t + dd[x][y] * (dm.born[i, x, a] * dm.born[j, y, b])
                        if i == j:
                            t = t - dm.q0[i, a, b]
                        M[i, a, j, b] = (M[i, a, j, b], t * dm.nac_factor)
    ms = prim.masses
    D = np.empty((np_ * 3, np_ * 3), dtype=object)
    split = dm.nac == "gonze"
    for i in range(np_):
        for j in range(np_):
            s = 1 / ctx.fn("sqrt", ctx.num(float(ms[i])) * ctx.num(float(ms[j])))
            for a in range(3):
                for b in range(3):
                    u, v = M[i, a, j, b], M[j, b, i, a]
                    x = (u[0], v[0]) if split else (u, v)
                    h = (x[0] + x[1].conjugate()) * s / 2
                    if split:
                        h = h + u[1] * s
                    D[3 * i + a, 3 * j + b] = h
    return D


def frac(bz, g):
    from fractions import Fraction as F
    from .c_interaction import fracq

    s = Mock(adr=bz.addresses, D=bz.D_diag, Q=bz.Q)
    return fracq(s, g)


def matrix(name, mesh, gps, comp=False, nac=None, direction=False, later=()):
    def h(ctx):
        import phono3py.phonon.solver as mod

        log, eig = stub_eigh(ctx, mod, full=True)
        dm = DM(ctx, name, comp, nac)
        prim = dm.primitive
        bz = bzgrid(list(mesh), lattice=np.array(prim.cell), rotations=np.eye(3, dtype="intc")[None])
        nb, ng = 3 * len(prim), len(bz.addresses)
        fr = ctx.const(np.zeros((ng, nb)))
        ev = ctx.const(np.zeros((ng, nb, nb), dtype="c16"))
        done = np.zeros(ng, dtype="byte")
        d = None
        if direction:
            d = ctx.reals("dir", (3,), lo=0.1, hi=2)
        fac = ctx.real("unit", pos=True)

        def run(pts):
            mod.run_phonon_solver_c(dm, fr, ev, done, I64(pts), bz.addresses, bz.QDinv, fac, nac_q_direction=d, lapack_zheev_uplo="U")

        asked = {}
        for pts in (list(gps),) + tuple(list(x) for x in later):
            start = len(log)
            undone = [g for g in range(ng) if not done[g]]
            eig.want = (eig.want or set()) | {start + undone.index(g) for g in pts if g not in asked}
            run(pts)
            ctx.reach("solved")
            for g in pts:
                if g in asked:
                    continue
                k = start + undone.index(g)
                asked[g] = k
                ctx.check(log[k][1] == "U", "triangle passed to the eigensolver")
                D = oracle(ctx, dm, comp, frac(bz, g), list(d) if d is not None else None)
                for x in range(nb):
                    for y in range(nb):
                        ctx.equal(re(log[k][0][x, y]), re(D[x, y]), "dynamical matrix (real part)", scale=10)
                        ctx.equal(im(log[k][0][x, y]), im(D[x, y]), "dynamical matrix (imaginary part)", scale=10)
            for g, k in asked.items():
                ctx.check(bool(done[g]), "requested points are solved")
                w, v = log[k][2], log[k][3]
                for b in range(nb):
                    r = ctx.fn("sqrt", abs(w[b])) * fac
                    if ctx.branch(w[b] < 0):
                        r = -r
                    elif not ctx.branch(w[b] > 0):
                        r = 0
                    ctx.equal(fr[g, b], r, "signed square root of the eigenvalues")
                for x in range(nb):
                    for y in range(nb):
                        ctx.equal(re(ev[g, x, y]), re(v[x, y]), "eigenvectors kept")
                        ctx.equal(im(ev[g, x, y]), im(v[x, y]), "eigenvectors kept")
            ctx.check([bool(done[g]) for g in range(ng)] == [g in asked for g in range(ng)], "only requested points are marked as solved")

    return h


def python_path(ctx):
    import phono3py.phonon.solver as mod

    log = stub_eigh(ctx, mod)
    sc, prim, _ = cell("cscl1")
    bz = bzgrid([2, 3, 1], lattice=np.array(prim.cell), rotations=np.eye(3, dtype="intc")[None])
    nb, ng = 6, len(bz.addresses)
    fr = ctx.const(np.zeros((ng, nb)))
    ev = ctx.const(np.zeros((ng, nb, nb), dtype="c16"))
    done = np.zeros(ng, dtype="byte")
    qs, mats = [], []

    class D:
        def run(self, q):
            qs.append(q)
            mats.append(ctx.complexes("m%d" % len(mats), (nb, nb)))
            self.dynamical_matrix = mats[-1]

    dm = D()
    fac = ctx.real("unit", pos=True)
    for g in (4, 1, 4):
        mod.run_phonon_solver_py(g, done, fr, ev, bz.addresses, bz.QDinv, dm, fac, "L")
    ctx.reach("solved")
    ctx.check(len(qs) == 2, "solved once")
    for k, g in enumerate((4, 1)):
        q = frac(bz, g)
        ctx.check(bool(np.allclose(qs[k], [float(x) for x in q], atol=1e-12)), "wave vector of the grid point")
        m, u, w, v = log[k]
        for x in np.ndindex(nb, nb):
            ctx.equal(re(m[x]), re(mats[k][x]), "matrix")
        for b in range(nb):
            r = ctx.fn("sqrt", abs(w[b])) * fac
            if ctx.branch(w[b] < 0):
                r = -r
            elif not ctx.branch(w[b] > 0):
                r = 0
            ctx.equal(fr[g, b], r, "signed square root of the eigenvalues")
            for x in range(nb):
                ctx.equal(re(ev[g, x, b]), re(v[x, b]), "eigenvectors kept")



class Source:
    """stand-in of the eigensolver: arbitrary phonons by grid point, direction
    (at Gamma only) and dynamical matrix"""

    def __init__(self, ctx, bz, nb):
        self.ctx, self.bz, self.nb = ctx, bz, nb
        self.tab, self.version, self.dm = {}, 0, None

    def value(self, g, d=None, v=None):
        k = (int(g), d, self.version if v is None else v)
        if k not in self.tab:
            nm = "F%d_%s_%d" % (k[0], "n" if d is None else "%g" % d, k[2])
            self.tab[k] = self.ctx.real(nm, lo=0, hi=30), self.ctx.real(nm + "e", lo=-1, hi=1)
        return self.tab[k]

    def fill(self, g, fr, ev, val):
        fr[g, 0], ev[g, 0, 0] = val

    def solver(self, dm, fr, ev, done, gps, adr, qd, factor=None, nac_q_direction=None, lapack_zheev_uplo="L", **k):
        v = 0 if dm is None else dm
        for g in np.atleast_1d(gps):
            if done[g]:
                continue
            d = None
            if nac_q_direction is not None and (np.array(adr[g]) == 0).all():
                x = np.array(nac_q_direction, dtype=float)
                d = float(x[1] / x[0])
            self.fill(g, fr, ev, self.value(g, d, v))
            done[g] = 1


DIRS = {1: [1.0, 1.0, 0.0], 2: [2.0, 1.0, 0.0]}
OPS = ("gamma", "other", "no direction", "direction 1", "direction 2", "solve all", "solve one", "at gamma", "at gamma nac", "set data", "new matrix")


def history(length, which="pp", first=None, nosym=False):
    """any sequence of requests leaves the phonons it should"""

    def h(ctx):
        from .c_kappa import Prim

        bz = bzgrid([2, 1, 1], lattice="cubic", rotations=np.eye(3, dtype="intc")[None])
        ng, G = len(bz.addresses), int(bz.gp_Gamma)
        src = Source(ctx, bz, 3)
        version = [0]
        prim = Prim(cell=np.eye(3), natom=1)
        if which == "pp":
            import phono3py.phonon3.interaction as mod

            sv = ctx.const(np.zeros((1, 3)))
            prim.masses, prim.p2s_map, prim.s2p_map, prim.p2p_map = ctx.const(np.array([4.0])), np.array([0]), np.array([0]), {0: 0}
            prim.atomic_permutations, prim.scaled_positions = np.array([[0]]), ctx.const(np.zeros((1, 3)))
            prim.get_smallest_vectors = lambda: (sv, I64([[[1, 0]]]))
            mod.get_dynamical_matrix = lambda *a, **k: version[0]
            mod.run_phonon_solver_c = src.solver
            s = mod.Interaction(prim, bz, Mock(tolerance=1e-5), is_mesh_symmetry=not nosym)
            s.init_dynamical_matrix(None, None, None)
        else:
            import phono3py.phonon3.joint_dos as mod

            mod.get_dynamical_matrix = lambda *a, **k: version[0]
            mod.run_phonon_solver_c = src.solver
            s = mod.JointDos(prim, None, bz, None, is_mesh_symmetry=not nosym)
        get = lambda: (s._frequencies, s._eigenvectors, s._phonon_done)
        ops = [k for k in range(11) if which == "pp" or k < 9]
        d, loaded = None, False
        again = False  # Gamma solved over loaded phonons
        gam = ("F", 0)  # what Gamma holds once solved
        for n in range(length):
            if n == 0 and first is not None:
                op = first
            else:
                o = ctx.int("op%d" % n, 0, len(ops) - 1)
                op = ops[int(ctx.concretize(o))]
            v = version[0]
            nac = ("F", v) if d is None else ("N", d, v)
            free = ("F", "loaded") if loaded else ("F", v)
            if op == 0:
                s.set_grid_point(G)
                gam, again = nac, True
                ctx.check(which != "pp" or bool(get()[2][G]), "Gamma is solved when it is the grid point")
            elif op == 1:
                try:
                    s.set_grid_point(1 if ng > 1 else 0)
                except RuntimeError:
                    ctx.check(d is not None, "refused only with a direction")
                    ctx.reach("solved")
                    return
                if gam[0] == "N" or (again and d is None):
                    gam, again = free, False
                ctx.check(gam[0] == "F", "no direction in effect at another grid point")
            elif op in (2, 3, 4):
                s.nac_q_direction = None if op == 2 else DIRS[op - 2]
                d = None if op == 2 else DIRS[op - 2][1] / DIRS[op - 2][0]
            elif op == 5:
                s.run_phonon_solver()
                ctx.check(all(bool(x) for x in get()[2]), "every point solved")
            elif op == 6:
                s.run_phonon_solver(I64([1]))
                ctx.check(bool(get()[2][1]), "requested point solved")
            elif op == 7:
                s.run_phonon_solver_at_gamma()
                gam, again = free, False
                ctx.check(bool(get()[2][G]), "Gamma solved")
            elif op == 8:
                s.run_phonon_solver_at_gamma(is_nac=True)
                gam, again = nac, True
                ctx.check(bool(get()[2][G]), "Gamma solved")
            elif op == 9:
                fr, ev = ctx.const(np.zeros((ng, 3))), ctx.const(np.zeros((ng, 3, 3), dtype="c16"))
                for g in range(ng):
                    src.fill(g, fr, ev, src.value(g, None, 99))
                s.set_phonon_data(fr, ev, bz.addresses.copy())
                loaded, gam = True, ("F", "loaded")
            elif op == 10:
                version[0] += 1
                s.init_dynamical_matrix(None, None, None)
                loaded, gam = False, ("F", version[0])
            fr, ev, done = get()
            for g in range(ng):
                if not done[g]:
                    continue
                if g == G:
                    w = src.value(g, None if gam[0] == "F" else gam[1], 99 if gam[-1] == "loaded" else gam[-1])
                else:
                    w = src.value(g, None, 99 if loaded else version[0])
                ctx.equal(fr[g, 0], w[0], "phonons held for the grid point")
                ctx.equal(ev[g, 0, 0], w[1], "eigenvectors held for the grid point")
        ctx.reach("solved")

    return h


def jdos_api(gps, direction):
    def h(ctx):
        import phono3py.api_jointdos as api_
        import phono3py.phonon3.joint_dos as mod
        from .c_kappa import Prim

        bz = bzgrid([2, 1, 1], lattice="cubic", rotations=np.eye(3, dtype="intc")[None])
        src = Source(ctx, bz, 3)
        mod.get_dynamical_matrix = lambda *a, **k: 0
        mod.run_phonon_solver_c = src.solver
        api_.Symmetry = lambda *a, **k: Mock(dataset=Mock(rotations=np.eye(3, dtype=int)[None]))
        api_.BZGrid = lambda *a, **k: bz
        seen = []

        class J(mod.JointDos):
            def run_integration_weights(self):
                seen.append((self._grid_point, self._frequencies.copy()))

            def run_jdos(self):
                self._joint_dos = ctx.const(np.zeros((len(self._frequency_points), 2)))

        old = api_.JointDos
        api_.JointDos = J
        try:
            prim = Prim(cell=np.eye(3), natom=1)
            a = api_.Phono3pyJointDos(None, prim, None, mesh=[2, 1, 1], sigmas=[0.1], num_frequency_points=2, nac_q_direction=direction)
            src_max = ctx.const(30.0)
            for g in range(len(bz.addresses)):
                src.tab[(g, None, 0)] = (ctx.const(1.0 + g), ctx.const(0.5))
            a.run(list(gps))
        finally:
            api_.JointDos = old
        ctx.reach("solved")
        ctx.check([g for g, _ in seen] == list(gps), "each grid point once")
        for g, fr in seen:
            for q in range(len(bz.addresses)):
                d = None
                if q == bz.gp_Gamma and g == q and direction is not None:
                    d = float(direction[1] / direction[0])
                ctx.equal(fr[q, 0], src.value(q, d, 0)[0], "direction in effect only for Gamma as the grid point")

    return h


def forced(ctx):
    """acoustic modes at Gamma announced as forced to zero"""
    import phono3py.api_phono3py as api_
    import phono3py.phonon3.interaction as mod
    from .c_kappa import Prim

    bz = bzgrid([2, 1, 1], lattice="cubic", rotations=np.eye(3, dtype="intc")[None])
    G = int(bz.gp_Gamma)
    F = ctx.reals("F", (3,), lo=-1, hi=1)
    cut = ctx.num(0.1)
    for b in range(3):
        d = ctx.num(1e-9)
        ctx.assume(ctx.Or(F[b] < cut - d, F[b] > cut + d))

    def solver(dm, fr, ev, done, gps, *a, **k):
        for g in np.atleast_1d(gps):
            if not done[g]:
                done[g] = 1
                fr[g] = F if g == G else ctx.const(np.ones(3))

    mod.run_phonon_solver_c = solver
    mod.get_dynamical_matrix = lambda *a, **k: None
    prim = Prim(cell=np.eye(3), natom=1)
    sv = ctx.const(np.zeros((1, 3)))
    prim.masses, prim.p2s_map, prim.s2p_map, prim.p2p_map = ctx.const(np.array([4.0])), np.array([0]), np.array([0]), {0: 0}
    prim.atomic_permutations, prim.scaled_positions = np.array([[0]]), ctx.const(np.zeros((1, 3)))
    prim.get_smallest_vectors = lambda: (sv, I64([[[1, 0]]]))
    pp = mod.Interaction(prim, bz, Mock(tolerance=1e-5))
    said = []
    api_.print = lambda *a, **k: None
    w = Mock(_interaction=pp, _fc2=None, _phonon_supercell=None, _phonon_primitive=prim, _nac_params=None, _bz_grid=bz, _cutoff_frequency=ctx.const(0.1), get_phonon_data=lambda: pp.get_phonons())
    from engine.expr import E

    E.printing = []
    try:
        api_.Phono3py._init_dynamical_matrix(w)
    finally:
        E.printing = None
    fr = pp.get_phonons()[0]
    for later in (False, True):
        if later:
            pp.run_phonon_solver()
        for b in range(3):
            big = ctx.branch(F[b] > cut)
            ctx.equal(fr[G, b], 0 if big else F[b], "forced to zero" if not later else "forced to zero in later calculations")
    ctx.reach("solved")


def rotated(name, mesh, grg=False):
    """phonons copied by rotations solve the eigenproblem of their own point"""

    def h(ctx):
        import phono3py.phonon3.interaction as mod
        from engine import pyshim

        sc, prim, _ = cell(name)
        n, nb = len(sc), 3 * len(prim)
        if not getattr(mod.compute_all_sg_permutations, "__grounded__", False):
            mod.compute_all_sg_permutations = pyshim.grounded(mod.compute_all_sg_permutations)
        with concrete():
            from phonopy.structure.symmetry import Symmetry

            sym = Symmetry(prim, 1e-5)
        bz = bzgrid(mesh if grg else list(mesh), lattice=np.array(prim.cell), symmetry_dataset=sym.dataset, use_grg=grg, store_dense_gp_map=True)
        ng = len(bz.addresses)
        F = ctx.reals("F", (ng, nb), lo=0, hi=30)
        X = np.array([[((5 * x + 7 * b + x * b) % 11 - 4) / 8 + 1j * ((2 * x + 3 * b + x * x) % 7 - 3) / 8 + 2.0 * (x == b) for b in range(nb)] for x in range(nb)])
        solved = []

        def solver(dm, fr, ev, done, gps, *a, **k):
            for g in np.atleast_1d(gps):
                if not done[g]:
                    fr[g], done[g] = F[g], 1
                    ev[g] = X
                    solved.append(int(g))

        mod.run_phonon_solver_c = solver
        mod.get_dynamical_matrix = lambda *a, **k: None
        pp = mod.Interaction(prim, bz, Mock(tolerance=1e-5, dataset=sym.dataset))
        mod.print = lambda *a, **k: None
        pp.init_dynamical_matrix(None, None, None)
        del solved[:]
        pp.run_phonon_solver(solve_by_rotation=True)
        ctx.reach("solved")
        fr, ev, done = pp.get_phonons()
        ctx.check(all(bool(x) for x in done), "every point solved")
        ctx.check(len(set(solved)) == len(solved), "no point solved twice")
        dm = DM(ctx, name, False, None)
        dm.force_constants = combo(ctx, name, 2, most=6)
        num = DM.__new__(DM)
        num.__dict__.update(dm.__dict__)
        rng = np.array([0.3, -0.7, 0.55, 1.1, -0.2, 0.9])
        from .c_fc3 import basis

        bs = basis(name, 2)
        num.force_constants = sum((rng[i] if i < 6 else 0.25 + 0.125 * (i % 5)) * np.array(b, dtype=float) for i, b in enumerate(bs))

        D, Dn = {}, {}
        for g in range(ng):
            q = frac(bz, g)
            D[g] = oracle(ctx, dm, False, q, None)
            Dn[g] = np.array([[complex(re(z), im(z)) for z in row] for row in numeric(num, q)])
        for g in range(ng):
            src = [s for s in solved if fr[g, 0] is F[s, 0] or (not ctx.symbolic and fr[g, 0] == F[s, 0])]
            ctx.check(len(src) == 1, "frequencies of a solved point")
            s = src[0]
            for b in range(nb):
                ctx.equal(fr[g, b], F[s, b], "frequencies of the equivalent point")
            V = np.array([[complex(float(re(z)), float(im(z))) for z in row] for row in ev[g]])
            U = V @ np.linalg.inv(X)
            W = V @ np.linalg.inv(X.conj())
            lin = np.abs(Dn[g] @ U - U @ Dn[s]).max()
            anti = np.abs(Dn[g] @ W - W @ Dn[s].conj()).max()
            if anti < lin:
                U = W
            ctx.check(bool(np.abs(U @ U.conj().T - np.eye(nb)).max() < 1e-8), "unitary")
            c = (lambda z: z.conjugate()) if anti < lin else (lambda z: z)
            u = [[cx(ctx, ctx.num(z.real) if abs(z.real) > 1e-12 else 0, ctx.num(z.imag) if abs(z.imag) > 1e-12 else 0) for z in row] for row in U]
            nz = [[k for k in range(nb) if abs(U[x, k]) > 1e-12] for x in range(nb)]
            nzc = [[k for k in range(nb) if abs(U[k, y]) > 1e-12] for y in range(nb)]
            for x in range(nb):
                for y in range(nb):
                    l, r = cx(ctx, 0), cx(ctx, 0)
                    for k in nzc[y]:
                        l = l + D[g][x, k] * u[k][y]
                    for k in nz[x]:
                        r = r + u[x][k] * c(D[s][k, y])
                    ctx.equal(re(l), re(r), "eigenproblem of the point itself", scale=100)
                    ctx.equal(im(l), im(r), "eigenproblem of the point itself", scale=100)

    return h


def numeric(dm, q):
    class N:
        symbolic = False
        num = staticmethod(float)
        fn = staticmethod(lambda f, x: getattr(np, f)(float(x)))

    import checks.c_interaction as ci

    return oracle(N(), dm, False, q, None)


R = ("solved",)
M = ["phono3py.phonon.solver", "phono3py.phonon3.interaction", "phono3py.phonon3.joint_dos", "phono3py.api_jointdos", "phono3py.api_phono3py"]
PROPS = {
    "P01": Prop(
        "P01",
        [
            Slice("full", matrix("cscl2", (2, 1, 3), (3, 0, 1), later=((1, 2), )), bounds="two-atom cell, doubled supercell, requests in two steps", reach=R),
            Slice("compact", matrix("cscl2", (2, 1, 3), (2,), comp=True), bounds="compact force constants", reach=R),
            Slice("compact-zb", matrix("zb2", (1, 2, 2), (1, 2), comp=True), bounds="zincblende, compact", reach=R),
            Slice("triclinic", matrix("tri2", (3, 2, 1), (5, 4)), bounds="triclinic", reach=R),
            Slice("hexagonal", matrix("h3", (3, 3, 1), (1, 7)), bounds="hexagonal root-3 supercell", reach=R),
            Slice("wang", matrix("cscl2", (2, 1, 3), (0, 1, 4), nac="wang"), bounds="Wang's correction, no direction", reach=R),
            Slice("wang-direction", matrix("cscl1", (2, 1, 3), (0, 1), nac="wang", direction=True), bounds="Wang's correction, all directions", reach=R),
            Slice("gonze", matrix("cscl2", (2, 1, 3), (0, 3), nac="gonze"), bounds="Gonze's correction, four G vectors", reach=R),
            Slice("gonze-direction", matrix("cscl1", (2, 1, 3), (0, 3), nac="gonze", direction=True), bounds="Gonze's correction, all directions", reach=R),
            Slice("history", history(3), bounds="all sequences of three requests", reach=R),
            Slice("history-nosym", history(3, nosym=True), bounds="all sequences of three requests, no mesh symmetry", reach=R),
            Slice("history-gamma", history(4, first=3), bounds="a direction, then three requests", reach=R),
            Slice("history-jdos-4", history(4, "jdos"), tier="thorough", time=800, bounds="joint DOS, all sequences of four requests", reach=R),
            Slice("history-4", history(4), tier="thorough", time=800, bounds="all sequences of four requests", reach=R),
            Slice("history-jdos", history(3, "jdos"), bounds="joint DOS, all sequences of three requests", reach=R),
            Slice("jdos-direction", jdos_api((1, 0, 1), DIRS[2]), bounds="joint DOS at three grid points", reach=R),
            Slice("jdos-gamma-last", jdos_api((0, 1, 0), DIRS[1]), bounds="joint DOS at three grid points", reach=R),
            Slice("jdos-none", jdos_api((0, 1), None), bounds="joint DOS at two grid points", reach=R),
            Slice("forced-zero", forced, bounds="three acoustic modes, any frequencies", reach=R),
            Slice("python", python_path, bounds="Python solver", reach=R),
        ],
        assumptions=["eigensolver not modelled: it is a recorder returning arbitrary eigenvalues and vectors", "no LAPACKE (eigenproblem solved by numpy)"],
        functions=["phono3py.phonon.solver.run_phonon_solver_c", "phono3py.phonon.solver.run_phonon_solver_py", "c/phonon.c", "c/dynmat.c", "c/_phononcalc.cpp"],
        modules=M,
    ),
    "P02": Prop(
        "P02",
        [
            Slice("cscl", rotated("cscl1", (2, 2, 2)), bounds="CsCl 2x2x2", reach=R),
            Slice("zincblende", rotated("zb", (2, 2, 2)), bounds="zincblende 2x2x2 (no inversion)", reach=R),
            Slice("diamond", rotated("dia", (3, 3, 3)), bounds="diamond 3x3x3 (glide)", reach=R),
            Slice("polar", rotated("pol", (3, 3, 2)), bounds="tetragonal polar 3x3x2", reach=R),
            Slice("kagome", rotated("kag", (3, 3, 1)), bounds="hexagonal, three atoms permuted cyclically, 3x3x1", reach=R),
            Slice("tellurium", rotated("te", (3, 3, 2)), bounds="trigonal screw, three atoms permuted cyclically, 3x3x2", reach=R),
            Slice("wurtzite", rotated("wz", (2, 2, 2)), bounds="wurtzite 2x2x2", reach=R),
            Slice("triclinic", rotated("tri2", (2, 3, 2)), bounds="triclinic", reach=R),
            Slice("acentric", rotated("p1", (2, 3, 1)), bounds="no symmetry at all but time reversal", reach=R),
        ],
        assumptions=["eigensolver not modelled: solved points hold arbitrary vectors", "force constants obey the space group (six symbolic coefficients)"],
        functions=["phono3py.phonon3.interaction.Interaction.run_phonon_solver_with_eigvec_rotation", "phono3py.phonon3.interaction.Interaction._rotate_eigvecs", "phono3py.phonon3.interaction.Interaction._get_phonons_at_minus_q"],
        modules=M,
    ),
}
