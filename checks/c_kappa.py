"""Lattice thermal conductivity."""
import numpy as np
from .common import *
from .lattice import *
from .c_triplets import idx

EV, ANG, THZ, HBAR = 1.60217733e-19, 1.0e-10, 1.0e12, 1.05457266e-34 / 1.60217733e-19
VXV = ((0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1))


def consts():
    from phonopy import units as u

    return u


class Prim(Mock):
    def __len__(self):
        return self.natom


class GV:
    """group velocities by q-point"""

    table = {}
    q_length = None

    def __init__(self, *a, **k):
        pass

    def run(self, qs, perturbation=None):
        out = []
        for q in qs:
            q = np.array(q, dtype=float)
            key = tuple(int(x) for x in np.rint((q - np.floor(q + 1e-6)) * 5040))
            out.append(GV.table[key])
        shape = (len(out),) + out[0].shape
        from engine import expr as X

        o = X.CTX[0].const(np.zeros(shape))
        for i, v in enumerate(out):
            o[i] = v
        self.group_velocities = o


def key(q):
    q = np.array(q, dtype=float)
    return tuple(int(x) for x in np.rint((q - np.floor(q + 1e-6)) * 5040))


class World:
    def __init__(self, ctx, lat, mesh, sub=None, nb=3, cut=0.3, fsym=((1, 0),), vsym=((1, 0), (2, 1)), flo=0.05, bi=None, dense=True, grg=False, fvals=None):
        rots = pg(lat)
        if sub is not None:
            rots = np.array([r for r in rots if sub(r)], dtype="intc")
        self.bz = bz = bzgrid(mesh, lattice=lat, rotations=rots, store_dense_gp_map=dense, use_grg=grg)
        self.ctx, self.nb = ctx, nb
        D = np.array(bz.D_diag)
        self.n = n = int(np.prod(D))
        adr = [np.array([i % D[0], i // D[0] % D[1], i // (D[0] * D[1])]) for i in range(n)]
        self.rot = [[idx(np.array(r) @ adr[i], D) for i in range(n)] for r in bz.rotations]
        self.star = [min(rt[i] for rt in self.rot) for i in range(n)]
        self.ir = sorted(set(self.star))
        cell = np.array(LATS[lat])
        self.cell = cell
        rec = np.linalg.inv(cell)  # columns are reciprocal vectors
        self.rcart = [rec @ np.array(r) @ np.linalg.inv(rec) for r in bz.reciprocal_operations]
        self.cut = ctx.const(cut)
        self.cutv = cut
        grf = ctx.const(np.zeros((n, nb)))
        grv = ctx.const(np.zeros((n, nb, 3)))
        for i in range(n):
            for b in range(nb):
                if self.star[i] != i:
                    grf[i, b] = grf[self.star[i], b]
                    for y in range(3):
                        grv[i, b, y] = ctx.const(0.25 * ((3 * i + 5 * b + 7 * y) % 9 - 4))
                    continue
                k = self.ir.index(i)
                v = (0.6 + 0.43 * k + 0.7 * b if i else 0.0 + 0.9 * max(0, b - 2)) if fvals is None else fvals[k][b]
                grf[i, b] = ctx.real("f%d_%d" % (k, b), lo=flo, hi=30) if (k, b) in fsym else ctx.const(v)
                for y in range(3):
                    grv[i, b, y] = ctx.real("v%d_%d_%d" % (k, b, y), lo=-50, hi=50) if (k, b) in vsym else ctx.const(0.25 * ((3 * k + 5 * b + 7 * y) % 9 - 4))
        self.grf, self.grv = grf, grv
        self.f = ctx.const(np.zeros((len(bz.addresses), nb)))
        GV.table = {}
        for i in range(len(bz.addresses)):
            g = int(bz.bzg2grg[i])
            self.f[i] = grf[g]
            q = np.dot(bz.addresses[i], np.array(bz.QDinv).T)
            GV.table.setdefault(key(q), grv[g])
        self.bi = list(range(nb)) if bi is None else list(bi)
        self.prim = Prim(cell=cell, volume=2.5, natom=nb // 3)
        self.pp = Mock(bz_grid=bz, primitive=self.prim, primitive_symmetry=Mock(tolerance=1e-5), cutoff_frequency=self.cut, band_indices=I64(self.bi), mesh_numbers=I64(D), dynamical_matrix=None, frequency_factor_to_THz=1.0, constant_averaged_interaction=None, lapack_zheev_uplo="L", nac_q_direction=None)
        self.pp.get_phonons = lambda: (self.f, None, np.ones(len(self.f), dtype="byte"))
        self.pp.get_triplets_at_q = lambda: ([], [], None, None)

    def cv(self, f, T):
        """mode heat capacity in eV/K; zero at vanishing occupation"""
        ctx, u = self.ctx, consts()
        d = ctx.num(1e-9)
        ctx.assume(ctx.Or(f < self.cut - d, f > self.cut + d))
        if not ctx.branch(f > self.cut):
            return 0
        e = f * ctx.num(u.THzToEv)
        top = T * 100 * ctx.num(u.Kb)
        # not within rounding of the limit
        ctx.assume(ctx.Or(e < top - ctx.num(1e-9), e > top + ctx.num(1e-9)))
        if not ctx.branch(e < top):
            return 0
        x = e / ctx.num(u.Kb) / T
        ex = ctx.fn("exp", x)
        return ctx.num(u.Kb) * x * x * ex / ((ex - 1) * (ex - 1))

    def vv(self, g, b, a, c):
        """sum over the point group of (Rv)_a (Rv)_c"""
        tot = 0
        for r in self.rcart:
            x = sum(self.grv[g, b, y] * float(r[a, y]) for y in range(3))
            z = sum(self.grv[g, b, y] * float(r[c, y]) for y in range(3))
            tot = tot + x * z
        return tot


def conv(volume):
    return (THZ * ANG) ** 2 / (ANG**3) * consts().EV / THZ / (2 * np.pi) / volume


def stub(module):
    import phono3py.conductivity.base as base

    base.GroupVelocity = GV


def rta(lat, mesh, T, nsig=1, iso=False, mfp=None, star=True, gps=None, zero=(), only=None, **kw):
    def h(ctx):
        import phono3py.conductivity.rta as mod

        stub(mod)
        w = World(ctx, lat, mesh, **kw)
        nb = w.nb
        Ts = [ctx.real("T%d" % i, lo=1, hi=3000) if t == "s" else ctx.const(float(t)) for i, t in enumerate(T)]
        temps = ctx.const(np.zeros(len(Ts)))
        for i, t in enumerate(Ts):
            temps[i] = t
        sig = [None, 0.1, 0.2][:nsig]
        br = mod.ConductivityRTA(w.pp, temperatures=temps, sigmas=sig, is_kappa_star=star, boundary_mfp=None if mfp is None else ctx.real("L", lo=0.01, hi=1e4), is_isotope=False)
        pts = list(range(w.n)) if not star else w.ir
        ctx.check([int(w.bz.bzg2grg[g]) for g in br.grid_points] == pts, "one grid point per star")
        gam = ctx.const(np.ones((nsig, len(Ts), len(pts), nb)))
        for n_, ix in enumerate(np.ndindex(*gam.shape)):
            if only is None or n_ % only == 0:
                gam[ix] = ctx.real("G" + "_".join(map(str, ix)), lo=1e-6, hi=1e3)
            else:
                gam[ix] = ctx.const(0.5 + 0.125 * (n_ % 7))
            if ix in zero:
                gam[ix] = ctx.const(0.0)
        br.gamma = gam
        giso = ctx.reals("I", (nsig, len(pts), nb), lo=0, hi=10) if iso else None
        if iso:
            br._is_isotope = True
            br.gamma_isotope = giso
        n = 0
        for i in br:
            ctx.check(i == n, "visited once in order")
            n += 1
        ctx.check(n == len(pts), "all grid points")
        br.set_kappa_at_sigmas()
        ctx.reach("kappa")
        c = ctx.num(conv(w.prim.volume))
        ngrp = len(w.rcart) if star else 1
        for s in range(nsig):
            for t in range(len(Ts)):
                tot = [0] * 6
                for i, g in enumerate(pts):
                    order = sum(1 for x in w.star if x == g) if star else 1
                    for b in range(nb):
                        f = w.grf[g, b]
                        cv = w.cv(f, Ts[t])
                        ctx.equal(br.mode_heat_capacities[t, i, b], cv, "mode heat capacity", scale=1e-5)
                        gm = gam[s, t, i, b]
                        if iso:
                            gm = gm + giso[s, i, b]
                        if mfp is not None:
                            v2 = sum(w.grv[g, b, y] * w.grv[g, b, y] for y in range(3))
                            gm = gm + ctx.fn("sqrt", v2) * ctx.num(consts().Angstrom * 1e6 / (4 * np.pi)) / br.boundary_mfp
                        for p, (a, d) in enumerate(VXV):
                            vv = w.vv(g, b, a, d) if star else w.grv[g, b, a] * w.grv[g, b, d]
                            vv = vv * order / ngrp
                            ctx.equal(br.gv_by_gv[i, b, p], vv, "velocity products averaged over the star", scale=10)
                            bad = (s, t, i, b) in zero
                            k = 0 if isinstance(cv, int) or bad else vv * cv / (gm * 2) * c
                            ctx.equal(br.mode_kappa[s, t, i, b, p], k, "mode conductivity", scale=10)
                            tot[p] = tot[p] + br.mode_kappa[s, t, i, b, p]
                for p in range(6):
                    ctx.equal(br.kappa[s, t, p], tot[p] / w.n, "conductivity is the mean over the mesh", scale=10)

    return h


R = ("kappa",)
PATCH = ("phonopy.phonon.degeneracy", "phonopy.phonon.thermal_properties")


def tetra(r):
    return abs(r[2, 2]) == 1


PROPS = {
    "K01": Prop(
        "K01",
        [
            Slice("cubic", rta("cubic", (2, 2, 2), ("s",), only=3), bounds="2x2x2, 48 rotations, one T", reach=R),
            Slice("temps-sigmas", rta("cubic", (2, 2, 1), ("s", "s"), nsig=2, sub=tetra, fsym=(), only=2), bounds="2 temperatures, 2 widths", reach=R),
            Slice("hex-iso", rta("hex", (3, 3, 1), ("s",), iso=True, vsym=((1, 0),), fsym=(), only=4), bounds="3x3x1 hexagonal; isotope rates", reach=R),
            Slice("iso-widths", rta("cubic", (2, 1, 1), ("s",), iso=True, nsig=3, mfp=1, sub=lambda r: abs(r[0, 0]) == 1, vsym=((1, 0),), fsym=(), only=2), bounds="isotope rates of three widths; boundary mean free path", reach=R),
            Slice("boundary", rta("cubic", (2, 1, 1), ("s",), mfp=1, sub=lambda r: abs(r[0, 0]) == 1, vsym=((1, 0),), fsym=((1, 2),), only=4), bounds="boundary mean free path", reach=R),
            Slice("no-star", rta("cubic", (2, 2, 1), ("s",), star=False, sub=tetra, fsym=(), vsym=((1, 0),), only=5), bounds="all grid points", reach=R),
            Slice("0K", rta("cubic", (2, 2, 2), (0, "s"), fsym=(), only=9), bounds="0 K and one temperature", reach=R),
        ],
        modules=["phono3py.conductivity.rta", "phono3py.conductivity.base"],
        patch=PATCH,
        assumptions=["group velocities of each grid point are arbitrary (phonopy); line widths arbitrary"],
    ),
}
