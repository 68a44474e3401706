"""Linearized collision matrix: symmetry-reduced triplets against the sum over
all of them."""
import numpy as np
from .common import *
from .lattice import *
from .c_triplets import orbits, idx
from .c_selfenergy import unit_conv


class Sys:
    """Arbitrary strengths, weights and frequencies that respect the point
    group and the exchange of the second and third phonons."""

    def __init__(self, ctx, lat, mesh, gp, nb, bi, sub=None, grg=False, dense=True, flo=0.05, fsym=(0, 1), cut=0.3, one=None):
        import phono3py.phonon3.triplets as m

        rots = pg(lat)
        if sub is not None:
            rots = np.array([r for r in rots if sub(r)], dtype="intc")
        bz = bzgrid(mesh, lattice=lat, rotations=rots, store_dense_gp_map=dense, use_grg=grg)
        self.ctx, self.bz, self.nb, self.bi, self.mesh = ctx, bz, nb, bi, mesh
        D = np.array(bz.D_diag)
        self.n = n = int(np.prod(D))
        self.gr = gr = int(bz.bzg2grg[gp])
        self.gp = gp
        self.ops = ops = [np.array(r) for r in bz.rotations]
        self.adr = adr = [np.array([i % D[0], i // D[0] % D[1], i // (D[0] * D[1])]) for i in range(n)]
        self.rot = [[idx(r @ adr[i], D) for i in range(n)] for r in ops]
        star = [min(rt[i] for rt in self.rot) for i in range(n)]
        # frequencies: one set per star of the point group
        grf = ctx.const(np.zeros((n, nb)))
        for i in range(n):
            for b in range(nb):
                if star[i] == i:
                    k = sorted(set(star)).index(i)
                    grf[i, b] = ctx.real("f%d_%d" % (i, b), lo=flo, hi=30) if k in fsym else ctx.const(0.7 + 0.41 * k + 0.6 * b)
                else:
                    grf[i, b] = grf[star[i], b]
        self.grf = grf
        self.f = ctx.const(np.zeros((len(bz.addresses), nb)))
        for i in range(len(bz.addresses)):
            self.f[i] = grf[int(bz.bzg2grg[i])]
        self.cut = ctx.const(cut)
        # strengths x weights per orbit of (q1, q2)
        with concrete():
            self.trip = m.get_triplets_at_q(gp, bz, swappable=True)
        _, cls = orbits(D, gr, ops, True)
        stab = [x for x, r in enumerate(ops) if self.rot[x][gr] == gr]
        self.cls = cls
        q2 = [idx(-adr[gr] - adr[i], D) for i in range(n)]
        self.q2 = q2
        self.S = ctx.const(np.zeros((n, len(bi), nb, nb)))
        self.G = ctx.const(np.zeros((3, n, len(bi), nb, nb)))
        for rep in sorted(set(cls)):
            sym_ = one is None or rep in one
            s = ctx.reals("s%d" % rep, (len(bi), nb, nb)) if sym_ else ctx.const(np.arange(len(bi) * nb * nb).reshape(len(bi), nb, nb) * 0.25 + 0.5 + rep)
            g = ctx.reals("g%d" % rep, (len(bi), nb, nb)) if sym_ else ctx.const(np.arange(len(bi) * nb * nb).reshape(len(bi), nb, nb) * 0.125 + 1.5 - 0.25 * rep)
            own = {self.rot[x][rep] for x in stab}
            for i in range(n):
                if cls[i] != rep:
                    continue
                straight = i in own
                for j in range(len(bi)):
                    for k in range(nb):
                        for l in range(nb):
                            kk, ll = (k, l) if straight else (l, k)
                            self.S[i, j, k, l] = s[j, kk, ll]
                            self.G[2, i, j, k, l] = g[j, kk, ll]
            # a representative mapped on its own exchange: average
            if q2[rep] in own:
                for i in range(n):
                    if cls[i] == rep:
                        for j in range(len(bi)):
                            for k in range(nb):
                                for l in range(k + 1, nb):
                                    self.S[i, j, l, k] = self.S[i, j, k, l]
                                    self.G[2, i, j, l, k] = self.G[2, i, j, k, l]

    def pp(self):
        ctx, bz = self.ctx, self.bz
        pp = Mock(cutoff_frequency=self.cut, band_indices=I64(self.bi), bz_grid=bz, mesh_numbers=I64(bz.D_diag), primitive=[0] * (self.nb // 3), interaction_strength=None)
        t, w, tm, tq = self.trip
        g = [int(bz.bzg2grg[x[1]]) for x in t]
        self.seen = []

        def setgp(gp, store_triplets_map=False, **k):
            self.seen.append((int(gp), store_triplets_map))

        def run(lang="C", g_zero=None):
            pp.interaction_strength = ctx.out((len(t), len(self.bi), self.nb, self.nb))
            for x, q1 in enumerate(g):
                pp.interaction_strength[x] = self.S[q1]

        pp.set_grid_point = setgp
        pp.run = run
        pp.get_triplets_at_q = lambda: self.trip
        pp.get_phonons = lambda: (self.f, None, np.ones(len(self.f), dtype="byte"))
        return pp

    def giw(self, pp, fp, sigma, sigma_cutoff=None, is_collision_matrix=False, **kw):
        t = self.trip[0]
        g = self.ctx.out((3 if is_collision_matrix else 2, len(t), len(self.bi), self.nb, self.nb))
        for x in range(len(t)):
            for y in range(len(g)):
                g[y, x] = self.G[y, int(self.bz.bzg2grg[t[x][1]])]
        return g, np.zeros(g.shape[1:], dtype="byte")

    def full(self, T, j, q1, k):
        """sum over the bands of the third phonon"""
        ctx, tot = self.ctx, 0
        for l in range(self.nb):
            f = self.grf[self.q2[q1], l]
            if ctx.branch(f > self.cut):
                tot = tot + self.S[q1, j, k, l] * self.G[2, q1, j, k, l] * inv_sinh(ctx, f, T)
        return tot * ctx.num(unit_conv())


def colmat(red, lat, mesh, gps, nb=3, bi=(0, 1, 2), lang="C", zero=False, **kw):
    def h(ctx):
        import phono3py.phonon3.collision_matrix as mod
        import phono3py.phonon3.imag_self_energy as ise

        gp = gps[ctx.concretize(ctx.int("gp", 0, len(gps) - 1))] if len(gps) > 1 else gps[0]
        s = Sys(ctx, lat, mesh, gp, nb, list(bi), **kw)
        pp = s.pp()
        ise.get_triplets_integration_weights = s.giw
        T = ctx.const(0.0) if zero else ctx.real("T", lo=1, hi=3000)
        n = s.n
        ctx.reach("colmat")
        if red:
            c = mod.CollisionMatrix(pp, is_reducible_collision_matrix=True, lang=lang)
        else:
            ir = sorted({min(rt[i] for rt in s.rot) for i in range(n)})
            irb = [int(s.bz.grg2bzg[i]) for i in ir]
            rgp = I64([[s.bz.grg2bzg[rt[i]] for rt in s.rot] for i in ir])
            lt = np.array(LATS[lat])
            rc = np.array([np.linalg.inv(lt.T) for _ in (0,)])
            # arbitrary Cartesian matrices: only their use is checked
            R = ctx.const(np.zeros((len(s.rot), 3, 3)))
            for x in range(len(s.rot)):
                for a in range(3):
                    for b in range(3):
                        R[x, a, b] = ctx.const(((x * 5 + a * 3 + b * 7) % 11 - 5) / 4.0)
            for x in (0, len(s.rot) - 1):
                R[x, 0, 1] = ctx.real("R%d" % x)
                R[x, 2, 0] = ctx.real("Q%d" % x)
            c = mod.CollisionMatrix(pp, rotations_cartesian=R, num_ir_grid_points=len(ir), rot_grid_points=rgp, lang=lang)
        c.set_grid_point(gp)
        ctx.check(s.seen[-1] == (gp, True), "triplet maps requested at the grid point")
        c.set_sigma(None)
        c.run_integration_weights()
        c.run_interaction()
        c.temperature = T
        c.run()
        m = c.get_collision_matrix()
        if zero:
            for v in np.ravel(m):
                ctx.equal(v, 0, "no collisions at 0 K")
            return
        if red:
            ctx.check(tuple(m.shape) == (len(bi), n, nb), "shape")
            for j in range(len(bi)):
                for q in range(n):
                    for k in range(nb):
                        ctx.equal(m[j, q, k], s.full(T, j, q, k), "collision matrix element")
        else:
            ctx.check(tuple(m.shape) == (len(bi), 3, len(ir), nb, 3), "shape")
            for j in range(len(bi)):
                for i, q in enumerate(ir):
                    for k in range(nb):
                        f = [s.full(T, j, rt[q], k) for rt in s.rot]
                        for a in range(3):
                            for b in range(3):
                                ref = 0
                                for x in range(len(s.rot)):
                                    ref = ref + f[x] * R[x, a, b]
                                ctx.equal(m[j, a, i, k, b], ref, "irreducible collision matrix element", scale=1e-6)

    return h


def symmetrize(shape):
    def h(ctx):
        a = ctx.reals("a", shape)
        n = int(round(np.sqrt(np.prod(shape[2:]))))
        old = a.copy()
        ctx.call("symmetrize_collision_matrix", a)
        ctx.reach("sym")
        for s, t in np.ndindex(shape[:2]):
            x = np.array(old[s, t].reshape(n, n))
            y = np.array(a[s, t].reshape(n, n))
            for i in range(n):
                for j in range(n):
                    ctx.equal(y[i, j], (x[i, j] + x[j, i]) / 2, "symmetric part of each matrix")

    return h


def expand(lat, mesh, nb=1, ns=1, nt=2, sub=None, **kw):
    """rows of irreducible points rotated to all points"""

    def h(ctx):
        rots = pg(lat)
        if sub is not None:
            rots = np.array([r for r in rots if sub(r)], dtype="intc")
        bz = bzgrid(mesh, lattice=lat, rotations=rots, **kw)
        D = np.array(bz.D_diag)
        n = int(np.prod(D))
        adr = [np.array([i % D[0], i // D[0] % D[1], i // (D[0] * D[1])]) for i in range(n)]
        rot = I64([[idx(r @ adr[i], D) for i in range(n)] for r in bz.rotations])
        star = [int(rot[:, i].min()) for i in range(n)]
        ir = sorted(set(star))
        cm = ctx.const(np.zeros((ns, nt, n, nb, n, nb)))
        for i in ir:
            for ix in np.ndindex(ns, nt):
                cm[ix + (i,)] = ctx.reals("a%d_%d_%d" % (ix + (i,)), (nb, n, nb))
        old = cm.copy()
        ctx.call("expand_collision_matrix", cm, I64(ir), rot)
        ctx.reach("expand")
        for s, t in np.ndindex(ns, nt):
            for q in range(n):
                ms = [x for x in range(len(rot)) if rot[x, star[q]] == q]
                for b in range(nb):
                    for p in range(n):
                        for c in range(nb):
                            ref = 0
                            for x in ms:
                                ref = ref + old[s, t, star[q], b, int(np.where(rot[x] == p)[0][0]), c]
                            ctx.equal(cm[s, t, q, b, p, c], ref / len(ms), "row of a rotated grid point")

    return h


def c3(r):
    return np.linalg.det(r) > 0


def tetra(r):
    return abs(r[2, 2]) == 1


def diag(r):
    return (np.abs(r) == np.eye(3)).all()


R = ("colmat",)
PROPS = {
    "C01": Prop(
        "C01",
        [
            Slice("reducible", colmat(True, "cubic", (2, 2, 2), (0, 1, 3)), bounds="2x2x2 cubic mesh, 48 rotations; every strength, weight, frequency of two stars, T", reach=R),
            Slice("reducible-hex", colmat(True, "hex", (3, 3, 1), (0, 1), fsym=(1,), bi=(1,)), bounds="3x3x1 hexagonal mesh, band 1 of 3", reach=R),
            Slice("reducible-low", colmat(True, "cubic", (3, 2, 1), (1, 5), fsym=(0,), bi=(2, 0), sub=diag, dense=False), bounds="3x2x1, diagonal rotations, bands (2,0)", reach=R),
            Slice("reducible-py", colmat(True, "cubic", (3, 3, 1), (0, 4), lang="Py", fsym=(0,), bi=(0, 2), sub=tetra), bounds="Python version, 3x3x1", reach=R),
            Slice("reducible-0K", colmat(True, "cubic", (2, 2, 1), (1,), zero=True, sub=tetra), bounds="0 K", reach=R),
            Slice("ir", colmat(False, "cubic", (2, 2, 1), (1, 3), sub=diag, fsym=(1,), bi=(0,)), bounds="2x2x1, 8 rotations", reach=R),
            Slice("ir-hex", colmat(False, "hex", (3, 3, 1), (1,), fsym=(1,), bi=(2,), sub=c3), bounds="3x3x1, 12 rotations", reach=R),
            Slice("ir-py", colmat(False, "cubic", (3, 3, 1), (1,), lang="Py", fsym=(1,), bi=(1,), sub=diag), bounds="Python version", reach=R),
        ],
        modules=["phono3py.phonon3.collision_matrix", "phono3py.phonon3.imag_self_energy"],
        assumptions=["strengths and weights arbitrary but equal for equivalent triplets (I01, I02, W02); triplet reduction is the real one"],
    ),
    "C02": Prop(
        "C02",
        [
            Slice("symmetrize-full", symmetrize((2, 2, 2, 3, 2, 3)), bounds="2 widths, 2 temperatures, 2 points, 3 bands", reach=("sym",)),
            Slice("symmetrize-ir", symmetrize((1, 2, 2, 1, 3, 2, 1, 3)), bounds="irreducible form", reach=("sym",)),
            Slice("symmetrize-one", symmetrize((3, 1, 1, 3, 1, 3)), bounds="3 widths, one point", reach=("sym",)),
            Slice("expand-cubic", expand("cubic", (2, 2, 1), sub=tetra), bounds="2x2x1 cubic", reach=("expand",)),
            Slice("expand-hex", expand("hex", (3, 3, 1), nt=1), bounds="3x3x1 hexagonal", reach=("expand",)),
            Slice("expand-bands", expand("cubic", (2, 2, 2), nb=2, ns=2, nt=1, sub=diag), bounds="2 bands, 2 widths", reach=("expand",)),
            Slice("expand-rot3", expand("cubic", (3, 3, 3), nb=1, ns=1, nt=1, sub=c3), bounds="3x3x1, proper rotations", reach=("expand",)),
        ],
    ),
}
