"""Phonon-phonon interaction strength."""
import numpy as np
from engine.expr import Cx
from .common import *
from .lattice import bzgrid


def cx(ctx, re, im=0):
    return Cx(re, im) if ctx.symbolic else complex(re, im)


def cxarr(ctx, a):
    """complex numpy array of constants"""
    return ctx.const(np.asarray(a, dtype="c16"))


def re(x):
    return x.re if isinstance(x, Cx) else complex(x).real


def im(x):
    return x.im if isinstance(x, Cx) else complex(x).imag


def cis(ctx, ph):
    return cx(ctx, ctx.fn("cos", ph), ctx.fn("sin", ph))


class Sys:
    """Everything the kernel takes; see ``make``."""


def qvec(s, g):
    a = s.adr[g]
    t = [float(a[k]) / float(s.D[k]) for k in range(3)]
    return [sum(float(s.Q[i][k]) * t[k] for k in range(3)) for i in range(3)]


def fracq(s, g):
    from fractions import Fraction as F

    a = s.adr[g]
    t = [F(int(a[k]), int(s.D[k])) for k in range(3)]
    return [sum(int(s.Q[i][k]) * t[k] for k in range(3)) for i in range(3)]


def dot(ctx, q, v):
    t = 0
    for j in range(3):
        if q[j] != 0:
            t = t + (q[j] if ctx.symbolic else float(q[j])) * v[j]
    return t


def phase(ctx, s, q, J, i):
    m, ad = int(s.multi[J, i, 0]), int(s.multi[J, i, 1])
    t = cx(ctx, 0)
    for x in range(m):
        t = t + cis(ctx, ctx.num(2 * np.pi) * dot(ctx, q, s.svecs[ad + x]))
    return t / m


def prephase(ctx, s, qs, i):
    ad = int(s.multi[s.p2s[i], i if False else 0, 1])
    tot = [qs[0][j] + qs[1][j] + qs[2][j] for j in range(3)]
    return cis(ctx, ctx.num(2 * np.pi) * dot(ctx, tot, s.svecs[ad]))


def Phi(ctx, s, qs, i, j, k, l, m, n):
    """Fourier transformed third-order force constant."""
    first = lambda p: p if s.compact else int(s.p2s[p])
    img = lambda p: [x for x in range(len(s.s2p)) if s.s2p[x] == s.p2s[p]]

    def leg(p0, p1, p2, q1, q2, c, kind):
        t = cx(ctx, 0)
        for J in img(p1):
            for K in img(p2):
                w = 1
                if s.r0:
                    sh = int(s.short[p0, J, K])
                    w = (3 if sh else 1) if kind == 0 else (0 if sh else 1)
                if w:
                    t = t + phase(ctx, s, q1, J, p0) * phase(ctx, s, q2, K, p0) * s.fc3[(first(p0), J, K) + c] * w
        return t * prephase(ctx, s, qs, p0)

    t = leg(i, j, k, qs[1], qs[2], (l, m, n), 0)
    if s.r0:
        t = t + leg(j, i, k, qs[0], qs[2], (m, l, n), 1)
        t = t + leg(k, j, i, qs[1], qs[0], (n, m, l), 2)
        t = t / 3
    return t


def strength(ctx, s, tr, b):
    """|sum e0 e1 e2 Phi / sqrt(m m m)|^2 / (f0 f1 f2)"""
    f = [s.freqs[tr[x], b[x]] for x in range(3)]
    for x in f:
        if not ctx.branch(x > s.cut):
            return 0
    qs = [fracq(s, g) for g in tr]
    np_ = len(s.p2s)
    t = cx(ctx, 0)
    for i in range(np_):
        for j in range(np_):
            for k in range(np_):
                a = cx(ctx, 0)
                for l in range(3):
                    for m in range(3):
                        for n in range(3):
                            e = 1
                            zero = False
                            for g, r, c in ((tr[0], i * 3 + l, b[0]), (tr[1], j * 3 + m, b[1]), (tr[2], k * 3 + n, b[2])):
                                v = s.ev[g, r, c]
                                if isinstance(v, (Cx, complex, np.complexfloating)):
                                    if not hasattr(re(v), "op") and not hasattr(im(v), "op") and re(v) == 0 and im(v) == 0:
                                        zero = True
                                e = v * e
                            if zero:
                                continue
                            a = a + e * Phi(ctx, s, qs, i, j, k, l, m, n)
                mm = s.masses[i] * s.masses[j] * s.masses[k]
                t = t + a / ctx.fn("sqrt", mm) if ctx.symbolic is False else t + a / (ctx.fn("sqrt", s.masses[i]) * ctx.fn("sqrt", s.masses[j]) * ctx.fn("sqrt", s.masses[k]))
    return (re(t) * re(t) + im(t) * im(t)) / (f[0] * f[1] * f[2])


PERMS = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (1, 0, 2), (2, 1, 0)]


def ref(ctx, s, tr, b):
    """with the average over the exchanges of the three phonons if requested"""
    if not s.sym:
        return strength(ctx, s, tr, b)
    t = 0
    for p in PERMS:
        t = t + strength(ctx, s, [tr[x] for x in p], [b[x] for x in p])
    return t / 6


def unit_vectors(nb, shift):
    """band b has its only component at (b*a + shift): a permutation"""
    a = np.zeros((nb, nb), dtype="c16")
    for b in range(nb):
        a[(b + shift) % nb, b] = 1 if (b + shift) % 2 else 1j
    return a


def dense(nb, g):
    """concrete complex entries, multiples of 1/4"""
    a = np.zeros((nb, nb), dtype="c16")
    for i in range(nb):
        for b in range(nb):
            a[i, b] = ((3 * i + 5 * b + 7 * g) % 5 - 2) / 4 + 1j * ((2 * i + b + 3 * g) % 3 - 1) / 4
    return a


def make(ctx, npat, nsat, p2s, s2p, compact=False, symf="all", ev="unit", svec="sym", mult=None, bi=None, sym=0, r0=0, masses="sym", freqs="sym", D=(3, 4, 5), Q=None, adr=None, short=None, cut=0.1):
    s = Sys()
    nb = 3 * npat
    s.compact, s.sym, s.r0 = compact, sym, r0
    s.D = I64(D)
    s.Q = I64(np.eye(3) if Q is None else Q)
    s.adr = I64([[1, 0, 0], [0, 1, -1], [-1, 3, 1], [2, 1, 1]] if adr is None else adr)
    ng = len(s.adr)
    s.p2s, s.s2p = I64(p2s), I64(s2p)
    mult = np.ones((nsat, npat), dtype=int) if mult is None else np.array(mult)
    s.multi = np.zeros((nsat, npat, 2), dtype="int64")
    n = 0
    for J in range(nsat):
        for i in range(npat):
            s.multi[J, i] = [mult[J, i], n]
            n += int(mult[J, i])
    if svec == "sym":
        s.svecs = ctx.reals("sv", (n, 3), lo=-2, hi=2)
        # only the first component varies everywhere; keep the term count low
        for x in range(n):
            for y in range(3):
                if (x + y) % 3 != 0:
                    s.svecs[x, y] = ctx.const(0.25 * ((x * 3 + y * 2) % 5 - 2))
    elif svec == "zero":
        s.svecs = ctx.const(np.zeros((n, 3)))
    else:
        s.svecs = ctx.const(np.array([[0.25 * ((x * 3 + y * 2) % 5 - 2) for y in range(3)] for x in range(n)]))
    shape = (npat if compact else nsat, nsat, nsat, 3, 3, 3)
    if symf == "all":
        s.fc3 = ctx.reals("fc", shape, lo=None)
    else:
        c = np.array([((7 * x) % 11 - 5) / 4 for x in range(int(np.prod(shape)))]).reshape(shape)
        s.fc3 = ctx.const(c)
        for ix in symf:
            s.fc3[ix] = ctx.real("fc_" + "_".join(map(str, ix)))
    if ev == "unit":
        s.ev = cxarr(ctx, [unit_vectors(nb, g) for g in range(ng)])
    else:
        s.ev = cxarr(ctx, [dense(nb, g) for g in range(ng)])
        if ev != "dense":
            g = int(ev)  # this point's eigenvectors are symbolic
            e = ctx.complexes("e", (nb, nb))
            for i in range(nb):
                for b in range(nb):
                    s.ev[g, i, b] = e[i, b]
    s.masses = ctx.reals("m", (npat,), lo=0.5, hi=300) if masses == "sym" else ctx.const(np.arange(1, npat + 1) * 4.0)
    s.freqs = ctx.reals("f", (ng, nb), lo=None if freqs == "sym" else 0.2) if freqs in ("sym", "pos") else ctx.const(np.array([[1 + g + 0.5 * b for b in range(nb)] for g in range(ng)]))
    s.cut = ctx.const(cut)
    s.bi = I64(range(nb) if bi is None else bi)
    s.short = np.zeros((npat, nsat, nsat), dtype="byte") if short is None else np.array(short, dtype="byte")
    return s


def call(ctx, s, out, gz, tr, per):
    ctx.call("interaction", out, gz, s.freqs, s.ev, I64(tr), s.adr, s.D, s.Q, s.fc3, s.svecs, s.multi, s.masses, s.p2s, s.s2p, s.bi, s.sym, s.r0, s.short, s.cut, per)


def kernel(triplets, entries=None, per=0, **k):
    """``entries``: (triplet, band0 position, band1, band2) not flagged zero."""

    def h(ctx):
        s = make(ctx, **k)
        nb = 3 * len(s.p2s)
        nb0 = len(s.bi)
        shape = (len(triplets), nb0, nb, nb)
        if entries is None:
            gz = np.zeros(shape, dtype="byte")
            todo = list(np.ndindex(*shape))
        else:
            gz = np.ones(shape, dtype="byte")
            todo = entries
            for e in entries:
                gz[e] = 0
        # the strengths are allocated as zeros by the caller
        out = ctx.const(np.zeros(shape))
        call(ctx, s, out, gz, triplets, per)
        ctx.reach("strength")
        for ix in np.ndindex(*shape):
            t, b = ix[0], (int(s.bi[ix[1]]), ix[2], ix[3])
            if ix in todo:
                ctx.equal(out[ix], ref(ctx, s, triplets[t], b), "interaction strength")
            elif not s.sym:
                ctx.equal(out[ix], 0, "entries flagged zero are not touched")

    return h


class Prim(Mock):
    def __len__(self):
        return len(self.masses)


def driver(entries, lang="C", sym=False, r0=False, gz=False, bi=None, const=None, unit=None, triplets=((0, 1, 3),), adr=None, D=(3, 4, 2), scale=None, per=None, ev="unit", cut=None):
    """The Interaction class; two atoms, supercell twice as long."""

    def h(ctx):
        import phono3py.phonon3.interaction as mod

        r1 = ctx.reals("r", (3,), lo=0.05, hi=0.95)
        pos = [[0, 0, 0], [r1[0], r1[1], r1[2]]]
        T = [0, 1, 0, 1]
        pat = [0, 0, 1, 1]
        sv = ctx.reals("sv", (8, 3), lo=None)
        multi = np.zeros((4, 2, 2), dtype="int64")
        for J in range(4):
            for i in range(2):
                for y in range(3):
                    v = pos[pat[J]][y] - pos[i][y] + (T[J] if y == 0 else 0)
                    sv[2 * J + i, y] = v if hasattr(v, "op") else ctx.const(float(v))
                multi[J, i] = [1, 2 * J + i]
        m = ctx.const(np.array([4.0, 9.0]))
        prim = Prim(cell=ctx.const(np.eye(3)), masses=m, p2s_map=np.array([0, 2]), s2p_map=np.array([0, 0, 2, 2]), p2p_map={0: 0, 2: 1}, scaled_positions=ctx.const(np.zeros((2, 3))), atomic_permutations=np.array([[0, 1, 2, 3], [1, 0, 3, 2]]))
        for i in range(2):
            for y in range(3):
                v = pos[i][y]
                prim.scaled_positions[i, y] = v if hasattr(v, "op") else ctx.const(float(v))
        prim.get_smallest_vectors = lambda: (sv, multi)
        a = I64([[1, 0, 0], [0, 1, -1], [-1, 3, 1], [2, 3, 1]] if adr is None else adr)
        bz = Mock(addresses=a, D_diag=I64(D), Q=I64(np.eye(3)), QDinv=np.diag(1.0 / np.array(D)), gp_Gamma=0)
        c = np.array([((7 * x) % 11 - 5) / 4 for x in range(4**3 * 27)]).reshape(4, 4, 4, 3, 3, 3)
        fc3 = ctx.const(c)
        for ix in [(0, 1, 2, 0, 1, 2), (2, 3, 0, 1, 0, 1), (2, 0, 2, 1, 2, 0), (0, 0, 0, 0, 1, 0)]:
            fc3[ix] = ctx.real("fc_" + "_".join(map(str, ix)))
        kw = {}
        if bi is not None:
            kw["band_indices"] = bi
        cu = 0.1 if cut is None else cut
        pp = mod.Interaction(prim, bz, Mock(tolerance=1e-5), fc3=fc3, constant_averaged_interaction=None if const is None else ctx.real("avg"), unit_conversion=None if unit is None else ctx.real("u", pos=True), symmetrize_fc3q=sym, make_r0_average=r0, cutoff_frequency=ctx.const(cu), frequency_scale_factor=scale, openmp_per_triplets=per, **kw)
        s = Sys()
        s.compact, s.sym, s.r0 = False, sym, r0
        s.D, s.Q, s.adr, s.p2s, s.s2p = bz.D_diag, bz.Q, a, prim.p2s_map, prim.s2p_map
        s.svecs, s.multi, s.masses, s.short = sv, multi, m, pp.all_shortest
        s.fc3 = fc3 if scale is None else fc3 * ctx.num(scale) * ctx.num(scale)
        s.cut = ctx.const(cu)
        s.freqs = ctx.reals("f", (4, 6), lo=0.2 if cut is None else None, hi=30)
        if cut is not None and lang != "C":
            for x in np.ndindex(4, 6):
                if x not in ((0, 4), (1, 5), (3, 3)):
                    s.freqs[x] = ctx.const(1.5)
        s.ev = cxarr(ctx, [unit_vectors(6, g) if ev == "unit" else dense(6, g) for g in range(4)])
        pp._frequencies, pp._eigenvectors = s.freqs, s.ev
        pp._phonon_done = np.ones(4, dtype="byte")
        pp._triplets_at_q = I64(triplets)
        pp._weights_at_q = I64([1] * len(triplets))
        b0 = list(range(6)) if bi is None else list(bi)
        shape = (len(triplets), len(b0), 6, 6)
        z = None
        if gz:
            z = np.ones(shape, dtype="byte")
            for e in entries:
                z[e] = 0
        pp.run(lang=lang, g_zero=z)
        out = pp.interaction_strength
        ctx.check(tuple(np.shape(out)) == shape, "shape of the interaction strength")
        ctx.reach("strength")
        u = ctx.num(UNIT / float(np.prod(D))) if unit is None else pp.unit_conversion_factor
        if unit is not None:
            ctx.equal(u, ctx.real("u", pos=True), "requested unit conversion")
        for e in entries:
            if const is not None:
                ctx.equal(out[e], ctx.real("avg") / int(np.prod(D)), "constant averaged interaction per mesh point")
                continue
            ctx.equal(out[e], ref(ctx, s, list(triplets[e[0]]), (b0[e[1]], e[2], e[3])) * u, "interaction strength", scale=1e-14)

    return h


def unit_of():
    from phonopy.units import AMU, EV, Angstrom, Hbar, THz

    return (Hbar * EV) ** 3 / 36 / 8 * EV**2 / Angstrom**6 / (2 * np.pi * THz) ** 3 / AMU**3 / EV**2


UNIT = 0.0
try:
    UNIT = unit_of()
except ImportError:
    pass


def averaged_pp(ctx):
    """Interaction.averaged_interaction: weighted sum, mean over band pairs"""
    import phono3py.phonon3.interaction as mod

    pp = mod.Interaction.__new__(mod.Interaction)
    v = ctx.reals("v", (3, 2, 3, 3))
    w = I64([1, 2, 5])
    pp._interaction_strength = v
    pp._weights_at_q = w
    out = pp.averaged_interaction
    ctx.reach("avg")
    for b in range(2):
        t = 0
        for i in range(3):
            for x in range(3):
                for y in range(3):
                    t = t + v[i, b, x, y] * int(w[i])
        ctx.equal(out[b], t / 9, "averaged interaction")


def shortest(mult):
    def h(ctx):
        """all_shortest iff each pair has one vector and the distance between
        atoms j and k is that of their own shortest vector"""
        import phono3py.phonon3.interaction as mod

        n = 3
        sv = ctx.reals("sv", (4, 3), lo=-1, hi=1)
        for y in range(3):
            sv[0, y] = ctx.const(0.0)
            if y > 0:
                for x in range(4):
                    sv[x, y] = ctx.const(0.0)
        multi = I64([[[mult[0], 0]], [[mult[1], 1]], [[mult[2], 2]]])
        perms = np.array([[0, 1, 2], [1, 2, 0], [2, 0, 1]])
        prim = Prim(cell=ctx.const(np.diag([2.0, 3.0, 1.0])), masses=ctx.const(np.array([4.0])), p2s_map=np.array([0]), s2p_map=np.array([0, 0, 0]), p2p_map={0: 0}, atomic_permutations=perms, scaled_positions=ctx.const(np.zeros((1, 3))))
        prim.get_smallest_vectors = lambda: (sv, multi)
        bz = Mock(addresses=I64([[0, 0, 0]]), D_diag=I64([1, 1, 1]), Q=I64(np.eye(3)))
        tol = 1e-5
        pp = mod.Interaction(prim, bz, Mock(tolerance=ctx.num(tol)))
        out = pp.all_shortest
        ctx.reach("short")
        for j in range(n):
            for k in range(n):
                exp = 0
                if mult[j] == 1 and mult[k] == 1:
                    # translation taking atom j to atom 0
                    p = [q for q in perms if q[j] == 0][0]
                    kk = p[k]
                    if mult[kk] == 1:
                        d = [sv[multi[k, 0, 1], y] - sv[multi[j, 0, 1], y] for y in range(3)]
                        e = [sv[multi[kk, 0, 1], y] for y in range(3)]
                        L = [2.0, 3.0, 1.0]
                        nd = ctx.fn("sqrt", sum((d[y] * L[y]) * (d[y] * L[y]) for y in range(3)))
                        ne = ctx.fn("sqrt", sum((e[y] * L[y]) * (e[y] * L[y]) for y in range(3)))
                        if ctx.branch(ctx.And(ne - nd < ctx.num(tol), nd - ne < ctx.num(tol))):
                            exp = 1
                ctx.equal(out[0, j, k], exp, "all-shortest flag")

    return h


MODS = ["phono3py.phonon3.interaction", "phono3py.phonon3.real_to_reciprocal", "phono3py.phonon3.reciprocal_to_normal"]
T1 = dict(npat=1, nsat=1, p2s=[0], s2p=[0])
T12 = dict(npat=1, nsat=2, p2s=[0], s2p=[0, 0])
T2 = dict(npat=2, nsat=4, p2s=[0, 2], s2p=[0, 0, 2, 2])
T22 = dict(npat=2, nsat=2, p2s=[0, 1], s2p=[0, 1])
E2 = [(0, 0, 0, 0), (0, 1, 3, 4), (0, 3, 1, 5), (0, 5, 2, 1), (0, 4, 4, 4)]
QG = [[1, 0, 1], [0, 1, 0], [-1, 1, 1]]
SH = np.zeros((2, 4, 4), dtype="byte")
SH[0, 1, 2] = SH[0, 2, 3] = SH[1, 0, 0] = SH[1, 3, 1] = SH[0, 0, 0] = SH[1, 2, 2] = 1
PROPS = {
    "I01": Prop(
        "I01",
        [
            Slice("phase-full", kernel([[0, 1, 2]], E2, masses="c", freqs="c", **T2), bounds="2 atoms in the primitive cell, 4 in the supercell; all fc3 and vectors", reach=("strength",)),
            Slice("phase-umklapp", kernel([[0, 1, 3]], E2, masses="c", freqs="c", **T2), bounds="as above, q-points summing to a reciprocal vector", reach=("strength",)),
            Slice("phase-compact", kernel([[0, 1, 3]], E2, masses="c", freqs="c", compact=True, per=1, **T2), bounds="as above, compact fc3", reach=("strength",)),
            Slice("phase-multi", kernel([[0, 1, 3]], E2[1:3], masses="c", freqs="c", mult=[[1, 2], [2, 1], [1, 1], [1, 2]], **T2), bounds="two equidistant vectors", reach=("strength",)),
            Slice("phase-grid", kernel([[1, 3, 2]], E2[1:3], masses="c", freqs="c", Q=QG, D=(2, 1, 4), **T2), bounds="generalized grid", reach=("strength",)),
            Slice("eigvec0", kernel([[0, 1, 2]], None, ev=0, symf=(), svec="zero", masses="c", freqs="c", **T1), bounds="1 atom; all eigenvectors of q0", reach=("strength",)),
            Slice("eigvec1", kernel([[0, 1, 2]], None, ev=1, symf=(), svec="zero", masses="c", freqs="c", **T1), bounds="all eigenvectors of q1", reach=("strength",)),
            Slice("eigvec2", kernel([[0, 1, 2]], None, ev=2, symf=(), svec="zero", masses="c", freqs="c", **T1), bounds="all eigenvectors of q2", reach=("strength",)),
            Slice("fc3-dense", kernel([[2, 1, 0]], None, ev="dense", svec="zero", masses="c", freqs="c", per=1, **T1), bounds="all fc3, fixed complex eigenvectors", reach=("strength",)),
            Slice("masses-bands", kernel([[0, 1, 2], [0, 2, 1]], [(0, 0, 1, 4), (0, 1, 5, 0), (1, 1, 0, 3), (1, 0, 2, 2)], ev="dense", svec="zero", symf=[(0, 1, 0, 0, 1, 2)], bi=[4, 1], freqs="pos", per=1, **T22), bounds="2 atoms, all masses and frequencies, two bands, one fc3 component", reach=("strength",)),
            Slice("cutoff", kernel([[0, 1, 2]], [(0, x, y, z) for x in range(2) for y in range(2) for z in range(2)], svec="zero", symf=[(0, 0, 0, 0, 1, 2)], bi=[2, 0], masses="c", freqs="sym", **T1), bounds="all frequencies incl. below the cutoff and negative", reach=("strength",)),
            Slice("driver", driver([(0, 0, 0, 0), (0, 3, 4, 1), (0, 2, 5, 3)]), bounds="Interaction class; all positions, frequencies and four fc3 entries", reach=("strength",)),
            Slice("driver-gzero", driver([(0, 1, 0, 0), (1, 0, 4, 1)], gz=True, bi=[4, 1], triplets=((0, 1, 3), (1, 2, 2)), per=True), bounds="with zero flags and two bands", reach=("strength",)),
            Slice("driver-unit", driver([(0, 0, 3, 0)], unit=True, scale=1.25), bounds="requested unit conversion and frequency scaling", reach=("strength",)),
            Slice("driver-cutoff", driver([(0, 0, 3, 0), (0, 2, 0, 1)], cut=0.25, gz=True), bounds="all frequencies incl. negative", reach=("strength",)),
            Slice("driver-constant", driver([(0, 0, 3, 0), (0, 5, 5, 5)], const=True), bounds="constant averaged interaction", reach=("strength",)),
            Slice("driver-python", driver([(0, 0, 0, 0), (0, 3, 4, 1), (1, 2, 5, 3)], lang="Python", triplets=((0, 1, 3), (0, 1, 2))), bounds="Python implementation", reach=("strength",)),
            Slice("driver-python-bands", driver([(0, 0, 0, 0), (0, 1, 4, 1), (0, 0, 5, 3)], lang="Python", bi=[4, 1], ev="dense"), bounds="Python implementation, two bands, dense eigenvectors", reach=("strength",)),
            Slice("driver-python-cutoff", driver([(0, 0, 5, 3)], lang="Python", bi=[4], cut=0.25), bounds="Python implementation, all frequencies", reach=("strength",)),
            Slice("averaged", averaged_pp, bounds="3 triplets, 2 bands", reach=("avg",)),
            Slice("point-twice", kernel([[0, 1, 1], [2, 3, 3]], [(0, 1, 2, 2), (1, 0, 2, 0), (0, 2, 1, 0)], ev="dense", svec="zero", symf=[(0, 0, 0, 2, 1, 2)], masses="c", freqs="pos", **T1), bounds="triplets with a repeated point", reach=("strength",)),
        ],
        modules=MODS,
    ),
    "I02": Prop(
        "I02",
        [
            Slice("r0", kernel([[0, 1, 3]], E2[1:3], masses="c", freqs="c", r0=1, short=SH, **T2), bounds="average over the three reference atoms", reach=("strength",)),
            Slice("r0-compact", kernel([[0, 1, 2]], E2[2:4], masses="c", freqs="c", r0=1, short=SH, compact=True, per=1, **T2), bounds="compact fc3", reach=("strength",)),
            Slice("r0-dense", kernel([[0, 1, 3]], [(0, 1, 2, 0), (0, 2, 0, 1)], ev="dense", masses="c", freqs="c", r0=1, short=[[[0, 1], [0, 0]]], svec="c", symf=[(0, 1, 0, 0, 1, 2), (0, 1, 1, 2, 1, 2), (1, 0, 1, 0, 0, 1)], **T12), bounds="fixed complex eigenvectors", reach=("strength",)),
            Slice("sym", kernel([[0, 1, 3]], None, masses="c", freqs="c", sym=1, symf="all", svec="zero", **T1), bounds="all bands", reach=("strength",)),
            Slice("sym-r0", kernel([[0, 1, 3]], None, masses="c", freqs="c", sym=1, r0=1, short=[[[0, 1], [0, 0]]], ev="unit", svec="c", symf=[(0, 1, 0, 0, 1, 2), (0, 1, 1, 2, 1, 2), (1, 0, 1, 0, 0, 1)], **T12), bounds="both averages", reach=("strength",)),
            Slice("sym-eigvec", kernel([[0, 1, 2]], None, ev=1, masses="c", freqs="c", sym=1, svec="zero", symf=(), **T1), bounds="all eigenvectors of one point", reach=("strength",)),
            Slice("sym-bands", kernel([[0, 1, 3]], None, masses="c", freqs="c", sym=1, svec="zero", bi=[2], per=1, **T1), bounds="one band of three", reach=("strength",)),
            Slice("driver-sym", driver([(0, 0, 0, 0), (0, 3, 4, 1)], sym=True, gz=True), bounds="Interaction class with zero flags", reach=("strength",)),
            Slice("driver-r0", driver([(0, 0, 0, 0), (0, 3, 4, 1)], r0=True, per=True), bounds="Interaction class", reach=("strength",)),
            Slice("shortest-1", shortest([1, 1, 1]), bounds="3 atoms in the supercell, all vectors on a line", reach=("short",)),
            Slice("shortest-2", shortest([1, 1, 2]), bounds="one pair with two vectors", reach=("short",)),
            Slice("sym-cutoff", kernel([[0, 1, 3]], None, masses="c", freqs="pos", cut=0.3, sym=1, svec="zero", symf=[(0, 0, 0, 1, 0, 2)], **T1), bounds="all frequencies", reach=("strength",), tier="thorough"),
        ],
        modules=MODS,
    ),
}
