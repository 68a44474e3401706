"""Integration weights: linear tetrahedron method and Gaussian smearing."""
import itertools
import math

import numpy as np
from .common import *
from .lattice import *

MODS = ["phono3py.phonon3.triplets", "phono3py.phonon.grid", "phono3py.other.tetrahedron_method"]


# ---------------------------------------------------------------- reference
def trunc_dd(knots, below, w, n):
    """Divided difference of x -> max(x-w, 0)**n over sorted knots
    [(value, class)]; equal classes are equal values; the first `below` of
    them lie below w."""
    memo = {}

    def rec(i, j):
        if (i, j) in memo:
            return memo[i, j]
        if j < below:
            r = 0
        elif knots[i][1] == knots[j][1]:
            k = j - i
            r = math.comb(n, k) * (knots[i][0] - w) ** (n - k) if k < n else (1 if k == n else 0)
        else:
            r = (rec(i + 1, j) - rec(i, j - 1)) / (knots[j][0] - knots[i][0])
        memo[i, j] = r
        return r

    return rec(0, len(knots) - 1)


def ref_weight(v, cls, c, r, w, fn):
    """v: sorted vertex values, cls: labels of equal values, c: position of
    the centre among them, r: number of values below w."""
    kn = []
    for i in range(4):
        kn.append((v[i], cls[i]))
        if i == c:
            kn.append((v[i], cls[i]))
    below = r + (1 if c < r else 0)
    n = 3 if fn == "I" else 4
    if r == 0:
        dd = 0 if fn == "I" else 1
    elif r == 4:
        dd = 0
    else:
        dd = trunc_dd(kn, below, w, n)
    return dd if fn == "I" else (1 - dd) / 4


FAR = 1000.0
PERMS = list(itertools.permutations(range(4)))


def one_tetra(ctx, freqs, w, t, fn, tabs):
    """weight at grid point 0 with tetrahedron t spanned by the points 0..3
    (freqs) and every other one by points far above"""
    rel = np.full((24, 4, 3), 0, dtype="int64")
    rel[:, :, 0] = 4
    rel[t] = [[0, 0, 0], [1, 0, 0], [2, 0, 0], [3, 0, 0]]
    D = I64([5, 1, 1])
    adr = I64([[i, 0, 0] for i in range(5)])
    gpm = I64(range(6))
    f = ctx.reals("frq_", (5, 1), lo=None)
    for i in range(4):
        f[i, 0] = freqs[i]
    f[4, 0] = ctx.const(FAR)
    wp = ctx.reals("w_", (1,), lo=None)
    wp[0] = w
    out = ctx.out((1, 1, 1))
    ctx.call("integration_weights_at_grid_points", out, wp, rel, D, I64([0]), f, adr, gpm, I64(range(5)), 2, fn)
    return out[0, 0, 0]


def tetra(fn, ts, perms, patterns=range(8)):
    def h(ctx):
        t = ts[ctx.concretize(ctx.int("tetrahedron", 0, len(ts) - 1))]
        p = PERMS[perms[ctx.concretize(ctx.int("order", 0, len(perms) - 1))]]
        pt = list(patterns)
        z = pt[ctx.concretize(ctx.int("equal", 0, len(pt) - 1))]
        r = ctx.concretize(ctx.int("below", 0, 4))
        b = ctx.real("base", lo=-50, hi=50)
        v, cls = [b], [0]
        for i in range(3):
            if z >> i & 1:
                v.append(v[-1])
                cls.append(cls[-1])
            else:
                v.append(v[-1] + ctx.real("gap%d" % i, lo=0.001 if fn == "I" else 0.25, hi=20 if fn == "I" else 2))
                cls.append(cls[-1] + 1)
        e = 0.001 if fn == "I" else 0.1
        s = ctx.real("s", lo=e, hi=20)
        if r == 0:
            w = v[0] - s
        elif r == 4:
            w = v[3] + s
        else:
            if cls[r] == cls[r - 1]:
                ctx.reach("skip")
                return
            w = v[r - 1] + s
            ctx.assume(w + ctx.num(e) < v[r])
        # vertex k of the tetrahedron gets the p[k]-th value
        got = one_tetra(ctx, [v[p[k]] for k in range(4)], w, t, fn, None)
        ctx.reach("weight")
        ctx.equal(got, ref_weight(v, cls, p[0], r, w, fn) / 6, "weight of one tetrahedron (%s)" % fn)

    return h


def vertex(ctx):
    """w equal to a vertex value, all distinct: g is continuous there"""
    k = ctx.concretize(ctx.int("vertex", 1, 2))
    b = ctx.real("base", lo=-50, hi=50)
    v = [b]
    for i in range(3):
        v.append(v[-1] + ctx.real("gap%d" % i, lo=0.001, hi=20))
    got = one_tetra(ctx, v, v[k], 0, "I", None)
    ctx.reach("weight")
    ctx.equal(got, ref_weight(v, [0, 1, 2, 3], 0, k, v[k], "I") / 6, "weight at a frequency equal to a vertex frequency")


def total(mesh, fn, dense):
    """every tetrahedron of a real grid: all bands far below / above"""

    def h(ctx):
        import phono3py.other.tetrahedron_method as m

        lat = ["cubic", "fccp", "hex", "tric"][ctx.concretize(ctx.int("lattice", 0, 3))]
        bz = bzgrid(mesh, lattice=lat, store_dense_gp_map=dense)
        n = len(bz.addresses)
        f = ctx.reals("f", (n, 2), lo=-3)
        fv = f.copy()
        hi = ctx.real("hi", lo=1)
        # frequencies in [-3, top]
        for i in range(n):
            for j in range(2):
                ctx.assume(f[i, j] < 30)
        pts = ctx.reals("pts_", (2,), lo=None)
        pts[0] = ctx.const(-3.0) - hi
        pts[1] = ctx.const(30.0) + hi
        w = m.get_integration_weights(pts, fv, bz, function=fn)
        ctx.reach("weights")
        ctx.check(w.shape == (int(np.prod(bz.D_diag)), 2, 2), "one weight per grid point, frequency and band")
        for i in range(w.shape[0]):
            for j in range(2):
                ctx.equal(w[i, 0, j], 0, "below all bands")
                ctx.equal(w[i, 1, j], 0 if fn == "I" else 1, "above all bands")

    return h


def irmap(dense):
    """weights at grid points with frequencies kept at irreducible points,
    several bands and sampling points: layout and lookup"""

    def h(ctx):
        import phono3py.other.tetrahedron_method as m

        bz = bzgrid([2, 2, 1], lattice="cubic", rotations=pg("cubic")[:1], store_dense_gp_map=dense)
        n = len(bz.addresses)
        nir = 2
        mp = I64([(int(g) % 2) for g in bz.bzg2grg])  # two classes
        f = ctx.reals("f", (nir, 2), lo=0.5, )
        for i in range(nir):
            for j in range(2):
                ctx.assume(f[i, j] < 10)
        ctx.assume(ctx.And(f[0, 0] + 1 < f[1, 0], f[0, 1] + 1 < f[1, 1]))
        pts = ctx.reals("w", (2,), lo=0)
        gps = I64([2, 0])
        for b in range(2):
            ctx.assume(ctx.And(f[0, b] + 0.5 < pts[0], pts[0] + 0.5 < f[1, b]))
        ctx.assume(pts[1] > 11)
        got = m.get_integration_weights(pts, f, bz, grid_points=gps, bzgp2irgp_map=mp, function="J")
        ctx.reach("weights")
        rel = np.dot(m.get_tetrahedra_relative_grid_address(bz.microzone_lattice), bz.P.T)
        D = bz.D_diag
        for a, gp in enumerate(gps):
            for b in range(2):
                s = 0
                for t in range(24):
                    vs = []
                    for k in range(4):
                        ad = bz.addresses[gp] + rel[t, k]
                        g = bz.get_indices_from_addresses(np.mod(ad, D))
                        vs.append(int(mp[g]))
                    low = vs.count(0)
                    v = [f[0, b]] * low + [f[1, b]] * (4 - low)
                    c = 0 if vs[0] == 0 else 3
                    s = s + ref_weight(v, vs_sorted(vs), c, low, pts[0], "J")
                ctx.equal(got[a, 0, b], s / 6, "weight at grid point, sampling point and band")
                ctx.equal(got[a, 1, b], 1, "all states below")

    return h


def vs_sorted(vs):
    return sorted(vs)


def maindiag(ctx):
    """table of tetrahedra for a symbolic micro-cell"""
    import phono3py.other.tetrahedron_method as m

    L = ctx.reals("L", (3, 3), lo=-2)
    for i in range(3):
        for j in range(3):
            ctx.assume(L[i, j] < 2)
            if j > i:
                L[i, j] = ctx.const(0.0)
    rel = m.get_tetrahedra_relative_grid_address(L)
    rel = np.array([[[int(rel[i, j, k]) for k in range(3)] for j in range(4)] for i in range(24)])
    ctx.reach("table")
    ok = bool((rel[:, 0] == 0).all())
    base = set()
    tets = set()
    diags = None
    for t in rel:
        e = t[1:] - t[0]
        ok = ok and abs(round(np.linalg.det(e))) == 1
        s = frozenset(map(tuple, t.tolist()))
        tets.add(s)
        ok = ok and len(s) == 4
        mn = t.min(axis=0)
        ok = ok and bool((t.max(axis=0) - mn <= 1).all())
        base.add(frozenset(map(tuple, (t - mn).tolist())))
        d = set()
        for a in t:
            for b in t:
                if (abs(a - b) == 1).all():
                    d.add(tuple((a - b).tolist()))
        diags = d if diags is None else diags & d
    # 6 tetrahedra of the unit cell, each seen from its four vertices
    ok = ok and len(tets) == 24 and len(base) == 6
    want = {frozenset(tuple(x - y for x, y in zip(p, o)) for p in b) for b in base for o in b}
    ctx.check(ok and want == tets, "the six tetrahedra of a cell, seen from each of their vertices")
    ctx.check(diags is not None and len(diags) == 2, "common main diagonal")
    d0 = sorted(diags)[-1]

    def n2(d):
        s = 0
        for i in range(3):
            x = L[i, 0] * d[0] + L[i, 1] * d[1] + L[i, 2] * d[2]
            s = s + x * x
        return s

    for d in [(1, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1)]:
        if d == d0 or tuple(-x for x in d) == d0:
            continue
        ctx.check(n2(d0) <= n2(d), "shortest main diagonal is chosen")


def neighbours(lat, mesh, dense, grg=False):
    def h(ctx):
        bz = bzgrid(mesh, lattice=lat, store_dense_gp_map=dense, use_grg=grg, rotations=pg(lat)[:1] if not grg else pg(lat))
        n = len(bz.addresses)
        gp = ctx.concretize(ctx.int("gp", 0, n - 1))
        r = ctx.ints("r", (1, 3), -1, 2)
        out = ctx.out((1,), "int64")
        ctx.call("neighboring_grid_points", out, I64([gp]), r, bz.D_diag, bz.addresses, bz.gp_map, 2 if dense else 1)
        g = out[0]
        a = [int(bz.addresses[gp][x]) + r[0, x] for x in range(3)]
        ac = [ctx.concretize(x) for x in a]
        hit = [i for i in range(n) if bz.addresses[i].tolist() == ac]
        ctx.reach("neighbour")
        if hit:
            ctx.equal(g, hit[0], "the neighbour at its own address when the zone contains it")
        else:
            g = ctx.concretize(g)
            ctx.check(0 <= g < n, "neighbour in range")
            ctx.check(bool(((bz.addresses[g] - np.array(ac)) % bz.D_diag == 0).all()), "equivalent neighbour otherwise")

    return h


# ---------------------------------------------------------------- W02
def trip_setup(ctx, nf):
    """q1 vertices: points 0..3 of a 1D chain, q2 vertices: q2 - r."""
    rel = np.zeros((24, 4, 3), dtype="int64")
    rel[:, :, 0] = 4
    D = I64([16, 1, 1])
    adr = I64([[i, 0, 0] for i in range(16)])
    gpm = I64(range(17))
    return rel, D, adr, gpm


def trip(tp, order, nb=1, neg=False, t=5):
    """weights of one triplet (q0; q1 = 0, q2 = 8): tetrahedron t active"""

    def h(ctx):
        rel, D, adr, gpm = trip_setup(ctx, 1)
        rel[t] = [[0, 0, 0], [1, 0, 0], [2, 0, 0], [3, 0, 0]]
        f = ctx.reals("frq_", (16, nb), lo=None)
        a = ctx.reals("a", (4, nb), lo=-1 if neg else 0.01)
        b2 = ctx.reals("b", (4, nb), lo=-1 if neg else 0.01)
        for i in range(16):
            for s in range(nb):
                f[i, s] = ctx.const(FAR)
        for i in range(4):
            for s in range(nb):
                f[i, s] = a[i, s]
                f[(8 - i) % 16, s] = b2[i, s]
                ctx.assume(ctx.And(a[i, s] < 100, b2[i, s] < 100))
        # all others: q1 + 4 far, q2 - 4 = point 4: far as well; sums far, differences:
        for s in range(nb):
            f[4, s] = ctx.const(3 * FAR)
            f[(8 - 4) % 16, s] = ctx.const(3 * FAR)
        w = ctx.reals("w", (1,), lo=0.1)
        ctx.assume(w[0] < 90)
        return rel, D, adr, gpm, f, a, b2, w

    return h


def triplet_weights(tp, dense_order, nb=1, cut=None, t=5, sym=("a0", "a2"), bval=(1.0, 1.25, 0.75, 2.0), aval=(1.5, 0.5, 2.5, 1.0), neg=False, wval=None):
    def h(ctx):
        D = I64([16, 1, 1])
        adr = I64([[i, 0, 0] for i in range(16)])
        gpm = I64(range(17))
        rel = np.zeros((24, 4, 3), dtype="int64")
        rel[:, :, 0] = 4
        rel[t] = [[0, 0, 0], [1, 0, 0], [2, 0, 0], [3, 0, 0]]
        lo = -1 if neg else 0.01
        f1 = ctx.reals("f1_", (16, nb), lo=None)
        f2 = ctx.reals("f2_", (16, nb), lo=None)
        for i in range(16):
            for s in range(nb):
                f1[i, s] = ctx.const(FAR)
                f2[i, s] = ctx.const(3 * FAR)
        A, B = {}, {}
        for s in range(nb):
            for k in range(4):
                A[k, s] = ctx.real("a%d_%d" % (k, s), lo=lo, hi=50) if "a%d" % k in sym else ctx.const(aval[k] + s)
                B[k, s] = ctx.real("b%d_%d" % (k, s), lo=lo, hi=50) if "b%d" % k in sym else ctx.const(bval[k] + 2 * s)
        for k in range(4):
            for s in range(nb):
                f1[k, s] = A[k, s]
                f2[(8 - k) % 16, s] = B[k, s]
        w = ctx.real("w", lo=0.1, hi=100) if wval is None else ctx.const(wval)
        wp = ctx.reals("w_", (1,), lo=None)
        wp[0] = w
        n = 3 if tp == 3 else 2
        g = ctx.out((n, 1, 1, nb, nb))
        gz = ctx.out((1, 1, nb, nb), "byte")
        ctx.call("triplets_integration_weights", g, gz, wp, rel, D, I64([[0, 0, 8]]), f1, f2, adr, gpm, 2, tp)
        ctx.reach("weights")
        for i in range(nb):
            for j in range(nb):
                vals = []
                inside = []
                for s1, s2 in [(-1, 1), (1, -1), (1, 1)]:
                    v = []
                    for k in range(4):
                        x, y = A[k, i], B[k, j]
                        if neg:
                            x = x if not ctx.branch(x < 0) else 0
                            y = y if not ctx.branch(y < 0) else 0
                        v.append(s1 * x + s2 * y)
                    fars = {(-1, 1): 2 * FAR, (1, -1): -2 * FAR, (1, 1): 4 * FAR}[s1, s2]
                    # signed far value: the other tetrahedra do not reach w
                    rel1 = rel
                    ff = ctx.reals("cmb_", (5, 1), lo=None)
                    for k in range(4):
                        ff[k, 0] = v[k] if hasattr(v[k], "op") else ctx.const(float(v[k]))
                    ff[4, 0] = ctx.const(fars)
                    out = ctx.out((1, 1, 1))
                    ctx.call("integration_weights_at_grid_points", out, wp, rel1, I64([5, 1, 1]), I64([0]), ff, I64([[q, 0, 0] for q in range(5)]), I64(range(6)), I64(range(5)), 2, "I")
                    vals.append(out[0, 0, 0])
                ctx.equal(g[0, 0, 0, i, j], vals[2], "weight of two phonons merging: delta(w - f1 - f2)")
                ctx.equal(g[1, 0, 0, i, j], vals[0] - vals[1], "difference of the two absorption deltas")
                if tp == 3:
                    ctx.equal(g[2, 0, 0, i, j], vals[0] + vals[1] + vals[2], "sum of the three deltas")
                z = ctx.branch(ctx.ne(gz[0, 0, i, j], 0))
                if z:
                    for x in range(n):
                        ctx.equal(g[x, 0, 0, i, j], 0, "a weight flagged zero is zero")
                    for x in vals:
                        ctx.equal(x, 0, "a weight is flagged only if all deltas vanish")

    return h


def sigma_weights(n, nb, cutoff, lang="C", nt=1, nfp=1):
    def h(ctx):
        import phono3py.phonon3.triplets as m

        f = ctx.reals("f", (3, nb), lo=None)
        tr = I64([[0, 1, 2], [0, 2, 1]][:nt])
        sg = ctx.real("sigma", pos=True)
        wp = ctx.reals("w", (nfp,), lo=None)
        pp = Mock()
        pp.get_triplets_at_q = lambda: (tr, None, None, None)
        pp.get_phonons = lambda: (f, None, None)
        sc = None if cutoff is None else ctx.real("cutoff", lo=0.1, hi=10)
        g, gz = m.get_triplets_integration_weights(pp, wp, sg, sigma_cutoff=sc, is_collision_matrix=n == 3, lang=lang)
        ctx.check(g.shape == (n, nt, nfp, nb, nb), "shape")
        ctx.reach("weights")

        def gs(x):
            return ctx.num(1 / np.sqrt(2 * np.pi)) / sg * ctx.fn("exp", -(x * x) / 2 / (sg * sg))

        for t in range(nt):
            for p in range(nfp):
                for i in range(nb):
                    for j in range(nb):
                        f1, f2 = f[tr[t, 1], i], f[tr[t, 2], j]
                        w = wp[p]
                        d = [w - f1 - f2, w + f1 - f2, w - f1 + f2]
                        zero = False
                        if sc is not None:
                            zero = True
                            for x in d:
                                ax = ctx.If(x < 0, -x, x)
                                zero = zero and ctx.branch(ax > sc * sg)
                        G = [0, 0, 0] if zero else [gs(x) for x in d]
                        ctx.equal(g[0, t, p, i, j], G[0], "Gaussian of w - f1 - f2")
                        ctx.equal(g[1, t, p, i, j], G[1] - G[2], "difference of the absorption Gaussians")
                        if n == 3:
                            ctx.equal(g[2, t, p, i, j], G[0] + G[1] + G[2], "sum of the three Gaussians")
                        if gz is not None:
                            ctx.equal(gz[t, p, i, j], 1 if zero else 0, "zero flag iff all three are beyond the cutoff")

    return h


PROPS = {
    "W01": Prop(
        "W01",
        [Slice("I-order%d" % k, tetra("I", [0], list(range(6 * k, 6 * k + 6))), bounds="all frequencies, orders %d-%d of the 24, all patterns of equal vertices" % (6 * k, 6 * k + 5), reach=("weight",)) for k in range(4)]
        + [Slice("J-order%d" % k, tetra("J", [0], list(range(6 * k, 6 * k + 6))), bounds="integrated weight, orders %d-%d" % (6 * k, 6 * k + 5), reach=("weight",)) for k in range(4)]
        + [
            Slice("I-every-tetrahedron", tetra("I", list(range(24)), [3, 11], patterns=[0]), bounds="each of the 24 tetrahedra", reach=("weight",)),
            Slice("total-I", total([2, 1, 1], "I", True), bounds="four lattices, outside of the bands", reach=("weights",)),
            Slice("total-J", total([1, 2, 1], "J", False), bounds="as above, integrated", reach=("weights",)),
            Slice("ir-map-dense", irmap(True), bounds="2x2x1 grid, 2 bands, 2 points, frequencies at irreducible points", reach=("weights",)),
            Slice("ir-map-sparse", irmap(False), bounds="as above, sparse map", reach=("weights",)),
            Slice("main-diagonal", maindiag, bounds="micro-cell: lower triangular, 6 reals in [-2,2]", reach=("table",)),
            Slice("vertex", vertex, bounds="frequency equal to a vertex frequency (known finding)", reach=("weight",)),
        ]
        + [Slice("neighbour-%s-%s" % (l, "dense" if d else "sparse"), neighbours(l, ms, d, g), bounds="%s %s: all grid points, relative addresses in [-1,2]^3" % (l, ms), reach=("neighbour",))
           for l, ms, d, g in [("cubic", [2, 2, 2], True, False), ("cubic", [2, 2, 1], False, False), ("hex", [2, 2, 1], True, False), ("tric", [2, 3, 1], False, False)]],
        modules=MODS,
    ),
    "W02": Prop(
        "W02",
        [
            Slice("type2", triplet_weights(2, None, wval=1.1), bounds="2 symbolic vertices of phonon 1, fixed frequency point", reach=("weights",)),
            Slice("type3", triplet_weights(3, None, t=17, sym=("a1", "b1")), bounds="one symbolic vertex of each phonon, with the sum of the deltas", reach=("weights",)),
            Slice("type3-b", triplet_weights(3, None, t=2, sym=("b3",)), bounds="1 symbolic vertex of phonon 2, symbolic frequency point", reach=("weights",)),
            Slice("type2-negative", triplet_weights(2, None, sym=("b0",), neg=True), bounds="imaginary modes", reach=("weights",)),
            Slice("type3-bands", triplet_weights(3, None, nb=2, t=23, sym=("b2",), wval=1.9), bounds="2 bands, fixed frequency point", reach=("weights",)),
        ],
        modules=MODS,
    ),
    "W03": Prop(
        "W03",
        [
            Slice("sigma2", sigma_weights(2, 2, None), bounds="2 bands, no cutoff", reach=("weights",)),
            Slice("sigma3", sigma_weights(3, 1, None, nt=2, nfp=2), bounds="2 triplets, 2 points, no cutoff", reach=("weights",)),
            Slice("sigma2-cutoff", sigma_weights(2, 1, True, nt=1, nfp=2), bounds="symbolic cutoff", reach=("weights",)),
            Slice("sigma3-cutoff", sigma_weights(3, 1, True, nt=2), bounds="symbolic cutoff, 2 triplets", reach=("weights",)),
            Slice("sigma-python", sigma_weights(3, 2, None, lang="Py"), bounds="Python implementation", reach=("weights",)),
        ],
        modules=MODS,
    ),
}
