"""Generalized regular grid and Brillouin-zone grid."""
import itertools

import numpy as np
from .common import *

MODS = ["phono3py.phonon.grid"]


def grid():
    import phono3py.phonon.grid as g

    return g


from .lattice import bzgrid, LATS, pg, point_group


def dims(ctx, hi, lo=1, name="D"):
    return [ctx.concretize(ctx.int("%s%d" % (name, i), lo, hi)) for i in range(3)]


def imod(a, n):
    return a % n


def index_ref(a, D):
    return imod(a[0], D[0]) + D[0] * imod(a[1], D[1]) + D[0] * D[1] * imod(a[2], D[2])


# ---------------------------------------------------------------- G01
def index_map(hi, A):
    def h(ctx):
        g = grid()
        D = dims(ctx, hi)
        a = ctx.ints("a", (3,), -A, A)
        k = ctx.ints("k", (3,), -2, 2)
        n = D[0] * D[1] * D[2]
        i = g.get_grid_point_from_address(a, I64(D))
        ctx.equal(i, index_ref(a, D), "grid index")
        ctx.check(ctx.And(i >= 0, i < n), "index in range")
        b = a.copy()
        for x in range(3):
            b[x] = a[x] + k[x] * D[x]
        ctx.equal(g.get_grid_point_from_address(b, I64(D)), i, "index is periodic")
        gr = g._get_grid_address(I64(D))
        ctx.check(gr.shape == (n, 3), "shape of the address table")
        for j in range(n):
            ctx.equal(g.get_grid_point_from_address(gr[j], I64(D)), j, "index of the j-th address is j")

    return h


def index_inj(hi):
    def h(ctx):
        g = grid()
        D = dims(ctx, hi)
        a = ctx.ints("a", (3,), -3, 6)
        b = ctx.ints("b", (3,), -3, 6)
        i = g.get_grid_point_from_address(a, I64(D))
        j = g.get_grid_point_from_address(b, I64(D))
        same = ctx.And(*[ctx.eq((a[x] - b[x]) % D[x], 0) for x in range(3)])
        ctx.check(ctx.Or(ctx.And(ctx.eq(i, j), same), ctx.And(ctx.ne(i, j), ctx.Not(same))), "same index iff equal modulo the mesh")

    return h


def index_many(hi):
    def h(ctx):
        g = grid()
        D = dims(ctx, hi)
        a = ctx.ints("a", (2, 3), -2, 3)
        v = g.get_grid_point_from_address(a, I64(D))
        w = g.get_grid_point_from_address_py(a, D)
        for r in range(2):
            ctx.equal(v[r], index_ref(a[r], D), "vectorised index")
            ctx.equal(w[r], index_ref(a[r], D), "Python index")

    return h


def index_bz(dense):
    def h(ctx):
        g = grid()
        D = dims(ctx, 2)
        bz = bzgrid(D, lattice=np.diag([1.0, 1.1, 1.3]), store_dense_gp_map=dense)
        a = ctx.ints("a", (3,), -2, 3)
        gp = bz.get_indices_from_addresses(a)
        ctx.reach("indices")
        for x in range(3):
            ctx.equal((bz.addresses[gp][x] - a[x]) % D[x], 0, "BZ grid point is equivalent to the address")
        ac = [ctx.concretize(v) for v in a]
        gps = bz.get_indices_from_addresses([ac, [0, 0, 0]])
        ctx.equal(gps[0], gp, "list of addresses")
        ctx.equal(gps[1], bz.gp_Gamma, "list of addresses")
        ctx.check(bool((bz.addresses[bz.gp_Gamma] == 0).all()), "Gamma")

    return h


# ---------------------------------------------------------------- G02
def mat(ctx, pattern, lo, hi, name="A"):
    """pattern: 9 entries, '?' symbolic or an integer"""
    v = [ctx.int("%s%d" % (name, i), lo, hi) if p == "?" else int(p) for i, p in enumerate(pattern.split())]
    a = ctx.ints(name + "_", (3, 3), 0, 0)
    for i in range(9):
        a[i // 3, i % 3] = v[i]
    return a


def det3(a):
    return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1])
            - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
            + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))


def mm(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(3)), 0) for j in range(3)] for i in range(3)]


def snf(pattern, lo, hi, force=True):
    def h(ctx):
        g = grid()
        A = mat(ctx, pattern, lo, hi)
        ctx.assume(det3(A) > 0)
        # every entry gets decided: one path per matrix in range
        A = np.array([[ctx.concretize(A[i, j]) for j in range(3)] for i in range(3)], dtype="int64")
        sd = Mock(rotations=np.eye(3, dtype="intc").reshape(1, 3, 3))
        gm = g.GridMatrix(A, np.eye(3), symmetry_dataset=sd, use_grg=True, force_SNF=force)
        D, P, Q = gm.D_diag, gm.P, gm.Q
        diag = bool((A == np.diag(np.diag(A))).all())
        if diag and not force:
            ctx.reach("diagonal")
            ctx.check(bool((D == np.diag(A)).all()), "diagonal grid matrix gives its diagonal")
            ctx.check(bool((P == np.eye(3)).all() and (Q == np.eye(3)).all()), "P = Q = 1")
            return
        ctx.reach("snf")
        ctx.check(bool((gm.grid_matrix == A).all()), "grid matrix is kept")
        M = mm(mm(P, A), Q)
        for i in range(3):
            for j in range(3):
                ctx.equal(M[i][j], D[i] if i == j else 0, "P A Q = diag(D)")
            ctx.check(D[i] > 0, "D positive")
        ctx.equal(det3(P), 1, "det P")
        ctx.equal(det3(Q), 1, "det Q")

    return h


def snf_singular(pattern, lo, hi):
    def h(ctx):
        A = mat(ctx, pattern, lo, hi)
        ctx.assume(ctx.eq(det3(A), 0))
        A = np.array([[ctx.concretize(A[i, j]) for j in range(3)] for i in range(3)], dtype="int64")
        D, P, Q = np.zeros(3, dtype="int64"), np.zeros((3, 3), dtype="int64"), np.zeros((3, 3), dtype="int64")
        r = ctx.call("snf3x3", D, P, Q, A)
        ctx.check(ctx.eq(r, 0), "singular grid matrix is refused")

    return h


UNI = [
    np.eye(3, dtype="int64"),
    I64([[1, 1, 0], [0, 1, 0], [0, 0, 1]]),
    I64([[0, 0, 1], [1, 0, 0], [0, 1, 0]]),
    I64([[1, 0, 0], [2, 1, 0], [-1, 1, 1]]),
    I64([[0, 1, 1], [1, 0, 1], [1, 1, 1]]) * 1,
]


def inv_uni(Q):
    d = int(round(np.linalg.det(Q)))
    return I64(np.rint(np.linalg.inv(Q))), d


def trot(q, pattern, hi):
    """transform_rotations: integer iff D Q^-1 R Q D^-1 is"""

    def h(ctx):
        Q = UNI[q]
        Qi, d = inv_uni(Q)
        D = dims(ctx, hi)
        R = mat(ctx, pattern, -1, 1, "R")
        out = ctx.out((1, 3, 3), "int64")
        Rin = ctx.ints("R1_", (1, 3, 3), 0, 0)
        for i in range(3):
            for j in range(3):
                Rin[0, i, j] = R[i, j]
        S = mm(mm(Qi.tolist(), R), Q.tolist())
        ok = True
        for i in range(3):
            for j in range(3):
                ok = ctx.branch(ctx.eq((S[i][j] * D[i]) % D[j], 0)) and ok
        r = ctx.call("transform_rotations", out, Rin, I64(D), Q)
        ctx.check(ctx.eq(r, 1 if ok else 0) if not isinstance(r, (bool, np.bool_)) else bool(r) == ok, "accepted iff integer")
        if ok:
            ctx.reach("integer")
            for i in range(3):
                for j in range(3):
                    ctx.equal(out[0, i, j] * D[j], S[i][j] * D[i], "rotation on the grid")

    return h


def recrot(pattern, tr):
    """group {1, R} with R R = 1, each listed twice (centred cells)"""

    def h(ctx):
        R = mat(ctx, pattern, -1, 1, "R")
        R = [[ctx.concretize(R[i, j]) for j in range(3)] for i in range(3)]
        sq = mm(R, R)
        ctx.assume(sq == np.eye(3, dtype=int).tolist())
        R = I64(R)
        one = np.eye(3, dtype="int64")
        rots = I64([one, R, R, one])
        out = np.zeros((48, 3, 3), dtype="int64")
        n = ctx.call("reciprocal_rotations", out, rots, tr)
        n = ctx.concretize(n)
        got = sorted(tuple(out[i].ravel().tolist()) for i in range(n))
        exp = {tuple(one.ravel().tolist()), tuple(R.T.ravel().tolist())}
        if tr:
            exp |= {tuple(-x for x in e) for e in list(exp)}
        ctx.reach("group")
        ctx.check(got == sorted(exp), "transposed rotations (+ inversion), each once")

    return h


# ---------------------------------------------------------------- groups
def close(gens):
    els = [np.eye(3, dtype=int)]
    seen = {els[0].tobytes()}
    k = 0
    while k < len(els):
        for g in gens:
            e = els[k] @ np.array(g)
            if e.tobytes() not in seen:
                seen.add(e.tobytes())
                els.append(e)
        k += 1
    return I64(els)


C2Z = [[-1, 0, 0], [0, -1, 0], [0, 0, 1]]
MX = [[-1, 0, 0], [0, 1, 0], [0, 0, 1]]
INV = [[-1, 0, 0], [0, -1, 0], [0, 0, -1]]
C4 = [[0, -1, 0], [1, 0, 0], [0, 0, 1]]
C3 = [[0, 0, 1], [1, 0, 0], [0, 1, 0]]
C6 = [[1, -1, 0], [1, 0, 0], [0, 0, 1]]
H2 = [[0, 1, 0], [1, 0, 0], [0, 0, -1]]
FCC4 = [[0, 0, 1], [0, -1, 1], [-1, 0, 1]]
GROUPS = {
    "1": close([]),
    "-1": close([INV]),
    "2/m": close([C2Z, INV]),
    "m": close([MX]),
    "mmm": close([C2Z, MX, INV]),
    "4": close([C4]),
    "4x": close([[[1, 0, 0], [0, 0, -1], [0, 1, 0]]]),
    "3": close([C3]),
    "-3": close([C3, INV]),
    "6/m": close([C6, INV]),
    "622": close([C6, H2]),
    "m-3m": close([C4, C3, INV]),
    "4y-obl": close([[[1, 1, 0], [-2, -1, 0], [0, 0, 1]]]),
    "shear2": close([[[-1, 1, 0], [0, 1, 0], [0, 0, -1]]]),
}


def compatible(ctx, rots, D, PS=None):
    for r in rots:
        for i in range(3):
            for j in range(3):
                if (int(r[i][j]) * D[j]) % D[i]:
                    return False
            if PS is not None and (int(r[i] @ I64(PS)) - PS[i]) % 2:
                return False
    return True


def irmap(gname, hi, shift=False):
    def h(ctx):
        g = grid()
        rots = GROUPS[gname]
        D = dims(ctx, hi)
        PS = [ctx.concretize(ctx.int("S%d" % i, -1, 2)) for i in range(3)] if shift else None
        ctx.assume(compatible(ctx, rots, D, PS))
        n = D[0] * D[1] * D[2]
        S = PS or [0, 0, 0]
        ctx.reach("map")
        bz = Mock(D_diag=I64(D), rotations=rots, PS=I64(S))
        igp, w, m = g.get_ir_grid_points(bz)
        exp = np.zeros(n, dtype=int)
        for gp in range(n):
            a = np.array([gp % D[0], gp // D[0] % D[1], gp // (D[0] * D[1])])
            best = gp
            for r in rots:
                b = (r @ (2 * a + S) - S) // 2 % D
                best = min(best, int(b[0] + D[0] * b[1] + D[0] * D[1] * b[2]))
            exp[gp] = best
        for gp in range(n):
            ctx.equal(m[gp], int(exp[gp]), "representative is the smallest index of the orbit")
        u, c = np.unique(exp, return_counts=True)
        ctx.check(np.array(igp).tolist() == u.tolist() and np.array(w).tolist() == c.tolist(), "irreducible points and weights")

    return h


# ---------------------------------------------------------------- G04
FAMILIES = {
    # rows: how to build reciprocal basis (column vectors) from parameters
    "ortho": lambda p: [[1, 0, 0], [0, p[0], 0], [0, 0, p[1]]],
    "mono": lambda p: [[1, p[0], 0], [0, p[1], 0], [0, 0, 1]],
    "mono2": lambda p: [[1, 0, p[0]], [0, 1, 0], [0, 0, p[1]]],
    "tri": lambda p: [[1, p[0], p[0]], [0, 1, p[0]], [0, 0, p[1]]],
}


def norm2(B, v):
    s = 0
    for i in range(3):
        t = B[i][0] * v[0] + B[i][1] * v[1] + B[i][2] * v[2]
        s = s + t * t
    return s


def bzaddr(fam, rng, Dlist, dense, Q=None, M=None, PS=None, only=None):
    """M: reduced basis = lattice . M (stub of the lattice reduction)"""

    def h(ctx):
        g = grid()
        p = [ctx.real("p%d" % i, lo=lo, hi=hi) if not isinstance(lo, str) else ctx.const(float(lo)) for i, (lo, hi) in enumerate(rng)]
        D = list(Dlist)
        red = FAMILIES[fam](p)  # reduced reciprocal basis, columns
        Mi = I64(np.eye(3)) if M is None else I64(M)
        Minv = I64(np.rint(np.linalg.inv(Mi)))
        # given lattice = red . Minv  (columns)
        lat = mm(red, Minv.tolist())
        lat_a = ctx.reals("lat_", (3, 3), lo=None)
        red_a = ctx.reals("red_", (3, 3), lo=None)
        for i in range(3):
            for j in range(3):
                lat_a[i, j] = lat[i][j]
                red_a[i, j] = red[i][j]
        Qm = I64(np.eye(3)) if Q is None else I64(Q)
        S = [0, 0, 0] if PS is None else PS
        g.get_reduced_bases = lambda b: np.array([[red_a[j, i] for j in range(3)] for i in range(3)], dtype=red_a.dtype).view(type(red_a))
        adr, gpmap, b2g = g._relocate_BZ_grid_address(I64(D), Qm, lat_a, PS=None if PS is None else I64(PS), store_dense_gp_map=dense)
        n = D[0] * D[1] * D[2]
        nb = len(adr)
        # tolerance: 1 % of the longest squared step of the grid
        RQ = mm(lat, Qm.tolist())
        steps = [(RQ[0][k] * RQ[0][k] + RQ[1][k] * RQ[1][k] + RQ[2][k] * RQ[2][k]) / (D[k] * D[k]) for k in range(3)]
        ctx.check(len(b2g) == nb, "lengths")
        groups = {}
        for i in range(nb):
            a = [ctx.concretize(adr[i, x]) for x in range(3)]
            groups.setdefault(index_ref(a, D), []).append((i, a))
        ctx.check(sorted(groups) == list(range(n)), "every grid point is present")
        first = True
        for gp in sorted(groups):
            mem = groups[gp]
            ctx.check(len({tuple(a) for _, a in mem}) == len(mem), "addresses are distinct")
            for i, a in mem:
                ctx.equal(b2g[i], gp, "BZ to regular grid map")
            ids = [i for i, _ in mem]
            if dense:
                ctx.check(ids == list(range(ctx.concretize(gpmap[gp]), ctx.concretize(gpmap[gp + 1]))), "dense map lists the members")
            else:
                s0, s1 = ctx.concretize(gpmap[8 * n + gp]), ctx.concretize(gpmap[8 * n + gp + 1])
                ctx.check(ids == [gp] + list(range(n + s0, n + s1)), "map lists the members")
                for i, a in mem:
                    k = index_ref(a, [2 * x for x in D])
                    ctx.equal(gpmap[k], i, "double-mesh map finds the address")
            if only is not None and gp not in only:
                continue
            # the listed members are exactly the shortest equivalents
            q0 = [mm([[0] * 3] * 3, [[0] * 3] * 3)]
            a0 = mem[0][1]
            base = _qadr(a0, S, D, Qm)
            cand = {}
            red_base = [sum(int(Minv_T) * b for Minv_T, b in zip(row, base)) for row in _redmap(Mi)]
            import math
            from fractions import Fraction as F

            red_base = [F(x) for x in red_base]
            ni = [math.floor(x + F(1, 2)) for x in red_base]
            dists = {}
            for G in itertools.product((-1, 0, 1), repeat=3):
                v = [red_base[k] - ni[k] + G[k] for k in range(3)]
                dists[tuple(v)] = norm2(red, [ctx.num(x) if x.denominator != 1 else int(x) for x in v])
            inset = set()
            for i, a in mem:
                v = _qadr(a, S, D, Qm)
                inset.add(tuple(F(sum(int(c) * b for c, b in zip(row, v))) for row in _redmap(Mi)))
            tol = None
            for v, d in dists.items():
                if v in inset:
                    continue
                # not listed: strictly longer than each listed one
                for u in inset:
                    du = dists.get(u)
                    if du is None:
                        du = norm2(red, list(u))
                    ctx.check(d > du, "an address that is left out is not shorter than one listed")
            smax = ctx.If(steps[0] < steps[1], steps[1], steps[0])
            smax = ctx.If(smax < steps[2], steps[2], smax)
            inl = sorted(inset)
            for u in inl:
                for v in dists:
                    du = dists.get(u)
                    if du is None:
                        du = norm2(red, list(u))
                    ctx.check(du < dists[v] + ctx.num(0.02) * smax + ctx.num(1e-9), "a listed address is shortest within the tolerance")

    return h


def _redmap(M):
    # coordinates in the reduced basis: lattice = red . Minv -> red coords = Minv . lat coords
    return I64(np.rint(np.linalg.inv(M))).tolist()


def _qadr(a, S, D, Q):
    from fractions import Fraction as F

    x = [F(2 * a[k] + S[k], 2 * D[k]) for k in range(3)]
    return [sum(int(Q[i][k]) * x[k] for k in range(3)) for i in range(3)]


# ---------------------------------------------------------------- G05
def brot(lat, meshes, dense, grg=None, shift=None, both=True):
    def h(ctx):
        g = grid()
        m = meshes[ctx.concretize(ctx.int("mesh", 0, len(meshes) - 1))]

        bz = bzgrid(m, lattice=LATS[lat], rotations=pg(lat), store_dense_gp_map=dense, is_shift=shift, use_grg=grg is not None)
        nb = len(bz.addresses)
        gp = ctx.concretize(ctx.int("gp", 0, nb - 1))
        PS = bz.PS
        D = bz.D_diag
        recops = bz.reciprocal_operations
        with concrete():
            inr = g.get_grid_points_by_rotations(gp, bz, with_surface=True)
        ctx.reach("rotated")
        q0 = np.linalg.multi_dot([bz.QDinv, bz.addresses[gp] + PS / 2.0])
        for k in range(len(bz.rotations)):
            q = bz.QDinv @ (bz.addresses[int(inr[k])] + PS / 2.0)
            ctx.check(bool(np.allclose(q, recops[k] @ q0, atol=1e-6)), "rotated q-point, with surface")
        if both:
            with concrete():
                inr = g.get_grid_points_by_rotations(gp, bz)
            for k in range(len(bz.rotations)):
                q = bz.QDinv @ (bz.addresses[int(inr[k])] + PS / 2.0)
                d = q - recops[k] @ q0
                ctx.check(bool(np.allclose(d, np.rint(d), atol=1e-6)), "rotated q-point modulo reciprocal lattice")
                ctx.check(int(inr[k]) in np.array(bz.grg2bzg).tolist(), "representative point")
            py = g._get_grid_points_by_bz_rotations(gp, bz, bz.rotations, lang="Py")
            cc = g._get_grid_points_by_bz_rotations(gp, bz, bz.rotations, lang="C")
            ctx.check(np.array(py).tolist() == np.array(cc).tolist(), "C and Python agree")

    return h


def rotidx(dense, pattern):
    """rotation of a BZ point with a symbolic rotation matrix row"""

    def h(ctx):
        g = grid()
        bz = bzgrid([2, 2, 3], lattice=np.diag([1.0, 1.0, 1.3]), store_dense_gp_map=dense)
        R = mat(ctx, pattern, -1, 1, "R")
        gp = ctx.concretize(ctx.int("gp", 0, len(bz.addresses) - 1))
        a = bz.addresses[gp]
        b = [R[i, 0] * int(a[0]) + R[i, 1] * int(a[1]) + R[i, 2] * int(a[2]) for i in range(3)]
        b = [ctx.concretize(x) for x in b]
        hit = np.where((bz.addresses == b).all(axis=1))[0]
        ctx.assume(len(hit) == 1)
        ctx.reach("inside")
        r = ctx.call("rotate_bz_grid_index", gp, R, bz.addresses, bz.gp_map, bz.D_diag, bz.PS, dense + 1)
        ctx.equal(r, int(hit[0]), "index of the rotated address")

    return h


PROPS = {
    "G01": Prop(
        "G01",
        [
            Slice("index", index_map(3, 7), bounds="mesh numbers 1..3 each, addresses in [-7,7]^3, shifts by up to 2 periods"),
            Slice("injective-3", index_inj(3), tier="thorough", bounds="mesh numbers 1..3, pairs of addresses in [-3,6]^3"),
            Slice("index-4", index_map(4, 9), tier="thorough", bounds="mesh numbers 1..4 each, addresses in [-9,9]^3"),
            Slice("injective", index_inj(2), bounds="mesh numbers 1..2, pairs of addresses in [-3,6]^3"),
            Slice("vectorised", index_many(2), bounds="mesh numbers 1..2, 2 addresses in [-2,3]^3"),
            Slice("bz-dense", index_bz(True), bounds="orthorhombic lattice, mesh numbers 1..2, addresses in [-2,3]^3", reach=("indices",)),
            Slice("bz-sparse", index_bz(False), bounds="as above, sparse map", reach=("indices",)),
        ],
        modules=MODS,
    ),
    "G02": Prop(
        "G02",
        [
            Slice("snf-upper", snf("? ? ? 0 ? ? 0 0 2", -2, 3), bounds="5 entries of an upper triangular matrix in [-2,3], last 2", reach=("snf",)),
            Slice("snf-lower", snf("? 0 0 ? ? 0 ? ? 3", -1, 2), bounds="lower triangular, 5 entries in [-1,2]", reach=("snf",)),
            Slice("snf-fcc", snf("-4 4 ? 4 ? 4 ? 4 -4", -6, 6), bounds="3 entries in [-6,6] around a face-centred grid", reach=("snf",)),
            Slice("snf-full", snf("? ? 1 ? -1 ? 2 ? ?", -1, 2), bounds="6 entries in [-1,2]", reach=("snf",)),
            Slice("snf-diag", snf("? 0 0 0 ? 0 0 0 ?", -4, 12), bounds="diagonal, entries in [-4,12], forced", reach=("snf",)),
            Slice("snf-diag-noforce", snf("? 0 0 ? ? 0 0 ? ?", 0, 4, force=False), bounds="5 entries in [0,4], not forced", reach=("snf", "diagonal")),
            Slice("snf-large", snf("? ? 17 0 ? 24 -13 0 12", -9, 9), bounds="3 entries in [-9,9], others up to 24", reach=("snf",)),
            Slice("snf-singular", snf_singular("? ? 1 2 ? ? 0 1 ?", -2, 2), bounds="singular matrices are refused"),
            Slice("snf-wide", snf("? ? ? ? ? ? 1 2 ?", -2, 3), tier="thorough", time=600, bounds="7 entries in [-2,3]", reach=("snf",)),
        ]
        + [Slice("rot-Q%d" % q, trot(q, pat, 3), bounds="transform of rotations, Q number %d, 4 symbolic entries, mesh numbers 1..3" % q, reach=("integer",)) for q, pat in enumerate(["? ? 0 ? ? 0 0 0 1", "? 0 ? 0 1 0 ? 0 ?", "1 0 0 0 ? ? 0 ? ?", "? ? 0 ? ? 0 0 0 -1", "? ? 0 0 ? ? 0 0 1"])]
        + [Slice("recrot-%d" % t, recrot("? ? ? ? ? ? 0 0 ?", t), bounds="reciprocal rotations of {1,R}, R an involution with 7 entries in [-1,1], time reversal %d" % t, reach=("group",)) for t in (0, 1)],
        modules=MODS,
    ),
    "G03": Prop(
        "G03",
        [Slice("ir-" + n.replace("/", "_"), irmap(n, h), bounds="group %s, mesh numbers 1..%d" % (n, h), reach=("map",)) for n, h in [("1", 2), ("-1", 3), ("2/m", 3), ("m", 3), ("mmm", 3), ("4", 4), ("4x", 4), ("3", 4), ("-3", 4), ("6/m", 4), ("622", 4), ("m-3m", 4), ("4y-obl", 4), ("shear2", 3)]]
        + [Slice("ir-shift-" + n.replace("/", "_"), irmap(n, h, True), bounds="group %s, mesh numbers 1..%d, half shifts PS in [-1,2]" % (n, h), reach=("map",)) for n, h in [("1", 2), ("-1", 3), ("2/m", 2), ("4", 2), ("-3", 3), ("m-3m", 2), ("4y-obl", 2)]],
        modules=MODS,
    ),
    "G04": Prop(
        "G04",
        [
            Slice("ortho-222-dense", bzaddr("ortho", [(0.9, 1.3), (0.8, 1.2)], (2, 2, 2), True), bounds="orthorhombic, 2 lattice parameters, mesh 2x2x2"),
            Slice("ortho-123-sparse", bzaddr("ortho", [(0.9, 1.3), (0.8, 1.2)], (1, 2, 3), False), bounds="orthorhombic, mesh 1x2x3, sparse map"),
            Slice("mono-221-dense", bzaddr("mono", [(-0.45, 0.45), ("1", 0)], (2, 2, 1), True), bounds="oblique, symbolic angle parameter, mesh 2x2x1"),
            Slice("mono-221-sparse", bzaddr("mono", [(-0.45, 0.45), ("1", 0)], (2, 2, 1), False), bounds="as above, sparse map"),
            Slice("mono-Q", bzaddr("mono", [(-0.45, 0.45), ("1", 0)], (2, 1, 2), True, Q=UNI[1]), bounds="with Q"),
            Slice("mono-unreduced", bzaddr("mono2", [(-0.45, 0.45), ("1", 0)], (2, 1, 2), True, M=[[1, 0, 1], [0, 1, 0], [0, 0, 1]]), bounds="lattice given in an unreduced basis"),
            Slice("tri-222", bzaddr("tri", [(-0.3, 0.3), ("1.2", 0)], (2, 2, 1), True, only=(1, 3)), bounds="triclinic one-parameter family through the cubic lattice, mesh 2x2x1"),
            Slice("tri-121-sparse", bzaddr("tri", [(-0.3, 0.3), ("1.2", 0)], (1, 2, 1), False), bounds="as above, mesh 1x2x1, sparse map"),
            Slice("mono2p", bzaddr("mono", [(0.1, 0.4), (0.9, 1.1)], (2, 1, 1), True), bounds="two lattice parameters, mesh 2x1x1"),
            Slice("mono-shift", bzaddr("mono2", [(-0.45, 0.45), ("1", 0)], (2, 1, 2), True, PS=[1, 0, 1]), bounds="half-shifted grid"),
        ],
        modules=MODS,
    ),
    "G05": Prop(
        "G05",
        [
        ]
        + [Slice("%s-%s" % (l, "dense" if d else "sparse"), brot(l, m, d), bounds="lattice %s, meshes %s, all BZ points and all rotations of the lattice point group, %s map" % (l, m, "dense" if d else "sparse"), reach=("rotated",))
           for l, m, d in [("cubic", [(1, 1, 1), (2, 2, 2), (3, 3, 3)], True), ("cubic", [(1, 1, 1), (2, 2, 2), (3, 3, 3)], False), ("fccp", [(1, 1, 1), (2, 2, 2)], True), ("fccp", [(2, 2, 2)], False), ("bccp", [(2, 2, 2)], False), ("hex", [(2, 2, 1), (3, 3, 2)], True), ("hex", [(2, 2, 2)], False), ("tric", [(2, 1, 3), (4, 3, 2)], False), ("tric", [(2, 1, 3), (3, 4, 2)], True)]]
        + [Slice("grg-%d" % d, brot("fccp", [np.array([[-2, 2, 2], [2, -2, 2], [2, 2, -2]]), np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]])], d, grg=True), bounds="generalized regular grids of the fcc primitive lattice", reach=("rotated",)) for d in (True, False)]
        + [Slice("shift-%s" % n, brot(l, m, d, shift=s, grg=g), bounds="half-shifted grid %s on lattice %s" % (s, l), reach=("rotated",)) for n, l, m, d, s, g in [("cubic", "cubic", [(2, 2, 2), (1, 1, 1)], True, [1, 1, 1], None), ("hex", "hex", [(2, 2, 2)], False, [0, 0, 1], None), ("tric", "tric", [(2, 1, 3)], True, [1, 0, 1], None), ("tric2", "tric", [(2, 1, 3)], False, [1, 0, 1], None)]]
        + [
            Slice("rotation-symbolic-dense", rotidx(True, "? ? 0 0 ? 0 1 0 0"), bounds="orthorhombic 2x2x3, every matrix with 3 symbolic entries in [-1,1] that keeps the point in the zone", reach=("inside",)),
            Slice("rotation-symbolic-sparse", rotidx(False, "0 1 0 ? ? 0 0 0 ?"), bounds="as above, sparse map", reach=("inside",)),
        ],
        modules=MODS,
    ),
}
