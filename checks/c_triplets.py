"""Triplets of q-points."""
import itertools

import numpy as np
from .common import *
from .lattice import *

MODS = ["phono3py.phonon3.triplets", "phono3py.phonon.grid"]


def idx(a, D):
    a = np.mod(a, D)
    return int(a[0] + D[0] * (a[1] + D[1] * a[2]))


def orbits(D, gp, rots, swap):
    """partition of GR grid points q1 for fixed q0 = gp"""
    n = int(np.prod(D))
    adr = [np.array([i % D[0], i // D[0] % D[1], i // (D[0] * D[1])]) for i in range(n)]
    stab = [r for r in rots if idx(r @ adr[gp], D) == gp]
    q_of = [min(idx(r @ adr[i], D) for r in stab) for i in range(n)]
    par = list(range(n))

    def find(x):
        while par[x] != x:
            x = par[x]
        return x

    for i in range(n):
        js = [idx(r @ adr[i], D) for r in stab]
        if swap:
            js.append(idx(-adr[gp] - adr[i], D))
        for j in js:
            a, b = find(i), find(j)
            if a != b:
                par[max(a, b)] = min(a, b)
    return q_of, [find(i) for i in range(n)]


def triplets(lat, meshes, dense, grg=False, shortest=False, gps=None, sub=None):
    def h(ctx):
        import phono3py.phonon3.triplets as m

        mesh = meshes[ctx.concretize(ctx.int("mesh", 0, len(meshes) - 1))]
        swap = bool(ctx.concretize(ctx.int("swappable", 0, 1)))
        tr = bool(ctx.concretize(ctx.int("time_reversal", 0, 1)))
        rots = pg(lat)
        if sub:
            rots = np.array([r for r in rots if sub(r)], dtype="intc")
        bz = bzgrid(mesh, lattice=lat, rotations=rots, store_dense_gp_map=dense, use_grg=grg, is_time_reversal=tr)
        gp = ctx.concretize(ctx.int("gp", 0, len(bz.addresses) - 1 if gps is None else gps))
        D = np.array(bz.D_diag)
        n = int(np.prod(D))
        t, w, mt, mq = m.get_triplets_at_q(gp, bz, is_time_reversal=tr, swappable=swap)
        ctx.reach("triplets")
        gr = int(bz.bzg2grg[gp])
        ops = list(np.array(bz.rotations))
        if tr and not any((r == -np.eye(3)).all() for r in ops):
            ops += [-r for r in ops]
        q_of, cls = orbits(D, gr, ops, swap)
        ctx.check(np.array(mq).tolist() == q_of, "q-points mapped to the smallest index of their orbit under the little group")
        # the class labels only have to partition alike
        lab = {}
        ok = True
        for i in range(n):
            ok = ok and lab.setdefault(int(mt[i]), cls[i]) == cls[i] and int(mt[int(mt[i])]) == int(mt[i])
        ctx.check(ok and len(lab) == len(set(cls)), "triplets are merged exactly when symmetry or permutation relates them")
        u, c = np.unique(np.array(mt), return_counts=True)
        ctx.check(np.array(w).tolist() == c.tolist() and int(np.sum(w)) == n, "weights count the merged triplets")
        ctx.check(np.shape(t) == (len(u), 3), "one triplet per class")
        mem = {}
        for i, g in enumerate(np.array(bz.bzg2grg)):
            mem.setdefault(int(g), []).append(i)
        A = np.array(bz.addresses)
        B = bz.reciprocal_lattice @ bz.QDinv
        for k in range(len(u)):
            t0, t1, t2 = (int(x) for x in t[k])
            ctx.check(min(t0, t1, t2) >= 0 and max(t0, t1, t2) < len(A), "triplet indices in range")
            ctx.check(int(bz.bzg2grg[t0]) == gr, "first member is the grid point")
            ctx.check(int(bz.bzg2grg[t1]) == int(u[k]), "second member represents the class")
            s = A[t0] + A[t1] + A[t2]
            ctx.check(bool((s % D == 0).all()), "q-points sum to a reciprocal lattice vector")
            best = min(
                np.linalg.norm(B @ (A[a] + A[b] + A[c]))
                for a in mem[gr] for b in mem[int(u[k])] for c in mem[int(bz.bzg2grg[t2])])
            d = np.linalg.norm(B @ s)
            if best < 1e-8:
                ctx.check(bool((s == 0).all()), "a combination that sums to zero is chosen when there is one")
            elif shortest:
                steps = max(np.linalg.norm(B[:, k]) for k in range(3))
                ctx.check(d**2 < best**2 + 0.03 * steps**2, "sum of the chosen addresses is the shortest")
        full = m.get_all_triplets(gp, bz)
        ns, nw, nm, nq = m.get_nosym_triplets_at_q(gp, bz)
        ctx.check(np.shape(full) == (n, 3) and np.array(full).tolist() == np.array(ns).tolist(), "all triplets")
        ctx.check(np.array(nw).tolist() == [1] * n and np.array(nm).tolist() == list(range(n)) == np.array(nq).tolist(), "without symmetry")
        for i in range(n):
            s = sum(A[int(x)] for x in full[i])
            ctx.check(int(bz.bzg2grg[int(full[i][0])]) == gr and int(bz.bzg2grg[int(full[i][1])]) == i and bool((s % D == 0).all()), "all triplets conserve momentum")

    return h


def proper(r):
    return round(np.linalg.det(r)) == 1


def irmesh(gens, hi):
    """reduction on symbolic meshes with an abstract group"""

    def h(ctx):
        from .c_grid import GROUPS, dims, compatible
        import phono3py.phonon3.triplets as m

        D = dims(ctx, hi)
        rots = GROUPS[gens]
        ctx.assume(compatible(ctx, rots, D))
        n = D[0] * D[1] * D[2]
        gp = ctx.concretize(ctx.int("gp", 0, n - 1))
        swap = ctx.concretize(ctx.int("swappable", 0, 1))
        tr = ctx.concretize(ctx.int("tr", 0, 1))
        ops = list(rots)
        if tr and not any((r == -np.eye(3)).all() for r in ops):
            ops += [-r for r in ops]
        mt, mq = m._get_triplets_reciprocal_mesh_at_q(gp, I64(D), rots, is_time_reversal=bool(tr), swappable=bool(swap))
        ctx.reach("map")
        q_of, cls = orbits(np.array(D), gp, ops, swap)
        ctx.check(np.array(mq).tolist() == q_of, "q map")
        lab = {}
        ok = True
        for i in range(n):
            ok = ok and lab.setdefault(int(mt[i]), cls[i]) == cls[i] and int(mt[int(mt[i])]) == int(mt[i])
        ctx.check(ok and len(lab) == len(set(cls)), "classes")

    return h


PROPS = {
    "T01": Prop(
        "T01",
        [Slice("%s-%s" % (l, "dense" if d else "sparse"), triplets(l, ms, d), bounds="lattice %s, meshes %s, all BZ grid points, with/without swapping and time reversal, %s map" % (l, ms, "dense" if d else "sparse"), reach=("triplets",))
         for l, ms, d in [("cubic", [(1, 1, 1), (2, 2, 2), (3, 3, 3)], True), ("cubic", [(2, 2, 2)], False), ("fccp", [(2, 2, 2)], True), ("fccp", [(3, 3, 3)], False), ("bccp", [(2, 2, 2)], False), ("hex", [(2, 2, 2), (3, 3, 1)], True), ("hex", [(2, 2, 2)], False), ("tric", [(2, 1, 3), (3, 2, 2), (2, 2, 2)], True), ("tric", [(2, 2, 3)], False)]]
        + [
            Slice("polar-sparse", triplets("cubic", [(2, 2, 2), (1, 1, 3)], False, sub=lambda r: (r[2] == [0, 0, 1]).all() and (r[:, 2] == [0, 0, 1]).all() and proper(r)), bounds="polar group 4 without inversion", reach=("triplets",)),
            Slice("polar-dense", triplets("hex", [(2, 2, 2)], True, sub=lambda r: (r[2] == [0, 0, 1]).all() and (r[:, 2] == [0, 0, 1]).all() and proper(r)), bounds="polar group 6 without inversion", reach=("triplets",)),
            Slice("grg", triplets("fccp", [np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]])], True, grg=True), bounds="generalized regular grid of the fcc primitive lattice", reach=("triplets",)),
            Slice("grg-sparse", triplets("fccp", [np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]])], False, grg=True), bounds="as above, sparse map", reach=("triplets",)),
        ]
        + [Slice("reduce-" + g.replace("/", "_"), irmesh(g, h), bounds="group %s, mesh numbers 1..%d, all grid points, swapping, time reversal" % (g, h), reach=("map",)) for g, h in [("1", 2), ("m", 3), ("4", 3), ("3", 3), ("6/m", 3), ("4y-obl", 3)]]
        + [Slice("umklapp-shortest", triplets("tric", [(2, 2, 2)], True, shortest=True), bounds="triclinic lattice, mesh 2x2x2, all BZ grid points: shortest Umklapp sum (known finding)", reach=("triplets",))],
        modules=MODS,
    ),
}
