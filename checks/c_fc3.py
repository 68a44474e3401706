"""Third-order force constants: index permutations, translational invariance,
distribution by symmetry and recovery from displaced supercells."""
import itertools
import sys

import numpy as np

from engine import pyshim
from .common import *

_cache = {}


def cell(name):
    """supercell, primitive cell and symmetry of a small crystal (phonopy)"""
    if name in _cache:
        return _cache[name]
    from phonopy import Phonopy
    from phonopy.structure.atoms import PhonopyAtoms

    one = [[0.0, 0.0, 0.0]]
    D = {
        "c2": (["Na"], np.eye(3) * 3, one, [2, 1, 1]),
        "c3": (["Na"], np.eye(3) * 3, one, [3, 1, 1]),
        "c4": (["Na"], np.eye(3) * 3, one, [2, 2, 1]),
        "c4l": (["Na"], np.eye(3) * 3, one, [4, 1, 1]),
        "h3": (["Na"], np.array([[3, 0, 0], [-1.5, 1.5 * 3**0.5, 0], [0, 0, 4.0]]), one, [[2, 1, 0], [-1, 1, 0], [0, 0, 1]]),
        "cscl2": (["Cs", "Cl"], np.eye(3) * 3, [[0, 0, 0], [0.5, 0.5, 0.5]], [2, 1, 1]),
        "cscl1": (["Cs", "Cl"], np.eye(3) * 3, [[0, 0, 0], [0.5, 0.5, 0.5]], [1, 1, 1]),
        "tri2": (["Na", "Na"], np.array([[3, 0, 0], [0.4, 3.3, 0], [0.5, 0.7, 3.8]]), [[0.11, 0.2, 0.13], [0.89, 0.8, 0.87]], [2, 1, 1]),
        "p1": (["Na", "Cl"], np.array([[3, 0, 0], [0.4, 3.3, 0], [0.5, 0.7, 3.8]]), [[0.11, 0.2, 0.13], [0.52, 0.44, 0.6]], [1, 1, 1]),
        "zb": (["Zn", "S"], (np.ones((3, 3)) - np.eye(3)) * 2.5, [[0, 0, 0], [0.25, 0.25, 0.25]], [1, 1, 1]),
        "dia": (["C", "C"], (np.ones((3, 3)) - np.eye(3)) * 2, [[0, 0, 0], [0.25, 0.25, 0.25]], [1, 1, 1]),
        "zb2": (["Zn", "S"], (np.ones((3, 3)) - np.eye(3)) * 2.5, [[0, 0, 0], [0.25, 0.25, 0.25]], [2, 1, 1]),
        "pol": (["Zn", "S"], np.diag([3, 3, 4.2]), [[0, 0, 0], [0.5, 0.5, 0.3]], [1, 1, 1]),
        "kag": (["Na"] * 3, np.array([[3, 0, 0], [-1.5, 1.5 * 3**0.5, 0], [0, 0, 4.0]]), [[0.5, 0, 0], [0, 0.5, 0], [0.5, 0.5, 0]], [1, 1, 1]),
        "te": (["Te"] * 3, np.array([[4, 0, 0], [-2, 2 * 3**0.5, 0], [0, 0, 5.0]]), [[0.27, 0, 1 / 3], [0, 0.27, 2 / 3], [0.73, 0.73, 0]], [1, 1, 1]),
        "wz": (["Zn", "Zn", "O", "O"], np.array([[3, 0, 0], [-1.5, 1.5 * 3**0.5, 0], [0, 0, 4.9]]), [[1 / 3, 2 / 3, 0], [2 / 3, 1 / 3, 0.5], [1 / 3, 2 / 3, 0.38], [2 / 3, 1 / 3, 0.88]], [1, 1, 1]),
    }
    sy, lat, pos, sm = D[name]
    ph = Phonopy(PhonopyAtoms(symbols=sy, cell=lat, scaled_positions=pos), supercell_matrix=np.array(sm) if np.ndim(sm) == 2 else np.diag(sm), primitive_matrix="P", log_level=0)
    _cache[name] = (ph.supercell, ph.primitive, ph.symmetry)
    return _cache[name]


def trans_image(prim, i):
    """translation (permutation of atoms) sending atom i into the primitive
    cell's representative; found from the atomic permutations directly"""
    for p in prim.atomic_permutations:
        if p[i] in list(prim.p2s_map):
            return int(p[i]), [int(x) for x in p]
    raise HarnessError("no translation")


def full_of(ctx, prim, c):
    """full array of a compact one"""
    n = c.shape[1]
    p2s = list(prim.p2s_map)
    f = ctx.const(np.zeros((n,) * 3 + (3,) * 3))
    for i in range(n):
        t, p = trans_image(prim, i)
        for j in range(n):
            for k in range(n):
                f[i, j, k] = c[p2s.index(t), p[j], p[k]]
    return f


def tr(ctx, a, perm):
    """transposes the atom and Cartesian indices together"""
    return np.transpose(a, tuple(perm) + tuple(3 + x for x in perm))


def mean6(ctx, f):
    t = 0
    for p in itertools.permutations(range(3)):
        t = t + tr(ctx, f, p)
    return t / 6


class NoExt:
    """import of the extension fails inside"""

    def __enter__(self):
        self.m = sys.modules["phono3py._phono3py"]
        sys.modules["phono3py._phono3py"] = None

    def __exit__(self, *a):
        sys.modules["phono3py._phono3py"] = self.m


class Yes:
    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass


def perm_full(n, lang="C"):
    def h(ctx):
        import phono3py.phonon3.fc3 as mod

        f = ctx.reals("p", (n,) * 3 + (3,) * 3)
        old = f.copy()
        with Yes() if lang == "C" else NoExt():
            mod.set_permutation_symmetry_fc3(f)
        ctx.reach("permuted")
        ctx.equal(f, mean6(ctx, old), "mean over the six index permutations")

    return h


def nsym(prim):
    from phonopy.harmonic.force_constants import get_nsym_list_and_s2pp

    return get_nsym_list_and_s2pp(prim.s2p_map, prim.p2p_map, prim.atomic_permutations)


def own_image(prim, i, j):
    """the pair (i, j) is a translation of (j, i)"""
    t, p = trans_image(prim, j)
    return t == i and p[i] == j


def swaps_own(ctx, name):
    """Does the transposition of the first two indices of a compact array
    exchange the elements of pairs that are translations of their reverse?
    (Known finding: it does not.)  Observed on one concrete array."""
    sc, prim, _ = cell(name)
    pairs = [(i, j) for i in prim.p2s_map for j in range(len(sc)) if j != i and own_image(prim, i, j)]
    if not pairs:
        return True
    n = len(sc)
    a = np.arange(len(prim) * n * n * 27, dtype="double").reshape(len(prim), n, n, 3, 3, 3)
    s2pp, ns = nsym(prim)
    b = ctx.const(a)
    ctx.call("transpose_compact_fc3", b, I64(prim.atomic_permutations), I64(s2pp), I64(prim.p2s_map), I64(ns), 0)
    i, j = pairs[0]
    x = list(prim.p2s_map).index(i)
    return any(float(b[(x, j) + k]) != a[(x, j) + k] for k in np.ndindex(n, 3, 3, 3))


def transposed(ctx, prim, full, w, right):
    """full array with indices exchanged, or what the code makes of it"""
    t = tr(ctx, full, [(1, 0, 2), (2, 1, 0), (0, 2, 1)][w])
    if w < 2 and not right:
        t = t.copy()
        for i, j in np.ndindex(full.shape[:2]):
            if i != j and i in list(prim.p2s_map) and own_image(prim, i, j):
                if w == 0:
                    t[i, j] = full[i, j]
                else:
                    t[i, :, j] = full[i, :, j]
    return t


def compact(name, what, exact=False):
    def h(ctx):
        import phono3py.phonon3.fc3 as mod

        sc, prim, sym = cell(name)
        right = exact or swaps_own(ctx, name)
        c = ctx.reals("p", (len(prim), len(sc), len(sc), 3, 3, 3))
        p2s = list(prim.p2s_map)
        n = len(sc)

        def T(a, w):
            return transposed(ctx, prim, full_of(ctx, prim, a), w, right)[p2s]

        if what == "perm":
            exp = mean6(ctx, full_of(ctx, prim, c))[p2s]
            mod.set_permutation_symmetry_compact_fc3(c, prim)
        elif what == "trans":
            exp = T(c, 0)
            exp = exp - np.sum(exp, axis=1, keepdims=True) / n
            exp = T(exp, 0)
            for ax in (1, 2):
                exp = exp - np.sum(exp, axis=ax, keepdims=True) / n
            mod.set_translational_invariance_compact_fc3(c, prim)
        else:
            exp = T(c, what)
            s2pp, ns = nsym(prim)
            ctx.call("transpose_compact_fc3", c, I64(prim.atomic_permutations), I64(s2pp), I64(prim.p2s_map), I64(ns), what)
        ctx.reach("done")
        ctx.equal(c, exp, "compact array equals the rows of the full one")
        if what == "trans":
            g = full_of(ctx, prim, c)
            for ax in range(3) if right else (1, 2):
                ctx.equal(np.sum(g, axis=ax), ctx.const(np.zeros((n, n, 3, 3, 3))), "sum over one atom vanishes", scale=10)

    return h


def sparse(ctx, name, shape, only):
    """all elements symbolic, or every ``only``-th"""
    if only is None:
        return ctx.reals(name, shape)
    n = int(np.prod(shape))
    a = ctx.const(np.array([0.01 * ((7 * i) % 41 - 20) for i in range(n)]))
    for i in range(0, n, only):
        a[i] = ctx.real("%s%d" % (name, i))
    return a.reshape(shape)


def trans_full(n):
    def h(ctx):
        import phono3py.phonon3.fc3 as mod

        f = ctx.reals("p", (n,) * 3 + (3,) * 3)
        old = f.copy()
        mod.set_translational_invariance_fc3(f)
        ctx.reach("done")
        exp = old
        for ax in range(3):
            exp = exp - np.sum(exp, axis=ax, keepdims=True) / n
            ctx.equal(np.sum(f, axis=ax), ctx.const(np.zeros((n, n, 3, 3, 3))), "sum over one atom vanishes", scale=10)
        ctx.equal(f, exp, "only the means are removed")

    return h


# ---- recovery from displaced supercells -------------------------------------
_basis = {}


def ops_of(name):
    """(Cartesian rotation, permutation) of the space group; permutation sends
    atom i to p[i]"""
    sc, prim, sym = cell(name)
    lat = sc.cell.T
    pos = sc.scaled_positions
    out = []
    for r, t in zip(sym.symmetry_operations["rotations"], sym.symmetry_operations["translations"]):
        R = lat @ r @ np.linalg.inv(lat)
        p = []
        for x in pos:
            y = r @ x + t
            d = pos - y
            d -= np.rint(d)
            p.append(int(np.argmin(np.linalg.norm(d @ lat.T, axis=1))))
        if (R, p) and sorted(p) == list(range(len(pos))):
            out.append((R, p))
    return out


def invariant(name, order, x):
    """symmetrizes a tensor array over the space group and its indices"""
    n = len(x)
    y = np.zeros_like(x)
    for R, p in ops_of(name):
        if order == 2:
            y[np.ix_(p, p)] += np.einsum("ai,bj,uvij->uvab", R, R, x, optimize=True)
        else:
            y[np.ix_(p, p, p)] += np.einsum("ai,bj,ck,uvwijk->uvwabc", R, R, R, x, optimize=True)
    y /= len(ops_of(name))
    z = sum(np.transpose(y, tuple(q) + tuple(order + v for v in q)) for q in itertools.permutations(range(order)))
    return z / len(list(itertools.permutations(range(order))))


def basis(name, order, most=10**6):
    """basis of all arrays that obey the crystal symmetry"""
    if (name, order) in _basis:
        return _basis[name, order][:most]
    sc, prim, sym = cell(name)
    n = len(sc)
    rng = np.random.default_rng(5)
    out = []
    flat = []
    misses = 0
    while misses < 3:
        z = invariant(name, order, rng.integers(-3, 4, (n,) * order + (3,) * order).astype(float))
        v = z.ravel().copy()
        for u in flat:
            v -= (u @ v) * u
        if np.linalg.norm(v) < 1e-6:
            misses += 1
            continue
        misses = 0
        flat.append(v / np.linalg.norm(v))
        out.append(np.round(z, 12))
    _basis[name, order] = out
    return out[:most]


def combo(ctx, name, order, most=10**6, keep=1e9):
    """general array obeying the symmetry: symbolic coefficients"""
    n = len(cell(name)[0])
    tot = C(ctx, np.zeros((n,) * order + (3,) * order))
    for i, b in enumerate(basis(name, order)):
        c = ctx.real("a%d_%d" % (order, i), lo=-10, hi=10) if i < most else ctx.const(0.25 + 0.125 * (i % 5))
        tot = tot + ctx.const(b) * c
    return tot


def C(ctx, a):
    return ctx.const(np.asarray(a, dtype="double"))


def force(ctx, f2, f3, u):
    """forces of the harmonic plus cubic potential; u: {atom: vector}"""
    F = 0
    for i, a in u.items():
        for x in range(3):
            if a[x]:
                F = F - f2[:, i, :, x] * ctx.num(float(a[x]))
    for i, a in u.items():
        for j, b in u.items():
            for x in range(3):
                for y in range(3):
                    if a[x] and b[y]:
                        F = F - f3[:, i, j, :, x, y] * (ctx.num(float(a[x]) * float(b[y])) / 2)
    return F


_dist = {}


def env(ctx, mod):
    """phonopy's functions on exact arithmetic"""
    import phonopy.harmonic.force_constants as hfc

    g = pyshim.grounded
    if not getattr(hfc.compute_permutation_for_rotation, "__grounded__", False):
        hfc.compute_permutation_for_rotation = g(hfc.compute_permutation_for_rotation)
    if not getattr(mod.compute_all_sg_permutations, "__grounded__", False):
        mod.compute_all_sg_permutations = g(mod.compute_all_sg_permutations)
        mod.get_bond_symmetry = g(mod.get_bond_symmetry)
        mod.get_reduced_site_symmetry = g(mod.get_reduced_site_symmetry)
        for m in (mod, hfc):
            m.similarity_transformation = g(m.similarity_transformation, strict=False)
    if not _dist:
        import phonopy._phonopy as phonoc

        _dist["f"] = phonoc.distribute_fc2

        def distribute_fc2(fc, targets, idx, rots, perms, map_atoms, map_syms):
            if fc.dtype != object:
                return _dist["f"](fc, targets, idx, rots, perms, map_atoms, map_syms)
            done = {}
            for t, i in zip(targets, idx):
                if int(map_atoms[t]) == t:
                    done[int(t)] = int(i)
            for t, i in zip(targets, idx):
                d = int(map_atoms[t])
                if d == t:
                    continue
                r = rots[int(map_syms[t])]
                p = perms[int(map_syms[t])]
                for j in range(fc.shape[1]):
                    for a in range(3):
                        for b in range(3):
                            fc[i, j, a, b] = sum(r[x, a] * r[y, b] * fc[done[d], int(p[j]), x, y] for x in range(3) for y in range(3))

        phonoc.distribute_fc2 = distribute_fc2


def dataset(ctx, name, cut=None, diagonal=True, pm="auto", dist=0.03125):
    import phono3py.phonon3.displacement_fc3 as dm

    sc, prim, sym = cell(name)
    with concrete():
        d = dm.get_third_order_displacements(sc, sym, is_plusminus=pm, is_diagonal=diagonal)
        ds = dm.direction_to_displacement(d, dist, sc, cutoff_distance=cut)
    return ds


def recover(name, comp=False, cut=None, diagonal=True, pm="auto", lang="C", most2=10**6, most3=10**6, py=False):
    def h(ctx):
        import phono3py.phonon3.fc3 as mod

        sc, prim, sym = cell(name)
        env(ctx, mod)
        ds = dataset(ctx, name, cut, diagonal, pm)
        f2, f3 = combo(ctx, name, 2, most2), combo(ctx, name, 3, most3)
        k = 0
        for a in ds["first_atoms"]:
            a["forces"] = force(ctx, f2, f3, {a["number"]: a["displacement"]})
            k += 1
            ctx.check(a["id"] == k, "supercells numbered from one")
        for a in ds["first_atoms"]:
            for b in a["second_atoms"]:
                u = {a["number"]: np.array(a["displacement"])}
                u[b["number"]] = u.get(b["number"], 0) + np.array(b["displacement"])
                b["forces"] = force(ctx, f2, f3, u)
                if b.get("included") is False:
                    # not calculated: phono3py fills these with the forces of
                    # the first displacement alone
                    b["forces"] = a["forces"] * 0
                k += 1
                ctx.check(b["id"] == k, "supercells numbered in order")
        with Yes() if lang == "C" else NoExt():
            g2, g3 = mod.get_fc3(sc, prim, ds, sym, is_compact_fc=comp)
        ctx.reach("solved")
        rows = list(prim.p2s_map) if comp else list(range(len(sc)))
        ctx.check(len(g3) == len(rows) and len(g2) == len(rows), "shape of the result")
        if cut is None:
            for x, i in enumerate(rows):
                ctx.equal(g2[x], f2[i], "second-order force constants recovered", scale=100)
                ctx.equal(g3[x], f3[i], "third-order force constants recovered", scale=100)
            return
        D = dist(sc)
        for x, i in enumerate(rows):
            for j, l in np.ndindex(len(sc), len(sc)):
                known = min(D[i, j], D[j, l], D[i, l]) < cut
                ctx.equal(g3[x, j, l], f3[i, j, l] if known else C(ctx, np.zeros((3, 3, 3))), "elements with a pair inside the cutoff are recovered, others vanish", scale=100)

    return h


def dist(sc):
    n = len(sc)
    D = np.zeros((n, n))
    p = sc.scaled_positions
    for i, j in np.ndindex(n, n):
        D[i, j] = min(np.linalg.norm((p[i] - p[j] + np.array(t)) @ sc.cell) for t in itertools.product((-2, -1, 0, 1, 2), repeat=3))
    return D


def cut_zero(name, comp=False):
    """every element whose longest pair distance exceeds the cutoff"""

    def h(ctx):
        import phono3py.phonon3.fc3 as mod

        sc, prim, sym = cell(name)
        n = len(sc)
        rows = list(prim.p2s_map) if comp else list(range(n))
        f = ctx.reals("p", (len(rows), n, n, 3, 3, 3))
        old = f.copy()
        D = dist(sc)
        rc = ctx.real("rc", lo=0.01, hi=8)
        for d in sorted(set(np.round(D.ravel(), 6))):
            # not within rounding of a pair distance
            ctx.assume(ctx.Or(rc < ctx.num(d - 1e-4), rc > ctx.num(d + 1e-4)))
        mod.get_smallest_vector_of_atom_pair = pyshim.grounded(mod.get_smallest_vector_of_atom_pair)
        mod.cutoff_fc3_by_zero(f, sc, rc, p2s_map=prim.p2s_map if comp else None)
        ctx.reach("done")
        for x, i in enumerate(rows):
            for j, k in np.ndindex(n, n):
                far = ctx.branch(ctx.num(max(D[i, j], D[j, k], D[i, k])) > rc)
                ctx.equal(f[x, j, k], C(ctx, np.zeros((3, 3, 3))) if far else old[x, j, k], "zero exactly beyond the cutoff")
        if not comp:
            return
        try:
            mod.cutoff_fc3_by_zero(old, sc, rc)
            ok = len(rows) == n
        except RuntimeError:
            ok = True
        ctx.check(ok, "compact array without its atom map is refused")

    return h


R = ("done",)
S = ("solved",)
PATCH = ("phonopy.phonon.degeneracy", "phonopy.harmonic.force_constants")
PROPS = {
    "F01": Prop(
        "F01",
        [
            Slice("full", perm_full(3), bounds="3 atoms, every element", reach=("permuted",)),
            Slice("full-py", perm_full(3, "Py"), bounds="3 atoms, Python version", reach=("permuted",)),
            Slice("compact-c2", compact("c2", "perm"), bounds="2 atoms", reach=R),
            Slice("compact-c3", compact("c3", "perm"), bounds="3 atoms", reach=R),
            Slice("compact-c4", compact("c4", "perm"), bounds="2x2x1", reach=R),
            Slice("compact-h3", compact("h3", "perm"), bounds="hexagonal root-3", reach=R),
            Slice("compact-cscl2", compact("cscl2", "perm"), bounds="2 atoms in the primitive cell", reach=R),
            Slice("compact-tri2", compact("tri2", "perm"), bounds="triclinic", reach=R),
        ],
        modules=["phono3py.phonon3.fc3"],
    ),
    "F02": Prop(
        "F02",
        [Slice("full", trans_full(3), bounds="3 atoms", reach=R)]
        + [Slice("compact-%s" % n, compact(n, "trans"), bounds=n, reach=R) for n in ("c2", "c3", "c4", "h3", "cscl2", "tri2")]
        + [Slice("transpose%d-%s" % (w, n), compact(n, w), bounds=n, reach=R) for w in (0, 1, 2) for n in ("c2", "c3", "c4", "h3", "cscl2")]
        + [Slice("own-image-trans", compact("c2", "trans", True), bounds="c2", reach=R), Slice("own-image-transpose", compact("c2", 0, True), bounds="c2", reach=R)],
        modules=["phono3py.phonon3.fc3"],
    ),
    "F03": Prop(
        "F03",
        [
            Slice("full-zb2", cut_zero("zb2"), bounds="4 atoms", reach=R),
            Slice("compact-wz", cut_zero("wz", True), bounds="4 atoms", reach=R),
            Slice("compact-tri2", cut_zero("tri2", True), bounds="triclinic", reach=R),
        ],
        modules=["phono3py.phonon3.fc3"],
        patch=PATCH,
    ),
    "F05": Prop(
        "F05",
        [
            Slice("c3", recover("c3"), bounds="3x1x1 cubic; 7 coefficients", reach=S),
            Slice("zb", recover("zb"), bounds="zincblende primitive cell", reach=S),
            Slice("dia-compact", recover("dia", True), bounds="diamond: atoms related by symmetry", reach=S),
            Slice("pol", recover("pol", diagonal=False), bounds="tetragonal polar; axis displacements", reach=S),
            Slice("p1", recover("p1", most2=6, most3=12), bounds="no symmetry; 18 of 77 coefficients", reach=S),
            Slice("h3-compact", recover("h3", True, pm=True), bounds="root-3 cell, forced +-", reach=S),
            Slice("wz", recover("wz", True, most2=3, most3=10), bounds="wurtzite, 13 of 52 coefficients", reach=S),
            Slice("wz-cutoff", recover("wz", True, cut=2.5, most2=2, most3=8), bounds="wurtzite with cutoff pairs", reach=S),
            Slice("zb2-cutoff", recover("zb2", cut=2.6, most2=2, most3=8), bounds="zincblende 2x1x1 with cutoff pairs", reach=S),
            Slice("tri2", recover("tri2", True, most2=2, most3=6), bounds="triclinic 2x1x1, 8 of 115 coefficients", reach=S),
            Slice("dia-py", recover("dia", lang="Py"), bounds="Python fallbacks", reach=S),
            Slice("zb2-all", recover("zb2"), tier="thorough", bounds="all 52 coefficients", reach=S, time=600),
            Slice("tri2-all", recover("tri2"), tier="thorough", bounds="all 115 coefficients", reach=S, time=600),
        ],
        modules=["phono3py.phonon3.fc3", "phono3py.phonon3.displacement_fc3"],
        patch=PATCH,
    ),
}
