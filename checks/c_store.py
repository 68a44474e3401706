"""Intermediate results kept in hdf5 files: interaction strengths, phonons,
force constants, contributions of triplets."""
import sys
import types

import numpy as np

from .common import *
from .lattice import *
from .c_files import Store, Node
from .c_kappa import tetra
from .c_spectrum import trim


def fname(head, mesh, gp=None, bands=None, sigma=None, cut=None, name=None):
    s = head + "-m%d%d%d" % tuple(mesh)
    if gp is not None:
        s += "-g%d" % gp
    if bands is not None:
        s += "-" + "".join("b%d" % (b + 1) for b in bands)
    if sigma is not None:
        s += "-s" + trim(sigma)
        if cut is not None:
            s += "-sd" + trim(cut)
    if name is not None:
        s += "." + name
    return s + ".hdf5"


KEYS = [
    dict(grid_point=3),
    dict(grid_point=3, filename="a"),
    dict(grid_point=13, sigma=0.1),
    dict(grid_point=13, sigma=0.1, sigma_cutoff=3.0),
    dict(grid_point=13, sigma=0.01, sigma_cutoff=0.5),
    dict(grid_point=13, sigma=0.1, sigma_cutoff=3.5, filename="b"),
    dict(grid_point=1),
]


def grid(lat, mesh, sub):
    r = pg(lat)
    if sub is not None:
        r = np.array([x for x in r if sub(x)])
    return bzgrid(mesh, lattice=lat, rotations=r, use_grg=np.ndim(mesh) == 2)


def strengths(shape, free, rest=0, keys=KEYS[:1], check=False, mesh=(2, 3, 4)):
    """pp files with the positions where the strengths are known to vanish"""

    def h(ctx):
        import phono3py.file_IO as fio

        st = Store().use(fio)
        n = int(np.prod(shape))
        mesh_ = I64(mesh)
        data = []
        for i, k in enumerate(keys):
            gz = np.full(n, rest, dtype="byte")
            if i % 2:
                gz[:] = 1 - gz
            if i == 0:
                for j in free:
                    gz[j % n] = 1 if ctx.branch(ctx.flags("z%d" % j, (1,))[0] != 0) else 0
            gz = gz.reshape(shape)
            pp = ctx.reals("P%d_" % i, shape, lo=0, hi=1e10)
            # strengths vanish where flagged
            for q in np.ndindex(*shape):
                if gz[q]:
                    pp[q] = ctx.const(0.0)
            data.append((pp, gz))
            w0 = pp.copy()
            g0 = gz.copy()
            fio.write_pp_to_hdf5(mesh_, pp=pp, g_zero=gz, triplet=None, weight=None, check_consistency=check, **k)
            ctx.check((gz == g0).all(), "writing leaves the flags")
            for q in np.ndindex(*shape):
                ctx.equal(pp[q], w0[q], "writing leaves the strengths")
        ctx.check(len(st) == len(keys), "one file per setting", sorted(st))
        for i, k in enumerate(keys):
            pp, gz = data[i]
            r = fio.read_pp_from_hdf5(mesh_, check_consistency=check and not ctx.symbolic, **k)
            ctx.check(r is not None and np.shape(r[0]) == tuple(shape), "shape read back")
            ctx.check(r[1] is not None and np.array_equal(np.asarray(r[1]), gz), "flags read back", lambda: "%s %s" % (r[1].ravel(), gz.ravel()))
            for q in np.ndindex(*shape):
                ctx.equal(r[0][q], pp[q], "strength read back")
        ctx.check(fio.read_pp_from_hdf5(mesh_, grid_point=77) is None, "no file, no strengths")
        ctx.reach("read")

    return h


def plain(keys, shape=(2, 2, 3, 3)):
    """pp files of all strengths"""

    def h(ctx):
        import phono3py.file_IO as fio

        st = Store().use(fio)
        data = []
        for i, k in enumerate(keys):
            pp = ctx.reals("P%d_" % i, shape, lo=0, hi=1e10)
            data.append(pp)
            tr = I64([[i, 1, 2], [i, 4, 5]])
            wt = I64([i + 1, 2])
            fio.write_pp_to_hdf5(I64([2, 3, 4]), pp=pp, triplet=tr, weight=wt, **k)
            f = st[fname("pp", (2, 3, 4), k.get("grid_point"), None, k.get("sigma"), k.get("sigma_cutoff"), k.get("filename"))]
            ctx.check(np.array_equal(f["triplet"].a, tr) and np.array_equal(f["weight"].a, wt), "triplets and weights in file")
        ctx.check(len(st) == len(keys), "one file per setting", sorted(st))
        for pp, k in zip(data, keys):
            r = fio.read_pp_from_hdf5([2, 3, 4], **k)
            ctx.check(r[1] is None, "no flags in file")
            for q in np.ndindex(*shape):
                ctx.equal(r[0][q], pp[q], "strength read back")
        ctx.reach("read")

    return h


def phonons(lat="cubic", mesh=(2, 2, 1), sub=tetra, nb=3, names=(None, "x"), ir=False, others=((2, 2, 2), (2, 1, 2), (1, 2, 1))):
    """phonons on a grid: the same arrays and addresses; another mesh is
    refused"""

    def h(ctx):
        import phono3py.file_IO as fio

        st = Store().use(fio)
        bz = grid(lat, mesh, sub)
        D = bz.D_diag
        n = len(bz.addresses)
        data = {}
        for x in names:
            f = ctx.reals("f%s_" % x, (n, nb), lo=-5, hi=50)
            e = ctx.complexes("e%s_" % x, (n, nb, nb))
            data[x] = f, e
            kw = dict(ir_grid_points=I64([0, 1]), ir_grid_weights=I64([1, 3])) if ir else {}
            out = fio.write_phonon_to_hdf5(f, e, bz.addresses, D, bz_grid=bz, filename=x, **kw)
            ctx.check(out == fname("phonon", D, name=x), "name of the file", out)
            if ir:
                ctx.check(st[out]["ir_grid_points"].a.tolist() == [0, 1] and st[out]["ir_grid_weights"].a.tolist() == [1, 3], "irreducible points in file")
            if bz.grid_matrix is not None:
                ctx.check(all((st[out][k].a == v).all() for k, v in (("grid_matrix", bz.grid_matrix), ("P_matrix", bz.P), ("Q_matrix", bz.Q))), "matrices of the generalized grid in file")
            else:
                ctx.check("grid_matrix" not in st[out], "no matrices for a regular grid")
        ctx.check(len(st) == len(names), "one file per name")
        for x in names:
            r = fio.read_phonon_from_hdf5(D, filename=x)
            f, e = data[x]
            ctx.check(np.shape(r[0]) == (n, nb) and np.shape(r[1]) == (n, nb, nb), "shapes read back")
            ctx.check(np.array_equal(r[2], bz.addresses), "addresses read back")
            for q in np.ndindex(n, nb):
                ctx.equal(r[0][q], f[q], "frequency read back")
            for q in np.ndindex(n, nb, nb):
                ctx.equal(r[1][q], e[q], "eigenvector read back")
        ctx.check(fio.read_phonon_from_hdf5(D, filename="none") is None, "no file, no phonons")
        ctx.check(fio.read_phonon_from_hdf5(D + 1) is None, "no file of that mesh, no phonons")
        for m in others:
            # the file of another mesh under the name of this one
            st[fname("phonon", m)] = st[fname("phonon", D, name=names[0])]
            try:
                ok = fio.read_phonon_from_hdf5(I64(m)) is None
            except AssertionError:
                ok = True
            ctx.check(ok, "phonons of another mesh are refused")
        ctx.reach("read")

    return h


class D64(np.ndarray):
    """stands for an array of dtype double"""

    dtype = property(lambda s: np.dtype("double"))


class FNode(Node):
    def __getitem__(self, k):
        r = Node.__getitem__(self, k)
        return r.view(D64) if isinstance(r, np.ndarray) and np.ndarray.dtype.__get__(r) == object else r


def fcs(compact, order=3, write_map=True, check="same"):
    """force constants with the map of primitive atoms in the supercell"""

    def h(ctx):
        import phono3py.file_IO as fio

        st = Store().use(fio)
        sys_h5 = sys.modules.get("h5py")
        npr, ns = 2, 3
        m = np.array([0, 2], dtype="int64")
        na = npr if compact else ns
        shape = (na,) + (ns,) * (order - 1) + (3,) * order
        a = ctx.reals("c", shape, lo=-10, hi=10)
        fakeh = types.ModuleType("h5py")
        fakeh.File = st.open
        sys.modules["h5py"] = fakeh
        try:
            w = fio.write_fc3_to_hdf5 if order == 3 else fio.write_fc2_to_hdf5
            r = fio.read_fc3_from_hdf5 if order == 3 else fio.read_fc2_from_hdf5
            name = "fc%d.hdf5" % order
            w(a, **(dict(p2s_map=m) if write_map else {}))
            ctx.check(list(st) == [name], "name of the file", sorted(st))
            w(a * ctx.num(2.0), filename="other", p2s_map=m)
            for f in st.values():
                for k in list(f):
                    f[k] = FNode(f[k].a)
            given = dict(same=m, none=None, wrong=np.array([0, 1]), longer=np.array([0, 2, 1]))[check]
            try:
                out = r(p2s_map=given)
                ok = True
            except RuntimeError:
                ok = False
            bad = check in ("wrong", "longer") and compact and write_map
            ctx.check(ok != bad, "compact force constants of other primitive atoms are refused, all others are read")
            if ok:
                ctx.check(np.shape(out) == shape, "shape read back")
                for q in np.ndindex(*shape):
                    ctx.equal(np.asarray(out).view(np.ndarray)[q], a[q], "force constant read back")
                out = r(filename="other", p2s_map=m)
                for q in list(np.ndindex(*shape))[::5]:
                    ctx.equal(np.asarray(out).view(np.ndarray)[q], a[q] * ctx.num(2.0), "force constant of the named file")
        finally:
            if sys_h5 is not None:
                sys.modules["h5py"] = sys_h5
            else:
                sys.modules.pop("h5py", None)
        ctx.reach("read")

    return h


def details(bi=None, sigmas=(None, 0.25), cut=None, name=None, nb=3, gps=(3, 1), lat="cubic", mesh=(2, 2, 1), sub=tetra):
    """contributions of triplets to the line widths (relaxation-time run)"""

    def h(ctx):
        import phono3py.file_IO as fio
        import phono3py.conductivity.utils as cu

        st = Store().use(fio)
        bz = grid(lat, mesh, sub)
        b = list(range(nb)) if bi is None else list(bi)
        pp = Mock(bz_grid=bz, band_indices=I64(b), get_band_indices=lambda: I64(b))
        pp.get_primitive = None
        pp.get_phonons = lambda: (np.zeros((len(bz.addresses), nb)), None, None)
        pp.frequency_scale_factor = None
        pp.primitive = np.zeros(nb // 3)
        T = ctx.reals("T", (2,), lo=0, hi=1000)
        tr, wt, Dt = {}, {}, {}
        for i, g in enumerate(gps):
            tr[g], wt[g] = I64([[g, i, 2], [g, 1, i]]), I64([1 + i, 3])
            pp.get_triplets_at_q = lambda: (tr[g], wt[g], None, None)
            D = Dt[g] = ctx.reals("D%d_" % g, (len(sigmas), 2, 2, len(b), nb, nb), lo=0, hi=10)
            br = Mock(get_gamma_detail_at_q=lambda: D, temperatures=T, mesh_numbers=bz.D_diag, bz_grid=bz, grid_points=I64(gps), sigmas=list(sigmas), sigma_cutoff_width=cut)
            cu.ConductivityRTAWriter.write_gamma_detail(br, pp, i, filename=name)
        names = []
        for g in gps:
            for j, s in enumerate(sigmas):
                for k in [None] if bi is None else range(len(b)):
                    n = fname("gamma_detail", bz.D_diag, g, None if k is None else [b[k]], s, cut, name)
                    names.append(n)
                    ctx.check(n in st, "file of the contributions", "%s not in %s" % (n, sorted(st)))
                    f = st[n]
                    want = Dt[g][j] if k is None else Dt[g][j][:, :, k]
                    ctx.check(np.shape(f["gamma_detail"].a) == np.shape(want), "shape of the contributions")
                    for q in np.ndindex(*np.shape(want)):
                        ctx.equal(f["gamma_detail"].a[q], want[q], "contribution of a triplet in file")
                    for t in range(2):
                        ctx.equal(f["temperature"].a[t], T[t], "temperature in file")
                    ctx.check(np.array_equal(f["triplet"].a, tr[g]) and np.array_equal(f["weight"].a, wt[g]), "triplets and weights in file")
                    ctx.check(int(f["grid_point"].a) == g and list(f["mesh"].a) == list(bz.D_diag), "grid point and mesh in file")
                    ctx.check(("sigma" in f) == (s is not None) and (s is None or float(f["sigma"].a) == s), "width in file")
                    ctx.check(("sigma_cutoff_width" in f) == (cut is not None), "cutoff in file")
                    ctx.check(("band_index" in f) == (k is not None) and (k is None or int(f["band_index"].a) == b[k] + 1), "band in file")
                    if "triplet_all" in f:
                        _all(ctx, bz, g, f["triplet_all"].a)
                    if bz.grid_matrix is not None:
                        ctx.check((f["grid_matrix"].a == bz.grid_matrix).all() and (f["P_matrix"].a == bz.P).all() and (f["Q_matrix"].a == bz.Q).all(), "matrices of the generalized grid in file")
        ctx.check(set(st) == set(names) and len(set(names)) == len(names), "one file per grid point, width and band", sorted(st))
        ctx.reach("run")

    return h


def _all(ctx, bz, g, t):
    """every second point once, and the momenta of each triplet add up"""
    t = np.asarray(t)
    ok = (bz.bzg2grg[t[:, 0]] == bz.bzg2grg[g]).all() and sorted(bz.bzg2grg[t[:, 1]]) == list(range(int(np.prod(bz.D_diag))))
    s = bz.addresses[t].sum(axis=1)
    ctx.check(ok and (s % bz.D_diag == 0).all(), "all triplets of the grid point in file")


def grids(lat="hex", mesh=(3, 3, 1), sub=None, name=None):
    """addresses and map of irreducible points; the yaml of the points"""

    def h(ctx):
        import phono3py.file_IO as fio

        st = Store().use(fio)
        bz = grid(lat, mesh, sub)
        m = ctx.ints("m", (4,), lo=0, hi=9) if hasattr(ctx, "ints") else None
        out = fio.write_grid_address_to_hdf5(bz.addresses, bz.D_diag, m, bz_grid=bz, filename=name)
        ctx.check(out == fname("grid_address", bz.D_diag, name=name) and out in st, "name of the file", out)
        f = st[out]
        ctx.check((f["grid_address"].a == bz.addresses).all(), "addresses in file")
        for i in range(4):
            ctx.equal(f["grid_mapping_table"].a[i], m[i], "map in file")
        ctx.reach("run")

    return h


MODS = ["phono3py.file_IO", "phono3py.conductivity.utils"]
R = ("read",)

PROPS = {
    "H03": Prop(
        "H03",
        [
            Slice("pp-9", strengths((1, 1, 3, 3), range(9)), bounds="9 strengths, every pattern of flags", reach=R),
            Slice("pp-8", strengths((2, 1, 2, 2), range(8), check=True), bounds="8 strengths, every pattern of flags", reach=R),
            Slice("pp-7", strengths((7, 1, 1, 1), range(7), keys=KEYS[3:4]), bounds="7 strengths, every pattern of flags", reach=R),
            Slice("pp-18", strengths((2, 1, 3, 3), (0, 6, 7, 8, 15, 16, 17), keys=KEYS[4:6]), bounds="18 strengths, flags around byte boundaries symbolic; 2 files", reach=R),
            Slice("pp-27", strengths((3, 1, 3, 3), (0, 7, 8, 23, 24, 26), rest=1, keys=KEYS[2:3], check=True), bounds="27 strengths, most flagged", reach=R),
            Slice("pp-files", strengths((1, 2, 3, 3), (0, 17), keys=KEYS), bounds="files of 7 settings", reach=R),
            Slice("pp-plain", plain(KEYS), bounds="7 files without flags", reach=R),
            Slice("phonon", phonons(), bounds="2x2x1, symbolic frequencies and eigenvectors", reach=R),
            Slice("phonon-ir", phonons("hex", (3, 3, 1), None, nb=1, ir=True), bounds="3x3x1, irreducible points", reach=R),
            Slice("phonon-grg", phonons("cubic", ((-1, 1, 1), (1, -1, 1), (1, 1, -1)), None, names=("y", None), nb=2), bounds="generalized grid", reach=R),
            Slice("fc3-compact", fcs(True), bounds="2 of 3 atoms", reach=R),
            Slice("fc3-compact-wrong", fcs(True, check="wrong"), bounds="other primitive atoms", reach=R),
            Slice("fc3-compact-longer", fcs(True, check="longer"), bounds="more primitive atoms", reach=R),
            Slice("fc3-compact-none", fcs(True, check="none"), bounds="map not given", reach=R),
            Slice("fc3-nomap", fcs(True, write_map=False), bounds="no map in the file", reach=R),
            Slice("fc3-full", fcs(False, check="wrong"), bounds="full force constants", reach=R),
            Slice("fc2-compact", fcs(True, 2), bounds="2 of 3 atoms", reach=R),
            Slice("fc2-compact-wrong", fcs(True, 2, check="wrong"), bounds="other primitive atoms", reach=R),
            Slice("fc2-full", fcs(False, 2, check="wrong"), bounds="full force constants", reach=R),
            Slice("detail", details(), bounds="2 grid points, 2 widths", reach=("run",)),
            Slice("detail-bands", details(bi=(2, 0), sigmas=(0.5, 0.25), cut=3.5, name="z"), bounds="2 of 3 bands, widths with cutoff", reach=("run",)),
            Slice("detail-grg", details(lat="cubic", mesh=((-1, 1, 1), (1, -1, 1), (1, 1, -1)), sub=None), bounds="generalized grid", reach=("run",)),
            Slice("grid", grids(), bounds="addresses of 3x3x1 hexagonal, symbolic map", reach=("run",)),
        ],
        modules=MODS,
        assumptions=["hdf5 files stand for the arrays stored in them (their precision is that of the arrays)"],
        functions=["write_pp_to_hdf5", "read_pp_from_hdf5", "write_phonon_to_hdf5", "read_phonon_from_hdf5", "write_fc3_to_hdf5", "read_fc3_from_hdf5", "write_gamma_detail_to_hdf5", "write_grid_address_to_hdf5"],
    ),
}
