"""Mode Grueneisen parameters of a crystal of bonds."""
import sys
import types

import numpy as np

from engine.pyshim import concrete
from .common import *
from .c_dataset import Pages
from .c_files import Store

RT = np.sqrt


class Crystal:
    """atoms of a primitive cell and bonds (a, b, lattice translation, K):
    energy of a bond whose ends move by d relative to each other:
    K dd / 2 + T ddd / 6"""

    alike = False

    def __init__(self, ctx, cell, pos, masses, bonds, smat, seed=0):
        from phonopy.structure.atoms import PhonopyAtoms
        from phonopy.structure.cells import get_supercell, get_primitive

        self.ctx = ctx
        self.cell = np.array(cell, dtype=float)
        self.pos = np.array(pos, dtype=float)
        self.n = len(pos)
        with concrete():
            u = PhonopyAtoms(symbols=["H"] * self.n, masses=masses, cell=self.cell, scaled_positions=self.pos)
            self.scell = get_supercell(u, np.diag(smat))
            self.prim = get_primitive(self.scell, np.linalg.inv(np.diag(smat).astype(float)), store_dense_svecs=True)
        self.masses = np.array(self.prim.masses)
        rng = np.random.default_rng(seed)
        self.bonds = []
        for i, (a, b, t) in enumerate(bonds):
            m = np.rint(rng.uniform(-2, 2, (3, 3)) * 4) / 8
            K = m @ m.T + np.diag(np.rint(rng.uniform(8, 32, 3)) / 8)
            if self.alike and self.bonds:
                K = self.bonds[0][4]
            r = (self.pos[b] + np.array(t) - self.pos[a]) @ self.cell
            T = ctx.const(np.zeros((3, 3, 3)))
            for q in np.ndindex(3, 3, 3):
                if q == tuple(sorted(q)):
                    v = ctx.real("T%d_%d%d%d" % ((i,) + q), lo=-10, hi=10)
                    for p in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)):
                        T[tuple(q[x] for x in p)] = v
            self.bonds.append((a, b, np.array(t), r, K, T))
        self._fc(smat)

    def _fc(self, smat):
        """force constants in the supercell"""
        sp = self.scell.positions
        sl = self.scell.cell
        inv = np.linalg.inv(sl)
        ns = len(sp)

        def find(x):
            d = (sp - x) @ inv
            d -= np.rint(d)
            return int(np.argmin(np.linalg.norm(d @ sl, axis=1)))

        ends = []
        for t in np.ndindex(*smat):
            for bond in self.bonds:
                a, b, tb, r, K, T = bond
                xa = (self.pos[a] + np.array(t)) @ self.cell
                ends.append((find(xa), find(xa + r), K, T))
        fc2 = np.zeros((ns, ns, 3, 3))
        fc3 = self.ctx.const(np.zeros((ns, ns, ns, 3, 3, 3)))
        for A, B, K, T in ends:
            for i, si in ((A, -1), (B, 1)):
                for j, sj in ((A, -1), (B, 1)):
                    fc2[i, j] += si * sj * K
                    for k, sk in ((A, -1), (B, 1)):
                        s = self.ctx.num(float(si * sj * sk))
                        for q in np.ndindex(3, 3, 3):
                            fc3[(i, j, k) + q] = fc3[(i, j, k) + q] + s * T[q]
        self.fc2, self.fc3 = fc2, fc3

    def relaxation(self):
        """displacements of the atoms under unit strains: [atom, m, k, l]"""
        n = self.n
        P = np.zeros((n, 3, n, 3))
        F = np.zeros((n, 3, 3, 3))
        for a, b, t, r, K, T in self.bonds:
            for i, si in ((a, -1), (b, 1)):
                for j, sj in ((a, -1), (b, 1)):
                    P[i, :, j, :] += si * sj * K
                # force on atom i when the bond is strained
                F[i] -= si * np.einsum("mk,l->mkl", K, r)
        return (np.linalg.pinv(P.reshape(3 * n, 3 * n), rcond=1e-10) @ F.reshape(3 * n, 9)).reshape(n, 3, 3, 3)

    def dD(self, q, clamped):
        """strain derivative of the dynamical matrix: real and imaginary parts
        as a list of (i, j, phase, coefficient array [3,3,k,l])"""
        X = np.zeros((self.n, 3, 3, 3)) if clamped else self.relaxation()
        out = []
        c = self.ctx
        for a, b, t, r, K, T in self.bonds:
            u = np.einsum("mk,l->mkl", np.eye(3), r) + X[b] - X[a]
            d = c.const(np.zeros((3, 3, 3, 3)))
            for i, j, k, l in np.ndindex(3, 3, 3, 3):
                v = c.num(0.0)
                for m in range(3):
                    if u[m, k, l] != 0:
                        v = v + T[i, j, m] * c.num(float(u[m, k, l]))
                d[i, j, k, l] = v
            rs = np.linalg.solve(self.cell.T, r)
            ph = np.exp(2j * np.pi * np.dot(rs, q))
            M = np.sqrt(np.outer(self.masses, self.masses))
            for i, si, j, sj, p in ((a, -1, a, -1, 1), (b, 1, b, 1, 1), (a, -1, b, 1, ph), (b, 1, a, -1, np.conj(ph))):
                out.append((i, j, si * sj * p / M[i, j], d))
        return out


def chain(ctx, seed=0):
    """two atoms in a cell, bonded along the first axis"""
    return Crystal(ctx, [[2.0, 0, 0], [0.25, 2.5, 0], [0, 0.5, 3.0]], [[0, 0, 0], [0.3125, 0.1875, 0.125]], [1.0, 2.25], [(0, 1, (0, 0, 0)), (1, 0, (1, 0, 0)), (0, 0, (1, 0, 0))], (3, 1, 1), seed)


def three(ctx, seed=1):
    """one atom, bonds along all axes"""
    return Crystal(ctx, [[2.0, 0, 0], [0.25, 2.5, 0], [0, 0.5, 3.0]], [[0, 0, 0]], [1.5625], [(0, 0, (1, 0, 0)), (0, 0, (0, 1, 0)), (0, 0, (0, 0, 1))], (3, 3, 3), seed)


def plane(ctx, seed=2):
    return Crystal(ctx, [[2.0, 0, 0], [0.25, 2.5, 0], [0, 0.5, 3.0]], [[0, 0, 0], [0.25, 0.125, 0.1875]], [1.0, 4.0], [(0, 1, (0, 0, 0)), (1, 0, (1, 0, 0)), (0, 1, (0, -1, 0))], (3, 3, 1), seed)


class Images(Crystal):
    """an atom at the same distance from two images of another one: phases and
    positions are averaged over the images"""

    alike = True

    def dD(self, q, clamped):
        c = self.ctx
        sp, sl = self.scell.scaled_positions, self.scell.cell
        ns, p2s = len(sp), [int(x) for x in self.prim.p2s_map]

        def images(a, s):
            v = np.array([(sp[s] - sp[a] + np.array(t) - 1) @ sl for t in np.ndindex(3, 3, 3)])
            n = np.linalg.norm(v, axis=1)
            return v[n < n.min() + 1e-4]

        out = []
        for nu in range(self.n):
            R = [images(p2s[nu], s).mean(axis=0) for s in range(ns)]
            for s in range(ns):
                pi = p2s.index(int(self.prim.s2p_map[s]))
                ph = np.exp(2j * np.pi * (images(p2s[nu], s) @ np.linalg.inv(self.cell) @ q)).mean()
                d = c.const(np.zeros((3, 3, 3, 3)))
                for i, j, k, l in np.ndindex(3, 3, 3, 3):
                    for m in range(ns):
                        if abs(R[m][l]) > 1e-12:
                            d[i, j, k, l] = d[i, j, k, l] + self.fc3[p2s[nu], s, m, i, j, k] * c.num(float(R[m][l]))
                out.append((nu, pi, ph / np.sqrt(self.masses[nu] * self.masses[pi]), d))
        return out


def half(ctx, seed=3):
    return Images(ctx, np.diag([4.0, 3.0, 2.5]), [[0, 0, 0], [0.5, 0.25, 0.125]], [1.0, 2.25], [(0, 1, (0, 0, 0)), (0, 1, (-1, 0, 0))], (1, 1, 1), seed)


def make(make_crystal, clamped=False, factor=15.0):
    def h(ctx):
        import phono3py.phonon3.gruneisen as gm

        cr = make_crystal(ctx)
        return cr, gm.Gruneisen(cr.fc2, cr.fc3, cr.scell, cr.prim, ion_clamped=clamped, factor=ctx.num(factor))

    return h


def tensor(ctx, cr, gr, q, w, om, clamped):
    """-<w| dD |w> / 2 w^2 for every mode"""
    d = cr.dD(q, clamped)
    n3 = 3 * cr.n
    out = []
    for s in range(n3):
        g = ctx.const(np.zeros((3, 3)))
        for a, b, p, t in d:
            for i, j in np.ndindex(3, 3):
                # real part of conj(w_ai) p w_bj
                c = np.conj(w[3 * a + i, s]) * p * w[3 * b + j, s]
                for k, l in np.ndindex(3, 3):
                    g[k, l] = g[k, l] + t[i, j, k, l] * ctx.num(float(c.real))
        out.append(g * ctx.num(-0.5 / om[s] if abs(om[s]) > 1e-6 else 0.0))
    return out


def modes(cr, q):
    """eigenvectors of the dynamical matrix as the code takes them"""
    from phonopy.harmonic.dynamical_matrix import DynamicalMatrix

    with concrete():
        dm = DynamicalMatrix(cr.scell, cr.prim, cr.fc2)
        dm.run(q)
        D = np.array(dm.dynamical_matrix)
    # the same matrix from the bonds
    M = np.zeros((3 * cr.n, 3 * cr.n), dtype=complex)
    for a, b, t, r, K, T in cr.bonds:
        ph = np.exp(2j * np.pi * np.dot(np.linalg.solve(cr.cell.T, r), q))
        for i, si, j, sj, p in ((a, -1, a, -1, 1), (b, 1, b, 1, 1), (a, -1, b, 1, ph), (b, 1, a, -1, np.conj(ph))):
            M[3 * i : 3 * i + 3, 3 * j : 3 * j + 3] += si * sj * p * K / np.sqrt(cr.masses[i] * cr.masses[j])
    assert np.allclose(D, M), "phase convention"
    om, w = np.linalg.eigh(D)
    return om, w


QS = ([0.5, 0, 0], [0.25, 0.125, 0.375], [0, 0, 0], [-0.3, 0.1, 0.2])


def points(make_crystal, clamped=False, qs=QS, mode="qpoints"):
    def h(ctx):
        import phono3py.phonon3.gruneisen as gm

        cr = make_crystal(ctx)
        gr = gm.Gruneisen(cr.fc2, cr.fc3, cr.scell, cr.prim, ion_clamped=clamped, factor=15.0)
        if mode == "qpoints":
            gr.set_qpoints(np.array(qs))
        elif mode == "band":
            gr.set_band_structure([np.array(qs[:2]), np.array(qs[1:])])
        else:
            with concrete():
                gr.set_sampling_mesh([2, 1, 2], rotations=np.eye(3, dtype=int)[None], is_gamma_center=True)
        gr.run()
        G, F = gr._gruneisen_parameters, gr._frequencies
        if mode == "band":
            G, F = [x for p in G for x in p], [x for p in F for x in p]
            Q = list(qs[:2]) + list(qs[1:])
        else:
            Q = qs if mode == "qpoints" else np.array(gr._qpoints)
        ctx.check(len(G) == len(Q) and len(F) == len(Q), "one tensor per q-point")
        for n, q in enumerate(Q):
            q = np.array(q, dtype=float)
            om, w = modes(cr, q)
            want = tensor(ctx, cr, gr, q, w, om, clamped)
            gamma = np.abs(q).max() < 1e-5
            for s in range(3 * cr.n):
                ctx.equal(F[n][s], ctx.num(float(np.sqrt(abs(om[s])) * np.sign(om[s]) * 15.0)), "frequency", scale=1 if not gamma else 100, rtol=1e-6 if not gamma else 1e-5)
                for k, l in np.ndindex(3, 3):
                    if gamma and s < 3:
                        ctx.equal(G[n][s][k, l], ctx.num(0.0), "acoustic modes at Gamma")
                    else:
                        ctx.equal(G[n][s][k, l], want[s][k, l], "strain derivative of the squared frequency", scale=100)
        ctx.reach("run")

    return h


class Dm:
    """dynamical matrix that takes down where it is asked"""

    def __init__(self, n, nac):
        self.n, self.nac, self.calls = n, nac, []
        self.dynamical_matrix = np.diag(np.arange(1.0, 3 * n + 1)).astype(complex)

    def is_nac(self):
        return self.nac

    def run(self, q, q_direction=None):
        self.calls.append((np.array(q, dtype=float), None if q_direction is None else np.array(q_direction, dtype=float)))


def directions(mode, nac=True, qdir=None, path=((0.5, 0, 0), (0.25, 0, 0), (0, 0, 0), (0, 0.25, 0), (0, 0.5, 0))):
    """directions of approach for the non-analytical term"""

    def h(ctx):
        import phono3py.phonon3.gruneisen as gm

        cr = chain(ctx)
        gr = gm.Gruneisen(cr.fc2, cr.fc3, cr.scell, cr.prim, ion_clamped=True, nac_q_direction=None if qdir is None else list(qdir), factor=1.0)
        dm = gr._dm = Dm(cr.n, nac)
        path_ = np.array(path)
        if mode == "band":
            gr.set_band_structure([path_, path_[2:], path_[:3]])
            want = [path_, path_[2:], path_[:3]]
        else:
            gr.set_qpoints(path_)
            want = [path_]
        gr.run()
        n = 0
        for p in want:
            for i, q in enumerate(p):
                got, d = dm.calls[n]
                n += 1
                ctx.check(np.allclose(got, q), "q-point")
                if not nac:
                    e = None
                elif np.abs(q).max() > 1e-5:
                    e = q
                elif mode == "band":
                    e = q - p[i - 1] if i > 0 else p[i + 1] - q
                else:
                    e = None if qdir is None else np.array(qdir)
                if e is None:
                    ctx.check(d is None, "no direction")
                else:
                    ctx.check(d is not None and np.linalg.norm(np.cross(d, e)) < 1e-8 and abs(np.dot(d, e)) > 1e-8, "direction of approach", "%s at %s: %s" % (e, q, d))
        ctx.check(n == len(dm.calls), "one calculation per q-point")
        if mode == "band":
            rec = np.linalg.inv(cr.cell).T
            for p, dd in zip(want, gr._band_distances):
                e = 0.0
                for i in range(len(p)):
                    if i:
                        e += np.linalg.norm((p[i] - p[i - 1]) @ rec)
                    ctx.check(abs(float(dd[i]) - e) < 1e-9, "distance along the path")
        ctx.reach("run")

    return h


def files(mode):
    """output files hold each tensor, its mean diagonal and the frequency"""

    def h(ctx):
        import phono3py.phonon3.gruneisen as gm

        nb = 3
        gr = gm.Gruneisen.__new__(gm.Gruneisen)
        gr._weights = None
        nq = 3
        g = ctx.reals("g", (nq, nb, 3, 3), lo=-10, hi=10)
        f = ctx.reals("f", (nq, nb), lo=-10, hi=50)
        qs = np.array([[0.5, 0, 0.25], [0, 0, 0], [0.125, 0.25, -0.5]])
        gr._gruneisen_parameters, gr._frequencies, gr._qpoints, gr._run_mode = g, f, qs, mode
        pages = Pages(ctx).use(gm)
        st = Store()
        keep = sys.modules.get("h5py")
        fake = types.ModuleType("h5py")
        fake.File = st.open
        sys.modules["h5py"] = fake
        try:
            if mode == "mesh":
                gr._mesh = I64([2, 3, 1])
                gr._weights = I64([1, 2, 4])
            elif mode == "band":
                gr._band_paths = [qs[:2], qs[1:]]
                gr._band_distances = [[0.0, 0.5], [0.0, 0.25]]
                gr._gruneisen_parameters = [g[:2], g[1:]]
                gr._frequencies = [f[:2], f[1:]]
            gr.write(filename="out")
        finally:
            pages.stop()
            sys.modules["h5py"] = keep
        if mode == "mesh":
            ctx.check(list(st) == ["out.hdf5"] and not pages.files, "file of a mesh")
            d = st["out.hdf5"]
            for i, s in np.ndindex(nq, nb):
                ctx.equal(d["gruneisen"].a[i, s], (g[i, s, 0, 0] + g[i, s, 1, 1] + g[i, s, 2, 2]) / ctx.num(3.0), "mean of the diagonal")
                ctx.equal(d["frequency"].a[i, s], f[i, s], "frequency in file")
                for k, l in np.ndindex(3, 3):
                    ctx.equal(d["gruneisen_tensor"].a[i, s, k, l], g[i, s, k, l], "tensor in file")
            ctx.check((d["weight"].a == gr._weights).all() and (d["mesh"].a == gr._mesh).all() and np.allclose(np.array(d["qpoint"].a, dtype=float), qs), "points in file")
        else:
            ctx.check(list(pages.files) == ["out.yaml"] and not st, "file of q-points")
            pages.digits(pages.files["out.yaml"], 7)
            y = pages.load(pages.files["out.yaml"])
            items = [(i, p) for i, p in enumerate(y["phonon"])] if mode == "qpoints" else [(a + i, p) for a, path in zip((0, 1), y["path"]) for i, p in enumerate(path["phonon"])]
            ctx.check([i for i, p in items] == ([0, 1, 2] if mode == "qpoints" else [0, 1, 1, 2]), "points in file")
            for i, p in items:
                ctx.check(np.allclose(p["q-position"], qs[i]), "q-point in file")
                ctx.check(len(p["band"]) == nb, "modes in file")
                for s, b in enumerate(p["band"]):
                    ctx.equal(b["frequency"], f[i, s], "frequency in file", rtol=1e-5)
                    ctx.equal(b["gruneisen"], (g[i, s, 0, 0] + g[i, s, 1, 1] + g[i, s, 2, 2]) / ctx.num(3.0), "mean of the diagonal", scale=100)
                    for k, l in np.ndindex(3, 3):
                        ctx.equal(b["gruneisen_tensor"][k][l], g[i, s, k, l], "tensor in file", scale=100)
            if mode == "band":
                d = [p["distance"] for _, p in items]
                ctx.check(np.allclose(np.array(d, dtype=float), [0, 0.5, 0, 0.25]), "distances in file")
        ctx.reach("run")

    return h


def entry(ctx):
    """the program calculates at the points it is asked for, with the given
    crystal and settings, and writes the file of that kind of points"""
    import phono3py.phonon3.gruneisen as mod

    qdir = ctx.ints("qdir", (3,), -3, 3)
    factor = ctx.real("factor", lo=1, hi=20)
    clamped = bool(ctx.branch(ctx.flags("clamped", (1,))[0] != 0))
    named = bool(ctx.branch(ctx.flags("named", (1,))[0] != 0))
    which = int(ctx.concretize(ctx.int("which", 0, 2)))
    fc2, fc3 = ctx.reals("fc2_", (2,)), ctx.reals("fc3_", (2,))
    Real = getattr(mod.Gruneisen, "real", mod.Gruneisen)
    log = []

    class G:
        def __init__(self, *a, **k):
            log.append(("init", a, k))

        def set_sampling_mesh(self, mesh, rotations=None, is_gamma_center=False, **k):
            log.append(("mesh", mesh, rotations, is_gamma_center))

        def set_band_structure(self, paths):
            log.append(("band", paths))

        def set_qpoints(self, q):
            log.append(("qpoints", q))

        def run(self):
            log.append(("run",))

        def write(self, filename="gruneisen"):
            log.append(("write", filename))

    G.real = Real
    mod.Gruneisen = G
    q = ctx.reals("q", (2, 3), lo=-1, hi=1)
    given = [dict(mesh=[2, 3, 4]), dict(band_paths=[q]), dict(qpoints=q)][which]
    args = dict(dict(band_paths=None, mesh=None, qpoints=None), **given)
    mod.run_gruneisen_parameters(fc2, fc3, "scell", "pcell", args["band_paths"], args["mesh"], "rots", args["qpoints"], nac_params="nac", nac_q_direction=qdir, ion_clamped=clamped, factor=factor, symprec=2.0**-10, output_filename="x" if named else None, log_level=0)
    ctx.check([e[0] for e in log] == ["init", ("mesh", "band", "qpoints")[which], "run", "write"], "points, calculation, file", [e[0] for e in log])
    import inspect

    names = [n for n in inspect.signature(Real.__init__).parameters][1:]
    a = dict(zip(names, log[0][1]), **log[0][2])
    ctx.equal(a["fc2"], fc2, "second-order force constants")
    ctx.equal(a["fc3"], fc3, "third-order force constants")
    ctx.check(a["supercell"] == "scell" and a["primitive"] == "pcell" and a.get("nac_params") == "nac" and bool(a.get("ion_clamped")) == clamped and a.get("symprec") == 2.0**-10, "crystal and settings")
    ctx.equal(a.get("nac_q_direction"), qdir, "direction at Gamma")
    ctx.equal(a.get("factor"), factor, "unit conversion")
    p = log[1]
    if which == 0:
        ctx.check(list(p[1]) == [2, 3, 4] and p[2] == "rots" and p[3] is True, "mesh around Gamma, reduced by symmetry")
    else:
        ctx.equal(p[1][0] if which == 1 else p[1], q, "q-points")
    ctx.check(log[3][1] == ("gruneisen.x" if named else "gruneisen"), "name of the file", log[3][1])
    ctx.reach("run")


R = ("run",)
PROPS = {
    "U01": Prop(
        "U01",
        [
            Slice("chain", points(chain), bounds="2 atoms, 3 bonds of symbolic cubic constants; 4 q-points", reach=R),
            Slice("chain-clamped", points(chain, clamped=True, qs=QS[:3]), bounds="ions clamped", reach=R),
            Slice("three", points(three, qs=QS[1:3]), bounds="1 atom, bonds along 3 axes", reach=R, time=200),
            Slice("plane", points(plane, qs=QS[1:3]), bounds="2 atoms, bonds in a plane", reach=R, time=200),
            Slice("images", points(half, clamped=True, qs=([0.25, 0.125, 0.375], [0.5, 0, 0.25])), bounds="2 atoms, two images at the same distance", reach=R),
            Slice("band", points(chain, mode="band"), bounds="2 paths", reach=R),
            Slice("mesh", points(three, mode="mesh"), bounds="1 atom, 2x1x2 mesh", reach=R),
            Slice("entry", entry, bounds="mesh, paths or q-points; any direction and factor", reach=R),
            Slice("directions-band", directions("band"), bounds="paths through, from and to Gamma", reach=R),
            Slice("directions-points", directions("qpoints", qdir=(0, 0, 1)), bounds="given direction", reach=R),
            Slice("directions-none", directions("qpoints"), bounds="no direction given", reach=R),
            Slice("directions-off", directions("band", nac=False), bounds="no non-analytical term", reach=R),
            Slice("file-mesh", files("mesh"), bounds="symbolic tensors, hdf5", reach=R),
            Slice("file-band", files("band"), bounds="symbolic tensors, yaml", reach=R),
            Slice("file-points", files("qpoints"), bounds="symbolic tensors, yaml", reach=R),
        ],
        modules=["phono3py.phonon3.gruneisen"],
        functions=["Gruneisen._get_X", "Gruneisen._get_Y", "Gruneisen._get_dPhidu", "Gruneisen._get_dDdu", "Gruneisen._get_gruneisen_tensor"],
        assumptions=["force constants of bonds shorter than half of the supercell; harmonic part and eigenvectors concrete (eigenvectors from the same library call)"],
    ),
}
