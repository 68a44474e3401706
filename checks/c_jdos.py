"""Joint density of states."""
import os
import tempfile

import numpy as np
from .common import *
from .lattice import bzgrid


def build(ctx, mod, nb, f, lat="cubic", mesh=(2, 2, 1), **kw):
    prim = Mock(cell=np.eye(3))
    prim = type("P", (Mock,), {"__len__": lambda s: nb // 3})(cell=np.eye(3))
    mod.get_dynamical_matrix = lambda *a, **k: None

    def solver(dm, freqs, ev, done, gps, *a, **k):
        ctx.check(gps is not None, "grid points given to the solver")
        for g in gps:
            freqs[g] = f[g]
            done[g] = 1

    mod.run_phonon_solver_c = solver
    bz = bzgrid(list(mesh), lattice=lat, rotations=kw.pop("rotations", None))
    return mod.JointDos(prim, None, bz, None, **kw), bz


def formula(ctx, d, bz, f, g, gz, T, cut, nb, k):
    tr, w = d.get_triplets_at_q()
    s1, s2 = 0, 0
    for i in range(len(w)):
        for a in range(nb):
            for b in range(nb):
                g0, ga, gb = g[0][i, k, a, b], g[1][i, k, a, b], g[2][i, k, a, b]
                if T is None:
                    s2 = s2 + g0 * int(w[i])
                    s1 = s1 + (ga + gb) * int(w[i])
                    continue
                x, y = f[tr[i, 1], a], f[tr[i, 2], b]
                if not ctx.branch(x > cut) or not ctx.branch(y > cut):
                    continue
                n1, n2 = bose(ctx, x, T), bose(ctx, y, T)
                s2 = s2 + (n1 + n2 + 1) * g0 * int(w[i])
                s1 = s1 + (n1 - n2) * (ga - gb) * int(w[i])
    n = int(np.prod(bz.D_diag))
    return s1 / n, s2 / n


def weights_stub(ctx, mod, d, nfp, nb, tag="g", gzf=None):
    """arbitrary weights of w-f1-f2, w+f1-f2, w-f1+f2"""
    tr, w = d.get_triplets_at_q()
    nt = len(w)
    g = [ctx.reals(tag + str(x), (nt, nfp, nb, nb)) for x in range(3)]
    gz = np.zeros((nt, nfp, nb, nb), dtype="byte")
    if gzf:
        for n, ix in enumerate(np.ndindex(*gz.shape)):
            if n % gzf == 0:
                gz[ix] = 1
                for x in range(3):
                    g[x][ix] = ctx.const(0.0)
    seen = []

    def giw(pp, fp, sigma, sigma_cutoff=None, is_collision_matrix=False, lang="C", **k):
        seen.append((fp, sigma, sigma_cutoff, is_collision_matrix))
        n = 3 if is_collision_matrix else 2
        out = ctx.const(np.zeros((n, nt, nfp, nb, nb)))
        for ix in np.ndindex(nt, nfp, nb, nb):
            out[(0,) + ix] = g[0][ix]
            out[(1,) + ix] = g[1][ix] - g[2][ix]
            if n == 3:
                out[(2,) + ix] = g[0][ix] + g[1][ix] + g[2][ix]
        return out, gz.copy()

    mod.get_triplets_integration_weights = giw
    return g, gz, seen


def freqs(ctx, ng, nb, vary, lo=0.02):
    f = ctx.const(np.array([[0.3 + 0.2 * g + 0.45 * b for b in range(nb)] for g in range(ng)]))
    for g in vary:
        for b in range(nb):
            f[g, b] = ctx.real("f%d_%d" % (g, b), lo=lo, hi=40)
    return f


def jdos(temp, gp=1, nfp=2, lang="C", cut=0.01, vary=(0, 1, 2, 3), nb=3, lo=0.02, gzf=5, nosym=False):
    def h(ctx):
        import phono3py.phonon3.joint_dos as mod

        T = None if temp is None else (ctx.const(0.0) if temp == 0 else ctx.real("T", lo=0.1, hi=3000))
        d, bz = build(ctx, mod, nb, None, cutoff_frequency=ctx.const(cut), is_mesh_symmetry=not nosym)
        f = freqs(ctx, len(bz.addresses), nb, vary, lo)
        d, bz = build(ctx, mod, nb, f, cutoff_frequency=ctx.const(cut), is_mesh_symmetry=not nosym)
        d.set_grid_point(gp)
        ctx.reach("jdos")
        g, gz, seen = weights_stub(ctx, mod, d, nfp, nb, gzf=gzf)
        fp = ctx.reals("w", (nfp,))
        d.frequency_points = fp
        d._temperature = T
        if lang == "C":
            d.run()
        else:
            d.run_phonon_solver()
            d.run_integration_weights()
            d.run_jdos(lang=lang)
        ctx.check(list(d.get_mesh_numbers()) == [2, 2, 1], "mesh numbers")
        for p in range(nfp):
            ctx.equal(seen[0][0][p], fp[p], "weights evaluated at the frequency points")
            s1, s2 = formula(ctx, d, bz, f, g, gz, T, ctx.const(cut), nb, p)
            ctx.equal(d.joint_dos[p, 0], s1, "difference (class 1) part")
            ctx.equal(d.joint_dos[p, 1], s2, "sum (class 2) part")

    return h


def smeared(temp, cutoff=None):
    """with the real smearing weights, end to end"""

    def h(ctx):
        import phono3py.phonon3.joint_dos as mod

        T = None if temp is None else ctx.real("T", lo=0.1, hi=3000)
        nb, sg = 3, 0.5
        d, bz = build(ctx, mod, nb, None)
        f = freqs(ctx, len(bz.addresses), nb, (2,), 0.1)
        d, bz = build(ctx, mod, nb, f, cutoff_frequency=0.01, sigma=sg, sigma_cutoff=cutoff)
        d.set_grid_point(1)
        fp = ctx.reals("w", (1,))
        d.frequency_points = fp
        d._temperature = T
        d.run()
        tr, w = d.get_triplets_at_q()

        def gs(x):
            return ctx.num(1 / np.sqrt(2 * np.pi) / sg) * ctx.fn("exp", -(x * x) / 2 / (sg * sg))

        nt = len(w)
        g = [ctx.const(np.zeros((nt, 1, nb, nb))) for x in range(3)]
        for i in range(nt):
            for a in range(nb):
                for b in range(nb):
                    x, y = f[tr[i, 1], a], f[tr[i, 2], b]
                    for k, v in enumerate((fp[0] - x - y, fp[0] + x - y, fp[0] - x + y)):
                        g[k][i, 0, a, b] = gs(v)
        ctx.reach("jdos")
        s1, s2 = formula(ctx, d, bz, f, g, None, T, ctx.const(0.01), nb, 0)
        ctx.equal(d.joint_dos[0, 0], s1, "difference (class 1) part", scale=1)
        ctx.equal(d.joint_dos[0, 1], s2, "sum (class 2) part", scale=1)

    return h


def api(temps_, sigmas, nfp=5, batch=2):
    """Phono3pyJointDos: every width, temperature and batch"""

    def h(ctx):
        import phono3py.api_jointdos as api_
        import phono3py.phonon3.joint_dos as mod

        nb = 3
        temps = None if temps_ is None else [ctx.real("T%d" % t, lo=1, hi=2000) for t in range(temps_)]
        f = ctx.const(np.array([[0.3 + 0.2 * g + 0.45 * b for b in range(nb)] for g in range(64)]))
        for g in range(1, 4):
            f[g, 1] = ctx.real("f%d" % g, lo=0.2, hi=1)
        f[5, 2] = ctx.const(9.0)
        d, bz = build(ctx, mod, nb, f)
        api_.Symmetry = lambda *a, **k: Mock(dataset=Mock(rotations=np.eye(3, dtype=int)[None]))
        api_.BZGrid = lambda *a, **k: bz
        written = []
        api_.write_joint_dos = lambda gp, mesh, fr, jd, sigma=None, temperatures=None, **k: written.append((gp, sigma, temperatures, jd))
        a = api_.Phono3pyJointDos(None, d.primitive, None, mesh=[2, 2, 1], sigmas=list(sigmas), temperatures=None if temps is None else list(temps), num_frequency_points=nfp, num_points_in_batch=batch, cutoff_frequency=ctx.const(0.01))
        G = {}
        jd = a._jdos
        jd.set_grid_point(1)
        nt = len(jd.get_triplets_at_q()[1])
        for x, s in enumerate(sigmas):
            G[s] = [ctx.reals("g%d_%d" % (x, y), (nt, nfp, nb, nb)) for y in range(3)]
        fps = {}

        def giw(pp, fp, sigma, sigma_cutoff=None, is_collision_matrix=False, lang="C", **k):
            n = 3 if is_collision_matrix else 2
            idx = [[v is w_ or (v - w_ if not hasattr(v - w_, "op") else 1) == 0 for w_ in a.frequency_points].index(True) for v in fp]
            g = G[sigma]
            out = ctx.const(np.zeros((n, nt, len(idx), nb, nb)))
            for ix in np.ndindex(nt, len(idx), nb, nb):
                v = [g[y][(ix[0], idx[ix[1]]) + ix[2:]] for y in range(3)]
                out[(0,) + ix] = v[0]
                out[(1,) + ix] = v[1] - v[2]
                if n == 3:
                    out[(2,) + ix] = v[0] + v[1] + v[2]
            return out, np.zeros((nt, len(idx), nb, nb), dtype="byte")

        mod.get_triplets_integration_weights = giw
        a.run([1], write_jdos=True)
        out = a.joint_dos
        ctx.reach("api")
        ts = [None] if temps is None else temps
        ctx.check(tuple(np.shape(out)) == (len(sigmas), len(ts), nfp, 2), "shape of the joint DOS")
        for p in range(nfp):
            m = 0
            smax = max([s for s in sigmas if s is not None], default=0)
            ctx.equal(a.frequency_points[p], (2 * 9.0 + 4 * smax) * 1.005 * p / (nfp - 1), "frequency points")
        for x, s in enumerate(sigmas):
            for t, T in enumerate(ts):
                for p in range(nfp):
                    s1, s2 = formula(ctx, jd, bz, f, G[s], None, T, ctx.const(0.01), nb, p)
                    ctx.equal(out[x, t, p, 0], s1, "difference part per width and temperature")
                    ctx.equal(out[x, t, p, 1], s2, "sum part per width and temperature")
        seen = [(int(q[0]), q[1]) for q in written]
        ctx.check(seen == [(1, s) for s in sigmas] or set(seen) == set((1, s) for s in sigmas), "every width is written")

    return h


def files(ctx):
    """write_joint_dos writes one file per temperature"""
    import phono3py.file_IO as io

    n = ctx.concretize(ctx.ints("n", (1,), 0, 3)[0])
    ctx.reach("files")
    opened = {}

    class W:
        def __init__(self, name):
            self.n = name
            opened[name] = ""

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def write(self, s):
            opened[self.n] += s

    io.open = lambda name, mode="r": W(name)
    temps = None if n == 0 else [100.0 * (x + 1) for x in range(n)]
    k = max(n, 1)
    vals = np.arange(k * 2 * 2, dtype=float).reshape(k, 2, 2)
    with concrete():
        name = io.write_joint_dos(4, np.array([2, 3, 4]), np.array([0.5, 1.5]), vals, sigma=0.25, temperatures=temps)
    ctx.check(len(opened) == k, "one file per temperature")
    ctx.check(name in opened, "returned name is a written file")
    got = sorted([tuple(float(x) for x in v.split()) for v in opened.values()])
    exp = sorted([tuple(float(x) for p in range(2) for x in (0.5 + p, vals[t, p, 0], vals[t, p, 1])) for t in range(k)])
    ctx.check(got == exp, "each file holds the values of its temperature")


R = ("jdos",)
M = ["phono3py.phonon3.joint_dos", "phono3py.api_jointdos", "phono3py.phonon3.imag_self_energy", "phono3py.file_IO"]
PROPS = {
    "J01": Prop(
        "J01",
        [
            Slice("unweighted", jdos(None), bounds="4 grid points, 3 bands, 2 frequency points; all weights", reach=R),
            Slice("unweighted-nosym", jdos(None, nosym=True, gp=2), bounds="without symmetry", reach=R),
            Slice("temperature", jdos(1, vary=(2, 3)), bounds="all frequencies of two points, weights, temperatures", reach=R),
            Slice("temperature-nosym", jdos(1, vary=(1,), gp=3, nosym=True, nfp=1), bounds="without symmetry", reach=R),
            Slice("temperature-cutoff", jdos(1, vary=(2,), cut=0.5, lo=0.1, nfp=1), bounds="frequencies around the cutoff", reach=R),
            Slice("temperature-0", jdos(0, vary=(2, 3)), bounds="T = 0", reach=R),
            Slice("temperature-py", jdos(1, vary=(2, 3), lang="Py"), bounds="Python implementation", reach=R),
            Slice("smeared", smeared(None), bounds="real smearing weights, all frequencies of one point", reach=R),
            Slice("smeared-T", smeared(1), bounds="real smearing weights with temperature", reach=R),
            Slice("api", api(None, (None, 0.25)), bounds="2 widths, 5 frequency points in batches of 2", reach=("api",)),
            Slice("api-T", api(2, (0.5,), nfp=3), bounds="2 temperatures", reach=("api",)),
            Slice("files", files, bounds="up to 3 temperatures", reach=("files",)),
        ],
        modules=M,
        assumptions=["phonon solver is a stub returning arbitrary frequencies", "integration weights are arbitrary (W02) except in the smeared slices"],
    ),
}
