"""Line widths of the relaxation time approximation: every route of the
calculation against the separate kernels."""
import numpy as np

from .common import *
from .lattice import *
from .c_collision import system
from .c_files import Store
from .c_interaction import UNIT
from .c_kappa import GV, key, stub
from .c_selfenergy import unit_conv


class Cell(Mock):
    def __len__(self):
        return len(self.masses)


def world(ctx, lat, mesh, sub, bi=None, sym=False, r0=False, deg=(), cut=0.1, const=None, fvary=(), symf=((0, 0, 0, 0, 1, 2), (0, 0, 0, 1, 0, 2)), ev="dense", nosym=False, per=None, npat=1, nsat=None, compact=False, dense=True):
    import phono3py.phonon3.interaction as mod

    rots = pg(lat)
    if sub is not None:
        rots = np.array([r for r in rots if sub(r)], dtype="intc")
    w = Mock()
    w.bz = bz = bzgrid(list(mesh), lattice=lat, rotations=rots, store_dense_gp_map=dense)
    n = len(bz.addresses)
    w.s = s = system(ctx, n, npat, symf, "c", ev, compact=compact, nsat=nsat, fvary=fvary)
    nb = 3 * npat
    # degenerate pairs
    for g, a, b in deg:
        s.freqs[g, b] = s.freqs[g, a]
    # the same frequencies at translationally equivalent points
    for g in range(n):
        first = int(bz.grg2bzg[bz.bzg2grg[g]])
        if first != g:
            for b in range(nb):
                s.freqs[g, b] = s.freqs[first, b]
    nsat = nsat or npat
    prim = Cell(cell=ctx.const(np.array(LATS[lat])), masses=s.masses, p2s_map=s.p2s, s2p_map=s.s2p, p2p_map={int(x): i for i, x in enumerate(s.p2s)}, scaled_positions=ctx.const(np.zeros((npat, 3))), atomic_permutations=np.array([np.arange(nsat)] if nsat == npat else [[0, 1, 2, 3], [1, 0, 3, 2]]), volume=2.5)
    prim.get_smallest_vectors = lambda: (s.svecs, s.multi)
    kw = {} if bi is None else dict(band_indices=list(bi))
    w.bi = list(range(nb)) if bi is None else list(bi)
    w.nb = nb
    w.const = None if const is None else ctx.real("avg", lo=1e-12, hi=10)
    pp = w.pp = mod.Interaction(prim, bz, Mock(tolerance=1e-5), fc3=s.fc3, constant_averaged_interaction=w.const, symmetrize_fc3q=sym, make_r0_average=r0, cutoff_frequency=ctx.const(cut), is_mesh_symmetry=not nosym, openmp_per_triplets=per, **kw)
    pp._frequencies, pp._eigenvectors = s.freqs, s.ev
    pp._phonon_done = np.ones(n, dtype="byte")
    pp.run_phonon_solver = lambda *a, **k: None
    w.cut, w.sym, w.r0 = ctx.const(cut), sym, r0
    GV.table = {}
    for i in range(n):
        GV.table.setdefault(key(np.dot(bz.addresses[i], np.array(bz.QDinv).T)), ctx.const(np.zeros((nb, 3))))
    w.short = pp.all_shortest
    w.num = int(np.prod(bz.D_diag))
    return w


def weights(ctx, w, tr, gp, sigma, cutoff):
    """integration weights of the selected bands"""
    from phono3py.other.tetrahedron_method import get_tetrahedra_relative_grid_address as rel_

    s, bz = w.s, w.bz
    nt, nb, nb0 = len(tr), w.nb, len(w.bi)
    g, gz = ctx.out((2, nt, nb0, nb, nb)), ctx.out((nt, nb0, nb, nb), "byte")
    fp = ctx.const(np.zeros(nb0))
    for x in range(nb0):
        fp[x] = s.freqs[gp, w.bi[x]]
    if sigma is None:
        with concrete():
            rel = rel_(bz.microzone_lattice)
        tet = np.array(np.dot(rel, bz.P.T), dtype="int64", order="C")
        ctx.call("triplets_integration_weights", g, gz, fp, tet, bz.D_diag, tr, s.freqs, s.freqs, bz.addresses, bz.gp_map, bz.store_dense_gp_map * 1 + 1, 2)
    else:
        ctx.call("triplets_integration_weights_with_sigma", g, gz, fp, tr, s.freqs, ctx.const(sigma), ctx.const(-1.0 if cutoff is None else float(cutoff)))
    return g, gz


def strengths(ctx, w, tr, gz):
    s, bz = w.s, w.bz
    st = ctx.const(np.zeros(gz.shape))
    ctx.call("interaction", st, gz, s.freqs, s.ev, tr, bz.addresses, bz.D_diag, bz.Q, s.fc3, s.svecs, s.multi, s.masses, s.p2s, s.s2p, I64(w.bi), int(w.sym), int(w.r0), w.short, w.cut, 0)
    return st


def expected(ctx, w, gp, sigma, cutoff, T, st=None, zeros=False, NU=False):
    """line widths; strengths by default those of the force constants"""
    w.pp.set_grid_point(gp)
    tr, wt = w.pp.get_triplets_at_q()[:2]
    g, gz = weights(ctx, w, tr, gp, sigma, cutoff)
    if st is None:
        st = strengths(ctx, w, tr, gz)
        unit = ctx.num(unit_conv() * (UNIT / w.num))
    else:
        st = st(tr)
        unit = ctx.num(unit_conv())
    isN = [(w.bz.addresses[t].sum(axis=0) == 0).all() for t in tr]
    out = []
    for part in ((None, True, False) if NU else (None,)):
        mask = np.array([part is None or x == part for x in isN], dtype="int64")
        r = ctx.out((len(w.bi),))
        if mask.any():
            ctx.call("imag_self_energy_with_g", r, st, tr, wt * mask, w.s.freqs, T, g, gz, w.cut, -1)
            out.append(averaged(ctx, [r[b] * unit for b in range(len(w.bi))], w.bi, w.s.freqs[gp]))
        else:
            out.append([0] * len(w.bi))
    return out if NU else out[0]


LINE = lambda r: abs(r[0, 0]) == 1
TET = lambda r: abs(r[2, 2]) == 1
ROUTES = dict(low={}, full=dict(is_full_pp=True), store=dict(store_pp=True), NU=dict(is_N_U=True), fullNU=dict(is_full_pp=True, is_N_U=True), detail=dict(is_gamma_detail=True), const={})


def route(name, sigmas=(None, 0.25), cutoff=None, Ts=("s", 0.0), lat="cubic", mesh=(2, 2, 1), sub=TET, gps=None, star=True, **kw):
    """one route of the calculation against the kernels"""

    def h(ctx):
        import phono3py.conductivity.rta as mod

        stub(mod)
        mod.print = lambda *a, **k: None
        w = world(ctx, lat, mesh, sub, const=True if name == "const" else None, **kw)
        temps = ctx.const(np.zeros(len(Ts)))
        for i, t in enumerate(Ts):
            temps[i] = ctx.real("T%d" % i, lo=30, hi=2000) if t == "s" else ctx.const(float(t))
        k = dict(ROUTES[name])
        if gps is not None:
            k["grid_points"] = list(gps)
        br = mod.ConductivityRTA(w.pp, temperatures=temps, sigmas=list(sigmas), sigma_cutoff=cutoff, is_kappa_star=star, **k)
        det = []
        for i in br:
            if name == "detail":
                det.append(br.get_gamma_detail_at_q())
        ctx.reach("rates")
        pts = [int(x) for x in br.grid_points]
        if gps is not None:
            ctx.check(pts == list(gps), "requested grid points")
        ctx.check(np.shape(br.gamma) == (len(sigmas), len(Ts), len(pts), len(w.bi)), "shape")
        NU = "NU" in name or name == "detail"
        avg = (lambda tr: ctx.const(np.zeros((len(tr), len(w.bi), w.nb, w.nb))) + w.const / w.num) if name == "const" else None
        for i, gp in enumerate(pts):
            for j, sg in enumerate(sigmas):
                for t in range(len(Ts)):
                    e = expected(ctx, w, gp, sg, cutoff, temps[t], st=avg, NU=NU)
                    tot = e[0] if NU else e
                    for b in range(len(w.bi)):
                        ctx.equal(br.gamma[j, t, i, b], tot[b], "line width of a width, temperature, grid point and band", scale=1e-6)
                        if NU:
                            n, u = br.get_gamma_N_U()
                            ctx.equal(n[j, t, i, b], e[1][b], "normal part", scale=1e-6)
                            ctx.equal(u[j, t, i, b], e[2][b], "Umklapp part", scale=1e-6)
                    if name == "detail":
                        w.pp.set_grid_point(gp)
                        wt = w.pp.get_triplets_at_q()[1]
                        d = det[i][j, t]
                        ctx.check(len(d) == len(wt), "one entry per triplet")
                        s = [sum(d[x, b].sum() * int(wt[x]) for x in range(len(wt))) for b in range(len(w.bi))]
                        s = averaged(ctx, s, w.bi, w.s.freqs[gp])
                        for b in range(len(w.bi)):
                            ctx.equal(br.gamma[j, t, i, b], s[b], "contributions of triplets sum to the line width", scale=1e-6)
            if name in ("full", "fullNU", "const"):
                p = br.averaged_pp_interaction
                w.pp.set_grid_point(gp)
                tr, wt = w.pp.get_triplets_at_q()[:2]
                v = avg(tr) if avg else strengths(ctx, w, tr, np.zeros((len(tr), len(w.bi), w.nb, w.nb), dtype="byte"))
                for b in range(len(w.bi)):
                    x = sum(v[y, b].sum() * int(wt[y]) for y in range(len(tr))) / w.nb**2
                    ctx.equal(p[i, b], x if avg else x * ctx.num(UNIT / w.num), "averaged interaction strength", scale=1e-9)

    return h


def files(sigmas=(None,), cutoff=None, full=False, use="pp", Ts=("s", 100.0), lat="cubic", mesh=(2, 2, 1), sub=TET, **kw):
    """strengths (use="pp") or averaged strengths (use="ave") written to files,
    read back, and used instead of those of the force constants"""

    def h(ctx):
        import phono3py.conductivity.rta as mod
        import phono3py.conductivity.utils as ut
        import phono3py.file_IO as fio

        stub(mod)
        mod.print = ut.print = lambda *a, **k: None
        st = Store().use(fio)
        w = world(ctx, lat, mesh, sub, **kw)
        temps = ctx.const(np.zeros(len(Ts)))
        for i, t in enumerate(Ts):
            temps[i] = ctx.real("T%d" % i, lo=30, hi=2000) if t == "s" else ctx.const(float(t))
        with_ = dict(temperatures=temps, sigmas=list(sigmas), sigma_cutoff=cutoff)
        all_ = [int(x) for x in mod.ConductivityRTA(w.pp, **with_).grid_points]
        half = all_[1:] + all_[:1]
        fc3 = w.s.fc3.copy()
        if use == "pp":
            for g in half:
                mod.get_thermal_conductivity_RTA(w.pp, grid_points=[g], write_pp=True, is_full_pp=full, output_filename="p", **with_)
        else:
            mod.get_thermal_conductivity_RTA(w.pp, grid_points=half, write_gamma=True, is_full_pp=True, output_filename="p", **with_)
        ctx.reach("files")
        w.pp._fc3 = ctx.const(np.zeros(fc3.shape))
        k = dict(read_pp=True) if use == "pp" else dict(read_gamma=True, use_ave_pp=True)
        br = mod.get_thermal_conductivity_RTA(w.pp, grid_points=all_, input_filename="p", **k, **with_)
        ctx.check(br is not False, "files found")
        ave = {}
        for i, gp in enumerate(all_):
            w.pp.set_grid_point(gp)
            tr, wt = w.pp.get_triplets_at_q()[:2]
            if use == "ave":
                v = strengths(ctx, w, tr, np.zeros((len(tr), len(w.bi), w.nb, w.nb), dtype="byte"))
                a = [sum(v[y, b].sum() * int(wt[y]) for y in range(len(tr))) / w.nb**2 * ctx.num(UNIT / w.num) for b in range(len(w.bi))]

                def s(tr, a=a):
                    o = ctx.const(np.zeros((len(tr), len(w.bi), w.nb, w.nb)))
                    for b in range(len(w.bi)):
                        o[:, b] = o[:, b] + a[b] / w.num
                    return o

            for j, sg in enumerate(sigmas):
                for t in range(len(Ts)):
                    e = expected(ctx, w, gp, sg, cutoff, temps[t], st=s if use == "ave" else None)
                    for b in range(len(w.bi)):
                        ctx.equal(br.gamma[j, t, i, b], e[b], "line width from strengths read back", scale=1e-6)

    return h


R = ("rates",)
F = ("files",)
PROPS = {
    "K04": Prop(
        "K04",
        [
            Slice("low", route("low"), bounds="2x2x1; tetrahedra and a width, 2 temperatures", reach=R),
            Slice("low-cutoff", route("low", sigmas=(0.5, 0.25), cutoff=1.5, bi=(2, 0)), bounds="2 widths with cutoff, bands (2,0) of 3", reach=R),
            Slice("NU", route("NU", sigmas=(0.5, None), deg=((1, 0, 1),)), bounds="N and U parts; a degenerate pair", reach=R),
            Slice("full", route("full", sigmas=(None, 0.25)), bounds="whole strengths", reach=R),
            Slice("full-widths", route("fullNU", sigmas=(0.5, 0.25), cutoff=2.0, bi=(1,)), bounds="whole strengths, 2 widths with cutoff, one band; N and U parts", reach=R),
            Slice("store", route("store", sigmas=(None, 0.5, 0.25, None)), bounds="tetrahedra and two widths", reach=R),
            Slice("store-cutoff", route("store", sigmas=(0.25, 0.5), cutoff=1.5), bounds="two widths with cutoff", reach=R),
            Slice("detail", route("detail", sigmas=(0.5, None), gps=(1, 0)), bounds="contributions of triplets; 2 grid points", reach=R),
            Slice("const", route("const", sigmas=(None, 0.5)), bounds="constant averaged strength", reach=R),
            Slice("low-averages", route("low", sigmas=(None, 0.25), sym=True, r0=True, mesh=(3, 1, 1), sub=LINE, per=True), bounds="3x1x1; exchange and reference-atom averages", reach=R),
            Slice("low-hex", route("low", sigmas=(0.5, None), lat="hex", mesh=(3, 3, 1), sub=None, dense=False, bi=(1, 0), Ts=("s",)), bounds="3x3x1 hexagonal, sparse map", reach=R),
            Slice("low-two-atoms", route("low", sigmas=(None, 0.5), npat=2, nsat=4, compact=True, bi=(3,), mesh=(2, 1, 1), sub=LINE, ev="unit", symf=((0, 1, 2, 0, 1, 2), (1, 3, 3, 0, 1, 0))), bounds="2 atoms, compact force constants", reach=R),
            Slice("low-frequency", route("low", sigmas=(0.25, 0.5), fvary=((1, 0),), mesh=(2, 1, 1), sub=LINE, Ts=("s",), bi=(0, 1)), bounds="one frequency arbitrary, 2 widths", reach=R),
            Slice("no-star", route("NU", sigmas=(None, 0.5), star=False, mesh=(2, 1, 1), sub=LINE, nosym=True, deg=((0, 1, 2),)), bounds="all grid points, no mesh symmetry", reach=R),
            Slice("detail-averages", route("detail", sigmas=(None, 0.25), sym=True, r0=True, mesh=(3, 1, 1), sub=LINE, bi=(2, 1)), bounds="contributions; both averages", reach=R),
            Slice("low-222", route("low", sigmas=(None, 0.5), lat="cubic", mesh=(2, 2, 2), sub=None), bounds="2x2x2 cubic", reach=R, tier="thorough"),
            Slice("read-pp", files(), bounds="strengths read from files; tetrahedra", reach=F),
            Slice("read-pp-full", files(full=True, sigmas=(0.5,), cutoff=2.0), bounds="whole strengths read from files", reach=F),
            Slice("read-ave", files(use="ave", sigmas=(None, 0.5)), bounds="averaged strengths read from files", reach=F),
        ],
        modules=["phono3py.conductivity.rta", "phono3py.conductivity.base", "phono3py.phonon3.imag_self_energy", "phono3py.phonon3.interaction"],
        patch=("phonopy.phonon.degeneracy", "phonopy.phonon.thermal_properties"),
        assumptions=["kernels: S01, S05, W02, W03, I01; triplets: T01"],
    ),
}
