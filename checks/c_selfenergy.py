"""Imaginary self-energy from interaction strengths and integration weights."""
import numpy as np
from .common import *

UNIT_ISE = None


def unit_conv():
    from phonopy.units import EV, Hbar, THz

    return 18 * np.pi / (Hbar * EV) ** 2 / (2 * np.pi * THz) ** 2 * EV**2


def setup(ctx, nt, nb0, nb, bi, weights, T, g_zero, nfp=None, detail=False, sec=None, cut=None, triplets=None, addresses=None):
    import phono3py.phonon3.imag_self_energy as mod

    ngp = 4
    cutsym = cut is None
    cut = ctx.real("cut", lo=0) if cut is None else ctx.const(cut)
    fr = ctx.reals("f", (ngp, nb), lo=None if hasattr(cut, "op") or cutsym else 0.02)
    fc = ctx.reals("fc", (nt, nb0, nb, nb))
    ng = nb0 if nfp is None else nfp
    g = ctx.reals("g", (2, nt, ng, nb, nb))
    if g_zero is None:
        gz = ctx.flags("gz", (nt, ng, nb, nb))
    elif g_zero == "zeros":
        gz = np.zeros((nt, ng, nb, nb), dtype="byte")
    else:
        gz = np.array(g_zero, dtype="byte").reshape(nt, ng, nb, nb)
    tr = I64([[0, 1, 2], [0, 2, 1], [0, 3, 0]][:nt]) if triplets is None else triplets
    w = I64(weights)
    addr = I64(np.zeros((ngp, 3))) if addresses is None else addresses
    ran = []
    pp = Mock(
        cutoff_frequency=cut,
        band_indices=I64(bi),
        interaction_strength=fc,
        bz_grid=Mock(addresses=addr),
        mesh_numbers=I64([2, 2, 2]),
        primitive=[0] * (nb // 3),
    )
    pp.set_grid_point = lambda gp: None
    pp.get_triplets_at_q = lambda: (tr, w, None, None)
    pp.get_phonons = lambda: (fr, None, None)
    pp.run = lambda lang="C", g_zero=None: ran.append(g_zero)
    seen = []

    def fake_giw(pp_, fp, sigma, sigma_cutoff=None, is_collision_matrix=False, **kw):
        seen.append((fp, sigma))
        return g, gz

    mod.get_triplets_integration_weights = fake_giw
    ise = mod.ImagSelfEnergy(pp, with_detail=detail)
    ise.set_grid_point(0)
    ise.set_sigma(None)
    ise.temperature = T
    if nfp is not None:
        ise.frequency_points = ctx.reals("fp", (nfp,))
    g0 = g.copy()
    ise.run_integration_weights(scattering_event_class=sec)
    ise.run()
    if sec in (1, 2):
        g0[sec - 1] = 0
    return ise, pp, fr, fc, g0, gz, tr, w, cut, seen


def term(ctx, fr, fc, g, gz, tr, cut, T, i, jg, j, k, l, g0=None):
    """One contribution, or 0."""
    if ctx.branch(ctx.ne(gz[i, jg, k, l], 0)):
        return 0
    f1, f2 = fr[tr[i, 1], k], fr[tr[i, 2], l]
    if not ctx.branch(f1 > cut) or not ctx.branch(f2 > cut):
        return 0
    n1, n2 = bose(ctx, f1, T), bose(ctx, f2, T)
    return ((n1 + n2 + 1) * g[0, i, jg, k, l] + (n1 - n2) * g[1, i, jg, k, l]) * fc[i, j, k, l]


def ref_gamma(ctx, fr, fc, g, gz, tr, w, cut, T, nb0, nb, fp=None):
    out = []
    for j in range(nb0):
        s = 0
        for i in range(len(w)):
            for k in range(nb):
                for l in range(nb):
                    s = s + term(ctx, fr, fc, g, gz, tr, cut, T, i, j if fp is None else fp, j, k, l) * int(w[i])
        out.append(s * ctx.num(unit_conv()))
    return out


def temp(ctx, zero):
    return ctx.const(0.0) if zero else ctx.real("T", pos=True)


def bands(nt, nb, bi, weights, g_zero, zero=False, cut=None, sec=None):
    def h(ctx):
        T = temp(ctx, zero)
        ise, pp, fr, fc, g, gz, tr, w, c, seen = setup(ctx, nt, len(bi), nb, bi, weights, T, g_zero, cut=cut, sec=sec)
        out = ise.imag_self_energy
        ref = ref_gamma(ctx, fr, fc, g, gz, tr, w, c, T, len(bi), nb)
        ref = averaged(ctx, ref, bi, fr[0])
        for j in range(len(bi)):
            ctx.equal(out[j], ref[j], "gamma of band %d" % j)
        fp = seen[0][0]
        for j, b in enumerate(bi):
            ctx.equal(fp[j], fr[0, b], "weights evaluated at the band frequency")

    return h


def freqpts(nt, nb, bi, weights, g_zero, nfp, zero=False, cut=None, detail=False, sec=None):
    def h(ctx):
        T = temp(ctx, zero)
        ise, pp, fr, fc, g, gz, tr, w, c, seen = setup(ctx, nt, len(bi), nb, bi, weights, T, g_zero, nfp=nfp, cut=cut, detail=detail, sec=sec)
        out = ise.imag_self_energy
        for p in range(nfp):
            ref = averaged(ctx, ref_gamma(ctx, fr, fc, g, gz, tr, w, c, T, len(bi), nb, fp=p), bi, fr[0])
            for j in range(len(bi)):
                ctx.equal(out[p, j], ref[j], "gamma at frequency point %d band %d" % (p, j))
        if detail:
            d = ise.detailed_imag_self_energy
            for p in range(nfp):
                for i in range(nt):
                    for j in range(len(bi)):
                        for k in range(nb):
                            for l in range(nb):
                                r = term(ctx, fr, fc, g, gz, tr, c, T, i, p, j, k, l) * ctx.num(unit_conv())
                                ctx.equal(d[p, i, j, k, l], r, "detailed gamma at a frequency point")

    return h


def detailed(nt, nb, bi, weights, g_zero, zero=False, cut=None):
    def h(ctx):
        T = temp(ctx, zero)
        addr = ctx.ints("adr", (4, 3), -2, 2)
        ise, pp, fr, fc, g, gz, tr, w, c, seen = setup(ctx, nt, len(bi), nb, bi, weights, T, g_zero, cut=cut, detail=True, addresses=addr)
        d = ise.detailed_imag_self_energy
        u = ctx.num(unit_conv())
        N, U = [0] * len(bi), [0] * len(bi)
        for i in range(nt):
            s = [addr[tr[i, 0], x] + addr[tr[i, 1], x] + addr[tr[i, 2], x] for x in range(3)]
            isN = ctx.branch(ctx.And(*[ctx.eq(v, 0) for v in s]))
            for j in range(len(bi)):
                for k in range(nb):
                    for l in range(nb):
                        r = term(ctx, fr, fc, g, gz, tr, c, T, i, j, j, k, l) * u
                        ctx.equal(d[i, j, k, l], r, "detailed gamma")
                        if isN:
                            N[j] = N[j] + r * int(w[i])
                        else:
                            U[j] = U[j] + r * int(w[i])
        tot = ise.imag_self_energy
        n, um = ise.get_imag_self_energy_N_and_U()
        rn, ru = averaged(ctx, N, bi, fr[0]), averaged(ctx, U, bi, fr[0])
        for j in range(len(bi)):
            ctx.equal(n[j], rn[j], "normal part")
            ctx.equal(um[j], ru[j], "Umklapp part")
            ctx.equal(tot[j], rn[j] + ru[j], "N + U = total")

    return h


def api(at_bands, sigmas=(None, 0.2), Ts=(0, 1), gps=(1, 0), detail=False, batch=None, sec=None, nfp=3, nt=2):
    """get_imag_self_energy: every width, temperature, grid point, batch"""

    def h(ctx):
        import phono3py.phonon3.imag_self_energy as mod

        nb, bi = 2, [1, 0]
        TT = [ctx.real("T%d" % t, lo=0.1, hi=3000) if t else ctx.const(0.0) for t in Ts]
        fr = ctx.const(np.array([[0.5 + 0.31 * g + 0.7 * b for b in range(nb)] for g in range(4)]))
        fr[2, 0] = ctx.real("f2", lo=0.02, hi=20)
        fr[3, 1] = ctx.real("f3", lo=0.02, hi=20)
        cut = ctx.const(0.01)
        trs = {0: (I64([[0, 2, 3], [0, 1, 2]][:nt]), I64([2, 1][:nt])), 1: (I64([[1, 3, 2]]), I64([3]))}
        fc = {g: ctx.reals("fc%d" % g, (len(trs[g][1]), 2, nb, nb)) for g in (0, 1)}
        fps = None if at_bands else [0.25 + 0.5 * x for x in range(nfp)]
        ng = 2 if at_bands else nfp
        G = {(g, x): ctx.reals("g%d_%d" % (g, x), (2, len(trs[g][1]), ng, nb, nb)) for g in (0, 1) for x in range(len(sigmas))}
        gz = {(g, x): np.array([(3 * y + x + g) % 4 == 0 for y in range(len(trs[g][1]) * ng * nb * nb)], dtype="byte").reshape(len(trs[g][1]), ng, nb, nb) for g in (0, 1) for x in range(len(sigmas))}
        # weights vanish where they are flagged zero (W02, W03)
        for key in G:
            for ix in np.ndindex(*gz[key].shape):
                if gz[key][ix]:
                    G[key][(0,) + ix] = G[key][(1,) + ix] = ctx.const(0.0)
        st = {}
        pp = Mock(cutoff_frequency=cut, band_indices=I64(bi), bz_grid=Mock(addresses=I64([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, -1, 1]])), mesh_numbers=I64([2, 2, 2]), primitive=[0], interaction_strength=None)

        def setgp(gp, **k):
            st["gp"] = int(gp)
            pp.interaction_strength = None

        def run(lang="C", g_zero=None):
            pp.interaction_strength = fc[st["gp"]]

        pp.set_grid_point = setgp
        pp.run = run
        pp.get_triplets_at_q = lambda: (trs[st["gp"]][0], trs[st["gp"]][1], None, None)
        pp.get_phonons = lambda: (fr, None, np.ones(4, dtype="byte"))
        pp.run_phonon_solver_at_gamma = lambda is_nac=False: None

        def giw(pp_, fp, sigma, sigma_cutoff=None, is_collision_matrix=False, **kw):
            x = list(sigmas).index(sigma)
            g, z = G[st["gp"], x].copy(), gz[st["gp"], x].copy()
            if at_bands:
                return g, z
            sel = [[abs(y - v) < 1e-9 for y in fps].index(True) for v in fp]
            return fresh(ctx, g[:, :, sel]), np.array(z[:, sel], order="C")

        mod.get_triplets_integration_weights = giw
        kw = {} if at_bands else {"frequency_points": np.array(fps)}
        out = mod.get_imag_self_energy(pp, list(gps), TT, sigmas=list(sigmas), frequency_points_at_bands=at_bands, num_points_in_batch=batch, scattering_event_class=sec, return_gamma_detail=detail, **kw)
        gamma = out[1]
        ctx.reach("api")
        ctx.check(tuple(np.shape(gamma)) == (len(sigmas), len(Ts), len(gps), 2) + (() if at_bands else (nfp,)), "shape of gamma")
        if detail:
            ctx.check(len(out[2]) == len(gps), "one detailed array per grid point")
        u = ctx.num(unit_conv())
        for i, gp in enumerate(gps):
            tr, w = trs[gp]
            for x, sg in enumerate(sigmas):
                g = G[gp, x].copy()
                if sec:
                    g[sec - 1] = 0
                for t, T in enumerate(TT):
                    for p in range(1 if at_bands else nfp):
                        for j in range(2):
                            jg = j if at_bands else p
                            tot = 0
                            for q in range(len(w)):
                                for k in range(nb):
                                    for l in range(nb):
                                        v = term(ctx, fr, fc[gp], g, gz[gp, x], tr, cut, T, q, jg, j, k, l) * u
                                        tot = tot + v * int(w[q])
                                        if detail:
                                            d = out[2][i][(x, t) + (() if at_bands else (p,)) + (q, j, k, l)]
                                            ctx.equal(d, v, "detailed gamma per width, temperature and grid point")
                            ctx.equal(gamma[(x, t, i, j) + (() if at_bands else (p,))], tot, "gamma per width, temperature and grid point")

    return h


def sampling(kind):
    def h(ctx):
        import phono3py.phonon3.imag_self_energy as mod

        fm = ctx.real("fmax", lo=0.5, hi=50)
        ss = [None, 0.25, 0.5] if kind == "sigma" else [None]
        fp = mod.get_frequency_points(max_phonon_freq=fm, sigmas=ss, num_frequency_points=5)
        top = (fm * 2 + (2 if kind == "sigma" else 0)) * ctx.num(1.005)
        ctx.reach("sampling")
        ctx.check(len(fp) == 5, "number of frequency points")
        for i in range(5):
            ctx.equal(fp[i], top * i / 4, "evenly spaced from zero to twice the highest frequency and four widths")

    return h


def batches(ctx):
    import phono3py.phonon3.imag_self_energy as mod

    n, m = ctx.ints("n", (2,), 0, 12)
    ctx.assume(m >= 1)
    n, m = ctx.concretize(n), ctx.concretize(m)
    b = mod.get_freq_points_batches(n, m)
    ctx.reach("batches")
    flat = [int(x) for y in b for x in y]
    ctx.check(flat == list(range(n)), "batches cover all frequency points once in order")
    ctx.check(all(len(y) <= m for y in b), "batch size")


Z = "zeros"
PROPS = {
    "S01": Prop(
        "S01",
        [
            Slice("bands-gzero-symbolic", bands(1, 2, [0], [3], None), bounds="1 triplet, 1 of 2 bands, all g_zero patterns, f, g, |Phi|^2, T>0, cutoff symbolic"),
            Slice("bands-2triplets", bands(2, 2, [1, 0], [1, 4], [0, 1, 0, 0, 0, 0, 1, 0] * 2), bounds="2 triplets, 2 bands"),
            Slice("bands-3bands", bands(2, 3, [2, 0], [2, 4], [0, 1, 0, 0, 0, 0, 1, 0, 0] * 4, cut=0.01), bounds="2 triplets, bands (2,0) of 3"),
            Slice("bands-T0", bands(2, 2, [0, 1], [2, 1], [0, 1, 0, 0] * 4, zero=True), bounds="T = 0"),
            Slice("bands-class1", bands(1, 2, [0, 1], [2], Z, sec=1, cut=0.01), bounds="scattering event class 1"),
            Slice("bands-class2", bands(1, 2, [0, 1], [2], Z, sec=2, cut=0.01), bounds="scattering event class 2"),
            Slice("freq-points", freqpts(2, 2, [0, 1], [1, 3], [0, 1, 0, 0, 0, 0, 1, 0] * 2, 2, cut=0.01), bounds="2 triplets, 2 bands, 2 frequency points"),
            Slice("freq-points-cutoff", freqpts(1, 2, [1], [1], [0, 0, 1, 0] * 3, 3), bounds="1 triplet, band 1 of 2, 3 frequency points"),
            Slice("freq-points-T0", freqpts(1, 2, [1], [1], [0, 0, 1, 0] * 2, 2, zero=True), bounds="T = 0"),
            Slice("freq-points-gzero", freqpts(1, 2, [1], [2], None, 1, cut=0.01), bounds="all g_zero patterns"),
        ],
        modules=["phono3py.phonon3.imag_self_energy"],
        assumptions=["get_triplets_integration_weights is a stub returning arbitrary weights (its contract is W02/W03)", "Interaction is a stub with arbitrary strengths (its contract is I01)"],
    ),
    "S02": Prop(
        "S02",
        [
            Slice("detailed-gzero", detailed(1, 2, [0], [3], None, cut=0.01), bounds="1 triplet, all g_zero patterns, symbolic addresses in [-2,2]^3"),
            Slice("detailed-2triplets", detailed(2, 2, [1, 0], [2, 1], [0, 1, 0, 0, 0, 0, 1, 0] * 2, cut=0.01), bounds="2 triplets, 2 bands, symbolic addresses"),
            Slice("detailed-cutoff", detailed(1, 2, [1], [2], Z), bounds="1 triplet, symbolic cutoff"),
            Slice("detailed-T0", detailed(1, 2, [1], [2], [0, 1, 0, 0], zero=True), bounds="T = 0"),
            Slice("detailed-freqpts", freqpts(2, 2, [1, 0], [2, 1], Z, 2, detail=True, cut=0.01), bounds="2 frequency points"),
        ],
        modules=["phono3py.phonon3.imag_self_energy"],
    ),
    "S04": Prop(
        "S04",
        [
            Slice("bands", api(True), bounds="2 widths, 2 temperatures, 2 grid points, 2 bands", reach=("api",)),
            Slice("bands-detail", api(True, detail=True), bounds="with detailed results", reach=("api",)),
            Slice("bands-class", api(True, sec=2), bounds="scattering event class 2", reach=("api",)),
            Slice("freq-batch2", api(False, batch=2), bounds="3 frequency points in batches of 2", reach=("api",)),
            Slice("freq-batch1-detail", api(False, batch=1, detail=True, nt=1, nfp=2), bounds="2 frequency points in batches of 1, detailed", reach=("api",)),
            Slice("freq-batch3", api(False, batch=3, nfp=4, Ts=(1, 2), nt=1), bounds="4 frequency points in batches of 3", reach=("api",)),
            Slice("freq-default", api(False, nfp=2, sec=1, detail=True, nt=1), bounds="default batches, scattering event class 1", reach=("api",)),
            Slice("sampling", sampling("none"), bounds="any maximum frequency", reach=("sampling",)),
            Slice("sampling-sigma", sampling("sigma"), bounds="any maximum frequency with widths", reach=("sampling",)),
            Slice("batches", batches, bounds="up to 12 points, batches up to 12", reach=("batches",)),
        ],
        modules=["phono3py.phonon3.imag_self_energy"],
        assumptions=["interaction and integration weights are stubs with arbitrary values (I01, W02, W03)"],
    ),
}
