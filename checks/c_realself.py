"""Real part of the self-energy and its Kramers-Kronig counterpart."""
import numpy as np
from .common import *
from .c_selfenergy import temp


def unit_conv():
    from phonopy.units import EV, Hbar, THz

    return 18 / (Hbar * EV) ** 2 / (2 * np.pi * THz) ** 2 * EV**2


def kk(ctx, F, eps):
    return F / (F * F + eps * eps)


def rterm(ctx, w, f1, f2, T, eps, cut):
    if not ctx.branch(f1 > cut) or not ctx.branch(f2 > cut):
        return 0
    n1, n2 = bose(ctx, f1, T), bose(ctx, f2, T)
    t = (n1 + n2 + 1) * (kk(ctx, w - f1 - f2, eps) - kk(ctx, w + f1 + f2, eps))
    if hasattr(T, "op") or float(T) > 0:
        t = t + (n1 - n2) * (kk(ctx, w + f1 - f2, eps) - kk(ctx, w - f1 + f2, eps))
    return t


def rref(ctx, w, fr, fc, tr, wt, T, eps, cut, j, nb):
    if ctx.branch(w < cut):
        return 0
    s = 0
    for i in range(len(wt)):
        for k in range(nb):
            for l in range(nb):
                s = s + rterm(ctx, w, fr[tr[i, 1], k], fr[tr[i, 2], l], T, eps, cut) * fc[i, j, k, l] * int(wt[i])
    return s * ctx.num(unit_conv())


def mkpp(ctx, fr, fc, trs, bi, cut, log):
    """Stand-in interaction with one triplet list per grid point."""
    state = {}
    pp = Mock(cutoff_frequency=cut, band_indices=I64(bi), bz_grid=Mock(addresses=I64(np.zeros((len(fr), 3)))), mesh_numbers=I64([2, 2, 2]))

    def setgp(gp, **k):
        state["gp"] = int(gp)
        log.append(int(gp))

    pp.set_grid_point = setgp
    pp.get_triplets_at_q = lambda: (trs[state["gp"]][0], trs[state["gp"]][1], None, None)
    pp.get_phonons = lambda: (fr, None, np.ones(len(fr), dtype="byte"))
    pp.run_phonon_solver_at_gamma = lambda is_nac=False: None
    pp.run_phonon_solver = lambda *a: None

    def run(lang="C", g_zero=None):
        if g_zero is not None:
            raise HarnessError("zero flags given for the real part")
        pp.interaction_strength = fc[state["gp"]]

    pp.run = run
    return pp


def single(nt, nb, bi, weights, lang="C", zero=False, nfp=None, cut=None, degen=False, gap=None):
    def h(ctx):
        import phono3py.phonon3.real_self_energy as mod

        T = temp(ctx, zero)
        eps = ctx.real("eps", pos=True)
        c = ctx.real("cut", lo=0) if cut is None else ctx.const(cut)
        fr = ctx.reals("f", (4, nb), lo=None if cut is None else 0.02)
        if gap:
            for b in range(nb):
                fr[0, b] = ctx.const(1.0 + gap * b)
        fc = ctx.reals("fc", (nt, len(bi), nb, nb))
        tr = I64([[0, 1, 2], [0, 3, 1]][:nt])
        wt = I64(weights)
        pp = mkpp(ctx, fr, {0: fc}, {0: (tr, wt)}, bi, c, [])
        r = mod.RealSelfEnergy(pp, grid_point=0, lang=lang)
        r._temperature = T
        r._epsilon = eps
        if nfp is not None:
            fp = ctx.reals("fp", (nfp,))
            r._frequency_points = fp
        r.run()
        out = r.real_self_energy
        ctx.reach("shift")
        if nfp is None:
            ref = [rref(ctx, fr[0, b], fr, fc, tr, wt, T, eps, c, j, nb) for j, b in enumerate(bi)]
            ref = averaged(ctx, ref, bi, fr[0])
            for j in range(len(bi)):
                ctx.equal(out[j], ref[j], "frequency shift of a band")
        else:
            for p in range(nfp):
                ref = [rref(ctx, fp[p], fr, fc, tr, wt, T, eps, c, j, nb) for j in range(len(bi))]
                ref = averaged(ctx, ref, bi, fr[0])
                for j in range(len(bi)):
                    ctx.equal(out[p, j], ref[j], "frequency shift at a frequency point")

    return h


def loop(at_bands, eps=(0.1, 0.3), Ts=(0.0, 300.0), gps=(1, 0)):
    """get_real_self_energy: every epsilon, temperature and grid point"""

    def h(ctx):
        import phono3py.phonon3.real_self_energy as mod

        nb, bi = 2, [1, 0]
        fr = ctx.reals("f", (4, nb), lo=0.02)
        for g in (0, 1):
            for b in range(nb):
                fr[g, b] = ctx.const(0.7 + g * 0.4 + b)
        trs = {0: (I64([[0, 2, 3]]), I64([2])), 1: (I64([[1, 3, 2]]), I64([3]))}
        fc = {g: ctx.reals("fc%d" % g, (1, 2, nb, nb)) for g in (0, 1)}
        c = ctx.const(0.01)
        log = []
        pp = mkpp(ctx, fr, fc, trs, bi, c, log)
        fps = None if at_bands else [0.5, 1.25, 2.0]
        real_float = float
        k = {}
        if fps is not None:
            k["frequency_points"] = np.array(fps)
        f, d = mod.get_real_self_energy(pp, list(gps), list(Ts), epsilons=list(eps), frequency_points_at_bands=at_bands, write_hdf5=False, **k)
        ctx.reach("loop")
        shape = (len(eps), len(Ts), len(gps), 2) + (() if at_bands else (3,))
        ctx.check(tuple(np.shape(d)) == shape, "shape of the shifts")
        for i, e in enumerate(eps):
            for t, T in enumerate(Ts):
                for j, gp in enumerate(gps):
                    for p, b in enumerate(bi):
                        for x, w in enumerate([fr[gp, b]] if at_bands else fps):
                            ref = rref(ctx, w if at_bands else ctx.const(w), fr, fc[gp], *trs[gp], T, ctx.num(e), c, p, nb)
                            ctx.equal(d[(i, t, j, p) + (() if at_bands else (x,))], ref, "shift per epsilon, temperature and grid point")

    return h


def kramers(method, n):
    def h(ctx):
        import phono3py.phonon3.real_self_energy as mod

        im_ = ctx.reals("im", (n,))
        im_[0] = ctx.const(0.0)  # odd function
        df = ctx.real("df", lo=0.001, hi=10)
        fp = ctx.const(np.zeros(n))
        for i in range(n):
            fp[i] = df * i
        c = mod.ImagToReal(im_.copy(), fp.copy())
        c.run(method=method)
        ctx.reach("kk")
        re_, fo = c.re_part, c.frequency_points
        ctx.check(len(re_) == n, "one value per frequency point")
        full = [(-i * df, -im_[i]) for i in range(n - 1, 0, -1)] + [(i * df, im_[i]) for i in range(n)]
        for i in range(n):
            x = df * i if method == "pick_one" else df * i + df / 2
            ctx.equal(fo[i], x, "frequency at which the real part is given")
            t = 0
            for m, (w, v) in enumerate(full):
                z = m - (n - 1)
                if method == "pick_one" and z == i:
                    continue
                t = t + v / (w - x)
            ctx.equal(re_[i], t * df / ctx.num(np.pi), "Kramers-Kronig sum")

    return h


def kramers_refuse(bad):
    def h(ctx):
        import phono3py.phonon3.real_self_energy as mod

        im_ = ctx.reals("im", (3,))
        a, b, c = ctx.real("a", lo=-1, hi=1), ctx.real("b", lo=0.5, hi=2), ctx.real("c", lo=2, hi=5)
        fp = ctx.const(np.zeros(3))
        if bad == "zero":
            ctx.assume(ctx.Or(a > ctx.num(1e-7), -a > ctx.num(1e-7)))
            fp[0], fp[1], fp[2] = a, a + 1, a + 2
        else:
            d = (c - b) - b
            ctx.assume(ctx.Or(d > ctx.num(1e-5), -d > ctx.num(1e-5)))
            fp[1], fp[2] = b, c
        try:
            mod.ImagToReal(im_, fp)
        except RuntimeError:
            ctx.reach("refused")
            ctx.check(True, "refused")
            return
        ctx.check(False, "frequency points that are not uniform from zero are refused")

    return h


MODS = ["phono3py.phonon3.real_self_energy"]
B = "frequencies, strengths, width, temperature symbolic; "
R = ("shift",)
PROPS = {
    "S03": Prop(
        "S03",
        [
            Slice("bands", single(2, 2, [1, 0], [1, 3], cut=0.01, gap=0.5), bounds=B + "2 triplets, 2 bands", reach=R),
            Slice("bands-degenerate", single(1, 2, [0, 1], [2], cut=0.01), bounds=B + "1 triplet, all frequencies incl. degenerate", reach=R),
            Slice("bands-cutoff", single(1, 2, [1], [2]), bounds=B + "all frequencies, cutoff symbolic", reach=R),
            Slice("bands-3", single(2, 3, [2, 0], [1, 4], cut=0.01, gap=0.5), bounds=B + "bands (2,0) of 3", reach=R),
            Slice("bands-0K", single(2, 2, [0, 1], [1, 4], zero=True), bounds="T=0, all frequencies, cutoff symbolic", reach=R),
            Slice("freq", single(2, 2, [1, 0], [1, 3], nfp=2, cut=0.01, gap=0.5), bounds=B + "2 triplets, 2 frequency points", reach=R),
            Slice("freq-cutoff", single(1, 2, [1], [2], nfp=2), bounds=B + "all frequencies and frequency points", reach=R),
            Slice("freq-0K", single(1, 2, [0, 1], [4], zero=True, nfp=2, cut=0.01), bounds="T=0", reach=R),
            Slice("py-bands", single(1, 2, [1, 0], [3], lang="Python", cut=0.01, gap=0.5), bounds=B + "Python implementation", reach=R),
            Slice("py-cutoff", single(1, 2, [1], [3], lang="Python"), bounds=B + "Python implementation, all frequencies", reach=R),
            Slice("py-0K", single(1, 2, [0, 1], [3], lang="Python", zero=True, cut=0.01), bounds="Python implementation", reach=R),
            Slice("py-freq", single(1, 2, [1], [3], lang="Python", nfp=2, cut=0.01, gap=0.5), bounds=B + "Python implementation", reach=R),
            Slice("py-freq-0K", single(1, 2, [1], [3], lang="Python", zero=True, nfp=2, cut=0.01, gap=0.5), bounds=B + "Python implementation", reach=R),
            Slice("loop-bands", loop(True), bounds="2 widths, 2 temperatures, 2 grid points", reach=("loop",)),
            Slice("loop-freq", loop(False), bounds="2 widths, 2 temperatures, 2 grid points, 3 frequency points", reach=("loop",)),
            Slice("kk-pick", kramers("pick_one", 3), bounds="3 frequency points", reach=("kk",)),
            Slice("kk-half", kramers("half_shift", 3), bounds="3 frequency points", reach=("kk",)),
            Slice("kk-pick4", kramers("pick_one", 4), bounds="4 frequency points", reach=("kk",)),
            Slice("kk-refuse-zero", kramers_refuse("zero"), bounds="3 points, any start", reach=("refused",)),
            Slice("kk-refuse-step", kramers_refuse("step"), bounds="3 points, any steps", reach=("refused",)),
        ],
        modules=MODS,
        assumptions=["the interaction object is a stub with arbitrary strengths (I01)"],
    ),
}
