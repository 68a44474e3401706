"""Phonon-isotope scattering."""
import numpy as np

from engine.expr import Cx
from .common import *
from .lattice import bzgrid
from .c_interaction import cx, re, im
from .c_kappa import World, GV, PATCH

PI = np.pi


def cut_ok(ctx, f, cut):
    """f takes part; inputs within rounding of the cutoff left out"""
    d = ctx.num(1e-9)
    ctx.assume(ctx.Or(f < cut - d, f > cut + d))
    return ctx.branch(f > cut)


class Sys:
    def __init__(self, ctx, nb, mesh, lat="cubic", gp=1, bi=None, fsym=((1, 0), (2, 1)), esym=((1, 0),), esym2=((2, 1),), cut=0.3):
        self.ctx, self.nb = ctx, nb
        self.bz = bz = bzgrid(list(mesh), lattice=lat, rotations=np.eye(3, dtype="intc")[None])
        n = len(bz.addresses)
        self.f = ctx.const(np.array([[0.5 + 0.25 * g + 0.75 * b for b in range(nb)] for g in range(n)]))
        for g, b in fsym:
            self.f[g, b] = ctx.real("f%d_%d" % (g, b), lo=-1, hi=30)
        self.ev = ctx.const(np.array([[[((3 * g + 5 * x + 7 * b) % 9 - 4) / 4 + 1j * ((5 * g + 2 * x + 3 * b) % 7 - 3) / 8 for b in range(nb)] for x in range(nb)] for g in range(n)]))
        for g, b in tuple(esym) + tuple(esym2):
            v = ctx.complexes("e%d_%d" % (g, b), (nb,))
            for x in range(nb):
                self.ev[g, x, b] = v[x]
        self.mv = ctx.reals("mv", (nb // 3,), lo=0, hi=2)
        self.cut, self.gp = ctx.const(cut), gp
        self.bi = list(range(nb)) if bi is None else list(bi)
        self.prim = type("P", (Mock,), {"__len__": lambda s: nb // 3})(cell=np.eye(3))

    def overlap(self, k, b0, g, b):
        out = 0
        for a in range(self.nb // 3):
            z = cx(self.ctx, 0)
            for m in range(3):
                z = z + self.ev[g, 3 * a + m, b] * cx_conj(self.ev[self.gp, 3 * a + m, b0])
            out = out + (re(z) * re(z) + im(z) * im(z)) * self.mv[a]
        return out

    def expected(self, delta):
        """pi/4 f0^2 / N sum over the mesh, bands above the cutoff and atoms"""
        ctx, out = self.ctx, []
        n = int(np.prod(self.bz.D_diag))
        for i, b0 in enumerate(self.bi):
            f0 = self.f[self.gp, b0]
            if not cut_ok(ctx, f0, self.cut):
                out.append(0)
                continue
            s = 0
            for g in self.bz.grg2bzg:
                for b in range(self.nb):
                    if cut_ok(ctx, self.f[g, b], self.cut):
                        s = s + self.overlap(i, b0, g, b) * delta(i, b0, int(g), b)
            out.append(s * f0 * f0 * ctx.num(PI / 4) / n)
        return out


def cx_conj(z):
    return z.conjugate()


def gauss(ctx, s, lang="C"):
    def g(x):
        r = 0.3989422804014327 if lang == "C" else 1 / np.sqrt(2 * PI)
        if lang != "C" and not hasattr(x, "op"):
            return ctx.num(r / s * np.exp(-float(x) ** 2 / 2 / s**2))
        return ctx.num(r) / ctx.num(s) * ctx.fn("exp", -(x * x) / 2 / (s * s))

    return g


def make(ctx, mod, s, sigma, weights=None, **kw):
    iso = mod.Isotope(None, s.prim, mass_variances=[0.1] * (s.nb // 3), bz_grid=s.bz, band_indices=kw.pop("bi", None), sigma=sigma, cutoff_frequency=s.cut, **kw)
    iso._mass_variances = s.mv
    calls = []

    def solver(dm, freqs, ev, done, gps, *a, **k):
        for g in np.atleast_1d(gps):
            if not done[g]:
                freqs[g], ev[g], done[g] = s.f[g], s.ev[g], 1

    def solver_py(g, done, freqs, ev, *a, **k):
        solver(None, freqs, ev, done, [g])

    def giw(fp, freqs, bz, grid_points=None, **k):
        calls.append(fp)
        ctx.check([int(x) for x in grid_points] == list(range(len(s.bz.addresses))), "weights at every grid point")
        ctx.check(all(bool(x) for x in iso._phonon_done), "weights are of solved phonons")
        for i, b in enumerate(s.bi):
            ctx.equal(fp[i], s.f[s.gp, b], "weights at the frequencies of the grid point")
        ctx.check(len(fp) == len(s.bi), "one weight per band")
        return weights

    mod.run_phonon_solver_c, mod.run_phonon_solver_py = solver, solver_py
    mod.get_integration_weights = giw
    return iso


def kernel(nb=3, mesh=(2, 2, 1), sigma=None, bi=None, lang="C", **kw):
    def h(ctx):
        import phono3py.other.isotope as mod

        s = Sys(ctx, nb, mesh, bi=bi, **kw)
        w = None
        if sigma is None:
            w = ctx.reals("w", (len(s.bz.addresses), len(s.bi), nb))
        iso = make(ctx, mod, s, sigma, w, bi=bi)
        if lang != "C" and sigma is None:

            def iw(lang="C"):
                iso._integration_weights = w

            iso._set_integration_weights = iw
        iso.set_grid_point(s.gp)
        iso.run(lang=lang)
        ctx.reach("rates")
        g = gauss(ctx, sigma, lang)
        d = (lambda i, b0, q, b: w[q, i, b]) if sigma is None else (lambda i, b0, q, b: g(s.f[q, b] - s.f[s.gp, b0]))
        exp = s.expected(d)
        ctx.check(len(iso.gamma) == len(exp), "one rate per band")
        for i in range(len(exp)):
            ctx.equal(iso.gamma[i], exp[i], "scattering rate", scale=10)

    return h


def variances(ctx):
    import phono3py.other.isotope as mod

    data = {}
    want = {}
    for el, k in (("A", 3), ("B", 2), ("C", 1)):
        m = ctx.reals("m" + el, (k,), lo=1, hi=300)
        x = ctx.reals("x" + el, (k,), lo=0.01, hi=1)
        data[el] = [(i, m[i], x[i]) for i in range(k)]
        ave = sum(m[i] * x[i] for i in range(k))
        want[el] = sum(x[i] * (1 - m[i] / ave) * (1 - m[i] / ave) for i in range(k))
    mod.phonopy_isotope_data = {"A": data["B"], "B": data["B"], "C": data["C"]}
    out = mod.get_mass_variances(symbols=["B", "A", "C", "A"], isotope_data={"A": data["A"]})
    prim = Mock(symbols=["A", "C"])
    out2 = mod.get_mass_variances(primitive=prim, isotope_data=data)
    ctx.reach("variances")
    ctx.check(len(out) == 4 and len(out2) == 2, "one per atom")
    for v, el in zip(out, "BACA"):
        ctx.equal(v, want[el], "mass variance of the atom")
    for v, el in zip(out2, "AC"):
        ctx.equal(v, want[el], "mass variance of the atom")
    try:
        mod.get_mass_variances()
        ok = False
    except RuntimeError:
        ok = True
    ctx.check(ok, "refused without atoms")


def api(ctx):
    """every width and every grid point"""
    import phono3py.api_isotope as api_
    import phono3py.other.isotope as mod

    s = Sys(ctx, 3, (2, 2, 1), fsym=((1, 0),), esym=(), esym2=((2, 1),))
    sig = [0.5, None, 0.25]
    w = ctx.reals("w", (len(s.bz.addresses), 3, 3))
    iso = make(ctx, mod, s, None, w)
    real = mod.Isotope
    api_.Isotope = lambda *a, **k: iso
    a = api_.Phono3pyIsotope([2, 2, 1], s.prim, sigmas=sig)
    gps = [3, 1, 0]
    base = mod.get_integration_weights

    def giw(fp, *b, **k):
        s.gp = iso._grid_point
        return base(fp, *b, **k)

    mod.get_integration_weights = giw
    import io
    import contextlib

    with contextlib.redirect_stdout(io.StringIO()):
        a._iso = iso
        mute(api_)
        a.run(gps)
    ctx.reach("rates")
    ctx.check(np.shape(a.gamma) == (3, 3, 3), "shape")
    for j, gp in enumerate(gps):
        s.gp = gp
        for i, sg in enumerate(sig):
            g = gauss(ctx, sg)
            d = (lambda n, b0, q, b: w[q, n, b]) if sg is None else (lambda n, b0, q, b: g(s.f[q, b] - s.f[gp, b0]))
            e = s.expected(d)
            for b in range(3):
                ctx.equal(a.gamma[i, j, b], e[b], "rate of width and grid point", scale=10)


def mute(mod):
    mod.print = lambda *a, **k: None
    mod.zip = lambda *a: []


def conductivity(ctx):
    """the conductivity adds the rate of each width, grid point and band"""
    import phono3py.conductivity.base as base
    import phono3py.conductivity.rta as rta
    import phono3py.other.isotope as mod

    w = World(ctx, "cubic", [2, 2, 2], fsym=(), vsym=(), bi=[2, 0])
    made = {}
    log = []

    class Iso:
        def __init__(self, mesh, primitive, **k):
            made.update(k)
            self.mass_variances = np.array([0.1])

        def set_phonons(self, f, e, d, dm=None):
            self.f = f

        def set_grid_point(self, gp):
            self.gp = gp

        def run(self):
            k = (self.gp, self.sigma)
            log.append(k)
            ctx.check(self.f is w.f or bool(np.shape(self.f) == np.shape(w.f)), "phonons of the interaction")
            self.gamma = ctx.reals("iso%d_%s" % (self.gp, str(self.sigma).replace(".", "_")), (3,), lo=0, hi=10)
            made[k] = self.gamma

    old = base.Isotope, base.GroupVelocity
    base.Isotope, base.GroupVelocity = Iso, GV
    try:
        T = [ctx.real("T", lo=30, hi=3000)]
        c = rta.ConductivityRTA(w.pp, temperatures=T, sigmas=[None, 0.2], is_isotope=True, mass_variances=[0.2])
        g = ctx.const(np.zeros((2, 1, len(w.ir), 2)))
        c.gamma = g
        for _ in c:
            pass
    finally:
        base.Isotope, base.GroupVelocity = old
    ctx.reach("rates")
    gps = [int(x) for x in c.grid_points]
    ctx.check(sorted(log, key=str) == sorted(((g, s) for g in gps for s in (None, 0.2)), key=str), "each grid point and width once")
    ctx.check(made["bz_grid"] is w.bz and made["cutoff_frequency"] is w.cut and list(made["mass_variances"]) == [0.2], "set up from the interaction")
    for j, s in enumerate((None, 0.2)):
        for i, gp in enumerate(gps):
            for k, b in enumerate((2, 0)):
                ctx.equal(c.gamma_isotope[j, i, k], made[(gp, s)][b], "rate of width, grid point and band")


R = ("rates",)
P01_MODULES = ["phono3py.other.isotope"]
PROPS = {
    "X01": Prop(
        "X01",
        [
            Slice("thm", kernel(), bounds="tetrahedron weights arbitrary, 3 bands, 2x2x1", reach=R),
            Slice("thm-two-atoms", kernel(nb=6, mesh=(2, 1, 1), bi=[4, 1], fsym=((1, 4),), esym=((1, 4),), esym2=((0, 2),)), bounds="two atoms, band subset", reach=R),
            Slice("sigma", kernel(sigma=0.5), bounds="Gaussian, 3 bands", reach=R),
            Slice("sigma-subset", kernel(nb=6, mesh=(2, 1, 1), sigma=2.0, bi=[5, 0, 3], fsym=((1, 0), (0, 1)), esym=((1, 0),), esym2=((0, 1),)), bounds="two atoms, band subset", reach=R),
            Slice("zero-frequency", kernel(gp=0, fsym=((0, 0), (0, 2)), esym=((0, 2),), esym2=()), bounds="band of the grid point on either side of the cutoff", reach=R),
            Slice("sigma-zero", kernel(sigma=0.5, gp=0, fsym=((0, 0), (0, 2)), esym=((0, 2),), esym2=()), bounds="band of the grid point on either side of the cutoff", reach=R),
            Slice("python-sigma", kernel(sigma=0.5, lang="Py"), bounds="Python implementation", reach=R),
            Slice("python-thm", kernel(lang="Py", nb=6, mesh=(2, 1, 1), bi=[4, 1], fsym=((1, 4),), esym=((1, 4),), esym2=((0, 2),)), bounds="Python implementation", reach=R),
            Slice("python-zero", kernel(sigma=0.5, lang="Py", gp=0, fsym=((0, 0), (0, 2)), esym=((0, 2),), esym2=()), bounds="Python implementation", reach=R),
            Slice("variances", variances, bounds="elements of 1-3 isotopes, any masses and abundances", reach=("variances",)),
            Slice("api", api, bounds="three widths, three grid points", reach=R),
            Slice("conductivity", conductivity, bounds="two widths, band subset", reach=R),
        ],
        assumptions=["phonons and tetrahedron weights arbitrary inputs (see P01, W03)", "frequencies within 1e-9 of the cutoff left out"],
        functions=["c/isotope.c", "phono3py.other.isotope.Isotope", "phono3py.api_isotope.Phono3pyIsotope.run", "phono3py.conductivity.base.ConductivityBase._get_gamma_isotope_at_sigmas"],
        modules=["phono3py.other.isotope", "phono3py.api_isotope", "phono3py.phonon.func", "phono3py.conductivity.base", "phono3py.conductivity.rta"],
        patch=PATCH,
    ),
}
