"""Spectra of self-energies: drivers, spectral function, output files."""
import types

import numpy as np

from .common import *
from .c_files import Store


class Text:
    """text files of a working directory, with the values printed"""

    def __init__(self, ctx, mod, store=None):
        from engine.expr import E

        self.E, self.ctx, self.files = E, ctx, {}
        mod.open = self.open
        self.terms = None
        if ctx.symbolic:
            self.E.printing = self.terms = []

    def stop(self):
        self.E.printing = None

    def open(self, name, mode="r"):
        if mode != "w":
            raise HarnessError("only writing")
        me = self
        me.files[name] = ""

        class W:
            def write(self, s):
                me.files[name] += s

            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

        return W()

    def rows(self, name):
        out = []
        for l in self.files[name].split("\n"):
            if l.strip():
                out.append([self.value(x) for x in l.split()])
        return out

    def value(self, s):
        v = float(s)
        if self.terms is not None and v > 999999:
            return self.terms[int(round(v - 1e6))]
        return v


class Fake:
    """arbitrary values per (width, temperature, grid point, class, band, frequency)"""

    w = None

    def __init__(self, pp, with_detail=False, **k):
        self.pp, self.det = pp, with_detail
        self.sigma = self.temperature = self.fp = None
        self.cls = None

    def set_grid_point(self, gp):
        self.g = int(gp)
        self.inter = False

    grid_point = property(lambda s: s.g, set_grid_point)

    def run_interaction(self, is_full_pp=False):
        self.inter = True

    def set_sigma(self, s, sigma_cutoff=None):
        self.sigma = s
        self.ready = None

    def _fp(self, x):
        self.fp = x
        self.ready = None

    frequency_points = property(lambda s: s.fp, _fp)

    def run_integration_weights(self, scattering_event_class=None):
        self.cls = scattering_event_class
        self.ready = (self.g, self.sigma, self.fp)

    def ix(self):
        w = self.w
        return w.sigmas.index(self.sigma), [i for i, x in enumerate(w.Ts) if float(x) == float(self.temperature)][0], w.gps.index(self.g)

    def run(self):
        if self.ready is None or not self.inter:
            raise HarnessError("values requested before weights or strengths")
        w = self.w
        s, t, g = self.ix()
        c = 0 if self.cls is None else self.cls
        if self.fp is None:
            self.v = w.B[c, s, t, g].copy()
            self.d = w.DB[s, t, g].copy() if self.det else None
            return
        ks = [w.fpindex(x) for x in self.fp]
        self.v = w.G[c, s, t, g][:, ks].T.copy()
        if self.det:
            self.d = w.D[s, t, g][ks].copy()

    @property
    def imag_self_energy(self):
        return self.v

    @property
    def detailed_imag_self_energy(self):
        return self.d


class W:
    def __init__(self, ctx, groups=((0, 2), (1,)), nb=3, sigmas=(None, 0.25), Ts=(0.0, 300.015625), gps=(2, 1), nfp=3, cls=0, detail=False, only=None, nosym=False, fpsym=True, df=0.5, fsym=(), glo=0):
        self.ctx = ctx
        self.sigmas, self.Ts, self.gps, self.nb = list(sigmas), list(Ts), list(gps), nb
        self.groups = [I64(g) for g in groups]
        self.bi = I64(np.hstack(self.groups))
        nj = len(self.bi)
        self.f = ctx.const(np.array([[0.5 * (3 * g + 2 * b) - 1 for b in range(nb)] for g in range(4)]))
        self.f[0, 0] = ctx.const(50.0)
        for g, b in fsym:
            self.f[g, b] = ctx.real("f%d_%d" % (g, b), lo=-5, hi=20)
        ns, nt, ng = len(sigmas), len(Ts), len(gps)
        self.nfp = nfp
        self.G = ctx.reals("G", (cls + 1, ns, nt, ng, nj, nfp), lo=glo, hi=100)
        self.B = ctx.reals("B", (cls + 1, ns, nt, ng, nj), lo=0, hi=100)
        if detail:
            self.D = ctx.reals("D", (ns, nt, ng, nfp, 2, nj, nb, nb), lo=0, hi=100)
            self.DB = ctx.reals("DB", (ns, nt, ng, 2, nj, nb, nb), lo=0, hi=100)
        if fpsym:
            self.fp = ctx.reals("w", (nfp,), lo=0, hi=100)
            for i in range(nfp - 1):
                ctx.assume(self.fp[i] + ctx.num(1e-3) < self.fp[i + 1])
        else:
            self.fp = ctx.const(np.array([df * i for i in range(nfp)]))
        D = I64([2, 3, 4])
        self.pp = pp = Mock(band_indices=self.bi, mesh_numbers=D, is_mesh_symmetry=not nosym, primitive=type("P", (), {"__len__": lambda s: nb // 3})())
        pp.bz_grid = Mock(addresses=I64(np.zeros((4, 3))), QDinv=np.eye(3), grid_matrix=None)
        pp.get_phonons = lambda: (self.f, None, np.ones(4, dtype="byte"))
        pp.run_phonon_solver = lambda *a: None
        pp.run_phonon_solver_at_gamma = lambda is_nac=False: None
        self.tw = {g: (I64([[g, 0, 0], [g, 1, g]]) , I64([1 + g, 2])) for g in gps}
        self.cur = Fake

        class F(Fake):
            w = self

            def set_grid_point(s, gp):
                Fake.set_grid_point(s, gp)
                pp.get_triplets_at_q = lambda: self.tw[int(gp)] + (None, None)

            grid_point = property(lambda s: s.g, set_grid_point)

        self.cls = F

    def fpindex(self, x):
        for i in range(self.nfp):
            if x is self.fp[i] or (not hasattr(x, "op") and not hasattr(self.fp[i], "op") and float(x) == float(self.fp[i])):
                return i
        raise HarnessError("unknown frequency point")

    def mesh(self):
        return "-m234"


def trim(x):
    return ("%f" % x).rstrip("0").rstrip(".")


def namecheck(ctx, files, names, label):
    ctx.check(len(set(names)) == len(names), label + ": names are distinct")
    ctx.check(set(files) == set(names), label + ": one file per item", "%s, expected %s" % (sorted(files), sorted(names)))


def imag(batch=None, detail=False, cls=None, bands=False, filename=None, **kw):
    """get_imag_self_energy and its output files"""

    def h(ctx):
        import phono3py.file_IO as fio
        import phono3py.phonon3.imag_self_energy as mod

        w = W(ctx, cls=cls or 0, detail=detail, **kw)
        mod.ImagSelfEnergy = w.cls
        st = Store().use(fio)
        r = mod.get_imag_self_energy(
            w.pp, w.gps, w.Ts, sigmas=w.sigmas, frequency_points=None if bands else w.fp, frequency_points_at_bands=bands,
            num_points_in_batch=batch, scattering_event_class=cls, write_gamma_detail=detail, return_gamma_detail=detail, output_filename=filename)
        c = cls or 0
        nj = len(w.bi)
        ctx.reach("run")
        ns, nt, ng = len(w.sigmas), len(w.Ts), len(w.gps)
        shape = (ns, nt, ng, nj) + (() if bands else (w.nfp,))
        ctx.check(np.shape(r[1]) == shape, "shape of line widths", str(np.shape(r[1])))
        T = w.B if bands else w.G
        for ix in np.ndindex(*shape):
            ctx.equal(r[1][ix], T[(c,) + ix], "line width of width, temperature, grid point and band")
        if bands:
            ctx.check(r[0] is None, "no frequency points at band frequencies")
        else:
            for k in range(w.nfp):
                ctx.equal(r[0][k], w.fp[k], "frequency points returned")
        if detail:
            D = w.DB if bands else w.D
            for g in range(ng):
                for ix in np.ndindex(ns, nt):
                    a, b = r[2][g][ix], D[ix + (g,)]
                    ctx.check(np.shape(a) == np.shape(b), "shape of contributions of triplets")
                    for q in np.ndindex(*np.shape(b)):
                        ctx.equal(a[q], b[q], "contribution of triplet")
            names = {}
            for s, g in np.ndindex(ns, ng):
                n = "gamma_detail" + w.mesh() + "-g%d" % w.gps[g]
                if w.sigmas[s] is not None:
                    n += "-s" + trim(w.sigmas[s])
                names[n + ("." + filename if filename else "") + ".hdf5"] = (s, g)
            namecheck(ctx, st, list(names), "contributions")
            for n, (s, g) in names.items():
                f = st[n]
                for t in range(nt):
                    b = D[s, t, g]
                    for q in np.ndindex(*np.shape(b)):
                        ctx.equal(f["gamma_detail"].a[(t,) + q], b[q], "contribution of triplet in file")
                    ctx.equal(f["temperature"].a[t], w.Ts[t], "temperature in file")
                ctx.check(int(f["grid_point"].a) == w.gps[g], "grid point in file")
                ctx.check(np.array_equal(f["triplet"].a, w.tw[w.gps[g]][0]) and np.array_equal(f["weight"].a, w.tw[w.gps[g]][1]), "triplets and multiplicities in file")
                ctx.check(("sigma" in f) == (w.sigmas[s] is not None), "width in file")
                if "sigma" in f:
                    ctx.equal(f["sigma"].a, w.sigmas[s], "width in file")
                if not bands:
                    for k in range(w.nfp):
                        ctx.equal(f["frequency_point"].a[k], w.fp[k], "frequency point in file")
        else:
            ctx.check(len(r) == 2 and not st, "no contributions kept")

    return h


def gridname(w, g, filename, nosym):
    return (".%s" % filename if filename else ".nosym" if nosym else "") + ".dat"


def spectrum(ctx, t, name, fp, vals, label):
    rows = t.rows(name)
    ctx.check(len(rows) == len(fp) and all(len(r) == 2 for r in rows), label + ": one line per frequency point")
    for r, f, v in zip(rows, fp, vals):
        if ctx.symbolic and not hasattr(f, "op"):
            ctx.check(abs(r[0] - float(f)) < 1e-6, label + ": frequency")
        else:
            ctx.equal(r[0], f, label + ": frequency", scale=1e3 if not ctx.symbolic else 1, rtol=1e-5)
        ctx.equal(r[1], v, label + ": value", scale=10)


def text(kind, cls=None, filename=None, nosym=False, eps=None, **kw):
    """text files: averages over groups of bands"""

    def h(ctx):
        import phono3py.file_IO as fio
        import phono3py.phonon3.imag_self_energy as mi
        import phono3py.phonon3.real_self_energy as mr

        w = W(ctx, **kw)
        tx = Text(ctx, fio)
        try:
            if kind == "imag":
                mi.write_imag_self_energy(w.G[0], w.pp.mesh_numbers, w.gps, w.groups, w.fp, w.Ts, w.sigmas, scattering_event_class=cls, output_filename=filename, is_mesh_symmetry=not nosym)
                widths = [None if s is None else "s" + trim(s) for s in w.sigmas]
            else:
                mr.write_real_self_energy(w.G[0], w.pp.mesh_numbers, w.gps, w.groups, w.fp, w.Ts, eps, output_filename=filename, is_mesh_symmetry=not nosym)
                widths = ["e" + (trim(e) if e > 1e-5 else "%.3e" % e) for e in (eps or [mr.RealSelfEnergy.default_epsilon])]
        finally:
            tx.stop()
        ctx.reach("text")
        items = {}
        for s, t, g, b in np.ndindex(len(widths), len(w.Ts), len(w.gps), len(w.groups)):
            n = ("gammas" if kind == "imag" else "deltas") + w.mesh() + "-g%d" % w.gps[g]
            if widths[s] is not None:
                n += "-" + widths[s]
            n += "-t" + trim(w.Ts[t]) + "-" + "".join("b%d" % (x + 1) for x in w.groups[b])
            if cls is not None:
                n += "-c%d" % cls
            items[n + gridname(w, g, filename, nosym)] = (s, t, g, b)
        namecheck(ctx, tx.files, list(items), "spectra")
        for n, (s, t, g, b) in items.items():
            spectrum(ctx, tx, n, w.fp, mean(w, w.G[0, s, t, g], b), "spectrum averaged over bands")

    return h


def mean(w, tab, b):
    pos = sum(len(x) for x in w.groups[:b])
    k = len(w.groups[b])
    return [sum(tab[pos + x, p] for x in range(k)) / k for p in range(w.nfp)]


def spf(batch=None, txt=False, h5=False, filename=None, nosym=False, log=0, **kw):
    """spectral function: Lorentzian of shift and width, and its files"""

    def h(ctx):
        import phono3py.file_IO as fio
        import phono3py.phonon3.spectral_function as mod
        import phono3py.phonon3.imag_self_energy as mi

        w = W(ctx, nosym=nosym, fpsym=False, **kw)
        mod.ImagSelfEnergy = w.cls
        said = []
        mod.print = lambda *a, **k: said.append(" ".join(map(str, a)))
        mi.print = mod.print
        st = Store().use(fio)
        tx = Text(ctx, fio)
        try:
            r = mod.run_spectral_function(
                w.pp, w.gps, temperatures=w.Ts, sigmas=w.sigmas, frequency_points=w.fp, num_points_in_batch=batch,
                band_indices=w.groups, write_txt=txt, write_hdf5=h5, output_filename=filename, log_level=log)
        finally:
            tx.stop()
        ctx.reach("spectral")
        ns, nt, ng, nj = len(w.sigmas), len(w.Ts), len(w.gps), len(w.bi)
        pi = ctx.num(float(np.pi))
        A = {}
        D = ctx.const(np.zeros((ns, nt, ng, nj, w.nfp)))
        for s, t, g, j in np.ndindex(ns, nt, ng, nj):
            gam = [w.G[0, s, t, g, j, p] for p in range(w.nfp)]
            # odd continuation to negative frequencies
            ws = [-float(x) for x in w.fp[::-1]] + [float(x) for x in w.fp[1:]]
            gs = [-x for x in gam[::-1]] + gam[1:]
            f = w.f[w.gps[g], w.bi[j]]
            for p in range(w.nfp):
                om = float(w.fp[p])
                sh = 0
                for m, o in enumerate(ws):
                    if o != om:
                        sh = sh - gs[m] / ctx.num(o - om)
                D[s, t, g, j, p] = sh * ctx.num(float(w.fp[1] - w.fp[0]) / np.pi)
                ctx.equal(r.half_linewidths[s, t, g, j, p], gam[p], "half line width")
                ctx.equal(r.shifts[s, t, g, j, p], D[s, t, g, j, p], "shift by Kramers-Kronig relation", scale=10)
                # for any shift of this value: no need to expand it
                e = r.shifts[s, t, g, j, p]
                x = ctx.num(om * om) - f * f - 2 * f * e
                y = 2 * f * gam[p]
                a = r.spectral_functions[s, t, g, j, p]
                A[s, t, g, j, p] = a
                d = x * x + y * y
                if ctx.branch(d > 0):
                    ctx.equal(a, 4 * f * f * gam[p] / pi / d, "spectral function", scale=10)
                else:
                    ctx.equal(a, 0, "no spectral function without width")
        for p in range(w.nfp):
            ctx.equal(r.frequency_points[p], w.fp[p], "frequency points")
        items = {}
        if txt:
            for s, t, g, b in np.ndindex(ns, nt, ng, len(w.groups)):
                n = "spectral" + w.mesh() + "-g%d" % w.gps[g]
                if w.sigmas[s] is not None:
                    n += "-s" + trim(w.sigmas[s])
                n += "-t" + trim(w.Ts[t]) + "-" + "".join("b%d" % (x + 1) for x in w.groups[b])
                items[n + gridname(w, g, filename, nosym)] = (s, t, g, b)
        namecheck(ctx, tx.files, list(items), "spectra")
        for n, (s, t, g, b) in items.items():
            spectrum(ctx, tx, n, w.fp, mean(w, r.spectral_functions[s, t, g], b), "spectral function averaged over bands")
        hs = {}
        if h5:
            every = list(w.bi) == list(range(w.nb))
            for s, g in np.ndindex(ns, ng):
                n = "spectral" + w.mesh() + "-g%d" % w.gps[g]
                if not every:
                    n += "-" + "".join("b%d" % (x + 1) for x in w.bi)
                if w.sigmas[s] is not None:
                    n += "-s" + trim(w.sigmas[s])
                hs[n + ("." + filename if filename else "") + ".hdf5"] = (s, g)
        namecheck(ctx, st, list(hs), "spectra in hdf5")
        if log:
            for n in list(items) + list(hs):
                ctx.check(any(n in x for x in said), "the name of a file written is shown", n)
        for n, (s, g) in hs.items():
            f = st[n]
            ctx.check(int(f["grid_point"].a) == w.gps[g] and list(f["mesh"].a) == [2, 3, 4], "grid point and mesh in file")
            ctx.check(list(f["band_index"].a) == list(w.bi), "band indices in file", "%s for %s" % (list(f["band_index"].a), list(w.bi)))
            for t in range(nt):
                ctx.equal(f["temperature"].a[t], w.Ts[t], "temperature in file")
                for j, p in np.ndindex(nj, w.nfp):
                    ctx.equal(f["spectral_function"].a[t, j, p], r.spectral_functions[s, t, g, j, p], "spectral function in file")
                    ctx.equal(f["shift"].a[t, j, p], r.shifts[s, t, g, j, p], "shift in file")
                    ctx.equal(f["half_linewidth"].a[t, j, p], w.G[0, s, t, g, j, p], "half line width in file")
            for p in range(w.nfp):
                ctx.equal(f["frequency_point"].a[p], w.fp[p], "frequency point in file")
            for b in range(w.nb):
                ctx.equal(f["frequency"].a[b], w.f[w.gps[g], b], "frequency in file")

    return h


def real(bands=False, eps=(0.25, 1e-6), filename=None, **kw):
    """get_real_self_energy: hdf5 files"""

    def h(ctx):
        import phono3py.file_IO as fio
        import phono3py.phonon3.real_self_energy as mod

        w = W(ctx, sigmas=eps, **kw)

        class R(w.cls):
            epsilon = property(lambda s: s.sigma, lambda s, e: s.set_sigma(e))
            default_epsilon = 0.05

            def run(self):
                self.ready = True
                Fake.run(self)
                self.real_self_energy = self.v

        mod.RealSelfEnergy = R
        st = Store().use(fio)
        fps, d = mod.get_real_self_energy(w.pp, w.gps, w.Ts, epsilons=eps, frequency_points=None if bands else w.fp, frequency_points_at_bands=bands, write_hdf5=True, output_filename=filename)
        ctx.reach("run")
        ns, nt, ng, nj = len(eps), len(w.Ts), len(w.gps), len(w.bi)
        T = w.B if bands else w.G
        hs = {}
        for s, g in np.ndindex(ns, ng):
            hs["deltas" + w.mesh() + "-g%d" % w.gps[g] + "-e" + (trim(eps[s]) if eps[s] > 1e-5 else "%.3e" % eps[s]) + ".hdf5"] = (s, g)
        namecheck(ctx, [n.replace("." + str(filename) + ".hdf5", ".hdf5") for n in st], list(hs), "shifts in hdf5")
        for n in list(st):
            s, g = hs[n.replace("." + str(filename) + ".hdf5", ".hdf5")]
            f = st[n]
            ctx.check(int(f["grid_point"].a) == w.gps[g] and list(f["mesh"].a) == [2, 3, 4], "grid point and mesh in file")
            ctx.check(list(f["band_index"].a) == list(w.bi), "band indices in file")
            ctx.equal(f["epsilon"].a, eps[s], "width in file")
            for t in range(nt):
                ctx.equal(f["temperature"].a[t], w.Ts[t], "temperature in file")
                for q in np.ndindex(*((nj,) if bands else (nj, w.nfp))):
                    ctx.equal(d[(s, t, g) + q], T[(0, s, t, g) + q], "shift of width, temperature, grid point and band")
                    ctx.equal(f["delta"].a[(t,) + q], T[(0, s, t, g) + q], "shift in file")
            if not bands:
                for p in range(w.nfp):
                    ctx.equal(f["frequency_points"].a[p], w.fp[p], "frequency point in file")
            for b in range(w.nb):
                ctx.equal(f["frequency"].a[b], w.f[w.gps[g], b], "frequency in file")

    return h


def axis(sigmas, n=None, pts=False):
    """frequency axis covers every sum of two phonon frequencies"""

    def h(ctx):
        import phono3py.phonon3.imag_self_energy as mod

        m = ctx.real("max", lo=0.01, hi=100)
        fp = ctx.reals("w", (3,)) if pts else None
        a = mod.get_frequency_points(max_phonon_freq=m, sigmas=sigmas, frequency_points=fp, num_frequency_points=n)
        ctx.reach("axis")
        if pts:
            ctx.check(len(a) == 3, "given frequency points")
            for i in range(3):
                ctx.equal(a[i], fp[i], "given frequency points")
            return
        k = 201 if n is None else n
        ctx.check(len(a) == k, "number of frequency points")
        top = 2 * m + 4 * max([s for s in sigmas or [] if s is not None] or [0])
        ctx.equal(a[0], 0, "axis starts at zero")
        ctx.check(a[k - 1] >= top, "axis covers sums of two frequencies and the tails")
        for i in range(k - 1):
            ctx.equal(a[i + 1] - a[i], a[k - 1] / (k - 1), "uniform axis", scale=100)

    return h


def default_axis(kind, by, sigmas=(None, 0.5)):
    """frequency axis chosen by the driver from the phonon frequencies"""

    def h(ctx):
        mod = __import__("phono3py.phonon3." + {"imag": "imag_self_energy", "real": "real_self_energy", "spectral": "spectral_function"}[kind], fromlist=["x"])
        w = W(ctx, groups=((0, 1, 2),), sigmas=sigmas or (None,), Ts=(300.0,), gps=(1,), nfp=1)
        mod.print = lambda *a, **k: None
        top, lo = ctx.real("top", lo=50, hi=60), ctx.real("split", lo=70, hi=80)
        solved = bool(ctx.branch(ctx.flags("solved", (1,))[0] != 0))
        pure, nac = w.f.copy(), w.f.copy()
        pure[0] = ctx.const(np.zeros(3))
        pure[0, 2] = top
        nac[0] = pure[0].copy()
        nac[0, 2] = lo
        st = types.SimpleNamespace(f=nac if solved else ctx.const(np.zeros((4, 3))), done=np.ones(4, dtype="byte") * int(solved), runs=[])

        def run(*a):
            st.runs.append("all")
            st.f = nac
            st.done = np.ones(4, dtype="byte")

        def gamma(is_nac=False):
            st.runs.append("nac" if is_nac else "pure")
            st.f = nac if is_nac else pure

        w.pp.run_phonon_solver, w.pp.run_phonon_solver_at_gamma = run, gamma
        w.pp.get_phonons = lambda: (st.f, ctx.const(np.ones((4, 3, 3)) * 1000), st.done)
        seen = []

        class A(w.cls):
            epsilon = property(lambda s: s.sigma, lambda s, e: s.set_sigma(e))
            default_epsilon = 0.05

            def run(s):
                ctx.check(st.f is nac, "non-analytical term at Gamma when values are calculated")
                seen.extend(s.fp)
                s.v = ctx.const(np.zeros((len(s.fp), 3)))
                s.real_self_energy = s.v

        if kind == "real":
            mod.RealSelfEnergy = A
            st.f, st.done = nac, np.ones(4, dtype="byte")
        else:
            mod.ImagSelfEnergy = A
        import phono3py.file_IO as fio

        Store().use(fio)
        num, step = (5, None) if by == "number" else (None, 16.0) if by == "step" else (None, None)
        kw = dict(num_frequency_points=num, frequency_step=step)
        if kind == "imag":
            a = mod.get_imag_self_energy(w.pp, w.gps, w.Ts, sigmas=w.sigmas, **kw)[0]
        elif kind == "real":
            a = mod.get_real_self_energy(w.pp, w.gps, w.Ts, epsilons=[0.5], **kw)[0]
        else:
            a = iter(mod.SpectralFunction(w.pp, w.gps, temperatures=w.Ts, sigmas=sigmas, **kw)).frequency_points
            ctx.check(st.f is nac, "non-analytical term at Gamma when values are calculated")
        ctx.reach("axis")
        if kind != "real":
            ctx.check(("all" in st.runs) == (not solved), "phonons are solved before", st.runs)
        width = max([x for x in (w.sigmas if kind != "real" else (0.5,)) if x is not None] or [0.0])
        end = top * 2 + ctx.num(4 * width)
        n = len(a)
        ctx.equal(a[0], 0, "axis starts at zero")
        if by == "step":
            for i in range(n):
                ctx.equal(a[i], 16.0 * i, "pitch of frequency points")
            ctx.check(ctx.And(a[n - 1] < end * ctx.num(1.1), a[n - 1] + 16 >= end), "axis ends at twice the largest frequency without the term at Gamma")
        else:
            ctx.check(n == (num or 201), "number of frequency points", n)
            ctx.check(ctx.And(a[n - 1] < end * ctx.num(1.1), a[n - 1] >= end), "axis ends at twice the largest frequency without the term at Gamma")
            for i in range(1, n):
                ctx.equal(a[i], a[n - 1] * i / (n - 1), "uniform axis", scale=100)
        if kind == "spectral":
            return
        ns = 1 if kind == "real" else len(w.sigmas)
        ctx.check(len(seen) == ns * n, "values at all frequency points", len(seen))
        for i, x in enumerate(seen):
            ctx.equal(x, a[i % n], "values at the frequency points", scale=10)

    return h


MODS = ["phono3py.phonon3.imag_self_energy", "phono3py.phonon3.real_self_energy", "phono3py.phonon3.spectral_function", "phono3py.file_IO"]
ONE = dict(sigmas=(None,), Ts=(300.0,), gps=(1,))

PROPS = {
    "H04": Prop(
        "H04",
        [
            Slice("imag", imag(), bounds="2 widths, 2 temperatures, 2 grid points, 3 bands in 2 groups, 3 frequency points", reach=("run",)),
            Slice("imag-batches", imag(batch=2, nfp=5, groups=((1,),)), bounds="batches of 2 of 5 frequency points", reach=("run",)),
            Slice("imag-batch1", imag(batch=1, cls=1, nfp=2), bounds="batches of 1; scattering class", reach=("run",)),
            Slice("imag-bands", imag(bands=True), bounds="at band frequencies", reach=("run",)),
            Slice("imag-detail", imag(detail=True, batch=2, groups=((0,), (2,)), nfp=3), bounds="contributions of triplets", reach=("run",)),
            Slice("imag-detail-bands", imag(detail=True, bands=True, filename="x", sigmas=(0.5, 0.046875)), bounds="contributions at band frequencies", reach=("run",)),
            Slice("text-imag", text("imag"), bounds="text files", reach=("text",)),
            Slice("text-imag-class", text("imag", cls=2, filename="out", groups=((2,), (0, 1)), sigmas=(0.5, 0.015625)), bounds="text files; class and name", reach=("text",)),
            Slice("text-imag-nosym", text("imag", nosym=True, groups=((2, 1, 0),)), bounds="text files; no symmetry", reach=("text",)),
            Slice("text-real", text("real", eps=(0.25, 1e-6)), bounds="text files of shifts", reach=("text",)),
            Slice("text-real-default", text("real", sigmas=(0.1,), nosym=True), bounds="default width", reach=("text",)),
            Slice("text-real-name", text("real", eps=(0.25, 0.5), filename="z", groups=((1, 0, 2),)), bounds="name given", reach=("text",)),
            Slice("real", real(), bounds="hdf5 files of shifts", reach=("run",)),
            Slice("real-bands", real(bands=True, groups=((2,), (1,)), filename="y"), bounds="shifts at band frequencies", reach=("run",)),
            Slice("axis", axis((None, 0.25, 0.5), 7), bounds="any largest frequency", reach=("axis",)),
            Slice("axis-default", axis(None), bounds="201 points", reach=("axis",)),
            Slice("axis-given", axis((0.5,), pts=True), bounds="given points", reach=("axis",)),
        ]
        + [Slice("driver-%s-%s" % (k, b), default_axis(k, b), bounds="any largest frequency, with and without the term at Gamma", reach=("axis",)) for k in ("imag", "real") for b in ("number", "step", "default")],
        modules=MODS,
        assumptions=["line widths and shifts of single calls arbitrary; files stand for the values written"],
    ),
    "S06": Prop(
        "S06",
        [
            *[Slice("axis-" + b, default_axis("spectral", b, g), bounds="any largest frequency, with and without the term at Gamma", reach=("axis",)) for b, g in (("number", (None, 0.5)), ("step", (None,)), ("default", None))],
            Slice("spectral", spf(groups=((1,),), nfp=3, fsym=((1, 1),), **ONE), bounds="1 band, 3 frequency points, all frequencies and widths", reach=("spectral",)),
            Slice("spectral-5", spf(groups=((0,),), nfp=4, batch=3, **ONE), bounds="4 frequency points in batches of 3", reach=("spectral",)),
            Slice("loops", spf(groups=((0, 2), (1,)), nfp=2, glo=0.01, txt=True), bounds="2 widths, 2 temperatures, 2 grid points; text files", reach=("spectral",)),
            Slice("files", spf(groups=((2,), (1,)), nfp=2, glo=0.01, txt=True, h5=True, log=1, filename="x"), bounds="text and hdf5 files", reach=("spectral",)),
            Slice("files-hdf5", spf(groups=((0,), (1, 2)), nfp=2, glo=0.01, h5=True, log=1, gps=(3,)), bounds="hdf5 files of all bands", reach=("spectral",)),
            Slice("files-none", spf(groups=((0,), (1, 2)), nfp=2, glo=0.01, log=1, sigmas=(0.5,), gps=(3,), nosym=True), bounds="no files", reach=("spectral",)),
        ],
        modules=MODS,
        assumptions=["line widths arbitrary"],
    ),
}
