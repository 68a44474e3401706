"""Files: what is written is what is read back."""
import os as _os
import types

import numpy as np

from .common import *
from .lattice import *
from .c_kappa import World, GV, PATCH, stub, tetra
from .c_kubo import VO, herm


class Node:
    def __init__(self, data):
        self.a = data

    @property
    def shape(self):
        return np.shape(self.a)

    def __getitem__(self, k):
        if k == ():
            return self.a
        if isinstance(k, (list, np.ndarray)) and np.ndim(k) == 1 and np.asarray(k).dtype != bool and np.any(np.diff(np.asarray(k)) <= 0):
            raise TypeError("Indexing elements must be in increasing order")
        r = np.asarray(self.a)[k] if not isinstance(self.a, np.ndarray) else self.a[k]
        return r.copy() if hasattr(r, "copy") else r

    def __setitem__(self, k, v):
        if k == ():
            self.a = v
        elif self.a is None:
            self.a = [v]  # a text
        else:
            self.a[k] = v

    def __len__(self):
        return len(self.a)


class Store(dict):
    """the files of a working directory: name -> {dataset: value}"""

    def use(self, mod):
        mod.h5py = types.SimpleNamespace(File=self.open)
        mod.os = types.SimpleNamespace(path=types.SimpleNamespace(exists=lambda n: n in self))
        mod.print = lambda *a, **k: None
        return self

    def __missing__(self, name):
        raise Missing("no file %s" % name)

    def open(self, name, mode="r"):
        if mode == "w":
            self[name] = FileH(self)
        elif name not in self:
            raise OSError("no file " + name)
        return self[name]


class FileH(dict):
    def __init__(self, store):
        self.store = store

    def __missing__(self, name):
        raise Missing("nothing named %s in the file" % name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def create_dataset(self, name, shape=None, dtype=None, data=None, compression=None):
        if name in self:
            raise ValueError("dataset exists: " + name)
        if compression is not None and np.ndim(data) == 0:
            raise TypeError("Scalar datasets don't support chunk/filter options")
        if isinstance(data, (list, tuple)):
            data = np.array(data)
        self[name] = Node(data.copy() if isinstance(data, np.ndarray) else data)
        return self[name]

    def create_group(self, name):
        self[name] = FileH(self.store)
        return self[name]


class Col:
    """arbitrary line widths per (grid point, width, temperature, band)"""

    tab = None

    def __init__(self, pp, with_detail=False):
        self.pp, self.detail = pp, with_detail
        self.unit_conversion_factor = 1.0

    def set_grid_point(self, gp):
        self.g = int(self.pp.bz_grid.bzg2grg[gp])

    def set_sigma(self, s, sigma_cutoff=None):
        self.s = s

    def run_integration_weights(self):
        pass

    def run_interaction(self, is_full_pp=False):
        self.pp.averaged_interaction = self.tab.P[self.g][self.pp.band_indices]

    def run(self):
        pass

    def key(self):
        w = self.tab
        t = [i for i, x in enumerate(w.Ts) if x is self.temperature or (not hasattr(x, "op") and not hasattr(self.temperature, "op") and float(x) == float(self.temperature))]
        return w.sigmas.index(self.s), t[0], self.g

    @property
    def imag_self_energy(self):
        return self.tab.G[self.key()][self.pp.band_indices]

    def get_imag_self_energy_N_and_U(self):
        s, t, g = self.key()
        b = self.pp.band_indices
        return self.tab.N[s, t, g][b], self.tab.U[s, t, g][b]


def world(ctx, lat="cubic", mesh=(2, 2, 1), sub=tetra, nb=3, nt=2, sigmas=(None, 0.1), **kw):
    import phono3py.conductivity.rta as rta

    stub(rta)
    w = World(ctx, lat, mesh, sub=sub, nb=nb, fsym=(), vsym=((1, 0),), **kw)
    w.sigmas = list(sigmas)
    w.Ts = [ctx.const(100.0 * (1 + i)) for i in range(nt)]
    w.temps = ctx.const(np.array([100.0 * (1 + i) for i in range(nt)]))
    ns = len(sigmas)
    w.G = ctx.reals("G", (ns, nt, w.n, nb), lo=0.01, hi=100)
    w.N = ctx.reals("N", (ns, nt, w.n, nb), lo=0, hi=100)
    w.U = ctx.reals("U", (ns, nt, w.n, nb), lo=0, hi=100)
    w.P = ctx.reals("P", (w.n, nb), lo=0, hi=100)
    rta.ImagSelfEnergy = type("C", (Col,), {"tab": w})
    return rta, w


def bands(w, bi):
    w.pp.band_indices = I64(bi)


def same(ctx, br, w, pts, NU, pp, label=""):
    for s, t, i, b in np.ndindex(len(w.sigmas), len(w.Ts), len(pts), w.nb):
        g = pts[i]
        ctx.equal(br.gamma[s, t, i, b], w.G[s, t, g, b], "line width read back" + label)
        if NU:
            n, u = br.get_gamma_N_U()
            ctx.equal(n[s, t, i, b], w.N[s, t, g, b], "normal part read back" + label)
            ctx.equal(u[s, t, i, b], w.U[s, t, g, b], "Umklapp part read back" + label)
        if pp:
            ctx.equal(br.averaged_pp_interaction[i, b], w.P[g, b], "averaged strength read back" + label)


def rates(forms, NU=False, filename=None, cutoff=None, star=True, parts=((2, 0), (1,)), **kw):
    """forms: per width, how its line widths were calculated:
    whole | points | mixed (first point by bands, others whole points)"""

    def h(ctx):
        import phono3py.file_IO as fio

        rta, w = world(ctx, **kw)
        st = Store().use(fio)
        pts = w.ir if star else list(range(w.n))
        bz = w.bz
        bzpts = [int(bz.grg2bzg[g]) for g in pts]
        full = list(range(w.nb))

        def run(**k):
            return rta.get_thermal_conductivity_RTA(w.pp, temperatures=w.temps, is_kappa_star=star, is_full_pp=True, is_N_U=NU, sigma_cutoff=cutoff, **k)

        ref = run(sigmas=w.sigmas)
        # one calculation per width, or all widths at once
        jobs = [([s], form) for s, form in zip(w.sigmas, forms)] if not isinstance(forms, str) else [(w.sigmas, forms)]
        for ss, form in jobs:
            k = dict(sigmas=ss, output_filename=filename)
            bands(w, full)
            if form == "whole":
                run(write_kappa=True, **k)
            elif form == "points":
                # in two separate calculations, last points first
                run(write_gamma=True, grid_points=bzpts[1:], **k)
                run(write_gamma=True, grid_points=bzpts[:1], **k)
            else:
                for p in parts:
                    bands(w, p)
                    run(write_gamma=True, grid_points=bzpts[:1], **k)
                bands(w, full)
                run(write_gamma=True, grid_points=bzpts[1:], **k)
        bands(w, full)
        files = set(st)
        # the files alone determine the result
        rta.ImagSelfEnergy = type("C", (Col,), {"tab": None})
        br = rta.get_thermal_conductivity_RTA(w.pp, temperatures=w.temps, sigmas=w.sigmas, sigma_cutoff=cutoff, is_kappa_star=star, is_N_U=NU, read_gamma=True, input_filename=filename)
        ctx.reach("read")
        ctx.check(br is not False, "reading succeeds")
        ctx.check(set(st) == files, "reading writes nothing")
        same(ctx, br, w, pts, NU, True)
        for s, t, p in np.ndindex(len(w.sigmas), len(w.Ts), 6):
            ctx.equal(br.kappa[s, t, p], ref.kappa[s, t, p], "conductivity from files equals the direct one", scale=10)
        # every file is needed
        for n in sorted(files):
            if "kappa" in n:
                keep = st.pop(n)
                r = rta.get_thermal_conductivity_RTA(w.pp, temperatures=w.temps, sigmas=w.sigmas, sigma_cutoff=cutoff, is_kappa_star=star, is_N_U=NU, read_gamma=True, input_filename=filename)
                ctx.check(r is False, "a missing file is reported")
                st[n] = keep
                break

    return h


def isotopes(ctx, w, mod):
    """arbitrary isotope rates per width, grid point and band"""
    import phono3py.conductivity.base as base

    w.I = ctx.reals("I", (len(w.sigmas), w.n, w.nb), lo=0, hi=10)

    class Iso:
        mass_variances = [0.1]

        def __init__(self, mesh, prim, mass_variances=None, bz_grid=None, cutoff_frequency=None, **k):
            ctx.check(bz_grid is w.bz and cutoff_frequency is w.cut, "isotope calculation on the same grid")

        def set_phonons(self, f, e, d, dm=None):
            ctx.check(f is w.f, "isotope calculation with the same phonons")

        def set_grid_point(self, gp):
            self.g = int(w.bz.bzg2grg[gp])

        def run(self):
            self.gamma = w.I[w.sigmas.index(self.sigma), self.g].copy()

    base.Isotope = Iso


def contents(form, filename=None, cutoff=None, mfp=None, star=True, bi=None, iso=True, kind=None, **kw):
    """every dataset of the conductivity files is the calculated quantity"""

    def h(ctx):
        import phono3py.file_IO as fio
        from phonopy import units as u

        rta, w = world(ctx, **kw)
        isotopes(ctx, w, rta)
        if kind:
            import phono3py.conductivity.wigner as wm
            import phono3py.conductivity.kubo as km

            wm.VelocityOperator = km.GroupVelocityMatrix = VO
            VO.kind = kind
            herm(ctx, w, ((1, 0, 1),))
        st = Store().use(fio)
        pts = w.ir if star else list(range(w.n))
        bzpts = [int(w.bz.grg2bzg[g]) for g in pts]
        full = list(range(w.nb))
        if bi is not None:
            bands(w, bi)
        L = None if mfp is None else ctx.real("L", lo=0.01, hi=1e4)
        k = dict(write_kappa=True) if form == "whole" else dict(write_gamma=True, grid_points=bzpts)
        br = rta.get_thermal_conductivity_RTA(w.pp, temperatures=w.temps, sigmas=w.sigmas, sigma_cutoff=cutoff, is_kappa_star=star, is_full_pp=True, is_N_U=True, is_isotope=iso, boundary_mfp=L, output_filename=filename, conductivity_type=kind, **k)
        ctx.reach("read")
        bb = full if bi is None else bi
        if form == "whole":
            names = [(s, None, None) for s in range(len(w.sigmas))]
        elif bi is None:
            names = [(s, i, None) for s in range(len(w.sigmas)) for i in range(len(pts))]
        else:
            names = [(s, i, x) for s in range(len(w.sigmas)) for i in range(len(pts)) for x in range(len(bi))]
        mesh = "".join(str(int(x)) for x in w.bz.D_diag)
        ctx.check(len(st) == len(names), "one file per width" + ("" if form == "whole" else ", grid point and selected band"))

        def same_(f, name, e, shape):
            ctx.check(name in f, "dataset " + name)
            d = f[name].a
            ctx.check(np.shape(d) == tuple(shape), "shape of " + name, str(np.shape(d)))
            for ix in np.ndindex(*shape):
                ctx.equal(d[ix] if shape else d, e(*ix), "dataset " + name, scale=10)

        nt = len(w.Ts)
        for s, i, x in names:
            n = "kappa-m" + mesh
            if i is not None:
                n += "-g%d" % bzpts[i]
            if x is not None:
                n += "-b%d" % (bi[x] + 1)
            if w.sigmas[s] is not None:
                n += "-s%g" % w.sigmas[s]
                if cutoff is not None:
                    n += "-sd%g" % cutoff
            if filename:
                n += "." + filename
            n += ".hdf5"
            ctx.check(n in st, "documented file name", n + " not in " + " ".join(sorted(st)))
            f = st[n]
            # index of a mode in the file -> (point, position of band)
            if i is None:
                P, m = (len(pts), len(bb)), lambda *q: q
            elif x is None:
                P, m = (len(bb),), lambda *q: (i,) + q
            else:
                P, m = (), lambda *q: (i, x)
            G = lambda q: pts[q[0]]
            B = lambda q: bb[q[1]]
            same_(f, "temperature", lambda t: w.Ts[t], (nt,))
            same_(f, "mesh", lambda a: int(w.bz.D_diag[a]), (3,))
            if i is None:
                same_(f, "frequency", lambda a, b: w.f[w.bz.grg2bzg[pts[a]], b], (len(pts), w.nb))
            else:
                same_(f, "frequency", lambda *q: w.grf[G(m(*q)), B(m(*q))], P)
            same_(f, "gamma", lambda t, *q: w.G[s, t, G(m(*q)), B(m(*q))], (nt,) + P)
            same_(f, "gamma_N", lambda t, *q: w.N[s, t, G(m(*q)), B(m(*q))], (nt,) + P)
            same_(f, "gamma_U", lambda t, *q: w.U[s, t, G(m(*q)), B(m(*q))], (nt,) + P)
            if iso:
                same_(f, "gamma_isotope", lambda *q: w.I[s, G(m(*q)), B(m(*q))], P)
            else:
                ctx.check("gamma_isotope" not in f, "no isotope rates without isotopes")
            same_(f, "ave_pp", lambda *q: w.P[G(m(*q)), B(m(*q))], P)
            if kind is None:
                same_(f, "group_velocity", lambda *q: w.grv[G(m(*q[:-1])), B(m(*q[:-1])), q[-1]], P + (3,))
                same_(f, "gv_by_gv", lambda *q: br.gv_by_gv[m(*q[:-1])][q[-1]], P + (6,))
            elif kind == "wigner" and i is not None:
                same_(f, "velocity_operator", lambda *q: w.V[G(m(*q[:-2]))][(B(m(*q[:-2])),) + q[-2:]], P + (w.nb, 3))
            if kind != "kubo":
                same_(f, "heat_capacity", lambda t, *q: br.mode_heat_capacities[(t,) + tuple(m(*q))], (nt,) + P)
            conv_ = (1e12 * 1e-10) ** 2 / 1e-30 * u.EV / 1e12 / (2 * np.pi) / w.prim.volume
            same_(f, "kappa_unit_conversion", lambda: ctx.num(conv_), ())
            if form == "whole":
                if kind is None:
                    same_(f, "kappa", lambda t, p: br.kappa[s, t, p], (nt, 6))
                    same_(f, "mode_kappa", lambda t, a, b, p: br.mode_kappa[s, t, a, b, p], (nt, len(pts), w.nb, 6))
                elif kind == "wigner":
                    for x_ in ("kappa_TOT_RTA", "kappa_P_RTA", "kappa_C"):
                        same_(f, x_, lambda t, p: getattr(br, x_)[s, t, p], (nt, 6))
                    same_(f, "mode_kappa_P_RTA", lambda t, a, b, p: br.mode_kappa_P_RTA[s, t, a, b, p], (nt, len(pts), w.nb, 6))
                    same_(f, "mode_kappa_C", lambda t, a, b, c, p: br.mode_kappa_C[s, t, a, b, c, p], (nt, len(pts), w.nb, w.nb, 6))
                q0 = lambda a: np.dot(w.bz.addresses[bzpts[a]], np.array(w.bz.QDinv).T)
                same_(f, "qpoint", lambda a, y: ctx.num(float(q0(a)[y])), (len(pts), 3))
                same_(f, "weight", lambda a: sum(1 for z in w.star if z == pts[a]) if star else 1, (len(pts),))
                same_(f, "grid_point", lambda a: bzpts[a], (len(pts),))
                if L is not None:
                    same_(f, "boundary_mfp", lambda: L, ())
            else:
                same_(f, "grid_point", lambda: bzpts[i], ())
                if x is not None:
                    same_(f, "band_index", lambda: bi[x] + 1, ())
            if w.sigmas[s] is None:
                ctx.check("sigma" not in f, "no width with the tetrahedron method")
            else:
                same_(f, "sigma", lambda: w.sigmas[s], ())
                if cutoff is not None:
                    same_(f, "sigma_cutoff_width", lambda: cutoff, ())

    return h


class ColMat(Col):
    """arbitrary line widths and collision matrix rows"""

    def __init__(self, pp, is_reducible_collision_matrix=False, rotations_cartesian=None, num_ir_grid_points=None, rot_grid_points=None, log_level=0):
        Col.__init__(self, pp)

    def delete_integration_weights(self):
        pass

    def get_collision_matrix(self):
        return self.tab.A[self.key()][self.pp.band_indices].copy()


def collisions(forms, red=False, select="all", nt=2, filename=None, cutoff=None, star=True, parts=((2, 0), (1,)), again=False, mesh=(2, 1, 1), sub=lambda r: abs(r[0, 0]) == 1, sigmas=(None, 0.25), bandpts=slice(0, 1), **kw):
    """collision matrices calculated in parts and read back"""

    def h(ctx):
        import phono3py.conductivity.direct_solution as mod
        import phono3py.conductivity.utils as cu
        import phono3py.file_IO as fio

        _, w = world(ctx, nt=nt, mesh=mesh, sub=sub, sigmas=sigmas, **kw)
        w.pp.delete_interaction_strength = lambda: None
        isotopes(ctx, w, mod)
        cu.print = lambda *a, **k: None
        st = Store().use(fio)
        pts = w.ir if star else list(range(w.n))
        bzpts = [int(w.bz.grg2bzg[g]) for g in pts]
        m, nb, ns = len(pts), w.nb, len(sigmas)
        w.A = ctx.const(np.zeros((ns, nt, w.n) + ((nb, w.n, nb) if red else (nb, 3, m, nb, 3))))
        k = 0
        for ix in np.ndindex(*w.A.shape):
            if ix[2] in pts:
                k += 1
                w.A[ix] = ctx.real("A%d" % k, lo=-100, hi=100)
        full = list(range(nb))
        mod.CollisionMatrix = type("C", (ColMat,), {"tab": w})
        mod.ConductivityLBTE.set_kappa_at_sigmas = lambda self: None
        kept = {}

        def run(**k_):
            return mod.get_thermal_conductivity_LBTE(w.pp, is_reducible_collision_matrix=red, is_kappa_star=star, sigma_cutoff=cutoff, is_isotope=True, pinv_solver=7, **dict(dict(temperatures=w.temps), **k_))

        jobs = [([s], form) for s, form in zip(sigmas, forms)] if not isinstance(forms, str) else [(list(sigmas), forms)]
        for ss, form in jobs:
            k_ = dict(sigmas=ss, output_filename=filename)
            bands(w, full)
            if form == "whole":
                run(write_LBTE_solution=True, **k_)
            elif form == "points":
                run(write_collision=True, grid_points=bzpts[1:], **k_)
                run(write_collision=True, grid_points=bzpts[:1], **k_)
            elif form == "once":
                run(write_collision=True, **k_)
            else:
                for p in parts:
                    bands(w, p)
                    run(write_collision=True, grid_points=bzpts[bandpts], **k_)
                bands(w, full)
                run(write_collision=True, grid_points=[g for g in bzpts if g not in bzpts[bandpts]], **k_)
        bands(w, full)
        # isotope rates in the files
        for name, f in st.items():
            g = int(w.bz.bzg2grg[f["grid_point"].a]) if "grid_point" in f else None
            s = list(sigmas).index(f["sigma"].a) if "sigma" in f else list(sigmas).index(None)
            x = f["band_index"].a - 1 if "band_index" in f else None
            d = f["gamma_isotope"].a
            for b in full:
                if x not in (None, b):
                    continue
                for i, gg in enumerate(pts if g is None else [g]):
                    row = gg if red else i
                    v = d if x is not None else d[b] if g is not None else d[row, b]
                    ctx.equal(v, w.I[s, gg, b], "isotope rate in the collision file")
            if not (g is None and red):
                P = (nb,) if x is None else ()
                P = (P if g is not None else (m,) + P)
                ctx.check(np.shape(d) == P, "shape of isotope rates in the collision file")
        mod.CollisionMatrix = type("C", (ColMat,), {"tab": None})
        for round_ in range(2 if again else 1):
            lb = run(sigmas=list(sigmas), temperatures=None, read_collision=select if round_ == 0 else "all", input_filename=filename, output_filename=filename, write_LBTE_solution=again and round_ == 0)
            ctx.reach("read")
            ctx.check(lb is not False, "reading succeeds")
            sel = list(range(nt)) if select == "all" else list(select)
            ctx.check(np.shape(lb.temperatures) == (len(sel),), "selected temperatures")
            for i, t in enumerate(sel):
                ctx.equal(lb.temperatures[i], w.Ts[t], "selected temperatures")
                for s in range(ns):
                    for j, g in enumerate(pts):
                        row = g if red else j
                        for b in full:
                            ctx.equal(lb.gamma[s, i, row, b], w.G[s, t, g, b], "line width read back")
                            for ix in np.ndindex(*w.A.shape[4:]):
                                ctx.equal(lb.collision_matrix[(s, i, row, b) + ix], w.A[(s, t, g, b) + ix], "collision matrix read back")
            for s, j, b in np.ndindex(ns, len(pts), nb):
                ctx.equal(lb.gamma_isotope[s, pts[j] if red else j, b], w.I[s, pts[j], b], "isotope rates of the solution")
            if again and round_ == 0:
                # the combined file replaces the per-point files
                for n in [n for n in st if "-g" in n]:
                    del st[n]
        if not again:
            for n in sorted(st):
                keep = st.pop(n)
                r = run(sigmas=list(sigmas), temperatures=None, read_collision=select, input_filename=filename)
                ctx.check(r is False, "a missing file is reported", n)
                st[n] = keep

    return h


R = ("read",)
MODS = ["phono3py.conductivity.rta", "phono3py.conductivity.wigner", "phono3py.conductivity.kubo", "phono3py.phonon.heat_capacity_matrix", "phono3py.conductivity.base", "phono3py.conductivity.utils", "phono3py.file_IO"]

PROPS = {
    "H01": Prop(
        "H01",
        [
            Slice("whole-points", rates(("whole", "points")), bounds="2x2x1; whole file and per-point files", reach=R),
            Slice("points-whole-NU", rates(("points", "whole"), NU=True, cutoff=3.140625, sigmas=(0.109375, 0.1)), bounds="2 widths with cutoff; N and U parts", reach=R),
            Slice("bands", rates(("mixed", "points"), NU=True, nb=3), bounds="bands of the first point in two calculations", reach=R),
            Slice("bands-single", rates(("mixed",), sigmas=(0.015625,), parts=((1,), (0,), (2,)), filename="x"), bounds="bands one by one; name given", reach=R),
            Slice("no-star", rates(("whole", "mixed"), star=False, mesh=(2, 1, 1), sub=lambda r: abs(r[0, 0]) == 1), bounds="all grid points", reach=R),
            Slice("points-once", rates("points", NU=True), bounds="2 widths in one calculation", reach=R),
            Slice("bands-once", rates("mixed", NU=True, parts=((2, 1), (0,))), bounds="2 widths in one calculation; bands", reach=R),
            Slice("whole-once", rates("whole", NU=True, cutoff=2.5, sigmas=(0.5, 0.25)), bounds="2 widths in one calculation; whole file", reach=R),
            Slice("contents", contents("whole", mfp=1, sigmas=(None, 0.015625)), bounds="datasets of the whole file", reach=R),
            Slice("contents-all", contents("whole", star=False, mesh=(2, 1, 1), sub=lambda r: abs(r[0, 0]) == 1, cutoff=2.5, iso=False, filename="z"), bounds="datasets of the whole file, no star", reach=R),
            Slice("contents-points", contents("points", cutoff=3.0, sigmas=(0.03125, 0.109375)), bounds="datasets of per-point files", reach=R),
            Slice("wigner", contents("whole", kind="wigner", sigmas=(0.25, 0.5), mesh=(2, 1, 1), sub=lambda r: abs(r[0, 0]) == 1), bounds="Wigner: datasets of the whole file, two widths", reach=R),
            Slice("wigner-points", contents("points", kind="wigner"), bounds="Wigner: datasets of per-point files", reach=R),
            Slice("wigner-bands", contents("points", kind="wigner", bi=(2, 0), filename="w"), bounds="Wigner: datasets of per-band files", reach=R),
            Slice("kubo", contents("whole", kind="kubo", sigmas=(0.25, 0.5), mfp=1, mesh=(2, 1, 1), sub=lambda r: abs(r[0, 0]) == 1), bounds="Green-Kubo: datasets of the whole file, two widths", reach=R),
            Slice("kubo-points", contents("points", kind="kubo"), bounds="Green-Kubo: datasets of per-point files", reach=R),
            Slice("kubo-bands", contents("points", kind="kubo", bi=(2, 0), sigmas=(0.5,)), bounds="Green-Kubo: datasets of per-band files", reach=R),
            Slice("contents-bands", contents("points", bi=(2, 0)), bounds="datasets of per-band files", reach=R),
            Slice("hex", rates(("points", "mixed"), lat="hex", mesh=(3, 3, 1), sub=None, filename="y"), bounds="3x3x1 hexagonal", reach=R),
        ],
        modules=MODS,
        patch=PATCH,
        assumptions=["hdf5 files stand for the arrays stored in them; line widths arbitrary"],
    ),
    "H02": Prop(
        "H02",
        [
            Slice("points", collisions("points"), bounds="2x1x1, 2 widths, 2 temperatures; per-point files", reach=R),
            Slice("whole", collisions("whole", cutoff=3.0, sigmas=(0.5, 0.25)), bounds="whole files; 2 widths with cutoff", reach=R),
            Slice("whole-points", collisions(("whole", "points"), filename="x"), bounds="a whole file and per-point files", reach=R),
            Slice("select", collisions("points", select=[0, 2], nt=3, sigmas=(0.015625,)), bounds="2 of 3 temperatures, per-point files", reach=R),
            Slice("select-whole", collisions("whole", select=[0, 2], nt=3, sigmas=(0.1,)), bounds="2 of 3 temperatures, whole file", reach=R),
            Slice("select-bands", collisions("bands", select=[1], nt=2, sigmas=(0.1,)), bounds="1 of 2 temperatures, per-band files", reach=R),
            Slice("bands", collisions("bands"), bounds="bands of the first point in two calculations", reach=R),
            Slice("combine", collisions("once", again=True), bounds="per-point files combined into a whole file and read again", reach=R),
            Slice("combine-bands", collisions("bands", again=True, sigmas=(0.1,)), bounds="per-band files combined into a whole file", reach=R),
            Slice("reducible", collisions("points", red=True), bounds="reducible collision matrix, per-point files", reach=R),
            Slice("reducible-cubic", collisions("points", red=True, mesh=(2, 2, 1), sub=tetra, sigmas=(None,), nt=1), bounds="reducible, 2x2x1: grid points differ from their order", reach=R),
            Slice("reducible-whole", collisions("whole", red=True, sigmas=(0.1,)), bounds="reducible collision matrix, whole file", reach=R),
            Slice("reducible-once", collisions("once", red=True, mesh=(2, 2, 1), sub=tetra, sigmas=(None, 0.1), nt=1, again=True), bounds="reducible, per-point files written during one calculation", reach=R),
            Slice("reducible-bands-221", collisions("bands", red=True, mesh=(2, 2, 1), sub=tetra, sigmas=(0.015625,), nt=1, bandpts=slice(1, None)), bounds="reducible, per-band files of all points but Gamma; 2x2x1", reach=R),
            Slice("bands-221", collisions("bands", mesh=(2, 2, 1), sub=tetra, sigmas=(None,), nt=1, bandpts=slice(1, None)), bounds="per-band files of some points; 2x2x1", reach=R),
            Slice("reducible-bands", collisions("bands", red=True, sigmas=(0.1,), filename="y"), bounds="reducible, per-band files", reach=R),
            Slice("reducible-all", collisions("points", red=True, star=False, sigmas=(None,)), bounds="reducible, all grid points", reach=R),
        ],
        modules=MODS + ["phono3py.conductivity.direct_solution"],
        patch=PATCH,
        assumptions=["hdf5 files stand for the arrays stored in them; line widths and matrix elements arbitrary"],
    ),
}
