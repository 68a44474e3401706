"""Force constants on their way into the calculation: files, solvers,
symmetrization, cutoff, units."""
import pathlib
import sys
import types

import numpy as np

from engine.pyshim import concrete
from .common import *
from .c_dataset import Pages, build, type1
from .c_fc3 import full_of, mean6
from .c_files import Store
from .c_store import FNode

NAMES = {"c3": ((3, 1, 1), 1), "nacl": ((1, 1, 1), 2), "pc3": ((1, 1, 1), 1, (3, 1, 1))}


def obj(ctx, name):
    """Phono3py object; pc3 has another supercell for harmonic phonons"""
    v = NAMES[name]
    return build(ctx, v[0], v[2] if len(v) > 2 else None, v[1])


class Paths:
    """pathlib of the files that are there"""

    def __init__(self, *stores):
        self.s = stores

    def Path(self, n=""):
        me = self

        class P:
            def exists(s):
                return any(str(n) in d for d in me.s)

            is_file = exists
            suffix = pathlib.PurePath(str(n)).suffix

            def __str__(s):
                return str(n)

            __fspath__ = __str__

        return P()


def files(ctx):
    """fake hdf5 files for the functions of file_IO"""
    import phono3py.cui.create_force_constants as cf
    import phono3py.file_IO as fio

    st = Store().use(fio)
    fake = types.ModuleType("h5py")
    fake.File = st.open
    sys.modules["h5py"] = fake  # phonopy imports it inside its functions

    def there(name, **k):
        if str(name) not in st:
            sys.exit(1)

    import phono3py.cui.load as lo

    for name in ("read_fc3_from_hdf5", "read_fc2_from_hdf5"):
        f = getattr(fio, name)

        def plain(*a, _f=getattr(f, "plain", f), **k):
            return np.asarray(_f(*a, **k)).view(np.ndarray)

        plain.plain = getattr(f, "plain", f)
        for m in (fio, cf, lo):
            setattr(m, name, plain)
    cf.file_exists = there
    cf.print = lambda *a, **k: None
    cf.print_error = lambda *a, **k: None
    cf.traceback = None
    return st


def seal(st):
    for f in st.values():
        for k in list(f):
            f[k] = FNode(f[k].a)


def drift2(f, n):
    """stand-in for phonopy's symmetrization: leaves a mark"""
    return f * n


def marks(mod, log):
    """phonopy's symmetrization of second-order force constants replaced"""

    def full(fc, level=1):
        if fc.shape[0] != fc.shape[1]:
            raise RuntimeError("compact array symmetrized as a full one")
        fc[:] = fc * 3
        log.append("full")

    def compact(fc, prim, level=1):
        if len(prim) != fc.shape[0]:
            raise RuntimeError("array of another primitive cell")
        fc[:] = fc * 3
        log.append(("compact", prim))

    mod.symmetrize_force_constants = full
    mod.symmetrize_compact_force_constants = compact


def invariant(f, compact=False):
    """sums over each atom in turn removed"""
    for ax in range(3):
        f = f - np.sum(f, axis=ax, keepdims=True) / f.shape[ax]
    return f


def symmetrized(ctx, prim, a):
    """full or compact force constants after symmetrization, in exact form"""
    full = a.shape[0] == a.shape[1]
    g = a if full else full_of(ctx, prim, a)
    g = mean6(ctx, invariant(g))
    return g if full else g[list(prim.p2s_map)]


def fc3_of(ctx, ph, compact, name="f"):
    n = len(ph.supercell)
    return ctx.reals(name, (len(ph.primitive) if compact else n, n, n, 3, 3, 3), lo=-10, hi=10)


def fc2_of(ctx, ph, compact, name="h"):
    n = len(ph.phonon_supercell)
    return ctx.reals(name, (len(ph.phonon_primitive) if compact else n, n, 3, 3), lo=-10, hi=10)


def settings(**k):
    from phono3py.cui.settings import Phono3pySettings

    return Phono3pySettings(default=k)


def flag(ctx, name):
    return bool(ctx.branch(ctx.flags(name, (1,))[0] != 0))


def read(cname, compact, inp=None, cut=None, which=(True, True, True)):
    """force constants from files"""

    def h(ctx):
        import phono3py.cui.create_force_constants as cf
        import phono3py.file_IO as fio

        st = files(ctx)
        log = []
        marks(cf, log)
        ph = obj(ctx, cname)
        a, b = fc3_of(ctx, ph, compact), fc2_of(ctx, ph, compact)
        suf = "" if inp is None else "." + inp
        fio.write_fc3_to_hdf5(a.copy(), filename="fc3%s.hdf5" % suf, p2s_map=ph.primitive.p2s_map)
        fio.write_fc2_to_hdf5(b.copy(), filename="fc2%s.hdf5" % suf, p2s_map=ph.phonon_primitive.p2s_map, physical_unit="eV/angstrom^2")
        if inp is not None:
            fio.write_fc3_to_hdf5(a * 2, filename="fc3.hdf5")
            fio.write_fc2_to_hdf5(b * 2, filename="fc2.hdf5")
        seal(st)
        s = [flag(ctx, n) if w else False for n, w in zip(("sym", "sym2", "sym3"), which)]
        se = settings(read_fc3=True, read_fc2=True, fc_symmetry=s[0], is_symmetrize_fc2=s[1], is_symmetrize_fc3_r=s[2], cutoff_fc3_distance=cut)
        before = dict(st)
        cf.create_phono3py_force_constants(ph, se, input_filename=inp, log_level=0)
        ctx.check(dict(st) == before, "files that were read are left alone")
        want = symmetrized(ctx, ph.primitive, a) if s[0] or s[2] else a.copy()
        if cut is not None:
            cutoff(ph, want, cut)
        ctx.check(ph.fc3.shape == want.shape, "form of the force constants")
        ctx.equal(ph.fc3, want, "third-order force constants in use", scale=10)
        ctx.equal(ph.fc2, b * 3 if s[0] or s[1] else b, "second-order force constants in use")
        ctx.check(len(log) == (1 if s[0] or s[1] else 0), "symmetrized once, on request only")
        ctx.reach("read")

    return h


def cutoff(ph, f, cut):
    """zero where a pair is further apart than the cutoff"""
    d = distances(ph)
    rows = range(len(d)) if f.shape[0] == f.shape[1] else list(ph.primitive.p2s_map)
    for p, i in enumerate(rows):
        for j, k in np.ndindex(f.shape[1:3]):
            if max(d[i, j], d[j, k], d[k, i]) > cut:
                f[p, j, k] = 0


def distances(ph):
    import itertools

    c = np.array(ph.supercell.cell, dtype=float)
    x = np.array(ph.supercell.scaled_positions, dtype=float)
    sh = np.array(list(itertools.product((-1, 0, 1), repeat=3)))
    return np.array([[min(np.linalg.norm((x[j] - x[i] + s) @ c) for s in sh) for j in range(len(x))] for i in range(len(x))])


def refuse(what):
    """files that do not belong to the crystal"""

    def h(ctx):
        import phono3py.cui.create_force_constants as cf
        import phono3py.cui.load as lo
        import phono3py.file_IO as fio

        st = files(ctx)
        marks(cf, [])
        lo.pathlib = Paths(st)
        ph = obj(ctx, "c3")
        n = len(ph.supercell)
        a, b = fc3_of(ctx, ph, False), fc2_of(ctx, ph, False)
        m = ph.primitive.p2s_map
        if what == "missing3" or what == "missing2":
            pass
        if what == "size3":
            a = a[:2, :2, :2].copy()
            m = None
        if what == "size2":
            b = b[:2, :2].copy()
            m = None
        if what == "atoms3":
            a = a[1:2].copy()
            m = np.array([1])
        if what == "atoms2":
            b = b[1:2].copy()
            m = np.array([1])
        if what != "missing3":
            fio.write_fc3_to_hdf5(a.copy(), p2s_map=m if what.endswith("3") else ph.primitive.p2s_map)
        if what != "missing2":
            fio.write_fc2_to_hdf5(b.copy(), p2s_map=m if what.endswith("2") else ph.primitive.p2s_map)
        seal(st)
        try:
            cf.create_phono3py_force_constants(ph, settings(read_fc3=True, read_fc2=True), log_level=0)
            bad = False
        except SystemExit as e:
            bad = e.code not in (None, 0)
        ctx.check(bad, "program stops with an error")
        ctx.check((ph.fc3 if what.endswith("3") else ph.fc2) is None, "force constants of the file are not used")
        if not what.startswith("missing"):
            ph = obj(ctx, "c3")
            try:
                lo.load_fc2_and_fc3(ph)
                bad = False
            except RuntimeError:
                bad = True
            ctx.check(bad, "load refuses the file")
            ctx.check((ph.fc3 if what.endswith("3") else ph.fc2) is None, "force constants of the file are not used")
        ctx.reach("refused")

    return h


class Solvers:
    """stand-ins for the solvers: arbitrary force constants of the form that is
    asked for, and a record of what they were asked"""

    def __init__(self, ctx, ph, prefix=""):
        import phono3py.api_phono3py as api

        self.ctx, self.ph, self.asked, self.prefix = ctx, ph, [], prefix
        api.get_fc3_solver = self.fc3
        api.get_fc2 = self.fc2
        self.made = {}

    def fc3(self, supercell, primitive, dataset, fc_calculator=None, fc_calculator_options=None, is_compact_fc=False, symmetry=None, log_level=0):
        ph, c = self.ph, self.ctx
        n = len(supercell)
        na = len(primitive) if is_compact_fc else n
        f2 = c.reals(self.prefix + "s2_", (na, n, 3, 3), lo=-10, hi=10)
        f3 = c.reals(self.prefix + "s3_", (na, n, n, 3, 3, 3), lo=-10, hi=10)
        self.asked.append((3, fc_calculator, fc_calculator_options, bool(is_compact_fc), dataset, supercell is ph.supercell, primitive is ph.primitive, symmetry is ph.symmetry))
        self.made[3], self.made[23] = f3.copy(), f2.copy()
        return types.SimpleNamespace(force_constants={2: f2, 3: f3})

    def fc2(self, supercell, dataset, primitive=None, fc_calculator=None, fc_calculator_options=None, is_compact_fc=False, symmetry=None, log_level=0, **k):
        ph, c = self.ph, self.ctx
        n = len(supercell)
        f2 = c.reals(self.prefix + "t2_", (len(primitive) if is_compact_fc else n, n, 3, 3), lo=-10, hi=10)
        self.asked.append((2, fc_calculator, fc_calculator_options, bool(is_compact_fc), dataset, supercell is ph.phonon_supercell, primitive is ph.phonon_primitive, symmetry is ph.phonon_supercell_symmetry))
        self.made[2] = f2.copy()
        return f2


def simple(ctx, ph, x="", phonon=False, energies=False):
    n = len(ph.phonon_supercell if phonon else ph.supercell)
    if phonon:
        return type1(ctx, n, [(0, None)], x=x)
    return type1(ctx, n, [(0, [(n - 1, 1, None)])], x=x)


# calculator, options -> (fc3 calculator, options), (fc2 calculator, options)
CALC = {
    "none": (None, None, (None, None), (None, None)),
    "symfc": ("symfc", "use_mkl = true", ("symfc", "use_mkl = true"), ("symfc", "use_mkl = true")),
    "upper": ("SymFC", None, ("symfc", None), ("symfc", None)),
    "only2": ("symfc|", None, (None, None), ("symfc", None)),
    "only3": ("|alm", "a=1|b=2", ("alm", "b=2"), (None, "a=1")),
    "both": ("alm|symfc", "a=1 | b=2", ("symfc", " b=2"), ("alm", "a=1 ")),
    "unknown": ("nosuch", None, (None, None), (None, None)),
}


def make(cname, calc="none", out=None, cut=None, sym=True, form=None):
    """force constants from forces: solver, symmetrization, cutoff, files"""

    def h(ctx):
        import phono3py.api_phono3py as api
        import phono3py.cui.create_force_constants as cf
        import phono3py.file_IO as fio

        st = files(ctx)
        log = []
        marks(cf, log)
        marks(api, log)
        ph = obj(ctx, cname)
        two = ph.phonon_supercell_matrix is not None
        so = Solvers(ctx, ph)
        d3, d2 = simple(ctx, ph), simple(ctx, ph, "q", True)
        y = types.SimpleNamespace(dataset=d3, phonon_dataset=d2 if two else None, phonon_supercell=ph.phonon_supercell if two else None)
        s = [flag(ctx, n) if sym else False for n in ("sym", "sym2", "sym3")]
        compact = flag(ctx, "compact") if form is None else form
        name, opts, c3, c2 = CALC[calc]
        se = settings(fc_symmetry=s[0], is_symmetrize_fc2=s[1], is_symmetrize_fc3_r=s[2], cutoff_fc3_distance=cut, fc_calculator=name, fc_calculator_options=opts, is_compact_fc=compact)
        cf.create_phono3py_force_constants(ph, se, ph3py_yaml=y, output_filename=out, log_level=0)
        suf = "" if out is None else "." + out
        ctx.check(sorted(st) == ["fc2%s.hdf5" % suf, "fc3%s.hdf5" % suf], "files written", sorted(st))
        ctx.check([q[0] for q in so.asked] == [3, 2], "one solver per order")
        for q, want in zip(so.asked, (c3, c2)):
            ctx.check(q[1] == want[0], "calculator of order %d" % q[0], q[1])
            ctx.check((q[2] or "").strip() == (want[1] or "").strip(), "options of the calculator of order %d" % q[0], q[2])
            ctx.check(q[3] == compact, "form that was requested")
            ctx.check(q[5] and q[6] and q[7], "cells and symmetry of order %d" % q[0])
        same(ctx, so.asked[0][4], d3, "dataset of third order")
        same(ctx, so.asked[1][4], d2 if two else d3, "dataset of second order")
        same(ctx, ph.dataset, d3, "dataset of third order is kept")
        if two:
            same(ctx, ph.phonon_dataset, d2, "dataset of second order is kept")
        f3 = so.made[3]
        own3, own2 = c3[0] in (None, "traditional"), c2[0] in (None, "traditional")
        want = symmetrized(ctx, ph.primitive, f3) if own3 and (s[0] or s[2]) else f3.copy()
        if cut is not None:
            cutoff(ph, want, cut)
        ctx.check(ph.fc3.shape == want.shape, "form of the force constants")
        ctx.equal(ph.fc3, want, "third-order force constants in use", scale=10)
        ctx.equal(ph.fc2, so.made[2] * 3 if own2 and (s[0] or s[1]) else so.made[2], "second-order force constants in use")
        for o, f, p in ((3, ph.fc3, ph.primitive), (2, ph.fc2, ph.phonon_primitive)):
            w = st["fc%d%s.hdf5" % (o, suf)]
            key = "fc3" if o == 3 else "force_constants"
            ctx.check(np.shape(w[key].a) == np.shape(f), "form in the file")
            for q in np.ndindex(*np.shape(f)):
                ctx.equal(w[key].a[q], f[q], "force constants in the file are those in use")
            ctx.check([int(x) for x in w["p2s_map"].a] == [int(x) for x in p.p2s_map], "atoms of the primitive cell in the file")
        ctx.reach("made")

    return h


def same(ctx, got, want, label):
    """nested datasets"""
    if isinstance(want, dict):
        ctx.check(isinstance(got, dict) and set(want) <= set(got), label, sorted(got) if isinstance(got, dict) else type(got))
        for k in want:
            same(ctx, got[k], want[k], label)
    elif isinstance(want, list):
        ctx.check(len(got) == len(want), label)
        for g, w in zip(got, want):
            same(ctx, g, w, label)
    elif isinstance(want, np.ndarray):
        ctx.check(np.shape(got) == np.shape(want), label)
        ctx.equal(got, want, label)
    elif isinstance(want, (int, str)) or want is None:
        ctx.check(got == want, label, (got, want))
    else:
        ctx.equal(got, want, label)


MODES = dict(
    jdos=dict(is_joint_dos=True),
    isotope=dict(is_isotope=True),
    gamma=dict(read_gamma=True),
    pp=dict(read_pp=True),
    phonon=dict(write_phonon=True),
    ave=dict(constant_averaged_pp_interaction=1.0e-10),
)


def harmonic(mode, calc="both"):
    """runs that need no third-order force constants: fc2 from forces"""

    def h(ctx):
        import phono3py.api_phono3py as api
        import phono3py.cui.create_force_constants as cf

        st = files(ctx)
        log = []
        marks(cf, log)
        marks(api, log)
        ph = obj(ctx, "pc3")
        so = Solvers(ctx, ph)
        d2 = simple(ctx, ph, "q", True)
        y = types.SimpleNamespace(dataset=None, phonon_dataset=d2, phonon_supercell=ph.phonon_supercell)
        name, opts, c3, c2 = CALC[calc]
        sym = flag(ctx, "sym")
        se = settings(fc_calculator=name, fc_calculator_options=opts, is_symmetrize_fc2=sym, **MODES[mode])
        cf.create_phono3py_force_constants(ph, se, ph3py_yaml=y, log_level=0)
        ctx.check(ph.fc3 is None and "fc3.hdf5" not in st, "no third-order force constants")
        ctx.check([q[0] for q in so.asked] == [2], "one solver")
        q = so.asked[0]
        ctx.check(q[1] == c2[0] and (q[2] or "").strip() == (c2[1] or "").strip(), "calculator and options", q[1:3])
        same(ctx, q[4], d2, "dataset")
        own = c2[0] in (None, "traditional")
        ctx.equal(ph.fc2, so.made[2] * 3 if own and sym else so.made[2], "second-order force constants in use")
        for q in np.ndindex(*ph.fc2.shape):
            ctx.equal(st["fc2.hdf5"]["force_constants"].a[q], ph.fc2[q], "force constants in the file are those in use")
        ctx.reach("harmonic")

    return h


def option(calc, opts, want3):
    """the cutoff of pairs becomes an option of the third-order calculator"""

    def h(ctx):
        import phono3py.cui.create_force_constants as cf
        from phono3py.interface.fc_calculator import extract_fc2_fc3_calculators as ex
        from phono3py.interface.fc_calculator import update_cutoff_fc_calculator_options as up
        from engine.expr import E

        cf.print = lambda *a, **k: None
        pg = Pages(ctx)
        try:
            d = ctx.real("cut", lo=1, hi=9)
            ctx.assume(d > 0)
            name, o = cf.get_fc_calculator_params(settings(fc_calculator=calc, fc_calculator_options=opts, cutoff_pair_distance=d))
            base = [None, None] if opts is None else ([v.strip() for v in opts.split("|")] if "|" in opts else [opts] * 2)
            ctx.check(((ex(o, 2) or "").strip() or None) == (base[0] or None), "options of second order unchanged", o)
            o3 = dict(v.split("=") for v in (ex(o, 3) or "").replace(" = ", "=").split(",") if v.strip())
            o3 = {k.strip(): v.strip() for k, v in o3.items()}
            b3 = dict(v.replace(" ", "").split("=") for v in (base[1] or "").split(",") if v.strip())
            for k, v in b3.items():
                ctx.check(o3.get(k) == v, "options of third order kept", o)
            ctx.check(("cutoff" in o3) == (want3 is not None or "cutoff" in b3), "cutoff passed to the calculator", o)
            if want3 is not None and "cutoff" not in b3:
                v = o3["cutoff"].split()
                ctx.check(len(v) == want3, "number of cutoffs", o)
                ctx.equal(pg.value(v[-1]), d, "cutoff passed to the calculator")
            u = up({} if opts is None else None, d)
            if isinstance(u, dict):
                ctx.equal(u["cutoff"], d, "cutoff in the options of load")
            else:
                ctx.equal(pg.value(u.split("=")[1]), d, "cutoff in the options of load")
        finally:
            pg.stop()
        ctx.reach("options")

    return h


def pair_cutoff(calc, text, got3):
    """cutoff distance of pairs: its own setting, else the cutoff of symfc of third order"""

    def h(ctx):
        import phono3py.cui.create_force_constants as cf
        import phonopy.interface.symfc as sf

        cf.print = lambda *a, **k: None
        pg = Pages(ctx)
        try:
            sf.float = pg.value
            d, c2, c3 = (ctx.real(n, lo=1, hi=9) for n in ("cut", "two", "three"))
            for v in (d, c2, c3):
                ctx.assume(v > 0)
            own = flag(ctx, "own")
            opts = None if text is None else text.format(two=c2, three=c3)
            got = cf.get_cutoff_pair_distance(settings(fc_calculator=calc, fc_calculator_options=opts, cutoff_pair_distance=d if own else None))
            if own:
                ctx.equal(got, d, "cutoff that is set")
            elif got3 is None:
                ctx.check(got is None, "no cutoff", got)
            else:
                ctx.equal(got, {2: c2, 3: c3}[got3], "cutoff of the third-order calculator")
        finally:
            pg.stop()
            sf.float = float
        ctx.reach("cutoff")

    return h


def loaded(cname, have3, have2, forces3=True, forces2=True, calc="none"):
    """phono3py.load: files take precedence, the rest comes from forces"""

    def h(ctx):
        import phono3py.api_phono3py as api
        import phono3py.cui.create_force_constants as cf
        import phono3py.cui.load as lo
        import phono3py.file_IO as fio

        st = files(ctx)
        log = []
        marks(cf, log)
        marks(api, log)
        lo.pathlib = Paths(st)
        ph = obj(ctx, cname)
        two = ph.phonon_supercell_matrix is not None
        so = Solvers(ctx, ph)
        compact = flag(ctx, "compact")
        s = flag(ctx, "sym")
        a, b = fc3_of(ctx, ph, not compact), fc2_of(ctx, ph, not compact)
        n3, n2 = (None, "fc3.hdf5", "x.hdf5")[have3], (None, "fc2.hdf5", "y.hdf5")[have2]
        if n3:
            fio.write_fc3_to_hdf5(a.copy(), filename=n3, p2s_map=ph.primitive.p2s_map)
        if n2:
            fio.write_fc2_to_hdf5(b.copy(), filename=n2, p2s_map=ph.phonon_primitive.p2s_map)
        seal(st)
        lo.load_fc2_and_fc3(ph, fc3_filename="x.hdf5" if have3 == 2 else None, fc2_filename="y.hdf5" if have2 == 2 else None)
        d3, d2 = simple(ctx, ph), simple(ctx, ph, "q", True)
        if forces3:
            ph.dataset = d3
        if forces2 and two:
            ph.phonon_dataset = d2
        name, opts, c3, c2 = CALC[calc]
        lo.compute_force_constants_from_datasets(ph, fc_calculator=name, fc_calculator_options=opts, symmetrize_fc=s, is_compact_fc=compact)
        ctx.check(len([q for q in so.asked if q[0] == 3]) == (not n3 and forces3), "solver of third order")
        ctx.check(len([q for q in so.asked if q[0] == 2]) == (not n2 and (forces2 if two else forces3)), "solver of second order")
        own3, own2 = c3[0] is None, c2[0] is None
        if n3:
            ctx.equal(ph.fc3, a, "third-order force constants of the file")
        elif forces3:
            ctx.equal(ph.fc3, symmetrized(ctx, ph.primitive, so.made[3]) if s and own3 else so.made[3], "third-order force constants from forces", scale=10)
        else:
            ctx.check(ph.fc3 is None, "nothing to make third-order force constants of")
        if n2:
            ctx.equal(ph.fc2, b, "second-order force constants of the file")
        elif forces2 if two else forces3:
            ctx.equal(ph.fc2, so.made[2] * 3 if s and own2 else so.made[2], "second-order force constants from forces")
            same(ctx, [q for q in so.asked if q[0] == 2][0][4], d2 if two else d3, "dataset of second order")
        else:
            ctx.check(ph.fc2 is None, "nothing to make second-order force constants of")
        for q in so.asked:
            w = c3 if q[0] == 3 else c2
            ctx.check(q[1] == w[0] and (q[2] or "").strip() == (w[1] or "").strip(), "calculator and options of order %d" % q[0], q[1:3])
            ctx.check(q[3] == compact and q[5] and q[6] and q[7], "form, cells and symmetry of order %d" % q[0])
        ctx.reach("loaded")

    return h


def api_sym(cname, compact, with2=False):
    """Phono3py.set_permutation_symmetry and set_translational_invariance"""

    def h(ctx):
        ph = obj(ctx, cname)
        a = fc3_of(ctx, ph, compact)
        b = fc2_of(ctx, ph, compact)
        g = full_of(ctx, ph.primitive, a) if compact else a.copy()
        rows = list(ph.primitive.p2s_map) if compact else list(range(len(ph.supercell)))
        for m, f3, f2 in (
            ("set_permutation_symmetry", lambda: mean6(ctx, g), lambda: (b + np.transpose(b, (1, 0, 3, 2))) / 2),
            ("set_translational_invariance", lambda: invariant(g), lambda: trans2(b)),
        ):
            ph.fc3 = a.copy()
            ph.fc2 = b.copy() if with2 else None
            getattr(ph, m)()
            ctx.check(ph.fc3.shape == a.shape, "form is kept")
            ctx.equal(ph.fc3, f3()[rows], m + " of third order", scale=10)
            if with2:
                ctx.equal(ph.fc2, f2(), m + " of second order", scale=10)
        ctx.reach("api")

    return h


def trans2(b):
    for ax in range(2):
        b = b - np.sum(b, axis=ax, keepdims=True) / b.shape[ax]
    return b


def units(kind, calculator, where="yaml"):
    """displacements and forces in the units of the calculator"""

    def h(ctx):
        import copy

        import phono3py.cui.create_force_constants as cf
        import phono3py.file_IO as fio
        from phonopy.interface.calculator import get_default_physical_units as un

        cf.print = lambda *a, **k: None
        ph = obj(ctx, "c3")
        n = 3
        if kind == "type1":
            ds = type1(ctx, n, [(0, [(1, 2, None)]), (1, [(2, 1, None)])])
        elif kind == "excluded":
            ds = type1(ctx, n, [(0, [(1, 1, True), (2, 1, False)])], forces="included")
        elif kind == "fc2":
            ds = type1(ctx, n, [(0, None), (1, None)])
        else:
            ds = {"displacements": ctx.reals("u", (2, n, 3), lo=-1, hi=1), "forces": ctx.reals("F", (2, n, 3), lo=-10, hi=10)}
        d = ctx.real("cut", lo=1, hi=9)
        old = ctx.real("oldcut", lo=1, hi=9)
        ctx.assume(ctx.Or(d - old > 1e-9, old - d > 1e-9))
        has = kind in ("type1", "excluded") and flag(ctx, "hascut")
        if has:
            ds["cutoff_distance"] = old
        fc_type = "phonon_fc2" if kind == "fc2" else "fc3"
        keep = copy.deepcopy(ds)
        y = types.SimpleNamespace(dataset=None if kind == "fc2" else ds, phonon_dataset=ds if kind == "fc2" else None, phonon_supercell=ph.phonon_supercell if kind == "fc2" else None)
        out = cf.parse_forces(ph, ph3py_yaml=y, cutoff_pair_distance=d, force_filename=None, fc_type=fc_type, calculator=calculator)
        un_ = un(calculator) if calculator else dict(distance_to_A=None, force_to_eVperA=None)
        A, F = un_["distance_to_A"] or 1.0, un_["force_to_eVperA"] or 1.0
        same(ctx, ds, keep, "dataset of the file is left alone")
        want = scaled(ctx, keep, A, F)
        if fc_type == "fc3":
            want["cutoff_distance"] = ctx.If(d < old, d, old) if has else d
        else:
            ctx.check("cutoff_distance" not in out, "no cutoff of pairs in second order")
        same(ctx, out, want, "dataset in eV and Angstrom")
        ctx.check(set(out) == set(want), "nothing else in the dataset", sorted(out))
        ctx.reach("units")

    return h


def scaled(ctx, x, A, F, key=""):
    if isinstance(x, dict):
        return {k: scaled(ctx, v, A, F, k) for k, v in x.items()}
    if isinstance(x, list) and key not in ("displacement", "displacements", "forces"):
        return [scaled(ctx, v, A, F, key) for v in x]
    if key in ("displacement", "displacements"):
        return x * ctx.num(A)
    if key == "forces":
        return x * ctx.num(F)
    return x


def no_data(calculator):
    def h(ctx):
        import phono3py.cui.create_force_constants as cf

        cf.print = lambda *a, **k: None
        ph = obj(ctx, "c3")
        n = ctx.branch(ctx.flags("w", (1,))[0] != 0)
        cf.pathlib = Paths({})
        for y, what in ((None, "no dataset at all"), (types.SimpleNamespace(dataset=None, phonon_dataset=None, phonon_supercell=None), "no dataset in the file"), (types.SimpleNamespace(dataset=type1(ctx, 4 if n else 2, [(0, [(1, 1, None)])]), phonon_dataset=None, phonon_supercell=None), "dataset of another supercell")):
            try:
                cf.parse_forces(ph, ph3py_yaml=y, calculator=calculator)
                ok = True
            except RuntimeError:
                ok = False
            ctx.check(not ok, what + " is refused with a message")
        ctx.reach("none")

    return h


def forces_file(kind, calculator=None):
    """displacements from the yaml file, forces from FORCES_FC3 / FORCES_FC2"""

    def h(ctx):
        import copy

        import phono3py.cui.create_force_constants as cf
        import phono3py.file_IO as fio
        from phonopy.interface.calculator import get_default_physical_units as un

        pg = Pages(ctx).use(fio, cf)
        try:
            cf.print = fio.print = lambda *a, **k: None
            cf.pathlib = Paths(pg.files)
            ph = obj(ctx, "c3")
            n = 3
            ds = type1(ctx, n, [(0, [(1, 2, None)]), (1, [(2, 1, None)])] if kind == "fc3" else [(0, None), (1, None)], forces="none")
            if kind == "fc3":
                F = [ctx.reals("F%d_" % i, (n, 3), lo=-10, hi=10) for i in range(5)]
                fio.write_FORCES_FC3(ds, forces_fc3=F, filename="FORCES_FC3")
                name = "FORCES_FC3"
            else:
                F = [ctx.reals("F%d_" % i, (n, 3), lo=-10, hi=10) for i in range(2)]
                fio.write_FORCES_FC2(ds, forces_fc2=F, filename="FORCES_FC2")
                name = "FORCES_FC2"
            keep = copy.deepcopy(ds)
            y = types.SimpleNamespace(dataset=ds if kind == "fc3" else None, phonon_dataset=None if kind == "fc3" else ds, phonon_supercell=None if kind == "fc3" else ph.phonon_supercell)
            out = cf.parse_forces(ph, ph3py_yaml=y, force_filename=name, fc_type="fc3" if kind == "fc3" else "phonon_fc2", calculator=calculator)
            u = un(calculator) if calculator else dict(distance_to_A=None, force_to_eVperA=None)
            k = ctx.num(u["force_to_eVperA"] or 1.0)
            same(ctx, ds, keep, "dataset of the file is left alone")
            i = 0
            for d1, o1 in zip(keep["first_atoms"], out["first_atoms"]):
                ctx.equal(o1["forces"], F[i] * k, "forces of the file", rtol=1e-8, scale=10)
                ctx.equal(o1["displacement"], d1["displacement"] * ctx.num(u["distance_to_A"] or 1.0), "displacement")
                i += 1
            for o1 in out["first_atoms"]:
                for o2 in o1.get("second_atoms", []):
                    ctx.equal(o2["forces"], F[i] * k, "forces of the file", rtol=1e-8, scale=10)
                    i += 1
            ctx.check(i == len(F), "all forces are used")
        finally:
            pg.stop()
        ctx.reach("file")

    return h


def solver(name, kind="pairs"):
    """each calculator gets the crystal, the dataset and the options that were
    given, and both orders come back under their own number"""

    def h(ctx):
        import phonopy.interface.alm as pa
        import phonopy.interface.symfc as ps
        import phono3py.interface.fc_calculator as mod

        ph = obj(ctx, "nacl")
        n = len(ph.supercell)
        rng = ctx.flags("compact", (1,))[0]
        compact = bool(ctx.branch(rng != 0))
        if kind == "pairs":
            ds = type1(ctx, n, [(0, [(1, 2, None)]), (1, [(0, 1, None)])])
            rows = [(a, b) for a in ds["first_atoms"] for b in [None] + a["second_atoms"]]
            rows.sort(key=lambda r: r[1] is not None)
            us, fs = [], []
            for a, b in rows:
                u = ctx.const(np.zeros((n, 3)))
                u[a["number"]] = u[a["number"]] + a["displacement"]
                if b is not None:
                    u[b["number"]] = u[b["number"]] + b["displacement"]
                us.append(u)
                fs.append(a["forces"] if b is None else b["forces"])
        else:
            ds = {"displacements": ctx.reals("u", (2, n, 3), lo=-1, hi=1), "forces": ctx.reals("F", (2, n, 3), lo=-10, hi=10)}
            us, fs = list(ds["displacements"]), list(ds["forces"])
        f2, f3 = fc2_of(ctx, ph, compact), fc3_of(ctx, ph, compact)
        log = []

        class Own:
            def __init__(self, *a, **k):
                log.append((a, k))
                self.ran = []

            @property
            def force_constants(self):
                return {2: f2, 3: f3}

            def run(self, orders=None, **k):
                self.ran.append(list(orders))

        def fd(*a, **k):
            log.append((a, k))
            return f2, f3

        keep = ps.SymfcFCSolver, pa.ALMFCSolver, ps.parse_symfc_options
        ps.SymfcFCSolver = pa.ALMFCSolver = Own
        ps.parse_symfc_options = lambda o: {"parsed": o}
        mod.get_fc3 = fd
        try:
            s = mod.get_fc3_solver(ph.supercell, ph.primitive, ds, fc_calculator=name, fc_calculator_options="a = 1", is_compact_fc=compact, symmetry=ph.symmetry)
            got = s.force_constants
        except Exception as e:
            if type(e).__name__ != "ForceCalculatorRequiredError":
                raise
            got = None
        finally:
            ps.SymfcFCSolver, pa.ALMFCSolver, ps.parse_symfc_options = keep
        ctx.reach("solver")
        if name in (None, "traditional") and kind == "random":
            ctx.check(got is None and not log, "finite differences refuse arbitrary displacements")
            return
        ctx.check(len(log) == 1, "one solver is run")
        a, k = log[0]
        pos = lambda i, key: k[key] if key in k else a[i]
        ctx.check(pos(0, "supercell") is ph.supercell, "supercell")
        ctx.check(sorted(got) == [2, 3], "both orders")
        ctx.equal(got[2], f2, "second order comes back as such")
        ctx.equal(got[3], f3, "third order comes back as such")
        ctx.check(bool(k["is_compact_fc"]) == compact, "form that was requested")
        if name in (None, "traditional"):
            ctx.check(pos(1, "primitive") is ph.primitive and pos(2, "disp_dataset") is ds and pos(3, "symmetry") is ph.symmetry, "primitive cell, dataset and symmetry")
            return
        if name == "symfc":
            ctx.check(k["symmetry"] is ph.symmetry and k["options"] == {"parsed": "a = 1"}, "symmetry and options", k["options"])
            ctx.check(s.fc_solver.ran == [[2, 3]], "orders two and three are fitted together", s.fc_solver.ran)
            d, f = pos(1, "displacements"), pos(2, "forces")
        else:
            ctx.check(pos(1, "primitive") is ph.primitive and k["options"] == "a = 1", "primitive cell and options", k["options"])
            ctx.check(pos(4, "maxorder") == 2, "orders two and three are fitted together")
            d, f = pos(2, "displacements"), pos(3, "forces")
        ctx.check(np.shape(d) == np.shape(f) == (len(us), n, 3), "one row per supercell", np.shape(d))
        # order of supercells is free: pair them in the order of the dataset
        order = [0, 1, 2, 3, 4] if kind == "pairs" else [0, 1]
        for i, j in enumerate(order[: len(us)]):
            ctx.equal(d[i], us[j], "displacements of the supercell")
            ctx.equal(f[i], fs[j], "forces of the supercell")

    return h


SO = ["solver"]
R, MK, HA, OP, LD, AP, UN, NO, FI, RF = ([x] for x in ("read", "made", "harmonic", "options", "loaded", "api", "units", "none", "file", "refused"))
MODS = ["phono3py.cui.create_force_constants", "phono3py.cui.load", "phono3py.api_phono3py", "phono3py.interface.fc_calculator", "phono3py.phonon3.fc3", "phono3py.phonon3.dataset", "phono3py.file_IO"]

PROPS = {
    "L01": Prop(
        "L01",
        [
            Slice("read-full", read("c3", False), bounds="3 atoms, all switches", reach=R),
            Slice("read-compact", read("c3", True), bounds="3 atoms, 1 in the primitive cell", reach=R),
            Slice("read-two", read("nacl", False), bounds="2 atoms of the primitive cell", reach=R),
            Slice("read-named", read("c3", True, inp="x", which=(True, False, False)), bounds="name given", reach=R),
            Slice("read-cutoff", read("nacl", False, cut=2.0, which=(False, False, True)), bounds="cutoff below the pair distance", reach=R),
            Slice("read-cutoff-compact", read("c3", True, cut=3.0, which=(False, False, True)), bounds="cutoff below the pair distance", reach=R),
        ]
        + [Slice("refuse-" + w, refuse(w), bounds=w, reach=RF) for w in ("size3", "size2", "atoms3", "atoms2", "missing3", "missing2")]
        + [
            Slice("make", make("c3"), bounds="3 atoms, all switches", reach=MK),
            Slice("make-two", make("nacl"), bounds="2 atoms, all switches", reach=MK),
            Slice("make-phonon-cell", make("pc3"), bounds="other supercell for second order", reach=MK),
            Slice("make-named", make("c3", out="x", sym=False), bounds="name given", reach=MK),
            Slice("make-cutoff", make("c3", cut=3.0, form=True), bounds="cutoff, compact", reach=MK),
        ]
        + [Slice("make-" + c, make("nacl", calc=c, form=False), bounds=c, reach=MK) for c in CALC if c != "none"]
        + [Slice("harmonic-" + m, harmonic(m), bounds=m, reach=HA) for m in MODES]
        + [Slice("harmonic-own", harmonic("jdos", "none"), bounds="built-in solver", reach=HA)]
        + [
            Slice("option-symfc", option("symfc", None, 1), bounds="symfc", reach=OP),
            Slice("option-alm", option("alm", None, 2), bounds="alm", reach=OP),
            Slice("option-mixed", option("alm|symfc", "a=1|b=2", 1), bounds="alm for second order", reach=OP),
            Slice("option-first", option("symfc|", None, None), bounds="no calculator of third order", reach=OP),
            Slice("option-given", option("symfc", "|cutoff = 3", 1), bounds="cutoff given by the user", reach=OP),
            Slice("option-common", option("symfc", "b=2", 1), bounds="one string for both orders", reach=OP),
            Slice("option-none", option(None, None, None), bounds="built-in solver", reach=OP),
        ]
        + [
            Slice("load-%s-%d%d%s" % (c, i, j, "" if f3 and f2 else "-nof%d" % (2 if f3 else 3)), loaded(c, i, j, f3, f2), bounds="%s; files %d %d" % (c, i, j), reach=LD)
            for c, i, j, f3, f2 in (("c3", 0, 0, True, True), ("c3", 1, 0, True, True), ("c3", 0, 1, True, True), ("c3", 2, 2, True, True), ("c3", 0, 0, False, True), ("pc3", 0, 0, True, True), ("pc3", 1, 0, True, False), ("pc3", 0, 0, True, False), ("pc3", 0, 2, True, True), ("pc3", 0, 0, False, True))
        ]
        + [Slice("load-" + c, loaded("nacl", 0, 0, calc=c), bounds=c, reach=LD) for c in ("symfc", "only2", "only3")]
        + [
            Slice("api-full", api_sym("c3", False, True), bounds="3 atoms", reach=AP),
            Slice("api-compact", api_sym("c3", True), bounds="compact", reach=AP),
            Slice("api-two", api_sym("nacl", False, True), bounds="2 atoms", reach=AP),
        ]
        + [Slice("units-%s-%s" % (k, c), units(k, c), bounds="%s; %s" % (k, c), reach=UN) for k, c in (("type1", None), ("type1", "qe"), ("excluded", "wien2k"), ("fc2", "abinit"), ("type2", "qe"), ("type2", None), ("type2", "turbomole"))]
        + [Slice("no-data-%s" % c, no_data(c), bounds="%s" % c, reach=NO) for c in (None, "qe")]
        + [Slice("file-%s-%s" % (k, c), forces_file(k, c), bounds="%s; %s" % (k, c), reach=FI) for k, c in (("fc3", None), ("fc3", "qe"), ("fc2", "elk"))]
        + [Slice("solver-%s-%s" % (k, c), solver(c, k), bounds="%s; %s" % (c, k), reach=SO) for c in (None, "traditional", "symfc", "alm") for k in ("pairs", "random")]
        + [Slice("pair-cutoff-%d" % i, pair_cutoff(*v), bounds="calculator %s, options %s" % v[:2], reach=["cutoff"]) for i, v in enumerate(((None, None, None), ("symfc", None, None), ("symfc", "cutoff={two:.10f}", 2), ("symfc", "cutoff = {two:.10f} | cutoff = {three:.10f}", 3), ("symfc", "cutoff = {two:.10f}|", None), ("alm|symfc", "|use_mkl = true, cutoff = {three:.10f}", 3), ("symfc", "use_mkl = true", None)))],
        modules=MODS,
        patch=("phonopy.structure.dataset", "phonopy.interface.symfc"),
    ),
}
