"""Command-line options and configuration tags: which calculation they select.

The programs phono3py and phono3py-load are run as a whole on argument lists
and configuration files whose numbers are symbolic (printed as tokens and read
back as terms); the classes and functions they call are recorders."""
import inspect
import io
import itertools
import sys
import types
from fractions import Fraction

import numpy as np

from .common import *

FIRST = 1000003  # token of the first number


class Tokens:
    def __init__(self, ctx):
        self.ctx, self.terms = ctx, []

    def __call__(self, v):
        """text of a number"""
        if not hasattr(v, "op"):
            return repr(float(v)) if isinstance(v, float) else str(v)
        self.terms.append(v)
        return str(FIRST + len(self.terms) - 1)

    def find(self, s):
        if isinstance(s, str) and s.strip().isdigit():
            k = int(s) - FIRST
            if 0 <= k < len(self.terms):
                return self.terms[k]
        return None

    def patch(self, *mods):
        me = self

        class FMeta(type):
            def __instancecheck__(cls, o):
                return isinstance(o, float) or hasattr(o, "op")

        class Float(metaclass=FMeta):
            def __new__(cls, x=0.0):
                v = me.find(x)
                return v if v is not None else x if hasattr(x, "op") else float(x)

        class IMeta(type):
            def __instancecheck__(cls, o):
                return isinstance(o, int)

        class Int(metaclass=IMeta):
            def __new__(cls, x=0, *a):
                v = me.find(x)
                return v if v is not None else x if hasattr(x, "op") else int(x, *a)

        for m in mods:
            m.float, m.int = (Float, Int) if me.ctx.symbolic else (float, int)
        return self


class Exit(Exception):
    pass


class Call:
    """arguments of one call by parameter name, defaults filled in"""

    def __init__(self, name, sig, a, k, bound):
        b = sig.bind(*(((None,) if bound else ()) + a), **k)
        b.apply_defaults()
        self.name, self.p = name, dict(b.arguments)


class World:
    """everything the programs call"""

    def __init__(self, ctx, load=False, conf=None, born=False, bzgrid=None):
        import phono3py.cui.phono3py_argparse as ap
        import phono3py.cui.phono3py_script as sc
        import phono3py.cui.settings as st
        import phonopy.cui.settings as ps
        import phono3py

        self.ctx, self.sc, self.load = ctx, sc, load
        self.calls, self.set = [], {}
        self.tok = Tokens(ctx).patch(ap, st, ps, sc)
        self.conf = conf
        self.bzgrid = bzgrid
        self.mods = (sc, st, ps, ap)
        me = self

        def record(name, real, result=None, bound=False):
            sig = inspect.signature(getattr(real, "plain", real))

            def f(*a, **k):
                c = Call(name, sig, a, k, bound)
                me.calls.append(c)
                return result(c.p) if callable(result) else result

            f.plain = getattr(real, "plain", real)
            return f

        class Ph3:
            """stands in for Phono3py: remembers arguments and attributes"""

            def __init__(s, *a, **k):
                me.calls.append(Call("Phono3py", inspect.signature(phono3py.Phono3py.__init__), a, k, True))
                object.__setattr__(s, "_a", dict(fc2=None, fc3=None, dataset=None, phonon_dataset=None, mlp_dataset=None, nac_params=None))

            def __setattr__(s, n, v):
                s._a[n] = v
                me.set[n] = v

            def __getattr__(s, n):
                if n in s._a:
                    return s._a[n]
                real = inspect.getattr_static(phono3py.Phono3py, n, None)
                if inspect.isfunction(real):
                    return record(n, real, me.results.get(n), True)
                if real is None:
                    raise AttributeError(n)
                if n == "grid":
                    return me.bzgrid or Dummy("grid", grid_matrix=None, D_diag=[1, 1, 1], grg2bzg=np.arange(10))
                if n in ("symmetry", "primitive_symmetry"):
                    return Dummy(n, tolerance=me.ph3()["symprec"], pointgroup_operations="rotations of " + n)
                if n in ("primitive", "phonon_primitive", "supercell", "phonon_supercell", "unitcell"):
                    return Dummy(n, symbols=["Si"], p2s_map="p2s_map of " + n)
                if n == "dynamical_matrix":
                    return Dummy(n, is_nac=lambda: False)
                if n == "calculator":
                    return me.ph3().get("calculator")
                if n == "phonon_supercell_matrix":
                    return me.ph3()["phonon_supercell_matrix"]
                raise HarnessError("attribute " + n)

        class Dummy:
            def __init__(s, name, **k):
                s.__dict__.update(k, name_=name)

            def __eq__(s, o):
                return isinstance(o, Dummy) and o.name_ == s.name_

            def __getattr__(s, n):
                raise HarnessError("attribute %s of %s" % (n, s.name_))

            def show_Gonze_nac_message(s):
                pass

        self.Dummy = Dummy
        self.results = {"get_phonon_data": lambda p: ("freqs", "eigvecs", "addresses")}

        def klass(name, real, **attrs):
            def make(*a, **k):
                me.calls.append(Call(name, inspect.signature(real.__init__), a, k, True))

                class C:
                    def __getattr__(s, n):
                        if n == "grid":
                            return me.bzgrid or Dummy("grid", grid_matrix=None, D_diag=[1, 1, 1], grg2bzg=np.arange(10))
                        if n == "dynamical_matrix":
                            return Dummy(n, is_nac=lambda: False)
                        return record(name + "." + n, getattr(real, n), None, True)

                return C()

            make.plain = real
            return make

        def real(n):
            f = getattr(sc, n)
            return getattr(f, "plain", f)

        class Yaml:
            phonon_supercell_matrix = None
            supercell = phonon_supercell = None

        class UC:
            cell = np.eye(3)

            def copy(s):
                return UC()

            def __eq__(s, o):
                return isinstance(o, UC)

        def cell_info(p):
            d = dict(unitcell=UC(), supercell_matrix=p["supercell_matrix"], primitive_matrix=p["primitive_matrix"])
            return dict(d, optional_structure_info=(p["cell_filename"],), interface_mode=p["interface_mode"], phonopy_yaml=Yaml() if load else None)

        R = dict(
            collect_cell_info=cell_info, set_magnetic_moments=None, create_phono3py_supercells=lambda p: Ph3(p["cell_info"]["unitcell"], p["cell_info"]["supercell_matrix"]),
            create_phono3py_force_constants=lambda p: (setattr(p["phono3py"], "fc2", "fc2"), setattr(p["phono3py"], "fc3", "fc3")), load_dataset_and_phonon_dataset=None, load_fc2_and_fc3=None,
            compute_force_constants_from_datasets=lambda p: (setattr(p["ph3py"], "fc2", "fc2"), setattr(p["ph3py"], "fc3", "fc3")),
            write_fc3_to_hdf5=None, write_fc2_to_hdf5=None, write_phonon_to_hdf5="phonon file",
            read_phonon_from_hdf5=lambda p: ("freqs", "eigvecs", "addresses"),
            run_gruneisen_parameters=None, write_grid_points=None, show_num_triplets=None, store_nac_params=None,
            create_FORCE_SETS_from_FORCES_FCx=None, create_FORCES_FC2_from_FORCE_SETS=None, create_FORCES_FC3_and_FORCES_FC2=None,
            finalize_phono3py=lambda p: sys.exit(0),
        )
        for n, r in R.items():
            setattr(sc, n, record(n, real(n), r))
        sc.Phono3py = Ph3
        from phono3py.api_isotope import Phono3pyIsotope
        from phono3py.api_jointdos import Phono3pyJointDos

        sc.Phono3pyJointDos = klass("jdos", Phono3pyJointDos)
        sc.Phono3pyIsotope = klass("isotope", Phono3pyIsotope)
        sc.get_ir_grid_points = lambda g: (np.arange(2), "weights", None)
        sc.get_band_qpoints = record("get_band_qpoints", real("get_band_qpoints"), "bands")
        sc.file_exists = lambda *a, **k: None
        sc.is_file_phonopy_yaml = lambda name, keyword=None: not str(name).endswith(".conf")
        for n in ("show_drift_fc3", "show_drift_force_constants", "print"):
            setattr(sc, n, lambda *a, **k: None)
        sc.pathlib = types.SimpleNamespace(Path=lambda n: types.SimpleNamespace(exists=lambda: born))

        def _open(name, mode="r"):
            if conf is None or str(name) != "the.conf":
                raise HarnessError("opens " + str(name))
            return io.StringIO(conf)

        ps.open = _open

    def run(self, argv):
        old = sys.argv
        sys.argv = ["phono3py", "-q"] + argv
        try:
            if self.load:
                self.sc.main(fc_symmetry=True, is_nac=True, load_phono3py_yaml=True)
            else:
                self.sc.main()
        except SystemExit as e:
            return 0 if e.code in (0, None) else 1
        finally:
            sys.argv = old
        raise HarnessError("the program did not end")

    def ph3(self):
        return self.named("Phono3py")[-1]

    def named(self, name):
        return [c.p for c in self.calls if c.name == name]

    def get(self, key):
        """(found, value) of call.parameter[.attribute] or set.attribute"""
        parts = key.split(".")
        if parts[0] == "set":
            return parts[1] in self.set, self.set.get(parts[1])
        n = ".".join(parts[:2]) if parts[0] in ("jdos", "isotope") and len(parts) > 2 else parts[0]
        c = self.named(n)
        rest = parts[n.count(".") + 1 :]
        if len(c) != 1 or rest[0] not in c[0]:
            return False, None
        v = c[0][rest[0]]
        for r in rest[1:]:
            v = getattr(v, r)
        return True, v


def same(ctx, a, b, tol=False):
    """a term or bool: a is b"""
    if b is None or isinstance(b, (bool, str)) or a is None or isinstance(a, (bool, str)):
        return type(a) is type(b) and a == b
    if isinstance(b, (list, tuple, np.ndarray)) or isinstance(a, (list, tuple, np.ndarray)):
        if not hasattr(a, "__len__") or not hasattr(b, "__len__") or len(a) != len(b):
            return False
        r = [same(ctx, x, y) for x, y in zip(a, b)]
        return ctx.And(*r) if r else True
    if hasattr(a, "op") or hasattr(b, "op") or not ctx.symbolic and isinstance(b, float):
        if not ctx.symbolic:
            return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(b)))
        return ctx.eq(a, b)
    return bool(a == b)


class Opt:
    """cli: argument list of a value; tag: configuration text; make: value
    (n: 0 or 1, two different ones); put: what is expected then"""

    def __init__(self, name, make, cli, tag, put, off=None):
        self.name, self.make, self.cli, self.tag, self.put, self.off = name, make, cli, tag, put, off


def flag(name, opt, tag, *where, value=True, off=None):
    """an option without value; the tag with .FALSE. is overruled by it"""

    def put(x, v):
        for w in where:
            x[w] = value if v else off

    return Opt(name, lambda ctx, n: True, lambda t, v: [opt], tag and (lambda t, v: "%s = %s" % (tag, (".TRUE." if v else ".FALSE.") if value else (".FALSE." if v else ".TRUE."))), put, off=off)


def number(name, opt, tag, *where, kind="real", lo=1e-3, hi=1e3, wrap=lambda v: v):
    def make(ctx, n):
        if kind == "int":
            return ctx.int("%s%d" % (name, n), int(lo), int(hi))
        return ctx.real("%s%d" % (name, n), lo=lo, hi=hi)

    def put(x, v):
        for w in where:
            x[w] = wrap(v)

    return Opt(name, make, lambda t, v: [opt, t(v)], tag and (lambda t, v: "%s = %s" % (tag, t(v))), put)


def numbers(name, opt, tag, k, *where, kind="real", lo=1e-3, hi=1e3, wrap=lambda v: v):
    def make(ctx, n):
        f = (lambda i: ctx.int("%s%d_%d" % (name, n, i), int(lo), int(hi))) if kind == "int" else (lambda i: ctx.real("%s%d_%d" % (name, n, i), lo=lo, hi=hi))
        return [f(i) for i in range(k if np.ndim(k) == 0 else k[n])]

    def put(x, v):
        for w in where:
            x[w] = wrap(v)

    return Opt(name, make, lambda t, v: [opt] + [t(y) for y in v], tag and (lambda t, v: "%s = %s" % (tag, " ".join(t(y) for y in v))), put)


def text(name, opt, tag, vals, *where, wrap=lambda v: v):
    def put(x, v):
        for w in where:
            x[w] = wrap(v)

    return Opt(name, lambda ctx, n: vals[n], lambda t, v: [opt, v], tag and (lambda t, v: "%s = %s" % (tag, v)), put)



PH3 = {
    "collect_cell_info.supercell_matrix": None, "collect_cell_info.primitive_matrix": None, "collect_cell_info.interface_mode": None, "set_magnetic_moments.settings.magnetic_moments": None,
    "Phono3py.phonon_supercell_matrix": None, "Phono3py.cutoff_frequency": 0.01, "Phono3py.is_symmetry": True, "Phono3py.is_mesh_symmetry": True,
    "Phono3py.use_grg": False, "Phono3py.make_r0_average": True, "Phono3py.symprec": 1e-5,
    "set.masses": None, "set.band_indices": None, "set.sigmas": [None], "set.sigma_cutoff": None,
}
INTER = {
    "init_phph_interaction.nac_q_direction": None, "init_phph_interaction.constant_averaged_interaction": None,
    "init_phph_interaction.frequency_scale_factor": None, "init_phph_interaction.symmetrize_fc3q": False, "init_phph_interaction.lapack_zheev_uplo": "L",
}


def prefixed(p, d):
    return {p + "." + k: v for k, v in d.items()}


KAPPA = prefixed("run_thermal_conductivity", dict(
    is_LBTE=False, is_isotope=False, mass_variances=None, boundary_mfp=1e6, solve_collective_phonon=False, use_ave_pp=False,
    is_reducible_collision_matrix=False, is_kappa_star=True, gv_delta_q=None, is_full_pp=False, pinv_cutoff=1e-8, pinv_solver=0, pinv_method=0,
    write_gamma=False, read_gamma=False, write_kappa=True, is_N_U=False, conductivity_type=None, write_gamma_detail=False, write_collision=False,
    read_collision=None, write_pp=False, read_pp=False, write_LBTE_solution=False, compression="gzip", input_filename=None, output_filename=None,
))
SPEC = dict(frequency_step=None, num_frequency_points=201)
WHERE = {"ise": "run_imag_self_energy", "rse": "run_real_self_energy", "spf": "run_spectral_function", "jdos": "jdos"}
BASE = {
    "rta": ("--br", dict(PH3, **INTER, **KAPPA)),
    "lbte": ("--lbte", dict(PH3, **INTER, **dict(KAPPA, **{"run_thermal_conductivity.is_LBTE": True}))),
    "ise": ("--ise", dict(PH3, **INTER, **prefixed("run_imag_self_energy", dict(SPEC, num_points_in_batch=10, scattering_event_class=None, write_txt=True, write_gamma_detail=False, output_filename=None)))),
    "rse": ("--rse", dict(PH3, **INTER, **prefixed("run_real_self_energy", dict(SPEC, write_txt=True, write_hdf5=True, output_filename=None)))),
    "spf": ("--spf", dict(PH3, **INTER, **prefixed("run_spectral_function", dict(SPEC, num_points_in_batch=10, write_txt=True, write_hdf5=True, output_filename=None)))),
    "jdos": ("--jdos", dict(PH3, **prefixed("jdos", dict(SPEC, nac_q_direction=None, sigmas=[None], cutoff_frequency=0.01, num_points_in_batch=10, frequency_scale_factor=None, use_grg=False, is_mesh_symmetry=True, symprec=1e-5, output_filename=None, supercell="phonon_supercell", primitive="phonon_primitive")), **{"jdos.run.write_jdos": True})),
    "isotope": ("--isotope", dict(PH3, **prefixed("isotope", dict(mass_variances=None, band_indices=None, sigmas=[None], use_grg=False, symprec=1e-5, lapack_zheev_uplo="L", primitive="phonon_primitive")), **{"isotope.init_dynamical_matrix.frequency_scale_factor": None})),
}
UNCALLED = object()
FC = prefixed("create_phono3py_force_constants.settings", dict(
    fc_symmetry=False, is_symmetrize_fc2=False, is_symmetrize_fc3_r=False, is_compact_fc=False, read_fc2=False, read_fc3=False, cutoff_fc3_distance=None,
    cutoff_pair_distance=None, fc_calculator=None, fc_calculator_options=None, hdf5_compression="gzip",
))
DISP = prefixed("create_phono3py_supercells.settings", dict(
    displacement_distance=None, is_diagonal_displacement=True, is_plusminus_displacement="auto", is_plusminus_displacement_fc2="auto",
    cutoff_pair_distance=None, random_displacements=None, random_displacements_fc2=None, random_seed=None, phonon_supercell_matrix=None, is_symmetry=True,
))
CF = prefixed("create_FORCES_FC3_and_FORCES_FC2.settings", dict(
    create_forces_fc3=None, create_forces_fc2=None, create_forces_fc3_file=None, subtract_forces=None, subtract_forces_fc2=None, save_params=False, calculator=None))
LOADFC = {
    "compute_force_constants_from_datasets.fc_calculator": None, "compute_force_constants_from_datasets.fc_calculator_options": None,
    "compute_force_constants_from_datasets.cutoff_pair_distance": None, "compute_force_constants_from_datasets.symmetrize_fc": True,
    "compute_force_constants_from_datasets.is_compact_fc": False, "load_dataset_and_phonon_dataset.cutoff_pair_distance": None,
    "store_nac_params.settings.nac_method": None, "cutoff_fc3_by_zero.cutoff_distance": UNCALLED, "write_fc3_to_hdf5.compression": "gzip",
    "write_fc2_to_hdf5.compression": "gzip", "write_fc3_to_hdf5.fc3": "fc3", "write_fc2_to_hdf5.force_constants": "fc2",
    "write_fc3_to_hdf5.p2s_map": "p2s_map of primitive", "write_fc2_to_hdf5.p2s_map": "p2s_map of primitive",
}
GRU = prefixed("run_gruneisen_parameters", dict(band_paths=None, mesh=None, qpoints=None, nac_q_direction=None, ion_clamped=False, symprec=1e-5, output_filename=None, rotations="rotations of primitive_symmetry", fc2="fc2", fc3="fc3", supercell="supercell", primitive="primitive"))
BASE.update({
    "fc": ("--br", dict(PH3, **FC)),
    "loadfc": ("--br", dict(PH3, **LOADFC)),
    "disp": ("-d", dict(prefixed("collect_cell_info", dict(supercell_matrix=None)), **DISP, **{"finalize_phono3py.write_displacements": True, "finalize_phono3py.filename": "phono3py_disp.yaml", "create_phono3py_supercells.symprec": 1e-5})),
    "rd": ("", dict(prefixed("collect_cell_info", dict(supercell_matrix=None)), **DISP, **{"finalize_phono3py.write_displacements": True, "finalize_phono3py.filename": "phono3py_disp.yaml"})),
    "cf": ("", CF),
    "gru": ("--gruneisen", dict(PH3, **GRU)),
    "wgp": ("--wgp", dict(PH3, **prefixed("write_grid_points", dict(band_indices=None, sigmas=[None], is_kappa_star=True, is_lbte=False, compression="gzip", primitive="primitive")))),
    "stp": ("--stp", dict(PH3, **prefixed("show_num_triplets", dict(band_indices=None, is_kappa_star=True, primitive="primitive")))),
    "phonon": ("--write-phonon", dict(PH3, **INTER, **prefixed("write_phonon_to_hdf5", dict(frequency="freqs", eigenvector="eigvecs", grid_address="addresses", ir_grid_weights="weights", compression="gzip", filename=None)))),
    "read": ("--br --read-phonon", dict(PH3, **INTER, **prefixed("read_phonon_from_hdf5", dict(filename=None)), **prefixed("set_phonon_data", dict(frequencies="freqs", eigenvectors="eigvecs", grid_address="addresses")))),
})
RUNS = ("create_FORCES_FC3_and_FORCES_FC2", "create_FORCE_SETS_from_FORCES_FCx", "create_FORCES_FC2_from_FORCE_SETS", "run_phonon_solver", "set_phonon_data", "write_phonon_to_hdf5", "run_thermal_conductivity", "run_imag_self_energy", "run_real_self_energy", "run_spectral_function", "jdos.run", "isotope.run", "run_gruneisen_parameters", "write_grid_points", "show_num_triplets", "create_phono3py_supercells")
MAIN = {"rta": "run_thermal_conductivity", "lbte": "run_thermal_conductivity", "ise": "run_imag_self_energy", "rse": "run_real_self_energy", "spf": "run_spectral_function", "jdos": "jdos.run", "isotope": "isotope.run"}
MAIN.update({"fc": "run_thermal_conductivity", "loadfc": "run_thermal_conductivity", "disp": "create_phono3py_supercells", "rd": "create_phono3py_supercells", "cf": "create_FORCES_FC3_and_FORCES_FC2", "gru": "run_gruneisen_parameters", "wgp": "write_grid_points", "stp": "show_num_triplets", "phonon": "write_phonon_to_hdf5", "read": "run_thermal_conductivity"})
INTERACTING = ("rta", "lbte", "ise", "rse", "spf", "phonon", "read", "fc", "loadfc")
NOMESH = ("disp", "rd", "cf", "gru")


def temperatures(ctx, mode, x, got):
    """--ts, or the range, or the defaults of spectra"""
    if "ts" in x:
        return same(ctx, got, x["ts"])
    if mode == "jdos":
        return got is None
    if mode in ("ise", "rse", "spf"):
        return same(ctx, got, [0.0, 300.0])
    lo, hi, st = x.get("tmin", 0), x.get("tmax", 1000), x.get("tstep", 10)
    n = len(got)
    if n == 0:
        return False
    r = [ctx.eq(got[k], lo + st * k) if ctx.symbolic else abs(got[k] - (lo + st * k)) < 1e-6 for k in range(n)]
    # the highest one is tmax or the last before it; a tenth of a step is rounding
    r += [got[n - 1] <= hi + st / 10, got[n - 1] + st > hi]
    return ctx.And(*r)


def options(mode, opts, load=False, states=None, extra=None):
    def h(ctx):
        argv, conf, x = BASE[mode][0].split(), [], dict(BASE[mode][1])
        mesh = [ctx.int("mesh%d" % i, 1, 9) for i in range(3)]
        gps = [ctx.int("gp%d" % i, 0, 9) for i in range(2)]
        plan = []
        for o in opts:
            n = 2 if o.tag is None else 5 if o.off is not None else 4
            s = (states or {}).get(o.name)
            lo, hi = (s[0], min(s[-1], n - 1)) if s else (0, n - 1)
            plan.append(ctx.concretize(ctx.int("state_" + o.name, lo, hi)))
        w = World(ctx, load)
        t = w.tok
        given = set()
        for o, s in zip(opts, plan):
            v = [o.make(ctx, k) for k in range(2)] if s else None
            if s in (1, 3):
                argv += o.cli(t, v[0])
            if s in (2, 3):
                conf.append(o.tag(t, False if s == 3 and v[1] is True else v[1]))
            if s == 4:
                conf.append(o.tag(t, False))
            if s:
                given.add(o.name)
                o.put(x, v[0] if s in (1, 3) else v[1] if s == 2 else False)
        for k in list(x):
            if "." in k and k not in BASE[mode][1]:
                del x[k]  # not used by this calculation
        if "mesh" not in given and "gm" not in given and mode not in NOMESH:
            argv += ["--mesh"] + [t(v) for v in mesh]
            x["mesh"] = mesh
        if mode in ("ise", "rse", "jdos", "isotope") and not given & {"gp", "ga"}:
            argv += ["--gp"] + [t(v) for v in gps]
            x["gp"] = gps
        if load:
            argv = ["phono3py.yaml"] + (["--config", "the.conf"] if conf else []) + argv
        else:
            conf = conf and conf + ["CELL_FILENAME = POSCAR"]
            argv = (["the.conf"] if conf else ["-c", "POSCAR"]) + argv
        w.close = None
        ps = w.mods[2]
        txt = "\n".join(conf)
        ps.open = lambda name, mode="r": io.StringIO(txt)
        ctx.check(w.run(argv) == 0, "the program ends well", (argv, conf))
        if mode != "cf":
            ctx.check(w.get("collect_cell_info.cell_filename")[1] == ("phono3py.yaml" if load else "POSCAR"), "the named crystal structure is read", (argv, conf))
        verify(ctx, w, mode, x, (argv, conf))
        ctx.reach("ran")

    return h


def verify(ctx, w, mode, x, info):
    runs = sorted(c.name for c in w.calls if c.name in RUNS)
    main = [MAIN[mode]]
    if mode in INTERACTING:
        main.append("set_phonon_data" if mode == "read" else "run_phonon_solver")
    ctx.check(runs == sorted(main), "the requested calculation is run, once, and nothing else", (runs, info))
    if runs != sorted(main):
        return

    def check(key, want, how=None):
        found, got = w.get(key)
        if want is UNCALLED:
            ctx.check(not found, key + " is not asked for", info)
            return
        if isinstance(want, str) and type(got).__name__ == "Dummy":
            got = got.name_
        ctx.check(found, key + " is passed", info)
        if found:
            if key.endswith("interface_mode") and isinstance(got, str):
                got = got.lower()  # tags of calculators are upper case
            ctx.check(how(got) if how else same(ctx, got, want), key + " is what was asked for", (str(got)[:80], str(want)[:80], info))

    # combined settings
    ts, gp, mesh = x.pop("ts", None), x.pop("gp", None), x.pop("mesh", None)
    T = {k: x.pop(k) for k in ("tmin", "tmax", "tstep") if k in x}
    if ts is not None:
        T["ts"] = ts
    if mode in ("rta", "lbte", "ise", "rse", "spf", "jdos", "wgp"):
        check({"jdos": "jdos.temperatures"}.get(mode, MAIN[mode] + ".temperatures"), None, lambda got: temperatures(ctx, mode, T, got))
    sig, thm = x.pop("sigma", None), x.pop("thm", False)
    sigmas = ([None] if thm or not sig else []) + list(sig or [])
    if "set.sigmas" in x:
        x["set.sigmas"] = sigmas
    for m in ("jdos", "isotope", "write_grid_points"):
        if m + ".sigmas" in x:
            x[m + ".sigmas"] = sigmas
    npts, fp = x.pop("npts", None), x.pop("fpitch", None)
    if mode in WHERE:
        W = WHERE[mode]
        x[W + ".num_frequency_points"] = npts if npts is not None else None if fp is not None else 201
        x[W + ".frequency_step"] = None if npts is not None else fp
    if mode in ("jdos", "isotope", "gru"):
        check(MAIN[mode].split(".")[0] + ".mesh", mesh)
        x.pop("run_gruneisen_parameters.mesh", None)
    elif mode not in NOMESH:
        x["set.mesh_numbers"] = mesh
    if mode in MAIN and mode not in NOMESH + ("wgp", "phonon"):
        check(MAIN[mode] + ".grid_points", gp)
    paths, pts = x.pop("band", None), x.pop("bandpts", None)
    if paths is not None:
        check("get_band_qpoints.band_paths", paths)
        check("get_band_qpoints.npoints", 51 if pts is None else pts)
        x["run_gruneisen_parameters.band_paths"] = "bands"
    if x.pop("sym_fc3q", False):
        x["init_phph_interaction.symmetrize_fc3q"] = True
        if mode in ("rta", "lbte"):
            x["run_thermal_conductivity.is_full_pp"] = True
    for k, v in x.items():
        check(k, v)


def K(n):
    return "run_thermal_conductivity." + n


def D(n):
    return "run_imag_self_energy." + n, "run_real_self_energy." + n, "run_spectral_function." + n, "jdos." + n


def kap(name, opt, tag, value=True, off=None):
    return flag(name, opt, tag, K(name), value=value, off=(not value) if off is None else off)


def matrix(v):
    return np.diag([int(x) for x in v.split()]) if len(v.split()) == 3 else np.reshape([int(x) for x in v.split()], (3, 3))


def words(o):
    """option whose value are several words"""
    o.cli = lambda t, v, c=o.cli: [c(t, v)[0]] + v.split()
    return o


def first(o):
    return o


def axes(v):
    """primitive axes: a letter, auto, or nine fractions"""
    v = v.split()
    if len(v) == 1:
        return v[0].lower() if v[0].lower() == "auto" else v[0].upper()
    return np.reshape([float(Fraction(x)) for x in v], (3, 3))


FCS = "create_phono3py_force_constants.settings."
LFC = "compute_force_constants_from_datasets."
DIS = "create_phono3py_supercells.settings."
CFS = "create_FORCES_FC3_and_FORCES_FC2.settings."
OPTS = dict(
    sigma=numbers("sigma", "--sigma", "SIGMA", (2, 1), "sigma"),
    thm=flag("thm", "--thm", "TETRAHEDRON", "thm", off=False),
    scut=number("scut", "--sigma-cutoff", "SIGMA_CUTOFF_WIDTH", "set.sigma_cutoff"),
    ts=numbers("ts", "--ts", "TEMPERATURES", (2, 3), "ts"),
    tmin=number("tmin", "--tmin", "TMIN", "tmin", lo=0, hi=100),
    tmax=number("tmax", "--tmax", "TMAX", "tmax", lo=800, hi=1200),
    tstep=number("tstep", "--tstep", "TSTEP", "tstep", lo=400, hi=600),
    gp=numbers("gp", "--gp", "GRID_POINTS", (3, 2), "gp", kind="int", lo=0, hi=99),
    mesh=numbers("mesh", "--mesh", "MESH", 3, "mesh", kind="int", lo=1, hi=99),
    mesh_numbers=numbers("mesh", "--mesh", "MESH_NUMBERS", 3, "mesh", kind="int", lo=1, hi=99),
    mesh9=numbers("mesh", "--mesh", "MESH", 9, "mesh", kind="int", lo=-9, hi=9, wrap=lambda v: [v[:3], v[3:6], v[6:]]),
    mesh1=numbers("mesh", "--mesh", "MESH", 1, "mesh", lo=1, hi=200, wrap=lambda v: v[0]),
    gm=numbers("gm", "--gm", "GRID_MATRIX", 9, "mesh", kind="int", lo=0, hi=9, wrap=lambda v: [v[:3], v[3:6], v[6:]]),
    grg=flag("grg", "--grg", "USE_GRG", "Phono3py.use_grg", "jdos.use_grg", "isotope.use_grg", off=False),
    cutoff=number("cutoff", "--cutoff-freq", "CUTOFF_FREQUENCY", "Phono3py.cutoff_frequency", "jdos.cutoff_frequency", "isotope.cutoff_frequency"),
    factor=number("factor", "--factor", "FREQUENCY_CONVERSION_FACTOR", "Phono3py.frequency_factor_to_THz", "jdos.frequency_factor_to_THz", "isotope.frequency_factor_to_THz"),
    tol=number("tol", "--tolerance", "SYMMETRY_TOLERANCE", "Phono3py.symprec", "jdos.symprec", "isotope.symprec", "run_gruneisen_parameters.symprec", "create_phono3py_supercells.symprec"),
    nosym=flag("nosym", "--nosym", "SYMMETRY", "Phono3py.is_symmetry", "Phono3py.is_mesh_symmetry", "jdos.is_mesh_symmetry", value=False),
    nomeshsym=flag("nomeshsym", "--nomeshsym", "MESH_SYMMETRY", "Phono3py.is_mesh_symmetry", "jdos.is_mesh_symmetry", value=False),
    v2=flag("v2", "--v2", None, "Phono3py.make_r0_average", value=False),
    pa=words(text("pa", "--pa", "PRIMITIVE_AXES", ["0 1/2 1/2 1/2 0 1/2 1/4 1/4 0", "-1/2 1/2 0.5 0.5 -1/2 1/2 1/2 1/2 -0.5"], "collect_cell_info.primitive_matrix", wrap=axes)),
    pal=text("pal", "--pa", "PRIMITIVE_AXES", ["Auto", "f"], "collect_cell_info.primitive_matrix", wrap=axes),
    magmom=numbers("magmom", "--magmom", "MAGMOM", (2, 4), "set_magnetic_moments.settings.magnetic_moments", lo=-2, hi=2),
    mass=numbers("mass", "--mass", "MASS", (2, 3), "set.masses"),
    bic=Opt("bic", lambda ctx, n: [[4, 1, 2], [3, 6, 5]][n], lambda t, v: ["--bi", t(v[0]) + ",", t(v[1]), t(v[2])], lambda t, v: "BAND_INDICES = %s, %s %s" % tuple(t(y) for y in v), lambda x, v: x.update({"isotope.band_indices": [y - 1 for y in v], "set.band_indices": [[v[0] - 1], [v[1] - 1, v[2] - 1]]})),
    bi=Opt("bi", lambda ctx, n: [ctx.int("bi%d_%d" % (n, i), 1, 9) for i in range(3)], lambda t, v: ["--bi", t(v[0]) + ",", t(v[1]), t(v[2])], lambda t, v: "BAND_INDICES = %s, %s %s" % tuple(t(y) for y in v), lambda x, v: (x.update({w: [[v[0] - 1], [v[1] - 1, v[2] - 1]] for w in ("set.band_indices", "write_grid_points.band_indices", "show_num_triplets.band_indices")}), x.update({"isotope.band_indices": [y - 1 for y in v]}))),
    dim=words(text("dim", "--dim", "DIM", ["2 1 3", "1 1 0 0 1 0 0 1 2"], "collect_cell_info.supercell_matrix", wrap=matrix)),
    dim2=words(text("dim2", "--dim-fc2", "DIM_FC2", ["2 2 3", "1 1 0 0 1 0 0 1 4"], "Phono3py.phonon_supercell_matrix", wrap=matrix)),
    qe=Opt("qe", lambda ctx, n: True, lambda t, v: ["--qe"], lambda t, v: "CALCULATOR = QE", lambda x, v: x.update({"collect_cell_info.interface_mode": "qe" if v is True else v})),
    qdir=numbers("qdir", "--q-direction", "Q_DIRECTION", 3, "init_phph_interaction.nac_q_direction", "jdos.nac_q_direction", lo=-4, hi=4),
    capp=number("capp", "--const-ave-pp", "CONST_AVE_PP", "init_phph_interaction.constant_averaged_interaction"),
    scale=number("scale", "--freq-scale", "FREQUENCY_SCALE_FACTOR", "init_phph_interaction.frequency_scale_factor", "jdos.frequency_scale_factor", "isotope.init_dynamical_matrix.frequency_scale_factor"),
    fc3q=flag("fc3q", "--sym-fc3q", "SYMMETRIZE_FC3_Q", "sym_fc3q", off=False),
    uplo=text("uplo", "--uplo", "LAPACK_ZHEEV_UPLO", ["U", "u"], "init_phph_interaction.lapack_zheev_uplo", "isotope.lapack_zheev_uplo", wrap=lambda v: "U"),
    is_isotope=kap("is_isotope", "--isotope", "ISOTOPE"),
    mv=numbers("mv", "--mv", "MASS_VARIANCES", (1, 2), K("mass_variances"), "isotope.mass_variances"),
    bmfp=number("bmfp", "--bmfp", "BOUNDARY_MFP", K("boundary_mfp")),
    cph=kap("solve_collective_phonon", "--cph", "COLLECTIVE_PHONON"),
    avepp=kap("use_ave_pp", "--ave-pp", "USE_AVE_PP"),
    red=kap("is_reducible_collision_matrix", "--reducible-colmat", "REDUCIBLE_COLLISION_MATRIX"),
    noks=kap("is_kappa_star", "--noks", "KAPPA_STAR", value=False),
    dq=number("dq", "--gv-delta-q", "GV_DELTA_Q", K("gv_delta_q")),
    full=kap("is_full_pp", "--full-pp", "FULL_PP"),
    pcut=number("pcut", "--pinv-cutoff", "PINV_CUTOFF", K("pinv_cutoff")),
    psol=number("psol", "--pinv-solver", "PINV_SOLVER", K("pinv_solver"), kind="int", lo=1, hi=5),
    pmet=number("pmet", "--pinv-method", "PINV_METHOD", K("pinv_method"), kind="int", lo=1, hi=5),
    wg=kap("write_gamma", "--write-gamma", "WRITE_GAMMA"),
    rg=kap("read_gamma", "--read-gamma", "READ_GAMMA"),
    nu=kap("is_N_U", "--nu", "N_U"),
    wd=flag("wd", "--write-gamma-detail", "WRITE_GAMMA_DETAIL", K("write_gamma_detail"), "run_imag_self_energy.write_gamma_detail", off=False),
    wc=kap("write_collision", "--write-collision", "WRITE_COLLISION"),
    rc=words(text("rc", "--read-collision", "READ_COLLISION", ["all", "all"], K("read_collision"))),
    wp=kap("write_pp", "--write-pp", "WRITE_PP"),
    rp=kap("read_pp", "--read-pp", "READ_PP"),
    ws=kap("write_LBTE_solution", "--write-lbte-solution", "WRITE_LBTE_SOLUTION"),
    wigner=Opt("wigner", lambda ctx, n: True, lambda t, v: ["--wigner"], lambda t, v: "CONDUCTIVITY_TYPE = wigner", lambda x, v: x.update({K("conductivity_type"): "wigner"})),
    kubo=Opt("kubo", lambda ctx, n: True, lambda t, v: ["--kubo"], lambda t, v: "CONDUCTIVITY_TYPE = kubo", lambda x, v: x.update({K("conductivity_type"): "kubo"})),
    comp=Opt("comp", lambda ctx, n: ["lzf", "none"][n], lambda t, v: ["--hdf5-compression", v], lambda t, v: "HDF5_COMPRESSION = " + v, lambda x, v: x.update({K("compression"): None if v == "none" else v})),
    comp4=number("comp4", "--hdf5-compression", "HDF5_COMPRESSION", K("compression"), kind="int", lo=0, hi=9),
    o=text("o", "-o", None, ["out", ""], K("output_filename"), *D("output_filename")),
    i=text("i", "-i", None, ["in", ""], K("input_filename")),
    io=text("io", "--io", None, ["both", ""], K("input_filename"), K("output_filename"), *D("output_filename")),
    npts=number("npts", "--num-freq-points", "NUM_FREQUENCY_POINTS", "npts", kind="int", lo=1, hi=500),
    fpitch=number("fpitch", "--freq-pitch", "FPITCH", "fpitch"),
    batch=number("batch", "--num-points-in-batch", "NUM_POINTS_IN_BATCH", *[d for d in D("num_points_in_batch") if "real" not in d], kind="int", lo=1, hi=99),
    event=number("event", "--scattering-event-class", "SCATTERING_EVENT_CLASS", "run_imag_self_energy.scattering_event_class", kind="int", lo=1, hi=2),
    fcsym=flag("fcsym", "--fc-symmetry", "FC_SYMMETRY", FCS + "fc_symmetry", off=False),
    nofcsym=flag("nofcsym", "--no-sym-fc", "FC_SYMMETRY", LFC + "symmetrize_fc", value=False),
    symfc2=flag("symfc2", "--sym-fc2", "SYMMETRIZE_FC2", FCS + "is_symmetrize_fc2", off=False),
    symfc3r=flag("symfc3r", "--sym-fc3r", "SYMMETRIZE_FC3_R", FCS + "is_symmetrize_fc3_r", off=False),
    cfc=flag("cfc", "--cfc", "COMPACT_FC", FCS + "is_compact_fc", LFC + "is_compact_fc", off=False),
    fc2=flag("fc2", "--fc2", "READ_FC2", FCS + "read_fc2", off=False),
    fc3=flag("fc3", "--fc3", "READ_FC3", FCS + "read_fc3", off=False),
    cutfc3=number("cutfc3", "--cutoff-fc3", "CUTOFF_FC3_DISTANCE", FCS + "cutoff_fc3_distance", "cutoff_fc3_by_zero.cutoff_distance"),
    cutpair=number("cutpair", "--cutoff-pair", "CUTOFF_PAIR_DISTANCE", FCS + "cutoff_pair_distance", DIS + "cutoff_pair_distance", LFC + "cutoff_pair_distance", "load_dataset_and_phonon_dataset.cutoff_pair_distance"),
    fccalc=text("fccalc", "--fc-calc", "FC_CALCULATOR", ["symfc", "alm"], FCS + "fc_calculator", LFC + "fc_calculator"),
    fccalc2=text("fccalc2", "--fc-calc", "FC_CALCULATOR", ["symfc|", "|ALM"], LFC + "fc_calculator", wrap=str.lower),
    alm=Opt("alm", lambda ctx, n: [True, "symfc"][n], lambda t, v: ["--alm"], lambda t, v: "FC_CALCULATOR = symfc", lambda x, v: x.update({w: "alm" if v is True else v for w in (LFC + "fc_calculator", FCS + "fc_calculator")})),
    symfc=Opt("symfc", lambda ctx, n: [True, "alm"][n], lambda t, v: ["--symfc"], lambda t, v: "FC_CALCULATOR = alm", lambda x, v: x.update({w: "symfc" if v is True else v for w in (LFC + "fc_calculator", FCS + "fc_calculator")})),
    fcopt=text("fcopt", "--fc-calc-opt", None, ["cutoff = 4", "solver = dense"], FCS + "fc_calculator_options", LFC + "fc_calculator_options"),
    fcopt2=text("fcopt2", "--fc-calc-opt", None, ["solver = dense", "use_mkl = true"], LFC + "fc_calculator_options"),
    nacm=text("nacm", "--nac-method", "NAC_METHOD", ["Wang", "gonze"], "store_nac_params.settings.nac_method", wrap=str.lower),
    comp_fc=Opt("comp_fc", lambda ctx, n: ["lzf", "none"][n], lambda t, v: ["--hdf5-compression", v], lambda t, v: "HDF5_COMPRESSION = " + v, lambda x, v: x.update({w: None if v == "none" else v for w in (FCS + "hdf5_compression", "write_fc3_to_hdf5.compression", "write_fc2_to_hdf5.compression", "write_grid_points.compression", "write_phonon_to_hdf5.compression")})),
    amp=number("amp", "--amplitude", "DISPLACEMENT_DISTANCE", DIS + "displacement_distance"),
    nodiag=flag("nodiag", "--nodiag", "DIAG", DIS + "is_diagonal_displacement", value=False),
    pm=flag("pm", "--pm", "PM", DIS + "is_plusminus_displacement", off=False),
    pm2=flag("pm2", "--pm-fc2", "PM_FC2", DIS + "is_plusminus_displacement_fc2", off=False),
    ddim2=words(text("ddim2", "--dim-fc2", "DIM_FC2", ["2 2 3", "1 1 0 0 1 0 0 1 4"], DIS + "phonon_supercell_matrix", wrap=matrix)),
    rd=number("rd", "--rd", "RANDOM_DISPLACEMENTS", DIS + "random_displacements", kind="int", lo=1, hi=999),
    rdauto=text("rdauto", "--rd", "RANDOM_DISPLACEMENTS", ["auto", "AUTO"], DIS + "random_displacements", wrap=str.lower),
    rd2=number("rd2", "--rd-fc2", "RANDOM_DISPLACEMENTS_FC2", DIS + "random_displacements_fc2", kind="int", lo=1, hi=999),
    rd2auto=text("rd2auto", "--rd-fc2", "RANDOM_DISPLACEMENTS_FC2", ["auto", "AUTO"], DIS + "random_displacements_fc2", wrap=str.lower),
    seed=text("seed", "--random-seed", "RANDOM_SEED", ["100", "7"], DIS + "random_seed", wrap=int),
    dnosym=flag("dnosym", "--nosym", "SYMMETRY", DIS + "is_symmetry", value=False),
    cf3=words(text("cf3", "--cf3", "CREATE_FORCES_FC3", ["f1 f2 f3", "g1 g2"], CFS + "create_forces_fc3", wrap=str.split)),
    cf2=words(text("cf2", "--cf2", "CREATE_FORCES_FC2", ["f1 f2 f3", "g1"], CFS + "create_forces_fc2", wrap=str.split)),
    cf3file=text("cf3file", "--cf3-file", "CREATE_FORCES_FC3_FILE", ["file", "list.txt"], CFS + "create_forces_fc3_file"),
    cfz=text("cfz", "--cfz", "SUBTRACT_FORCES", ["zero", "vasprun0.xml"], CFS + "subtract_forces"),
    cfz2=text("cfz2", "--cfz-fc2", "SUBTRACT_FORCES_FC2", ["zero2", "vasprun0.xml"], CFS + "subtract_forces_fc2"),
    sp=flag("sp", "--sp", "SAVE_PARAMS", CFS + "save_params", off=False),
    cfcalc=Opt("cfcalc", lambda ctx, n: [True, "vasp"][n], lambda t, v: ["--abinit"], lambda t, v: "CALCULATOR = vasp", lambda x, v: x.update({CFS + "calculator": "abinit" if v is True else v})),
    gclamped=flag("gclamped", "--ion-clamped", "ION_CLAMPED", "run_gruneisen_parameters.ion_clamped", off=False),
    gqdir=numbers("gqdir", "--q-direction", "Q_DIRECTION", 3, "run_gruneisen_parameters.nac_q_direction", lo=-4, hi=4),
    go=text("go", "-o", None, ["out", ""], "run_gruneisen_parameters.output_filename"),
    qpts=numbers("qpts", "--qpoints", "QPOINTS", 6, "run_gruneisen_parameters.qpoints", lo=-1, hi=1, wrap=lambda v: [v[:3], v[3:]]),
    band=numbers("band", "--band", "BAND", 6, "band", lo=-1, hi=1, wrap=lambda v: [[v[:3], v[3:]]]),
    bandpts=number("bandpts", "--band-points", "BAND_POINTS", "bandpts", kind="int", lo=1, hi=200),
    gnoks=flag("gnoks", "--noks", "KAPPA_STAR", "write_grid_points.is_kappa_star", "show_num_triplets.is_kappa_star", value=False, off=True),
    glbte=flag("glbte", "--lbte", "LBTE", "write_grid_points.is_lbte", off=False),
    gwc=flag("gwc", "--write-collision", "WRITE_COLLISION", "write_grid_points.is_lbte", off=False),
    po=text("po", "-o", None, ["out", ""], "write_phonon_to_hdf5.filename"),
    ri=text("ri", "-i", None, ["in", ""], "read_phonon_from_hdf5.filename"),
    nac=flag("nac", "--nac", "NAC", "nac", off=False),
    nonac=flag("nonac", "--nonac", "NAC", "nac", value=False, off=True),
    oyaml=text("oyaml", "-o", None, ["my.yaml", ""], "finalize_phono3py.filename"),
)


def S(name, mode, names, load=False, states=None, time=120, bounds="", tier="quick"):
    return Slice(name, options(mode, [OPTS[n] for n in names.split()], load, states), bounds=bounds or "each of %s: absent, option, tag, both" % names, reach=["ran"], time=time, tier=tier)


ONE = (1, 2, 3)  # given anyway

MODES = [  # option, tag, calculation, mesh and grid points necessary
    ("--br", "BTERTA", "run_thermal_conductivity", 1, 0), ("--lbte", "LBTE", "run_thermal_conductivity", 1, 0),
    ("--ise", "IMAG_SELF_ENERGY", "run_imag_self_energy", 1, 1), ("--rse", "REAL_SELF_ENERGY", "run_real_self_energy", 1, 1),
    ("--spf", "SPECTRAL_FUNCTION", "run_spectral_function", 0, 0), ("--jdos", "JOINT_DOS", "jdos.run", 1, 1), ("--isotope", "ISOTOPE", "isotope.run", 1, 1),
    ("--gruneisen", "GRUNEISEN", "run_gruneisen_parameters", 1, 0), ("--wgp", None, "write_grid_points", 1, 0), ("--stp", None, "show_num_triplets", 1, 0),
    ("-d", "CREATE_DISPLACEMENTS", "create_phono3py_supercells", 0, 0), ("--write-phonon", "WRITE_PHONON", "write_phonon_to_hdf5", 0, 0), ("--rd", "RANDOM_DISPLACEMENTS", "create_phono3py_supercells", 0, 0),
    ("--cf3", "CREATE_FORCES_FC3", "create_FORCES_FC3_and_FORCES_FC2", 0, 0), ("--cf2", "CREATE_FORCES_FC2", "create_FORCES_FC3_and_FORCES_FC2", 0, 0),
    ("--cf3-file", "CREATE_FORCES_FC3_FILE", "create_FORCES_FC3_and_FORCES_FC2", 0, 0), ("--cfs", None, "create_FORCE_SETS_from_FORCES_FCx", 0, 0), ("--fs2f2", None, "create_FORCES_FC2_from_FORCE_SETS", 0, 0), (None, None, None, 0, 0),
]
VALUES = {"--rd": "12", "--cf3": "file", "--cf2": "file", "--cf3-file": "file"}


def start(w, argv, conf, load):
    if load:
        argv = ["phono3py.yaml"] + (["--config", "the.conf"] if conf else []) + argv
    else:
        argv = ["the.conf"] + argv if conf else ["-c", "POSCAR"] + argv
        conf = conf and conf + ["CELL_FILENAME = POSCAR"]
    txt = "\n".join(conf)
    w.mods[2].open = lambda name, mode="r": io.StringIO(txt)
    return w.run(argv)


def modes(load=False):
    """every calculation, requested by option or tag, with what it needs or without"""

    def h(ctx):
        k = ctx.concretize(ctx.int("mode", 0, len(MODES) - 1))
        opt, tag, call, mesh, gp = MODES[k]
        if load and opt in ("--cfs", "--fs2f2", "--cf2", "--cf3", "--cf3-file"):
            ctx.check(True, "not with phono3py-load")
            return
        use = ctx.concretize(ctx.int("use", 0, 1)) if tag else 0
        has = [ctx.concretize(ctx.int(n, 0, 1)) for n in ("has_mesh", "has_gp")]
        nac = ctx.concretize(ctx.int("nac", 0, 2))
        w = World(ctx, load)
        argv, conf, t = [], [], w.tok
        if opt and use == 0:
            argv += [opt] + ([VALUES[opt]] if opt in VALUES else [])
        elif opt:
            conf += ["%s = %s" % (tag.capitalize(), VALUES.get(opt, ".True."))]
        if has[0]:
            argv += ["--mesh"] + [t(ctx.int("mesh%d" % i, 1, 99)) for i in range(3)]
        if has[1]:
            argv += ["--gp", t(ctx.int("gp", 0, 99))]
        if nac == 1:
            argv += ["--nonac" if load else "--nac"]
        if nac == 2:
            conf += ["NAC = " + (".FALSE." if load else ".TRUE.")]
        code = start(w, argv, conf, load)
        info = (argv, conf)
        runs = [c.name for c in w.calls if c.name in RUNS and not (c.name == "run_phonon_solver" and call and call.startswith(("run_", "write_ph")))]
        bad = mesh and not has[0] or gp and not has[1]
        ctx.check(code == (1 if bad else 0), "the program fails only without what the calculation needs", (code, info))
        ctx.check(runs == ([] if bad or call is None else [call]), "the requested calculation is run and nothing else", (runs, info))
        if not bad and call == "run_thermal_conductivity":
            ctx.check(w.get(call + ".is_LBTE")[1] == (opt == "--lbte"), "the direct solution is for LBTE only", info)
        if not bad and (call or "").startswith(("run_", "jdos", "isotope", "write_ph")):
            n = len(w.named("store_nac_params"))
            ctx.check(n == int((nac == 0) == load), "non-analytical terms are used as asked for", (n, info))
            fc = len(w.named("create_phono3py_force_constants")), len(w.named("compute_force_constants_from_datasets"))
            ctx.check(fc == ((0, 1) if load else (1, 0)), "force constants are made once", (fc, info))
        ctx.reach("ran")

    return h


BAD = [
    "--mesh 2 3", "--mesh 1 2 3 4", "--dim 1 2", "--dim 0 1 1", "--dim 1 1 1 1 1 1 1 1 1", "--dim-fc2 1 2 3 4", "--dim-fc2 -1 1 1", "--gm 1 2 3", "--ga 1 2",
    "--ga 1 2 3 4", "--q-direction 1 0", "--pa 1 0 0 0 1 0", "--pa X", "--pa 0 1 0 1 0 0 0 0 1", "--band 0 0 0 1", "--qpoints 0 0", "--rd x", "--rd-fc2 x", "--no-such-option", "--mesh",
]


def malformed(ctx):
    """values that make no sense end the program before any calculation"""
    k = ctx.concretize(ctx.int("which", 0, len(BAD) - 1))
    m = ctx.concretize(ctx.int("mode", 0, 2))
    w = World(ctx)
    argv = [["--br"], ["--gruneisen"], ["-d"]][m] + ["--gp", w.tok(ctx.int("gp", 0, 99))]
    if not BAD[k].startswith("--mesh"):
        argv += ["--mesh"] + [w.tok(ctx.int("mesh%d" % i, 1, 9)) for i in range(3)]
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        code = start(w, argv + BAD[k].split(), [], False)
    finally:
        sys.stderr = err
    ctx.check(code != 0, "the program fails", (argv, BAD[k]))
    ctx.check(not [c.name for c in w.calls if c.name in RUNS], "nothing is calculated", (argv, BAD[k]))
    ctx.reach("ran")


def addresses(mesh, latt, mode):
    """--ga: the grid points of the given addresses"""

    def h(ctx):
        from .lattice import bzgrid

        class Indexed(np.ndarray):
            def __getitem__(s, k):
                sym = isinstance(k, list) or isinstance(k, np.ndarray) and k.dtype == object
                return np.ndarray.__getitem__(s, [ctx.concretize(v) for v in k] if sym else ctx.concretize(k) if hasattr(k, "op") else k)

        class Grid:
            def __getattr__(s, n):
                v = getattr(g, n)
                return v.view(Indexed) if type(v) is np.ndarray else v

        g = bzgrid(mesh, lattice=latt)
        ga = [ctx.ints("ga", 3, -5, 9), [-1, 2, 7]]
        w = World(ctx, bzgrid=Grid())
        t = w.tok
        argv = [BASE[mode][0], "--mesh"] + [str(m) for m in mesh]
        flat = [t(v) for a in ga for v in a]
        use = ctx.concretize(ctx.int("use", 0, 2))
        code = start(w, argv + (["--ga"] + flat if use else []) + (["--gp", "7"] if use == 2 else []), [] if use else ["GRID_ADDRESSES = %s %s %s, %s %s %s" % tuple(flat)], False)
        ctx.check(code == 0, "the program ends well")
        found, gps = w.get(MAIN[mode] + ".grid_points")
        ctx.check(found and len(gps) == 2, "a grid point for each address", str(gps))
        for gp, a in zip(gps, ga):
            k = ctx.concretize(gp) if hasattr(gp, "op") else int(gp)
            ctx.check(0 <= k < len(g.addresses), "a grid point of the grid", k)
            for x, y, n in zip(g.addresses[k], a, g.D_diag):
                ctx.check(ctx.eq((y - int(x)) % int(n), 0), "the grid point is at the address", (k, [str(v) for v in a]))
        ctx.reach("ran")

    return h


PROPS = {
    "O01": Prop(
        "O01",
        [
            S("rta-temperature", "rta", "tmin tmax tstep"),
            S("rta-ts", "rta", "ts tmin sigma"),
            S("rta-smearing", "rta", "sigma thm scut"),
            S("rta-grid", "rta", "mesh gp bi"),
            S("rta-mesh9", "rta", "mesh9 grg"),
            S("rta-mesh1", "rta", "mesh1 grg nosym"),
            S("rta-gm", "rta", "gm grg nomeshsym"),
            S("rta-isotope", "rta", "is_isotope mv bmfp"),
            S("rta-strength", "rta", "avepp capp full"),
            S("rta-average", "rta", "fc3q full v2"),
            S("rta-star", "rta", "noks dq uplo"),
            S("rta-files", "rta", "wg rg nu"),
            S("rta-strengths", "rta", "wp rp wd"),
            S("rta-names", "rta", "i o comp"),
            S("rta-io", "rta", "io comp4 qe"),
            S("rta-type", "rta", "wigner nu scale"),
            S("rta-kubo", "rta", "kubo cutoff factor"),
            S("rta-cell", "rta", "dim dim2 mass"),
            S("rta-direction", "rta", "qdir tol"),
            S("rta-load-temperature", "rta", "tmin tmax tstep", load=True),
            S("rta-load-smearing", "rta", "sigma thm scut", load=True),
            S("rta-load-grid", "rta", "mesh_numbers gp bi", load=True),
            S("rta-load-files", "rta", "wg rg nu", load=True),
            S("rta-load-isotope", "rta", "is_isotope mv bmfp", load=True),
            S("lbte-colmat", "lbte", "red wc rc"),
            S("lbte-solver", "lbte", "pcut psol pmet"),
            S("lbte-solution", "lbte", "ws cph ts"),
            S("lbte-type", "lbte", "wigner is_isotope noks"),
            S("lbte-load", "lbte", "ws rc pcut", load=True),
            S("ise-points", "ise", "npts fpitch batch"),
            S("ise-request", "ise", "ts gp bi"),
            S("ise-event", "ise", "event wd o"),
            S("ise-smearing", "ise", "sigma thm cutoff"),
            S("ise-load", "ise", "event npts ts", load=True),
            S("rse-points", "rse", "npts fpitch ts"),
            S("rse-request", "rse", "gp bi o"),
            S("spf-points", "spf", "npts fpitch batch"),
            S("spf-request", "spf", "ts gp sigma"),
            S("jdos-points", "jdos", "npts fpitch batch"),
            S("jdos-request", "jdos", "ts gp sigma"),
            S("jdos-phonons", "jdos", "cutoff scale qdir"),
            S("jdos-grid", "jdos", "mesh grg nosym"),
            S("jdos-tol", "jdos", "tol factor nomeshsym"),
            S("isotope-request", "isotope", "mv gp sigma"),
            S("isotope-phonons", "isotope", "cutoff scale uplo"),
            S("isotope-bands", "isotope", "bic tol factor"),
            S("fc-symmetry", "fc", "fcsym symfc2 symfc3r"),
            S("fc-files", "fc", "fc2 fc3 cfc"),
            S("fc-cutoffs", "fc", "cutfc3 cutpair comp_fc"),
            S("fc-solver", "fc", "fccalc fcopt cutpair"),
            S("fc-alm", "fc", "alm fcopt cfc"),
            S("load-fc-symmetry", "loadfc", "nofcsym cfc cutpair", load=True),
            S("load-fc-solver", "loadfc", "fccalc2 fcopt2 nacm", load=True),
            S("load-fc-cutoffs", "loadfc", "cutfc3 symfc comp_fc", load=True),
            S("displacements", "disp", "amp nodiag pm"),
            S("displacements-fc2", "disp", "pm2 ddim2 cutpair"),
            S("displacements-symmetry", "disp", "dnosym tol pm"),
            S("displacements-random", "rd", "rd rd2 seed", states=dict(rd=ONE)),
            S("displacements-auto", "rd", "rdauto rd2auto amp", states=dict(rdauto=ONE)),
            S("forces", "cf", "cf3 cf2 cfz2", states=dict(cf3=ONE)),
            S("forces-file", "cf", "cf3file cfz sp", states=dict(cf3file=ONE)),
            S("forces-fc2", "cf", "cf2 cfcalc sp", states=dict(cf2=ONE)),
            S("gruneisen", "gru", "mesh gclamped gqdir", states=dict(mesh=ONE)),
            S("gruneisen-points", "gru", "qpts mesh go", states=dict(qpts=ONE)),
            S("gruneisen-paths", "gru", "band bandpts tol", states=dict(band=ONE)),
            S("grid-info", "wgp", "bi sigma gnoks"),
            S("grid-info-lbte", "wgp", "glbte comp_fc tol"),
            S("grid-info-collision", "wgp", "gwc thm tstep"),
            S("triplets-info", "stp", "gp bi gnoks"),
            S("write-phonon", "phonon", "comp_fc po mesh"),
            S("write-phonon-inter", "phonon", "qdir scale fc3q"),
            S("read-phonon", "read", "ri qdir mesh"),
            S("rta-axes", "rta", "pa dim"),
            S("rta-letter", "rta", "pal dim2 magmom"),
            S("load-yaml", "rta", "oyaml tol cutoff", load=True),
            Slice("modes", modes(), bounds="every calculation by option or tag, with and without mesh and grid points, NAC by default, option or tag", reach=["ran"]),
            Slice("modes-load", modes(True), bounds="the same with phono3py-load", reach=["ran"]),
            Slice("malformed", malformed, bounds="%d malformed values in three calculations" % len(BAD), reach=["ran"]),
            Slice("addresses-rta", addresses((2, 3, 2), "tric", "rta"), bounds="an address in -5..9 and another, mesh 2x3x2", reach=["ran"]),
            Slice("addresses-ise", addresses((2, 2, 2), "fccp", "ise"), bounds="an address in -5..9 and another, mesh 2x2x2", reach=["ran"]),
            Slice("addresses-jdos", addresses((3, 2, 1), "tric", "jdos"), bounds="an address in -5..9 and another, mesh 3x2x1", reach=["ran"]),
            S("isotope-grid", "isotope", "mesh grg thm"),
        ],
        functions=["phono3py.cui.phono3py_script.main", "phono3py.cui.settings.Phono3pyConfParser", "phono3py.cui.phono3py_argparse.get_parser"],
        modules=["phono3py.cui.phono3py_script", "phono3py.cui.settings", "phono3py.cui.phono3py_argparse", "phonopy.cui.settings"],
        patch=("phonopy.phonon.degeneracy", "phonopy.cui.settings"),
    ),
}
