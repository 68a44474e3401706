"""phono3py.load: where crystal, charges, datasets and force constants come from."""
import types

import numpy as np

from .common import *
from .c_fcs import Paths


class Cell:
    """a crystal structure with any lattice"""

    def __init__(self, name, cell):
        self.name, self.cell = name, cell

    def copy(self):
        return Cell(self.name, self.cell.copy())

    def __len__(self):
        return 2


class Api:
    """records what the Phono3py object is made of and asked for"""

    log = None

    def __init__(self, unitcell, supercell_matrix=None, primitive_matrix=None, phonon_supercell_matrix=None, **k):
        self.unitcell, self.supercell_matrix, self.primitive_matrix = unitcell, supercell_matrix, primitive_matrix
        self.phonon_supercell_matrix, self.k = phonon_supercell_matrix, k
        self.primitive = types.SimpleNamespace(name="primitive", p2s_map="map of fc3")
        self.phonon_primitive = types.SimpleNamespace(name="phonon primitive", p2s_map="map of fc2")
        self.nac_params = self.dataset = self.phonon_dataset = self.fc3 = self.fc2 = self.mlp_dataset = None
        self.calls = []

    def produce_fc3(self, **k):
        self.calls.append(("fc3", k, self.dataset))
        self.fc3 = ("fc3 of", self.dataset)

    def produce_fc2(self, **k):
        self.calls.append(("fc2", k, self.dataset if self.phonon_supercell_matrix is None else self.phonon_dataset))
        self.fc2 = ("fc2 of", self.calls[-1][2])


def flag(ctx, name):
    return bool(ctx.branch(ctx.flags(name, (1,))[0] != 0))


def prepare(ctx, there=(), yaml=None):
    """the module with stand-ins for files; returns (module, record)"""
    import phonopy.cui.load_helper as helper

    import phono3py.cui.load as lo

    log = types.SimpleNamespace(parsed=[], read=[], mlp=[], born=[], cells=[], yaml=[])
    lo.Phono3py = Api
    real = dict(born=ctx.reals("Zb", (2, 3, 3), lo=-5, hi=5), dielectric=ctx.reals("eb", (3, 3), lo=1, hi=9))

    class Yaml:
        def read(self, f):
            log.yaml.append(f)
            for n in ("unitcell", "calculator", "supercell_matrix", "phonon_supercell_matrix", "primitive_matrix", "nac_params", "dataset", "phonon_dataset"):
                setattr(self, n, getattr(yaml, n, None))

    lo.Phono3pyYaml = Yaml
    lo.pathlib = Paths({n: 0 for n in there})
    helper.pathlib = Paths({n: 0 for n in there})

    def born(primitive, filename="BORN", **k):
        log.born.append((filename, primitive))
        return {"born": real["born"], "dielectric": real["dielectric"], "file": filename}

    helper.parse_BORN = born

    helper.get_primitive_matrix = lambda p, symprec=1e-5: p

    def cell(filename=None, interface_mode=None, **k):
        log.cells.append((filename, interface_mode))
        return Cell("file " + filename, ctx.reals("Lf", (3, 3), lo=-9, hi=9)), (filename,)

    helper.read_crystal_structure = helper._read_crystal_structure = cell

    def parse(ph, ph3py_yaml=None, cutoff_pair_distance=None, force_filename="FORCES_FC3", phono3py_yaml_filename=None, fc_type="fc3", calculator=None, log_level=0):
        r = dict(fc_type=fc_type, yaml=ph3py_yaml, file=force_filename, cutoff=cutoff_pair_distance, calculator=calculator)
        d = getattr(ph3py_yaml, "dataset" if fc_type == "fc3" else "phonon_dataset", None)
        r["forces"] = force_filename is not None or (d is not None and "forces" in d)
        log.parsed.append(r)
        out = {"displacements": "u", "id": len(log.parsed) - 1}
        if r["forces"]:
            out["forces"] = "F"
        return out

    lo.parse_forces = parse

    def fc(order):
        def read(filename=None, p2s_map=None, **k):
            log.read.append((order, filename, p2s_map))
            return types.SimpleNamespace(shape=(2, 16, 16), order=order, file=filename)

        return read

    lo.read_fc3_from_hdf5, lo.read_fc2_from_hdf5 = fc(3), fc(2)
    lo.determinant = lambda m: 8

    def mlp(ph, mlp_params=None, **k):
        log.mlp.append((ph.mlp_dataset, mlp_params))
        ph.dataset = {"displacements": "mlp", "forces": "mlp", "id": "mlp"}

    lo.run_pypolymlp_to_compute_forces = mlp
    return lo, log, real


UNITS = {None: None, "qe": None}


def cells(source):
    """crystal from the yaml file or the cell that was given"""

    def h(ctx):
        from phonopy.interface.calculator import get_default_physical_units as un
        from phonopy.units import VaspToTHz

        calc = "qe" if flag(ctx, "calc") else None
        mat = flag(ctx, "matrix")
        two = flag(ctx, "two")
        auto = flag(ctx, "auto")
        L = ctx.reals("L", (3, 3), lo=-9, hi=9)
        own = Cell("own", L.copy())
        S, P = ctx.ints("S", (3, 3), -3, 3), ctx.reals("P", (3, 3), lo=-1, hi=1)
        S2 = ctx.ints("T", (3, 3), -3, 3)
        y = types.SimpleNamespace(unitcell=own, calculator=calc, supercell_matrix=S if mat else None, phonon_supercell_matrix=S2 if two else None, primitive_matrix=P)
        lo, log, real = prepare(ctx, yaml=y)
        f = ctx.real("factor", lo=1, hi=20)
        given = flag(ctx, "given")
        sym, msym, grg, r0 = (flag(ctx, n) for n in ("sym", "msym", "grg", "r0")) if source == "yaml" else (True, False, True, False)
        kw = dict(is_nac=False, factor=f if given else None, is_symmetry=sym, is_mesh_symmetry=msym, use_grg=grg, make_r0_average=r0, symprec=2.0**-12)
        if source == "yaml":
            ph = lo.load("p.yaml", primitive_matrix="auto" if auto else None, **kw)
        else:
            kw.update(calculator=calc, supercell_matrix=S if mat else None, primitive_matrix="auto" if auto else P, phonon_supercell_matrix=S2 if two else None)
            kw[source] = own if source in ("unitcell", "supercell") else "POSCAR"
            if flag(ctx, "also"):
                kw["phono3py_yaml"] = "p.yaml"
            try:
                ph = lo.load(**kw)
            except RuntimeError:
                ph = None
            ctx.check((ph is None) == (two and source.startswith("supercell")), "another supercell for fc2 only with a unit cell")
        ctx.reach("cells")
        ctx.equal(own.cell, L, "cell that was given is left alone") if source != "yaml" else None
        if ph is None:
            return
        ctx.check(log.yaml == (["p.yaml"] if source == "yaml" else []), "yaml file is read unless a cell is given", log.yaml)
        A = ctx.num(un(calc)["distance_to_A"])
        if source.endswith("filename"):
            ctx.check(log.cells == [("POSCAR", calc)], "cell read in the format of the calculator", log.cells)
            ctx.equal(ph.unitcell.cell, ctx.reals("Lf", (3, 3), lo=-9, hi=9) * A, "cell in Angstrom", scale=10)
        else:
            ctx.check(ph.unitcell.name == "own", "cell that was given")
            ctx.equal(ph.unitcell.cell, L * A, "cell in Angstrom", scale=10)
        if source.startswith("supercell") or (not mat and source == "yaml"):
            ctx.equal(np.array(ph.supercell_matrix), np.eye(3, dtype=int), "supercell matrix is the unit matrix")
        elif mat:
            ctx.equal(np.array(ph.supercell_matrix), S, "supercell matrix")
        else:
            ctx.check(ph.supercell_matrix is None, "no supercell matrix")
        if auto:
            ctx.check(isinstance(ph.primitive_matrix, str) and ph.primitive_matrix == "auto", "primitive cell is searched")
        else:
            ctx.equal(ph.primitive_matrix, P, "primitive matrix")
        if two:
            ctx.equal(ph.phonon_supercell_matrix, S2, "supercell matrix for fc2")
        else:
            ctx.check(ph.phonon_supercell_matrix is None, "no other supercell for fc2")
        k = ph.k
        ctx.equal(k["frequency_factor_to_THz"], f if given else ctx.num(VaspToTHz), "frequency factor")
        for n in ("is_symmetry", "is_mesh_symmetry", "use_grg", "make_r0_average", "symprec"):
            ctx.check(k[n] == kw[n], "setting " + n, k[n])
        ctx.check(ph.nac_params is None, "no charges unless asked for")

    return h


def charges(source):
    """Born charges: named file, argument, yaml file, file BORN"""

    def h(ctx):
        from phonopy.interface.calculator import get_default_physical_units as un

        is_nac, named, arg, inyaml, there, fac = (flag(ctx, n) for n in ("is_nac", "named", "arg", "inyaml", "there", "fac"))
        Z = {n: ctx.reals("Z" + n, (2, 3, 3), lo=-5, hi=5) for n in ("arg", "yaml")}

        def params(n):
            d = {"born": Z[n], "dielectric": ctx.const(np.eye(3)), "from": n}
            if fac:
                d["factor"] = ctx.num(3.5)
            return d

        own = Cell("own", ctx.const(np.eye(3)))
        y = types.SimpleNamespace(unitcell=own, calculator="qe", nac_params=params("yaml") if inyaml else None)
        lo, log, real = prepare(ctx, there=["BORN"] if there else [], yaml=y)
        kw = dict(is_nac=is_nac)
        if named:
            kw["born_filename"] = "b"
        if arg:
            kw["nac_params"] = params("arg")
        if source == "yaml":
            kw["phono3py_yaml"] = "p.yaml"
        else:
            kw.update(unitcell=own, supercell_matrix=np.eye(3), calculator="qe")
        ph = lo.load(**kw)
        ctx.reach("charges")
        want = "file b" if named else "arg" if arg else "yaml" if source == "yaml" and inyaml and is_nac else "file BORN" if is_nac and there else None
        if want is None:
            ctx.check(ph.nac_params is None, "no charges")
            return
        ctx.check(ph.nac_params is not None, "charges are used")
        n = ph.nac_params
        if want.startswith("file"):
            ctx.check([b[0] for b in log.born] == [want[5:]] and log.born[0][1] is ph.primitive, "file of charges", log.born)
            ctx.equal(n["born"], real["born"], "charges of the file")
        else:
            ctx.check(not log.born, "no file of charges is read")
            ctx.check(n["from"] == want, "charges by precedence", n["from"])
            ctx.equal(n["born"], Z[want], "charges by precedence")
        ctx.equal(n.get("factor"), ctx.num(3.5) if fac and not want.startswith("file") else ctx.num(un("qe")["nac_factor"]), "unit of the charges")

    return h


def data(source, two, mlp=False):
    """force constants: named files, named files of forces, files found"""

    def h(ctx):
        names = dict(fc3="n3", fc2="n2", f3="N3", f2="N2")
        on = {n: flag(ctx, n) for n in ("fc3", "fc2", "f3", "f2")}
        have = {n: flag(ctx, "have" + n) for n in (("fc3.hdf5", "fc2.hdf5", "FORCES_FC3", "FORCES_FC2"))}
        kind = int(ctx.concretize(ctx.int("kind", 0, 2))) if source == "yaml" else 0  # no dataset, displacements, forces
        produce = flag(ctx, "produce") if not mlp else True
        own = Cell("own", ctx.const(np.eye(3)))
        ds = [None, {"displacements": "u"}, {"displacements": "u", "forces": "F"}]
        S2 = np.eye(3, dtype=int) * 2 if two else None
        y = types.SimpleNamespace(unitcell=own, calculator="qe", supercell_matrix=np.eye(3, dtype=int), phonon_supercell_matrix=S2, dataset=ds[kind], phonon_dataset=ds[kind] if two else None)
        lo, log, real = prepare(ctx, there=[n for n in have if have[n]], yaml=y)
        sym, compact = (flag(ctx, n) for n in ("sym", "compact")) if not on["fc2"] and not on["fc3"] and not any(have.values()) else (True, False)
        kw = dict(is_nac=False, produce_fc=produce, symmetrize_fc=sym, is_compact_fc=compact, fc_calculator="symfc|alm", fc_calculator_options="a = 1|b = 2", use_pypolymlp=mlp, mlp_params="mp")
        for n, k in (("fc3", "fc3_filename"), ("fc2", "fc2_filename"), ("f3", "forces_fc3_filename"), ("f2", "forces_fc2_filename")):
            if on[n]:
                kw[k] = names[n]
        if source == "yaml":
            kw["phono3py_yaml"] = "p.yaml"
        else:
            kw.update(unitcell=own, supercell_matrix=np.eye(3, dtype=int), phonon_supercell_matrix=S2, calculator="qe")
        ph = lo.load(**kw)
        ctx.reach("data")
        # third order
        file3 = "n3" if on["fc3"] else "fc3.hdf5" if have["fc3.hdf5"] and not on["f3"] else None
        file2 = "n2" if on["fc2"] else "fc2.hdf5" if have["fc2.hdf5"] and not (on["f2"] and two) else None
        ctx.check(sorted(log.read) == sorted(([(3, file3, "map of fc3")] if file3 else []) + ([(2, file2, "map of fc2")] if file2 else [])), "force constants read: named, or found unless forces are named", log.read)
        P = {p["fc_type"]: p for p in log.parsed}
        ctx.check(len(P) == len(log.parsed), "each dataset is read once")

        def expect(t, named, found, extra=True):
            force = kind == 2 if extra else False
            if force:
                return (True, None, True)  # forces of the yaml file
            if named or found:
                return (source == "yaml", named or found, True)
            return (True, None, False) if kind == 1 else None

        e3 = expect("fc3", "N3" if on["f3"] else None, "FORCES_FC3" if have["FORCES_FC3"] else None)
        e2 = expect("phonon_fc2", "N2" if on["f2"] else None, "FORCES_FC2" if have["FORCES_FC2"] else None) if two else None
        for t, e in (("fc3", e3), ("phonon_fc2", e2)):
            if kind == 2 and on["f3" if t == "fc3" else "f2"]:
                continue  # forces both in the yaml file and in a named file
            ctx.check((t in P) == (e is not None), "dataset is read if there is one: " + t)
            if e is not None:
                p = P[t]
                ctx.check((p["yaml"] is not None) == e[0] or not e[0], "displacements of the yaml file")
                ctx.check(p["file"] == e[1], "file of forces: named before found", (t, p["file"], e[1]))
                ctx.check(p["forces"] == e[2], "forces")
                ctx.check(p["calculator"] == "qe", "units of the calculator", p["calculator"])
        f3, f2 = "fc3" in P and P["fc3"]["forces"], "phonon_fc2" in P and P["phonon_fc2"]["forces"]
        ml = mlp and file3 is None
        if ml:
            ctx.check(len(log.mlp) == 1 and log.mlp[0][1] == "mp", "machine learning potential is run once")
            ctx.check((log.mlp[0][0] is not None) == f3, "trained on the forces")
            f3 = True
        else:
            ctx.check(not log.mlp, "no machine learning potential")
            ctx.check(ph.mlp_dataset is None, "no dataset of a machine learning potential")
        if ml:
            ctx.check(ph.dataset["id"] == "mlp", "forces of the potential are used")
        for t, got in (("fc3", log.mlp[0][0] if ml else ph.dataset), ("phonon_fc2", ph.phonon_dataset)):
            if t == "fc3" and ml and got is None:
                continue
            if t in P:
                ctx.check(got is not None and got["id"] == [p["fc_type"] for p in log.parsed].index(t), "dataset in use: " + t)
            elif not ml or t != "fc3":
                ctx.check(got is None, "no dataset: " + t)
        want = []
        if produce and file3 is None and f3:
            want.append(("fc3", "alm", "b = 2"))
        if produce and file2 is None and (f2 if two else f3):
            want.append(("fc2", "symfc", "a = 1"))
        ctx.check([(c[0], c[1]["fc_calculator"], c[1]["fc_calculator_options"].strip()) for c in ph.calls] == want, "force constants calculated where none were read", [c[:2] for c in ph.calls])
        for c in ph.calls:
            ctx.check(c[1]["is_compact_fc"] == compact and c[1]["symmetrize_fc3r" if c[0] == "fc3" else "symmetrize_fc2"] == sym, "form and symmetry")
        for o, f, fc in ((3, file3, ph.fc3), (2, file2, ph.fc2)):
            if f:
                ctx.check(getattr(fc, "file", None) == f and fc.order == o, "force constants of the file are in use")
            elif "fc%d" % o not in [w[0] for w in want]:
                ctx.check(fc is None, "no force constants")

    return h


C, B, D = (["cells"], ["charges"], ["data"])
PROPS = {
    "L02": Prop(
        "L02",
        [Slice("cells-" + s, cells(s), bounds="any lattice, matrices and settings", reach=C) for s in ("yaml", "unitcell", "supercell", "unitcell_filename", "supercell_filename")]
        + [Slice("charges-" + s, charges(s), bounds="every combination of sources", reach=B) for s in ("yaml", "unitcell")]
        + [Slice("data-%s%s%s" % (s, "-two" if t else "", "-mlp" if m else ""), data(s, t, m), bounds="every combination of files, one matrix for fc2" if t else "every combination of files", reach=D) for s in ("yaml", "unitcell") for t in (False, True) for m in (False,)]
        + [Slice("data-yaml-mlp", data("yaml", False, True), bounds="machine learning potential", reach=D)],
        modules=["phono3py.cui.load", "phono3py.interface.fc_calculator"],
        patch=("phonopy.cui.load_helper",),
        functions=["phono3py.load"],
        assumptions=["files are replaced by stand-ins holding arbitrary values; priorities as documented in the docstring of phono3py.load; forces both in the yaml file and in a named file are left open"],
    ),
}
