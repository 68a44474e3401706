"""Displacement-force datasets: files, getters and supercells."""
import io
import re

import numpy as np

from engine.pyshim import concrete
from .common import *

CELL = np.diag([4.0, 4.25, 4.5])


def build(ctx, smat=(2, 1, 1), pmat=None, nat=1, nacc=False):
    import phono3py
    from phonopy.structure.atoms import PhonopyAtoms

    with concrete():
        u = PhonopyAtoms(symbols=["Na", "Cl"][:nat], cell=CELL, scaled_positions=[[0, 0, 0], [0.5, 0.4375, 0.53125]][:nat])
        return phono3py.Phono3py(u, supercell_matrix=np.diag(smat), phonon_supercell_matrix=None if pmat is None else np.diag(pmat), primitive_matrix=np.eye(3), is_symmetry=False, log_level=0)


class Super:
    """a supercell whose positions can be added to terms"""

    def __init__(self, ctx, cell):
        self.ctx, self.c = ctx, cell

    def __len__(self):
        return len(self.c)

    @property
    def positions(self):
        return self.ctx.const(self.c.positions)

    def __getattr__(self, n):
        return getattr(self.c, n)


class Pages:
    """text in which terms are printed as one million plus their number"""

    def __init__(self, ctx, decimals=10):
        from engine.expr import E

        self.E, self.ctx, self.decimals, self.files = E, ctx, decimals, {}
        self.terms = None
        if ctx.symbolic:
            E.printing = self.terms = []

    def stop(self):
        self.E.printing = None

    def value(self, s):
        v = float(s)
        if self.terms is not None and v > 999999:
            return self.terms[int(round(v - 1e6))]
        return v

    def digits(self, text, n):
        for m in re.findall(r"\b1\d{6}\.(\d+)\b", text) if self.terms is not None else []:
            self.ctx.check(len(m) >= n, "decimals printed", "%d < %d" % (len(m), n))

    def load(self, text):
        import yaml

        return self.back(yaml.load(text, Loader=getattr(yaml, "CSafeLoader", yaml.SafeLoader)))

    def back(self, x):
        if isinstance(x, dict):
            return {k: self.back(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self.back(v) for v in x]
        if isinstance(x, float):
            return self.value(x)
        return x

    def use(self, *mods):
        import pathlib

        me = self

        def _open(name, mode="r"):
            if mode == "w":
                class Wr(io.StringIO):
                    def close(s):
                        me.files[str(name)] = s.getvalue()

                    def __exit__(s, *a):
                        s.close()

                return Wr()
            if str(name) not in me.files:
                raise FileNotFoundError(name)
            return io.StringIO(me.files[str(name)])

        for m in mods:
            m.open = _open
            m.float = self.value
        return self


def type1(ctx, natom, spec, forces="all", energies=False, ids=True, cutoff=None, dup=None, sym_included=False, x=""):
    """spec: [(atom, [(atom, number of displacements, included), ...]), ...]
    forces: none | all | zeros (for excluded pairs) | included"""
    n = [0]

    def disp():
        n[0] += 1
        return ctx.reals("%su%d_" % (x, n[0]), (3,), lo=-1, hi=1)

    def force(zero=False):
        return ctx.const(np.zeros((natom, 3))) if zero else ctx.reals("%sF%d_" % (x, n[0]), (natom, 3), lo=-10, hi=10)

    ds = {"natom": natom, "first_atoms": []}
    if cutoff is not None:
        ds["cutoff_distance"] = cutoff
    if dup is not None:
        ds["duplicates"] = dup
    for i, (a, seconds) in enumerate(spec):
        d1 = {"number": a, "displacement": disp()}
        if ids:
            d1["id"] = i + 1
        if forces != "none":
            d1["forces"] = force()
        if energies:
            d1["supercell_energy"] = ctx.real("%sE%d" % (x, n[0]), lo=-100, hi=100)
        if seconds is not None:
            d1["second_atoms"] = []
        ds["first_atoms"].append(d1)
    k = len(spec) + 1
    for d1, (a, seconds) in zip(ds["first_atoms"], spec):
        for b, m, inc in seconds or []:
            if sym_included and inc is not None:
                inc = ctx.branch(ctx.flags("%sinc%d_%d" % (x, a, b), (1,))[0] != 0)
            dist = ctx.real("%sd%d_%d" % (x, d1.get("id", k), b), lo=0, hi=10)
            for _ in range(m):
                d2 = {"number": b, "displacement": disp(), "pair_distance": dist}
                if ids:
                    d2["id"] = k
                if inc is not None:
                    d2["included"] = bool(inc)
                if forces == "all" or (forces in ("zeros", "included") and inc is not False):
                    d2["forces"] = force()
                    if energies:
                        d2["supercell_energy"] = ctx.real("%sE%d" % (x, n[0]), lo=-100, hi=100)
                elif forces == "zeros":
                    d2["forces"] = force(True)
                k += 1
                d1["second_atoms"].append(d2)
    return ds


def type2(ctx, natom, n=2, forces=True, energies=True, x=""):
    ds = {"displacements": ctx.reals(x + "u", (n, natom, 3), lo=-1, hi=1)}
    if forces:
        ds["forces"] = ctx.reals(x + "F", (n, natom, 3), lo=-10, hi=10)
    if energies:
        ds["supercell_energies"] = ctx.reals(x + "E", (n,), lo=-100, hi=100)
    return ds


def arr(ctx, a, b, label):
    ctx.check(np.shape(a) == np.shape(b), label + ": shape", "%s %s" % (np.shape(a), np.shape(b)))
    for q in np.ndindex(*np.shape(b)):
        ctx.equal(np.asarray(a)[q] if np.ndim(a) else a, np.asarray(b)[q] if np.ndim(b) else b, label)


def supercells(ctx, ds, natom):
    """(displacements, forces or None, energy or None, included, whether
    the same atom is displaced twice) of every supercell in order"""
    out = []
    if "first_atoms" not in ds:
        for i in range(len(ds["displacements"])):
            out.append((ds["displacements"][i], ds["forces"][i] if "forces" in ds else None, ds["supercell_energies"][i] if "supercell_energies" in ds else None, True, False))
        return out

    def row(*ps):
        u = ctx.const(np.zeros((natom, 3)))
        for a, d in ps:
            for c in range(3):
                u[a, c] = u[a, c] + d[c]
        return u

    for d1 in ds["first_atoms"]:
        out.append((row((d1["number"], d1["displacement"])), d1.get("forces"), d1.get("supercell_energy"), True, False))
    for d1 in ds["first_atoms"]:
        for d2 in d1.get("second_atoms", []):
            out.append((row((d1["number"], d1["displacement"]), (d2["number"], d2["displacement"])), d2.get("forces"), d2.get("supercell_energy"), d2.get("included", True), d1["number"] == d2["number"]))
    return out


def equivalent(ctx, a, b, natom, forces=True, what=""):
    """the two datasets hold the same included supercells"""
    A = [s for s in supercells(ctx, a, natom) if s[3]]
    B = [s for s in supercells(ctx, b, natom) if s[3]]
    ctx.check(("first_atoms" in a) == ("first_atoms" in b), "type of the dataset" + what)
    ctx.check(len(A) == len(B), "number of supercells" + what, "%d, expected %d" % (len(A), len(B)))
    ctx.check(len(supercells(ctx, a, natom)) == len(supercells(ctx, b, natom)), "number of supercells with excluded ones" + what)
    for s, t in zip(A, B):
        arr(ctx, s[0], t[0], "displacements of a supercell" + what)
        for i, l in ((1, "forces"), (2, "energy")):
            if not forces:
                ctx.check(s[i] is None, "no %s%s" % (l, what))
            else:
                ctx.check((s[i] is None) == (t[i] is None), l + " present" + what)
                if t[i] is not None:
                    arr(ctx, s[i], t[i], l + " of a supercell" + what)
    for k in ("natom",):
        if k in b and "first_atoms" in b:
            ctx.check(a.get(k) == b[k], k + what)
    if "cutoff_distance" in b:
        ctx.check("cutoff_distance" in a, "cutoff distance kept" + what)
        ctx.equal(a["cutoff_distance"], b["cutoff_distance"], "cutoff distance" + what)
    if b.get("duplicates"):
        d, e = [[tuple(map(int, x)) for x in (v.items() if isinstance(v, dict) else v)] for v in (a["duplicates"], b["duplicates"])]
        ctx.check(d == e, "duplicated supercells" + what)


def pairs(ctx, a, b, what=""):
    """numbers, distances, ids and inclusion of pairs"""
    for d, e in zip(a["first_atoms"], b["first_atoms"]):
        ctx.check(d["number"] == e["number"], "first atom" + what)
        for s, t in zip(d["second_atoms"], e["second_atoms"]):
            ctx.check(s["number"] == t["number"], "second atom" + what)
            if "pair_distance" in t:
                ctx.equal(s["pair_distance"], t["pair_distance"], "pair distance" + what)
            if "id" in t:
                ctx.check(s.get("id") == t["id"], "id" + what)
            ctx.check(s.get("included", True) == t.get("included", True), "inclusion" + what, "%s %s" % (s, t))


def mm(ds):
    """members of a dataset before use"""
    import copy

    return copy.deepcopy(ds)


def roundtrip(make, phonon=None, pmat=None, settings=None, nat=1, nac=False, smat=(2, 1, 1), change=None):
    def h(ctx):
        import phono3py.interface.phono3py_yaml as y

        ph3 = build(ctx, smat=smat, pmat=pmat, nat=nat)
        natom = len(ph3.supercell)
        ds = make(ctx, natom)
        ph3.dataset = ds
        if phonon is not None:
            pn = len(ph3.phonon_supercell)
            pds = phonon(ctx, pn)
            ph3.phonon_dataset = pds
        if nac:
            born = ctx.reals("Z", (len(ph3.primitive), 3, 3), lo=-5, hi=5)
            eps = ctx.reals("eps", (3, 3), lo=1, hi=10)
            ph3._nac_params = {"born": born, "dielectric": eps, "factor": 14.4}
        before = mm(ds)
        pages = Pages(ctx)
        try:
            yy = y.Phono3pyYaml(settings=settings)
            yy.set_phonon_info(ph3)
            text = str(yy)
        finally:
            pages.stop()
        equivalent(ctx, ds, before, natom, what=" not changed by writing")
        pages.digits(text, 8)
        doc = pages.load(text)
        if change:
            change(ctx, doc)
        data = y.load_phono3py_yaml(doc)
        with_forces = settings is None or settings.get("force_sets", True)
        with_disp = with_forces or settings.get("displacements", True)
        if not with_disp:
            ctx.check(data.dataset is None, "no dataset written")
        else:
            equivalent(ctx, data.dataset, ds, natom, with_forces)
            if "first_atoms" in ds:
                pairs(ctx, data.dataset, ds)
            if phonon is not None:
                equivalent(ctx, data.phonon_dataset, pds, pn, with_forces, " for fc2")
            else:
                ctx.check(data.phonon_dataset is None, "no dataset for fc2")
        ctx.check(np.array_equal(data.supercell_matrix, np.diag(smat)), "supercell matrix")
        ctx.check((data.phonon_supercell_matrix is None) if pmat is None else np.array_equal(data.phonon_supercell_matrix, np.diag(pmat)), "supercell matrix for fc2")
        for a, b in ((data.unitcell, ph3.unitcell), (data.supercell, ph3.supercell), (data.primitive, ph3.primitive)) + (((data.phonon_supercell, ph3.phonon_supercell), (data.phonon_primitive, ph3.phonon_primitive)) if pmat is not None else ()):
            ctx.check(np.allclose(a.cell, b.cell, atol=1e-12) and np.allclose(a.scaled_positions, b.scaled_positions, atol=1e-12) and a.symbols == b.symbols and np.allclose(a.masses, b.masses), "cells")
        if nac:
            arr(ctx, data.nac_params["born"], born, "Born charges")
            arr(ctx, data.nac_params["dielectric"], eps, "dielectric constant")
        ctx.reach("read")

    return h


def before22(ctx, doc):
    """files of versions before 2.2: displacements for fc2 without prefix"""
    ctx.check("displacements" not in doc and "phonon_displacements" in doc, "displacements for fc2 have a key of their own")
    doc["displacements"] = doc.pop("phonon_displacements")
    for d in doc["displacement_pairs"]:
        d["second_atoms"] = d.pop("paired_with")


def before224(ctx, doc):
    """files of versions before 2.24: snapshots atom by atom"""
    for p in ("", "phonon_"):
        d = doc.pop(p + "dataset", None)
        if d is not None:
            F = d.get("forces")
            doc[p + "displacements"] = [[dict(displacement=x, **({} if F is None else {"force": F[i][j]})) for j, x in enumerate(u)] for i, u in enumerate(d["displacements"])]
            if "supercell_energies" in d:
                doc[p + "supercell_energies"] = d["supercell_energies"]


SPEC = [(0, [(0, 2, True), (1, 1, False)]), (1, [(1, 1, True)])]
SPEC3 = [(0, [(0, 1, None), (1, 2, None), (2, 1, None)]), (0, [(1, 1, None)]), (2, [(0, 1, None), (2, 2, None)])]
SPECI = [(0, [(0, 1, True), (1, 2, True), (2, 1, False)]), (2, [(0, 1, False), (2, 2, True)])]


def T1(spec, **kw):
    return lambda ctx, n: type1(ctx, n, spec, **kw)


def T2(**kw):
    return lambda ctx, n: type2(ctx, n, **kw)


def forces_files(make, spec_included=False, given=False, factor=None, order=3):
    """FORCES_FC3 and FORCES_FC2 text"""

    def h(ctx):
        import copy

        import phono3py.file_IO as fio

        pages = Pages(ctx).use(fio)
        try:
            natom = 2
            ds = make(ctx, natom)
            bare = copy.deepcopy(ds)
            fs = []
            for d1 in bare["first_atoms"]:
                fs.append(d1.pop("forces"))
            if order == 3:
                for d1 in bare["first_atoms"]:
                    for d2 in d1["second_atoms"]:
                        f = d2.pop("forces", None)
                        if d2.get("included", True):
                            fs.append(f)
            w, r, name = (fio.write_FORCES_FC3, fio.parse_FORCES_FC3, "FORCES_FC3") if order == 3 else (fio.write_FORCES_FC2, fio.parse_FORCES_FC2, "FORCES_FC2")
            if given:
                w(bare, fs, filename="X")
                name = "X"
            else:
                w(ds)
        finally:
            pages.stop()
        ctx.check(list(pages.files) == [name], "name of the file", sorted(pages.files))
        text = pages.files[name]
        pages.digits(text, 10)
        new = copy.deepcopy(bare)
        kw = {} if factor is None else dict(unit_conversion_factor=ctx.num(factor))
        r(new, filename=name, **kw)
        A, B = supercells(ctx, new, natom), supercells(ctx, ds, natom)
        k = ctx.num(1.0 if factor is None else factor)
        for s, t in list(zip(A, B))[:None if order == 3 else len(ds["first_atoms"])]:
            if t[3]:
                arr(ctx, s[1], t[1] * k, "forces of their own supercell")
            else:
                ctx.check(s[1] is None or all(not hasattr(v, "op") and v == 0 for v in np.ravel(np.asarray(s[1]))), "no forces of excluded supercells")
        # a truncated file is refused
        lines = text.rstrip("\n").split("\n")
        pages.files["cut"] = "\n".join(lines[:-1]) + "\n"
        cut = copy.deepcopy(bare)
        try:
            out = r(cut, filename="cut")
            ok = order == 2 and out == [] and all("forces" not in d for d in cut["first_atoms"])
        except RuntimeError:
            ok = True
        ctx.check(ok, "a truncated file is refused")
        ctx.reach("read")

    return h


def twice(ctx):
    """the displacement of an atom displaced twice (known finding)"""
    from phono3py.phonon3.dataset import get_displacements_and_forces_fc3

    ds = T1([(0, [(0, 1, None)])])(ctx, 2)
    S = supercells(ctx, ds, 2)
    d, f = get_displacements_and_forces_fc3(ds)
    ctx.check(len(d) == 2, "rows")
    arr(ctx, d[0], S[0][0], "displacements given to calculators")
    arr(ctx, f[1], S[1][1], "forces given to calculators")
    ctx.reach("run")
    arr(ctx, d[1], S[1][0], "an atom displaced twice is displaced by the sum")


def getters(make, order=3, pmat=None):
    """displacements, forces, supercells and the arrays given to force
    constants calculators agree"""

    def h(ctx):
        import copy

        import phono3py.api_phono3py as api
        from phono3py.phonon3.dataset import get_displacements_and_forces_fc3, forces_in_dataset

        ph3 = build(ctx, pmat=pmat)
        seen = []

        class PA:
            def __init__(self, **k):
                seen.append(k)
                self.positions = k["positions"]

        natom = len(ph3.supercell)
        ph3._supercell = Super(ctx, ph3._supercell)
        ds = make(ctx, natom)
        ph3.dataset = ds
        S = supercells(ctx, ds, natom)
        inc = [s for s in S if s[3]]
        ctx.check(forces_in_dataset(ds) == (S[0][1] is not None), "forces are known to be there or not")
        d, f = get_displacements_and_forces_fc3(ds)
        ctx.check(len(d) == len(inc), "one row per included supercell")
        for i, s in enumerate(inc):
            if not s[4]:
                arr(ctx, d[i], s[0], "displacements given to calculators")
            if s[1] is None:
                ctx.check(f is None, "no forces")
            else:
                arr(ctx, f[i], s[1], "forces given to calculators")
        u = ph3.displacements
        ctx.check(len(u) == len(S), "one row per supercell")
        for i, s in enumerate(S):
            arr(ctx, u[i], s[0], "displacements of the supercells")
        F = ph3.forces
        ctx.check((F is None) == (S[0][1] is None), "forces present")
        for i, s in enumerate(S if F is not None else []):
            arr(ctx, F[i], s[1] if s[3] or s[1] is not None else ctx.const(np.zeros((natom, 3))), "forces of the supercells")
        E = ph3.supercell_energies
        ctx.check((E is None) == (S[0][2] is None), "energies present")
        for i, s in enumerate(S if E is not None else []):
            if s[2] is not None:
                ctx.equal(E[i], s[2], "energies of the supercells")
        keep, api.PhonopyAtoms = api.PhonopyAtoms, PA
        try:
            cells = ph3.supercells_with_displacements
        finally:
            api.PhonopyAtoms = keep
        pos = ph3.supercell.c.positions
        ctx.check(len(cells) == len(S), "one supercell per displacement")
        for c, s in zip(cells, S):
            ctx.check((c is None) == (not s[3]), "excluded supercells are not made")
            if c is not None:
                want = s[0] + ctx.const(pos)
                arr(ctx, c.positions, want, "positions in the supercell")
        ctx.check(np.array_equal(ph3.supercell.c.positions, pos), "supercell unchanged")
        # values set are values got, each in its own supercell
        nf = ctx.reals("G", (len(S), natom, 3), lo=-10, hi=10)
        ne = ctx.reals("H", (len(S),), lo=-10, hi=10)
        ph3.forces = nf
        arr(ctx, ph3.forces, nf, "forces set and got")
        ph3.supercell_energies = ne
        arr(ctx, ph3.supercell_energies, ne, "energies set and got")
        d, f = get_displacements_and_forces_fc3(ph3.dataset)
        j = 0
        for i, s in enumerate(S):
            if s[3]:
                arr(ctx, f[j], nf[i], "forces set reach calculators")
                j += 1
        arr(ctx, ph3.displacements, u, "displacements unchanged by forces")
        ctx.reach("run")

    return h


def phonon_getters(make, pmat=(1, 1, 2)):
    def h(ctx):
        import phono3py.api_phono3py as api

        class PA:
            def __init__(self, **k):
                self.positions = k["positions"]

        ph3 = build(ctx, pmat=pmat)
        natom = len(ph3.phonon_supercell)
        ph3._phonon_supercell = Super(ctx, ph3._phonon_supercell)
        ds = make(ctx, natom)
        ph3.phonon_dataset = ds
        S = supercells(ctx, ds, natom)
        arr(ctx, ph3.phonon_displacements, np.array([s[0] for s in S]), "displacements for fc2")
        keep, api.PhonopyAtoms = api.PhonopyAtoms, PA
        try:
            cells = ph3.phonon_supercells_with_displacements
        finally:
            api.PhonopyAtoms = keep
        pos = ph3.phonon_supercell.c.positions
        ctx.check(len(cells) == len(S), "one supercell per displacement for fc2")
        for c, s in zip(cells, S):
            arr(ctx, c.positions, s[0] + ctx.const(pos), "positions in the supercell for fc2")
        F = ph3.phonon_forces
        ctx.check((F is None) == (S[0][1] is None), "forces present for fc2")
        if F is not None:
            arr(ctx, F, np.array([s[1] for s in S]), "forces for fc2")
        nf = ctx.reals("G", (len(S), natom, 3), lo=-10, hi=10)
        ne = ctx.reals("H", (len(S),), lo=-10, hi=10)
        ph3.phonon_forces = nf
        ph3.phonon_supercell_energies = ne
        arr(ctx, ph3.phonon_forces, nf, "forces set and got for fc2")
        arr(ctx, ph3.phonon_supercell_energies, ne, "energies set and got for fc2")
        ctx.reach("run")

    return h


def units(make):
    """conversion of units touches every supercell once"""

    def h(ctx):
        import copy

        import phono3py.cui.create_force_constants as cf

        natom = 2
        ds = make(ctx, natom)
        old = copy.deepcopy(ds)
        a, b = ctx.real("toA", lo=0.1, hi=2, pos=True), ctx.real("toF", lo=0.1, hi=50, pos=True)
        cf._convert_unit_in_dataset(ds, distance_to_A=a, force_to_eVperA=b)
        S, T = supercells(ctx, ds, natom), supercells(ctx, old, natom)
        ctx.check(len(S) == len(T), "number of supercells")
        for s, t in zip(S, T):
            arr(ctx, s[0], t[0] * a, "displacements converted")
            if t[1] is not None:
                arr(ctx, s[1], t[1] * b, "forces converted")
        new = copy.deepcopy(old)
        cf._convert_unit_in_dataset(new, distance_to_A=None, force_to_eVperA=b)
        for s, t in zip(supercells(ctx, new, natom), T):
            arr(ctx, s[0], t[0], "displacements kept")
        ctx.reach("run")

    return h


MODS = ["phono3py.file_IO", "phono3py.interface.phono3py_yaml", "phono3py.phonon3.dataset", "phono3py.api_phono3py", "phono3py.cui.create_force_constants"]
R, Q = ("read",), ("run",)
FS = dict(force_sets=False, displacements=True)

PROPS = {
    "Y01": Prop(
        "Y01",
        [
            Slice("pairs", roundtrip(T1(SPEC, forces="none", cutoff=4.0)), bounds="displacement pairs, 2 atoms, cutoff", reach=R),
            Slice("pairs-flags", roundtrip(T1(SPECI, forces="none", cutoff=3.5, sym_included=True), smat=(3, 1, 1)), bounds="every pattern of excluded pairs, 3 atoms", reach=R),
            Slice("pairs-forces", roundtrip(T1(SPEC3, energies=True), smat=(3, 1, 1)), bounds="forces and energies of all supercells, 3 atoms", reach=R),
            Slice("pairs-no-ids", roundtrip(T1(SPEC3, ids=False, dup=[[4, 0], [9, 5]]), smat=(3, 1, 1)), bounds="no ids, duplicated supercells", reach=R),
            Slice("pairs-excluded", roundtrip(T1(SPECI, forces="included", cutoff=4.0, energies=True), smat=(3, 1, 1)), bounds="forces of included pairs", reach=R),
            Slice("pairs-zeros", roundtrip(T1(SPECI, forces="zeros", cutoff=4.0, dup={7: 3}, sym_included=True), smat=(3, 1, 1)), bounds="zero forces of excluded pairs (FORCES_FC3), every pattern", reach=R),
            Slice("pairs-forces-off", roundtrip(T1(SPECI, forces="zeros", cutoff=4.0), settings=dict(FS), smat=(3, 1, 1)), bounds="forces not written", reach=R),
            Slice("nothing", roundtrip(T1(SPECI), settings=dict(force_sets=False, displacements=False), smat=(3, 1, 1)), bounds="dataset not written", reach=R),
            Slice("snapshots", roundtrip(T2()), bounds="2 snapshots of all atoms", reach=R),
            Slice("snapshots-bare", roundtrip(T2(forces=False, energies=False), phonon=T2(x="p", n=3), pmat=(1, 1, 2)), bounds="snapshots for fc3 and fc2", reach=R),
            Slice("phonon", roundtrip(T1(SPEC, cutoff=4.0, forces="included"), phonon=T1([(0, None), (1, None)], x="p", energies=True), pmat=(1, 2, 1)), bounds="pairs for fc3, singles for fc2", reach=R),
            Slice("phonon-mixed", roundtrip(T2(), phonon=T1([(1, None), (0, None)], x="p", ids=False), pmat=(3, 1, 1)), bounds="snapshots for fc3, singles for fc2", reach=R),
            Slice("phonon-mixed2", roundtrip(T1(SPEC3[:1], forces="none"), phonon=T2(x="p"), pmat=(1, 2, 2), smat=(3, 1, 1)), bounds="pairs for fc3, snapshots for fc2", reach=R),
            Slice("old-phonon", roundtrip(T1(SPEC, cutoff=4.0, forces="included"), phonon=T1([(0, None), (1, None)], x="p", energies=True), pmat=(1, 2, 1), change=before22), bounds="the same in the form before 2.2", reach=R),
            Slice("old-phonon-bare", roundtrip(T1(SPEC, forces="none"), phonon=T1([(0, None), (1, None)], x="p", forces="none"), pmat=(1, 2, 1), change=before22), bounds="the same without forces", reach=R),
            Slice("old-snapshots", roundtrip(T2(), change=before224), bounds="2 snapshots in the form before 2.24", reach=R),
            Slice("old-mixed", roundtrip(T2(), phonon=T1([(1, None), (0, None)], x="p", ids=False), pmat=(3, 1, 1), change=before224), bounds="snapshots in the form before 2.24, singles for fc2", reach=R),
            Slice("old-bare", roundtrip(T2(forces=False, energies=False), phonon=T2(forces=False, energies=False, x="p", n=3), pmat=(1, 1, 2), change=before224), bounds="snapshots for fc3 and fc2 in the form before 2.24", reach=R),
            Slice("nac", roundtrip(T1(SPEC), nat=2, nac=True, smat=(1, 1, 1)), bounds="Born charges and dielectric constant, 2 atoms", reach=R),
            Slice("nac-phonon", roundtrip(T1(SPEC), phonon=T2(x="p"), pmat=(2, 1, 1), nat=2, nac=True, smat=(1, 1, 1)), bounds="the same with another supercell for fc2", reach=R),
            Slice("FORCES_FC3", forces_files(T1(SPEC3[:1] + [(1, [(1, 1, None)])][:1] if False else [(0, [(0, 1, None), (1, 2, None)]), (1, [(1, 1, None)])])), bounds="forces of 6 supercells", reach=R),
            Slice("FORCES_FC3-cutoff", forces_files(T1(SPEC, forces="included", sym_included=True)), bounds="every pattern of excluded pairs", reach=R),
            Slice("FORCES_FC3-given", forces_files(T1([(0, [(0, 2, True), (1, 1, False)]), (1, [(0, 1, False), (1, 1, True)])], forces="included", sym_included=True), given=True, factor=2.5), bounds="forces given in order; unit factor", reach=R),
            Slice("FORCES_FC2", forces_files(T1([(0, None), (1, None), (0, None)]), order=2, factor=0.5), bounds="forces of 3 supercells", reach=R),
            Slice("FORCES_FC2-given", forces_files(T1(SPEC), order=2, given=True), bounds="first displacements of pairs", reach=R),
            Slice("units", units(T1(SPEC, forces="included")), bounds="symbolic units; pairs", reach=Q),
            Slice("units-snapshots", units(T2()), bounds="symbolic units; snapshots", reach=Q),
        ],
        modules=MODS,
        patch=("phonopy.interface.phonopy_yaml",),
        assumptions=["texts are read by a yaml or line parser that restores every printed number; at least 8 (yaml) or 10 (FORCES) decimals are printed"],
    ),
    "Y02": Prop(
        "Y02",
        [
            Slice("pairs", getters(T1([(0, [(0, 2, None), (1, 1, None)]), (1, [(0, 1, None), (1, 1, None)])], energies=True)), bounds="7 supercells, 2 atoms, with pairs of one atom with itself", reach=Q),
            Slice("same-atom", twice, bounds="one pair of one atom with itself", reach=Q),
            Slice("pairs-bare", getters(T1([(0, [(0, 2, None), (1, 1, None)])], forces="none")), bounds="no forces", reach=Q),
            Slice("pairs-excluded", getters(T1(SPEC, forces="included", sym_included=True)), bounds="every pattern of excluded pairs without forces", reach=Q),
            Slice("pairs-zeros", getters(T1(SPEC, forces="zeros", sym_included=True)), bounds="every pattern of excluded pairs with zero forces", reach=Q),
            Slice("pairs-no-energy", getters(T1([(1, [(0, 1, None)])])), bounds="forces without energies", reach=Q),
            Slice("snapshots", getters(T2(n=3)), bounds="3 snapshots", reach=Q),
            Slice("snapshots-bare", getters(T2(forces=False, energies=False)), bounds="2 snapshots without forces", reach=Q),
            Slice("phonon", phonon_getters(T1([(0, None), (1, None), (0, None)])), bounds="singles for fc2", reach=Q),
            Slice("phonon-bare", phonon_getters(T1([(1, None), (0, None)], forces="none")), bounds="singles for fc2 without forces", reach=Q),
            Slice("phonon-snapshots", phonon_getters(T2(n=2)), bounds="snapshots for fc2", reach=Q),
        ],
        modules=MODS,
        patch=("phonopy.interface.phonopy_yaml",),
    ),
}
