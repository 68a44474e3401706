"""Planned displacements and the forces collected for them."""
import copy
import itertools
import sys
import types

import numpy as np

from engine.pyshim import concrete, grounded
from .common import *
from .c_dataset import CELL, Pages, arr, build, equivalent, pairs, supercells, type1, type2


class Lat:
    """a supercell of a symbolic lattice"""

    def __init__(self, cell, n):
        self.cell, self.n = cell, n

    def __len__(self):
        return self.n


def vector(ctx, a, d):
    return [sum((a[i, c] * int(d[i]) for i in range(3)), ctx.num(0.0)) for c in range(3)]


DIRS = [
    (0, [1, 0, 0], [(0, [[1, 0, 0], [-1, 0, 0], [1, 1, 0]]), (1, [[0, 0, 1]])]),
    (0, [0, -1, 0], [(2, [[1, 1, 1]])]),
    (1, [1, 0, 1], [(0, [[0, 1, 0], [0, -1, 1]]), (1, [[-1, 0, -1]]), (2, [])]),
]


def planned(ctx, spec, ds):
    """direction dataset of the code"""
    out, k = [], 0
    for a, d, seconds in spec:
        e = {"number": a, "direction": list(d), "second_atoms": []}
        for b, dirs in seconds:
            e["second_atoms"].append({"number": b, "directions": [list(x) for x in dirs], "distance": ds[k]})
            k += 1
        out.append(e)
    return out


def plan(cut):
    """lengths, directions, ids and inclusion of planned displacements"""

    def h(ctx):
        import phono3py.phonon3.displacement_fc3 as mod

        a = ctx.reals("a", (3, 3), lo=-3, hi=3)
        dist = ctx.real("distance", lo=0.001, hi=1, pos=True)
        n = sum(len(s) for _, _, s in DIRS)
        pd = ctx.reals("d", (n,), lo=0, hi=10)
        c = ctx.real("cutoff", lo=0, hi=10) if cut else None
        vec = {}
        for x in [d for _, d, _ in DIRS] + [y for _, _, s in DIRS for _, dd in s for y in dd]:
            v = vector(ctx, a, x)
            vec[tuple(x)] = v
            ctx.assume(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] >= 0.25)
        ds = mod.direction_to_displacement(planned(ctx, DIRS, pd), dist, Lat(a, 4), cutoff_distance=c)
        ctx.check(ds["natom"] == 4, "number of atoms")
        ctx.check(("cutoff_distance" in ds) == cut, "cutoff distance is recorded when given")
        if cut:
            ctx.equal(ds["cutoff_distance"], c, "cutoff distance")

        def right(e, d, what):
            v = vec[tuple(d)]
            n2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
            r = ctx.fn("sqrt", n2)
            ctx.check([int(q) for q in e["direction"]] == list(d), "direction of the " + what)
            for k in range(3):
                ctx.equal(e["displacement"][k] * r, v[k] * dist, what + " displacement has the requested length along its direction")

        ctx.check(len(ds["first_atoms"]) == len(DIRS), "first displacements")
        k, m = len(DIRS), 0
        for i, (e, (x, d, seconds)) in enumerate(zip(ds["first_atoms"], DIRS)):
            ctx.check(e["number"] == x and e["id"] == i + 1, "atom and id of the first displacement")
            right(e, d, "first")
            want = []
            for b, dirs in seconds:
                want += [(b, y, m) for y in dirs]
                m += 1
            ctx.check(len(e["second_atoms"]) == len(want), "second displacements")
            for f, (b, y, j) in zip(e["second_atoms"], want):
                k += 1
                ctx.check(f["number"] == b and f["id"] == k, "atom and id of the second displacement")
                right(f, y, "second")
                ctx.equal(f["pair_distance"], pd[j], "distance of the pair")
                ctx.check(("included" in f) == cut, "inclusion is recorded with a cutoff")
                if cut:
                    ctx.check(bool(f["included"]) == ctx.branch(pd[j] < c), "a pair is included exactly when closer than the cutoff")
        ctx.reach("planned")

    return h


def duplicates(spec, only=True):
    """spec: [(atom, [(atom, directions), ...]), ...], directions symbolic

    only: whether to assert that nothing else is listed as the perfect
    supercell (a known finding for pairs of one atom; it has its own slice)
    """

    def h(ctx):
        import phono3py.phonon3.displacement_fc3 as mod

        data, cells, n = [], [], [0]

        def direction():
            n[0] += 1
            v = ctx.ints("v%d_" % n[0], (3,), lo=-1, hi=1)
            return [v[i] for i in range(3)]

        k = len(spec) + 1
        for a, seconds in spec:
            d = direction()
            e = {"number": a, "direction": d, "second_atoms": []}
            for b, m in seconds:
                dirs = [direction() for _ in range(m)]
                e["second_atoms"].append({"number": b, "directions": dirs, "distance": 1.0})
                for x in dirs:
                    cells.append((k, a, d, b, x))
                    k += 1
            data.append(e)

        def eq(x, y, s=1):
            return ctx.And(*[ctx.eq(p, q * s) for p, q in zip(x, y)])

        # displacements are not null, and no pair is generated twice
        for c in cells:
            for x in (c[2], c[4]):
                ctx.assume(ctx.Not(ctx.And(*[ctx.eq(y, 0) for y in x])))
        for c, d in itertools.combinations(cells, 2):
            if (c[1], c[3]) == (d[1], d[3]):
                ctx.assume(ctx.Not(ctx.And(eq(c[2], d[2]), eq(c[4], d[4]))))
        got = [(int(i), int(j)) for i, j in mod._find_duplicates(data)]
        ctx.check(len(set(got)) == len(got), "each duplicate once", got)

        by = {c[0]: c for c in cells}
        for i, j in got:
            ctx.check(i in by and (j == 0 or j in by and j < i), "duplicates are pair supercells, the later first", (i, j))
        for i, c in by.items():
            opp = c[1] == c[3] and ctx.branch(eq(c[2], c[4], -1))
            if opp:
                ctx.check((i, 0) in got, "opposite displacements of one atom are listed as the perfect supercell", (i, got))
            elif only:
                ctx.check((i, 0) not in got, "nothing else is listed as the perfect supercell", (i, got))
            for j, d in by.items():
                if j >= i:
                    continue
                if (i, j) in got:
                    ctx.check(c[1] == d[3] and c[3] == d[1], "duplicates displace the same atoms", (i, j))
                    ctx.check(ctx.And(eq(c[2], d[4]), eq(c[4], d[2])), "duplicates have the same displacements", (i, j))
                elif c[1] == d[3] and c[3] == d[1] and c[1] != c[3]:
                    ctx.check(ctx.Not(ctx.And(eq(c[2], d[4]), eq(c[4], d[2]))), "identical supercells of different atoms are listed", (i, j))
        ctx.reach("found")

    return h


class Cell:
    """stands in for PhonopyAtoms with symbolic positions"""

    def __init__(self, **k):
        self.__dict__.update(k)


def crystal(ctx, name):
    import phono3py
    from phonopy.structure.atoms import PhonopyAtoms

    with concrete():
        if name == "p1":
            u = PhonopyAtoms(symbols=["Na", "Cl"], cell=[[4, 0, 0], [0.25, 4.25, 0], [0.125, 0.5, 4.5]], scaled_positions=[[0, 0, 0], [0.40625, 0.375, 0.5625]])
            s, p = (1, 1, 1), None
        elif name == "cubic":
            u = PhonopyAtoms(symbols=["Na", "Cl"], cell=np.eye(3) * 4, scaled_positions=[[0, 0, 0], [0.5, 0.5, 0.5]])
            s, p = (2, 1, 1), None
        elif name == "two":
            u = PhonopyAtoms(symbols=["Na", "Cl"], cell=np.diag([4, 4, 5]), scaled_positions=[[0, 0, 0], [0.5, 0.5, 0.4375]])
            s, p = (1, 1, 1), (2, 1, 1)
        return phono3py.Phono3py(u, supercell_matrix=np.diag(s), phonon_supercell_matrix=None if p is None else np.diag(p), primitive_matrix=np.eye(3), log_level=0)


class Moved:
    """supercell giving positions to which terms can be added"""

    def __init__(self, ctx, c):
        self.ctx, self.c = ctx, c

    def __len__(self):
        return len(self.c)

    @property
    def positions(self):
        return self.ctx.const(np.array(self.c.positions))

    @property
    def cell(self):
        return self.ctx.const(np.array(self.c.cell))

    def __getattr__(self, n):
        return getattr(self.c, n)


def symbolic_cells(ctx, api, ph):
    api.PhonopyAtoms = Cell
    ph._supercell = Moved(ctx, ph._supercell)
    ph._phonon_supercell = ph._supercell if ph._phonon_supercell_matrix is None else Moved(ctx, ph._phonon_supercell)


def directions(ctx, api, ph):
    """the plan of directions, calculated before any distance is known"""
    f = getattr(api.get_third_order_displacements, "real", api.get_third_order_displacements)
    g = getattr(api.get_least_displacements, "real", api.get_least_displacements)
    asked = []

    def third(cell, sym, **k):
        asked.append((3, cell, sym, k))
        with concrete():
            return f(cell.c if isinstance(cell, Moved) else cell, sym, **k)

    def least(sym, **k):
        with concrete():
            out = g(sym, **k)
        asked.append((2, [[int(x) for x in v] for v in out], sym, k))
        return out

    third.real, least.real = f, g
    api.get_third_order_displacements, api.get_least_displacements = third, least
    return asked


def shortest(ph, i, j):
    c = getattr(ph._supercell, "c", ph._supercell)
    p = c.scaled_positions
    return min(np.linalg.norm((p[i] - p[j] + np.array(t)) @ c.cell) for t in itertools.product((-2, -1, 0, 1, 2), repeat=3))


def close(ctx, x, dist, v, c, label):
    """x = dist v_c / |v| up to rounding of the norm"""
    d = x - dist * float(v[c] / np.linalg.norm(v))
    ctx.check(ctx.And(d <= 1e-11, d >= -1e-11), label)


def check_plan(ctx, ph, ds, dist, cut):
    """lengths and inclusion with the pair distances of the crystal"""
    num = lambda v: v if hasattr(v, "op") or not isinstance(v, (int, float)) else ctx.num(float(v))
    k = len(ds["first_atoms"])
    kept = []
    for i, e in enumerate(ds["first_atoms"]):
        ctx.check(e["id"] == i + 1, "ids of first displacements")
        v = np.dot(np.array([int(q) for q in e["direction"]]), ph._supercell.c.cell)
        for c in range(3):
            close(ctx, e["displacement"][c], dist, v, c, "first displacement")
        kept.append(True)
    for e in ds["first_atoms"]:
        for f in e["second_atoms"]:
            k += 1
            ctx.check(f["id"] == k, "ids of second displacements")
            v = np.dot(np.array([int(q) for q in f["direction"]]), ph._supercell.c.cell)
            for c in range(3):
                close(ctx, f["displacement"][c], dist, v, c, "second displacement")
            s = shortest(ph, e["number"], f["number"])
            ctx.check(abs(float(f["pair_distance"]) - s) < 1e-6, "distance of the pair is that of its nearest images")
            kept.append(True if cut is None else ctx.branch(cut > float(s)))
            ctx.check(bool(f.get("included", True)) == kept[-1], "inclusion")
    return kept


def check_cells(ctx, ph, ds, got, kept, what=""):
    S = supercells(ctx, ds, len(ph._supercell))
    ctx.check(len(got) == len(S), "one supercell per displacement" + what, "%d, %d" % (len(got), len(S)))
    p = ph._supercell.positions
    for c, s, inc in zip(got, S, kept):
        ctx.check((c is not None) == inc, "supercells of excluded pairs are left out" + what)
        if c is not None:
            for q in np.ndindex(len(ph._supercell), 3):
                ctx.equal(c.positions[q], p[q] + s[0][q], "displaced positions" + what, scale=10)
            ctx.check(list(c.numbers) == list(ph._supercell.numbers) and np.allclose(c.masses, ph._supercell.masses), "displaced supercells keep atoms" + what)
            arr(ctx, c.cell, ph._supercell.cell, "displaced supercells keep the lattice" + what)


def check_single(ctx, ph, asked, pc, got, dist):
    """displacements for fc2 along the directions of phonopy"""
    fa = ph.phonon_dataset["first_atoms"]
    ctx.check(ph.phonon_dataset["natom"] == len(pc) and len(got) == len(fa) == len(asked[1]), "one supercell per displacement for fc2")
    for e, cc, (a, *d) in zip(fa, got, asked[1]):
        v = np.dot(np.array(d), pc.c.cell)
        ctx.check(e["number"] == a, "displaced atom for fc2")
        for k in range(3):
            close(ctx, e["displacement"][k], dist, v, k, "displacement for fc2")
        for q in np.ndindex(len(pc), 3):
            want = pc.positions[q] + (e["displacement"][q[1]] if q[0] == e["number"] else 0)
            ctx.equal(cc.positions[q], want, "displaced positions for fc2", scale=10)


def generate(name, cut, diagonal=True, pm="auto", again=True, default=False):
    def h(ctx):
        import phono3py.api_phono3py as api

        ph = crystal(ctx, name)
        asked = directions(ctx, api, ph)
        symbolic_cells(ctx, api, ph)
        d = ctx.num(0.03) if default else ctx.real("distance", lo=0.01, hi=0.5, pos=True)
        near = sorted({round(shortest(ph, i, j), 9) for i in range(len(ph._supercell)) for j in range(len(ph._supercell))})
        c = None
        if cut:
            c = ctx.real("cutoff", lo=0.5, hi=12)
            for x in near:
                ctx.assume(ctx.Not(ctx.And(c > x - 1e-6, c < x + 1e-6)))
        two = ph._phonon_supercell_matrix is not None
        if again:
            ph.generate_displacements(distance=0.125)
            list(ph.supercells_with_displacements)
            if two:
                list(ph.phonon_supercells_with_displacements)
            asked.clear()
        first2 = ph.phonon_dataset if two and again else None
        ph.generate_displacements(distance=None if default else d, cutoff_pair_distance=c, is_plusminus=pm, is_diagonal=diagonal)
        q3 = [q for q in asked if q[0] == 3]
        ctx.check(len(q3) == 1 and q3[0][1] is ph._supercell and q3[0][2] is ph.symmetry, "directions of the supercell and its symmetry")
        ctx.check(q3[0][3].get("is_plusminus", "auto") == pm and q3[0][3].get("is_diagonal", False) == diagonal, "options of directions", q3[0][3])
        ds = ph.dataset
        kept = check_plan(ctx, ph, ds, d, c)
        check_cells(ctx, ph, ds, ph.supercells_with_displacements, kept)
        if two:
            if again:
                ctx.check(ph.phonon_dataset is first2, "displacements for fc2 are kept when they exist")
                d2 = ctx.num(0.03) if default else ctx.real("distance2", lo=0.01, hi=0.5, pos=True)
                ph.generate_fc2_displacements(**({} if default else dict(distance=d2)))
            else:
                d2 = d
            q2 = [q for q in asked if q[0] == 2]
            ctx.check(len(q2) == 1 and q2[0][2] is ph.phonon_supercell_symmetry, "directions for fc2 from the symmetry of its supercell")
            pc = ph._phonon_supercell
            check_single(ctx, ph, q2[0], pc, ph.phonon_supercells_with_displacements, d2)
        else:
            ctx.check(ph.phonon_dataset is None, "no displacements for fc2 without its supercell")
        ctx.reach("generated")

    return h


def snapshots(order, auto=False, two=True, pm=False):
    """random displacements: what is asked of phonopy, and the supercells"""

    def h(ctx):
        import phono3py.api_phono3py as api
        import phonopy.interface.symfc as symfc

        ph = crystal(ctx, "two" if two else "cubic")
        asked = directions(ctx, api, ph)
        symbolic_cells(ctx, api, ph)
        log = []
        cell = ph._supercell if order == 3 else ph._phonon_supercell

        def rand(n, natom, distance, random_seed=None, is_plusminus=False, max_distance=None):
            log.append((n, natom, distance, random_seed, is_plusminus, max_distance))
            return ctx.reals("u%d_" % len(log), (n * (2 if is_plusminus is True else 1), natom, 3), lo=-1, hi=1)

        api.get_random_displacements_dataset = rand

        class Est:
            def __init__(self, c, sym, options=None, **k):
                self.o = (c, sym, options)

            def estimate_numbers_of_supercells(self, orders=None, **k):
                log.append(("estimate",) + self.o)
                return {2: 3, 3: 5}

        had = symfc.SymfcFCSolver
        symfc.SymfcFCSolver = Est
        try:
            d, m = ctx.real("distance", lo=0.01, hi=0.5, pos=True), ctx.real("max", lo=0.5, hi=1, pos=True)
            run = ph.generate_displacements if order == 3 else ph.generate_fc2_displacements
            kw = {}
            if order == 3 and auto:
                kw["cutoff_pair_distance"] = 4.0
            run(distance=d, number_of_snapshots="auto" if auto else 2, random_seed=11, is_plusminus=pm, max_distance=m, **kw)
        finally:
            symfc.SymfcFCSolver = had
        if auto:
            e = log.pop(0)
            sym = ph.symmetry if order == 3 else ph.phonon_supercell_symmetry
            ctx.check(e[0] == "estimate" and e[1] is cell and e[2] is sym, "numbers estimated for the supercell")
            if order == 3:
                ctx.check(e[3] == {"cutoff": {3: 4.0}}, "numbers estimated with the cutoff")
        ctx.check(len(log) >= 1, "random displacements are asked for")
        n = (10 if order == 3 else 6) if auto else 2
        ctx.check(log[0][:2] == (n, len(cell)), "number of supercells and atoms", log[0][:2])
        ctx.equal(log[0][2], d, "distance of random displacements")
        ctx.check(log[0][3] == 11 and bool(log[0][4]) == (pm is True), "seed and plus-minus of random displacements", log[0][3:5])
        ctx.equal(log[0][5], m, "maximum distance of random displacements")
        ds = ph.dataset if order == 3 else ph.phonon_dataset
        ctx.check(ds.get("random_seed") == 11, "seed is recorded")
        got = ph.supercells_with_displacements if order == 3 else ph.phonon_supercells_with_displacements
        ctx.check(len(got) == len(ds["displacements"]), "one supercell per snapshot")
        p = cell.positions
        for i, c in enumerate(got):
            for q in np.ndindex(len(cell), 3):
                ctx.equal(c.positions[q], p[q] + ds["displacements"][i][q], "displaced positions")
        ctx.reach("generated")

    return h


def written(interface, given, cut, random=False, name="two"):
    """files of displaced supercells and their numbers"""

    def h(ctx):
        import phono3py.api_phono3py as api
        import phono3py.cui.create_supercells as mod

        ph = crystal(ctx, name)
        asked = directions(ctx, api, ph)
        symbolic_cells(ctx, api, ph)
        made = []

        def new(unit, smat, **k):
            made.append((unit, smat, k))
            return ph

        mod.Phono3py = new
        files = []

        def write(mode, cell, cells, info, displacement_ids=None, zfill_width=3, additional_info=None):
            ids = list(range(1, len(cells) + 1)) if displacement_ids is None else [int(i) for i in displacement_ids]
            files.append((mode, cell, list(cells), info, ids, dict(additional_info or {})))

        mod.write_supercells_with_displacements = write
        rand = []

        def rnd(n, natom, distance, random_seed=None, is_plusminus=False, max_distance=None):
            rand.append((n, natom, distance, random_seed))
            return ctx.reals("r%d_" % len(rand), (n, natom, 3), lo=-1, hi=1)

        api.get_random_displacements_dataset = rnd
        d = ctx.real("distance", lo=0.01, hi=0.5, pos=True) if given else None
        c = None
        if cut:
            c = ctx.real("cutoff", lo=0.5, hi=12)
            for i, j in itertools.product(range(len(ph._supercell)), repeat=2):
                x = shortest(ph, i, j)
                ctx.assume(ctx.Not(ctx.And(c > x - 1e-6, c < x + 1e-6)))
        diag = ctx.branch(ctx.flags("diagonal", (1,))[0] != 0)
        se = types.SimpleNamespace(displacement_distance=d, cutoff_pair_distance=c, is_symmetry=True, is_plusminus_displacement="auto", is_plusminus_displacement_fc2=True, is_diagonal_displacement=diag, random_displacements=3 if random else None, random_displacements_fc2=None, random_seed=5 if random else None, phonon_supercell_matrix=np.diag([2, 1, 1]) if name == "two" else None)
        info = {"unitcell": ph.unitcell, "supercell_matrix": ph.supercell_matrix, "primitive_matrix": ph.primitive_matrix, "phonon_supercell_matrix": ph.phonon_supercell_matrix, "optional_structure_info": ("cell",)}
        out = mod.create_phono3py_supercells(info, se, 1e-5, interface_mode=interface, log_level=0)
        ctx.check(out is ph and len(made) == 1 and made[0][0] is ph.unitcell and made[0][2]["calculator"] == interface, "calculation of the cell that was read")
        num = d if given else ctx.num(0.06 if interface in ("qe", "abinit", "turbomole") else 0.03)
        if random:
            S = [(u, None, None, True, False) for u in ph.dataset["displacements"]]
            ctx.check(len(rand) == 1 and rand[0][0] == 3 and rand[0][3] == 5, "random displacements as requested")
            ctx.equal(rand[0][2], num, "distance of random displacements")
            kept = [True] * 3
        else:
            kept = check_plan(ctx, ph, ph.dataset, num, c)
            S = supercells(ctx, ph.dataset, len(ph._supercell))
            o = [q for q in asked if q[0] == 3][0][3]
            ctx.check(o.get("is_diagonal", False) == diag and o.get("is_plusminus", "auto") == "auto", "options of directions")
        ctx.check(len(files) == (2 if name == "two" else 1), "sets of files", len(files))
        f = files[0]
        ctx.check(f[0] == interface and f[1] is ph._supercell, "interface and perfect supercell")
        ids = [i + 1 for i, k in enumerate(kept) if k]
        ctx.check(f[4] == ids, "a file for every included displacement, numbered by its id", "%s %s" % (f[4], ids))
        p = ph._supercell.positions
        for i, cc in zip(ids, f[2]):
            for q in np.ndindex(len(ph._supercell), 3):
                ctx.equal(cc.positions[q], p[q] + S[i - 1][0][q], "the file holds the displacement of its number", scale=10)
        if name == "two":
            g = files[1]
            pc = ph._phonon_supercell
            ctx.check(g[1] is pc and g[4] == list(range(1, len(ph.phonon_dataset["first_atoms"]) + 1)), "files for fc2")
            ctx.check(g[5].get("pre_filename") not in (None, f[5].get("pre_filename")), "files for fc2 have other names")
            ctx.check([q for q in asked if q[0] == 2][-1][3].get("is_plusminus") is True, "plus-minus of displacements for fc2")
            check_single(ctx, ph, [q for q in asked if q[0] == 2][-1], pc, g[2], num)
        ctx.reach("written")

    return h


SPEC = [(0, [(0, 2, True), (1, 1, False)]), (1, [(1, 1, True)])]
FREE = [(0, [(0, 1, None), (1, 2, None)]), (1, [(1, 1, None)])]


class Exit(Exception):
    pass


def collect(make, make2=None, subtract=None, energies=False, params=False, calculator=None, setting=None, listed=False, old=False):
    """forces of the files reach their supercells"""

    def h(ctx):
        import phono3py.cui.create_force_sets as mod
        import phono3py.file_IO as fio

        natom, natom2 = 2, 3
        pages = Pages(ctx).use(fio)
        ds = make(ctx, natom)
        ds2 = make2(ctx, natom2) if make2 else None
        plan, plan2 = copy.deepcopy(ds), copy.deepcopy(ds2)
        asked, forces, en, order = [], {}, {}, []

        class Yaml:
            def __init__(self, settings=None):
                self.s = settings

            def read(self, f):
                self.f = f
                self.dataset, self.phonon_dataset = ds, ds2
                self.calculator = calculator
                self.supercell = types.SimpleNamespace(n=natom)
                self.phonon_supercell = types.SimpleNamespace(n=natom2)
                self.nac_params, self.primitive = None, None

            def __str__(self):
                order.append(self)
                return "yaml"

        def get(mode, n, names, verbose=True):
            names = list(names)
            asked.append((mode, n, names))
            for x in names:
                if x not in forces:
                    forces[x] = ctx.reals("F_%s_" % x.replace("-", "_"), (n, 3), lo=-10, hi=10)
                    en[x] = ctx.real("E_%s" % x.replace("-", "_"), lo=-100, hi=100)
            out = {"forces": [forces[x].copy() for x in names]}
            if energies:
                out["supercell_energies"] = [en[x] for x in names]
            return out

        mod.Phono3pyYaml = Yaml
        mod.files_exist = lambda c, **k: [c[0]]
        there = []
        mod.file_exists = lambda n, **k: there.append(n)
        mod.get_calc_dataset = get
        mod.get_nac_params = lambda **k: None
        mod.is_file_phonopy_yaml = lambda *a, **k: False
        n3 = sum(1 for s in supercells(ctx, plan, natom) if s[3])
        n2 = 0 if ds2 is None else (len(ds2["first_atoms"]) if "first_atoms" in ds2 else len(ds2["displacements"]))
        names3 = ["v3-%d" % i for i in range(n3)]
        names2 = ["v2-%d" % i for i in range(n2)]
        mod.open = lambda f, m="r": ([x + "\n" for x in names3] if f == "list" else pages_open(f, m))

        def pages_open(f, m):
            return fio.open(f, m)

        se = types.SimpleNamespace(calculator=setting, create_forces_fc3=None if listed else names3, create_forces_fc3_file="list" if listed else None, create_forces_fc2=names2 if make2 else None, subtract_forces=None, subtract_forces_fc2=None, save_params=params)
        if subtract in (3, "both"):
            se.subtract_forces = "zero"
        if subtract in (2, "both"):
            se.subtract_forces_fc2 = "zero2"
        fio.write_FORCE_SETS = lambda dataset, filename="FORCE_SETS": snap.__setitem__(filename, (list(dataset["displacements"]), list(dataset["forces"])))
        snap = {}
        try:
            mod.create_FORCES_FC3_and_FORCES_FC2(se, None, log_level=0)
        finally:
            pages.stop()
        mode = calculator if calculator is not None else setting
        for q in asked:
            ctx.check(q[0] == mode, "calculator of the yaml file, or else the one given", "%s for %s" % (q[0], q[2]))
            ctx.check(q[1] == (natom2 if q[2][0].startswith(("v2", "zero2")) or (q[2] == ["zero"] and asked.index(q) > 1) else natom), "number of atoms", q)
        z3 = forces["zero"] if subtract in (3, "both") else None
        z2 = (forces["zero2"] if subtract in (2, "both") else forces["zero"] if subtract == 3 else None) if make2 else None

        def less(x, z):
            return forces[x] if z is None else forces[x] - z

        S3 = supercells(ctx, plan, natom)
        if params:
            ctx.check(len(order) == 1 and "phono3py_params.yaml" in pages.files and len(pages.files) == 1 and not snap, "one file written")
            new3, new2 = order[0].dataset, order[0].phonon_dataset
        else:
            if "first_atoms" in ds:
                ctx.check("FORCES_FC3" in pages.files, "forces for fc3 written")
                new3 = copy.deepcopy(plan)
                for e in new3["first_atoms"]:
                    e.pop("forces", None)
                    for f in e["second_atoms"]:
                        f.pop("forces", None)
                fio.parse_FORCES_FC3(new3)
            else:
                new3 = dict(zip(("displacements", "forces"), snap["FORCES_FC3"]))
            if make2:
                if "first_atoms" in ds2:
                    new2 = copy.deepcopy(plan2)
                    for e in new2["first_atoms"]:
                        e.pop("forces", None)
                    fio.parse_FORCES_FC2(new2)
                else:
                    new2 = dict(zip(("displacements", "forces"), snap["FORCES_FC2"]))
        k = 0
        T = supercells(ctx, new3, natom)
        ctx.check(len(T) == len(S3), "supercells for fc3")
        for s, t in zip(S3, T):
            ctx.check(s[3] == t[3], "excluded pairs")
            arr(ctx, t[0], s[0], "displacements kept")
            if s[3]:
                ctx.check(t[1] is not None, "forces stored")
                arr(ctx, t[1], less(names3[k], z3), "forces of the n-th file belong to the n-th supercell calculated")
                if params:
                    ctx.check((t[2] is not None) == energies, "energies stored when there are")
                    if energies:
                        ctx.equal(t[2], en[names3[k]], "energies of the n-th file")
                k += 1
        ctx.check(k == n3, "all files used")
        if make2:
            S2, T = supercells(ctx, plan2, natom2), supercells(ctx, new2, natom2)
            ctx.check(len(S2) == len(T), "supercells for fc2")
            for i, (s, t) in enumerate(zip(S2, T)):
                arr(ctx, t[0], s[0], "displacements kept for fc2")
                ctx.check(t[1] is not None, "forces stored for fc2")
                arr(ctx, t[1], less(names2[i], z2), "forces of the n-th file belong to the n-th supercell for fc2")
                if params:
                    ctx.check((t[2] is not None) == energies, "energies for fc2 stored when there are")
                    if energies:
                        ctx.equal(t[2], en[names2[i]], "energies of the n-th file for fc2")
        for x in names3 + names2 + ([] if z3 is None else ["zero"]):
            ctx.check(x in there, "missing files are noticed", x)
        ctx.reach("collected")

    return h


def wrong_number(make, more):
    """another number of files than of displacements is refused"""

    def h(ctx):
        import phono3py.cui.create_force_sets as mod

        ds = make(ctx, 2)
        n = sum(1 for s in supercells(ctx, ds, 2) if s[3]) + more

        class Yaml:
            def __init__(self, settings=None):
                pass

            def read(self, f):
                self.dataset, self.phonon_dataset, self.calculator = ds, None, None
                self.supercell = self.phonon_supercell = None
                self.nac_params = self.primitive = None

        out = []
        mod.Phono3pyYaml = Yaml
        mod.files_exist = lambda c, **k: [c[0]]
        mod.file_exists = lambda n, **k: None
        mod.get_calc_dataset = lambda m, k, names, verbose=True: {"forces": [ctx.reals("F%d_" % i, (2, 3)) for i in range(len(names))]}
        mod.write_FORCES_FC3 = lambda *a, **k: out.append(a)
        mod.print = lambda *a, **k: None
        se = types.SimpleNamespace(calculator=None, create_forces_fc3=["v%d" % i for i in range(n)], create_forces_fc3_file=None, create_forces_fc2=None, subtract_forces=None, subtract_forces_fc2=None, save_params=False)
        try:
            with concrete():
                pass
            mod.create_FORCES_FC3_and_FORCES_FC2(se, None, log_level=0)
            ok = False
        except SystemExit:
            ok = True
        ctx.check(ok and not out, "another number of files is refused")
        ctx.reach("collected")

    return h


def positions(order, kind):
    """files whose atoms are elsewhere are refused, lattice translations are not"""

    def h(ctx):
        import phonopy.cui.create_force_sets as pcf
        import phono3py.cui.create_force_sets as mod

        with concrete():
            ph = build(ctx, smat=(2, 1, 1))
        cell = ph.supercell
        frac = np.array(cell.scaled_positions)
        a = np.array(cell.cell)
        u = [np.array([0.03125, 0, 0]), np.array([0, -0.0625, 0])]
        ds = {"natom": 2, "first_atoms": [{"number": i, "displacement": u[i], "second_atoms": [], "id": i + 1} for i in range(2)]}
        e = ctx.real("shift", lo=0.001, hi=0.25, pos=True)
        which = ctx.concretize(ctx.ints("where", (1,), lo=0, hi=5)[0])
        x, c = divmod(int(which), 3)
        n = ctx.concretize(ctx.ints("lattice", (1,), lo=-1, hi=1)[0])

        def pts(i, base):
            p = frac.copy()
            if i is not None:
                p[i] = p[i] + u[i] @ np.linalg.inv(a)
            p = ctx.const(p)
            p[x, c] = p[x, c] + int(n)
            if base:
                p[x, c] = p[x, c] + e
            return p

        def get(m, k, names, verbose=True):
            if names == ["zero"]:
                return {"forces": [ctx.reals("Z", (2, 3))], "points": [pts(None, kind == "zero")]}
            return {"forces": [ctx.reals("F%d_" % i, (2, 3)) for i in range(2)], "points": [pts(0, kind == "first"), pts(1, kind == "second")]}

        mod.get_calc_dataset = get
        mod.file_exists = lambda n, **k: None
        pcf.get_displacements_and_forces = lambda d: (np.array([[u[0], 0 * u[0]], [0 * u[0], u[1]]]), None)
        se = types.SimpleNamespace(calculator=None, create_forces_fc3=["v0", "v1"], create_forces_fc2=["v0", "v1"], create_forces_fc3_file=None, subtract_forces="zero", subtract_forces_fc2=None)
        f = mod._get_force_sets_fc3 if order == 3 else mod._get_force_sets_fc2
        try:
            r = f(se, ds, cell, "disp", None, 0)
            refused = False
        except RuntimeError as err:
            refused = True
            want = {"first": "v0", "second": "v1", "zero": "zero"}.get(kind)
            ctx.check(want is not None and '"%s"' % want in str(err), "the file is named", str(err))
        ctx.check(refused == (kind != "fine"), "files with atoms elsewhere are refused, others are not")
        ctx.reach("collected")

    return h


def convert(order, given="same", name=None, cell=None):
    """FORCE_SETS of phonopy from FORCES_FC3 or FORCES_FC2"""

    def h(ctx):
        import phono3py.cui.create_force_sets as mod
        import phono3py.file_IO as fio

        pages = Pages(ctx).use(fio)
        ds, ds2 = T1(SPEC if order == 3 else FREE)(ctx, 2), T1([(0, None), (1, None), (0, None)], x="q")(ctx, 3)
        plan = copy.deepcopy(ds if order == 3 else ds2)
        smat = ctx.ints("smat", (3, 3), -3, 3)
        asked = None if order == 3 else smat.copy()
        if given == "any":
            for i, j in ((0, 0), (0, 1), (2, 1)):
                asked[i, j] = ctx.int("given%d%d" % (i, j), -3, 3)
        read, sets = [], []
        for x, e in ((ds, "FORCES_FC3"), (ds2, "FORCES_FC2")):
            (fio.write_FORCES_FC3 if e[-1] == "3" else fio.write_FORCES_FC2)(x, filename=e)
            for d in x["first_atoms"]:
                d.pop("forces", None)
        nfiles = set(pages.files)

        class Yaml:
            def __init__(self, *a, **k):
                pass

            def read(self, f):
                read.append(f)
                self.dataset, self.phonon_dataset = ds, ds2
                self.supercell_matrix, self.phonon_supercell_matrix = np.eye(3, dtype=int), None if given == "none" else smat

        def stop(code):
            raise Exit()

        mod.Phono3pyYaml = Yaml
        mod.file_exists = lambda *a, **k: None
        mod.open = fio.open
        mod.is_file_phonopy_yaml = lambda n, **k: n == "cell.yaml"
        mod.write_FORCE_SETS = lambda dataset, filename="FORCE_SETS": sets.append((filename, copy.deepcopy(dataset)))
        mod.sys = types.SimpleNamespace(exit=stop)
        left = False
        try:
            mod.create_FORCE_SETS_from_FORCES_FCx(asked, name, cell, 0)
        except Exit:
            left = True
        finally:
            pages.stop()
        ctx.check(read == [cell if cell == "cell.yaml" else "phono3py_disp.yaml" if name is None else "phono3py_disp.%s.yaml" % name], "displacements of the named file", read)
        if given == "none":
            same = False
        elif order == 3:
            same = True
        else:
            same = ctx.And(*[ctx.eq(a, b) for a, b in zip(asked.ravel(), smat.ravel())])
        ctx.check(ctx.Not(same) if left else same, "another supercell is refused, the same is not")
        ctx.check(len(sets) == (0 if left else 1) and set(pages.files) == nfiles, "one file is written unless refused")
        ctx.check(ds.keys() == ds2.keys() and "forces" not in ds["first_atoms"][0] and "forces" not in ds2["first_atoms"][0], "the dataset read is left alone")
        ctx.reach("refused" if left else "converted")
        if left:
            return
        got = sets[0][1]
        ctx.check(sets[0][0] == "FORCE_SETS" and len(got["first_atoms"]) == len(plan["first_atoms"]) and got["natom"] == plan["natom"], "supercells")
        for a, b in zip(plan["first_atoms"], got["first_atoms"]):
            ctx.check(a["number"] == b["number"], "displaced atom")
            arr(ctx, b["displacement"], a["displacement"], "displacement")
            arr(ctx, b["forces"], a["forces"], "forces belong to their supercell")

    return h


def back(spec):
    """FORCES_FC2 from FORCE_SETS of phonopy"""

    def h(ctx):
        import phono3py.cui.create_force_sets as mod
        import phono3py.file_IO as fio

        pages = Pages(ctx).use(fio)
        ds = T1(spec)(ctx, 3)
        plan = copy.deepcopy(ds)
        read = []
        mod.file_exists = lambda *a, **k: None
        mod.parse_FORCE_SETS = lambda filename="FORCE_SETS", **k: (read.append(filename), ds)[1]
        mod.displacements_yaml_lines_type1 = lambda *a, **k: [""]
        try:
            mod.create_FORCES_FC2_from_FORCE_SETS(0)
            ctx.check(read == ["FORCE_SETS"] and list(pages.files) == ["FORCES_FC2"], "file written")
            got = copy.deepcopy(plan)
            for d in got["first_atoms"]:
                d.pop("forces")
            fio.parse_FORCES_FC2(got)
        finally:
            pages.stop()
        for a, b in zip(plan["first_atoms"], got["first_atoms"]):
            arr(ctx, b["forces"], a["forces"], "forces belong to their supercell")
        ctx.reach("converted")

    return h


P, D, G, W, C_ = ("planned",), ("found",), ("generated",), ("written",), ("collected",)


def T1(spec, **kw):
    return lambda ctx, n: type1(ctx, n, spec, **kw)


def T2(**kw):
    return lambda ctx, n: type2(ctx, n, **kw)


NF = dict(forces="none")
NS = dict(forces=False, energies=False)

PROPS = {
    "D01": Prop(
        "D01",
        [
            Slice("plan", plan(False), bounds="3 first and 8 second displacements; lattice, distance symbolic", reach=P),
            Slice("plan-cutoff", plan(True), bounds="the same; pair distances and cutoff symbolic", reach=P),
            Slice("duplicates-cross", duplicates([(0, [(1, 2)]), (1, [(0, 2)])]), bounds="2+2 pairs of different atoms, all directions", reach=D, fork_abs=False),
            Slice("duplicates-same", duplicates([(0, [(0, 2)]), (0, [(0, 1)])], only=False), bounds="3 pairs of one atom, all directions", reach=D, fork_abs=False),
            Slice("duplicates-same-only", duplicates([(0, [(0, 2)]), (0, [(0, 1)])]), bounds="3 pairs of one atom, all directions: nothing else is listed", reach=D, fork_abs=False),
            Slice("duplicates-both", duplicates([(0, [(0, 1), (1, 1)]), (0, [(1, 1)]), (1, [(0, 1), (1, 1)])]), bounds="2 atoms, 5 pairs, all directions", reach=D, fork_abs=False),
            Slice("duplicates-three", duplicates([(0, [(2, 1), (1, 1)]), (1, [(0, 1), (2, 1)]), (2, [(1, 1), (0, 1)])]), bounds="3 atoms, 6 pairs, all directions", reach=D, fork_abs=False),
            Slice("generate-p1", generate("p1", True), bounds="triclinic, 2 atoms; distance and cutoff symbolic", reach=G),
            Slice("generate-cubic", generate("cubic", True, diagonal=False), bounds="cubic, 4 atoms", reach=G),
            Slice("generate-plain", generate("cubic", False, pm=True, again=False), bounds="cubic, no cutoff, plus-minus", reach=G),
            Slice("generate-two", generate("two", True), bounds="another supercell for fc2, displacements there", reach=G),
            Slice("generate-two-new", generate("two", False, pm=False, again=False), bounds="another supercell for fc2", reach=G),
            Slice("generate-default", generate("two", True, default=True), bounds="default distance of 0.03", reach=G),
            Slice("snapshots-auto-pm", snapshots(3, pm="auto"), bounds="2 random displacements, plus-minus only when asked", reach=G),
            Slice("snapshots-fc2-auto-pm", snapshots(2, pm="auto"), bounds="2 random displacements for fc2, plus-minus only when asked", reach=G),
            Slice("snapshots", snapshots(3), bounds="2 random displacements", reach=G),
            Slice("snapshots-pm", snapshots(3, pm=True, two=False), bounds="2 pairs of random displacements", reach=G),
            Slice("snapshots-auto", snapshots(3, auto=True, two=False), bounds="number estimated", reach=G),
            Slice("snapshots-fc2", snapshots(2, pm=True), bounds="2 pairs of random displacements for fc2", reach=G),
            Slice("snapshots-fc2-auto", snapshots(2, auto=True), bounds="number estimated for fc2", reach=G),
            Slice("files", written("vasp", True, True), bounds="included pairs of a tetragonal crystal; distance, cutoff symbolic", reach=W),
            Slice("files-default", written("qe", False, False), bounds="default distance in au", reach=W),
            Slice("files-default-A", written("vasp", False, True, name="cubic"), bounds="default distance in Angstrom", reach=W),
            Slice("files-random", written("vasp", True, False, random=True, name="cubic"), bounds="3 random displacements", reach=W),
        ],
        modules=["phono3py.phonon3.displacement_fc3", "phono3py.phonon3.dataset", "phono3py.api_phono3py", "phono3py.cui.create_supercells"],
        patch=("phonopy.harmonic.displacement",),
        assumptions=["random numbers, the symmetry search and file formats of calculators are phonopy's (stand-ins or concrete)", "pair distances at least 1e-6 from the cutoff in whole crystals"],
    ),
    "D02": Prop(
        "D02",
        [
            Slice("pairs", collect(T1(FREE, **NF)), bounds="6 supercells", reach=C_),
            Slice("pairs-excluded", collect(T1(SPEC, sym_included=True, **NF)), bounds="every pattern of excluded pairs", reach=C_),
            Slice("pairs-zero", collect(T1(SPEC, sym_included=True, **NF), subtract=3), bounds="residual forces subtracted", reach=C_),
            Slice("pairs-old", collect(T1(FREE)), bounds="the yaml file has other forces", reach=C_),
            Slice("pairs-list", collect(T1(FREE, **NF), listed=True), bounds="file names in a file", reach=C_),
            Slice("pairs-params", collect(T1(SPEC, sym_included=True, **NF), energies=True, params=True), bounds="phono3py_params.yaml with energies", reach=C_),
            Slice("pairs-params-plain", collect(T1(SPEC, **NF), params=True, subtract=3), bounds="phono3py_params.yaml without energies", reach=C_),
            Slice("fc2", collect(T1(FREE, **NF), T1([(0, None), (1, None), (0, None)], x="q", **NF), subtract="both"), bounds="3 supercells for fc2; two residual forces", reach=C_),
            Slice("fc2-zero", collect(T1(FREE, **NF), T1([(2, None)], x="q", **NF), subtract=2, calculator="qe"), bounds="residual forces for fc2 only", reach=C_),
            Slice("fc2-yaml", collect(T1(FREE, **NF), T1([(0, None)], x="q", **NF), calculator="qe", setting="vasp"), bounds="calculator of the yaml file", reach=C_),
            Slice("fc2-setting", collect(T1(FREE, **NF), T1([(0, None)], x="q", **NF), setting="abinit"), bounds="calculator given", reach=C_),
            Slice("fc2-params", collect(T1(SPEC, **NF), T1([(0, None), (1, None)], x="q", **NF), params=True, energies=True), bounds="phono3py_params.yaml with fc2", reach=C_),
            Slice("snapshots", collect(T2(n=2, **NS)), bounds="2 snapshots", reach=C_),
            Slice("snapshots-old", collect(T2(n=2), T2(n=2, x="q")), bounds="the yaml file has other forces", reach=C_),
            Slice("snapshots-zero", collect(T2(n=2, **NS), T2(n=3, x="q", **NS), subtract="both"), bounds="residual forces", reach=C_),
            Slice("snapshots-params", collect(T2(n=2, **NS), T2(n=3, x="q", **NS), params=True, energies=True), bounds="phono3py_params.yaml with energies", reach=C_),
            Slice("snapshots-params-plain", collect(T2(n=2, **NS), T2(n=1, x="q", **NS), params=True), bounds="phono3py_params.yaml without energies", reach=C_),
            Slice("fewer", wrong_number(T1(SPEC, sym_included=True, **NF), -1), bounds="one file missing, every pattern of excluded pairs", reach=C_),
            Slice("more", wrong_number(T1(SPEC, sym_included=True, **NF), 1), bounds="one file too many, every pattern of excluded pairs", reach=C_),
        ]
        + [
            Slice("convert-fc3", convert(3), bounds="3 atoms displaced, pairs", reach=("converted",)),
            Slice("convert-fc3-named", convert(3, name="x", cell="POSCAR"), bounds="file name given", reach=("converted",)),
            Slice("convert-fc3-cell", convert(3, name="x", cell="cell.yaml"), bounds="yaml file given", reach=("converted",)),
            Slice("convert-fc2", convert(2), bounds="any supercell matrix", reach=("converted",)),
            Slice("convert-fc2-given", convert(2, given="any"), bounds="any two supercell matrices", reach=("converted", "refused")),
            Slice("convert-fc2-none", convert(2, given="none"), bounds="no supercell for fc2", reach=("refused",)),
            Slice("convert-back", back([(0, None), (2, None), (0, None)]), bounds="3 supercells", reach=("converted",)),
        ]
        + [Slice("positions-%d-%s" % (o, k), positions(o, k), bounds="2 atoms; any coordinate, shift of 0.001-0.25, lattice translations", reach=C_) for o in (3, 2) for k in ("fine", "first", "second", "zero")],
        modules=["phono3py.cui.create_force_sets", "phono3py.file_IO", "phono3py.phonon3.dataset", "phono3py.interface.phono3py_yaml"],
        patch=("phonopy.cui.create_force_sets",),
        assumptions=["reading of calculators' output and the yaml reader are stand-ins giving any forces, energies and positions"],
    ),
}
