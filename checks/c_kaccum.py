"""Accumulated and differential properties (phono3py-kaccum)."""
import numpy as np

from .common import *
from .lattice import *

NSP = 3


class File(dict):
    """in-memory stand-in of an hdf5 file"""


class DS:
    def __init__(self, a):
        self.a = a
        self.shape = np.shape(a)

    def __getitem__(self, k):
        return self.a[k].copy() if hasattr(self.a[k], "copy") else self.a[k]


def grid(lat, mesh, sub=None, dense=True):
    rots = pg(lat)
    if sub is not None:
        rots = np.array([r for r in rots if sub(r)], dtype="intc")
    bz = bzgrid(mesh, lattice=lat, rotations=rots, store_dense_gp_map=dense)
    D = np.array(bz.D_diag)
    n = int(np.prod(D))
    adr = [np.array([i % D[0], i // D[0] % D[1], i // (D[0] * D[1])]) for i in range(n)]
    ix = lambda v: int(v[0] % D[0] + D[0] * (v[1] % D[1]) + D[0] * D[1] * (v[2] % D[2]))
    star = [min(ix(np.array(r) @ adr[i]) for r in bz.rotations) for i in range(n)]
    ir = sorted(set(star))
    wt = [star.count(i) for i in ir]
    return bz, n, star, ir, wt


def stub(ctx, mod, bz, nir, nb, nfp, star, ir, log):
    """arbitrary weights; checks what they are asked for"""
    W = {}

    def giw(fp, freqs, bz_, grid_points=None, bzgp2irgp_map=None, function="I", **k):
        key = (function, len(log))
        w = ctx.reals("w%s%d" % (function, len(log)), (nir, len(fp), nb))
        log.append((function, fp, freqs, [int(x) for x in grid_points], [int(x) for x in bzgp2irgp_map], w))
        ctx.check(bz_ is bz, "grid")
        return w

    mod.get_integration_weights = giw


def asked(ctx, e, bz, star, ir, freqs, points):
    """the weights are asked for at the irreducible points with the
    frequencies of the symmetry-equivalent points"""
    ctx.check(e[3] == [int(bz.grg2bzg[i]) for i in ir], "weights at irreducible points")
    ctx.check(e[4] == [ir.index(star[int(g)]) for g in bz.bzg2grg], "frequencies of the equivalent irreducible point")
    ctx.equal(e[2], freqs, "values the weights are of")
    ctx.check(len(e[1]) == len(points), "number of sampling points")
    for a, b in zip(e[1], points):
        ctx.equal(a, b, "sampling points")


def sampling(ctx, f, n):
    """n equidistant points from the smallest value to above the largest"""
    v = list(f.ravel())
    lo, hi = v[0], v[0]
    for x in v[1:]:
        if ctx.branch(x < lo):
            lo = x
        if ctx.branch(x > hi):
            hi = x
    hi = hi + ctx.num(1e-8)
    return [lo + (hi - lo) * k / (n - 1) for k in range(n)]


def setup(ctx, lat="cubic", mesh=(2, 2, 2), sub=None, nb=2, nt=2, ne=2, dense=True, ends=False):
    bz, n, star, ir, wt = grid(lat, list(mesh), sub, dense)
    nir = len(ir)
    f = ctx.const(np.array([[0.5 + 0.25 * i + 1.5 * b for b in range(nb)] for i in range(nir)]))
    if ends:
        f[0, 0] = ctx.real("flow", lo=0, hi=0.5)
        f[nir - 1, nb - 1] = ctx.real("fhigh", lo=6, hi=9)
    else:
        f[nir - 1, 0] = ctx.real("f", lo=-1, hi=9)
    mk = ctx.reals("mk", (nt, nir, nb, ne))
    return bz, n, star, ir, wt, nir, f, mk


def want(mk, e, t, p, x, n, wt=None):
    nir, nb = mk.shape[1:3]
    return sum(e[5][i, p, b] * mk[t, i, b, x] * (1 if wt is None else wt[i]) for i in range(nir) for b in range(nb)) / n


def thm(form="irmap", given=None, **kw):
    def h(ctx):
        import phono3py.other.kaccum as mod

        bz, n, star, ir, wt, nir, f, mk = setup(ctx, **kw)
        if form == "full":
            star, ir = list(range(n)), list(range(n))
            nir, nb = n, 2
            f = ctx.const(np.array([[0.5 + 0.25 * (i % 5) + 1.5 * b for b in range(nb)] for i in range(nir)]))
            f[1, 0] = ctx.real("f", lo=-1, hi=9)
            mk = ctx.reals("mk", (2, nir, nb, 2))
        log = []
        stub(ctx, mod, bz, nir, mk.shape[2], NSP, star, ir, log)
        args = dict(num_sampling_points=NSP)
        if form != "full":
            args.update(ir_grid_points=I64(ir), ir_grid_map=I64(star))
        if form == "weights":
            args["ir_grid_weights"] = I64(wt)
        pts = None
        if given:
            pts = list(ctx.reals("pt", (given,)))
            args["frequency_points"] = pts
        k = mod.KappaDOSTHM(mk, f, bz, **args)
        fp, kdos = k.get_kdos()
        ctx.reach("dos")
        pts = sampling(ctx, f, NSP) if pts is None else pts
        ctx.check([e[0] for e in log] == ["J", "I"], "cumulative and density weights")
        for e in log:
            asked(ctx, e, bz, star, ir, f, pts)
        ctx.check(np.shape(kdos) == (2, len(pts), 2, 2), "shape")
        for t in range(2):
            for p in range(len(pts)):
                ctx.equal(fp[p], pts[p], "sampling points")
                for j in range(2):
                    for x in range(2):
                        ctx.equal(kdos[t, p, j, x], want(mk, log[j], t, p, x, n, wt if form == "weights" else None), "cumulative then density, per temperature and component", scale=10)

    return h


def whole(ctx):
    """with the real tetrahedron weights, the last point holds everything"""
    import phono3py.other.kaccum as mod

    bz, n, star, ir, wt, nir, f, mk = setup(ctx, mesh=(2, 2, 2), nt=1, ne=1)
    k = mod.KappaDOSTHM(mk, f, bz, ir_grid_points=I64(ir), ir_grid_map=I64(star), num_sampling_points=2)
    fp, kdos = k.get_kdos()
    ctx.reach("dos")
    ctx.equal(kdos[0, 1, 0, 0], sum(mk[0, i, b, 0] for i in range(nir) for b in range(2)) / n, "cumulative value at the last point is the total", scale=10)
    ctx.equal(kdos[0, 0, 0, 0], 0, "nothing below the first point", scale=10)


def smearing(given):
    def h(ctx):
        import phono3py.other.kaccum as mod

        nir, nb, nt = 3, 2, 2
        f = ctx.const(np.array([[0.5, 2.0], [0.75, 3.0], [1.0, 4.0]]))
        f[0, 0] = ctx.real("flow", lo=0, hi=0.5)
        f[2, 1] = ctx.real("fhigh", lo=4, hi=9)
        g = ctx.reals("g", (nt, nir, nb))
        wt = I64([1, 4, 3])
        s = ctx.real("s", pos=True, hi=5) if given else None
        d = mod.GammaDOSsmearing(g, f, wt, sigma=s, num_sampling_points=NSP)
        fp, gd = d.get_gdos()
        ctx.reach("dos")
        pts = sampling(ctx, f, NSP)
        if not given:
            s = (max(fp) - min(fp)) / 100
        ctx.check(np.shape(gd) == (nt, NSP, 2), "shape")
        for p in range(NSP):
            ctx.equal(fp[p], pts[p], "sampling points")
            for t in range(nt):
                e = 0
                for i in range(nir):
                    for b in range(nb):
                        x = f[i, b] - fp[p]
                        e = e + int(wt[i]) * g[t, i, b] * ctx.num(1 / np.sqrt(2 * np.pi)) / s * ctx.fn("exp", -(x * x) / 2 / (s * s))
                ctx.equal(gd[t, p, 1], e / 8, "weighted Gaussian density", scale=10)

    return h


def driver(kind):
    def h(ctx):
        import phono3py.other.kaccum as mod

        bz, n, star, ir, wt, nir, f, mk = setup(ctx)
        log = []
        stub(ctx, mod, bz, nir, 2, NSP, star, ir, log)
        if kind == "mfp":
            m = ctx.const(np.array([[[0.5 + 0.25 * i + 1.5 * b + 0.125 * t for b in range(2)] for i in range(nir)] for t in range(2)]))
            m[1, 0, 1] = ctx.real("mfp", lo=0, hi=9)
            kdos, sp = mod.run_mfp_dos(m, mk, I64(star), I64(ir), NSP, bz)
            ctx.reach("dos")
            ctx.check(len(log) == 4 and np.shape(kdos) == (2, NSP, 2, 2), "each temperature by its mean free paths")
            for t in range(2):
                pts = sampling(ctx, m[t], NSP)
                for j in range(2):
                    asked(ctx, log[2 * t + j], bz, star, ir, m[t], pts)
                    for p in range(NSP):
                        ctx.equal(sp[t, p], pts[p], "sampling points of the temperature")
                        for x in range(2):
                            ctx.equal(kdos[t, p, j, x], want(mk, log[2 * t + j], t, p, x, n), "accumulation over mean free path", scale=10)
        else:
            kdos, sp = mod.run_prop_dos(f, mk, I64(star), I64(ir), NSP, bz)
            ctx.reach("dos")
            pts = sampling(ctx, f, NSP)
            for t in range(2):
                for p in range(NSP):
                    ctx.equal(sp[t, p], pts[p], "sampling points for every temperature")
                    for j in range(2):
                        for x in range(2):
                            ctx.equal(kdos[t, p, j, x], want(mk, log[j], t, p, x, n), "accumulation over frequency", scale=10)

    return h


def mfp(ctx):
    import phono3py.other.kaccum as mod

    g = ctx.reals("g", (2, 1, 2), lo=-1, hi=5)
    gv = ctx.reals("gv", (1, 2, 3))
    m = mod.get_mfp(g, gv)
    ctx.reach("dos")
    for t in range(2):
        for b in range(2):
            nv = ctx.fn("sqrt", sum(gv[0, b, x] * gv[0, b, x] for x in range(3)))
            e = nv / (ctx.num(4 * np.pi) * g[t, 0, b]) if ctx.branch(g[t, 0, b] > 0) else 0
            ctx.equal(m[t, 0, b], e, "mean free path, zero without scattering")


class Out:
    """captures what is printed; terms are recovered"""

    def __init__(self, ctx, mod):
        from engine.expr import E

        self.E, self.ctx, self.lines = E, ctx, []
        mod.print = self.put

    def put(self, *a, **k):
        self.lines.append(" ".join(str(x) for x in a))

    def __enter__(self):
        if self.ctx.symbolic:
            self.E.printing = []
        self.terms = self.E.printing
        return self

    def __exit__(self, *a):
        self.E.printing = None

    def rows(self):
        """blocks of rows of values; '# T K' starts a block"""
        out = [[]]
        heads = []
        for l in self.lines:
            w = l.split()
            if not w:
                continue
            if w[0] == "#":
                heads.append(w[1:])
                out.append([])
                continue
            out[-1].append([self.value(x) for x in w])
        return heads, [b for b in out if b]

    def value(self, s):
        v = float(s)
        if self.terms is not None and v > 999999:
            return self.terms[int(round(v - 1e6))]
        return v


def printed(ctx, r, e, label):
    """values printed with few digits"""
    if ctx.symbolic and not hasattr(r, "op") and not hasattr(e, "op"):
        ctx.check(abs(float(r) - float(e)) <= 2e-5 * max(1, abs(float(e))), label, "%s printed for %s" % (float(r), float(e)))
        return
    ctx.equal(r, e, label, scale=10, rtol=1e-2)


OPTIONS = ("pqj", "cv", "tau", "gv_norm", "gamma", "gruneisen", "dos", "gv")


def args(**k):
    a = dict((o, False) for o in OPTIONS)
    a.update(mfp=False, temperature=None, num_sampling_points=NSP, average=False, trace=False, smearing=False, no_gridsym=False)
    a.update(k)
    return Mock(**a)


def properties(ctx, nir, nb, nt):
    f = File()
    sh = (nt, nir, nb)
    f["frequency"] = DS(np.ones(sh[1:]))
    f["ave_pp"] = DS(ctx.reals("pp", sh[1:], lo=0))
    f["heat_capacity"] = DS(ctx.reals("cv", sh))
    f["gamma"] = DS(ctx.reals("gam", sh, lo=0.01))
    f["group_velocity"] = DS(ctx.reals("gv", sh[1:] + (3,)))
    f["gruneisen"] = DS(ctx.reals("gr", sh[1:]))
    f["mode_kappa"] = DS(ctx.reals("mk", sh + (6,)))
    f["gv_by_gv"] = DS(ctx.reals("gg", sh[1:] + (6,)))
    return f


def scalar_prop(ctx, o, f, t, i, b):
    if o == "pqj":
        return f["ave_pp"].a[i, b]
    if o == "cv":
        return f["heat_capacity"].a[t, i, b]
    if o == "tau":
        return 1 / (ctx.num(4 * np.pi) * f["gamma"].a[t, i, b])
    if o == "gamma":
        return f["gamma"].a[t, i, b]
    if o == "gv_norm":
        return ctx.fn("sqrt", sum(f["group_velocity"].a[i, b, x] * f["group_velocity"].a[i, b, x] for x in range(3)))
    if o == "gruneisen":
        return f["gruneisen"].a[i, b] * f["gruneisen"].a[i, b]
    if o == "dos":
        return 1


def scalar(o, temperature=None, smear=False):
    """text printed for a scalar property"""

    def h(ctx):
        import phono3py.cui.kaccum_script as cs
        import phono3py.other.kaccum as mod

        bz, n, star, ir, wt, nir, fr, _ = setup(ctx, nb=2, ends=smear)
        nt = 1 if o in ("pqj", "gv_norm", "gruneisen", "dos") else 2
        f = properties(ctx, nir, 2, 2)
        log = []
        stub(ctx, mod, bz, nir, 2, NSP, star, ir, log)
        temps = np.array([100.0, 300.0]) if o != "dos" else np.array([0.0])
        ts = list(range(nt))
        if temperature is not None and nt == 2:
            ts = [list(temps).index(temperature)]
        made = []
        cls = mod.GammaDOSsmearing
        cs.GammaDOSsmearing = lambda *a, **k: made.append(cls(*a, **k)) or made[-1]
        with Out(ctx, cs) as out:
            cs._run_scalar(args(**{o: True, "temperature": temperature, "smearing": smear}), f, temps, fr, I64(wt), I64(star), I64(ir), bz)
            heads, blocks = out.rows()
        ctx.reach("dos")
        pts = sampling(ctx, fr, NSP)
        ctx.check(len(blocks) == len(ts), "one table per temperature")
        if nt == 2:
            ctx.check(heads == [["%d" % temps[t], "K"] for t in ts], "temperatures of the tables")
        if smear:
            own = made[0].get_gdos()[0]
            s = (max(own) - min(own)) / 100
        for k, t in enumerate(ts):
            ctx.check(len(blocks[k]) == NSP and all(len(r) == 3 for r in blocks[k]), "three columns")
            for p in range(NSP):
                r = blocks[k][p]
                # printed with six digits
                printed(ctx, r[0], pts[p], "sampling point")
                for j in range(2):
                    e = 0
                    for i in range(nir):
                        for b in range(2):
                            v = scalar_prop(ctx, o, f, t, i, b) * int(wt[i])
                            if not smear:
                                e = e + log[j][5][i, p, b] * v / n
                            elif j == 1:
                                x = fr[i, b] - own[p]
                                e = e + v * ctx.num(1 / np.sqrt(2 * np.pi)) / s * ctx.fn("exp", -(x * x) / 2 / (s * s)) / sum(wt)
                    printed(ctx, r[1 + j], e, "cumulative and density columns")

    return h


def tensor(kind=None, form="all", temperature=None):
    """text printed for a tensor property"""

    def h(ctx):
        import phono3py.cui.kaccum_script as cs
        import phono3py.other.kaccum as mod

        bz, n, star, ir, wt, nir, fr, _ = setup(ctx, nb=1)
        f = properties(ctx, nir, 1, 2)
        log = []
        stub(ctx, mod, bz, nir, 1, NSP, star, ir, log)
        temps = np.array([100.0, 300.0])
        k = dict(temperature=temperature)
        if form in ("average", "trace"):
            k[form] = True
        vol = ctx.real("vol", pos=True)
        if kind == "gv":
            k["gv"] = True
        m = None
        if kind in ("mfp", "mfpfile"):
            k["mfp"] = True
            m = ctx.const(np.array([[[0.5 + 0.25 * i + 0.125 * t] for i in range(nir)] for t in range(2)]))
            if kind == "mfpfile":
                v = ctx.const(np.zeros((2, nir, 1, 3)))
                for ix in np.ndindex(2, nir, 1):
                    v[ix + (1,)] = m[ix]
                f["mean_free_path"] = DS(v)
            else:
                cs.get_mfp = lambda g, gv: m
        ts = [0] if kind == "gv" else [0, 1]
        if temperature is not None and kind != "gv":
            ts = [list(temps).index(temperature)]
        with Out(ctx, cs) as out:
            cs._run_tensor(args(**k), f, temps, fr, I64(star), I64(ir), bz, Mock(volume=vol))
            heads, blocks = out.rows()
        ctx.reach("dos")
        if kind == "gv":
            blocks = [sum(blocks, [])]
        else:
            ctx.check(heads == [["%d" % temps[t], "K"] for t in ts], "temperatures of the tables")
        ctx.check(len(blocks) == len(ts), "one table per temperature")
        for q, t in enumerate(ts):
            pts = sampling(ctx, fr if m is None else m[t], NSP)
            ctx.check(len(blocks[q]) == NSP and all(len(r) == (13 if form == "all" else 3) for r in blocks[q]), "columns")
            for p in range(NSP):
                r = blocks[q][p]
                printed(ctx, r[0], pts[p], "sampling point")
                for j in range(2):
                    e = log[j if m is None else 2 * q + j]
                    v = []
                    for x in range(6):
                        s = 0
                        for i in range(nir):
                            mk = f["gv_by_gv"].a[i, 0, x] / vol if kind == "gv" else f["mode_kappa"].a[t, i, 0, x]
                            s = s + e[5][i, p, 0] * mk / n
                        v.append(s)
                    if form == "all":
                        for x in range(6):
                            printed(ctx, r[1 + 6 * j + x], v[x], "cumulative then density components")
                    else:
                        printed(ctx, r[1 + j], (v[0] + v[1] + v[2]) / (3 if form == "average" else 1), "cumulative then density " + form)

    return h


def collect(kind):
    """what is read of a file"""

    def h(ctx):
        import phono3py.cui.kaccum_script as cs

        lat, mesh = "cubic", [2, 2, 2]
        bz, n, star, ir, wt = grid(lat, mesh)
        cs.Symmetry = lambda p: Mock(dataset=None)
        cs.BZGrid = lambda *a, **k: bz
        cs.print = lambda *a, **k: None
        bzir = [int(bz.grg2bzg[i]) for i in ir]
        f = File(mesh=DS(I64(mesh)))
        nb = 2
        base = ctx.reals("f", (len(bz.addresses) if kind.startswith("phonon") else len(ir), nb), lo=0.1)
        base[1, 0] = ctx.real("neg", lo=-1, hi=1)
        f["frequency"] = DS(base)
        a = args()
        if kind.startswith("kappa"):
            f["weight"] = DS(I64(wt))
            f["qpoint"] = DS(np.array([np.dot(bz.addresses[g], bz.QDinv.T) for g in bzir]))
            f["temperature"] = DS(ctx.reals("T", (2,)))
            if kind == "kappa-gp":
                f["grid_point"] = DS(I64(bzir))
            if kind == "kappa-wrong":
                f["weight"] = DS(I64([w + (k == 1) for k, w in enumerate(wt)]))
        elif kind != "phonon-nosym":
            f["ir_grid_weights"] = DS(I64(wt))
            f["ir_grid_points"] = DS(I64(bzir))
        if kind == "phonon-nosym":
            a = args(no_gridsym=True)
        if kind == "kappa-wrong":
            try:
                cs._collect_data(f, Mock(cell=np.eye(3)), a)
                ok = False
            except AssertionError:
                ok = True
            ctx.reach("dos")
            ctx.check(ok, "weights of another grid are refused")
            return
        g, m, w, b, fr, T = cs._collect_data(f, Mock(cell=np.eye(3)), a)
        ctx.reach("dos")
        sel = list(range(len(base)))
        if kind == "phonon":
            sel = bzir
        ctx.check(np.shape(fr) == (len(sel), nb), "frequencies")
        nonpos = None
        for i, s in enumerate(sel):
            for x in range(nb):
                v = base[s, x]
                ctx.equal(fr[i, x], v, "frequencies of the points")
        if kind == "phonon-nosym":
            ctx.check(g is None and m is None and [int(x) for x in w] == [1] * len(base), "no symmetry")
        else:
            ctx.check([int(x) for x in w] == wt and [int(x) for x in g] == ir and [int(x) for x in m] == star, "irreducible points, weights and map")
        if kind.startswith("kappa"):
            ctx.equal(T[1], f["temperature"].a[1], "temperatures")

    return h


R = ("dos",)
PROPS = {
    "K02": Prop(
        "K02",
        [
            Slice("irmap", thm(), bounds="cubic 2x2x2, 2 bands, 2 temperatures", reach=R),
            Slice("irmap-low", thm(lat="cubic", mesh=(2, 2, 1), sub=lambda r: abs(r[2][2]) == 1), bounds="tetragonal 2x2x1", reach=R),
            Slice("irmap-hex", thm(lat="hex", mesh=(3, 3, 1), dense=False), bounds="hexagonal 3x3x1, sparse map", reach=R),
            Slice("weights", thm("weights"), bounds="with grid weights", reach=R),
            Slice("full", thm("full"), bounds="no symmetry", reach=R),
            Slice("points", thm(given=2), bounds="given frequency points", reach=R),
            Slice("total", whole, bounds="real tetrahedron weights, cubic 2x2x2", reach=R),
            Slice("smearing", smearing(True), bounds="any width", reach=R),
            Slice("smearing-default", smearing(False), bounds="default width", reach=R),
            Slice("prop", driver("prop"), bounds="two temperatures", reach=R),
            Slice("mfp-dos", driver("mfp"), bounds="two temperatures", reach=R),
            Slice("mfp", mfp, bounds="rates of any sign", reach=R),
        ]
        + [Slice("text-" + o.replace("_", "-"), scalar(o), bounds="printed table", reach=R) for o in OPTIONS[:-1]]
        + [
            Slice("text-tau-temperature", scalar("tau", 300.0), bounds="printed table of one temperature", reach=R),
            Slice("text-gamma-smearing", scalar("gamma", smear=True), bounds="printed table, Gaussian", reach=R),
            Slice("text-pqj-smearing", scalar("pqj", smear=True), bounds="printed table, Gaussian", reach=R),
            Slice("text-kappa", tensor(), bounds="printed table", reach=R),
            Slice("text-kappa-trace", tensor(form="trace", temperature=300.0), bounds="printed table", reach=R),
            Slice("text-kappa-average", tensor(form="average"), bounds="printed table", reach=R),
            Slice("text-gvgv", tensor("gv"), bounds="printed table", reach=R),
            Slice("text-mfp", tensor("mfp"), bounds="printed table", reach=R),
            Slice("text-mfp-temperature", tensor("mfpfile", temperature=300.0), bounds="printed table", reach=R),
        ]
        + [Slice("read-" + k, collect(k), bounds="reading", reach=R) for k in ("kappa", "kappa-gp", "kappa-wrong", "phonon", "phonon-nosym")],
        assumptions=["tetrahedron weights are arbitrary inputs (their contract is W01, W03), but for 'total'", "hdf5 files replaced by dictionaries"],
        functions=["phono3py.other.kaccum", "phono3py.cui.kaccum_script"],
        modules=["phono3py.other.kaccum", "phono3py.cui.kaccum_script", "phono3py.other.tetrahedron_method", "phono3py.phonon.grid"],
        patch=["phonopy.phonon.dos"],
    ),
}
