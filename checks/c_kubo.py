"""Wigner and Green-Kubo conductivities."""
import numpy as np
from .common import *
from .lattice import *
from .c_kappa import World, GV, VXV, conv, consts, tetra, key, PATCH
from .c_lbte import d2, inv_only, rvec, R as _R


class VO:
    """velocity matrices by q-point (arbitrary Hermitian matrices)"""

    table = {}
    kind = None

    def __init__(self, *a, **k):
        pass

    def run(self, qs, perturbation=None):
        from engine import expr as X

        out = [VO.table[key(q)] for q in qs]
        nb = out[0].shape[0]
        if VO.kind == "wigner":
            o = X.CTX[0].const(np.zeros((len(out), nb, nb, 3), dtype="complex128"))
            for i, v in enumerate(out):
                o[i] = v
            self.velocity_operators = o
        else:
            o = X.CTX[0].const(np.zeros((len(out), 3, nb, nb), dtype="complex128"))
            for i, v in enumerate(out):
                for a in range(3):
                    o[i, a] = v[:, :, a]
            self.group_velocity_matrices = o


def herm(ctx, w, which):
    """one Hermitian 3-vector of matrices per grid point"""
    nb = w.nb
    w.V = {}
    for i in range(w.n):
        V = ctx.const(np.zeros((nb, nb, 3), dtype="complex128"))
        for a in range(3):
            for p in range(nb):
                for q in range(p, nb):
                    nm = "V%d_%d_%d_%d" % (i, p, q, a)
                    s = (i, p, q) in which
                    re = ctx.real(nm, lo=-50, hi=50) if s else ctx.const(0.25 * ((3 * i + 5 * p + 7 * q + a) % 9 - 4))
                    im = 0 if p == q else ctx.real(nm + "i", lo=-50, hi=50) if s else ctx.const(0.125 * ((2 * i + 3 * p + 5 * q + a) % 7 - 3))
                    V[p, q, a] = re + im * 1j
                    V[q, p, a] = re - im * 1j
        w.V[i] = V
    VO.table = {}
    for i in range(len(w.bz.addresses)):
        q = np.dot(w.bz.addresses[i], np.array(w.bz.QDinv).T)
        VO.table.setdefault(key(q), w.V[int(w.bz.bzg2grg[i])])


def parts(z):
    """real and imaginary parts"""
    from engine.expr import Cx

    if isinstance(z, Cx):
        return z.re, z.im
    if isinstance(z, (complex, np.complexfloating)):
        return z.real, z.imag
    return z, 0


def mulc(x, y):
    """x conj(y)"""
    a, b = parts(x)
    c, d = parts(y)
    return a * c + b * d, b * c - a * d


def common(ctx, mod, cls, lat, mesh, T, nsig=1, star=True, which=((1, 0, 0), (1, 0, 1)), lo=30, **kw):
    import phono3py.conductivity.wigner as wm
    import phono3py.conductivity.kubo as km

    extra = kw.pop("extra", {})
    wm.VelocityOperator = VO
    km.GroupVelocityMatrix = VO
    w = World(ctx, lat, mesh, vsym=(), **kw)
    herm(ctx, w, which)
    Ts = [ctx.real("T%d" % i, lo=lo, hi=3000) if t == "s" else ctx.const(float(t)) for i, t in enumerate(T)]
    temps = ctx.const(np.zeros(len(Ts)))
    for i, t in enumerate(Ts):
        temps[i] = t
    br = getattr(mod, cls)(w.pp, temperatures=temps, sigmas=[None, 0.1][:nsig], is_kappa_star=star, **extra)
    pts = w.ir if star else list(range(w.n))
    ctx.check([int(w.bz.bzg2grg[g]) for g in br.grid_points] == pts, "one grid point per star")
    return w, Ts, br, pts


def gammas(ctx, w, nsig, nt, m, only=2):
    G = ctx.const(np.ones((nsig, nt, m, w.nb)))
    for k, ix in enumerate(np.ndindex(*G.shape)):
        G[ix] = ctx.real("G" + "_".join(map(str, ix)), lo=1e-4, hi=100) if k % only == 0 else ctx.const(0.5 + 0.125 * (k % 7))
    return G


def near(ctx, a, b, tol=1e-4):
    d = a - b
    t = ctx.num(tol)
    e = ctx.num(1e-9)
    ctx.assume(ctx.Or(d < t - e, d > t + e))
    ctx.assume(ctx.Or(d < -t - e, d > -t + e))
    return ctx.branch(ctx.And(d < t, -d < t))


def wfactor(volume):
    u = consts()
    return (u.THz * u.Angstrom) ** 2 * u.EV * u.Hbar / (volume * u.Angstrom**3)


def alive(ctx, w, f):
    d = ctx.num(1e-9)
    ctx.assume(ctx.Or(f < w.cut - d, f > w.cut + d))
    return ctx.branch(f > w.cut)


def wigner(lat, mesh, T, lbte=False, nsig=1, star=True, **kw):
    def h(ctx):
        import phono3py.conductivity.rta as rta
        import phono3py.conductivity.direct_solution as ds

        VO.kind = "wigner"
        mod = ds if lbte else rta
        w, Ts, br, pts = common(ctx, mod, "ConductivityWignerLBTE" if lbte else "ConductivityWignerRTA", lat, mesh, T, nsig=nsig, star=star, **kw)
        nb, n, m, nt = w.nb, w.n, len(pts), len(Ts)
        G = gammas(ctx, w, nsig, nt, m)
        br.gamma = G.copy()
        for _ in br:
            pass
        if lbte:
            br._set_mean_free_path = lambda *a: None
            size = m * nb * 3
            P = ctx.reals("P", (size, size), lo=-10, hi=10)

            def diag(cm, i_sigma=None, i_temp=None, pinv_solver=0, log_level=0):
                cm[i_sigma, i_temp].reshape(size, size)[:, :] = P
                return 0

            br._pinv_solver = 7
            mod.diagonalize_collision_matrix = diag
        br.set_kappa_at_sigmas()
        ctx.reach("wigner")
        u = consts()
        c = ctx.num(wfactor(w.prim.volume))
        ng = len(w.rcart) if star else 1
        th = ctx.num(u.THzToEv)
        for i, g in enumerate(pts):
            order = sum(1 for x in w.star if x == g) if star else 1
            rc = w.rcart if star else [np.eye(3)]
            rv = [[[[None] * 3 for _ in range(nb)] for _ in range(nb)] for _ in rc]
            for k, r in enumerate(rc):
                for p in range(nb):
                    for q in range(nb):
                        re = [parts(w.V[g][p, q, y])[0] for y in range(3)]
                        im = [parts(w.V[g][p, q, y])[1] for y in range(3)]
                        rv[k][p][q] = [(rvec(r, re, a), rvec(r, im, a)) for a in range(3)]
            S = {}
            for p in range(nb):
                for q in range(nb):
                    for o, (a, b) in enumerate(VXV):
                        sr, si = 0, 0
                        for k in range(len(rc)):
                            (x, y), (z, t_) = rv[k][p][q][a], rv[k][p][q][b]
                            sr = sr + x * z + y * t_
                            si = si + y * z - x * t_
                        sr, si = sr * order / ng, si * order / ng
                        S[p, q, o] = sr
                        gr, gi = parts(br.gv_by_gv_operator[i, p, q, o])
                        ctx.equal(gr, sr, "velocity products summed over the star", scale=10)
                        ctx.equal(gi, si, "velocity products summed over the star", scale=10)
            for s in range(nsig):
                for t in range(nt):
                    if not hasattr(Ts[t], "op") and float(Ts[t]) == 0 and lbte:
                        continue
                    cv = [w.cv(w.grf[g, b], Ts[t]) for b in range(nb)]
                    pop = [[0] * 6 for _ in range(nb)]
                    for p in range(nb):
                        for q in range(nb):
                            fp, fq = w.grf[g, p], w.grf[g, q]
                            coh = [0] * 6
                            if alive(ctx, w, fp) and alive(ctx, w, fq):
                                gs = (G[s, t, i, p] + G[s, t, i, q]) * th
                                lor = gs / ((fp - fq) * (fp - fq) * th * th + gs * gs)
                                pre = (fp + fq) * (cv[p] / fp + cv[q] / fq) / 4
                                e = [S[p, q, o] * pre * lor * c for o in range(6)]
                                if p == q or near(ctx, fp, fq):
                                    for o in range(6):
                                        pop[p][o] = pop[p][o] + e[o] / 2
                                        pop[q][o] = pop[q][o] + e[o] / 2
                                else:
                                    coh = e
                            for o in range(6):
                                got = parts(br.mode_kappa_C[s, t, i, p, q, o])[0]
                                ctx.equal(got, coh[o], "coherence of two modes", scale=10)
                    if not lbte:
                        for p in range(nb):
                            for o in range(6):
                                ctx.equal(br.mode_kappa_P_RTA[s, t, i, p, o], pop[p][o], "population part", scale=10)
        for s in range(nsig):
            for t in range(nt):
                for o in range(6):
                    C = 0
                    for ix in np.ndindex(m, nb, nb):
                        C = C + parts(br.mode_kappa_C[(s, t) + ix + (o,)])[0]
                    ctx.equal(br.kappa_C[s, t, o], C / n, "coherences: mean over the mesh", scale=10)
                    P_ = 0
                    for ix in np.ndindex(m, nb):
                        P_ = P_ + br.mode_kappa_P_RTA[(s, t) + ix + (o,)]
                    ctx.equal(br.kappa_P_RTA[s, t, o], P_ / n, "populations: mean over the mesh", scale=10)
                    ctx.equal(br.kappa_TOT_RTA[s, t, o], br.kappa_P_RTA[s, t, o] + br.kappa_C[s, t, o], "total is the sum of both parts", scale=10)
                    if lbte:
                        E_ = 0
                        for ix in np.ndindex(m, nb):
                            E_ = E_ + br.mode_kappa_P_exact[(s, t) + ix + (o,)]
                        ctx.equal(br.kappa_P_exact[s, t, o], E_ / n, "populations: mean over the mesh", scale=10)
                        ctx.equal(br.kappa_TOT_exact[s, t, o], br.kappa_P_exact[s, t, o] + br.kappa_C[s, t, o], "total is the sum of both parts", scale=10)

    return h


def kubo(lat, mesh, T, nsig=1, star=True, **kw):
    def h(ctx):
        import phono3py.conductivity.rta as mod

        VO.kind = "kubo"
        w, Ts, br, pts = common(ctx, mod, "ConductivityKuboRTA", lat, mesh, T, nsig=nsig, star=star, **kw)
        nb, n, m, nt = w.nb, w.n, len(pts), len(Ts)
        G = gammas(ctx, w, nsig, nt, m)
        br.gamma = G.copy()
        for _ in br:
            pass
        br.set_kappa_at_sigmas()
        ctx.reach("kubo")
        u = consts()
        c = ctx.num(conv(w.prim.volume))
        th = ctx.num(u.THzToEv)
        kb = ctx.num(u.Kb)
        for s in range(nsig):
            for t in range(nt):
                tot = [0] * 6
                for i, g in enumerate(pts):
                    ims = [rt[g] for rt in w.rot] if star else [g]
                    order = len(set(ims))
                    on, x = [], []
                    for b in range(nb):
                        f = w.grf[g, b]
                        ok = alive(ctx, w, f) and (hasattr(Ts[t], "op") or float(Ts[t]) > 0)
                        if ok:
                            top = Ts[t] * 100 * kb
                            e = f * th
                            ctx.assume(ctx.Or(e < top - ctx.num(1e-9), e > top + ctx.num(1e-9)))
                            ok = ctx.branch(e < top)
                        on.append(ok)
                        x.append(f * th / kb / Ts[t] if ok else None)
                    for p in range(nb):
                        for q in range(nb):
                            e = [0] * 6
                            if on[p] and on[q]:
                                fp, fq = w.grf[g, p], w.grf[g, q]
                                if p == q or near(ctx, fp, fq, w.cutv):
                                    ex = ctx.fn("exp", x[p])
                                    cv = kb * x[p] * x[p] * ex / ((ex - 1) * (ex - 1))
                                else:
                                    # difference of occupations over difference of energies
                                    # n_q - n_p = n_p (n_q + 1) (exp(x_p - x_q) - 1)
                                    ep, eq = ctx.fn("exp", x[p]), ctx.fn("exp", x[q])
                                    a = (x[p] + x[q]) / 2
                                    d = ctx.fn("exp", x[p] - x[q]) - 1
                                    cv = kb * a * a * d / (x[p] - x[q]) / (ep - 1) * (1 / (eq - 1) + 1)
                                gs = G[s, t, i, p] + G[s, t, i, q]
                                lor = gs / ((fp - fq) * (fp - fq) + gs * gs)
                                for o, (a, b) in enumerate(VXV):
                                    sr = 0
                                    for im in ims:
                                        V = w.V[im]
                                        sr = sr + mulc(V[p, q, a], V[p, q, b])[0]
                                    e[o] = sr * order / len(ims) * cv * lor * c
                            for o in range(6):
                                got = parts(br.mode_kappa_mat[s, t, i, p, q, o])[0]
                                ctx.equal(got, e[o], "conductivity of two modes", scale=10)
                                tot[o] = tot[o] + got
                for o in range(6):
                    ctx.equal(br.kappa[s, t, o], tot[o] / n, "mean over the mesh", scale=10)

    return h


PROPS = {
    "K05": Prop(
        "K05",
        [
            Slice("wigner", wigner("cubic", (2, 1, 1), ("s",), sub=d2, fsym=((1, 1),)), bounds="2x1x1 orthorhombic group", reach=("wigner",)),
            Slice("wigner-hex", wigner("hex", (3, 3, 1), ("s",), fsym=()), bounds="3x3x1 hexagonal", reach=("wigner",)),
            Slice("wigner-widths", wigner("cubic", (2, 1, 1), (0, "s"), nsig=2, sub=inv_only, fsym=()), bounds="two widths, two temperatures", reach=("wigner",)),
            Slice("wigner-nostar", wigner("cubic", (2, 1, 1), ("s",), star=False, sub=d2, fsym=((1, 2),)), bounds="without symmetry", reach=("wigner",)),
            Slice("wigner-degenerate", wigner("cubic", (2, 1, 1), ("s",), sub=d2, fsym=(), which=((1, 0, 2), (1, 0, 1)), fvals=[[0.0, 0.0, 0.0], [0.9, 0.9, 1.7]]), bounds="degenerate bands", reach=("wigner",)),
            Slice("wigner-lbte", wigner("cubic", (2, 1, 1), (0, "s"), lbte=True, nsig=2, sub=d2, fsym=((1, 1),)), bounds="direct solution", reach=("wigner",)),
            Slice("kubo", kubo("cubic", (2, 1, 1), ("s",), sub=d2, fsym=((1, 1),)), bounds="2x1x1 orthorhombic group", reach=("kubo",)),
            Slice("kubo-gamma", kubo("cubic", (2, 1, 1), ("s",), sub=inv_only, fsym=(), which=((0, 1, 2), (0, 1, 1)), fvals=[[0.1, 0.7, 1.9], [0.5, 0.9, 1.4]]), bounds="ignored mode before others", reach=("kubo",)),
            Slice("kubo-low", kubo("cubic", (2, 1, 1), ("s",), lo=0.5, sub=inv_only, fsym=(), fvals=[[0.0, 0.0, 0.0], [0.5, 1.1, 12.0]]), bounds="0.5 K and above", reach=("kubo",)),
            Slice("kubo-widths", kubo("cubic", (2, 1, 1), ("s", "s"), nsig=2, sub=inv_only, fsym=()), bounds="two widths, two temperatures", reach=("kubo",)),
        ],
        modules=["phono3py.conductivity.rta", "phono3py.conductivity.base", "phono3py.conductivity.wigner", "phono3py.conductivity.kubo", "phono3py.conductivity.direct_solution", "phono3py.phonon.heat_capacity_matrix"],
        patch=PATCH,
        assumptions=["velocity matrices of each grid point are arbitrary Hermitian matrices; line widths arbitrary"],
    ),
}
