"""Direct solution of the linearized Boltzmann equation."""
import numpy as np
from .common import *
from .lattice import *
from .c_kappa import World, GV, VXV, conv, stub, consts, tetra, PATCH


def setup(ctx, lat, mesh, red, T, nsig=1, solver=7, method=0, iso=False, star=True, cutp=1e-8, wig=False, **kw):
    import phono3py.conductivity.direct_solution as mod

    stub(mod)
    w = World(ctx, lat, mesh, **kw)
    Ts = [ctx.real("T%d" % i, lo=30, hi=3000) if t == "s" else ctx.const(float(t)) for i, t in enumerate(T)]
    temps = ctx.const(np.zeros(len(Ts)))
    for i, t in enumerate(Ts):
        temps[i] = t
    cls = mod.ConductivityWignerLBTE if wig else mod.ConductivityLBTE
    lb = cls(w.pp, temperatures=temps, sigmas=[None, 0.1, 0.2][:nsig], is_reducible_collision_matrix=red, is_kappa_star=star, pinv_solver=solver, pinv_method=method, pinv_cutoff=cutp)
    pts = w.ir if star else list(range(w.n))
    ctx.check([int(w.bz.bzg2grg[g]) for g in lb.grid_points] == pts, "one grid point per star")
    # mean free paths are not used by the conductivity
    lb._set_mean_free_path = lambda *a: None
    return mod, w, lb, Ts, pts


def xvec(ctx, w, g, b, T, v):
    """right-hand side of the equation at band b of grid point g"""
    u = consts()
    f = w.grf[g, b]
    if not ctx.branch(f > w.cut):
        return [0, 0, 0]
    s = ctx.fn("sinh", f * ctx.num(u.THzToEv) / (2 * ctx.num(u.Kb) * T))
    c = f * ctx.num(u.THzToEv) / s / (4 * ctx.num(u.Kb) * T * T)
    return [x * c for x in v]


def degs(ctx, w, g):
    """sets of degenerate bands at a grid point (concrete or branched)"""
    out = []
    for b in range(w.nb):
        for s in out:
            d = w.grf[g, s[-1]] - w.grf[g, b]
            if ctx.branch(ctx.And(d < ctx.num(1e-4), -d < ctx.num(1e-4))):
                s.append(b)
                break
        else:
            out.append([b])
    return {b: s for s in out for b in s}


DEG2 = [[0.0, 0.0, 0.0], [0.9, 1.7, 1.7], [0.8, 0.8, 1.6], [0.5, 1.1, 1.9]]


def formula(red, lat, mesh, T, nsig=1, star=True, iso=False, symA=True, **kw):
    """matrix handed to the solver and conductivity from what it returns"""

    def h(ctx):
        mod, w, lb, Ts, pts = setup(ctx, lat, mesh, red, T, nsig=nsig, star=star, **kw)
        nb, n, m = w.nb, w.n, len(pts)
        nt = len(Ts)
        rows = n if red else m
        G = ctx.reals("G", (nsig, nt, rows, nb), lo=1e-3, hi=100)
        if red and star:
            blank(w, pts, G)
        lb.gamma = G.copy()
        for _ in lb:
            pass
        if red:
            A = ctx.const(np.zeros((nsig, nt, n, nb, n, nb)))
        else:
            A = ctx.const(np.zeros((nsig, nt, m, nb, 3, m, nb, 3)))
        k = 0
        for ix in np.ndindex(*A.shape):
            if red and star and ix[2] not in pts:
                continue
            k += 1
            A[ix] = ctx.real("A%d" % k, lo=-100, hi=100) if symA else ctx.const(((7 * k) % 13) * 0.25)
        lb.collision_matrix[:] = A
        seen = {}
        size = rows * nb * (1 if red else 3)

        def diag(cm, i_sigma=None, i_temp=None, pinv_solver=0, log_level=0):
            a = cm[i_sigma, i_temp].reshape(size, size)
            seen[i_sigma, i_temp] = a.copy()
            p = ctx.reals("P%d_%d" % (i_sigma, i_temp), (size, size), lo=-100, hi=100) if symP else None
            a[:, :] = p
            seen[i_sigma, i_temp, "P"] = p
            return None

        symP = True
        mod.diagonalize_collision_matrix = diag
        lb.set_kappa_at_sigmas()
        ctx.reach("matrix")
        ng = len(w.rcart)
        rots = list(range(ng)) if star else [next(i for i, r in enumerate(w.rcart) if np.allclose(r, np.eye(3)))]
        rc = [w.rcart[i] for i in rots]
        nr = len(rots)
        img = [[w.rot[i][g] for g in range(n)] for i in rots]
        deg = {g: degs(ctx, w, g) for g in pts}
        wt = [(len({i[g] for i in img}) / nr) ** 0.5 for g in pts]
        c = ctx.num(conv(w.prim.volume)) * ctx.num(consts().Kb)
        for s in range(nsig):
            for t in range(nt):
                if (s, t) not in seen:
                    ctx.check(not hasattr(Ts[t], "op") and float(Ts[t]) == 0, "every temperature above zero is solved")
                    ctx.equal(lb.kappa[s, t], np.zeros(6), "zero at 0 K")
                    continue
                # expected matrix
                if red:
                    M = expand(ctx, A[s, t], pts, img, deg, star, n, nb)
                    gam = [[0] * nb for _ in range(n)]
                    for i, g in enumerate(pts):
                        for i_ in {x[g] for x in img} if star else {g}:
                            gam[i_] = list(G[s, t, g])
                    for i in range(n):
                        for b in range(nb):
                            M[i * nb + b][i * nb + b] = M[i * nb + b][i * nb + b] + gam[i][b]
                else:
                    M = [[0] * size for _ in range(size)]
                    D = ctx.const(np.zeros((m, nb, 3, m, nb, 3)))
                    for i, j in np.ndindex(m, m):
                        for b, d in np.ndindex(nb, nb):
                            for x, y in np.ndindex(3, 3):
                                v = A[s, t, i, b, x, j, d, y]
                                if i == j and b == d:
                                    for q in range(nr):
                                        if img[q][pts[i]] == pts[i]:
                                            v = v + G[s, t, i, b] * float(rc[q][x, y])
                                D[i, b, x, j, d, y] = v * (wt[i] * wt[j])
                    for i, j in np.ndindex(m, m):
                        for b, d in np.ndindex(nb, nb):
                            si, sj = deg[pts[i]][b], deg[pts[j]][d]
                            for x, y in np.ndindex(3, 3):
                                v = sum((D[i, p, x, j, q, y] for p in si for q in sj), 0)
                                M[(i * nb + b) * 3 + x][(j * nb + d) * 3 + y] = v / (len(si) * len(sj))
                got = seen[s, t]
                for i in range(size):
                    for j in range(i, size):
                        e = (M[i][j] + M[j][i]) / 2
                        ctx.equal(got[i, j], e, "matrix handed to the solver", scale=10)
                        if i != j:
                            ctx.equal(got[j, i], e, "matrix handed to the solver", scale=10)
                # conductivity from the returned inverse
                P = seen[s, t, "P"]
                X = []
                full = range(n) if red else range(m)
                for i in full:
                    for b in range(nb):
                        if red:
                            g = w.star[i] if star else i
                            tr = [q for q in range(nr) if img[q][g] == i]
                            v = [0, 0, 0]
                            for q in tr:
                                for a in range(3):
                                    v[a] = v[a] + sum((w.grv[g, b, y] * float(rc[q][a, y]) for y in range(3)), 0)
                            v = [x / len(tr) for x in v]
                        else:
                            g = pts[i]
                            v = list(w.grv[g, b] * wt[i])
                        X.append(xvec(ctx, w, g, b, Ts[t], v))
                if red:
                    Y = [[sum((P[i, j] * X[j][a] for j in range(size)), 0) for a in range(3)] for i in range(size)]
                else:
                    fl = [x for v in X for x in v]
                    y = [sum((P[i, j] * fl[j] for j in range(size)), 0) for i in range(size)]
                    Y = [y[3 * i : 3 * i + 3] for i in range(size // 3)]
                tt = Ts[t] * Ts[t]
                tot = [0] * 6
                for i in range(len(full)):
                    for b in range(nb):
                        k = i * nb + b
                        g = i if red else pts[i]
                        for p, (a, d) in enumerate(VXV):
                            e = 0
                            if g != 0 or b >= 3:
                                for r in rc:
                                    xa, xd = rvec(r, X[k], a), rvec(r, X[k], d)
                                    ya, yd = rvec(r, Y[k], a), rvec(r, Y[k], d)
                                    e = e + xa * yd + ya * xd
                                e = e * c * tt / (nr if red else 1)
                            ctx.equal(lb.mode_kappa[s, t, i, b, p], e, "mode conductivity of the solution", scale=10)
                            tot[p] = tot[p] + lb.mode_kappa[s, t, i, b, p]
                for p in range(6):
                    ctx.equal(lb.kappa[s, t, p], tot[p] / n, "conductivity is the mean over the mesh", scale=10)

    return h


def blank(w, pts, G):
    """line widths are known at the irreducible points"""
    for g in range(w.n):
        if g not in pts:
            G[:, :, g] = 0


def rvec(r, v, a):
    t = 0
    for y in range(3):
        if abs(r[a, y]) > 1e-12 and not (isinstance(v[y], int) and v[y] == 0):
            t = t + v[y] * float(r[a, y])
    return t


def expand(ctx, A, pts, img, deg, star, n, nb):
    """rows at irreducible points, averaged over degenerate bands, copied to
    the other points by the rotations"""
    M = [[0] * (n * nb) for _ in range(n * nb)]
    if not star:
        for i, b, j, d in np.ndindex(n, nb, n, nb):
            M[i * nb + b][j * nb + d] = A[i, b, j, d]
        return M
    for g in pts:
        for b in range(nb):
            sb = deg[g][b]
            row = [[sum((A[g, p, j, d] for p in sb), 0) / len(sb) for d in range(nb)] for j in range(n)]
            for j in pts:
                o = list(row[j])
                for d in range(nb):
                    sd = deg[j][d]
                    row[j][d] = sum((o[q] for q in sd), 0) / len(sd)
            stab = [q for q in img if q[g] == g]
            for q in img:
                for j in range(n):
                    for d in range(nb):
                        x, y = q[g] * nb + b, q[j] * nb + d
                        M[x][y] = M[x][y] + row[j][d] / len(stab)
    return M


def rta(red, lat, mesh, T, **kw):
    """relaxation-time solution from the diagonal of the same matrix"""

    def h(ctx):
        mod, w, lb, Ts, pts = setup(ctx, lat, mesh, red, T, **kw)
        nb, n, m = w.nb, w.n, len(pts)
        rows = n if red else m
        G = ctx.reals("G", (1, len(Ts), rows, nb), lo=1e-3, hi=100)
        if red:
            blank(w, pts, G)
        lb.gamma = G.copy()
        for _ in lb:
            pass
        if red:
            # the diagonal part of the matrix itself
            A = ctx.const(np.zeros((1, len(Ts), n, nb, n, nb)))
            for t in range(len(Ts)):
                for g in pts:
                    for b in range(nb):
                        A[0, t, g, b, g, b] = ctx.real("A%d_%d_%d" % (t, g, b), lo=0, hi=1)
            lb.collision_matrix[:] = A
        mod.diagonalize_collision_matrix = lambda *a, **k: None
        lb.set_kappa_at_sigmas()
        ctx.reach("rta")
        ng = len(w.rcart)
        deg = {g: degs(ctx, w, g) for g in pts}
        c = ctx.num(conv(w.prim.volume)) * ctx.num(consts().Kb)
        for t in range(len(Ts)):
            tot = [0] * 6
            for i, g in enumerate(range(n) if red else pts):
                s = w.star[g]
                stab = sum(1 for r in w.rot if r[s] == s)
                for b in range(nb):
                    X = xvec(ctx, w, s, b, Ts[t], list(w.grv[s, b]))
                    d = G[0, t, s if red else i, b]
                    if red:
                        # mean over degenerate bands (off-diagonal part is zero)
                        sb = deg[s][b]
                        d = d + sum((A[0, t, s, q, s, q] for q in sb), 0) / len(sb) ** 2
                    for p, (a, e) in enumerate(VXV):
                        v = 0
                        if g != 0 or b >= 3:
                            for r in w.rcart:
                                v = v + rvec(r, X, a) * rvec(r, X, e) * 2
                            if red:
                                # velocities averaged over the stabilizer
                                v = 0
                                P = [[sum(float(w.rcart[q][x, y]) for q in range(ng) if w.rot[q][s] == s) / stab for y in range(3)] for x in range(3)]
                                Z = [rvec(np.array(P), X, x) for x in range(3)]
                                for r in w.rcart:
                                    v = v + rvec(r, Z, a) * rvec(r, Z, e) * 2
                                v = v / ng
                            else:
                                v = v / stab
                        else:
                            v = 0
                        v = v / d * c * Ts[t] * Ts[t]
                        ctx.equal(lb.mode_kappa_RTA[0, t, i, b, p], v, "mode conductivity in the relaxation-time approximation", scale=10)
                        tot[p] = tot[p] + lb.mode_kappa_RTA[0, t, i, b, p]
            for p in range(6):
                ctx.equal(lb.kappa_RTA[0, t, p], tot[p] / n, "mean over the mesh", scale=10)

    return h


def physical(w, seed=1):
    """symmetric positive matrix over all modes that commutes with the
    rotations: off-diagonal part A and line widths"""
    n, nb = w.n, w.nb
    val = {}
    k = seed
    A = np.zeros((n, nb, n, nb))
    for i, b, j, d in np.ndindex(n, nb, n, nb):
        if (i, b, j, d) in val:
            continue
        k = (k * 37 + 11) % 101
        v = k / 50.0 - 1
        st = [(i, b, j, d)]
        while st:
            e = st.pop()
            if e in val:
                continue
            val[e] = v
            i_, b_, j_, d_ = e
            st.append((j_, d_, i_, b_))
            st += [(r[i_], b_, r[j_], d_) for r in w.rot]
    for e, v in val.items():
        A[e] = v
    g = {}
    for i in range(n):
        for b in range(nb):
            g[i, b] = 12.0 + 1.5 * (w.star[i] % 5) + 2.25 * b
    return A, np.array([[g[i, b] for b in range(nb)] for i in range(n)])


def full(lat, mesh, solver, reds=(True, False), T=("s",), method=0, **kw):
    """both routes against the equation over all modes of the mesh"""

    def h(ctx):
        import scipy.linalg

        for red in reds:
            mod, w, lb, Ts, pts = setup(ctx, lat, mesh, red, T, solver=solver, method=method, **kw)
            nb, n, m = w.nb, w.n, len(pts)
            A, g = physical(w)
            size = n * nb
            if red:
                z = np.zeros((1, len(Ts), n, nb))
                z[:, :, pts] = g[pts]
                lb.gamma = ctx.const(z)
            else:
                lb.gamma = ctx.const(np.broadcast_to(g[pts], (1, len(Ts), m, nb)).copy())
            for _ in lb:
                pass
            if red:
                C = np.zeros((n, nb, n, nb))
                C[pts] = A[pts]
            else:
                C = np.zeros((m, nb, 3, m, nb, 3))
                for i, j in np.ndindex(m, m):
                    for q, r in enumerate(w.rcart):
                        C[i, :, :, j] += np.einsum("bd,xy->bxdy", A[pts[i], :, w.rot[q][pts[j]]], r)
            for t in range(len(Ts)):
                lb.collision_matrix[0, t] = ctx.const(C)
            lb.set_kappa_at_sigmas()
            ctx.reach("full")
            Om = A.reshape(size, size).copy() + np.diag(g.ravel())
            inv = np.linalg.inv(Om)
            # no acoustic modes at the zone centre in the sum
            c = ctx.num(conv(w.prim.volume)) * ctx.num(consts().Kb)
            ng = len(w.rcart)
            for t in range(len(Ts)):
                X = []
                for i in range(n):
                    s = w.star[i]
                    tr = [q for q in range(ng) if w.rot[q][s] == i]
                    P = sum(w.rcart[q] for q in tr) / len(tr)
                    for b in range(nb):
                        v = [rvec(P, w.grv[s, b], a) for a in range(3)]
                        X.append(xvec(ctx, w, s, b, Ts[t], v))
                Y = [[sum((X[j][a] * float(inv[i, j]) for j in range(size) if not isinstance(X[j][a], int)), 0) for a in range(3)] for i in range(size)]
                for p, (a, d) in enumerate(VXV):
                    tot = 0
                    for i in range(n):
                        for b in range(nb):
                            if i == 0 and b < 3:
                                continue
                            k = i * nb + b
                            tot = tot + X[k][a] * Y[k][d] + X[k][d] * Y[k][a]
                    ctx.equal(lb.kappa[0, t, p], tot * c * Ts[t] * Ts[t] / n, "conductivity of the equation over all modes", scale=100)

    return h


def eigen(method, lat="cubic", mesh=(2, 1, 1), T=("s",), **kw):
    """pseudo inverse from the eigen-solution"""

    def h(ctx):
        cutp = ctx.real("cutp", lo=1e-12, hi=1)
        mod, w, lb, Ts, pts = setup(ctx, lat, mesh, True, T, solver=3, method=method, cutp=cutp, **kw)
        nb, n = w.nb, w.n
        size = n * nb
        z = np.zeros((1, len(Ts), n, nb))
        z[:, :, pts] = 1
        lb.gamma = ctx.const(z)
        for _ in lb:
            pass
        wv = ctx.const(np.ones(size))
        for i in range(2):
            wv[i] = ctx.real("w%d" % i, lo=-10, hi=10)
        for i in range(2, size):
            wv[i] = ctx.const([2.0, 0.5, 4.0, -3.0][i % 4])
        V = ctx.reals("V", (size, size), lo=-1, hi=1)

        def diag(cm, i_sigma=None, i_temp=None, pinv_solver=0, log_level=0):
            cm[i_sigma, i_temp].reshape(size, size)[:, :] = V
            return wv

        mod.diagonalize_collision_matrix = diag
        lb.set_kappa_at_sigmas()
        ctx.reach("eigen")
        e = []
        for i in range(size):
            v = wv[i]
            if method == 0:
                on = ctx.branch(ctx.Or(v > cutp, -v > cutp))
            else:
                on = ctx.branch(v > cutp)
            e.append(1 / v if on else 0)
        ng = len(w.rcart)
        X = []
        for i in range(n):
            s = w.star[i]
            tr = [q for q in range(ng) if w.rot[q][s] == i]
            P = sum(w.rcart[q] for q in tr) / len(tr)
            for b in range(nb):
                X.append(xvec(ctx, w, s, b, Ts[0], [rvec(P, w.grv[s, b], a) for a in range(3)]))
        c = ctx.num(conv(w.prim.volume)) * ctx.num(consts().Kb)
        Z = [[0 if isinstance(e[l], int) else sum((V[j, l] * X[j][a] for j in range(size)), 0) * e[l] for a in range(3)] for l in range(size)]
        Y = [[sum((V[i, l] * Z[l][a] for l in range(size)), 0) for a in range(3)] for i in range(size)]
        for i in range(n):
            for b in range(nb):
                for p, (a, d) in enumerate(VXV):
                    v = 0
                    if i != 0 or b >= 3:
                        k = i * nb + b
                        for r in w.rcart:
                            v = v + rvec(r, X[k], a) * rvec(r, Y[k], d) + rvec(r, Y[k], a) * rvec(r, X[k], d)
                        v = v * c * Ts[0] * Ts[0] / ng
                    ctx.equal(lb.mode_kappa[0, 0, i, b, p], v, "conductivity from the eigen-solution", scale=10)

    return h


def d2(r):
    return abs(r[0, 0]) == 1 and abs(r[1, 1]) == 1


def inv_only(r):
    return abs(r[0, 0]) == 1 and (r == r[0, 0] * np.eye(3)).all()


DEG = [[0.0, 0.0, 0.0], [0.9, 0.9, 1.7], [0.8, 1.6, 1.6], [0.5, 1.1, 1.9]]
R = ("matrix",)
PROPS = {
    "C03": Prop(
        "C03",
        [
            Slice("ir-matrix", formula(False, "cubic", (2, 1, 1), ("s",), sub=d2, fsym=((1, 1),), vsym=((1, 0),)), bounds="2x1x1 orthorhombic group", reach=R),
            Slice("ir-degenerate", formula(False, "cubic", (2, 1, 1), ("s",), sub=d2, fsym=(), vsym=((1, 0),), fvals=DEG), bounds="degenerate bands", reach=R),
            Slice("ir-star", formula(False, "cubic", (3, 1, 1), ("s",), sub=inv_only, fsym=(), vsym=((1, 0),)), bounds="3x1x1, star of two", reach=R),
            Slice("ir-temps", formula(False, "cubic", (2, 1, 1), (0, "s"), nsig=2, sub=inv_only, fsym=(), vsym=((1, 0),)), bounds="0 K and one temperature, two widths", reach=R),
            Slice("red-matrix", formula(True, "cubic", (3, 1, 1), ("s",), sub=d2, fsym=((1, 1),), vsym=((1, 0),)), bounds="3x1x1, orthorhombic group", reach=R),
            Slice("red-degenerate", formula(True, "cubic", (3, 1, 1), ("s",), sub=inv_only, fsym=(), vsym=((1, 0),), fvals=DEG), bounds="degenerate bands", reach=R),
            Slice("red-degenerate-even", formula(True, "cubic", (2, 2, 1), ("s",), sub=inv_only, fsym=(), vsym=((1, 0),), fvals=DEG2), bounds="degenerate bands at a point whose two numbers differ", reach=R),
            Slice("red-nostar", formula(True, "cubic", (2, 1, 1), ("s",), sub=inv_only, fsym=(), vsym=((1, 0),), star=False), bounds="without symmetry", reach=R),
            Slice("rta-ir", rta(False, "cubic", (2, 2, 1), ("s",), sub=tetra, fsym=((1, 1),)), bounds="2x2x1", reach=("rta",)),
            Slice("rta-red", rta(True, "cubic", (3, 1, 1), ("s",), sub=d2, fsym=((1, 1),)), bounds="3x1x1", reach=("rta",)),
            Slice("full-pinv", full("cubic", (3, 1, 1), 7, sub=d2, fsym=(), vsym=((1, 0), (1, 1), (1, 2))), bounds="3x1x1, both routes", reach=("full",)),
            Slice("full-eigh", full("hex", (3, 3, 1), 3, reds=(False,), sub=None, fsym=(), vsym=((1, 0), (2, 1))), bounds="3x3x1 hexagonal", reach=("full",)),
            Slice("full-eigh-red", full("cubic", (2, 2, 1), 3, reds=(True,), sub=tetra, fsym=(), vsym=((1, 0), (2, 1))), bounds="2x2x1 tetragonal", reach=("full",)),
            Slice("full-scipy", full("cubic", (2, 2, 1), 4, sub=tetra, fsym=(), vsym=((1, 0),)), bounds="2x2x1", reach=("full",)),
            Slice("full-scipy-d", full("cubic", (2, 2, 1), 5, sub=tetra, fsym=(), vsym=((1, 0),)), bounds="2x2x1", reach=("full",)),
            Slice("full-default", full("cubic", (2, 1, 1), 0, sub=d2, fsym=(), vsym=((1, 0),)), bounds="2x1x1", reach=("full",)),
            Slice("eigen-abs", eigen(0, sub=d2, fsym=(), vsym=((1, 0),)), bounds="two arbitrary eigenvalues, arbitrary cutoff", reach=("eigen",)),
            Slice("eigen-signed", eigen(1, sub=d2, fsym=(), vsym=((1, 0),)), bounds="two arbitrary eigenvalues, arbitrary cutoff", reach=("eigen",)),
        ],
        modules=["phono3py.conductivity.direct_solution", "phono3py.conductivity.base", "phono3py.conductivity.utils", "phono3py.phonon3.collision_matrix", "phono3py.phonon3.imag_self_energy"],
        patch=PATCH,
        assumptions=["group velocities, line widths and collision-matrix elements arbitrary (formula slices); the routes are compared with the equation over all modes for one fixed matrix per mesh and arbitrary velocities and temperature"],
    ),
}
