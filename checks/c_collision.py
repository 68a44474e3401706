"""Low-memory ph-ph collision kernel against weights + interaction +
self-energy."""
import numpy as np
from .common import *
from .lattice import bzgrid
from .c_interaction import cxarr, dense, unit_vectors
from .c_selfenergy import unit_conv


def system(ctx, ng, npat, symf, freqs, ev, compact=False, nsat=None, sym_svec=False, fvary=()):
    s = Mock()
    nb = 3 * npat
    nsat = nsat or npat
    s.p2s = I64([i * (nsat // npat) for i in range(npat)])
    s.s2p = I64([s.p2s[J // (nsat // npat)] for J in range(nsat)])
    multi = np.zeros((nsat, npat, 2), dtype="int64")
    for n, (J, i) in enumerate(np.ndindex(nsat, npat)):
        multi[J, i] = [1, n]
    s.multi = multi
    s.svecs = ctx.const(np.array([[0.25 * ((x * 3 + y * 2) % 5 - 2) for y in range(3)] for x in range(nsat * npat)]))
    shape = (npat if compact else nsat, nsat, nsat, 3, 3, 3)
    c = np.array([((7 * x) % 11 - 5) / 4 for x in range(int(np.prod(shape)))]).reshape(shape)
    s.fc3 = ctx.const(c)
    for ix in symf:
        s.fc3[ix] = ctx.real("fc_" + "_".join(map(str, ix)))
    s.masses = ctx.const(np.arange(1, npat + 1) * 4.0)
    if freqs == "sym":
        s.freqs = ctx.reals("f", (ng, nb), lo=0.2, hi=30)
    else:
        s.freqs = ctx.const(np.array([[0.37 + 0.11 * ((g * 7) % 5) + 0.53 * b + 0.013 * g for b in range(nb)] for g in range(ng)]))
        for ix in fvary:
            s.freqs[ix] = ctx.real("f_%d_%d" % ix, lo=0.3, hi=1.2)
    s.ev = cxarr(ctx, [dense(nb, g) if ev == "dense" else unit_vectors(nb, g) for g in range(ng)])
    return s


def relate(sigma, npat=1, nsat=None, bi=(0, 1, 2), nT=2, NU=0, sym=0, r0=0, per=0, triplets=None, cutoff=None, fvary=(), freqs="c", symf=((0, 0, 0, 0, 1, 2),), ev="unit", compact=False, cut=0.1, mesh=(2, 2, 1), lat="tric", weights=None):
    """pp_collision == sum over triplets of imag_self_energy(interaction)"""

    def h(ctx):
        from phono3py.other.tetrahedron_method import get_tetrahedra_relative_grid_address as rel_

        bz = bzgrid(list(mesh), lattice=lat)
        ng = len(bz.addresses)
        trs = I64([[0, 1, 1], [0, 2, 2], [0, 3, 3]] if triplets is None else triplets)
        wt = I64([1, 2, 1, 4][: len(trs)] if weights is None else weights)
        s = system(ctx, ng, npat, symf, freqs, ev, compact, nsat, fvary=fvary)
        nb, nb0 = 3 * npat, len(bi)
        b = I64(bi)
        T = ctx.const(np.zeros(nT))
        for x in range(nT - 1):
            T[x] = ctx.real("T%d" % x, lo=1, hi=3000)
        short = np.zeros((npat, s.multi.shape[0], s.multi.shape[0]), dtype="byte")
        if r0:
            short[0, 0, 0] = 1
        c = ctx.const(cut)
        out = ctx.out(((2,) if NU else ()) + (nT, nb0))
        ctx.reach("collision")
        if sigma is None:
            with concrete():
                rel = rel_(bz.microzone_lattice)
            tet = np.array(np.dot(rel, bz.P.T), dtype="int64", order="C")
            ctx.call("pp_collision", out, tet, s.freqs, s.ev, trs, wt, bz.addresses, bz.gp_map, bz.store_dense_gp_map * 1 + 1, bz.D_diag, bz.Q, s.fc3, s.svecs, s.multi, s.masses, s.p2s, s.s2p, b, T, NU, sym, r0, short, c, per)
        else:
            sg = ctx.real("sigma", lo=0.01, hi=5) if sigma == "sym" else ctx.const(sigma)
            sc = ctx.const(-1.0) if cutoff is None else (ctx.real("cutoff", lo=0.1, hi=10) if cutoff == "sym" else ctx.const(cutoff))
            ctx.call("pp_collision_with_sigma", out, sg, sc, s.freqs, s.ev, trs, wt, bz.addresses, bz.D_diag, bz.Q, s.fc3, s.svecs, s.multi, s.masses, s.p2s, s.s2p, b, T, NU, sym, r0, short, c, per)
        # the same through the separate kernels
        nt = len(trs)
        g = ctx.out((2, nt, nb0, nb, nb))
        gz = ctx.out((nt, nb0, nb, nb), "byte")
        fp = ctx.const(np.zeros(nb0))
        for x in range(nb0):
            fp[x] = s.freqs[int(trs[0, 0]), int(b[x])]
        if sigma is None:
            ctx.call("triplets_integration_weights", g, gz, fp, tet, bz.D_diag, trs, s.freqs, s.freqs, bz.addresses, bz.gp_map, bz.store_dense_gp_map * 1 + 1, 2)
        else:
            ctx.call("triplets_integration_weights_with_sigma", g, gz, fp, trs, s.freqs, sg, sc)
        st = ctx.const(np.zeros((nt, nb0, nb, nb)))
        ctx.call("interaction", st, gz, s.freqs, s.ev, trs, bz.addresses, bz.D_diag, bz.Q, s.fc3, s.svecs, s.multi, s.masses, s.p2s, s.s2p, b, sym, r0, short, c, 0)
        for t in range(nT):
            parts = {0: [], 1: [], 2: []}
            for i in range(nt):
                isN = (bz.addresses[trs[i]].sum(axis=0) == 0).all()
                parts[2 if not NU else (0 if isN else 1)].append(i)
            for key, ids in parts.items():
                if not ids and (key == 2) == bool(NU):
                    continue
                mask = np.zeros(nt, dtype="int64")
                mask[ids] = 1
                ref = ctx.out((nb0,))
                ctx.call("imag_self_energy_with_g", ref, st, trs, wt * mask, s.freqs, T[t], g, gz, c, -1)
                for j in range(nb0):
                    got = out[t, j] if not NU else out[key, t, j]
                    ctx.equal(got, ref[j], "collision of a band and temperature", scale=1e-9)

    return h


R = ("collision",)
PROPS = {
    "S05": Prop(
        "S05",
        [
            Slice("sigma", relate("sym", freqs="sym", triplets=[[0, 1, 1], [0, 2, 2]], bi=(1,), nT=2), bounds="2 triplets, 1 of 3 bands; all frequencies, widths, temperatures", reach=R),
            Slice("sigma-cutoff", relate("sym", cutoff="sym", freqs="c", fvary=((1, 0),), triplets=[[0, 1, 2]], bi=(2, 0)), bounds="with cutoff, one frequency", reach=R),
            Slice("sigma-NU", relate("sym", freqs="c", NU=1, bi=(0, 2), fvary=((1, 1), (3, 0)), per=1, triplets=[[0, 1, 2], [0, 3, 3], [0, 0, 0]]), bounds="N and U parts, 3 triplets", reach=R),
            Slice("sigma-sym", relate(0.5, freqs="c", sym=1, bi=(1, 2), fvary=((2, 0),), triplets=[[0, 1, 2]], ev="dense"), bounds="exchange symmetrization", reach=R),
            Slice("thm", relate(None, fvary=((1, 0),), triplets=[[0, 2, 2]], bi=(2,), weights=[2]), bounds="tetrahedra, one frequency", reach=R),
            Slice("thm-two", relate(None, fvary=((1, 0),), triplets=[[0, 1, 1], [0, 2, 2]], bi=(0, 2)), bounds="tetrahedra, one frequency, two triplets", reach=R, tier="thorough", time=600),
            Slice("thm-NU", relate(None, NU=1, triplets=[[0, 1, 1], [0, 2, 2], [0, 3, 3], [0, 0, 0]], bi=(1,), per=1, nT=3), bounds="N and U parts; 4 triplets", reach=R),
            Slice("thm-r0", relate(None, r0=1, sym=1, triplets=[[1, 2, 3]], bi=(2, 1), ev="dense"), bounds="both averages", reach=R),
            Slice("thm-two-atoms", relate(None, npat=2, nsat=4, compact=True, triplets=[[0, 2, 2]], bi=(3,), nT=2, symf=((0, 1, 2, 0, 1, 2), (1, 3, 3, 0, 1, 0))), bounds="2 atoms, compact fc3", reach=R),
        ],
        assumptions=["weights, interaction and self-energy kernels: S01, W02, W03, I01"],
    ),
}
