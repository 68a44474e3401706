"""Parallel loops of the C kernels: every schedule gives one result; all
accesses stay inside live, initialised memory that is released."""
from run import props

from .common import *

# harnesses of other properties that reach the parallel loops
RACE = {
    "S01": ("freq-points", "freq-points-T0", "bands-2triplets", "bands-class1", "freq-points-gzero"),
    "S02": ("detailed-freqpts", "detailed-2triplets"),
    "S03": ("bands", "bands-3", "freq", "bands-0K"),
    "S05": ("sigma", "sigma-NU", "thm-NU", "thm-two-atoms", "thm-r0"),
    "I01": ("driver-gzero", "masses-bands", "phase-full", "phase-umklapp", "eigvec1", "point-twice"),
    "I02": ("r0", "r0-dense"),
    "X01": ("sigma", "sigma-zero", "thm", "thm-two-atoms", "zero-frequency"),
    "C01": ("ir", "ir-hex", "reducible-hex", "reducible-low"),
    "C02": ("symmetrize-ir", "symmetrize-full", "expand-cubic", "expand-bands"),
    "P01": ("full", "hexagonal", "triclinic", "wang", "wang-direction", "gonze", "gonze-direction"),
    "T01": ("tric-sparse", "grg-sparse", "hex-sparse"),
    "J01": ("api", "api-T", "smeared-T", "unweighted"),
    "W01": ("ir-map-dense", "ir-map-sparse"),
    "W03": ("sigma2", "sigma3", "sigma3-cutoff"),
    "F01": ("full",),
    "K02": ("total",),
}


MEMORY = {
    "C01": ("reducible-low", "reducible-hex", "ir-hex", "ir", "reducible"),
    "C02": ("symmetrize-ir", "symmetrize-full", "expand-cubic", "expand-bands", "expand-rot3"),
    "C03": ("red-degenerate", "full-pinv", "full-scipy"),
    "F01": ("compact-c2", "compact-tri2", "compact-c4", "full"),
    "F02": ("transpose2-h3", "transpose2-c3", "transpose2-c4"),
    "F05": ("dia-compact", "c3", "pol", "wz-cutoff"),
    "G01": ("index",),
    "G02": ("snf-lower", "snf-diag-noforce", "snf-fcc"),
    "G05": ("shift-tric2", "shift-tric", "shift-hex"),
    "H03": ("detail-grg",),
    "I01": ("driver-gzero", "masses-bands", "phase-full", "phase-umklapp", "eigvec1", "point-twice"),
    "I02": ("sym-r0", "r0-dense", "r0"),
    "J01": ("temperature-0", "temperature-nosym", "smeared-T"),
    "P01": ("gonze", "gonze-direction", "wang", "wang-direction", "triclinic"),
    "S01": ("freq-points", "freq-points-T0", "bands-2triplets", "freq-points-gzero"),
    "S02": ("detailed-freqpts", "detailed-2triplets"),
    "S03": ("bands-3", "bands", "freq", "freq-0K", "loop-bands", "loop-freq"),
    "S04": ("freq-default", "bands-detail", "freq-batch1-detail"),
    "S05": ("thm-NU", "thm-r0", "thm-two-atoms", "sigma-NU", "sigma-sym", "sigma"),
    "T01": ("grg-sparse", "grg", "tric-sparse"),
    "W01": ("ir-map-sparse", "ir-map-dense", "vertex", "J-order1", "I-order1", "J-order3", "J-order2", "I-every-tetrahedron", "I-order2", "J-order0", "neighbour-tric-sparse", "neighbour-cubic-sparse"),
    "W02": ("type2",),
    "W03": ("sigma2", "sigma3", "sigma3-cutoff"),
    "X01": ("api", "thm-two-atoms", "thm", "sigma", "sigma-zero"),
}


def muted(fn, kind):
    """the harness without its own assertions: what is left are those of the
    memory and thread model around the calls into the kernels"""

    def nothing(*a, **k):
        return None

    def h(ctx):
        om = None
        calls = [0]
        if ctx.symbolic:
            m = ctx.opts["machine"]
            om = getattr(m, "omp", None)
            if om is not None:
                om.regions = {}
                om.cells = 0
        call, reach = ctx.call, ctx.reach

        def counted(*a):
            calls[0] += 1
            return call(*a)

        ctx.call = counted
        ctx.check = ctx.equal = ctx.reach = nothing
        try:
            fn(ctx)
        finally:
            ctx.call, ctx.reach = call, reach
        if not ctx.symbolic:
            ctx.reach("run")
            return
        if kind == "memory":
            ctx.stats.asserts += calls[0]
            if calls[0]:
                ctx.reach("run")
            return
        ctx.stats.asserts += om.cells + len(om.regions)
        if any(n > 1 for n in om.regions.values()):
            ctx.reach("run")

    return h


def collect(table, kind):
    out, mods, patch = [], [], []
    for pid in sorted(table):
        p = props(pid)
        by = {s.name: s for s in p.slices}
        for n in table[pid]:
            s = by[n]
            out.append(Slice("%s-%s" % (pid, n), muted(s.fn, kind), reach=("run",), time=s.time, bounds=s.bounds, **s.opts))
        mods += [x for x in p.modules if x not in mods]
        patch += [x for x in p.patch if x not in patch]
    return out, mods, patch


def q01():
    sl, mods, patch = collect(RACE, "race")
    return Prop(
        "Q01",
        sl,
        modules=mods,
        patch=tuple(patch),
        openmp=True,
        functions=["every outlined parallel loop listed by the slices"],
        assumptions=["a parallel loop gives one result on every schedule when no two of its iterations touch one cell with a write outside of reductions and critical sections"],
    )


def m01():
    sl, mods, patch = collect(MEMORY, "memory")
    return Prop(
        "M01",
        sl,
        modules=mods,
        patch=tuple(patch),
        openmp=True,
        memory=True,
        leaks=True,
        functions=["every C function entered by the slices"],
        assumptions=["array arguments are as large as the Python callers make them; overflow of the C stack is decided in the interpreter only"],
    )


PROPS = {"Q01": q01, "M01": m01}
