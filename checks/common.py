"""Shared pieces of the harnesses."""
import numpy as np

from engine.runner import Slice, Prop, HarnessError, Missing
from engine.pyshim import concrete

THZ_TO_EV = 4.1356674623646574e-3  # phonopy units (checked against phonopy)
KB_EV = 8.6173382568083159e-05
K = 47.992398658977166  # THzToEv / Kb as compiled into c/funcs.c


def L(x):
    """literal for arithmetic with terms"""
    return x


class Mock:
    """Stand-in object; touching anything it does not define is a harness
    limit, not a finding."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise HarnessError("mock has no attribute " + n)


def bose(ctx, f, T):
    """1/(exp(K f/T) - 1); zero at T = 0"""
    if not hasattr(T, "op") and float(T) == 0:
        return 0
    return 1 / (ctx.fn("exp", ctx.num(K) * f / T) - 1)


def inv_sinh(ctx, f, T):
    return 1 / ctx.fn("sinh", ctx.num(K) * f / (2 * T))


def fresh(ctx, a):
    """copy as a mutable output/input array"""
    return a.copy()


def I64(x):
    return np.array(x, dtype="int64", order="C")


def averaged(ctx, vals, band_indices, freqs, cutoff=1e-4):
    """average over degenerate bands: i ~ j iff chained |f_i-f_j| < cutoff in
    the order of phonopy's degenerate_sets (first member first)."""
    n = len(freqs)
    done = set()
    sets = []
    for i in range(n):
        if i in done:
            continue
        s = [i]
        done.add(i)
        for j in range(i + 1, n):
            hit = False
            for k in s:
                d = freqs[k] - freqs[j]
                if ctx.branch(ctx.And(d < ctx.num(cutoff), -d < ctx.num(cutoff))):
                    hit = True
                    break
            if hit:
                s.append(j)
                done.add(j)
        sets.append(s)
    out = list(vals)
    for s in sets:
        idx = [i for i, b in enumerate(band_indices) if b in s]
        for i in idx:
            t = 0
            for k in idx:
                t = t + vals[k]
            out[i] = t / len(idx)
    return out
