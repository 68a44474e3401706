"""Bridges numpy arrays to the symbolic machine and to the native library."""
import ctypes
import os
import re
import numpy as np

from . import expr as X
from .expr import E, Cx, Unsupported
from .llvm import Machine, Obj, Ptr, UNDEF, MemError
from . import build, omp
from .paths import SymArr, ReplayFail


class NotRegistered(Exception):
    pass


def demangle_args(sym):
    """Argument kinds from the Itanium mangling of a py_* glue function:
    'a' ndarray, 'l' int64, 'd' double, 's' const char*."""
    m = re.match(r"_Z(\d+)", sym)
    n = int(m.group(1))
    rest = sym[m.end() + n:]
    out = []
    i = 0
    while i < len(rest):
        if rest.startswith("N8nanobind7ndarrayIJEEE", i):
            out.append("a")
            i += len("N8nanobind7ndarrayIJEEE")
        elif rest[i] == "S":
            j = rest.index("_", i)
            tok = rest[i:j + 1]
            # S_ nanobind, S0_ ndarray, S1_ ndarray<>
            out.append("a" if tok == "S1_" else "?")
            i = j + 1
        elif rest.startswith("PKc", i):
            out.append("s")
            i += 3
        elif rest[i] in "lxmij":
            out.append("l")
            i += 1
        elif rest[i] == "b":
            out.append("l")
            i += 1
        elif rest[i] == "d":
            out.append("d")
            i += 1
        elif rest[i] == "v":
            i += 1
        else:
            raise Unsupported("mangled name " + sym)
    return out


def _offsets(a):
    """Element offsets (in elements) of a dense non-negative-stride array."""
    if a.flags.c_contiguous:
        return None
    st = [s // a.itemsize for s in a.strides]
    if any(s < 0 for s in st):
        raise Unsupported("negative strides")
    offs = np.zeros(a.shape, dtype=int)
    for d, s in enumerate(st):
        sh = [1] * a.ndim
        sh[d] = a.shape[d]
        offs = offs + (np.arange(a.shape[d]) * s).reshape(sh)
    return offs.ravel()


class SymBackend:
    def __init__(self, machine):
        self.m = machine
        for n in list(machine.mod.functions):
            if n.startswith("vnb_init_"):
                machine.call(n)
        self.args = {k: demangle_args(v) for k, v in machine.registry.items()}
        self.check_leaks = False
        self.ret = {}

    def marshal(self, a, name):
        m = self.m
        if a.dtype == object:
            cplx = any(isinstance(x, (Cx, complex)) for x in a.ravel())
            if not cplx and getattr(a, "is_cx", False):
                cplx = all(x is None for x in a.ravel())
            esz = getattr(a, "esz", 8)
        else:
            k = a.dtype.kind
            cplx = k == "c"
            esz = 8 if cplx else a.dtype.itemsize
            if k == "f" and a.dtype.itemsize != 8:
                raise Unsupported("float32 array")
        n = a.size
        step = 16 if cplx else esz
        o = Obj(name, n * step, "arg", esz)
        offs = _offsets(a)
        flat = a.ravel()
        c = o.c
        for i in range(n):
            off = (i if offs is None else int(offs[i])) * step
            v = flat[i]
            if cplx:
                v = Cx.of(v)
                c[off] = v.re
                c[off + 8] = v.im
            elif v is None:
                continue  # uninitialised
            elif isinstance(v, E):
                if v.sort == "B":
                    v = X.ite(v, 1, 0)
                c[off] = v
            else:
                c[off] = X.num(v)
        o.tag = (a, cplx, offs, step)
        return o

    def unmarshal(self, o):
        a, cplx, offs, step = o.tag
        n = a.size
        c = o.c
        conc = a.dtype != object
        idx = list(np.ndindex(*a.shape))
        zero = o.zero
        for i in range(n):
            off = (i if offs is None else int(offs[i])) * step
            v = c.get(off)
            if v is None:
                if zero and any(s <= off < e for s, e in zero):
                    v = 0
                else:
                    continue
            if cplx:
                w = c.get(off + 8)
                if w is None:
                    w = 0
                if conc:
                    if isinstance(v, E) or isinstance(w, E):
                        raise Unsupported("symbolic value stored into a concrete array")
                    a[idx[i]] = complex(float(v), float(w))
                else:
                    a[idx[i]] = Cx(v, w)
                continue
            if v is UNDEF:
                raise MemError("uninitialised value stored to output %s" % o.name)
            if conc:
                if isinstance(v, E):
                    if v.sort == "I" or v.sort == "B":
                        v = X.CTX[0].concretize(v)
                    else:
                        raise Unsupported("symbolic value stored into a concrete array (%s)" % o.name)
                elif a.dtype.kind == "f":
                    v = float(v)
                if a[idx[i]] != v:
                    a[idx[i]] = v
            else:
                a[idx[i]] = v

    def call(self, ctx, name, *args):
        sym = self.m.registry.get(name)
        if sym is None:
            raise NotRegistered(name)
        kinds = self.args[name]
        if len(kinds) != len(args):
            raise TypeError("%s takes %d arguments, %d given" % (name, len(kinds), len(args)))
        vals = []
        objs = []
        seen = {}
        for i, (k, a) in enumerate(zip(kinds, args)):
            if k == "a":
                if not isinstance(a, np.ndarray):
                    raise TypeError("%s: argument %d must be an array" % (name, i))
                key = id(a)
                if key in seen:
                    o = seen[key]
                else:
                    o = self.marshal(a, "%s.arg%d" % (name, i))
                    seen[key] = o
                    objs.append(o)
                h = Obj("nd%d" % i, 96, "stack", 8)
                h.c[0] = Ptr(o, 0)
                h.c[8] = a.ndim
                for d in range(a.ndim):
                    h.c[16 + 8 * d] = int(a.shape[d])
                vals.append(Ptr(h, 0))
            elif k == "l":
                if isinstance(a, (bool, np.bool_)):
                    a = int(a)
                if isinstance(a, (float, np.floating)) :
                    raise TypeError("%s: argument %d must be an integer" % (name, i))
                vals.append(a if isinstance(a, E) else int(a))
            elif k == "d":
                vals.append(a if isinstance(a, E) else X.num(a))
            elif k == "s":
                o = Obj("str", len(a) + 1, "arg", 1)
                for j, ch in enumerate(a.encode() + b"\0"):
                    o.c[j] = ch
                vals.append(Ptr(o, 0))
            else:
                raise Unsupported("argument kind")
        nheap = len(self.m.heap)
        r = self.m.call(sym, *vals)
        for o in objs:
            self.unmarshal(o)
        if self.check_leaks:
            for o in self.m.heap[nheap:]:
                if not o.freed:
                    raise MemError("memory leak: %s never freed in %s" % (o.name, name))
        return r


class _ND(ctypes.Structure):
    _fields_ = [("d", ctypes.c_void_p), ("ndim", ctypes.c_int64), ("sh", ctypes.c_int64 * 10)]


class NativeBackend:
    def __init__(self, so, registry, rettypes):
        self.lib = ctypes.CDLL(so)
        self.lib.vnb_get.restype = ctypes.c_void_p
        self.lib.vnb_get.argtypes = [ctypes.c_char_p]
        for n in ("_phono3py", "_recgrid", "_phononcalc"):
            try:
                getattr(self.lib, "vnb_init_" + n)()
            except AttributeError:
                pass
        self.memory = False
        self.races = hasattr(self.lib, "vnb_omp_races")
        if self.races:
            self.lib.vnb_omp_text.restype = ctypes.c_char_p
            self.lib.vnb_omp_arg.restype = ctypes.c_void_p
        self.reg = registry
        self.rett = rettypes
        self.args = {k: demangle_args(v) for k, v in registry.items()}

    def call(self, ctx, name, *args):
        p = self.lib.vnb_get(name.encode())
        if not p:
            raise NotRegistered(name)
        kinds = self.args[name]
        if len(kinds) != len(args):
            raise TypeError("%s takes %d arguments, %d given" % (name, len(kinds), len(args)))
        at, av, keep = [], [], []
        for i, (k, a) in enumerate(zip(kinds, args)):
            if k == "a":
                if not isinstance(a, np.ndarray):
                    raise TypeError("array expected")
                nd = _ND()
                nd.d = a.ctypes.data
                nd.ndim = a.ndim
                for d in range(a.ndim):
                    nd.sh[d] = a.shape[d]
                keep.append(a)
                at.append(_ND)
                av.append(nd)
            elif k == "l":
                at.append(ctypes.c_int64)
                av.append(int(a))
            elif k == "d":
                at.append(ctypes.c_double)
                av.append(float(a))
            else:
                at.append(ctypes.c_char_p)
                av.append(a.encode())
        rt = {"i64": ctypes.c_int64, "double": ctypes.c_double, "i1": ctypes.c_bool, "void": None}.get(self.rett.get(name), ctypes.c_int64)
        f = ctypes.CFUNCTYPE(rt, *at)(p)
        if not self.races:
            return f(*av)
        lib = self.lib
        lib.vnb_omp_reset()
        lib.vnb_omp_mode(2 if self.memory else 1)
        copies = {}
        if self.memory:
            for a in args:
                if isinstance(a, np.ndarray) and id(a) not in copies:
                    n = self._span(a)
                    copies[id(a)] = (a, lib.vnb_omp_arg(ctypes.c_void_p(a.ctypes.data), ctypes.c_size_t(n)), n)
            for a, v in zip(args, av):
                if isinstance(v, _ND):
                    v.d = copies[id(a)][1]
        r = f(*av)
        for a, p, n in copies.values():
            ctypes.memmove(a.ctypes.data, p, n)
        if lib.vnb_omp_races():
            raise ReplayFail("memory" if self.memory else "data race", lib.vnb_omp_text().decode())
        if self.memory and lib.vnb_omp_live() > 0:
            raise ReplayFail("memory", "%d blocks never freed" % lib.vnb_omp_live())
        return r

    @staticmethod
    def _span(a):
        return a.itemsize + sum((n - 1) * s for n, s in zip(a.shape, a.strides)) if a.size else 0


class Toolchain:
    """Everything a check needs, built once per run from /repo."""

    def __init__(self, openmp=False, leaks=False, memory=False):
        self.dir = build.scratch()
        self.text = build.build_ir(self.dir, openmp=openmp)
        self.machine = Machine(self.text)
        self.openmp = openmp
        if openmp:
            omp.Omp(self.machine).race = not memory
        self.memory = memory
        self.sym = SymBackend(self.machine)
        self.sym.check_leaks = leaks
        self._native = None

    @property
    def native(self):
        if self._native is None:
            so = build.build_so(self.dir) if not self.openmp else build.build_omp_so(self.dir)
            rett = {k: self.machine.mod.functions[v].ret for k, v in self.machine.registry.items()}
            self._native = NativeBackend(so, self.machine.registry, rett)
            self._native.memory = self.memory
        return self._native
