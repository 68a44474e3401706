"""LLVM IR (textual) -> Python transpiler and symbolic memory model.

Every defined function of the module becomes a Python function over exact
numbers / symbolic terms; control flow on symbolic conditions consults the
active path context.
"""
import re
from fractions import Fraction
import struct as _struct
import math

from . import expr as X
from .expr import E, Unsupported


class MemError(Exception):
    """Memory-safety violation in the code under test."""


class AssertFail(Exception):
    """A C assert() of the code under test failed."""


class Undef:
    def __repr__(self):
        return "undef"

    def _bad(self, *a):
        raise MemError("use of an uninitialised value")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _bad
    __lt__ = __gt__ = __le__ = __ge__ = __bool__ = __neg__ = __truediv__ = _bad
    __rtruediv__ = __index__ = __int__ = _bad

    def __eq__(self, o):
        if o is self:
            return True
        self._bad()

    def __ne__(self, o):
        if o is self:
            return False
        self._bad()

    __hash__ = object.__hash__


UNDEF = Undef()


class Obj:
    __slots__ = ("name", "size", "c", "esz", "zero", "kind", "freed", "ro", "tag", "base")
    _n = [0]

    def __init__(self, name, size, kind, esz=0):
        self.name = name
        self.size = size
        self.c = {}
        self.esz = esz
        self.zero = None
        self.kind = kind
        self.freed = False
        self.ro = False
        self.tag = None
        Obj._n[0] += 1
        self.base = Obj._n[0]


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __repr__(self):
        return "<%s+%s>" % (self.o.name, self.off)

    def __bool__(self):
        return True


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Hooks:
    on_read = None
    on_write = None


def _resolve_sym(p, sz, write):
    """Candidate offsets for a symbolic offset access."""
    ctx = X.CTX[0]
    if ctx is None:
        raise Unsupported("symbolic address outside a path")
    return ctx.concretize(p.off)


def _oob(o, off, sz):
    raise MemError("access of %d bytes at offset %s of %s (size %s)" % (sz, off, o.name, o.size))


class Machine:
    """Executes transpiled functions."""

    def __init__(self, text):
        self.mod = Module(text)
        self.globals = {}
        self.fns = {}
        self.ext = dict(EXTERNALS)
        self.hooks_read = None
        self.hooks_write = None
        self.heap = []
        self.registry = {}
        self.calls = {}
        self.track_calls = False
        self.env = None
        self.omp = None
        self._build_env()
        self._transpiled = {}

    # memory ------------------------------------------------------------
    def alloc(self, size, kind, name, esz=0):
        if isinstance(size, E):
            size = X.CTX[0].concretize(size)
        o = Obj(name, size, kind, esz)
        if kind == "heap":
            self.heap.append(o)
        return Ptr(o, 0)

    def ld(self, p, sz):
        if p.__class__ is not Ptr:
            if p is UNDEF:
                raise MemError("load through an uninitialised pointer")
            raise MemError("load through a null pointer")
        o = p.o
        off = p.off
        if off.__class__ is E:
            off = self._symoff(p, sz, False)
            if off.__class__ is tuple:
                return off[0]
        if o.freed:
            raise MemError("read of freed object %s" % o.name)
        v = o.c.get(off)
        if v is None:
            if off < 0 or off + sz > o.size:
                _oob(o, off, sz)
            z = o.zero
            if z is not None:
                for a, b in z:
                    if a <= off and off + sz <= b:
                        v = 0
                        break
            if v is None:
                if o.kind == "lazy":
                    v = o.tag(off, sz)
                    o.c[off] = 0 if v is None else v
                else:
                    if self.hooks_read is not None:
                        self.hooks_read(o, off, sz)
                    return UNDEF
        if o.esz != sz:
            self._szcheck(o, off, sz)
        if self.hooks_read is not None:
            self.hooks_read(o, off, sz)
        return v

    def _szcheck(self, o, off, sz):
        if o.esz == 0:
            o.esz = sz
            return
        # mixed-size object: only exact re-reads of the same cell are modelled
        if o.c and o.kind == "arg":
            raise MemError("%d-byte access to %s whose elements have %d bytes" % (sz, o.name, o.esz))

    def st(self, p, v, sz):
        if p.__class__ is not Ptr:
            raise MemError("store through a null or uninitialised pointer")
        o = p.o
        off = p.off
        if off.__class__ is E:
            off = self._symoff(p, sz, True, v)
            if off is None:
                return
        if off < 0 or off + sz > o.size:
            _oob(o, off, sz)
        if o.freed:
            raise MemError("write to freed object %s" % o.name)
        if o.ro:
            raise MemError("write to read-only object %s" % o.name)
        if o.esz != sz:
            self._szcheck(o, off, sz)
        o.c[off] = 0 if v is None else v
        if self.hooks_write is not None:
            self.hooks_write(o, off, sz)

    def _symoff(self, p, sz, write, v=None):
        ctx = X.CTX[0]
        if ctx is None:
            raise Unsupported("symbolic address outside a path")
        o = p.o
        off = p.off
        # bounds
        bad = X.bor(X.lt(off, 0), X.lt(o.size - sz, off))
        if bad is True or (isinstance(bad, E) and ctx.branch(bad)):
            raise MemError("symbolic access out of bounds of %s (size %s)" % (o.name, o.size))
        if ctx.ite_mem and not (self.hooks_read or self.hooks_write):
            cand = ctx.candidates(off, 0, o.size - sz, sz)
            if cand is not None and len(cand) <= ctx.ite_mem:
                if len(cand) == 1:
                    return cand[0]
                if not write:
                    vals = [self.ld(Ptr(o, c), sz) for c in cand]
                    if all(not isinstance(x, (Ptr, Undef)) and x is not None for x in vals):
                        r = vals[-1]
                        for c, x in zip(cand[-2::-1], vals[-2::-1]):
                            r = X.ite(X.eq(off, c), x, r)
                        return (r,)
                else:
                    olds = [self.ld(Ptr(o, c), sz) for c in cand]
                    if all(not isinstance(x, (Ptr, Undef)) for x in olds) and not isinstance(v, (Ptr, Undef)):
                        for c, x in zip(cand, olds):
                            o.c[c] = X.ite(X.eq(off, c), v, x)
                        return None
        return ctx.concretize(off)

    def gep(self, p, off):
        if p.__class__ is not Ptr:
            if off.__class__ is int and off == 0:
                return p
            if p is None:
                # arithmetic on a null pointer: only an error when accessed
                return None
            raise MemError("pointer arithmetic on an invalid pointer")
        return Ptr(p.o, p.off + off)

    def memset(self, p, val, n):
        if isinstance(n, E):
            n = X.CTX[0].concretize(n)
        if n == 0:
            return
        if val != 0:
            raise Unsupported("memset with nonzero value")
        if p.__class__ is not Ptr:
            raise MemError("memset through an invalid pointer")
        o, off = p.o, p.off
        if isinstance(off, E):
            off = X.CTX[0].concretize(off)
        if off < 0 or off + n > o.size:
            _oob(o, off, n)
        for k in [k for k in o.c if off <= k < off + n]:
            del o.c[k]
        o.zero = (o.zero or []) + [(off, off + n)]
        if self.hooks_write is not None:
            self.hooks_write(o, off, n)

    def memcpy(self, d, s, n):
        if isinstance(n, E):
            n = X.CTX[0].concretize(n)
        if n == 0:
            return
        if d.__class__ is not Ptr or s.__class__ is not Ptr:
            raise MemError("memcpy through an invalid pointer")
        so, sf, do, df = s.o, s.off, d.o, d.off
        if isinstance(sf, E):
            sf = X.CTX[0].concretize(sf)
        if isinstance(df, E):
            df = X.CTX[0].concretize(df)
        if sf < 0 or sf + n > so.size:
            _oob(so, sf, n)
        if df < 0 or df + n > do.size:
            _oob(do, df, n)
        if so.freed or do.freed:
            raise MemError("memcpy on a freed object")
        moved = {df + (k - sf): v for k, v in so.c.items() if sf <= k < sf + n}
        zr = []
        if so.zero:
            for a, b in so.zero:
                a2, b2 = max(a, sf), min(b, sf + n)
                if a2 < b2:
                    zr.append((a2 - sf + df, b2 - sf + df))
        for k in [k for k in do.c if df <= k < df + n]:
            del do.c[k]
        if do.zero:
            nz = []
            for a, b in do.zero:
                if b <= df or a >= df + n:
                    nz.append((a, b))
                else:
                    if a < df:
                        nz.append((a, df))
                    if b > df + n:
                        nz.append((df + n, b))
            do.zero = nz
        do.zero = (do.zero or []) + zr
        do.c.update(moved)
        if do.esz == 0:
            do.esz = so.esz
        if self.hooks_write is not None:
            self.hooks_write(do, df, n)
        if self.hooks_read is not None:
            self.hooks_read(so, sf, n)

    def free(self, p):
        if p is None or p == 0:
            return
        if p.__class__ is not Ptr:
            raise MemError("free of an uninitialised pointer")
        if p.off != 0 or p.o.kind != "heap":
            raise MemError("free of a pointer that was not allocated")
        if p.o.freed:
            raise MemError("double free of %s" % p.o.name)
        p.o.freed = True

    # calls ---------------------------------------------------------------
    def call(self, name, *args):
        f = self.fns.get(name)
        if f is None:
            f = self.get(name)
        return f(*args)

    def get(self, name):
        f = self.ext.get(name)
        if f is not None:
            g = lambda *a, _f=f: _f(self, *a)
            self.fns[name] = g
            return g
        fd = self.mod.functions.get(name)
        if fd is None:
            raise Unsupported("external function " + name)
        src = transpile(fd, self.mod)
        code = compile(src, "<ir:%s>" % name, "exec")
        ns = dict(self.env)
        exec(code, ns)
        f = ns["fn"]
        if self.track_calls:
            g0 = f

            def f(*a, _n=name, _g=g0):
                self.calls[_n] = self.calls.get(_n, 0) + 1
                return _g(*a)

        self.fns[name] = f
        return f

    def icall(self, p, *args):
        if isinstance(p, FnPtr):
            return self.call(p.name, *args)
        raise Unsupported("indirect call")

    def gaddr(self, name):
        o = self.globals.get(name)
        if o is None:
            if name in self.mod.functions or name in self.mod.decls:
                return FnPtr(name)
            g = self.mod.globals.get(name)
            if g is None:
                raise Unsupported("global " + name)
            ty, init, const = g
            o = Obj("@" + name, self.mod.sizeof(ty), "global")
            if init is not None:
                self._init(o, 0, ty, init)
            o.ro = const
            self.globals[name] = o
        return Ptr(o, 0)

    def _init(self, o, off, ty, v):
        if v == "zero":
            o.zero = (o.zero or []) + [(off, off + self.mod.sizeof(ty))]
            return
        if v == "undef":
            return
        if isinstance(v, list):
            if ty[0] == "arr":
                es = self.mod.sizeof(ty[2])
                for i, (t, x) in enumerate(v):
                    self._init(o, off + i * es, t, x)
            else:
                offs = self.mod.offsets(ty)
                for (t, x), f in zip(v, offs):
                    self._init(o, off + f, t, x)
            return
        o.c[off] = v if not isinstance(v, tuple) else self.gaddr(v[1])
        o.esz = self.mod.sizeof(ty)

    def reset(self):
        self.heap = []
        if self.omp is not None:
            self.omp.reset()
        # writable globals are re-initialised
        for n in [n for n, o in self.globals.items() if not o.ro]:
            del self.globals[n]

    def _build_env(self):
        m = self

        def armw(op, p, v, sz):
            omp = m.omp
            if omp is not None:
                omp.exempt += 1
            try:
                old = m.ld(p, sz)
                if op in ("add", "fadd"):
                    new = old + v
                elif op in ("sub", "fsub"):
                    new = old - v
                elif op == "xchg":
                    new = v
                else:
                    raise Unsupported("atomicrmw " + op)
                m.st(p, new, sz)
            finally:
                if omp is not None:
                    omp.exempt -= 1
            return old

        def alloca(size, name):
            return Ptr(Obj(name, size, "stack"), 0)

        def peq(a, b):
            if a is b:
                return True
            if a.__class__ is Ptr and b.__class__ is Ptr:
                if a.o is not b.o:
                    return False
                return X.eq(a.off, b.off)
            a0 = a is None or (a.__class__ is int and a == 0)
            b0 = b is None or (b.__class__ is int and b == 0)
            if a is UNDEF or b is UNDEF:
                raise MemError("comparison of an uninitialised pointer")
            return a0 and b0

        def psub(a, b):
            if a.o is not b.o:
                raise Unsupported("pointer difference")
            return a.off - b.off

        def fdiv(a, b):
            if a is UNDEF or b is UNDEF:
                raise MemError("use of an uninitialised value")
            if b.__class__ is not E and b.__class__ is not Undef and b == 0:
                c = X.CTX[0]
                if c is None:
                    raise Unsupported("division by zero")
                try:
                    return X.div(a, 0)
                except Unsupported:
                    return c.havoc("nan")
            if a.__class__ is E or b.__class__ is E:
                return X.div(a, b)
            return X.num(Fraction(a) / b)

        def sdiv(a, b):
            if b.__class__ is int and b == 0:
                raise MemError("integer division by zero")
            if b.__class__ is E:
                z = X.eq(b, 0)
                if z is not False and X.CTX[0].branch(z):
                    raise MemError("integer division by zero")
            return X.sdiv(a, b)

        def srem(a, b):
            if b.__class__ is int and b == 0:
                raise MemError("integer remainder by zero")
            if b.__class__ is E:
                z = X.eq(b, 0)
                if z is not False and X.CTX[0].branch(z):
                    raise MemError("integer remainder by zero")
            return X.srem(a, b)

        def sel(c, a, b):
            if c is True or c is False:
                return a if c else b
            if c.__class__ is E:
                ctx = X.CTX[0]
                if ctx is not None and ctx.merge_select and not isinstance(a, (Ptr, Undef, tuple)) and not isinstance(b, (Ptr, Undef, tuple)) and a is not None and b is not None:
                    return X.ite(c, a, b)
                return a if ctx.branch(c) else b
            return a if c else b

        def zext(v):
            if v.__class__ is bool:
                return 1 if v else 0
            if v.__class__ is E and v.sort == "B":
                return X.ite(v, 1, 0)
            return v

        def zextn(v, bits):
            """zero-extension of an integer of ``bits`` bits."""
            if v.__class__ is int:
                return v & ((1 << bits) - 1)
            if v.__class__ is E and v.sort == "I":
                if v.lo is not None and v.lo >= 0:
                    return v
                raise Unsupported("zext of a possibly negative symbolic integer")
            return zext(v)

        def sext1(v):
            if v.__class__ is bool:
                return -1 if v else 0
            return X.ite(v, -1, 0)

        def truncn(v, bits):
            if v.__class__ is int:
                if bits == 1:
                    return bool(v & 1)
                v &= (1 << bits) - 1
                return v - (1 << bits) if v >> (bits - 1) else v
            if v.__class__ is E and v.sort == "I":
                if bits == 1:
                    if v.op == "ite" and v.a[1:] == (1, 0):
                        return v.a[0]
                    return X.eq(X.fmod(v, 2), 1)
                if v.lo is not None and v.hi is not None and v.lo >= -(1 << (bits - 1)) and v.hi < (1 << (bits - 1)):
                    return v
                raise Unsupported("trunc of an unbounded symbolic integer")
            if v.__class__ is bool:
                return int(v)
            if v is UNDEF:
                return v
            raise Unsupported("trunc")

        def iand(a, b):
            ba = a.__class__ is bool or (a.__class__ is E and a.sort == "B")
            if ba:
                return X.band(a, b)
            if a.__class__ is int and b.__class__ is int:
                return a & b
            if a.__class__ is int:
                a, b = b, a
            if b.__class__ is int and b >= 0 and (b & (b + 1)) == 0:
                return X.fmod(a, b + 1)
            raise Unsupported("bitwise and")

        def ior(a, b):
            ba = a.__class__ is bool or (a.__class__ is E and a.sort == "B")
            if ba:
                return X.bor(a, b)
            if a.__class__ is int and b.__class__ is int:
                return a | b
            raise Unsupported("bitwise or")

        def ixor(a, b):
            ba = a.__class__ is bool or (a.__class__ is E and a.sort == "B")
            if ba:
                return X.bxor(a, b)
            if a.__class__ is int and b.__class__ is int:
                return a ^ b
            if b == -1:
                return -a - 1
            raise Unsupported("bitwise xor")

        def shl(a, b):
            return a * (1 << b)

        def ashr(a, b):
            return a >> b if a.__class__ is int else X.fdiv(a, 1 << b)

        def insv(t, i, v):
            t = list(t)
            t[i] = v
            return tuple(t)

        def ucmp(op, a, b):
            """Unsigned comparison; the engine only models nonnegative operands."""
            def bad(v):
                if v.__class__ is int:
                    return v < 0
                return v.lo is None or v.lo < 0
            if bad(a) or bad(b):
                if a.__class__ is int and b.__class__ is int:
                    a &= (1 << 64) - 1
                    b &= (1 << 64) - 1
                else:
                    raise Unsupported("unsigned comparison of signed terms")
            return {"ult": lambda: a < b, "ule": lambda: a <= b, "ugt": lambda: b < a, "uge": lambda: b <= a}[op]()

        def ieq(a, b):
            if a.__class__ is int and b.__class__ is int:
                return a == b
            if a is UNDEF or b is UNDEF:
                raise MemError("comparison of an uninitialised value")
            if a.__class__ is bool or (a.__class__ is E and a.sort == "B") or b.__class__ is bool:
                if a.__class__ is int:
                    a = bool(a)
                if b.__class__ is int:
                    b = bool(b)
                return X.beq(a, b)
            return X.eq(a, b)

        def xeq(a, b):
            if a is UNDEF or b is UNDEF:
                raise MemError("comparison of an uninitialised value")
            if a.__class__ is E or b.__class__ is E:
                return X.eq(a, b)
            return a == b

        self.env = dict(
            ld=self.ld, st=self.st, gep=self.gep, call=self.call, icall=self.icall,
            gaddr=self.gaddr, alloca=alloca, armw=armw, peq=peq, psub=psub, fdiv=fdiv, sdiv=sdiv, srem=srem,
            sel=sel, zext=zext, zextn=zextn, sext1=sext1, truncn=truncn, iand=iand, ior=ior,
            ixor=ixor, shl=shl, ashr=ashr, insv=insv, ucmp=ucmp, ieq=ieq, xeq=xeq,
            to_real=X.to_real, ftrunc=X.trunc, bnot=X.bnot, UNDEF=UNDEF, Fr=Fraction,
            MemError=MemError, AssertFail=AssertFail, Ptr=Ptr, Unsupported=Unsupported,
        )


# --- externals ------------------------------------------------------------
def _malloc(m, n):
    return m.alloc(n, "heap", "malloc#%d" % len(m.heap))


def _calloc(m, a, b):
    p = m.alloc(a * b, "heap", "calloc#%d" % len(m.heap))
    p.o.zero = [(0, p.o.size)]
    return p


def _assertfail(m, *a):
    raise AssertFail("C assertion failed")


def _fn1(name):
    def f(m, x):
        if x is UNDEF:
            raise MemError("%s of an uninitialised value" % name)
        return X.fn(name, x)

    return f


def _fabs(m, x):
    if x is UNDEF:
        raise MemError("fabs of an uninitialised value")
    return X.fabs(x)


def _nop(m, *a):
    return 0


def _vdef(m, name, fp):
    s = []
    off = 0
    while True:
        c = name.o.c.get(name.off + off, 0)
        if c == 0:
            break
        s.append(chr(c))
        off += 1
    m.registry["".join(s)] = fp.name


def _smax(m, a, b):
    return m.env["sel"](b < a, a, b)


def _smin(m, a, b):
    return m.env["sel"](a < b, a, b)


def _pow(m, a, b):
    if not isinstance(b, E) and b == int(b):
        n = int(b)
        r = 1
        for _ in range(abs(n)):
            r = r * a
        return r if n >= 0 else m.env["fdiv"](1, r)
    raise Unsupported("pow")


def _floor(m, x):
    return X.floor(x)


def _memmove(m, d, s, n, v):
    m.memcpy(d, s, n)


def _free(m, p):
    m.free(p)


EXTERNALS = {
    "malloc": _malloc,
    "calloc": _calloc,
    "free": _free,
    "__assert_fail": _assertfail,
    "abort": _assertfail,
    "sqrt": _fn1("sqrt"),
    "exp": _fn1("exp"),
    "cos": _fn1("cos"),
    "sin": _fn1("sin"),
    "sinh": _fn1("sinh"),
    "cosh": _fn1("cosh"),
    "log": _fn1("log"),
    "fabs": _fabs,
    "pow": _pow,
    "floor": _floor,
    "llvm.fabs.f64": _fabs,
    "llvm.sqrt.f64": _fn1("sqrt"),
    "llvm.floor.f64": _floor,
    "llvm.abs.i64": lambda m, x, *_: X.fabs(x),
    "llvm.abs.i32": lambda m, x, *_: X.fabs(x),
    "labs": lambda m, x: X.fabs(x),
    "abs": lambda m, x: X.fabs(x),
    "llvm.fmuladd.f64": lambda m, a, b, c: a * b + c,
    "llvm.smax.i64": _smax,
    "llvm.smin.i64": _smin,
    "llvm.lifetime.start.p0": _nop,
    "llvm.lifetime.end.p0": _nop,
    "llvm.assume": _nop,
    "llvm.memcpy.p0.p0.i64": lambda m, d, s, n, v: m.memcpy(d, s, n),
    "llvm.memmove.p0.p0.i64": _memmove,
    "llvm.memset.p0.i64": lambda m, p, v, n, x: m.memset(p, v, n),
    "printf": _nop,
    "puts": _nop,
    "putchar": _nop,
    "fprintf": _nop,
    "fflush": _nop,
    "vnb_def": _vdef,
}


# --- IR parsing -----------------------------------------------------------
class FnDef:
    def __init__(self):
        self.name = None
        self.ret = None
        self.params = []  # (type, name)
        self.blocks = []  # (label, [lines])
        self.byval = {}


def split_top(s):
    """Split on top-level commas."""
    out, d, cur, q = [], 0, [], False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                d += 1
            elif ch in ")]}>":
                d -= 1
            elif ch == "," and d == 0:
                out.append("".join(cur).strip())
                cur = []
                continue
        cur.append(ch)
    t = "".join(cur).strip()
    if t:
        out.append(t)
    return out


class Module:
    def __init__(self, text):
        self.functions = {}
        self.decls = set()
        self.globals = {}
        self.types = {}
        self.fn_src = {}
        self._parse(text)

    # types: 'i64','double','ptr','void', ('arr',n,ty), ('struct',[ty]), ('named',name)
    def ptype(self, s):
        t, r = self.ptype_prefix(s.strip())
        if r.strip():
            raise Unsupported("type " + s)
        return t

    def ptype_prefix(self, s):
        s = s.lstrip()
        m = re.match(r"(i\d+|double|float|ptr|void|x86_fp80|label|metadata)\b", s)
        if m:
            return m.group(1), s[m.end():]
        if s[0] == "[":
            m = re.match(r"\[(\d+) x ", s)
            t, r = self.ptype_prefix(s[m.end():])
            r = r.lstrip()
            assert r[0] == "]", s
            return ("arr", int(m.group(1)), t), r[1:]
        if s[0] == "<":
            m = re.match(r"<(\d+) x ", s)
            t, r = self.ptype_prefix(s[m.end():])
            r = r.lstrip()
            return ("vec", int(m.group(1)), t), r[1:]
        if s[0] == "{":
            ts = []
            r = s[1:].lstrip()
            while r[0] != "}":
                t, r = self.ptype_prefix(r)
                ts.append(t)
                r = r.lstrip()
                if r[0] == ",":
                    r = r[1:].lstrip()
            return ("struct", tuple(ts)), r[1:]
        if s[0] == "%":
            m = re.match(r'%("[^"]*"|[\w.$-]+)', s)
            return ("named", m.group(1)), s[m.end():]
        raise Unsupported("type " + s[:40])

    def res(self, t):
        while isinstance(t, tuple) and t[0] == "named":
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.res(t)
        if isinstance(t, str):
            return self.sizeof(t)
        if t[0] in ("arr", "vec"):
            return self.align(t[2])
        return max([self.align(x) for x in t[1]] or [1])

    def sizeof(self, t):
        t = self.res(t)
        if isinstance(t, str):
            if t == "double" or t == "ptr":
                return 8
            if t == "float":
                return 4
            if t[0] == "i":
                return max(1, int(t[1:]) // 8)
            raise Unsupported("sizeof " + t)
        if t[0] in ("arr", "vec"):
            return t[1] * self.sizeof(t[2])
        o = 0
        for x in t[1]:
            a = self.align(x)
            o = (o + a - 1) // a * a + self.sizeof(x)
        a = self.align(t)
        return (o + a - 1) // a * a

    def offsets(self, t):
        t = self.res(t)
        o = 0
        out = []
        for x in t[1]:
            a = self.align(x)
            o = (o + a - 1) // a * a
            out.append(o)
            o += self.sizeof(x)
        return out

    def _parse(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("%"):
                m = re.match(r'%("[^"]*"|[\w.$-]+) = type (.*)$', l)
                if m and m.group(2) != "opaque":
                    self.types[m.group(1)] = self.ptype(m.group(2))
            elif l.startswith("@"):
                self._global(l)
            elif l.startswith("declare"):
                m = re.search(r"@([\w.$]+)\(", l)
                self.decls.add(m.group(1))
            elif l.startswith("define"):
                j = i
                body = []
                while not lines[j].startswith("}"):
                    j += 1
                self._fn(lines[i], lines[i + 1:j])
                i = j
            i += 1

    def _global(self, l):
        m = re.match(r'@("[^"]*"|[\w.$]+) = (.*)$', l)
        name, rest = m.group(1), m.group(2)
        m = re.search(r"\b(constant|global) ", rest)
        if not m:
            return
        const = m.group(1) == "constant"
        body = rest[m.end():]
        t, r = self.ptype_prefix(body)
        r = r.strip()
        # strip trailing attributes
        if r.startswith(",") or r == "":
            init = None
        else:
            parts = split_top(r)
            init = self.pinit(t, parts[0])
        self.globals[name] = (t, init, const)

    def pinit(self, t, s):
        s = s.strip()
        if s == "zeroinitializer":
            return "zero"
        if s in ("undef", "poison"):
            return "undef"
        if s.startswith('c"'):
            raw = s[2:-1]
            out = []
            k = 0
            while k < len(raw):
                if raw[k] == "\\":
                    out.append(int(raw[k + 1:k + 3], 16))
                    k += 3
                else:
                    out.append(ord(raw[k]))
                    k += 1
            return [("i8", c) for c in out]
        if s[0] in "[{":
            out = []
            for it in split_top(s[1:-1]):
                ty, r = self.ptype_prefix(it)
                out.append((ty, self.pinit(ty, r)))
            return out
        v = self.const(t, s)
        return v

    def const(self, t, s):
        if s == "true":
            return True
        if s == "false":
            return False
        if s == "null":
            return None
        if s.startswith("@"):
            return ("g", s[1:].strip('"'))
        if t == "double":
            return dconst(s)
        return int(s)

    def _fn(self, head, body):
        m = re.search(r"@([\w.$]+|\"[^\"]*\")\(", head)
        f = FnDef()
        f.name = m.group(1).strip('"')
        pre = head[len("define"):m.start()].split()
        # return type: last type token(s)
        pre_s = head[len("define"):m.start()].strip()
        f.ret = self._rettype(pre_s)
        # params
        d = 0
        k = m.end() - 1
        for e in range(k, len(head)):
            if head[e] == "(":
                d += 1
            elif head[e] == ")":
                d -= 1
                if d == 0:
                    break
        ps = head[k + 1:e]
        for idx, p in enumerate(split_top(ps)):
            if p == "...":
                continue
            t, r = self.ptype_prefix(p)
            mm = re.search(r'(%(?:"[^"]*"|[\w.$-]+))$', p)
            nm = mm.group(1) if mm else "%" + str(idx)
            f.params.append((t, nm))
            b = re.search(r"byval\(", p)
            if b:
                f.byval[idx] = True
        # blocks
        cur = None
        nparams = len(f.params)
        label = None
        cnt_unnamed = sum(1 for _, nme in f.params if re.match(r"%\d+$", nme))
        for l in body:
            if not l.strip():
                continue
            if not l.startswith(" "):
                mm = re.match(r'("[^"]*"|[\w.$-]+):', l)
                if mm:
                    cur = ("%" + mm.group(1), [])
                    f.blocks.append(cur)
                    continue
            if cur is None:
                cur = ("%" + str(cnt_unnamed), [])
                f.blocks.append(cur)
            cur[1].append(l.strip())
        self.functions[f.name] = f

    def _rettype(self, s):
        toks = ["{", "["]
        # scan for the first recognised type
        i = 0
        while i < len(s):
            try:
                rest = s[i:]
                if re.match(r"(i\d+|double|float|ptr|void|\[|\{|%|<)", rest):
                    t, _ = self.ptype_prefix(rest)
                    return t
            except (Unsupported, IndexError, AssertionError, AttributeError):
                pass
            # next token
            j = s.find(" ", i)
            if j < 0:
                break
            i = j + 1
        return "void"


def dconst(s):
    if s.startswith("0x"):
        v = _struct.unpack(">d", bytes.fromhex(s[2:].rjust(16, "0")))[0]
    else:
        v = float(s)
    if v != v or v in (math.inf, -math.inf):
        return ("nonfinite", v)
    f = Fraction(v)
    return f.numerator if f.denominator == 1 else f


def vn(s):
    """Python identifier of an IR local."""
    return "v_" + re.sub(r"\W", lambda m: "_%02x" % ord(m.group(0)), s[1:])


_ATTR = re.compile(
    r"^(noundef|nonnull|nocapture|readonly|writeonly|readnone|noalias|signext|zeroext|inreg|returned|nofree|immarg|"
    r"align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|byval\((?:[^()]|\([^()]*\))*\)|sret\((?:[^()]|\([^()]*\))*\)|captures\([^)]*\)|range\([^)]*\)) ?"
)


class Tr:
    def __init__(self, f, mod):
        self.f = f
        self.mod = mod

    def operand(self, t, s):
        s = s.strip()
        while True:
            m = _ATTR.match(s)
            if not m:
                break
            s = s[m.end():].lstrip()
        if s.startswith("%"):
            return vn(s)
        if s.startswith("@"):
            return "gaddr(%r)" % s[1:].strip('"')
        if s in ("undef", "poison"):
            if isinstance(t, tuple) and self.mod.res(t)[0] == "struct":
                return repr(tuple([None] * len(self.mod.res(t)[1]))).replace("None", "UNDEF")
            return "UNDEF"
        if s == "null":
            return "None"
        if s == "zeroinitializer":
            tt = self.mod.res(t)
            if isinstance(tt, tuple):
                n = tt[1] if tt[0] in ("arr", "vec") else len(tt[1])
                return "(" + "0," * n + ")"
            return "0"
        if s == "true":
            return "True"
        if s == "false":
            return "False"
        if s.startswith("getelementptr"):
            m = re.match(r"getelementptr (?:inbounds )?(?:nuw )?\((.*)\)$", s)
            return self.gep(split_top(m.group(1)))
        if t == "double" or t == "float":
            v = dconst(s)
            if isinstance(v, tuple):
                raise Unsupported("non-finite constant")
            if isinstance(v, int):
                return "(%d)" % v
            return "Fr(%d,%d)" % (v.numerator, v.denominator)
        if re.match(r"-?\d+$", s):
            return s if not s.startswith("-") else "(%s)" % s
        raise Unsupported("operand %r %r" % (t, s))

    def tv(self, s):
        """'type value' -> (type, expr)."""
        t, r = self.mod.ptype_prefix(s)
        return t, self.operand(t, r)

    def gep(self, parts):
        base_t = self.mod.ptype(parts[0])
        pt, p = self.tv(parts[1])
        t = base_t
        const = 0
        terms = []
        for i, ps in enumerate(parts[2:]):
            it, ix = self.tv(ps)
            if i == 0:
                sz = self.mod.sizeof(t)
            else:
                t = self.mod.res(t)
                if t[0] == "struct":
                    k = int(ix)
                    const += self.mod.offsets(t)[k]
                    t = t[1][k]
                    continue
                t = t[2]
                sz = self.mod.sizeof(t)
            if re.match(r"\(?-?\d+\)?$", ix):
                const += int(ix.strip("()")) * sz
            elif sz == 1:
                terms.append(ix)
            else:
                terms.append("%s*%d" % (ix, sz))
        off = " + ".join(terms + ([str(const)] if const or not terms else []))
        if off == "0":
            return p
        return "gep(%s, %s)" % (p, off)

    def strip_md(self, l):
        l = re.sub(r"(, ![\w.]+ !?[\w.{}]+)+$", "", l)
        l = re.sub(r" #\d+$", "", l)
        return l

    def instr(self, l):
        """One non-terminator, non-phi instruction -> python statement."""
        l = self.strip_md(l)
        dst = None
        m = re.match(r'(%(?:"[^"]*"|[\w.$-]+)) = (.*)$', l)
        if m:
            dst, l = vn(m.group(1)), m.group(2)
        op = l.split(" ", 1)[0]
        if op in ("tail", "musttail", "notail"):
            l = l.split(" ", 1)[1]
            op = "call"
        rest = l[len(op):].strip()
        A = lambda e: "%s = %s" % (dst, e)
        if op in ("add", "sub", "mul", "sdiv", "srem", "udiv", "urem", "fadd", "fsub", "fmul", "fdiv", "and", "or", "xor", "shl", "ashr", "lshr"):
            while True:
                m = re.match(r"(nsw|nuw|exact|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|disjoint) ", rest)
                if not m:
                    break
                rest = rest[m.end():]
            t, r = self.mod.ptype_prefix(rest)
            a, b = split_top(r)
            a, b = self.operand(t, a), self.operand(t, b)
            if op in ("add", "fadd"):
                return A("%s + %s" % (a, b))
            if op in ("sub", "fsub"):
                return A("%s - %s" % (a, b))
            if op in ("mul", "fmul"):
                return A("%s * %s" % (a, b))
            if op == "fdiv":
                return A("fdiv(%s, %s)" % (a, b))
            if op in ("sdiv", "udiv"):
                return A("sdiv(%s, %s)" % (a, b))
            if op in ("srem", "urem"):
                return A("srem(%s, %s)" % (a, b))
            nm = {"and": "iand", "or": "ior", "xor": "ixor", "shl": "shl", "ashr": "ashr", "lshr": "ashr"}[op]
            return A("%s(%s, %s)" % (nm, a, b))
        if op == "fneg":
            t, v = self.tv(re.sub(r"^(fast|nnan|ninf|nsz|contract) ", "", rest))
            return A("-%s" % v)
        if op == "icmp":
            pred, r = rest.split(" ", 1)
            if pred == "samesign":
                pred, r = r.split(" ", 1)
            t, r = self.mod.ptype_prefix(r)
            a, b = split_top(r)
            a, b = self.operand(t, a), self.operand(t, b)
            if t == "ptr":
                e = "peq(%s, %s)" % (a, b)
                return A(e if pred == "eq" else "bnot(%s)" % e)
            if pred == "eq":
                return A("ieq(%s, %s)" % (a, b))
            if pred == "ne":
                return A("bnot(ieq(%s, %s))" % (a, b))
            if pred[0] == "u":
                return A("ucmp(%r, %s, %s)" % (pred, a, b))
            return A("%s %s %s" % (a, {"slt": "<", "sle": "<=", "sgt": ">", "sge": ">="}[pred], b))
        if op == "fcmp":
            while True:
                m = re.match(r"(fast|nnan|ninf|nsz|contract) ", rest)
                if not m:
                    break
                rest = rest[m.end():]
            pred, r = rest.split(" ", 1)
            t, r = self.mod.ptype_prefix(r)
            a, b = split_top(r)
            a, b = self.operand(t, a), self.operand(t, b)
            k = pred[1:]
            if pred in ("ord", "uno"):
                return A("True" if pred == "ord" else "False")
            if k == "eq":
                return A("xeq(%s, %s)" % (a, b))
            if k == "ne":
                return A("bnot(xeq(%s, %s))" % (a, b))
            return A("%s %s %s" % (a, {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[k], b))
        if op == "load":
            parts = split_top(re.sub(r"^volatile ", "", rest))
            t = self.mod.ptype(parts[0])
            _, p = self.tv(parts[1])
            if isinstance(t, tuple):
                raise Unsupported("aggregate load")
            e = "ld(%s, %d)" % (p, self.mod.sizeof(t))
            if t == "ptr":
                e = "(%s or None)" % e
            return A(e)
        if op == "store":
            parts = split_top(re.sub(r"^volatile ", "", rest))
            t, v = self.tv(parts[0])
            _, p = self.tv(parts[1])
            if isinstance(t, tuple):
                raise Unsupported("aggregate store")
            return "st(%s, %s, %d)" % (p, v, self.mod.sizeof(t))
        if op == "alloca":
            parts = split_top(rest)
            t = self.mod.ptype(parts[0])
            n = 1
            if len(parts) > 1 and re.match(r"i\d+ ", parts[1]):
                _, nn = self.tv(parts[1])
                return A("alloca(%d * %s, %r)" % (self.mod.sizeof(t), nn, dst[2:]))
            return A("alloca(%d, %r)" % (self.mod.sizeof(t), dst[2:]))
        if op == "getelementptr":
            rest = re.sub(r"^(inbounds|nuw|nusw) ", "", rest)
            rest = re.sub(r"^(inbounds|nuw|nusw) ", "", rest)
            return A(self.gep(split_top(rest)))
        if op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "bitcast", "fpext", "fptrunc", "ptrtoint", "inttoptr", "freeze"):
            rest = re.sub(r"^(nneg|nuw|nsw) ", "", rest)
            m = re.match(r"(.*) to (.*)$", rest)
            if op == "freeze":
                _, v = self.tv(rest)
                return A(v)
            t1, v = self.tv(m.group(1))
            t2 = self.mod.ptype(m.group(2))
            if op == "sext":
                return A("sext1(%s)" % v if t1 == "i1" else v)
            if op == "zext":
                return A("zext(%s)" % v if t1 == "i1" else "zextn(%s, %s)" % (v, t1[1:]))
            if op == "trunc":
                return A("truncn(%s, %s)" % (v, t2[1:]))
            if op in ("sitofp", "uitofp"):
                return A("to_real(%s)" % ("zext(%s)" % v if t1 == "i1" else v))
            if op in ("fptosi", "fptoui"):
                return A("ftrunc(%s)" % v)
            return A(v)
        if op == "select":
            rest = re.sub(r"^(fast|nnan|nsz) ", "", rest)
            parts = split_top(rest)
            _, c = self.tv(parts[0])
            _, a = self.tv(parts[1])
            _, b = self.tv(parts[2])
            return A("sel(%s, %s, %s)" % (c, a, b))
        if op == "extractvalue":
            parts = split_top(rest)
            _, v = self.tv(parts[0])
            return A(v + "".join("[%s]" % p for p in parts[1:]))
        if op == "insertvalue":
            parts = split_top(rest)
            _, v = self.tv(parts[0])
            _, x = self.tv(parts[1])
            return A("insv(%s, %s, %s)" % (v, parts[2], x))
        if op == "call":
            # find callee
            m = re.search(r'(@(?:"[^"]*"|[\w.$]+)|%(?:"[^"]*"|[\w.$-]+)|asm [^(]*)\(', rest)
            # the callee is the last @x( or %x( at depth 0 before args
            d = 0
            pos = None
            for mm in re.finditer(r'(@(?:"[^"]*"|[\w.$]+)|%(?:"[^"]*"|[\w.$-]+))\(', rest):
                pre = rest[:mm.start()]
                if pre.count("(") == pre.count(")"):
                    pos = mm
                    break
            if pos is None:
                raise Unsupported("call " + rest[:60])
            callee = pos.group(1)
            k = pos.end() - 1
            d = 0
            for e in range(k, len(rest)):
                if rest[e] == "(":
                    d += 1
                elif rest[e] == ")":
                    d -= 1
                    if d == 0:
                        break
            args = []
            for a in split_top(rest[k + 1:e]):
                if a.startswith("metadata"):
                    continue
                t, v = self.tv(a)
                args.append(v)
            if callee[0] == "@":
                nm = callee[1:].strip('"')
                if nm.startswith("llvm.lifetime") or nm.startswith("llvm.dbg"):
                    return None
                ce = "call(%r%s)" % (nm, "".join(", " + a for a in args))
            else:
                ce = "icall(%s%s)" % (vn(callee), "".join(", " + a for a in args))
            return A(ce) if dst else ce
        if op == "fence":
            return None
        if op == "atomicrmw":
            k, r = rest.split(" ", 1)
            parts = split_top(r)
            _, p = self.tv(parts[0])
            t, v = self.mod.ptype_prefix(parts[1])
            v = self.operand(t, v.split()[0])
            e = "armw(%r, %s, %s, %d)" % (k, p, v, self.mod.sizeof(t))
            return A(e) if dst else e
        if op == "cmpxchg":
            return "raise Unsupported('cmpxchg')"
        raise Unsupported("instruction " + l[:80])

    def term(self, l, idx):
        """Terminator -> list of (python lines)."""
        l = self.strip_md(l)
        if l.startswith("ret void"):
            return ["return None"]
        if l.startswith("ret "):
            _, v = self.tv(l[4:])
            return ["return " + v]
        if l.startswith("unreachable"):
            return ["raise Unsupported('unreachable reached')"]
        m = re.match(r"br label (%\S+)$", l)
        if m:
            return [("goto", m.group(1))]
        m = re.match(r"br i1 (.*), label (%[^,]+), label (%\S+)$", l)
        if m:
            return [("if", self.operand("i1", m.group(1)), m.group(2), m.group(3))]
        m = re.match(r"switch (i\d+) (.*?), label (%[^ ]+) \[(.*)\]$", l, re.S)
        if m:
            v = self.operand(m.group(1), m.group(2))
            cases = re.findall(r"i\d+ (-?\d+), label (%[^ ]+)", m.group(4))
            return [("switch", v, m.group(3), cases)]
        raise Unsupported("terminator " + l[:80])


def transpile(f, mod):
    tr = Tr(f, mod)
    bidx = {lab: i for i, (lab, _) in enumerate(f.blocks)}
    phis = {}  # label -> [(dst, type, {pred: val})]
    bodies = []
    for lab, lines in f.blocks:
        # join multi-line switch
        joined = []
        k = 0
        while k < len(lines):
            l = lines[k]
            if l.startswith("switch") and "]" not in l.split("[", 1)[1]:
                acc = [l]
                while True:
                    k += 1
                    acc.append(lines[k])
                    if lines[k].startswith("]"):
                        break
                l = " ".join(acc)
            joined.append(l)
            k += 1
        ph = []
        body = []
        for l in joined[:-1]:
            m = re.match(r'(%(?:"[^"]*"|[\w.$-]+)) = phi (.*)$', tr.strip_md(l))
            if m:
                r = re.sub(r"^(fast|nnan|nsz) ", "", m.group(2))
                t, r = mod.ptype_prefix(r)
                inc = {}
                for it in re.findall(r"\[ (.*?), (%(?:\"[^\"]*\"|[\w.$-]+)) \]", r):
                    inc[it[1]] = tr.operand(t, it[0])
                ph.append((vn(m.group(1)), inc))
                continue
            s = tr.instr(l)
            if s:
                body.append(s)
        phis[lab] = ph
        bodies.append((lab, body, tr.term(joined[-1], None)))
    out = ["def fn(%s):" % ", ".join(vn(n) for _, n in f.params)]

    def goto(src, dst, ind):
        ls = []
        ph = phis[dst]
        if ph:
            if len(ph) == 1:
                d, inc = ph[0]
                if d != inc[src]:
                    ls.append("%s%s = %s" % (ind, d, inc[src]))
            else:
                ls.append(
                    "%s%s = %s"
                    % (ind, ", ".join(d for d, _ in ph), ", ".join(inc[src] for _, inc in ph))
                )
        return ls

    def emit_block(i, ind):
        lab, body, term = bodies[i]
        ls = [ind + s for s in body]
        t = term[0]
        if isinstance(t, str):
            ls.append(ind + t)
        elif t[0] == "goto":
            ls += goto(lab, t[1], ind)
            ls.append("%sbb = %d" % (ind, bidx[t[1]]))
        elif t[0] == "if":
            ls.append("%sif %s:" % (ind, t[1]))
            ls += goto(lab, t[2], ind + " ")
            ls.append("%s bb = %d" % (ind, bidx[t[2]]))
            ls.append("%selse:" % ind)
            ls += goto(lab, t[3], ind + " ")
            ls.append("%s bb = %d" % (ind, bidx[t[3]]))
        elif t[0] == "switch":
            first = True
            ls.append("%s_sw = %s" % (ind, t[1]))
            for v, tgt in t[3]:
                ls.append("%s%s ieq(_sw, %s):" % (ind, "if" if first else "elif", v))
                first = False
                ls += goto(lab, tgt, ind + " ")
                ls.append("%s bb = %d" % (ind, bidx[tgt]))
            if first:
                ls += goto(lab, t[2], ind)
                ls.append("%sbb = %d" % (ind, bidx[t[2]]))
            else:
                ls.append("%selse:" % ind)
                ls += goto(lab, t[2], ind + " ")
                ls.append("%s bb = %d" % (ind, bidx[t[2]]))
        return ls

    if len(bodies) == 1:
        out += emit_block(0, " ")
        return "\n".join(out) + "\n"
    out.append(" bb = 0")
    out.append(" while True:")

    def tree(lo, hi, ind):
        if hi - lo == 1:
            return emit_block(lo, ind)
        mid = (lo + hi) // 2
        return (
            ["%sif bb < %d:" % (ind, mid)]
            + tree(lo, mid, ind + " ")
            + ["%selse:" % ind]
            + tree(mid, hi, ind + " ")
        )

    out += tree(0, len(bodies), "  ")
    return "\n".join(out) + "\n"
