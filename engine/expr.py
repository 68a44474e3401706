"""Symbolic terms: exact integers/reals with hash-consing, constant folding,
polynomial normal forms, numeric evaluation and lowering to z3.

Raw Python numbers (int / Fraction) stand for constants; ``E`` instances are
never constant.  A concrete Python float entering a term is taken as the exact
rational it denotes.
"""
from fractions import Fraction
import math
import numpy as _np

F = Fraction
_tab = {}
_cnt = [0]
CTX = [None]  # active path context (for __bool__)


class Unsupported(Exception):
    """The engine cannot model this operation."""


def num(x):
    """Normalise a raw number: int if integral, otherwise Fraction."""
    t = type(x)
    if t is int:
        return x
    if t is bool:
        return int(x)
    if t is Fraction:
        return x.numerator if x.denominator == 1 else x
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported("non-finite constant")
        f = Fraction(x)
        return f.numerator if f.denominator == 1 else f
    if isinstance(x, (_np.integer, _np.bool_)):
        return int(x)
    if isinstance(x, E):
        return x
    raise Unsupported("cannot convert %r to a term" % (type(x),))


class E:
    __slots__ = ("op", "a", "sort", "lo", "hi", "id", "sz", "pos", "_p", "_z")
    __array_priority__ = -1000000.0

    # --- arithmetic -----------------------------------------------------
    def __add__(self, o):
        if isinstance(o, Cx) or isinstance(o, _np.ndarray) or isinstance(o, complex):
            return NotImplemented if not isinstance(o, complex) else Cx.of(self) + o
        return add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Cx) or isinstance(o, _np.ndarray):
            return NotImplemented
        if isinstance(o, complex):
            return Cx.of(self) - o
        return sub(self, o)

    def __rsub__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if isinstance(o, complex):
            return Cx.of(o) - self
        return sub(o, self)

    def __mul__(self, o):
        if isinstance(o, Cx) or isinstance(o, _np.ndarray):
            return NotImplemented
        if isinstance(o, complex):
            return Cx.of(self) * o
        return mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Cx) or isinstance(o, _np.ndarray):
            return NotImplemented
        if isinstance(o, complex):
            return Cx.of(self) / o
        return div(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if isinstance(o, complex):
            return Cx.of(o) / self
        return div(o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return fabs(self)

    def __pow__(self, n):
        if isinstance(n, (int, _np.integer)) or (isinstance(n, float) and n == int(n)):
            n = int(n)
            if n < 0:
                return div(1, self ** (-n))
            r = 1
            for _ in range(n):
                r = mul(r, self)
            return r
        if n == 0.5:
            return fn("sqrt", self)
        if n == -0.5:
            return div(1, fn("sqrt", self))
        raise Unsupported("pow %r" % (n,))

    def __floordiv__(self, o):
        return fdiv(self, o)

    def __mod__(self, o):
        return fmod(self, o)

    def __rmod__(self, o):
        return fmod(o, self)

    # --- numpy ufunc hooks on object arrays ----------------------------
    def sqrt(self):
        return fn("sqrt", self)

    def exp(self):
        return fn("exp", self)

    def cos(self):
        return fn("cos", self)

    def sin(self):
        return fn("sin", self)

    def sinh(self):
        return fn("sinh", self)

    def tanh(self):
        return div(fn("sinh", self), fn("cosh", self))

    def cosh(self):
        return fn("cosh", self)

    def log(self):
        return fn("log", self)

    def rint(self):
        return rint(self)

    def floor(self):
        return floor(self)

    def conjugate(self):
        return self

    conj = conjugate

    def absolute(self):
        return fabs(self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    # --- comparisons ----------------------------------------------------
    def __lt__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        return lt(self, o)

    def __gt__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        return lt(o, self)

    def __le__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        return le(self, o)

    def __ge__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        return le(o, self)

    def __eq__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if o is None or isinstance(o, str):
            return False
        if self.sort == "B":
            if isinstance(o, (bool, _np.bool_)):
                return self if o else bnot(self)
        return eq(self, o)

    def __ne__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        r = self.__eq__(o)
        return bnot(r)

    def __hash__(self):
        return self.id

    def __bool__(self):
        if self.sort != "B":
            return bool(ne(self, 0))
        c = CTX[0]
        if c is None:
            raise Unsupported("symbolic truth value outside a path")
        return c.branch(self)

    def any(self, *a, **k):
        return self

    all = any

    def __invert__(self):
        return bnot(self)

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __index__(self):
        c = CTX[0]
        if self.sort == "I" and c is not None:
            return c.concretize(self)
        raise Unsupported("symbolic index")

    def __int__(self):
        c = CTX[0]
        if c is None:
            raise Unsupported("int() of a term")
        if self.sort == "I":
            return c.concretize(self)
        if self.sort == "B":
            return 1 if c.branch(self) else 0
        return c.concretize(trunc(self))

    # a list where terms only go into printed text: they are printed as
    # one million plus their position in it
    printing = None

    def __float__(self):
        if E.printing is not None:
            E.printing.append(self)
            return 1e6 + len(E.printing) - 1
        raise Unsupported("float() of a term")

    def __complex__(self):
        raise Unsupported("complex() of a term")

    def __format__(self, spec):
        return format(float(self), spec) if E.printing is not None else show(self)

    def __repr__(self):
        return show(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a term")


def show(x, d=4):
    if not isinstance(x, E):
        return str(x) if not isinstance(x, Fraction) else "%.6g" % float(x)
    if x.op == "var":
        return x.a[0]
    if d == 0:
        return "..."
    if x.op == "fn":
        return "%s(%s)" % (x.a[0], show(x.a[1], d - 1))
    return "(%s %s)" % (x.op, " ".join(show(y, d - 1) for y in x.a))


def reset():
    _tab.clear()
    _fnapps.clear()
    _EXACT.clear()
    ATOM.clear()
    INVTAB.clear()
    INVPOLY.clear()
    _cnt[0] = 0


def _mk(op, args, sort, lo=None, hi=None, pos=None):
    k = (op, sort) + tuple((y.id, 0) if isinstance(y, E) else y for y in args)
    e = _tab.get(k)
    if e is None:
        e = object.__new__(E)
        e.op = op
        e.a = args
        e.sort = sort
        e.lo = lo
        e.hi = hi
        e.pos = pos  # known strictly positive
        _cnt[0] += 1
        e.id = _cnt[0]
        e._p = None
        e._z = None
        _tab[k] = e
    return e


def real(name, pos=False):
    return _mk("var", (name,), "R", pos=pos)


def integer(name, lo=None, hi=None):
    return _mk("var", (name,), "I", lo, hi)


def boolean(name):
    return _mk("var", (name,), "B")


def _srt(a, b):
    sa = a.sort if isinstance(a, E) else ("I" if type(a) is int else "R")
    sb = b.sort if isinstance(b, E) else ("I" if type(b) is int else "R")
    if sa == "B" or sb == "B":
        raise Unsupported("boolean in arithmetic")
    if sa == "I" and sb == "I":
        return "I"
    # an integral constant takes the other operand's sort
    return "R"


def _b2i(x):
    if isinstance(x, E) and x.sort == "B":
        return _mk("ite", (x, 1, 0), "I", 0, 1)
    return x


def _lohi(x):
    if isinstance(x, E):
        return x.lo, x.hi
    return x, x


def add(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return num(num(a) + num(b))
    a = _b2i(a) if isinstance(a, E) else num(a)
    b = _b2i(b) if isinstance(b, E) else num(b)
    if isinstance(a, E) and a.op == "inf" or isinstance(b, E) and b.op == "inf":
        if isinstance(a, E) and a.op == "inf" and isinstance(b, E) and b.op == "inf" and a is not b:
            raise Unsupported("inf - inf")
        return a if isinstance(a, E) and a.op == "inf" else b
    if not isinstance(a, E):
        if a == 0:
            return b
        a, b = b, a
    elif not isinstance(b, E):
        if b == 0:
            return a
    if not isinstance(b, E):
        # (x + c1) + c2
        if a.op == "add" and not isinstance(a.a[1], E):
            return add(a.a[0], num(a.a[1] + b))
    else:
        if a.id > b.id:
            a, b = b, a
        if b.op == "neg" and b.a[0] is a:
            return 0
        if a.op == "neg" and a.a[0] is b:
            return 0
    s = _srt(a, b)
    lo = hi = None
    if s == "I":
        l1, h1 = _lohi(a)
        l2, h2 = _lohi(b)
        lo = None if l1 is None or l2 is None else l1 + l2
        hi = None if h1 is None or h2 is None else h1 + h2
        if lo is not None and lo == hi:
            return lo
    p = None
    if s == "R" and _pos(a) and _nonneg(b) or s == "R" and _pos(b) and _nonneg(a):
        p = True
    return _mk("add", (a, b), s, lo, hi, p)


def _pos(x):
    if isinstance(x, E):
        return bool(x.pos) or (x.lo is not None and x.lo > 0)
    return x > 0


def _nonneg(x):
    if isinstance(x, E):
        if x.pos or (x.lo is not None and x.lo >= 0):
            return True
        if x.op == "mul" and x.a[0] is x.a[1]:
            return True
        if x.op == "fn" and x.a[0] in ("sqrt", "exp"):
            return True
        return False
    return x >= 0


def neg(a):
    if not isinstance(a, E):
        return num(-num(a))
    a = _b2i(a)
    if a.op == "neg":
        return a.a[0]
    if a.op == "inf":
        return inf(-a.a[0])
    lo, hi = a.lo, a.hi
    return _mk("neg", (a,), a.sort, None if hi is None else -hi, None if lo is None else -lo)


def sub(a, b):
    if a is b:
        return 0
    return add(a, neg(b))


def mul(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return num(num(a) * num(b))
    a = _b2i(a) if isinstance(a, E) else num(a)
    b = _b2i(b) if isinstance(b, E) else num(b)
    if isinstance(a, E) and a.op == "inf" or isinstance(b, E) and b.op == "inf":
        return inf(_sign(a) * _sign(b))
    if not isinstance(a, E):
        a, b = b, a
    if not isinstance(b, E):
        if b == 0:
            return 0
        if b == 1:
            return a
        if b == -1:
            return neg(a)
        if a.op == "mul" and not isinstance(a.a[1], E):
            return mul(a.a[0], num(a.a[1] * b))
    elif a.id > b.id:
        a, b = b, a
    s = _srt(a, b)
    lo = hi = None
    if s == "I":
        l1, h1 = _lohi(a)
        l2, h2 = _lohi(b)
        if None not in (l1, h1, l2, h2):
            v = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
            lo, hi = min(v), max(v)
            if a is b:
                lo = max(lo, 0) if l1 < 0 < h1 else min(l1 * l1, h1 * h1)
            if lo == hi:
                return lo
    p = True if (s == "R" and _pos(a) and _pos(b)) else None
    return _mk("mul", (a, b), s, lo, hi, p)


def inf(sign):
    """IEEE infinity (the only non-finite value that is modelled)."""
    return _mk("inf", (sign,), "R", pos=True if sign > 0 else None)


def _sign(a):
    """Sign of a term (branches when undecided); zero is not modelled."""
    if isinstance(a, E) and a.op == "inf":
        return a.a[0]
    if isinstance(a, E):
        if _pos(a):
            return 1
        if bool(lt(0, a)):
            return 1
        if bool(lt(a, 0)):
            return -1
    elif a != 0:
        return 1 if a > 0 else -1
    raise Unsupported("0 times infinity or 0/0 (nan)")


def div(a, b):
    """Real division."""
    if isinstance(b, E) and b.op == "inf":
        if isinstance(a, E) and a.op == "inf":
            raise Unsupported("inf/inf")
        return 0
    if isinstance(a, E) and a.op == "inf":
        return inf(a.a[0] * _sign(b)) if isinstance(b, E) or num(b) != 0 else a
    if not isinstance(b, E):
        b = num(b)
        if b == 0:
            return inf(_sign(a if isinstance(a, E) else num(a)))
        if not isinstance(a, E):
            return num(F(num(a)) / b)
        return mul(a, num(F(1) / b))
    a = _b2i(a) if isinstance(a, E) else num(a)
    b = _b2i(b)
    if not isinstance(a, E) and a == 0:
        return 0
    if a is b:
        return 1
    c = CTX[0]
    if c is not None:
        c.note_divisor(b)
    p = True if (_pos(a) and _pos(b)) else None
    return _mk("div", (a, b), "R", pos=p)


def _cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def sdiv(a, b):
    """C integer division (truncation)."""
    if not isinstance(a, E) and not isinstance(b, E):
        if b == 0:
            raise ZeroDivisionError
        return _cdiv(a, b)
    if isinstance(b, E):
        c = CTX[0]
        if b.lo is not None and b.lo == b.hi:
            b = b.lo
        else:
            lo, hi = b.lo, b.hi
            l1, h1 = _lohi(a)
            m = None
            if l1 is not None and h1 is not None:
                m = max(abs(l1), abs(h1))
            if c is not None:
                c.note_divisor(b)
            return _mk("sdiv", (a, b), "I", None if m is None else -m, m)
    if b == 0:
        raise ZeroDivisionError
    if b == 1:
        return a
    lo = hi = None
    if a.lo is not None and a.hi is not None:
        v = (_cdiv(a.lo, b), _cdiv(a.hi, b))
        lo, hi = min(v), max(v)
        if lo == hi:
            return lo
    return _mk("sdiv", (a, b), "I", lo, hi)


def srem(a, b):
    """C integer remainder (sign of dividend)."""
    if not isinstance(a, E) and not isinstance(b, E):
        if b == 0:
            raise ZeroDivisionError
        return a - b * _cdiv(a, b)
    if isinstance(b, E) and b.lo is not None and b.lo == b.hi:
        b = b.lo
    if isinstance(b, E):
        c = CTX[0]
        if c is not None:
            c.note_divisor(b)
        m = None
        if b.lo is not None and b.hi is not None:
            m = max(abs(b.lo), abs(b.hi)) - 1
        l1, h1 = _lohi(a)
        lo = None if m is None else -m
        hi = m
        if l1 is not None and l1 >= 0:
            lo = 0
        if h1 is not None and h1 <= 0:
            hi = 0
        return _mk("srem", (a, b), "I", lo, hi)
    if b == 0:
        raise ZeroDivisionError
    b = abs(b)
    if b == 1:
        return 0
    lo, hi = -(b - 1), b - 1
    if a.lo is not None and a.hi is not None:
        if 0 <= a.lo and a.hi < b:
            return a
        if a.lo >= 0:
            lo = 0
        if a.hi <= 0:
            hi = 0
        if -b < a.lo and a.hi < b:
            return a
    return _mk("srem", (a, b), "I", lo, hi)


def fdiv(a, b):
    """Floor division (Python ints)."""
    if not isinstance(a, E) and not isinstance(b, E):
        return num(num(a) // num(b))
    if _srt(a, b) != "I":
        return floor(div(a, b))
    if isinstance(b, E) or b <= 0:
        raise Unsupported("floor division by a symbolic or nonpositive divisor")
    if b == 1:
        return a
    lo = None if a.lo is None else a.lo // b
    hi = None if a.hi is None else a.hi // b
    if lo is not None and lo == hi:
        return lo
    return _mk("fdiv", (a, b), "I", lo, hi)


def fmod(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return num(num(a) % num(b))
    if _srt(a, b) != "I":
        return sub(a, mul(b, floor(div(a, b))))
    if isinstance(b, E):
        if b.lo is not None and b.lo > 0:
            return _mk("fmod", (a, b), "I", 0, None if b.hi is None else b.hi - 1)
        raise Unsupported("modulus by a symbolic divisor")
    if b <= 0:
        raise Unsupported("modulus by nonpositive")
    if a.lo is not None and a.hi is not None and 0 <= a.lo and a.hi < b:
        return a
    return _mk("fmod", (a, b), "I", 0, b - 1)


def to_real(a):
    """int -> double."""
    if not isinstance(a, E):
        return a
    if a.sort == "I":
        return _mk("i2r", (a,), "R", a.lo, a.hi)
    return a


def trunc(a):
    """double -> int (toward zero)."""
    if not isinstance(a, E):
        return int(a)
    if a.sort == "I":
        return a
    if a.op == "i2r":
        return a.a[0]
    return _mk("trunc", (a,), "I", None if a.lo is None else -abs(int(a.lo)) - 1, None if a.hi is None else abs(int(a.hi)) + 1)


def floor(a):
    if not isinstance(a, E):
        return math.floor(a)
    if a.sort == "I":
        return a
    if a.op == "i2r":
        return a.a[0]
    return _mk("floor", (a,), "I", None if a.lo is None else math.floor(a.lo), None if a.hi is None else math.floor(a.hi))


def rint(a):
    if not isinstance(a, E):
        return round(num(a))
    if a.sort == "I":
        return a
    if a.op == "i2r":
        return a.a[0]
    f = floor(add(a, F(1, 2)))
    # ties to even: at exact ties floor(x+1/2) may be odd
    tie = eq(sub(a, to_real(f)), F(-1, 2))
    odd = eq(fmod(f, 2), 1)
    c = band(tie, odd)
    if c is False:
        return f
    return ite(c, sub(f, 1), f)


def fabs(a):
    if not isinstance(a, E):
        return abs(num(a))
    if _nonneg(a):
        return a
    c = le(0, a)
    if c is True:
        return a
    if c is False:
        return neg(a)
    if CTX[0] is not None and CTX[0].fork_abs:
        return a if CTX[0].branch(c) else neg(a)
    return ite(c, a, neg(a))


_fnapps = {}  # name -> list of (poly, E)
_EXACT = {}


def fn(name, x):
    """Application of a transcendental (uninterpreted) real function."""
    if isinstance(x, E) and x.op == "inf":
        if name == "exp":
            return x if x.a[0] > 0 else 0
        if name == "sinh" or x.a[0] > 0 and name in ("sqrt", "log", "cosh"):
            return x
        raise Unsupported(name + " of infinity")
    if not isinstance(x, E):
        x = num(x)
        if name == "sqrt":
            if x < 0:
                raise Unsupported("sqrt of a negative constant")
            f = F(x)
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return num(F(n, d))
        if x == 0:
            return {"sin": 0, "sinh": 0, "cos": 1, "exp": 1, "cosh": 1}[name]
        if name == "log" and x == 1:
            return 0
        if name in ("sin", "cos"):
            # a dyadic value within 2^-49 (comparisons allow 1e-11)
            return num(F(round(math.ldexp(getattr(math, name)(float(x)), 48)), 1 << 48))
        pos = name in ("sqrt", "exp", "cosh")
        k = "%s#%r" % (name, float(x))
        e = _mk("fn", (name, ("c", x)), "R", pos=pos)
        _EXACT[e.id] = (name, x)
        return e
    p = poly(x)
    if not p:
        return fn(name, 0)
    if len(p) == 1 and () in p:
        return fn(name, p[()])
    if name in ("sin", "cos", "sinh", "cosh"):
        # canonical sign of the argument
        lead = min(p, key=_mkey)
        if p[lead] < 0:
            r = fn(name, neg(x))
            return neg(r) if name in ("sin", "sinh") else r
    # congruence up to rounding of constants
    key = (name, frozenset(p))
    for q, e in _fnapps.get(key, ()):
        if all(_close(q[m], p[m]) for m in p):
            return e
    if name == "sqrt" and len(p) == 1:
        # split sqrt of a monomial with known-positive variables
        (m, c), = p.items()
        if len(m) > 1 or (m and (m[0][1] != 1 or c != 1)):
            if c > 0 and all(ATOM[i].pos or k % 2 == 0 for i, k in m):
                r = fn("sqrt", c)
                ok = True
                for i, k in m:
                    at = ATOM[i]
                    if k % 2 == 0:
                        if at.pos:
                            r = r * at ** (k // 2) if isinstance(r, E) else mul(r, at ** (k // 2))
                        else:
                            ok = False
                    else:
                        h = (k - 1) // 2
                        r = mul(r, mul(fn("sqrt", at), at ** h))
                if ok:
                    return r
    pos = name in ("exp", "cosh") or (name == "sqrt" and _pos(x))
    if name == "sinh" and _pos(x):
        pos = True
    e = _mk("fn", (name, x), "R", pos=pos)
    _fnapps.setdefault(key, []).append((p, e))
    return e


def _close(a, b, tol=F(1, 10**9)):
    if a == b:
        return True
    return abs(a - b) <= tol * max(abs(a), abs(b))


# --- booleans ------------------------------------------------------------
def _cmpdiff(a, b):
    return a, b


def lt(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return num(a) < num(b)
    a = _b2i(a) if isinstance(a, E) else num(a)
    b = _b2i(b) if isinstance(b, E) else num(b)
    if a is b:
        return False
    if isinstance(a, E) and a.op == "inf":
        return a.a[0] < 0
    if isinstance(b, E) and b.op == "inf":
        return b.a[0] > 0
    l1, h1 = _lohi(a)
    l2, h2 = _lohi(b)
    if h1 is not None and l2 is not None and h1 < l2:
        return True
    if l1 is not None and h2 is not None and l1 >= h2:
        return False
    if not isinstance(a, E) and a <= 0 and _pos(b):
        return True
    if not isinstance(b, E) and b <= 0 and _nonneg(a):
        return False
    return _mk("lt", (a, b), "B")


def le(a, b):
    return bnot(lt(b, a))


def eq(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return num(a) == num(b)
    a = _b2i(a) if isinstance(a, E) else num(a)
    b = _b2i(b) if isinstance(b, E) else num(b)
    if a is b:
        return True
    if isinstance(a, E) and a.sort == "B":
        raise Unsupported("eq on booleans")
    if isinstance(a, E) and a.op == "inf" or isinstance(b, E) and b.op == "inf":
        return False
    l1, h1 = _lohi(a)
    l2, h2 = _lohi(b)
    if h1 is not None and l2 is not None and h1 < l2:
        return False
    if l1 is not None and h2 is not None and l1 > h2:
        return False
    if not isinstance(b, E) and b <= 0 and _pos(a):
        return False
    if not isinstance(a, E) and a <= 0 and _pos(b):
        return False
    if not isinstance(a, E) or (isinstance(b, E) and a.id > b.id):
        a, b = b, a
    return _mk("eq", (a, b), "B")


def ne(a, b):
    return bnot(eq(a, b))


def bnot(a):
    if not isinstance(a, E):
        return not a
    if a.op == "not":
        return a.a[0]
    return _mk("not", (a,), "B")


def band(*xs):
    r = []
    for x in xs:
        if not isinstance(x, E):
            if not x:
                return False
            continue
        if x.sort != "B":
            raise Unsupported("bitwise and on integers")
        if not any(x is y for y in r):
            r.append(x)
    if not r:
        return True
    if len(r) == 1:
        return r[0]
    return _mk("and", tuple(r), "B")


def bor(*xs):
    r = []
    for x in xs:
        if not isinstance(x, E):
            if x:
                return True
            continue
        if x.sort != "B":
            raise Unsupported("bitwise or on integers")
        if not any(x is y for y in r):
            r.append(x)
    if not r:
        return False
    if len(r) == 1:
        return r[0]
    return _mk("or", tuple(r), "B")


def bxor(a, b):
    if not isinstance(a, E):
        return bnot(b) if a else b
    if not isinstance(b, E):
        return bnot(a) if b else a
    return bor(band(a, bnot(b)), band(bnot(a), b))


def beq(a, b):
    """Equality for either sort, including booleans."""
    ab = isinstance(a, (bool, _np.bool_)) or (isinstance(a, E) and a.sort == "B")
    if ab:
        return bnot(bxor(a, b))
    return eq(a, b)


def implies(a, b):
    return bor(bnot(a), b)


def ite(c, a, b):
    if not isinstance(c, E):
        return a if c else b
    if a is b or (not isinstance(a, E) and not isinstance(b, E) and a == b and type(a) is type(b)):
        return a
    if (isinstance(a, (bool, _np.bool_)) or (isinstance(a, E) and a.sort == "B")):
        return bor(band(c, a), band(bnot(c), b))
    a = a if isinstance(a, E) else num(a)
    b = b if isinstance(b, E) else num(b)
    s = _srt(a, b)
    l1, h1 = _lohi(a)
    l2, h2 = _lohi(b)
    lo = None if l1 is None or l2 is None else min(l1, l2)
    hi = None if h1 is None or h2 is None else max(h1, h2)
    return _mk("ite", (c, a, b), s, lo, hi, True if _pos(a) and _pos(b) else None)


# --- complex --------------------------------------------------------------
class Cx:
    """Complex number with symbolic parts (used for object arrays)."""

    __slots__ = ("re", "im")
    __array_priority__ = -1000000.0

    def __init__(self, re, im=0):
        self.re = re
        self.im = im

    @staticmethod
    def of(x):
        if isinstance(x, Cx):
            return x
        if isinstance(x, (complex, _np.complexfloating)):
            return Cx(num(x.real), num(x.imag))
        return Cx(num(x) if not isinstance(x, E) else x, 0)

    def _bin(self, o, f):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        return f(self, Cx.of(o))

    def __add__(self, o):
        return self._bin(o, lambda a, b: Cx(add(a.re, b.re), add(a.im, b.im)))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: Cx(sub(a.re, b.re), sub(a.im, b.im)))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: Cx(sub(b.re, a.re), sub(b.im, a.im)))

    def __mul__(self, o):
        return self._bin(
            o,
            lambda a, b: Cx(
                sub(mul(a.re, b.re), mul(a.im, b.im)),
                add(mul(a.re, b.im), mul(a.im, b.re)),
            ),
        )

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        o = Cx.of(o)
        if not isinstance(o.im, E) and o.im == 0:
            return Cx(div(self.re, o.re), div(self.im, o.re))
        d = add(mul(o.re, o.re), mul(o.im, o.im))
        n = self * o.conjugate()
        return Cx(div(n.re, d), div(n.im, d))

    def __rtruediv__(self, o):
        return Cx.of(o) / self

    def __neg__(self):
        return Cx(neg(self.re), neg(self.im))

    def __pow__(self, n):
        r = Cx(1, 0)
        for _ in range(int(n)):
            r = r * self
        return r

    def __abs__(self):
        return fn("sqrt", add(mul(self.re, self.re), mul(self.im, self.im)))

    absolute = __abs__

    def conjugate(self):
        return Cx(self.re, neg(self.im))

    conj = conjugate

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def exp(self):
        m = fn("exp", self.re)
        return Cx(mul(m, fn("cos", self.im)), mul(m, fn("sin", self.im)))

    def sqrt(self):
        if not isinstance(self.im, E) and self.im == 0:
            return Cx(fn("sqrt", self.re), 0)
        try:
            real = not poly(self.im)
            zero = real and isinstance(self.re, E) and not poly(self.re)
        except (Unsupported, ZeroDivisionError):
            real = False
        if real:
            return Cx(0 if zero else fn("sqrt", self.re), 0)
        raise Unsupported("complex sqrt")

    def __eq__(self, o):
        o = Cx.of(o)
        return band(eq(self.re, o.re), eq(self.im, o.im))

    def __ne__(self, o):
        return bnot(self == o)

    def __hash__(self):
        return hash((self.re, self.im))

    def __repr__(self):
        return "Cx(%r,%r)" % (self.re, self.im)

    def __float__(self):
        raise Unsupported("float() of a complex term")

    def __complex__(self):
        raise Unsupported("complex() of a complex term")


# --- polynomial normal form ------------------------------------------------
# A Laurent polynomial over atoms: dict mono -> coeff; mono is a tuple of
# (atom id, exponent) sorted by id.
ATOM = {}
INVTAB = {}
POLY_LIMIT = [400000]


def _mkey(m):
    return (-sum(k for _, k in m), m)


def _atom(e):
    ATOM[e.id] = e
    return {((e.id, 1),): 1}


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] < y[0]:
            out.append(x)
            i += 1
        elif x[0] > y[0]:
            out.append(y)
            j += 1
        else:
            k = x[1] + y[1]
            if k:
                out.append((x[0], k))
            i += 1
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def pscale(p, c):
    if c == 0:
        return {}
    if c == 1:
        return p
    return {m: v * c for m, v in p.items()}


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1 and () in p:
        return pscale(q, p[()])
    if len(q) == 1 and () in q:
        return pscale(p, q[()])
    if len(p) * len(q) > POLY_LIMIT[0]:
        raise Unsupported("polynomial too large (%d x %d)" % (len(p), len(q)))
    r = {}
    get = r.get
    need = False
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            v = get(m)
            r[m] = c1 * c2 if v is None else v + c1 * c2
    r = {m: c for m, c in r.items() if c != 0}
    return _reduce(r)


def _reduce(r):
    """Rewrite sqrt(x)^2 -> x, inverse atoms against their polynomials."""
    bad = None
    for m in r:
        for i, k in m:
            at = ATOM[i]
            if at.op == "fn" and at.a[0] == "sqrt" and (k >= 2 or k < 0):
                bad = True
                break
        if bad:
            break
    if not bad:
        return r
    out = {}
    for m, c in r.items():
        extra = None
        mm = []
        for i, k in m:
            at = ATOM[i]
            if at.op == "fn" and at.a[0] == "sqrt" and (k >= 2 or k < 0):
                h = k // 2  # floor: k = 2h + (0|1)
                arg = at.a[1]
                if isinstance(arg, tuple):
                    ap = {(): arg[1]}
                else:
                    ap = poly(arg)
                if h < 0:
                    ap = pinv(ap)
                for _ in range(abs(h)):
                    extra = ap if extra is None else pmul(extra, ap)
                if k - 2 * h:
                    mm.append((i, 1))
            else:
                mm.append((i, k))
        t = {tuple(mm): c}
        if extra is not None:
            t = pmul(t, extra)
        out = padd(out, t)
    return out


def pinv(p):
    if not p:
        raise ZeroDivisionError
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((i, -k) for i, k in m): F(1) / c}
    lead = min(p, key=_mkey)
    c = p[lead]
    q = {m: num(F(v) / c) for m, v in p.items()}
    # pull out a common monomial factor so that equal factors coincide
    com = None
    for m in q:
        d = dict(m)
        if com is None:
            com = d
        else:
            com = {i: min(k, d[i]) for i, k in com.items() if i in d}
        if not com:
            break
    if com:
        inv = tuple(sorted((i, -k) for i, k in com.items()))
        q = {_mmul(m, inv): v for m, v in q.items()}
        c_m = {tuple((i, k) for i, k in inv): F(1) / c}
    else:
        c_m = {(): F(1) / c}
    key = frozenset(q)
    for q2, e in INVTAB.get(key, ()):
        if all(_close(q2[m], q[m]) for m in q):
            break
    else:
        e = _mk("inv", (len(INVPOLY),), "R")
        INVTAB.setdefault(key, []).append((q, e))
        INVPOLY[e.id] = q
        ATOM[e.id] = e
    return pmul(c_m, {((e.id, 1),): 1})


INVPOLY = {}


def poly(e):
    """Laurent polynomial normal form of a term."""
    if not isinstance(e, E):
        e = num(e)
        return {(): e} if e != 0 else {}
    p = e._p
    if p is not None:
        return p
    # iterative post-order to avoid recursion depth limits
    st = [e]
    while st:
        x = st[-1]
        if x._p is not None:
            st.pop()
            continue
        if x.op in ("add", "mul", "neg", "div", "i2r") and not (x.op == "mul" and x.sort == "B"):
            todo = [y for y in x.a if isinstance(y, E) and y._p is None]
            if todo:
                st.extend(todo)
                continue
            ps = [y._p if isinstance(y, E) else ({(): y} if y != 0 else {}) for y in x.a]
            if x.op == "add":
                r = padd(ps[0], ps[1])
            elif x.op == "mul":
                r = pmul(ps[0], ps[1])
            elif x.op == "neg":
                r = pscale(ps[0], -1)
            elif x.op == "i2r":
                r = ps[0]
            else:
                r = pmul(ps[0], pinv(ps[1]))
            x._p = r
        else:
            x._p = _atom(x)
        st.pop()
    return e._p


def pdiff_zero(p, q, tol=F(1, 10**9)):
    """Monomials on which p and q differ by more than rounding of constants."""
    out = {}
    sc = None
    for m in set(p) | set(q):
        a, b = p.get(m, 0), q.get(m, 0)
        if a == b:
            continue
        if a != 0 and b != 0 and abs(a - b) <= tol * max(abs(a), abs(b)):
            continue
        if sc is None:
            sc = max([abs(v) for v in p.values()] + [abs(v) for v in q.values()])
        if abs(a - b) <= F(1, 10**12) * sc:
            continue
        out[m] = a - b
    return out


def pclear(p):
    """Multiply out inverse atoms and negative powers: returns a polynomial
    that vanishes iff p does (where all denominators are nonzero)."""
    for _ in range(64):
        worst = None
        for m in p:
            for i, k in m:
                if i in INVPOLY:
                    if worst is None or i > worst[0]:
                        worst = (i, k)
                    elif i == worst[0] and k > worst[1]:
                        worst = (i, k)
        if worst is None:
            break
        i0 = worst[0]
        kmax = max(dict(m).get(i0, 0) for m in p)
        q = INVPOLY[i0]
        pw = [{(): 1}]
        for _k in range(kmax):
            pw.append(pmul(pw[-1], q))
        out = {}
        for m, c in p.items():
            k = dict(m).get(i0, 0)
            mm = tuple(t for t in m if t[0] != i0)
            out = padd(out, pmul({mm: c}, pw[kmax - k]))
        p = out
    # negative exponents
    mins = {}
    for m in p:
        for i, k in m:
            if k < mins.get(i, 0):
                mins[i] = k
    if mins:
        f = tuple(sorted((i, -k) for i, k in mins.items()))
        p = {_mmul(m, f): c for m, c in p.items()}
        p = _reduce(p)
    return {m: c for m, c in p.items() if c != 0}


# --- numeric evaluation ------------------------------------------------------
_FN = {
    "sqrt": math.sqrt, "exp": math.exp, "cos": math.cos, "sin": math.sin,
    "sinh": math.sinh, "cosh": math.cosh, "log": math.log,
}


class EvalError(Exception):
    pass


def evalf(e, env, memo=None):
    """Evaluate a term to a float/int/bool under env: var name -> number."""
    if not isinstance(e, E):
        return e if isinstance(e, (bool, int)) else float(e)
    if memo is None:
        memo = {}
    st = [e]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        todo = [y for y in x.a if isinstance(y, E) and y.id not in memo]
        if todo:
            st.extend(todo)
            continue
        v = [memo[y.id] if isinstance(y, E) else y for y in x.a]
        o = x.op
        try:
            if o == "var":
                r = env[x.a[0]]
            elif o == "inv":
                r = 0.0
                for m, c in INVPOLY[x.id].items():
                    t = float(c)
                    for i, k in m:
                        t *= float(evalf(ATOM[i], env, memo)) ** k
                    r += t
                r = 1.0 / r
            elif o == "add":
                r = v[0] + v[1]
            elif o == "mul":
                r = v[0] * v[1]
            elif o == "neg":
                r = -v[0]
            elif o == "div":
                r = v[0] / v[1]
            elif o == "sdiv":
                r = _cdiv(v[0], v[1])
            elif o == "srem":
                r = v[0] - v[1] * _cdiv(v[0], v[1])
            elif o == "fdiv":
                r = v[0] // v[1]
            elif o == "fmod":
                r = v[0] % v[1]
            elif o == "i2r":
                r = v[0]
            elif o == "trunc":
                r = int(v[0])
            elif o == "floor":
                r = math.floor(v[0])
            elif o == "fn":
                a = v[1]
                if isinstance(a, tuple):
                    a = a[1]
                r = _FN[v[0]](float(a))
            elif o == "lt":
                r = v[0] < v[1]
            elif o == "eq":
                r = v[0] == v[1]
            elif o == "not":
                r = not v[0]
            elif o == "and":
                r = all(v)
            elif o == "or":
                r = any(v)
            elif o == "ite":
                r = v[1] if v[0] else v[2]
            elif o == "ufn":
                r = env[x.a[0]](*[float(t) for t in v[1:]])
            else:
                raise EvalError(o)
        except (ZeroDivisionError, OverflowError, ValueError) as ex:
            raise EvalError(str(ex))
        memo[x.id] = r
        st.pop()
    return memo[e.id]


# --- lowering to z3 -----------------------------------------------------------
z3 = None


def _load_z3():
    global z3
    if z3 is None:
        import z3 as _z3

        z3 = _z3
    return z3


def zval(x, sort):
    if sort == "I":
        return z3.IntVal(int(x))
    f = F(x)
    return z3.RealVal(f.numerator) / z3.RealVal(f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)


_zfn = {}


def zfn(name, n=1):
    k = (name, n)
    f = _zfn.get(k)
    if f is None:
        f = z3.Function("f_" + name, *([z3.RealSort()] * (n + 1)))
        _zfn[k] = f
    return f


_zcache = {}


def zclear():
    _zcache.clear()
    _zfn.clear()


def to_z3(e, sort=None, apps=None):
    """Lower a term; ``apps`` collects fn applications for axioms."""
    _load_z3()
    if not isinstance(e, E):
        if isinstance(e, (bool, _np.bool_)):
            return z3.BoolVal(bool(e))
        return zval(e, sort or ("I" if type(e) is int else "R"))
    st = [e]
    cache = _zcache
    while st:
        x = st[-1]
        if x.id in cache:
            st.pop()
            continue
        todo = [y for y in x.a if isinstance(y, E) and y.id not in cache]
        if todo:
            st.extend(todo)
            continue
        o = x.op

        def g(i, want=None):
            y = x.a[i]
            if isinstance(y, E):
                z = cache[y.id]
                if want == "R" and y.sort == "I":
                    return z3.ToReal(z)
                return z
            return zval(y, want or "I")

        if o == "var":
            if x.sort == "R":
                z = z3.Real(x.a[0])
            elif x.sort == "I":
                z = z3.Int(x.a[0])
            else:
                z = z3.Bool(x.a[0])
        elif o in ("add", "mul"):
            z = g(0, x.sort) + g(1, x.sort) if o == "add" else g(0, x.sort) * g(1, x.sort)
        elif o == "neg":
            z = -g(0, x.sort)
        elif o == "div":
            z = g(0, "R") / g(1, "R")
        elif o in ("sdiv", "srem"):
            a, b = g(0), g(1)
            ax, bx = x.a
            nb = not isinstance(bx, E)
            if nb and isinstance(ax, E) and ax.lo is not None and ax.lo >= 0 and bx > 0:
                z = a / b if o == "sdiv" else a % b
            else:
                ab = z3.If(b >= 0, b, -b) if not nb else z3.IntVal(abs(bx))
                q = z3.If(a >= 0, a / ab, -((-a) / ab))
                if o == "sdiv":
                    z = z3.If(b >= 0, q, -q) if not nb else (q if bx > 0 else -q)
                else:
                    z = z3.If(a >= 0, a % ab, -((-a) % ab))
        elif o == "fdiv":
            z = g(0) / g(1)
        elif o == "fmod":
            z = g(0) % g(1)
        elif o == "i2r":
            z = z3.ToReal(g(0))
        elif o == "floor":
            z = z3.ToInt(g(0, "R"))
        elif o == "trunc":
            a = g(0, "R")
            z = z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
        elif o == "fn":
            a = x.a[1]
            a = zval(a[1], "R") if isinstance(a, tuple) else g(1, "R")
            z = zfn(x.a[0])(a)
            cache[("app", x.id)] = (x.a[0], a, z)
        elif o == "ufn":
            z = zfn(x.a[0], len(x.a) - 1)(*[g(i, "R") for i in range(1, len(x.a))])
        elif o in ("lt", "eq"):
            s = "R" if any((y.sort if isinstance(y, E) else ("I" if type(y) is int else "R")) == "R" for y in x.a if isinstance(y, E) or type(y) is not int) else "I"
            a, b = g(0, s), g(1, s)
            z = a < b if o == "lt" else a == b
        elif o == "not":
            z = z3.Not(g(0))
        elif o == "and":
            z = z3.And(*[g(i) for i in range(len(x.a))])
        elif o == "or":
            z = z3.Or(*[g(i) for i in range(len(x.a))])
        elif o == "ite":
            z = z3.If(g(0), g(1, x.sort), g(2, x.sort))
        elif o == "inv":
            z = 1 / poly_z3(INVPOLY[x.id])
        else:
            raise Unsupported("to_z3 " + o)
        cache[x.id] = z
        st.pop()
    r = cache[e.id]
    if sort == "R" and e.sort == "I":
        r = z3.ToReal(r)
    return r


def fapps(e, seen=None, out=None):
    """Transcendental applications inside a term."""
    if out is None:
        out = []
    if seen is None:
        seen = set()
    st = [e]
    while st:
        x = st.pop()
        if not isinstance(x, E) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "fn":
            out.append(x)
        if x.op == "inv":
            for m in INVPOLY[x.id]:
                st.extend(ATOM[i] for i, _ in m)
        st.extend(x.a)
    return out


def freevars(e, seen=None, out=None):
    if out is None:
        out = {}
    if seen is None:
        seen = set()
    st = [e]
    while st:
        x = st.pop()
        if not isinstance(x, E) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "var":
            out[x.a[0]] = x
        if x.op == "inv":
            for m in INVPOLY[x.id]:
                st.extend(ATOM[i] for i, _ in m)
        st.extend(x.a)
    return out


def axioms(apps):
    """Facts about the transcendental functions used in a query."""
    _load_z3()
    ax = []
    for x in apps:
        z = to_z3(x)
        name, a = x.a
        if isinstance(a, tuple):
            c = a[1]
            v = _FN[name](float(c))
            d = abs(v) * 1e-9 + 1e-12
            ax += [z > zval(F(v - d), "R"), z < zval(F(v + d), "R")]
            if name == "sqrt":
                ax += [z * z == zval(c, "R")]
            continue
        za = to_z3(a, "R")
        if name == "sqrt":
            ax += [z >= 0, z3.Implies(za >= 0, z * z == za)]
        elif name == "exp":
            ax += [z > 0, z3.Implies(za > 0, z > 1), z3.Implies(za < 0, z < 1), z3.Implies(za == 0, z == 1), z >= 1 + za]
        elif name in ("sinh",):
            ax += [z3.Implies(za > 0, z > za), z3.Implies(za < 0, z < za), z3.Implies(za == 0, z == 0)]
        elif name == "cosh":
            ax += [z >= 1]
        elif name in ("cos", "sin"):
            ax += [z <= 1, z >= -1]
            if name == "cos":
                s = zfn("sin")(za)
                ax += [z * z + s * s == 1]
    return ax


def poly_z3(p):
    _load_z3()
    ts = []
    for m, c in sorted(p.items()):
        t = zval(c, "R")
        for i, k in m:
            z = to_z3(ATOM[i], "R")
            if k < 0:
                z = 1 / z
                k = -k
            for _ in range(k):
                t = t * z
        ts.append(t)
    if not ts:
        return z3.RealVal(0)
    return z3.Sum(ts) if len(ts) > 1 else ts[0]
