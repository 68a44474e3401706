"""Path exploration by replay, solver queries and the harness contexts."""
import time
import math
import random
from fractions import Fraction
import numpy as np

from . import expr as X
from .expr import E, Unsupported, Cx
from .llvm import MemError, AssertFail

F = Fraction


class Infeasible(BaseException):
    """The current path contradicts the assumptions."""


class Stop(BaseException):
    """Exploration of this path ends here."""


class Violation(BaseException):
    def __init__(self, label, env, detail=""):
        self.label = label
        self.env = env
        self.detail = detail


class Inconclusive(Exception):
    pass


class Stats:
    def __init__(self):
        self.paths = 0
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.asserts = 0
        self.reach = {}
        self.labels = {}
        self.samples = []

    def add(self, o):
        for k in ("paths", "queries", "unsat", "sat", "unknown", "solver_s", "asserts"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.reach.items():
            self.reach[k] = self.reach.get(k, 0) + v
        for k, v in o.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        self.samples = (self.samples + o.samples)[:12]


class SymCtx:
    """Symbolic context: one instance per path."""

    symbolic = True

    def __init__(self, prefix, stats, opts):
        self.prefix = prefix
        self.ndec = 0
        self.new = []  # alternative prefixes
        self.stats = stats
        self.opts = opts
        self.vars = {}
        self.ranges = {}
        self.pc = []
        self.plain = set()
        self.known = {}
        self.model = None
        self.pend = []
        self.divs = []
        self.merge_select = opts.get("merge_select", False)
        self.fork_abs = opts.get("fork_abs", True)
        self.ite_mem = opts.get("ite_mem", 0)
        self.machine = opts.get("machine")
        z3 = X._load_z3()
        self.z3 = z3
        if opts.get("nra"):
            self.solver = z3.Tactic("qfnra-nlsat").solver()
        else:
            self.solver = z3.Solver()
        self.timeout = opts.get("query_ms", 20000)
        self.solver.set("timeout", self.timeout)
        self.appseen = set()
        self.nhavoc = 0
        self.trace = []
        self.decs = []

    # variables ------------------------------------------------------------
    def real(self, name, lo=None, hi=None, pos=False):
        if name in self.vars:
            return self.vars[name]
        v = X.real(name, pos)
        self.vars[name] = v
        self.ranges[name] = (lo, hi)
        npc = len(self.pc)
        if pos:
            self._add(X.lt(0, v) if False else X._mk("lt", (0, v), "B"))
        if lo is not None and not (pos and lo <= 0):
            self._add(X._mk("not", (X._mk("lt", (v, X.num(lo)), "B"),), "B"))
        if hi is not None:
            self._add(X._mk("not", (X._mk("lt", (X.num(hi), v), "B"),), "B"))
        self.plain.update(c.id for c in self.pc[npc:])
        return v

    def int(self, name, lo, hi):
        if name in self.vars:
            return self.vars[name]
        if lo == hi:
            self.vars[name] = lo
            self.ranges[name] = (lo, hi)
            return lo
        v = X.integer(name, lo, hi)
        self.vars[name] = v
        self.ranges[name] = (lo, hi)
        z = self.z3.Int(name)
        self.solver.add(z >= lo, z <= hi)
        return v

    def bool(self, name):
        v = X.boolean(name)
        self.vars[name] = v
        return v

    def reals(self, name, shape, lo=None, hi=None, pos=False):
        a = np.empty(shape, dtype=object)
        for ix in np.ndindex(*a.shape):
            a[ix] = self.real(name + "_" + "_".join(map(str, ix)), lo, hi, pos)
        return symarr(a)

    def ints(self, name, shape, lo, hi):
        a = np.empty(shape, dtype=object)
        for ix in np.ndindex(*a.shape):
            a[ix] = self.int(name + "_" + "_".join(map(str, ix)), lo, hi)
        return symarr(a)

    def flags(self, name, shape):
        """0/1 bytes (dtype "byte")."""
        a = self.ints(name, shape, 0, 1)
        a.esz = 1
        return a

    def complexes(self, name, shape, lo=None, hi=None):
        a = np.empty(shape, dtype=object)
        for ix in np.ndindex(*a.shape):
            s = name + "_" + "_".join(map(str, ix))
            a[ix] = Cx(self.real(s + "_re", lo, hi), self.real(s + "_im", lo, hi))
        return symarr(a)

    def const(self, x):
        """A concrete real array/number as exact values."""
        return exact(x)

    def havoc(self, tag):
        self.nhavoc += 1
        n = "havoc_%s_%d" % (tag, self.nhavoc)
        v = X.real(n)
        self.vars[n] = v
        self.ranges[n] = (None, None)
        return v

    def note_divisor(self, b):
        self.divs.append(b)

    # constraints ------------------------------------------------------------
    def _axioms(self, c):
        seen = set()
        for a in X.fapps(c):
            if a.id not in self.appseen:
                self.appseen.add(a.id)
                for x in X.axioms([a]):
                    self.solver.add(x)
                if isinstance(a.a[1], E):
                    pass

    def _add(self, c):
        self.pc.append(c)
        self._axioms(c)
        self.solver.add(X.to_z3(c))
        if self.model is not None:
            try:
                if not X.evalf(c, self.model):
                    self.model = None
            except (X.EvalError, KeyError, OverflowError):
                self.model = None

    def _check(self, *extra):
        t = time.time()
        self.stats.queries += 1
        try:
            r = self.solver.check(*extra)
        except self.z3.Z3Exception as ex:
            raise Inconclusive("z3: %s" % ex)
        self.stats.solver_s += time.time() - t
        r = str(r)
        if r == "sat":
            self.stats.sat += 1
        elif r == "unsat":
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def _model(self):
        m = self.solver.model()
        env = {}
        for n, v in self.vars.items():
            if not isinstance(v, E):
                env[n] = v
                continue
            z = X.to_z3(v)
            val = m.eval(z, model_completion=True)
            env[n] = zpy(val, self.z3)
        return env

    def _query(self, c):
        """Is pc and c satisfiable?  (updates nothing but returns a model)"""
        if not isinstance(c, E):
            if not c:
                return "unsat", None
            r = self._check()
            return r, (self._model() if r == "sat" else None)
        self._axioms(c)
        self.solver.push()
        try:
            self.solver.add(X.to_z3(c))
            r = self._check()
            env = self._model() if r == "sat" else None
        finally:
            self.solver.pop()
        return r, env

    def assume(self, c):
        if not isinstance(c, E):
            if not c:
                raise Infeasible()
            return
        self._add(c)
        if c.op == "and":
            for x in c.a:
                self.known[x.id] = True
        self.known[c.id] = True

    def feasible(self):
        r = self._check()
        if r == "unsat":
            raise Infeasible()
        if r == "sat":
            self.model = self._model()

    def _quick(self, c):
        """Decide a condition syntactically (constant polynomial difference)."""
        if c.op == "not":
            r = self._quick(c.a[0])
            return None if r is None else not r
        if c.op in ("lt", "eq"):
            a, b = c.a
            if (isinstance(a, E) and a.sort == "B") or (isinstance(b, E) and b.sort == "B"):
                return None
            try:
                p = X.padd(X.poly(b), X.pscale(X.poly(a), -1))
            except (Unsupported, ZeroDivisionError):
                return None
            if not p:
                return c.op == "eq"
            if len(p) == 1 and () in p:
                return p[()] > 0 if c.op == "lt" else False
            # all atoms numeric constants?
            ids = {i for m in p for i, _ in m}
            if all(X.ATOM[i].op == "fn" and isinstance(X.ATOM[i].a[1], tuple) for i in ids):
                v = sum(float(cf) * math.prod(X.evalf(X.ATOM[i], {}) ** k for i, k in m) for m, cf in p.items())
                sc = sum(abs(float(cf)) * abs(math.prod(X.evalf(X.ATOM[i], {}) ** k for i, k in m)) for m, cf in p.items())
                if abs(v) > 1e-11 * sc:
                    return v > 0 if c.op == "lt" else False
                return False if c.op == "lt" else True
            # sign of a sum of positive monomials
            if c.op == "lt":
                sg = set()
                for m, cf in p.items():
                    if all(X.ATOM[i].pos or (k % 2 == 0 and k > 0 and False) for i, k in m):
                        sg.add(1 if cf > 0 else -1)
                    else:
                        return None
                if sg == {1}:
                    return True
                if sg == {-1}:
                    return False
        return None

    def branch(self, c):
        if not isinstance(c, E):
            return bool(c)
        if c.op == "not":
            return not self.branch(c.a[0])
        k = self.known.get(c.id)
        if k is not None:
            return k
        q = self._quick(c)
        if q is not None:
            self.known[c.id] = q
            return q
        i = self.ndec
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if self.model is None:
                r = self._check()
                if r == "unsat":
                    raise Infeasible()
                if r == "sat":
                    self.model = self._model()
            s = None
            if self.model is not None:
                try:
                    s = bool(X.evalf(c, self.model))
                except (X.EvalError, KeyError, OverflowError):
                    s = None
            if s is None:
                r1, e1 = self._query(c)
                r2, e2 = self._query(X.bnot(c))
                if r1 == "unsat" and r2 == "unsat":
                    raise Infeasible()
                if r1 == "unsat":
                    d = False
                elif r2 == "unsat":
                    d = True
                else:
                    d = True
                    self.new.append(self.decs + [False])
                if (e1 if d else e2) is not None:
                    self.model = e1 if d else e2
            else:
                r, _ = self._query(X.bnot(c) if s else c)
                d = s
                if r != "unsat":
                    self.new.append(self.decs + [not s])
        self.ndec += 1
        self.decs = self.decs + [d]
        self.known[c.id] = d
        self._add(c if d else X.bnot(c))
        mp = self.opts.get("max_depth", 4000)
        if self.ndec > mp:
            raise Inconclusive("more than %d symbolic branches on one path" % mp)
        return d

    def concretize(self, e):
        if not isinstance(e, E):
            return int(e)
        if e.lo is not None and e.lo == e.hi:
            return e.lo
        p = X.poly(e)
        if not p:
            return 0
        if len(p) == 1 and () in p:
            return int(p[()])
        # a value forced by an earlier decision on this path
        k = ("val", e.id)
        if k in self.known:
            return self.known[k]
        while True:
            # deterministic candidate order so that replay is stable
            i = self.ndec
            if i < len(self.prefix):
                v = self.prefix[i]
                if not isinstance(v, tuple):
                    raise Inconclusive("nondeterministic replay")
                val, taken = v
            else:
                r = self._check()
                if r == "unsat":
                    raise Infeasible()
                if r != "sat":
                    raise Inconclusive("unknown while enumerating an index")
                self.model = self._model()
                z = self.solver.model().eval(X.to_z3(e), model_completion=True)
                val = int(zpy(z, self.z3))
                taken = True
                rr, _ = self._query(X.ne(e, val))
                if rr != "unsat":
                    self.new.append(self.decs + [(val, False)])
            self.ndec += 1
            self.decs = self.decs + [(val, taken)]
            c = X.eq(e, val)
            if taken:
                if isinstance(c, E):
                    self._add(c)
                self.known[k] = val
                return val
            nc = X.bnot(c)
            if isinstance(nc, E):
                self._add(nc)
            self.model = None

    def candidates(self, e, lo, hi, step):
        """Feasible concrete values of an offset (None if too many)."""
        k = ("cand", e.id)
        if k in self.known:
            return self.known[k]
        out = []
        self.solver.push()
        try:
            z = X.to_z3(e)
            while True:
                r = self._check()
                if r == "unsat":
                    break
                if r != "sat":
                    out = None
                    break
                v = int(zpy(self.solver.model().eval(z, model_completion=True), self.z3))
                out.append(v)
                if len(out) > self.ite_mem:
                    out = None
                    break
                self.solver.add(z != v)
        finally:
            self.solver.pop()
        if out is not None:
            out.sort()
        self.known[k] = out
        return out

    # assertions ------------------------------------------------------------
    def reach(self, label):
        self.stats.reach[label] = self.stats.reach.get(label, 0) + 1

    def check(self, c, label, detail=""):
        self.stats.asserts += 1
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        if not isinstance(c, E):
            if c:
                return
            r = self._check()
            if r == "unsat":
                raise Infeasible()
            env = self._model() if r == "sat" else None
            raise Violation(label, env, detail)
        if self.known.get(c.id) is True:
            return
        q = self._quick(c)
        if q is True:
            return
        self.pend.append((X.bnot(c), label, detail))
        if len(self.pend) >= self.opts.get("batch", 60):
            self.flush()

    def equal(self, a, b, label, scale=1.0, tol=None, rtol=None):
        """a == b (exactly, up to rounding of literal constants)."""
        if a is None or b is None:
            self.check(a is None and b is None, label, "nothing there")
            return
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a = np.asarray(a, dtype=object)
            b = np.asarray(b, dtype=object)
            if a.shape != b.shape:
                try:
                    b = np.broadcast_to(b, a.shape)
                except ValueError:
                    self.check(False, label + " shape")
            for ix in np.ndindex(*a.shape):
                self.equal(a[ix], b[ix], label, scale)
            return
        if isinstance(a, (Cx, complex, np.complexfloating)) or isinstance(b, (Cx, complex, np.complexfloating)):
            a, b = Cx.of(a), Cx.of(b)
            self.equal(a.re, b.re, label, scale)
            self.equal(a.im, b.im, label, scale)
            return
        self.stats.asserts += 1
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        if not isinstance(a, E) and not isinstance(b, E):
            a, b = X.num(a), X.num(b)
            if abs(a - b) <= F(1, 10**9) * max(abs(a), abs(b), F(X.num(scale))):
                return
            self.check(False, label, "%s != %s" % (float(a), float(b)))
            return
        if isinstance(a, E) and isinstance(b, E) and a is b:
            return
        try:
            pa, pb = X.poly(a), X.poly(b)
            d = X.pdiff_zero(pa, pb)
            if d:
                if len({i for m in d for i, _ in m if i in X.INVPOLY}) > 3:
                    # clearing many denominators is costly: ask at one point first
                    for m in d:
                        for i, _ in m:
                            self._axioms(X.ATOM[i])
                    self._falsify([(X.poly_z3(d) != 0, label, "", d)])
                d2 = X.pclear(d)
                # rounding-size remainders
                if d2:
                    sc = max(abs(v) for v in X.pclear(pa).values()) if pa else 1
                    if scale >= 10:  # values of this size are meant
                        sc = max(sc, F(X.num(scale)))
                    mx = max(abs(v) for v in d2.values())
                    if mx <= F(1, 10**11) * sc:
                        d2 = {}
                d = d2
            self.pend.append((("polyne", pa, pb, d), label, ""))
        except (Unsupported, ZeroDivisionError):
            self.pend.append((X.ne(a, b), label, ""))
        if len(self.pend) >= self.opts.get("batch", 60):
            self.flush()

    def flush(self):
        if not self.pend:
            return
        z3 = self.z3
        pend, self.pend = self.pend, []
        hard = []
        zs = []
        for c, label, det in pend:
            if isinstance(c, tuple) and c[0] == "polyne":
                _, pa, pb, d = c
                if not d:
                    # normal forms coincide: the solver sees the literal difference
                    zs.append(z3.RealVal(0) != z3.RealVal(0))
                    continue
                for m in d:
                    for i, _ in m:
                        self._axioms(X.ATOM[i])
                z = X.poly_z3(d) != 0
                hard.append((z, label, det, d))
            else:
                self._axioms(c)
                z = X.to_z3(c)
                hard.append((z, label, det, None))
            zs.append(z)
        self._falsify(hard)
        self.solver.push()
        self.solver.add(z3.Or(*zs) if len(zs) > 1 else zs[0])
        r = self._check()
        if r == "unsat":
            self.solver.pop()
            return
        env = self._model() if r == "sat" else None
        self.solver.pop()
        # find out which
        unk = []
        for z, label, det, d in hard:
            if len(hard) > 1 or r != "sat":
                self.solver.push()
                self.solver.add(z)
                rr = self._check()
                e2 = self._model() if rr == "sat" else None
                self.solver.pop()
            else:
                rr, e2 = r, env
            if rr == "sat":
                raise Violation(label, e2, det)
            if rr != "unsat":
                # try pinned random points of the path: still the solver's verdict
                e2 = self._pinned(z)
                if e2 is not None:
                    raise Violation(label, e2, det)
                unk.append(label)
        if unk:
            raise Inconclusive("solver unknown on: %s" % ", ".join(sorted(set(unk)))[:300])

    def _spread(self):
        """The model of the path, with values other than the solver's defaults
        for the reals on which nothing but their ranges depends."""
        tied, seen = {}, set()
        for c in self.pc:
            if isinstance(c, E) and c.id not in self.plain:
                X.freevars(c, seen, tied)
        rnd = random.Random(7)
        env = dict(self.model)
        for n, v in self.vars.items():
            if isinstance(v, E) and v.sort == "R" and n not in tied and n in self.ranges:
                lo, hi = self.ranges[n]
                a = F(lo) if lo is not None else F(-3) if hi is None else F(hi) - 4
                a = max(a, F(1, 16)) if v.pos else a
                b = F(hi) if hi is not None else a + 4
                env[n] = a + (b - a) * F(rnd.randint(1, 63), 64)
        return env

    def _falsify(self, hard):
        """Ask the solver first at a model of the path (all inputs pinned):
        a wrong value shows there at once in most cases."""
        if not hard:
            return
        if self.model is None:
            if self._check() != "sat":
                return
            self.model = self._model()
        envs = [self.model]
        for at in (0, 1):
            if at and not any(d is not None for _, _, _, d in hard):
                return
            if at:
                envs.append(self._spread())
            env = envs[at]
            for z, label, det, d in hard:
                if d is None:
                    continue
                try:
                    v = sc = 0.0
                    for m, cf in d.items():
                        t = float(cf) * math.prod(float(X.evalf(X.ATOM[i], env)) ** k for i, k in m)
                        v += t
                        sc += abs(t)
                except (X.EvalError, KeyError, OverflowError, ZeroDivisionError, ValueError):
                    continue
                if not abs(v) > 1e-7 * sc:
                    continue
                self.solver.push()
                try:
                    for n, x in self.vars.items():
                        if isinstance(x, E) and n in env and not isinstance(env[n], float):
                            if x.sort == "B":
                                self.solver.add(X.to_z3(x) == bool(env[n]))
                            else:
                                self.solver.add(X.to_z3(x) == X.zval(env[n], x.sort))
                    self.solver.add(z)
                    self.solver.set("timeout", 4000)
                    r = self._check()
                    e2 = self._model() if r == "sat" else None
                finally:
                    self.solver.set("timeout", self.timeout)
                    self.solver.pop()
                if e2 is not None:
                    raise Violation(label, e2, det)

    def _pinned(self, z):
        z3 = self.z3
        rnd = random.Random(1)
        for _ in range(6):
            env = {}
            for n, v in self.vars.items():
                if not isinstance(v, E):
                    continue
                lo, hi = self.ranges.get(n, (None, None))
                if v.sort == "R":
                    base = self.model.get(n) if self.model and rnd.random() < 0.5 else None
                    if base is not None:
                        env[n] = F(base) if not isinstance(base, float) else F(base)
                    else:
                        a = F(lo) if lo is not None else (F(1, 16) if v.pos else F(-3))
                        b = F(hi) if hi is not None else F(3)
                        env[n] = a + (b - a) * F(rnd.randint(1, 63), 64)
            self.solver.push()
            for n, val in env.items():
                self.solver.add(X.to_z3(self.vars[n]) == X.zval(val, "R"))
            self.solver.add(z)
            r = self._check()
            e2 = self._model() if r == "sat" else None
            self.solver.pop()
            if e2 is not None:
                return e2
        return None

    # term helpers shared with NumCtx --------------------------------------------
    @staticmethod
    def fn(name, x):
        if isinstance(x, np.ndarray):
            return _map(symarr(np.asarray(x, dtype=object)), lambda v: X.fn(name, v))
        return X.fn(name, x)

    @staticmethod
    def If(c, a, b):
        if not isinstance(c, E):
            return a if c else b
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = Cx.of(a), Cx.of(b)
            return Cx(X.ite(c, a.re, b.re), X.ite(c, a.im, b.im))
        return X.ite(c, a, b)

    @staticmethod
    def eq(a, b):
        return X.eq(a, b)

    @staticmethod
    def ne(a, b):
        return X.ne(a, b)

    @staticmethod
    def And(*a):
        return X.band(*a)

    @staticmethod
    def Or(*a):
        return X.bor(*a)

    @staticmethod
    def Not(a):
        return X.bnot(a)

    @staticmethod
    def num(x):
        return X.num(x)

    def out(self, shape, dtype="double"):
        """Uninitialised output array."""
        k = np.dtype(dtype).kind
        if k in "fc":
            a = np.empty(shape, dtype=object).view(SymArr)
            a.is_cx = k == "c"
        else:
            a = np.empty(shape, dtype=object).view(SymArr)
            a.esz = np.dtype(dtype).itemsize
        return a

    # code under test ---------------------------------------------------------
    def call(self, name, *args):
        return self.opts["backend"].call(self, name, *args)

    def done(self):
        self.flush()


def zpy(v, z3):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = F(v.numerator_as_long(), v.denominator_as_long())
        return f.numerator if f.denominator == 1 else f
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return F(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise Inconclusive("model value %s" % v)


class ReplayFail(BaseException):
    def __init__(self, label, detail=""):
        self.label = label
        self.detail = detail


class NumCtx:
    """Concrete context: replays a harness on the natively compiled code."""

    symbolic = False

    def __init__(self, env, opts, rnd=None):
        self.env = env
        self.opts = opts
        self.rnd = rnd
        self.used = {}
        self.stats = Stats()
        self.maxscale = 0.0

    def _val(self, name, lo, hi, pos, isint):
        if name in self.used:
            return self.used[name]
        v = self.env.get(name) if self.env else None
        if v is None or (self.rnd is not None and self.rnd[0] == "all"):
            r = self.rnd[1] if self.rnd else random.Random(0)
            if isint:
                v = r.randint(lo, hi)
            else:
                a = float(lo) if lo is not None else (0.05 if pos else -2.0)
                b = float(hi) if hi is not None else 3.0
                v = a + (b - a) * r.random()
        elif self.rnd is not None and self.rnd[0] == "near" and not isint:
            r = self.rnd[1]
            v = float(v) * (1 + 1e-3 * (r.random() - 0.5)) + 1e-3 * (r.random() - 0.5)
            if lo is not None:
                v = max(v, float(lo))
            if hi is not None:
                v = min(v, float(hi))
            if pos:
                v = max(v, 1e-6)
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, pos=False):
        return float(self._val(name, lo, hi, pos, False))

    def int(self, name, lo, hi):
        return int(self._val(name, lo, hi, False, True))

    def bool(self, name):
        return bool(self._val(name, 0, 1, False, True))

    def reals(self, name, shape, lo=None, hi=None, pos=False):
        a = np.empty(shape, dtype="double")
        for ix in np.ndindex(*a.shape):
            a[ix] = self.real(name + "_" + "_".join(map(str, ix)), lo, hi, pos)
        return a

    def ints(self, name, shape, lo, hi):
        a = np.empty(shape, dtype="int64")
        for ix in np.ndindex(*a.shape):
            a[ix] = self.int(name + "_" + "_".join(map(str, ix)), lo, hi)
        return a

    def flags(self, name, shape):
        return self.ints(name, shape, 0, 1).astype("byte")

    def complexes(self, name, shape, lo=None, hi=None):
        a = np.empty(shape, dtype="c16")
        for ix in np.ndindex(*a.shape):
            s = name + "_" + "_".join(map(str, ix))
            a[ix] = self.real(s + "_re", lo, hi) + 1j * self.real(s + "_im", lo, hi)
        return a

    def const(self, x):
        return numeric(x)

    def assume(self, c):
        if not c:
            raise Infeasible()

    def feasible(self):
        pass

    def branch(self, c):
        return bool(c)

    def concretize(self, e):
        return int(e)

    def reach(self, label):
        pass

    def check(self, c, label, detail=""):
        if not c:
            raise ReplayFail(label, detail)

    def equal(self, a, b, label, scale=1.0, tol=None, rtol=None):
        if a is None or b is None:
            self.check(a is None and b is None, label, "nothing there")
            return
        a = np.asarray(a, dtype="complex128") if np.iscomplexobj(np.asarray(a)) or np.iscomplexobj(np.asarray(b)) else np.asarray(a, dtype="double")
        b = np.asarray(b)
        if a.shape != b.shape:
            try:
                b = np.broadcast_to(b, a.shape)
            except ValueError:
                raise ReplayFail(label, "shape %s vs %s" % (a.shape, b.shape))
        if not np.isfinite(b).all():
            raise Infeasible()  # the oracle itself is singular here
        d = np.abs(a - b)
        rt = rtol if rtol is not None else self.opts.get("rtol", 1e-6)
        lim = rt * np.maximum(np.maximum(np.abs(a), np.abs(b)), float(scale) * 1e-3)
        bad = ~(d <= lim)
        if bad.any():
            ix = tuple(int(t) for t in np.argwhere(bad)[0])
            raise ReplayFail(label, "at %s: code gives %s, expected %s" % (ix, a[ix], b[ix]))

    @staticmethod
    def fn(name, x):
        return getattr(np, name)(x)

    @staticmethod
    def If(c, a, b):
        return a if c else b

    @staticmethod
    def eq(a, b):
        return a == b

    @staticmethod
    def ne(a, b):
        return a != b

    @staticmethod
    def And(*a):
        return all(a)

    @staticmethod
    def Or(*a):
        return any(a)

    @staticmethod
    def Not(a):
        return not a

    @staticmethod
    def num(x):
        return x

    def out(self, shape, dtype="double"):
        a = np.empty(shape, dtype=dtype)
        a[...] = np.nan if a.dtype.kind in "fc" else 77
        return a

    def call(self, name, *args):
        return self.opts["native"].call(self, name, *args)

    def done(self):
        pass


class SymArr(np.ndarray):
    """Object array of terms with .real/.imag/.conj that reach the elements."""

    def __array_finalize__(self, o):
        self.esz = getattr(o, "esz", 8)
        self.is_cx = getattr(o, "is_cx", False)

    def __array_wrap__(self, a, context=None, return_scalar=False):
        if a.ndim == 0:
            return a[()]
        return np.ndarray.__array_wrap__(self, a, context, return_scalar) if a is not self else a

    @property
    def real(self):
        if self.dtype == object:
            return _map(self, lambda x: x.real if isinstance(x, (Cx, complex, np.complexfloating)) else x)
        return np.ndarray.__getattribute__(self, "view")(np.ndarray).real

    @real.setter
    def real(self, v):
        v = np.broadcast_to(np.asarray(v, dtype=object), self.shape)
        for ix in np.ndindex(*self.shape):
            self[ix] = Cx(v[ix], Cx.of(self[ix]).im)

    @property
    def imag(self):
        if self.dtype == object:
            return _map(self, lambda x: x.imag if isinstance(x, (Cx, complex, np.complexfloating)) else 0)
        return self.view(np.ndarray).imag

    @imag.setter
    def imag(self, v):
        v = np.broadcast_to(np.asarray(v, dtype=object), self.shape)
        for ix in np.ndindex(*self.shape):
            self[ix] = Cx(Cx.of(self[ix]).re, v[ix])

    def conj(self):
        if self.dtype == object:
            return _map(self, lambda x: x.conjugate() if isinstance(x, (Cx, complex, np.complexfloating)) else x)
        return np.ndarray.conj(self)

    conjugate = conj

    def astype(self, dtype, *a, **k):
        if self.dtype == object and is_float_dtype(dtype):
            return self.copy()
        if self.dtype == object and np.dtype(dtype).kind in "iu":
            if any(isinstance(x, (E, F)) for x in self.ravel()):
                return _map(self, lambda x: x if not isinstance(x, E) and isinstance(x, int) else X.trunc(x))
            r = np.ndarray.astype(self.view(np.ndarray), dtype, *a, **k)
            return r
        return np.ndarray.astype(self, dtype, *a, **k)


def is_float_dtype(d):
    if d is None:
        return False
    if d is float or d is complex or getattr(d, "__name__", "") in ("symfloat", "symcomplex"):
        return True
    try:
        return np.dtype(d).kind in "fc"
    except TypeError:
        return False


def _map(a, f):
    r = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        r[ix] = f(a[ix])
    return r.view(SymArr)


def symarr(a):
    return np.asarray(a).view(SymArr)


def exact(x):
    """Concrete numbers/arrays as exact values (object arrays)."""
    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
        a = np.asarray(x)
        if a.dtype.kind in "iub":
            return np.array(a, dtype="int64")
        a = np.asarray(x, dtype=object) if a.dtype == object else a
        r = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(*a.shape):
            v = a[ix]
            r[ix] = Cx.of(complex(v)) if isinstance(v, (complex, np.complexfloating)) else (v if isinstance(v, (E, Cx)) else X.num(v))
        return symarr(r)
    if isinstance(x, (complex, np.complexfloating)):
        return Cx.of(x)
    return X.num(x)


def numeric(x):
    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
        a = np.asarray(x)
        if a.dtype == object:
            if any(isinstance(v, (complex, np.complexfloating)) for v in a.ravel()):
                return np.array(a.tolist(), dtype="c16")
            return np.array([float(v) for v in a.ravel()], dtype="double").reshape(a.shape)
        if a.dtype.kind in "iub":
            return np.array(a, dtype="int64")
        return a.copy()
    if isinstance(x, F):
        return float(x)
    return x


class Result:
    def __init__(self):
        self.status = "ok"  # ok | violation | inconclusive
        self.stats = Stats()
        self.label = None
        self.env = None
        self.detail = ""
        self.reason = ""


def explore(fn, opts):
    """Run ``fn(ctx)`` over all paths."""
    res = Result()
    stats = res.stats
    stack = [[]]
    t0 = time.time()
    tmax = opts.get("time", 300)
    pmax = opts.get("max_paths", 20000)
    while stack:
        prefix = stack.pop()
        X.reset()
        X.zclear()
        if opts.get("machine") is not None:
            opts["machine"].reset()
        ctx = SymCtx(prefix, stats, opts)
        X.CTX[0] = ctx
        try:
            try:
                fn(ctx)
                ctx.done()
                stats.paths += 1
            except (MemError, AssertFail) as ex:
                stats.paths += 1
                r = ctx._check()
                if r == "unsat":
                    raise Infeasible()
                env = ctx._model() if r == "sat" else None
                raise Violation("memory" if isinstance(ex, MemError) else "assertion", env, str(ex))
            except Unsupported:
                raise
            except Inconclusive:
                raise
            except (Exception, SystemExit) as ex:
                from . import runner

                if isinstance(ex, (runner.NotRegistered, runner.HarnessError)) or not runner.at_fault(ex):
                    import traceback

                    raise Inconclusive("harness: " + "".join(traceback.format_exception(ex))[-1500:])
                r = ctx._check()
                if r == "unsat":
                    raise Infeasible()
                env = ctx._model() if r == "sat" else None
                import traceback

                raise Violation("exception", env, "".join(traceback.format_exception(ex))[-900:])
            if len(stats.samples) < 3:
                try:
                    m = ctx.model
                    if m is None and ctx._check() == "sat":
                        m = ctx._model()
                    if m:
                        stats.samples.append({k: (v if isinstance(v, (bool, int)) else float(v)) for k, v in list(m.items())[:40]})
                except (Inconclusive, OverflowError, ctx.z3.Z3Exception):
                    pass
        except Infeasible:
            pass
        except Stop:
            stats.paths += 1
        except Violation as v:
            res.status = "violation"
            res.label, res.env, res.detail = v.label, v.env, v.detail
            res.fnterms = bool(ctx.appseen)
            X.CTX[0] = None
            return res
        except Inconclusive as ex:
            res.status = "inconclusive"
            res.reason = str(ex)
        except Unsupported as ex:
            res.status = "inconclusive"
            res.reason = "unsupported: " + str(ex)
        finally:
            X.CTX[0] = None
        for p in ctx.new:
            stack.append(p)
        if time.time() - t0 > tmax and stack:
            res.status = "inconclusive"
            res.reason = "time limit with %d open paths" % len(stack)
            break
        if stats.paths > pmax:
            res.status = "inconclusive"
            res.reason = "path limit"
            break
    return res
