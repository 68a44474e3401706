"""OpenMP regions of the symbolic machine.

Every iteration of a work-shared loop is run as a thread of its own (the
finest schedule; its conflicts include those of every other schedule), one
after the other, and all accesses to memory that outlives the iteration are
recorded.  Two iterations touching one cell, at least one of them writing and
not both inside a critical/atomic/reduction section, is a data race.
"""
from .expr import Unsupported
from . import expr as X
from .llvm import MemError, Obj, Ptr


class Race(MemError):
    """Data race between two iterations of a parallel loop."""


class Level:
    __slots__ = ("serial", "it", "n", "mark", "fn", "write", "read", "left", "loops", "chunk")

    def __init__(self, serial, fn):
        self.serial = serial
        self.fn = fn
        self.it = 0
        self.n = None
        self.mark = 0
        self.write = {}
        self.read = {}
        self.left = None
        self.loops = 0
        self.chunk = None


class Omp:
    def __init__(self, m):
        self.m = m
        self.stack = []
        self.exempt = 0
        self.regions = {}
        self.cells = 0
        self.race = True
        m.omp = self
        e = m.ext
        e["__kmpc_fork_call"] = self.fork
        e["__kmpc_serialized_parallel"] = self.serial
        e["__kmpc_end_serialized_parallel"] = self.end_serial
        for s in ("4", "4u", "8", "8u"):
            e["__kmpc_for_static_init_" + s] = self.static
            e["__kmpc_dispatch_init_" + s] = self.dinit
            e["__kmpc_dispatch_next_" + s] = self.dnext
            e["__kmpc_dispatch_fini_" + s] = self.nop
        e["__kmpc_for_static_fini"] = self.nop
        e["__kmpc_push_num_threads"] = self.nop
        e["__kmpc_global_thread_num"] = self.tid
        e["omp_get_thread_num"] = self.tid
        e["omp_get_max_threads"] = self.nth
        e["omp_get_num_threads"] = self.nth
        e["omp_set_num_threads"] = self.nop
        e["omp_get_wtime"] = self.nop
        e["omp_in_parallel"] = lambda m: 1 if self.stack and not self.stack[-1].serial else 0
        e["__kmpc_reduce"] = self.enter1
        e["__kmpc_reduce_nowait"] = self.enter1
        e["__kmpc_end_reduce"] = self.leave
        e["__kmpc_end_reduce_nowait"] = self.leave
        e["__kmpc_critical"] = self.enter
        e["__kmpc_end_critical"] = self.leave
        e["__kmpc_barrier"] = self.barrier

    def reset(self):
        self.stack = []
        self.exempt = 0
        self.hooks()

    def nop(self, m, *a):
        return 0

    def hooks(self):
        on = self.race and any(not l.serial for l in self.stack)
        self.m.hooks_read = self.on_read if on else None
        self.m.hooks_write = self.on_write if on else None

    # regions -------------------------------------------------------------
    def fork(self, m, loc, argc, fn, *args):
        lv = Level(False, fn.name)
        self.stack.append(lv)
        self.hooks()
        keep = self.exempt
        try:
            while True:
                self.exempt = 0
                lv.left = 1
                lv.loops = 0
                lv.mark = Obj._n[0]
                g, b = Obj("gtid", 4, "stack", 4), Obj("btid", 4, "stack", 4)
                g.c[0], b.c[0] = lv.it, lv.it
                m.call(fn.name, Ptr(g, 0), Ptr(b, 0), *args)
                lv.it += 1
                # a loop of no iterations, or code run by every thread
                if lv.it >= (2 if lv.n is None else lv.n):
                    break
        finally:
            self.exempt = keep
            self.stack.pop()
            self.hooks()
        self.regions[lv.fn] = max(self.regions.get(lv.fn, 0), lv.n or 0)
        return None

    def serial(self, m, loc, tid):
        self.stack.append(Level(True, ""))
        self.hooks()

    def end_serial(self, m, loc, tid):
        self.stack.pop()
        self.hooks()

    def tid(self, m, *a):
        for l in self.stack[::-1]:
            return 0 if l.serial else l.it
        return 0

    def nth(self, m, *a):
        for l in self.stack[::-1]:
            return 1 if l.serial or l.n is None else l.n
        return 64 if not self.stack else 1

    def barrier(self, m, *a):
        for l in self.stack[::-1]:
            if not l.serial:
                l.loops += 1
            return

    def _range(self, lo, hi, st):
        l = self.stack[-1] if self.stack else None
        if isinstance(lo, X.E):
            lo = X.CTX[0].concretize(lo)
        if isinstance(hi, X.E):
            hi = X.CTX[0].concretize(hi)
        n = (hi - lo) // st + 1
        if l is None or l.serial:
            return lo, hi, True
        if l.loops:
            raise Unsupported("code after a barrier in a parallel region")
        if l.n is None:
            l.n = max(n, 0)
        if l.n != max(n, 0):
            raise Unsupported("two loops in a parallel region")
        if l.it >= n:
            return lo, lo - st, False
        return lo + l.it * st, lo + l.it * st, l.it == n - 1

    def static(self, m, loc, gtid, sched, last, lb, ub, stride, incr, chunk):
        sz = lb.o.size
        lo, hi = m.ld(lb, sz), m.ld(ub, sz)
        a, b, z = self._range(lo, hi, incr)
        m.st(lb, a, sz)
        m.st(ub, b, sz)
        m.st(stride, 1 << 30, sz)
        m.st(last, 1 if z else 0, 4)

    def dinit(self, m, loc, gtid, sched, lb, ub, st, chunk):
        c = self._range(lb, ub, st) + (st,)
        if self.stack:
            self.stack[-1].chunk = c
        else:
            self.orphan = c

    def dnext(self, m, loc, gtid, last, lb, ub, st):
        if self.stack:
            c, self.stack[-1].chunk = self.stack[-1].chunk, None
        else:
            c, self.orphan = self.orphan, None
        if c is None or (c[1] - c[0]) // c[3] < 0:
            return 0
        sz = lb.o.size
        m.st(lb, c[0], sz)
        m.st(ub, c[1], sz)
        m.st(st, c[3], sz)
        m.st(last, 1 if c[2] else 0, 4)
        return 1

    # exclusive sections -----------------------------------------------------
    def enter(self, m, *a):
        self.exempt += 1

    def enter1(self, m, *a):
        self.exempt += 1
        return 1

    def leave(self, m, *a):
        self.exempt -= 1

    # accesses -----------------------------------------------------------------
    def on_write(self, o, off, n):
        if self.exempt:
            return
        cells = (off,) if n <= 8 else range(off, off + n)
        for l in self.stack:
            if l.serial or o.base > l.mark:
                continue
            it = l.it
            for c in cells:
                k = (o.base, c)
                w = l.write.get(k)
                if w is not None and w != it:
                    raise Race("iterations %d and %d of %s both write offset %d of %s" % (w, it, l.fn, c, o.name))
                r = l.read.get(k)
                if r is not None and r != it:
                    raise Race("iteration %d of %s writes offset %d of %s, which iteration %d reads" % (it, l.fn, c, o.name, r if r >= 0 else 0))
                l.write[k] = it
                self.cells += 1

    def on_read(self, o, off, n):
        if self.exempt:
            return
        cells = (off,) if n <= 8 else range(off, off + n)
        for l in self.stack:
            if l.serial or o.base > l.mark:
                continue
            it = l.it
            for c in cells:
                k = (o.base, c)
                w = l.write.get(k)
                if w is not None and w != it:
                    raise Race("iteration %d of %s reads offset %d of %s, which iteration %d writes" % (it, l.fn, c, o.name, w))
                r = l.read.get(k)
                if r is None:
                    l.read[k] = it
                elif r != it:
                    l.read[k] = -1
