"""Runs the slices of one property in parallel, replays counterexamples on the
native code, writes evidence and prints the verdict."""
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback
import math
import numpy as np

from . import expr as X
from . import build, paths, pyshim
from .backend import Toolchain, NotRegistered

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class HarnessError(Exception):
    """The harness itself (not the code under test) is at fault."""


class Missing(KeyError):
    """A file, or an entry of a file, that the code should have written."""


class Slice:
    def __init__(self, name, fn, tier="quick", reach=(), time=120, bounds="", **opts):
        self.name = name
        self.fn = fn
        self.tier = tier
        self.reach = tuple(reach)
        self.time = time
        self.bounds = bounds
        self.opts = opts


class Prop:
    def __init__(self, pid, slices, assumptions=(), functions=(), modules=(), leaks=False, openmp=False, memory=False, patch=("phonopy.phonon.degeneracy",), technique="", note=""):
        self.pid = pid
        self.slices = slices
        self.assumptions = list(assumptions)
        self.functions = list(functions)
        self.modules = list(modules)
        self.leaks = leaks
        self.openmp = openmp
        self.memory = memory
        self.patch = tuple(patch)
        self.technique = technique
        self.note = note


def in_code_under_test(tb):
    """Innermost frame that belongs to /verif or to the tree under test."""
    last = None
    for f, _ in traceback.walk_tb(tb):
        fn = os.path.abspath(f.f_code.co_filename)
        if fn.startswith(build.REPO + "/"):
            last = "code"
        elif fn.startswith(VERIF + "/checks"):
            last = "harness"
        elif fn.startswith(VERIF + "/engine") and last is None:
            last = "engine"
    return last == "code"


SHAPE = ("is out of bounds for axis", "too many indices for array", "could not be broadcast", "could not broadcast", "not aligned")


def at_fault(ex):
    """Is an exception a verdict on the code under test?  Raised inside it, or
    by the oracle finding results of another form than specified."""
    if in_code_under_test(ex.__traceback__):
        return True
    files = [os.path.abspath(f.f_code.co_filename) for f, _ in traceback.walk_tb(ex.__traceback__)]
    if isinstance(ex, SystemExit):
        return any(f.startswith(build.REPO + "/") for f in files)
    if any(f.startswith(build.REPO + "/") for f in files) or not files or not any(f.startswith(VERIF + "/checks") for f in files):
        return False
    if isinstance(ex, Missing):
        return True
    return isinstance(ex, (IndexError, ValueError)) and any(t in str(ex) for t in SHAPE)


def _jsonable(env):
    out = {}
    for k, v in (env or {}).items():
        if isinstance(v, bool):
            out[k] = v
        elif isinstance(v, int):
            out[k] = v
        else:
            try:
                out[k] = float(v)
            except OverflowError:
                out[k] = 1e308
    return out


def run_slice(prop, sl, tc, tmax):
    """In a worker: explore symbolically."""
    opts = dict(sl.opts)
    opts.setdefault("machine", tc.machine)
    opts.setdefault("backend", tc.sym)
    opts["time"] = min(tmax, opts.get("time", tmax))
    tc.sym.check_leaks = opts.get("leaks", prop.leaks)
    if prop.modules:
        pyshim.patch(True, prop.patch)
    t = time.time()
    try:
        r = paths.explore(sl.fn, opts)
    except BaseException as ex:
        r = paths.Result()
        r.status = "error"
        r.reason = "".join(traceback.format_exception(ex))[-3000:]
    out = dict(
        name=sl.name, status=r.status, label=r.label, env=_jsonable(r.env), detail=str(r.detail)[-900:],
        reason=r.reason, wall=time.time() - t, stats={k: v for k, v in vars(r.stats).items()},
        funcs=sorted(n for n in tc.machine.fns if n in tc.machine.mod.functions and not n.startswith('vnb_')), fnterms=getattr(r, "fnterms", False),
    )
    return out


def native_once(sl, tc, env, rnd):
    """Run the harness on native code.  Returns None (passes / not
    applicable) or (label, detail)."""
    opts = dict(sl.opts)
    opts["native"] = tc.native
    ctx = paths.NumCtx(env, opts, rnd)
    X.CTX[0] = ctx
    try:
        sl.fn(ctx)
        return "pass", None, ctx.used
    except paths.ReplayFail as v:
        return "fail", (v.label, str(v.detail)[:400]), ctx.used
    except (paths.Infeasible, paths.Stop):
        return "skip", None, ctx.used
    except (Exception, SystemExit) as ex:
        if isinstance(ex, (NotRegistered, HarnessError, X.Unsupported)):
            return "error", repr(ex), ctx.used
        if at_fault(ex):
            return "fail", ("exception", repr(ex)[:300]), ctx.used
        return "error", "".join(traceback.format_exception(ex))[-1500:], ctx.used
    finally:
        X.CTX[0] = None


def replay(prop, sl, tc, env, seed, tries=60):
    """In a worker: does a counterexample reproduce on the native code?"""
    last = None
    if prop.modules:
        pyshim.patch(False, prop.patch)
    for t in range(tries):
        if t == 0:
            rnd = None
        else:
            rnd = ("near" if t < tries // 2 else "all", random.Random(seed * 1000 + t))
        st, d, used = native_once(sl, tc, env, rnd)
        if st == "fail":
            return dict(ok=True, label=d[0], detail=d[1], env=_jsonable(used), mode="exact" if t == 0 else rnd[0])
        if st == "error":
            last = d
            if t == 0:
                break
    return dict(ok=False, detail=last)


def crosscheck(prop, sl, tc, seed, n):
    if prop.modules:
        pyshim.patch(False, prop.patch)
    res = dict(passed=0, failed=0, skipped=0, errors=0, first="")
    for t in range(n):
        st, d, used = native_once(sl, tc, {}, ("all", random.Random(seed * 7919 + t)))
        k = dict(**{"pass": "passed", "fail": "failed", "skip": "skipped", "error": "errors"})[st]
        res[k] += 1
        if st in ("fail", "error") and not res["first"]:
            res["first"] = str(d)[:300]
    return res


class Pool:
    """Forked workers with pickled results and hard time limits."""

    def __init__(self, n):
        self.n = n
        self.run = {}

    def start(self, key, fn, hard):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.setpgid(0, 0)
                try:
                    dn = os.open(os.devnull, os.O_WRONLY)
                    if not os.environ.get("VERIF_DEBUG"):
                        os.dup2(dn, 1)
                        os.dup2(dn, 2)
                except OSError:
                    pass
                try:
                    res = fn()
                except BaseException as ex:
                    res = dict(status="error", reason="".join(traceback.format_exception(ex))[-3000:])
                b = pickle.dumps(res)
                with os.fdopen(w, "wb") as f:
                    f.write(b)
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        os.close(w)
        self.run[r] = (key, pid, time.time() + hard, [])

    def wait(self):
        """Yield (key, result or None, how) for finished workers."""
        out = []
        rl, _, _ = select.select(list(self.run), [], [], 0.5)
        for r in rl:
            key, pid, dl, buf = self.run[r]
            b = os.read(r, 1 << 20)
            if b:
                buf.append(b)
                continue
            os.close(r)
            _, st = os.waitpid(pid, 0)
            del self.run[r]
            data = b"".join(buf)
            if data:
                out.append((key, pickle.loads(data), "ok"))
            else:
                out.append((key, None, "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit"))
        now = time.time()
        for r in list(self.run):
            key, pid, dl, buf = self.run[r]
            if now > dl:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                os.waitpid(pid, 0)
                os.close(r)
                del self.run[r]
                out.append((key, None, "timeout"))
        return out


def known_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("{"):
                out.append(json.loads(ln))
    return out


def sample_of(res):
    return res["stats"].get("samples") or []


def run(prop, tier, seed, only=None):
    t0 = time.time()
    budget = 560 if tier == "quick" else 3000
    deadline = t0 + budget
    slices = [s for s in prop.slices if (tier == "thorough" or s.tier == "quick") and (only is None or s.name in only)]
    try:
        tc = Toolchain(openmp=prop.openmp, memory=prop.memory)
        tc.native
    except build.BuildError as ex:
        print("cannot build the C code of the tree under test:\n%s" % ex)
        return 2
    if prop.modules:
        import importlib

        pyshim.install()
        try:
            for m in prop.modules:
                importlib.import_module(m)
        except Exception as ex:
            print("cannot import: %r" % ex)
            return 2
    known = [k for k in known_findings() if k.get("property") == prop.pid and k.get("slice")]
    kslices = {k["slice"]: k for k in known}
    pool = Pool(8)
    todo = list(slices)
    # longest first
    todo.sort(key=lambda s: -s.time)
    results = {}
    replays = {}
    cross = {}
    pend = []
    for s in todo:
        pend.append(("slice", s))
    ncross = 2 if tier == "quick" else 6
    for s in slices:
        pend.append(("cross", s))
    byname = {s.name: s for s in slices}
    while pend or pool.run:
        while pend and len(pool.run) < pool.n:
            kind, s = pend.pop(0)
            left = deadline - time.time()
            if left < 5:
                if kind == "slice":
                    results[s.name] = dict(status="inconclusive", reason="out of time", name=s.name, stats=vars(paths.Stats()), wall=0, funcs=[])
                continue
            if kind == "slice":
                tm = min(s.time if tier == "quick" else max(s.time * 4, 600), left)
                pool.start((kind, s.name), lambda s=s, tm=tm: run_slice(prop, s, tc, tm), min(tm * 1.5 + 20, left + 60))
            elif kind == "cross":
                pool.start((kind, s.name), lambda s=s: crosscheck(prop, s, tc, seed, ncross), 60)
            else:
                env = results[s.name]["env"]
                pool.start((kind, s.name), lambda s=s, env=env: replay(prop, s, tc, env, seed), 150)
        for (kind, nm), res, how in pool.wait():
            if kind == "slice":
                if res is None or "stats" not in res:
                    res = dict(status="inconclusive", reason=how if res is None else res.get("reason", ""), name=nm, stats=vars(paths.Stats()), wall=0, funcs=[])
                results[nm] = res
                if res["status"] == "violation":
                    pend.insert(0, ("replay", byname[nm]))
                if os.environ.get("VERIF_VERBOSE"):
                    print("  %-40s %-12s %6.1fs paths=%d q=%d %s %s %s" % (nm, res["status"], res["wall"], res["stats"]["paths"], res["stats"]["queries"], res.get("label") or "", res.get("detail", "")[-600:], res["reason"][-1500:]))
                    sys.stdout.flush()
            elif kind == "cross":
                cross[nm] = res if res is not None and "passed" in res else dict(passed=0, failed=0, skipped=0, errors=1, first=how + str(res)[:300])
            else:
                if res is None or "ok" not in res:
                    res = dict(ok=how.startswith("signal") and "timeout" not in how, label="crash", detail=how + " " + str(res)[:300], env=results[nm]["env"], mode="exact")
                replays[nm] = res
                if os.environ.get("VERIF_VERBOSE"):
                    print("  replay %s: %s" % (nm, {k: v for k, v in res.items() if k != "env"}))
    return report(prop, tier, seed, slices, results, replays, cross, kslices, t0)


def report(prop, tier, seed, slices, results, replays, cross, kslices, t0):
    viol, kf, incon, spurious = [], [], [], []
    funcs = set()
    st = paths.Stats()
    samples = []
    per = []
    for s in slices:
        r = results[s.name]
        funcs.update(r.get("funcs", ()))
        for k in ("paths", "queries", "unsat", "sat", "unknown", "solver_s", "asserts"):
            setattr(st, k, getattr(st, k) + r["stats"][k])
        status = r["status"]
        if status == "ok":
            miss = [l for l in s.reach if not r["stats"]["reach"].get(l)]
            if miss or not r["stats"]["paths"] or not r["stats"]["asserts"]:
                status = "vacuous"
                r["reason"] = "labels never reached: %s" % miss
        if status == "violation":
            rp = replays.get(s.name)
            if rp and rp["ok"]:
                if s.name in kslices and rp["label"] == kslices[s.name].get("label"):
                    status = "known"
                    kf.append((s, r, rp))
                else:
                    viol.append((s, r, rp))
            elif r["label"] == "exception":
                # e.g. numpy feature the symbolic layer lacks: the native run is fine
                status = "inconclusive"
                r["reason"] = "exception only under symbolic execution: " + str(r.get("detail"))[-200:]
                incon.append((s, r))
            else:
                spurious.append((s, r, rp))
                status = "not reproduced"
        elif status != "ok":
            incon.append((s, r))
        per.append(dict(slice=s.name, status=status, bounds=s.bounds, paths=r["stats"]["paths"], queries=r["stats"]["queries"], asserts=r["stats"]["asserts"], wall_s=round(r["wall"], 2), reason=r["reason"][-300:]))
        for x in r["stats"].get("samples", [])[:1]:
            samples.append(dict(slice=s.name, input=x))
    ok = sum(1 for p in per if p["status"] in ("ok", "known"))
    tv = sum(c["passed"] for c in cross.values())
    ev = dict(
        property=prop.pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=st.paths, transitions=st.queries, traces_validated_against_impl=tv,
            samples=samples[:8] or [dict(slice=s.name) for s in slices[:3]],
            functions_encoded=sorted(set(prop.functions) | set(funcs))[:200],
            bounds=[dict(slice=s.name, bounds=s.bounds) for s in slices],
            queries=dict(total=st.queries, unsat=st.unsat, sat=st.sat, unknown=st.unknown),
            solver_s=round(st.solver_s, 3), assertions=st.asserts,
            slices=per, slices_decided=ok, slices_total=len(slices),
            native_crosscheck={k: v for k, v in cross.items()},
            explanation="states = symbolic paths explored to the end; transitions = solver queries; traces_validated_against_impl = runs of the same harness on the natively compiled code with pseudo-random inputs that agreed with the oracle.",
        ),
        assumptions=prop.assumptions + ["double arithmetic is modelled by exact real arithmetic (rounding outside the claim)", "divisors and sqrt/log arguments are in their domain", "exp/sin/cos/sinh/log are uninterpreted functions with sign/monotonicity axioms, congruent up to 1e-9 in their arguments' coefficients", "int64 overflow outside the claim unless a slice states it"],
        wall_s=round(time.time() - t0, 2), violations=len(viol),
    )
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for s, r in incon:
        print("INCONCLUSIVE property=%s slice=%s %s" % (prop.pid, s.name, (r["reason"].strip().splitlines() or [""])[-1][:300]))
    for s, r, rp in spurious:
        print("NOT-REPRODUCED property=%s slice=%s label=%s %s" % (prop.pid, s.name, r["label"], str(rp)[:300]))
    for nm, c in cross.items():
        if c["failed"] or c["errors"]:
            print("note: native cross-check of %s: %s" % (nm, c["first"]))
    for s, r, rp in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop.pid, kslices[s.name]["what"]))
    for s, r, rp in viol:
        p = os.path.join(VERIF, "evidence", "replays", "%s_%s.json" % (prop.pid, "".join(c if c.isalnum() or c in "-_" else "_" for c in s.name)))
        with open(p, "w") as f:
            json.dump(dict(property=prop.pid, slice=s.name, label=rp["label"], symbolic_label=r["label"], detail=rp["detail"], env=rp["env"], mode=rp["mode"], how="python %s/run.py %s --replay <this file>" % (VERIF, prop.pid)), f, indent=1)
        print("violated: slice=%s label=%s: %s" % (s.name, rp["label"], rp["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop.pid, p))
    print("%s: %d/%d slices decided, %d paths, %d queries (%.1fs solver), %d assertions, %.1fs" % (prop.pid, ok, len(slices), st.paths, st.queries, st.solver_s, st.asserts, time.time() - t0))
    if viol:
        return 1
    if spurious and any(not r.get("fnterms") for s, r, rp in spurious):
        return 2
    if ok == 0:
        return 2
    return 0


def main(props):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--slice", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = props(a.pid)
    if a.list:
        for s in prop.slices:
            print(s.name, s.tier, s.bounds)
        return 0
    if a.replay:
        return do_replay(prop, a.replay)
    return run(prop, a.tier, seed, a.slice)


def do_replay(prop, path):
    d = json.load(open(path))
    sl = [s for s in prop.slices if s.name == d["slice"]][0]
    tc = Toolchain(openmp=prop.openmp, memory=prop.memory)
    if prop.modules:
        import importlib

        pyshim.install()
        for m in prop.modules:
            importlib.import_module(m)
        pyshim.patch(False, prop.patch)
    st, det, used = native_once(sl, tc, d["env"], None)
    print(st, det)
    return 1 if st == "fail" else 0
