"""Compile /repo/c to LLVM IR (symbolic execution) and to a shared object
(counterexample replay); both from the current working tree."""
import hashlib
import os
import shutil
import subprocess
import tempfile
import atexit
import glob

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
MOCK = os.path.join(HERE, "mocknb")
DEFS = ["-DNO_INCLUDE_LAPACKE", "-DTHM_EPSILON=1e-10"]
_tmp = []


def scratch():
    d = tempfile.mkdtemp(prefix="vphono_")
    _tmp.append((os.getpid(), d))
    return d


@atexit.register
def _clean():
    for pid, d in _tmp:
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)


def sources():
    c = sorted(glob.glob(os.path.join(REPO, "c", "*.c")))
    cpp = sorted(glob.glob(os.path.join(REPO, "c", "*.cpp")))
    return c, cpp


class BuildError(Exception):
    pass


def _run(cmds):
    ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for c in cmds]
    for p, c in zip(ps, cmds):
        o, _ = p.communicate()
        if p.returncode:
            raise BuildError(" ".join(c) + "\n" + o.decode()[-2000:])


def defs():
    """Definitions the main build passes (checked against CMakeLists)."""
    return DEFS


def build_ir(d, openmp=False, passes="function(sroa,early-cse,instsimplify,simplifycfg,instsimplify)"):
    c, cpp = sources()
    omp = ["-fopenmp", "-I" + os.path.join(HERE, "ompinc")] if openmp else []
    cm, out = [], []
    for f in c:
        o = os.path.join(d, os.path.basename(f) + (".omp" if openmp else "") + ".bc")
        out.append(o)
        cm.append(["clang-18", "-std=c11", "-w", "-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-fno-strict-aliasing", "-emit-llvm", "-c"] + defs() + omp + [f, "-o", o])
    for f in cpp:
        o = os.path.join(d, os.path.basename(f) + (".omp" if openmp else "") + ".bc")
        out.append(o)
        cm.append(["clang++-18", "-std=c++17", "-w", "-fno-exceptions", "-fno-rtti", "-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-fno-strict-aliasing", "-emit-llvm", "-c"] + defs() + omp + ["-I" + MOCK, "-I" + os.path.join(REPO, "c"), f, "-o", o])
    _run(cm)
    a = os.path.join(d, "all0%s.bc" % ("omp" if openmp else ""))
    _run([["llvm-link-18"] + out + ["-o", a]])
    ll = os.path.join(d, "all%s.ll" % ("omp" if openmp else ""))
    _run([["opt-18", "-S", "-passes=" + passes, a, "-o", ll]])
    with open(ll) as fp:
        return fp.read()


def build_omp_so(d):
    """The code compiled with OpenMP for a runtime that runs the iterations
    of a parallel loop one by one and records conflicting accesses."""
    c, cpp = sources()
    reg = registry(d)
    pre = os.path.join(d, "omp.h.inc")
    with open(pre, "w") as fp:
        fp.write("#include <stdlib.h>\n#include <string.h>\n"
                 "void *vnb_malloc(size_t), *vnb_calloc(size_t,size_t), *vnb_memset(void*,int,size_t), *vnb_memcpy(void*,const void*,size_t); void vnb_free(void*);\n"
                 "#define malloc vnb_malloc\n#define calloc vnb_calloc\n#define free vnb_free\n#define memset vnb_memset\n#define memcpy vnb_memcpy\n")
    cov = ["-fopenmp", "-I" + os.path.join(HERE, "ompinc"), "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]
    opt = ["-O1", "-g", "-fPIC", "-w", "-ffp-contract=off", "-fno-builtin", "-ftrivial-auto-var-init=pattern"]
    objs, cm = [], []
    for f in c:
        o = os.path.join(d, os.path.basename(f) + ".race.o")
        objs.append(o)
        cm.append(["clang-18", "-std=gnu11"] + opt + cov + ["-include", pre] + defs() + ["-c", f, "-o", o])
    for f in (reg, os.path.join(HERE, "omprt.c")):
        o = os.path.join(d, os.path.basename(f) + ".race.o")
        objs.append(o)
        cm.append(["clang-18", "-std=gnu11"] + opt + ["-c", f, "-o", o])
    for f in cpp:
        o = os.path.join(d, os.path.basename(f) + ".race.o")
        objs.append(o)
        cm.append(["clang++-18", "-std=c++17", "-fno-exceptions", "-fno-rtti"] + opt + cov + defs() + ["-I" + MOCK, "-I" + os.path.join(REPO, "c"), "-c", f, "-o", o])
    _run(cm)
    so = os.path.join(d, "race.so")
    _run([["clang-18", "-shared", "-o", so] + objs + ["-lm"]])
    return so


def registry(d):
    reg = os.path.join(d, "reg.c")
    with open(reg, "w") as fp:
        fp.write(
            "#include <string.h>\n"
            "static struct{const char*n;void*f;} T[512]; static int N;\n"
            "void vnb_def(const char*n,void*f){for(int i=0;i<N;i++)if(!strcmp(T[i].n,n)){T[i].f=f;return;} if(N<512){T[N].n=n;T[N++].f=f;}}\n"
            "void* vnb_get(const char*n){for(int i=0;i<N;i++)if(!strcmp(T[i].n,n))return T[i].f;return 0;}\n"
        )
    return reg


def build_so(d, san=False):
    c, cpp = sources()
    reg = registry(d)
    # uninitialised heap and stack memory gets a recognisable pattern
    poi = os.path.join(d, "poison.h")
    with open(poi, "w") as fp:
        fp.write("#include <stdlib.h>\n#include <string.h>\n"
                 "static inline void *vnb_malloc(size_t n){void *p=malloc(n); if(p) memset(p,0xff,n); return p;}\n"
                 "#define malloc(n) vnb_malloc(n)\n")
    objs, cm = [], []
    opt = ["-O1", "-g", "-fPIC", "-w", "-ffp-contract=off", "-ftrivial-auto-var-init=pattern", "-include", poi] + (["-fsanitize=address,undefined", "-fno-omit-frame-pointer"] if san else [])
    for f in c + [reg]:
        o = os.path.join(d, os.path.basename(f) + ".o")
        objs.append(o)
        cm.append(["gcc", "-std=gnu11"] + opt + defs() + ["-c", f, "-o", o])
    for f in cpp:
        o = os.path.join(d, os.path.basename(f) + ".o")
        objs.append(o)
        cm.append(["g++", "-std=c++17", "-fno-exceptions", "-fno-rtti"] + opt + defs() + ["-I" + MOCK, "-I" + os.path.join(REPO, "c"), "-c", f, "-o", o])
    _run(cm)
    so = os.path.join(d, "native.so")
    _run([["gcc", "-shared", "-o", so] + objs + ["-lm"] + (["-fsanitize=address,undefined"] if san else [])])
    return so
