/* OpenMP runtime (clang ABI) that runs every iteration of a parallel loop in
   turn and records conflicting accesses of different iterations. */
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef int64_t i64;
typedef struct { uintptr_t a; int w, r; } cell;
typedef struct {
    int serial, it, n, left, last;
    i64 lo, hi, st;
    uintptr_t sp;
    cell *t;
    size_t cap, used;
} level;
static level L[16];
static int depth, exempt, races;
static char text[400];
int vnb_omp_races(void) { return races; }
const char *vnb_omp_text(void) { return text; }
void vnb_omp_reset(void);

/* memory is never reused, so that one address is one object; every byte of
   the arena has a state */
#define ARENA (1ul << 30)
#define RED 64
enum { OUT, RAW, SET, GONE };
static char *arena;
static unsigned char *state;
static size_t top;
static int mode = 1; /* 1: races, 2: memory */
static int live;
#include <sys/mman.h>
void vnb_omp_mode(int m) { mode = m; }
static void fault(const char *what, const char *name) {
    if (races) return;
    races++;
    snprintf(text, sizeof text, "%s%s%s", name, name[0] ? " " : "", what);
}
static void *get(size_t n, int st) {
    char *p;
    if (!arena) {
        arena = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        state = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (arena == MAP_FAILED || state == MAP_FAILED) abort();
    }
    if (top + n + 3 * RED + sizeof(size_t) > ARENA) abort();
    top = (top + RED - 1) / RED * RED + RED;
    p = arena + top;
    *(size_t *)(p - RED) = n;
    memset(state + top, st, n);
    top += n + RED;
    return p;
}
void *vnb_malloc(size_t n) { void *p = get(n, RAW); memset(p, 0xff, n); live++; return p; }
void *vnb_calloc(size_t a, size_t b) { void *p = get(a * b, SET); live++; return p; }
void vnb_free(void *p) {
    size_t o, n;
    if (!p) return;
    o = (char *)p - arena;
    if ((char *)p < arena || o >= top) { if (mode == 2) fault("free of memory that was not allocated", ""); return; }
    n = *(size_t *)((char *)p - RED);
    if (state[o] == GONE) { if (mode == 2) fault("freed twice", "memory"); return; }
    memset(state + o, GONE, n);
    live--;
}
/* a copy of an array argument */
void *vnb_omp_arg(const void *q, size_t n) { void *p = get(n, SET); memcpy(p, q, n); return p; }
int vnb_omp_live(void) { return live; }
static void check(uintptr_t a, size_t n, int write) {
    size_t o, k;
    if (a < (uintptr_t)arena || a >= (uintptr_t)arena + ARENA) return;
    o = a - (uintptr_t)arena;
    for (k = 0; k < n; k++) {
        if (state[o + k] == OUT) { fault(write ? "write out of bounds" : "read out of bounds", "memory"); return; }
        if (state[o + k] == GONE) { fault(write ? "write after free" : "read after free", "memory"); return; }
        if (!write && state[o + k] == RAW) { fault("read of uninitialised memory", "memory"); return; }
        if (write) state[o + k] = SET;
    }
}

void vnb_omp_reset(void) { depth = exempt = races = 0; text[0] = 0; top = 0; live = 0; if (state) { munmap(arena, ARENA); munmap(state, ARENA); arena = 0; state = 0; } }

static cell *find(level *l, uintptr_t a) {
    size_t i;
    if (l->used * 2 >= l->cap) {
        size_t oc = l->cap;
        cell *o = l->t;
        l->cap = oc ? oc * 2 : 4096;
        l->t = calloc(l->cap, sizeof(cell));
        l->used = 0;
        for (i = 0; i < oc; i++)
            if (o[i].a) *find(l, o[i].a) = o[i];
        free(o);
    }
    for (i = (a * 0x9E3779B97F4A7C15ull) >> 20; ; i++) {
        cell *c = l->t + (i & (l->cap - 1));
        if (c->a == a) return c;
        if (!c->a) { c->a = a; c->w = c->r = -1; l->used++; return c; }
    }
}
static void touch(uintptr_t a, size_t n, int write) {
    int d;
    size_t k;
    char here;
    if (races) return;
    if (mode == 2) { check(a, n, write); return; }
    if (exempt) return;
    for (d = 0; d < depth; d++) {
        level *l = L + d;
        if (l->serial) continue;
        /* stack of the running iteration */
        if (a < l->sp && a > (uintptr_t)&here) continue;
        for (k = 0; k < n; k++) {
            cell *c = find(l, a + k);
            if ((c->w >= 0 && c->w != l->it) || (write && c->r != -1 && c->r != l->it)) {
                races++;
                snprintf(text, sizeof text, "iterations %d and %d of a parallel loop: %s of one address", c->w >= 0 && c->w != l->it ? c->w : (c->r < 0 ? 0 : c->r), l->it, write ? "writes" : "write and read");
                return;
            }
            if (write) c->w = l->it;
            else if (c->r == -1) c->r = l->it;
            else if (c->r != l->it) c->r = -2;
        }
    }
}
void *vnb_memset(void *p, int v, size_t n) { touch((uintptr_t)p, n, 1); return memset(p, v, n); }
void *vnb_memcpy(void *p, const void *q, size_t n) {
    if (mode == 2) {
        size_t k, o = (char *)p - arena, i = (char *)q - arena;
        for (k = 0; k < n; k++) {
            int st = (char *)q >= arena && i + k < ARENA ? state[i + k] : SET;
            if (st == OUT || st == GONE) { fault("copied from out of bounds", "memory"); break; }
            if ((char *)p >= arena && o + k < ARENA) {
                if (state[o + k] == OUT || state[o + k] == GONE) { fault("copied out of bounds", "memory"); break; }
                state[o + k] = st;
            }
        }
    } else { touch((uintptr_t)q, n, 0); touch((uintptr_t)p, n, 1); }
    return memcpy(p, q, n);
}
#define COV(n) \
    void __sanitizer_cov_load##n(void *p) { touch((uintptr_t)p, n, 0); } \
    void __sanitizer_cov_store##n(void *p) { touch((uintptr_t)p, n, 1); }
COV(1) COV(2) COV(4) COV(8) COV(16)
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {}

typedef void (*F)(int *, int *, ...);
void __kmpc_fork_call(void *loc, int argc, void *fn, ...) {
    void *a[32] = {0};
    va_list v;
    int i, keep = exempt, g, b;
    level *l;
    va_start(v, fn);
    for (i = 0; i < argc && i < 32; i++) a[i] = va_arg(v, void *);
    va_end(v);
    if (argc > 32 || depth >= 16) abort();
    l = L + depth++;
    free(l->t);
    memset(l, 0, sizeof *l);
    l->n = -1;
    l->sp = (uintptr_t)&a[0];
    if ((uintptr_t)&g < l->sp) l->sp = (uintptr_t)&g;
    do {
        exempt = 0;
        l->left = 1;
        g = b = l->it;
        ((F)fn)(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23], a[24], a[25], a[26], a[27], a[28], a[29], a[30], a[31]);
        l->it++;
    } while (l->it < (l->n < 0 ? 2 : l->n));
    exempt = keep;
    depth--;
}
void __kmpc_serialized_parallel(void *l, int t) { L[depth].t = 0; memset(L + depth, 0, sizeof(level)); L[depth++].serial = 1; }
void __kmpc_end_serialized_parallel(void *l, int t) { depth--; }
int __kmpc_global_thread_num(void *l) { return depth && !L[depth - 1].serial ? L[depth - 1].it : 0; }
int omp_get_thread_num(void) { return __kmpc_global_thread_num(0); }
int omp_get_max_threads(void) { return depth && L[depth - 1].n > 0 ? L[depth - 1].n : 64; }
int omp_get_num_threads(void) { return depth && L[depth - 1].n > 0 ? L[depth - 1].n : 1; }
static i64 olo, ohi, ost;
static int oleft;
static void range(i64 *lo, i64 *hi, i64 st, int *last) {
    i64 n = (*hi - *lo) / st + 1;
    level *l = depth ? L + depth - 1 : 0;
    *last = 1;
    if (!l || l->serial) return;
    if (l->n < 0) l->n = n < 0 ? 0 : n;
    if (l->it >= n) { *hi = *lo - st; *last = 0; return; }
    *lo += l->it * st;
    *hi = *lo;
    *last = l->it == n - 1;
}
#define LOOPS(S, T) \
    void __kmpc_for_static_init_##S(void *loc, int g, int sched, int *last, T *lb, T *ub, T *stride, T incr, T chunk) { \
        i64 a = *lb, b = *ub; \
        range(&a, &b, incr, last); \
        *lb = a; *ub = b; *stride = 1 << 30; } \
    void __kmpc_dispatch_init_##S(void *loc, int g, int sched, T lb, T ub, T st, T chunk) { \
        i64 a = lb, b = ub; int last; \
        range(&a, &b, st, &last); \
        olo = a; ohi = b; ost = st; oleft = 1; \
        if (depth) { L[depth-1].lo = a; L[depth-1].hi = b; L[depth-1].st = st; L[depth-1].left = 1; L[depth-1].last = last; } } \
    int __kmpc_dispatch_next_##S(void *loc, int g, int *last, T *lb, T *ub, T *st) { \
        if (depth) { level *l = L + depth - 1; \
            if (!l->left || (l->hi - l->lo) / l->st < 0) return 0; \
            l->left = 0; *lb = l->lo; *ub = l->hi; *st = l->st; *last = l->last; return 1; } \
        if (!oleft || (ohi - olo) / ost < 0) return 0; \
        oleft = 0; *lb = olo; *ub = ohi; *st = ost; *last = 1; return 1; } \
    void __kmpc_dispatch_fini_##S(void *loc, int g) {}
LOOPS(4, int32_t) LOOPS(4u, uint32_t) LOOPS(8, i64) LOOPS(8u, uint64_t)
void __kmpc_for_static_fini(void *l, int g) {}
void __kmpc_push_num_threads(void *l, int g, int n) {}
void __kmpc_barrier(void *l, int g) {}
int __kmpc_reduce_nowait(void *l, int g, int n, size_t s, void *d, void *f, void *k) { exempt++; return 1; }
int __kmpc_reduce(void *l, int g, int n, size_t s, void *d, void *f, void *k) { exempt++; return 1; }
void __kmpc_end_reduce_nowait(void *l, int g, void *k) { exempt--; }
void __kmpc_end_reduce(void *l, int g, void *k) { exempt--; }
void __kmpc_critical(void *l, int g, void *k) { exempt++; }
void __kmpc_end_critical(void *l, int g, void *k) { exempt--; }
void omp_set_num_threads(int n) {}
int omp_in_parallel(void) { return depth && !L[depth - 1].serial; }
double omp_get_wtime(void) { return 0; }
