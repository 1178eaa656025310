/* A controlled OpenMP runtime: the threads of a parallel region are coroutines of one process, run under a schedule that
   the checker chooses, and every memory access of the region (reported by the compiler's -fsanitize=thread calls, which are
   answered here) is recorded.  Two accesses to the same word by different threads between two barriers, one of them a write
   and not both atomic or under the same lock, are a conflict. */
#define _GNU_SOURCE
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>

#define MAXT 64
#define STACK (32u << 20)
#define EXPORT __attribute__((visibility("default")))

static int T = 1, order[MAXT], claim[4096], nclaim;      /* the schedule */
static int who = -1, in_region;
static int seen[MAXT], alive[MAXT];
static long lock;                                          /* identity of the lock held, 0 without */
static ucontext_t ctx[MAXT], home;
static char *stack[MAXT];
static void (*body)(void *);
static void *arg;

/* ---------------------------------------------------------------- recorded accesses */
typedef struct { uintptr_t a; uint32_t phase; short w, r; long wl, rl; } Cell;   /* last writer / a reader, -1 none, -2 several */
static Cell *cell;
static size_t ncell, used;
static uint32_t phase = 1;
static long accesses;
static int nconf;
static struct { uintptr_t a; int one, two, kind; } conf[64];

static Cell *find(uintptr_t a) {
  size_t i;
  if (!cell) { ncell = 1 << 12; cell = calloc(ncell, sizeof *cell); }
  if (used * 2 > ncell) {
    Cell *old = cell; size_t n = ncell;
    ncell *= 2; cell = calloc(ncell, sizeof *cell); used = 0;
    for (i = 0; i < n; i++) if (old[i].phase == phase) {
      size_t k = (old[i].a * 0x9E3779B97F4A7C15ull) >> 20 & (ncell - 1);
      while (cell[k].phase == phase) k = (k + 1) & (ncell - 1);
      cell[k] = old[i]; used++;
    }
    free(old);
  }
  i = (a * 0x9E3779B97F4A7C15ull) >> 20 & (ncell - 1);
  while (cell[i].phase == phase && cell[i].a != a) i = (i + 1) & (ncell - 1);
  if (cell[i].phase != phase) { used++; cell[i] = (Cell){a, phase, -1, -1, 0, 0}; }
  return cell + i;
}

static void clash(uintptr_t a, int one, int two, int kind) {
  for (int i = 0; i < nconf; i++) if (conf[i].a == a) return;
  if (nconf < 64) { conf[nconf].a = a; conf[nconf].one = one; conf[nconf].two = two; conf[nconf].kind = kind; nconf++; }
}

static void touch(uintptr_t p, size_t n, int write, int atomic) {
  if (!in_region || who < 0) return;
  /* a thread's own stack is its own */
  for (uintptr_t a = p & ~(uintptr_t)3; a < p + n; a += 4) {
    if (stack[who] && a >= (uintptr_t)stack[who] && a < (uintptr_t)stack[who] + STACK) continue;
    accesses++;
    Cell *c = find(a);
    long l = atomic ? -1 : lock;
    if (c->w >= 0 && c->w != who && !(l && l == c->wl)) clash(a, c->w, who, write ? 2 : 1);
    if (write && c->r != -1 && (c->r == -2 || c->r != who) && !(l && l == c->rl)) clash(a, c->r, who, 1);
    if (write) {
      if (c->w < 0 || c->w == who) c->wl = (c->w == who && c->wl != l) ? 0 : l;
      c->w = who;
    } else {
      if (c->r == -1) { c->r = who; c->rl = l; }
      else { if (c->r != who) c->r = -2; if (c->rl != l) c->rl = 0; }
    }
  }
}

#define RW(n) \
  EXPORT void __tsan_read##n(void *p) { touch((uintptr_t)p, n, 0, 0); } \
  EXPORT void __tsan_write##n(void *p) { touch((uintptr_t)p, n, 1, 0); } \
  EXPORT void __tsan_unaligned_read##n(void *p) { touch((uintptr_t)p, n, 0, 0); } \
  EXPORT void __tsan_unaligned_write##n(void *p) { touch((uintptr_t)p, n, 1, 0); } \
  EXPORT void __tsan_volatile_read##n(void *p) { touch((uintptr_t)p, n, 0, 0); } \
  EXPORT void __tsan_volatile_write##n(void *p) { touch((uintptr_t)p, n, 1, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *p, size_t n) { touch((uintptr_t)p, n, 0, 0); }
EXPORT void __tsan_write_range(void *p, size_t n) { touch((uintptr_t)p, n, 1, 0); }
EXPORT void __tsan_func_entry(void *p) { (void)p; }
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_init(void) {}
#define ATOMIC(b, t) \
  EXPORT t __tsan_atomic##b##_load(const volatile t *p, int m) { touch((uintptr_t)p, b / 8, 0, 1); return *p; } \
  EXPORT void __tsan_atomic##b##_store(volatile t *p, t v, int m) { touch((uintptr_t)p, b / 8, 1, 1); *p = v; } \
  EXPORT t __tsan_atomic##b##_exchange(volatile t *p, t v, int m) { t o = *p; touch((uintptr_t)p, b / 8, 1, 1); *p = v; return o; } \
  EXPORT t __tsan_atomic##b##_fetch_add(volatile t *p, t v, int m) { t o = *p; touch((uintptr_t)p, b / 8, 1, 1); *p = o + v; return o; } \
  EXPORT t __tsan_atomic##b##_fetch_sub(volatile t *p, t v, int m) { t o = *p; touch((uintptr_t)p, b / 8, 1, 1); *p = o - v; return o; } \
  EXPORT int __tsan_atomic##b##_compare_exchange_strong(volatile t *p, t *e, t v, int m, int f) { \
    touch((uintptr_t)p, b / 8, 1, 1); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  EXPORT int __tsan_atomic##b##_compare_exchange_weak(volatile t *p, t *e, t v, int m, int f) { \
    return __tsan_atomic##b##_compare_exchange_strong(p, e, v, m, f); } \
  EXPORT t __tsan_atomic##b##_compare_exchange_val(volatile t *p, t e, t v, int m, int f) { \
    __tsan_atomic##b##_compare_exchange_strong(p, &e, v, m, f); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)

/* library calls the compiler emits for whole-array statements */
EXPORT void *memset(void *p, int v, size_t n) {
  touch((uintptr_t)p, n, 1, 0);
  for (volatile unsigned char *c = p; n--; c++) *c = (unsigned char)v;
  return p;
}
EXPORT void *memcpy(void *d, const void *s, size_t n) {
  touch((uintptr_t)s, n, 0, 0); touch((uintptr_t)d, n, 1, 0);
  volatile unsigned char *a = d; const volatile unsigned char *b = s;
  while (n--) *a++ = *b++;
  return d;
}
EXPORT void *memmove(void *d, const void *s, size_t n) {
  touch((uintptr_t)s, n, 0, 0); touch((uintptr_t)d, n, 1, 0);
  volatile unsigned char *a = d; const volatile unsigned char *b = s;
  if (a < b) while (n--) *a++ = *b++;
  else { a += n; b += n; while (n--) *--a = *--b; }
  return d;
}
/* temporaries: inside a region no block is handed out twice, or the reuse would look like sharing */
extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
EXPORT void *malloc(size_t n) { return __libc_malloc(n); }
EXPORT void free(void *p) { if (!in_region) __libc_free(p); }

/* ---------------------------------------------------------------- threads */
static void enter(void) {
  body(arg);
  alive[who] = 0;
  swapcontext(&ctx[who], &home);
}

static void run(void (*fn)(void *), void *data, int n) {
  int t, left, asked = T;
  if (in_region) { int s = T; T = 1; fn(data); T = s; return; }     /* nested regions run with one thread */
  body = fn; arg = data;
  if (n > MAXT) n = MAXT;
  for (t = 0; t < n; t++) {
    if (!stack[t]) stack[t] = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    getcontext(&ctx[t]);
    ctx[t].uc_stack.ss_sp = stack[t]; ctx[t].uc_stack.ss_size = STACK; ctx[t].uc_link = &home;
    makecontext(&ctx[t], enter, 0);
    alive[t] = 1; seen[t] = 0;
  }
  in_region = 1; phase++; used = 0; lock = 0; T = n;
  do {
    for (t = 0; t < asked; t++) {
      int k = order[t];
      if (k >= n || !alive[k]) continue;
      who = k;
      swapcontext(&home, &ctx[k]);
      who = -1;
    }
    left = 0;
    for (t = 0; t < n; t++) if (alive[t]) left++;
    phase++; used = 0;                                               /* every thread has reached the barrier */
  } while (left);
  in_region = 0; T = asked;
}

EXPORT void GOMP_barrier(void) { if (in_region && who >= 0 && T > 1) { swapcontext(&ctx[who], &home); } }
EXPORT void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { run(fn, data, n ? (n < (unsigned)T ? (int)n : T) : T); }
EXPORT int omp_get_thread_num(void) { return who < 0 ? 0 : who; }
EXPORT int omp_get_num_threads(void) { return in_region ? T : 1; }
EXPORT int omp_get_max_threads(void) { return T; }
EXPORT int omp_in_parallel(void) { return in_region && T > 1; }
static int taker(int s) { return nclaim ? claim[s % nclaim] % T : s % T; }
EXPORT bool GOMP_single_start(void) { if (!in_region || T == 1) return true; return taker(seen[who]++) == who; }
/* SECTIONS: section number k (from 1) belongs to taker(k - 1) */
static int next_section[MAXT], sections[MAXT];
EXPORT unsigned GOMP_sections_next(void) {
  int w = who < 0 ? 0 : who;
  while (next_section[w] < sections[w]) if (T == 1 || taker(next_section[w]++) == w) { if (T == 1) next_section[w]++; return (unsigned)next_section[w]; }
  return 0;
}
EXPORT unsigned GOMP_sections_start(unsigned n) { int w = who < 0 ? 0 : who; sections[w] = (int)n; next_section[w] = 0; return GOMP_sections_next(); }
EXPORT void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned flags) {
  for (int t = 0; t < MAXT; t++) { sections[t] = (int)count; next_section[t] = 0; }
  GOMP_parallel(fn, data, n, flags);
}
EXPORT void GOMP_sections_end(void) { GOMP_barrier(); }
EXPORT void GOMP_sections_end_nowait(void) {}
/* DO with a schedule that is decided at run time: chunk k belongs to taker(k) */
static long ls[MAXT], le[MAXT], li[MAXT], lc[MAXT], lk[MAXT];
static bool more(long *a, long *b) {
  int w = who < 0 ? 0 : who;
  for (;;) {
    long s = ls[w] + lk[w] * lc[w] * li[w], e = s + lc[w] * li[w];
    if (li[w] > 0 ? s >= le[w] : s <= le[w]) return false;
    if (li[w] > 0 ? e > le[w] : e < le[w]) e = le[w];
    if (T == 1 || taker((int)lk[w]) == w) { lk[w]++; *a = s; *b = e; return true; }
    lk[w]++;
  }
}
static bool begin(long s, long e, long i, long c, long *a, long *b) {
  int w = who < 0 ? 0 : who;
  ls[w] = s; le[w] = e; li[w] = i; lc[w] = c > 0 ? c : 1; lk[w] = 0;
  return more(a, b);
}
#define LOOP(x) \
  EXPORT bool GOMP_loop_##x##_start(long s, long e, long i, long c, long *a, long *b) { return begin(s, e, i, c, a, b); } \
  EXPORT bool GOMP_loop_##x##_next(long *a, long *b) { return more(a, b); } \
  EXPORT void GOMP_parallel_loop_##x(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { \
    for (int t = 0; t < MAXT; t++) { ls[t] = s; le[t] = e; li[t] = i; lc[t] = c > 0 ? c : 1; lk[t] = 0; } \
    GOMP_parallel(fn, d, n, f); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define RLOOP(x) \
  EXPORT bool GOMP_loop_##x##_start(long s, long e, long i, long *a, long *b) { return begin(s, e, i, 1, a, b); } \
  EXPORT bool GOMP_loop_##x##_next(long *a, long *b) { return more(a, b); } \
  EXPORT void GOMP_parallel_loop_##x(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { \
    for (int t = 0; t < MAXT; t++) { ls[t] = s; le[t] = e; li[t] = i; lc[t] = 1; lk[t] = 0; } \
    GOMP_parallel(fn, d, n, f); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
EXPORT void GOMP_loop_end(void) { GOMP_barrier(); }
EXPORT void GOMP_loop_end_nowait(void) {}
EXPORT void GOMP_critical_start(void) { lock = 1; }
EXPORT void GOMP_critical_end(void) { lock = 0; }
EXPORT void GOMP_critical_name_start(void **p) { lock = (long)(intptr_t)p; }
EXPORT void GOMP_critical_name_end(void **p) { lock = 0; }
EXPORT void GOMP_atomic_start(void) { lock = -1; }
EXPORT void GOMP_atomic_end(void) { lock = 0; }

/* ---------------------------------------------------------------- the checker's side */
EXPORT void mc_schedule(int threads, const int *o, int nc, const int *c) {
  T = threads < MAXT ? threads : MAXT;
  for (int t = 0; t < T; t++) order[t] = o[t];
  nclaim = nc < 4096 ? nc : 4096;
  for (int i = 0; i < nclaim; i++) claim[i] = c[i];
  nconf = 0; accesses = 0;
}
EXPORT int mc_conflicts(void) { return nconf; }
EXPORT void mc_conflict(int i, uint64_t *a, int *one, int *two, int *kind) { *a = conf[i].a; *one = conf[i].one; *two = conf[i].two; *kind = conf[i].kind; }
EXPORT long mc_accesses(void) { return accesses; }
