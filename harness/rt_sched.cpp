// Runtime behind -fsanitize=thread instrumentation (the library of the sanitizer itself is not linked).
//  * one controlled thread runs at a time; before every synchronisation operation (atomic access, lock, one-time
//    initialisation) the scheduler decides who continues, following a prefix of choices given by the explorer;
//  * every plain access to memory outside the thread's own stack is checked against a vector-clock shadow, so a pair
//    of conflicting accesses that is not ordered by synchronisation is reported in whichever order it happened.
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <string.h>
#include <locale.h>
#include "mcsched.h"
#define NT SCHED_NT
#define PC ((uint64_t)__builtin_return_address(0))
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }

struct Th { uintptr_t lo, len; uint32_t C[NT], relF[NT], acqP[NT]; uint64_t addr; int kind, fin; uint32_t go; int spin; };
static Th th[NT];
static int nth, cur, last;
static SchedShared* sh;
static __thread int me = -1;
static void (*body)(int);
static uint32_t doneWord;

// ---- per-address tables
enum { GR_BITS = 21, SY_BITS = 16 };
struct Granule { uint64_t key; uint32_t clk[4][NT][8]; };         // kinds: 0 read, 1 write, 2 atomic read, 3 atomic write
struct GSlot { uint64_t key; uint32_t idx; };
static GSlot* gtab; static Granule* gpool; static uint32_t gn; static uint64_t* gpc;   // gpc: [granule][kind][thread] last pc
enum { GP_MAX = 1 << 19 };
struct Sync { uint64_t key; uint32_t L[NT]; int owner, count, readers; int once; };
static Sync* stab;
static inline uint64_t hs(uint64_t x) { x *= 0x9e3779b97f4a7c15ull; return x ^ x >> 29; }
static Granule* gran(uint64_t k, int make) {
  uint64_t i = hs(k) & ((1u << GR_BITS) - 1);
  while (gtab[i].key) { if (gtab[i].key == k) return &gpool[gtab[i].idx]; i = (i + 1) & ((1u << GR_BITS) - 1); }
  if (!make || gn >= GP_MAX) return 0;
  gtab[i].key = k; gtab[i].idx = gn++; return &gpool[gtab[i].idx];
}
static Sync* syn(uint64_t k) {
  uint64_t i = hs(k) & ((1u << SY_BITS) - 1); int n = 0;
  while (stab[i].key) { if (stab[i].key == k) return &stab[i]; i = (i + 1) & ((1u << SY_BITS) - 1); if (++n > 60000) { sh->overflow = 1; _exit(0); } }
  stab[i].key = k; stab[i].owner = -1; return &stab[i];
}
static void* anon(size_t n) { void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) _exit(9); return p; }

static inline void checkOne(uint64_t a, size_t n, int kind, uint64_t pc, int t) {   // [a, a+n) inside one granule
  Granule* g = gran(a >> 3 | 1ull << 62, 1); if (!g) return;
  uint32_t now = th[t].C[t]; unsigned b0 = a & 7, b1 = b0 + n; bool same = true;
  for (unsigned b = b0; b < b1; b++) if (g->clk[kind][t][b] != now) { same = false; break; }
  if (same) return;
  // a conflicts with: plain read: plain+atomic writes; plain write: everything; atomic read: plain writes; atomic write: plain reads and writes
  static const uint8_t conf[4] = {0x0a, 0x0f, 0x02, 0x03};
  for (int u = 0; u < nth; u++) if (u != t) for (int k = 0; k < 4; k++) if (conf[kind] >> k & 1) for (unsigned b = b0; b < b1; b++) if (g->clk[k][u][b] > th[t].C[u] && !sh->race) {
    sh->race = 1; sh->raceAddr = a; sh->raceSize = (int)n; sh->racePc[0] = gpc[((size_t)(g - gpool) * 4 + k) * NT + u]; sh->racePc[1] = pc; sh->raceKind[0] = k; sh->raceKind[1] = kind; sh->raceTid[0] = u; sh->raceTid[1] = t;
  }
  for (unsigned b = b0; b < b1; b++) g->clk[kind][t][b] = now;
  gpc[((size_t)(g - gpool) * 4 + kind) * NT + t] = pc;
}
static void slow(uint64_t a, size_t n, int kind, uint64_t pc, int t) {
  sh->accesses++;
  while (n) { size_t k = 8 - (a & 7); if (k > n) k = n; checkOne(a, k, kind, pc, t); a += k; n -= k; }
}
static inline void acc(const void* p, size_t n, int kind, uint64_t pc) {
  int t = me; if (t < 0) return; uintptr_t a = (uintptr_t)p; if (a - th[t].lo < th[t].len) return; slow(a, n, kind, pc, t);
}
static void clearRange(const void* p, size_t n) {
  if (me < 0 || !p) return; uint64_t a = (uint64_t)p;
  for (uint64_t k = a >> 3; k <= (a + (n ? n - 1 : 0)) >> 3; k++) { Granule* g = gran(k | 1ull << 62, 0); if (g) for (unsigned i = 0; i < sizeof g->clk / 4; i++) (&g->clk[0][0][0])[i] = 0; }
}

// ---- scheduler
static void fwait(uint32_t* w) { while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(w, 0, __ATOMIC_RELAXED); }
static void fwake(uint32_t* w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static int enabledT(int t) {
  if (th[t].fin) return 0; if (th[t].kind != EV_LOCK) return 1; Sync* s = syn(th[t].addr); return s->owner < 0 || s->owner == t ? (s->readers == 0 || 1) : 0;
}
static int pick() {   // chooses the thread whose pending operation is executed next; -1: nobody left
  unsigned en = 0; int alive = 0; for (int t = 0; t < nth; t++) { if (!th[t].fin) alive = 1; if (enabledT(t)) en |= 1u << t; }
  if (!alive) return -1; if (!en) { sh->deadlock = 1; return -1; }
  int i = sh->nev, c = -1;
  if (i >= SCHED_MAXE) { sh->overflow = 1; return -1; }
  if (i < sh->nprefix) { c = sh->prefix[i]; if (c >= nth || !(en >> c & 1)) { sh->diverged = 1; return -1; } }
  else { if (last >= 0 && (en >> last & 1) && !(th[last].spin > 300 && (en & ~(1u << last)))) c = last; else { int from = last; for (int k = 1; k <= nth; k++) { int x = (from + k + nth) % nth; if (en >> x & 1) { c = x; break; } } } }
  SchedEv& e = sh->ev[i]; e.addr = th[c].addr; e.kind = (uint8_t)th[c].kind; e.tid = (uint8_t)c; e.enabled = (uint8_t)en; sh->nev = i + 1;
  if (c == last) th[c].spin++; else th[c].spin = 0;
  last = c; return c;
}
static void handover(int t) { int c = pick(); if (c == t) return; if (c < 0) { fwake(&doneWord); for (;;) pause(); } fwake(&th[c].go); fwait(&th[t].go); }
static void point(const void* a, int kind) { int t = me; th[t].addr = (uint64_t)a; th[t].kind = kind; sh->syncs++; handover(t); }
static void* start(void* v) {
  int t = (int)(intptr_t)v; fwait(&th[t].go); me = t; body(t); me = -1; th[t].fin = 1;
  int c = pick(); if (c < 0) fwake(&doneWord); else fwake(&th[c].go); return 0;
}
extern "C" void sched_run(SchedShared* s, int n, void (*fn)(int)) {
  sh = s; nth = n; body = fn; last = -1; gtab = (GSlot*)anon(sizeof(GSlot) << GR_BITS); gpool = (Granule*)anon(sizeof(Granule) * (size_t)GP_MAX); gpc = (uint64_t*)anon(8ull * 4 * NT * GP_MAX); stab = (Sync*)anon(sizeof(Sync) << SY_BITS);
  const size_t SS = 64u << 20;
  for (int t = 0; t < n; t++) {
    char* st = (char*)anon(SS); th[t].lo = (uintptr_t)st; th[t].len = SS; th[t].C[t] = 1; th[t].kind = EV_START; th[t].addr = 0;
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, st, SS); pthread_t p; if (pthread_create(&p, &a, start, (void*)(intptr_t)t)) _exit(9);
  }
  int c = pick(); fwake(&th[c].go); fwait(&doneWord); if (!sh->deadlock && !sh->overflow && !sh->diverged) sh->finished = 1;
}

// ---- happens-before
static void join(uint32_t* a, const uint32_t* b) { for (int i = 0; i < NT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static bool acqOrder(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool relOrder(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void onLoad(const void* a, int mo) { Th& T = th[me]; Sync* s = syn((uint64_t)a); if (acqOrder(mo)) join(T.C, s->L); else join(T.acqP, s->L); }
static void onStore(const void* a, int mo, bool rmw) {
  Th& T = th[me]; Sync* s = syn((uint64_t)a); if (!rmw) for (int i = 0; i < NT; i++) s->L[i] = 0;
  if (relOrder(mo)) { join(s->L, T.C); T.C[me]++; } else join(s->L, T.relF);
}
static void acquire(const void* a) { join(th[me].C, syn((uint64_t)a)->L); }
static void release(const void* a) { Sync* s = syn((uint64_t)a); join(s->L, th[me].C); th[me].C[me]++; }

extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* a) { acc(a, n, 0, PC); } void __tsan_write##n(void* a) { acc(a, n, 1, PC); } void __tsan_unaligned_read##n(void* a) { acc(a, n, 0, PC); } void __tsan_unaligned_write##n(void* a) { acc(a, n, 1, PC); } \
  void __tsan_read_write##n(void* a) { acc(a, n, 0, PC); acc(a, n, 1, PC); } void __tsan_unaligned_read_write##n(void* a) { acc(a, n, 0, PC); acc(a, n, 1, PC); } void __tsan_volatile_read##n(void* a) { acc(a, n, 0, PC); } void __tsan_volatile_write##n(void* a) { acc(a, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { acc(a, n, 0, PC); } void __tsan_write_range(void* a, size_t n) { acc(a, n, 1, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) acc(p, 8, 1, PC); } void __tsan_vptr_read(void** p) { acc(p, 8, 0, PC); }

static inline void cpy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static inline void mov(void* d, const void* s, size_t n) { if ((uintptr_t)d - (uintptr_t)s >= n) { cpy(d, s, n); return; } char* D = (char*)d; const char* S = (const char*)s; while (n--) { D[n] = S[n]; asm volatile("" ::: "memory"); } }
static inline void fil(void* d, int c, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { acc(s, n, 0, PC); acc(d, n, 1, PC); mov(d, s, n); return d; }
void* __tsan_memmove(void* d, const void* s, size_t n) { acc(s, n, 0, PC); acc(d, n, 1, PC); mov(d, s, n); return d; }
void* __tsan_memset(void* d, int c, size_t n) { acc(d, n, 1, PC); fil(d, c, n); return d; }
void* memcpy(void* d, const void* s, size_t n) { acc(s, n, 0, PC); acc(d, n, 1, PC); mov(d, s, n); return d; }
void* memmove(void* d, const void* s, size_t n) { acc(s, n, 0, PC); acc(d, n, 1, PC); mov(d, s, n); return d; }
void* memset(void* d, int c, size_t n) { acc(d, n, 1, PC); fil(d, c, n); return d; }
int memcmp(const void* a, const void* b, size_t n) { acc(a, n, 0, PC); acc(b, n, 0, PC); const unsigned char* x = (const unsigned char*)a; const unsigned char* y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return (int)x[i] - (int)y[i]; return 0; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }

// memory reuse: fresh blocks carry no history
void* malloc(size_t n) { void* p = __libc_malloc(n); clearRange(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); clearRange(p, a * b); return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); clearRange(p, n); return p; }
void free(void* p) { __libc_free(p); }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); clearRange(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; }

#define ATOM(B, T) \
T __tsan_atomic##B##_load(const volatile T* a, int mo) { if (me >= 0) { point((void*)a, EV_READ); acc((void*)a, sizeof(T), 2, PC); onLoad((void*)a, mo); } return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { if (me >= 0) { point((void*)a, EV_WRITE); acc((void*)a, sizeof(T), 3, PC); onStore((void*)a, mo, false); } __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { if (me >= 0) { point((void*)a, EV_WRITE); acc((void*)a, sizeof(T), 3, PC); onLoad((void*)a, mo); onStore((void*)a, mo, true); } return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { if (me >= 0) { point((void*)a, EV_WRITE); T now = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (now == *e) { acc((void*)a, sizeof(T), 3, PC); onLoad((void*)a, mo); onStore((void*)a, mo, true); } else { acc((void*)a, sizeof(T), 2, PC); onLoad((void*)a, fmo); } } return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, e, v, mo, fmo); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
#define FETCH(B, T, OP) T __tsan_atomic##B##_fetch_##OP(volatile T* a, T v, int mo) { if (me >= 0) { point((void*)a, EV_WRITE); acc((void*)a, sizeof(T), 3, PC); onLoad((void*)a, mo); onStore((void*)a, mo, true); } return __atomic_fetch_##OP(a, v, __ATOMIC_SEQ_CST); }
#define ALL(B, T) ATOM(B, T) FETCH(B, T, add) FETCH(B, T, sub) FETCH(B, T, and) FETCH(B, T, or) FETCH(B, T, xor) FETCH(B, T, nand)
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (me >= 0) { Th& T = th[me]; if (acqOrder(mo)) join(T.C, T.acqP); if (relOrder(mo)) { join(T.relF, T.C); T.C[me]++; } } __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

// one-time initialisation of function-local statics
int __cxa_guard_acquire(uint64_t* g) {
  if (me < 0) return *(uint8_t*)g == 0;
  point(g, EV_LOCK); acquire(g); if (*(uint8_t*)g) return 0; Sync* s = syn((uint64_t)g); s->owner = me; return 1;
}
void __cxa_guard_release(uint64_t* g) { if (me < 0) { __atomic_store_n((uint8_t*)g, 1, __ATOMIC_SEQ_CST); return; } point(g, EV_UNLOCK); __atomic_store_n((uint8_t*)g, 1, __ATOMIC_SEQ_CST); syn((uint64_t)g)->owner = -1; release(g); }
void __cxa_guard_abort(uint64_t* g) { if (me < 0) return; point(g, EV_UNLOCK); syn((uint64_t)g)->owner = -1; release(g); }

#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))
int pthread_mutex_lock(pthread_mutex_t* m) { if (me < 0) return REAL(pthread_mutex_lock)(m); Sync* s = syn((uint64_t)m); if (s->owner == me && (m->__data.__kind & 3) == 1) { s->count++; return 0; } if (s->owner == me) { sh->deadlock = 1; fwake(&doneWord); for (;;) pause(); } point(m, EV_LOCK); s->owner = me; s->count = 1; acquire(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (me < 0) return REAL(pthread_mutex_trylock)(m); Sync* s = syn((uint64_t)m); point(m, EV_WRITE); if (s->owner >= 0 && !(s->owner == me && (m->__data.__kind & 3) == 1)) return EBUSY; s->owner = me; s->count++; acquire(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (me < 0) return REAL(pthread_mutex_unlock)(m); Sync* s = syn((uint64_t)m); if (s->owner == me && --s->count > 0) return 0; point(m, EV_UNLOCK); release(m); s->owner = -1; s->count = 0; return 0; }
// reader-writer locks and spin locks are treated as exclusive locks
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (me < 0) return REAL(pthread_rwlock_rdlock)(m); Sync* s = syn((uint64_t)m); point(m, EV_LOCK); s->owner = me; s->count++; acquire(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (me < 0) return REAL(pthread_rwlock_wrlock)(m); Sync* s = syn((uint64_t)m); point(m, EV_LOCK); s->owner = me; s->count++; acquire(m); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (me < 0) return REAL(pthread_rwlock_unlock)(m); Sync* s = syn((uint64_t)m); if (s->owner == me && --s->count > 0) return 0; point(m, EV_UNLOCK); release(m); s->owner = -1; s->count = 0; return 0; }
int pthread_spin_lock(pthread_spinlock_t* m) { if (me < 0) return REAL(pthread_spin_lock)(m); Sync* s = syn((uint64_t)m); point((void*)m, EV_LOCK); s->owner = me; acquire((void*)m); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* m) { if (me < 0) return REAL(pthread_spin_unlock)(m); point((void*)m, EV_UNLOCK); release((void*)m); syn((uint64_t)m)->owner = -1; return 0; }
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (me < 0) return REAL(pthread_once)(o, f); Sync* s = syn((uint64_t)o); point((void*)o, EV_LOCK); acquire((void*)o); if (s->once || *o == 2) return 0; s->owner = me; f(); point((void*)o, EV_UNLOCK); s->once = 1; s->owner = -1; release((void*)o); return 0;
}
int sched_yield() { if (me >= 0) th[me].spin = 1000; return 0; }

// functions of the C library that keep their state in one place for the whole process
static char libcState[16][8];
#define SHARED(i) acc(libcState[i], 8, 1, PC)
struct tm* gmtime(const time_t* t) { auto f = REAL(gmtime); SHARED(0); return f(t); }
struct tm* localtime(const time_t* t) { auto f = REAL(localtime); SHARED(0); return f(t); }
char* asctime(const struct tm* t) { auto f = REAL(asctime); SHARED(1); return f(t); }
char* ctime(const time_t* t) { auto f = REAL(ctime); SHARED(1); return f(t); }
double drand48() { auto f = REAL(drand48); SHARED(2); return f(); }
long lrand48() { auto f = REAL(lrand48); SHARED(2); return f(); }
long mrand48() { auto f = REAL(mrand48); SHARED(2); return f(); }
void srand48(long x) { auto f = REAL(srand48); SHARED(2); f(x); }
int setenv(const char* a, const char* b, int o) { auto f = REAL(setenv); SHARED(3); return f(a, b, o); }
int unsetenv(const char* a) { auto f = REAL(unsetenv); SHARED(3); return f(a); }
int putenv(char* a) { auto f = REAL(putenv); SHARED(3); return f(a); }
char* setlocale(int c, const char* l) { auto f = REAL(setlocale); if (l) SHARED(4); return f(c, l); }
}
