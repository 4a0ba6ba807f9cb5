// See sched.hpp. This file is not instrumented and uses nothing from the C++ library that instrumented code might share.
#include "sched.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <new>

namespace sched {
Decision* trace;
int decisions;
uint64_t points, accesses;
int threads_made, races;
char race_text[600];
}  // namespace sched

namespace {
using namespace sched;
constexpr int M = max_threads;
typedef uint32_t u32;
typedef uint64_t u64;

long raw(long n, long a, long b, long c, long d = 0, long e = 0, long f = 0) {
  long r;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
struct VC { u32 c[M]; };

enum State { unused, runnable, blocked, finished };
struct Thread {
  State st;
  const void* on;      // what it waits for
  bool timed, woken, timed_out;
  VC vc, acq, rel;     // own clock; clocks seen by relaxed loads; clock of the last release fence
  u32 token;           // futex word
  pthread_t id;
  void* (*fn)(void*);
  void* arg;
  u64 streak;
  u64 lo, hi;          // its own stack: stacks are handed on to later threads
};
bool active = false;
Thread th[M];
int nth = 0, cur = 0;
// entries of threads that do not exist yet are zero
void join(VC& a, const VC& b) { for (int i = 0; i < nth; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
__thread int self = -1;
const Decision* prefix;
int nprefix;
pthread_key_t key;

[[noreturn]] void fatal(const char* f, ...) {
  char b[600];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  raw(SYS_write, 2, (long)b, (long)strlen(b));
  raw(SYS_write, 2, (long)"\n", 1);
  abort();
}
void wait_token(int t) {
  while (true) {
    const u32 v = __atomic_load_n(&th[t].token, __ATOMIC_ACQUIRE);
    if (v) { __atomic_store_n(&th[t].token, 0, __ATOMIC_RELAXED); return; }
    raw(SYS_futex, (long)&th[t].token, FUTEX_WAIT_PRIVATE, 0, 0);
  }
}
void give_token(int t) {
  cur = t;
  __atomic_store_n(&th[t].token, 1, __ATOMIC_RELEASE);
  raw(SYS_futex, (long)&th[t].token, FUTEX_WAKE_PRIVATE, 1);
}
// who goes on; me may be anything
int decide(int me, bool give_way) {
  int list[M], n = 0;
  const bool mine = th[me].st == runnable;
  if (mine && !give_way) list[n++] = me;
  // a thread that gives way (it spins, yields or sleeps) goes on only when all others have had their turn
  for (int k = 1; k <= nth; k++) {
    const int t = give_way ? (me + k) % nth : k - 1;
    if (t != me && th[t].st == runnable) list[n++] = t;
  }
  if (mine && give_way && n == 0) list[n++] = me;
  if (n == 0) {
    // waits with a time limit end when nothing else can happen
    for (int t = 0; t < nth; t++) if (th[t].st == blocked && th[t].timed) { th[t].st = runnable; th[t].timed_out = true; return t; }
    char b[400];
    int at = snprintf(b, sizeof b, "deadlock:");
    for (int t = 0; t < nth; t++) if (th[t].st == blocked && at < (int)sizeof b) at += snprintf(b + at, sizeof b - at, " thread %d waits for %p", t, th[t].on);
    fatal("%s", b);
  }
  if (n == 1) return list[0];
  if (decisions >= max_decisions) fatal("the calculation does not end");
  int k = decisions < nprefix ? prefix[decisions].chosen : 0;
  if (k >= n) k = n - 1;
  trace[decisions++] = {(uint8_t)n, (uint8_t)k, (uint8_t)!mine};
  return list[k];
}
void hand_over(int me, bool give_way) {
  const int t = decide(me, give_way);
  if (t == me) return;
  th[me].streak = 0;
  const bool back = th[me].st != finished;
  give_token(t);
  if (back) wait_token(me);
}
// a place where another thread may go on instead
void point(bool give_way = false) {
  if (!active || self < 0) return;
  points++;
  if (points > 30000000) fatal("the calculation does not end");
  if (++th[self].streak > 50000) { give_way = true; th[self].streak = 0; }
  hand_over(self, give_way);
}
void block(const void* on, bool timed = false) {
  th[self].st = blocked;
  th[self].on = on;
  th[self].timed = timed;
  th[self].timed_out = false;
  hand_over(self, false);
}
int wake(const void* on, int n) {
  int k = 0;
  for (int t = 0; t < nth && k < n; t++) if (th[t].st == blocked && th[t].on == on) { th[t].st = runnable; k++; }
  return k;
}

// ---- clocks of synchronisation objects, by address
struct Loc { u64 addr; VC vc; };
constexpr u32 NLOC = 1 << 14;
Loc* locs;
u32 loc_gen = 0;
u32* loc_gens;
VC& clock_of(const void* p) {
  u64 h = (u64)p * 0x9e3779b97f4a7c15ull >> 40;
  for (u32 i = 0; i < NLOC; i++, h++) {
    Loc& l = locs[h & (NLOC - 1)];
    u32& g = loc_gens[h & (NLOC - 1)];
    if (g != loc_gen) { g = loc_gen; l.addr = (u64)p; memset(&l.vc, 0, sizeof l.vc); return l.vc; }
    if (l.addr == (u64)p) return l.vc;
  }
  fatal("harness: too many synchronisation objects");
}
void acquire(const void* p) { join(th[self].vc, clock_of(p)); }
void release(const void* p) { join(clock_of(p), th[self].vc); th[self].vc.c[self]++; }
bool on() { return active && self >= 0; }

// ---- shadow memory
struct Rec { u32 w, r, a; uint8_t wm, rm, am; };
struct Word { u64 key; u32 gen; int n; Rec t[]; };  // the first n records are in use, of `width`
constexpr u64 NWORD = 1 << 19;
char* words;
size_t stride = 0;
int width = 0;
u32 gen = 0;
u64 used = 0;
const void* pc_now;
Word& word_of(u64 a) {
  const u64 k = a >> 3;
  u64 h = k * 0x9e3779b97f4a7c15ull >> 45;
  while (true) {
    Word& w = *(Word*)(words + (h & (NWORD - 1)) * stride);
    if (w.gen != gen) {
      if (++used > NWORD * 7 / 10) { gen++; used = 0; return word_of(a); }  // forget: may miss, never invents
      memset(w.t, 0, sizeof(Rec) * nth);
      w.gen = gen; w.key = k; w.n = nth;
      return w;
    }
    if (w.key == k) {
      if (w.n < nth) { memset(w.t + w.n, 0, sizeof(Rec) * (nth - w.n)); w.n = nth; }
      return w;
    }
    h++;
  }
}
const char* name_of(const void* pc) {
  Dl_info i;
  if (pc && dladdr(pc, &i) && i.dli_sname) return i.dli_sname;
  return "?";
}
void race(const char* what, u64 a, const char* other, int t) {
  if (races++ == 0) snprintf(race_text, sizeof race_text, "data race: %s by thread %d in %s, unordered with a %s by thread %d", what, self, name_of(pc_now), other, t), (void)a;
}
enum Kind { R, W, A };
void touch_word(u64 base, uint8_t mask, Kind k) {
  Word& w = word_of(base);
  Rec& m = w.t[self];
  const u32 e = th[self].vc.c[self];
  if (k == R && m.r == e && (m.rm & mask) == mask) return;
  if (k == W && m.w == e && (m.wm & mask) == mask) return;
  const VC& v = th[self].vc;
  for (int t = 0; t < nth; t++) {
    if (t == self) continue;
    const Rec& o = w.t[t];
    if (o.w > v.c[t] && (o.wm & mask)) race(k == R ? "read" : k == W ? "write" : "atomic operation", base, "write", t);
    if (k == W && o.r > v.c[t] && (o.rm & mask)) race("write", base, "read", t);
    if (k == A && o.r > v.c[t] && (o.rm & mask)) race("atomic operation", base, "read", t);
    if (k != A && o.a > v.c[t] && (o.am & mask)) race(k == R ? "read" : "write", base, "atomic operation", t);
  }
  if (k == R) { m.rm = m.r == e ? m.rm | mask : mask; m.r = e; }
  if (k == W) { m.wm = m.w == e ? m.wm | mask : mask; m.w = e; }
  if (k == A) { m.am = m.a == e ? m.am | mask : mask; m.a = e; }
}
void touch(const volatile void* p, u64 n, Kind k, const void* pc) {
  if (!on() || n == 0) return;
  pc_now = pc;
  u64 a = (u64)p, end = a + n;
  if (a >= th[self].lo && a < th[self].hi) return;
  accesses++;
  while (a < end) {
    const u64 base = a & ~7ull, stop = end < base + 8 ? end : base + 8;
    const uint8_t mask = (uint8_t)(((1u << (stop - a)) - 1) << (a - base));
    touch_word(base, mask, k);
    a = stop;
  }
}
void forget(const void* p, u64 n) {
  if (!on()) return;
  for (u64 a = (u64)p & ~7ull; a < (u64)p + n; a += 8) { Word& w = word_of(a); memset(w.t, 0, sizeof(Rec) * w.n); }
}

template <class F> F real(const char* n) { F f = (F)dlsym(RTLD_NEXT, n); if (!f) fatal("no %s", n); return f; }
#define REAL(name) (*[] { static __typeof__(&name) f = nullptr; if (!f) f = real<__typeof__(&name)>(#name); return f; }())

void finish(void* v) {
  const int t = (int)(long)v - 1;
  if (!active || self != t) return;
  th[t].st = finished;
  th[t].vc.c[t]++;
  wake(&th[t], M);
  const int n = decide(t, false);
  self = -1;
  give_token(n);
}
void* trampoline(void* v) {
  const int t = (int)(long)v;
  pthread_setspecific(key, (void*)(long)(t + 1));
  pthread_attr_t at;
  void* lo = nullptr;
  size_t n = 0;
  if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &lo, &n); pthread_attr_destroy(&at); }
  wait_token(t);
  self = t;
  th[t].lo = (u64)lo;
  th[t].hi = (u64)lo + n;
  return th[t].fn(th[t].arg);
}
int find(pthread_t p) { for (int t = 1; t < nth; t++) if (th[t].id == p) return t; return -1; }

// ---- mutexes, read-write locks, semaphores
struct Mutex { const void* p; int owner, depth, readers; };
Mutex mx[256];
int nmx = 0;
Mutex& mutex_of(const void* p) {
  for (int i = 0; i < nmx; i++) if (mx[i].p == p) return mx[i];
  if (nmx == 256) fatal("harness: too many mutexes");
  mx[nmx] = {p, -1, 0, 0};
  return mx[nmx++];
}
bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int lock(pthread_mutex_t* p, bool wait) {
  point();
  while (true) {
    Mutex& m = mutex_of(p);
    if (m.owner < 0) { m.owner = self; m.depth = 1; acquire(p); return 0; }
    if (m.owner == self && recursive(p)) { m.depth++; return 0; }
    if (!wait) return EBUSY;
    block(p);
  }
}
void let_go(pthread_mutex_t* p) {
  Mutex& m = mutex_of(p);
  if (m.owner == self && --m.depth == 0) { m.owner = -1; release(p); wake(p, M); }
}
int unlock(pthread_mutex_t* p) {
  let_go(p);
  point();
  return 0;
}
int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  let_go(m);  // at once with starting to wait: no signal may fall in between
  block(c, timed);
  const bool out = th[self].timed_out;
  th[self].timed_out = false;
  acquire(c);
  lock(m, true);
  return out ? ETIMEDOUT : 0;
}
}  // namespace

namespace sched {
void begin(const Decision* p, int n, int most) {
  if (!trace) {
    trace = (Decision*)mmap(0, sizeof(Decision) * max_decisions, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    words = (char*)mmap(0, (sizeof(Word) + sizeof(Rec) * M) * NWORD, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    locs = (Loc*)mmap(0, sizeof(Loc) * NLOC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    loc_gens = (u32*)mmap(0, sizeof(u32) * NLOC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pthread_key_create(&key, finish);
  }
  if (most > M) fatal("harness: more than %d threads", M);
  if (most != width) {
    if (width) madvise(words, stride * NWORD, MADV_DONTNEED);
    width = most;
    stride = sizeof(Word) + sizeof(Rec) * width;
  }
  prefix = p; nprefix = n;
  decisions = 0; points = 0; accesses = 0; threads_made = 0; races = 0; race_text[0] = 0;
  gen++; used = 0; loc_gen++;
  nmx = 0;
  memset(th, 0, sizeof th);
  nth = 1; cur = 0; self = 0;
  th[0].st = runnable;
  th[0].vc.c[0] = 1;
  active = true;
}
void end() {
  // threads nobody joined run on
  for (bool more = true; more;) {
    more = false;
    for (int t = 1; t < nth; t++) if (th[t].st != finished) { more = true; block(&th[t]); break; }
  }
  active = false;
  self = -1;
}
}  // namespace sched

extern "C" {
// ---- what the instrumentation calls
void __tsan_init() {}
#define RW(n) \
  void __tsan_read##n(void* p) { touch(p, n, R, __builtin_return_address(0)); } \
  void __tsan_write##n(void* p) { touch(p, n, W, __builtin_return_address(0)); } \
  void __tsan_read_write##n(void* p) { touch(p, n, R, __builtin_return_address(0)); touch(p, n, W, __builtin_return_address(0)); } \
  void __tsan_unaligned_read##n(void* p) { touch(p, n, R, __builtin_return_address(0)); } \
  void __tsan_unaligned_write##n(void* p) { touch(p, n, W, __builtin_return_address(0)); } \
  void __tsan_unaligned_read_write##n(void* p) { touch(p, n, R, __builtin_return_address(0)); touch(p, n, W, __builtin_return_address(0)); } \
  void __tsan_volatile_read##n(void* p) { touch(p, n, R, __builtin_return_address(0)); } \
  void __tsan_volatile_write##n(void* p) { touch(p, n, W, __builtin_return_address(0)); } \
  void __tsan_unaligned_volatile_read##n(void* p) { touch(p, n, R, __builtin_return_address(0)); } \
  void __tsan_unaligned_volatile_write##n(void* p) { touch(p, n, W, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { touch(p, n, R, __builtin_return_address(0)); }
void __tsan_write_range(void* p, unsigned long n) { touch(p, n, W, __builtin_return_address(0)); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) touch(p, 8, W, __builtin_return_address(0)); }
void __tsan_vptr_read(void** p) { touch(p, 8, R, __builtin_return_address(0)); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { touch(s, n, R, __builtin_return_address(0)); touch(d, n, W, __builtin_return_address(0)); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { touch(s, n, R, __builtin_return_address(0)); touch(d, n, W, __builtin_return_address(0)); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { touch(d, n, W, __builtin_return_address(0)); return memset(d, c, n); }

}  // extern "C"
namespace {
bool acquires(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool releases(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void before(const volatile void* p, u64 n, const void* pc) { if (on()) { point(); touch(p, n, A, pc); } }
void loaded(const volatile void* p, int mo) {
  if (!on()) return;
  if (acquires(mo)) acquire((const void*)p);
  else join(th[self].acq, clock_of((const void*)p));
}
void stored(const volatile void* p, int mo, bool rmw) {
  if (!on()) return;
  VC& c = clock_of((const void*)p);
  if (!rmw) memset(&c, 0, sizeof c);
  if (releases(mo)) { join(c, th[self].vc); th[self].vc.c[self]++; }
  else join(c, th[self].rel);
}
}  // namespace
extern "C" {
#define ATOMIC(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* p, int mo) { before(p, sizeof(T), __builtin_return_address(0)); T v = *p; loaded(p, mo); return v; } \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { before(p, sizeof(T), __builtin_return_address(0)); *p = v; stored(p, mo, false); } \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { before(p, sizeof(T), __builtin_return_address(0)); T o = *p; *p = v; loaded(p, mo); stored(p, mo, true); return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { before(p, sizeof(T), __builtin_return_address(0)); T o = *p; *p = o + v; loaded(p, mo); stored(p, mo, true); return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { before(p, sizeof(T), __builtin_return_address(0)); T o = *p; *p = o - v; loaded(p, mo); stored(p, mo, true); return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { before(p, sizeof(T), __builtin_return_address(0)); T o = *p; *p = o & v; loaded(p, mo); stored(p, mo, true); return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { before(p, sizeof(T), __builtin_return_address(0)); T o = *p; *p = o | v; loaded(p, mo); stored(p, mo, true); return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { before(p, sizeof(T), __builtin_return_address(0)); T o = *p; *p = o ^ v; loaded(p, mo); stored(p, mo, true); return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { before(p, sizeof(T), __builtin_return_address(0)); T o = *p; *p = ~(o & v); loaded(p, mo); stored(p, mo, true); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { \
    before(p, sizeof(T), __builtin_return_address(0)); \
    T o = *p; \
    if (o == *e) { *p = v; loaded(p, mo); stored(p, mo, true); return 1; } \
    loaded(p, fmo); *e = o; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t) ATOMIC(128, unsigned __int128)
void __tsan_atomic_thread_fence(int mo) {
  if (!on()) return;
  if (acquires(mo)) join(th[self].vc, th[self].acq);
  if (releases(mo)) { th[self].rel = th[self].vc; th[self].vc.c[self]++; }
}
void __tsan_atomic_signal_fence(int) {}

// ---- threads
int pthread_create(pthread_t* id, const pthread_attr_t* at, void* (*f)(void*), void* a) {
  if (!on()) return REAL(pthread_create)(id, at, f, a);
  point();
  if (nth == width) fatal("harness: more than %d threads", width);
  const int t = nth;
  Thread& n = th[t];
  memset(&n, 0, sizeof n);
  n.fn = f; n.arg = a;
  n.vc = th[self].vc;
  n.vc.c[t] = 1;
  th[self].vc.c[self]++;
  const int r = REAL(pthread_create)(id, at, trampoline, (void*)(long)t);
  if (r) return r;
  n.id = *id;
  n.st = runnable;
  nth++;
  threads_made++;
  point();
  return 0;
}
int pthread_join(pthread_t id, void** r) {
  const int t = on() ? find(id) : -1;
  if (t < 0) return REAL(pthread_join)(id, r);
  point();
  while (th[t].st != finished) block(&th[t]);
  join(th[self].vc, th[t].vc);
  return REAL(pthread_join)(id, r);
}
int sched_yield() { if (on()) { point(true); return 0; } return (int)raw(SYS_sched_yield, 0, 0, 0); }
int nanosleep(const timespec* a, timespec* b) { if (on()) { point(true); return 0; } const long r = raw(SYS_nanosleep, (long)a, (long)b, 0); if (r < 0) { errno = -r; return -1; } return 0; }
int clock_nanosleep(clockid_t c, int fl, const timespec* a, timespec* b) { if (on()) { point(true); return 0; } return (int)-raw(SYS_clock_nanosleep, c, fl, (long)a, (long)b); }
int usleep(useconds_t u) { timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }

// ---- locks
int pthread_mutex_lock(pthread_mutex_t* m) { return on() ? lock(m, true) : REAL(pthread_mutex_lock)(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return on() ? lock(m, false) : REAL(pthread_mutex_trylock)(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return on() ? unlock(m) : REAL(pthread_mutex_unlock)(m); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return on() ? cond_wait(c, m, false) : REAL(pthread_cond_wait)(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return on() ? cond_wait(c, m, true) : REAL(pthread_cond_timedwait)(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { return on() ? cond_wait(c, m, true) : REAL(pthread_cond_clockwait)(c, m, k, t); }
int pthread_cond_signal(pthread_cond_t* c) { if (!on()) return REAL(pthread_cond_signal)(c); point(); release(c); wake(c, 1); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!on()) return REAL(pthread_cond_broadcast)(c); point(); release(c); wake(c, M); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* p) {
  if (!on()) return REAL(pthread_rwlock_rdlock)(p);
  point();
  while (mutex_of(p).owner >= 0) block(p);
  mutex_of(p).readers++;
  acquire(p);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* p) {
  if (!on()) return REAL(pthread_rwlock_wrlock)(p);
  point();
  while (mutex_of(p).owner >= 0 || mutex_of(p).readers) block(p);
  mutex_of(p).owner = self;
  acquire(p);
  acquire((char*)p + 1);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* p) {
  if (!on()) return REAL(pthread_rwlock_unlock)(p);
  Mutex& m = mutex_of(p);
  if (m.owner == self) { m.owner = -1; release(p); }
  else { m.readers--; release((char*)p + 1); }
  wake(p, M);
  point();
  return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  if (!on()) return REAL(pthread_once)(o, f);
  // 0: not run, 2: done (as glibc marks it); 1 in the table: running
  point();
  while (true) {
    if (*o == 2) { acquire(o); return 0; }
    Mutex& m = mutex_of(o);
    if (m.owner < 0) {
      m.owner = self;
      struct Undo { Mutex& m; pthread_once_t* o; bool done = false; ~Undo() { mutex_of(o).owner = -1; if (done) { *o = 2; release(o); } wake(o, M); } } u{m, o};
      f();
      u.done = true;
      return 0;
    }
    block(o);
  }
}
int sem_wait(sem_t* s) {
  if (!on()) return REAL(sem_wait)(s);
  point();
  while (REAL(sem_trywait)(s)) block(s);
  acquire(s);
  return 0;
}
int sem_post(sem_t* s) {
  if (!on()) return REAL(sem_post)(s);
  point();
  release(s);
  const int r = REAL(sem_post)(s);
  wake(s, 1);
  return r;
}
// futexes, as the C++ library uses them
long syscall(long n, ...) {
  va_list v;
  va_start(v, n);
  long a[6];
  for (auto& x : a) x = va_arg(v, long);
  va_end(v);
  if (on() && n == SYS_futex) {
    const int op = (int)a[1] & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      point();
      if (*(volatile u32*)a[0] != (u32)a[2]) { errno = EAGAIN; return -1; }
      block((void*)a[0], a[3] != 0);
      acquire((void*)a[0]);
      if (th[self].timed_out) { th[self].timed_out = false; errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      release((void*)a[0]);
      const int k = wake((void*)a[0], a[2] > M ? M : (int)a[2]);
      point();
      return k;
    }
  }
  const long r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
// ---- local statics
int __cxa_guard_acquire(uint64_t* g) {
  volatile uint8_t* b = (volatile uint8_t*)g;
  if (!on()) { if (b[0]) return 0; b[1] = 1; return 1; }
  point();
  while (true) {
    if (b[0]) { acquire(g); return 0; }
    if (!b[1]) { b[1] = 1; return 1; }
    block(g);
  }
}
void __cxa_guard_release(uint64_t* g) {
  volatile uint8_t* b = (volatile uint8_t*)g;
  b[0] = 1; b[1] = 0;
  if (on()) { release(g); wake(g, M); }
}
void __cxa_guard_abort(uint64_t* g) {
  ((volatile uint8_t*)g)[1] = 0;
  if (on()) { release(g); wake(g, M); }
}
}  // extern "C"

// ---- memory
namespace {
void* get(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  forget(p, n);
  return p;
}
void put(void* p, const void* pc) {
  if (!p) return;
  if (on()) { const size_t n = malloc_usable_size(p); touch(p, n, W, pc); forget(p, n); }
  free(p);
}
}  // namespace
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete(void* p) noexcept { put(p, __builtin_return_address(0)); }
void operator delete[](void* p) noexcept { put(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t) noexcept { put(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t) noexcept { put(p, __builtin_return_address(0)); }
