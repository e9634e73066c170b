#include "mt_rt.h"
#include "disk.h"
#include <algorithm>
#include <cxxabi.h>
#include <cerrno>
#include <clocale>
#include <cstdarg>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim {
// ------------------------------------------------------------------ shadow memory
struct Byte { uint8_t wt, freed; uint16_t pad; uint32_t w; uint32_t r[MAXT]; };
struct Cell { u64 key; void* wpc; void* rpc[MAXT]; uint8_t acc, wrt; uint32_t n; Byte b[8]; };
static Cell* tab;
static size_t cap, used;
static size_t slot(u64 key) { size_t i = mix64(key) & (cap - 1); while (tab[i].key && tab[i].key != key) i = (i + 1) & (cap - 1); return i; }
static void tabInit(size_t n) {
  tab = (Cell*)mmap(nullptr, n * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (tab == MAP_FAILED) harness("no memory for the shadow table");
  cap = n; used = 0;
}
static Cell* cellOf(u64 g, bool make) {
  size_t i = slot(g + 1);
  if (tab[i].key) return &tab[i];
  if (!make) return nullptr;
  if (used * 2 > cap) {
    Cell* old = tab; size_t oc = cap;
    tabInit(oc * 2);
    for (size_t k = 0; k < oc; ++k) if (old[k].key) { tab[slot(old[k].key)] = old[k]; ++used; }
    munmap(old, oc * sizeof(Cell));
    i = slot(g + 1);
  }
  tab[i].key = g + 1;
  ++used;
  return &tab[i];
}

// ------------------------------------------------------------------ threads
struct VC { uint32_t c[MAXT]; void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
enum { RUNNABLE, BLOCKED, DONE };
struct Th { int go; int st; const void* on; VC vc; AllocSeam as; std::function<void()> fn; pthread_t h; };
struct Mutex { int owner = -1; int depth = 0; int readers[MAXT] = {0}; VC rel = {{0}}, relR = {{0}}; };
static struct {
  bool on = false;
  int n = 0, cur = -1;
  Th t[MAXT];
  MtPlan p;
  std::vector<Switch> sw[PT_N];
  size_t next[PT_N];
  long cnt[PT_N];
  long switches;
  Rng rng;
  int allDone;
  std::set<u64> conf;
  std::map<const void*, VC> sync;
  std::map<const void*, Mutex> mtx;
  std::map<const void*, int> guard;      // initialisation in progress: owner + 1
} S;
static thread_local int self = -1;
int mtSelf() { return self; }

static void fwait(int* a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(a, 0, __ATOMIC_RELAXED); }
static void fwake(int* a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void park(int me) { fwait(&S.t[me].go); as = S.t[me].as; }
static void runThread(int to) {
  S.cur = to;
  ++S.switches;
  trace(mix64((u64)to * 1000003 + (u64)S.cnt[PT_ANY]) ^ (u64)S.cnt[PT_SYNC]);
  ++sh->events;
  fwake(&S.t[to].go);
}
static void switchTo(int to) {
  int me = self;
  if (to == me) return;
  S.t[me].as = as;
  runThread(to);
  park(me);
}
static int pick(int after) {
  for (int k = 1; k <= S.n; ++k) { int t = (after + k) % S.n; if (S.t[t].st == RUNNABLE) return t; }
  return -1;
}
static bool act() { return S.on && self >= 0; }
// a point where another thread may continue
static void point(int kind, bool conflict = false) {
  long n = S.cnt[PT_ANY]++;
  if (n > 60000000) fail("hang", "the threads do not come to an end");
  int to = -1;
  auto planned = [&](int k, long c) {
    auto& v = S.sw[k]; size_t& i = S.next[k];
    while (i < v.size() && v[i].at < c) ++i;
    if (i < v.size() && v[i].at == c) { to = v[i].to % S.n; ++i; }
  };
  planned(PT_ANY, n);
  if (conflict) planned(PT_CONFLICT, S.cnt[PT_CONFLICT]++);
  if (kind == PT_SYNC) planned(PT_SYNC, S.cnt[PT_SYNC]++);
  if (kind == PT_IO) planned(PT_IO, S.cnt[PT_IO]++);
  if (to < 0 && S.p.per > 0 && (!S.p.perConflict || conflict || kind != PT_ANY) && S.rng.below(S.p.per) == 0) to = (int)S.rng.below(S.n);
  if (to >= 0 && to != self && S.t[to].st == RUNNABLE) switchTo(to);
}
static void block(const void* on) {
  S.t[self].st = BLOCKED;
  S.t[self].on = on;
  int to = pick(self);
  if (to < 0) fail("deadlock", "every thread waits for another one");
  switchTo(to);
}
static void wakeAll(const void* on) { for (int i = 0; i < S.n; ++i) if (S.t[i].st == BLOCKED && S.t[i].on == on) S.t[i].st = RUNNABLE; }
static VC& myVC() { return S.t[self].vc; }
static void tick() { ++S.t[self].vc.c[self]; }
static void acquire(const void* a) { auto it = S.sync.find(a); if (it != S.sync.end()) myVC().join(it->second); }
static void releaseJoin(const void* a) { S.sync[a].join(myVC()); tick(); }
static void releaseStore(const void* a) { S.sync[a] = myVC(); tick(); }

static std::string where(void* pc) {
  Dl_info d;
  if (!pc || !dladdr(pc, &d) || !d.dli_sname) return "an internal function";
  int st = 0;
  char* n = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
  std::string s = n ? n : d.dli_sname;
  size_t p;
  static const std::string ss = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >";
  while ((p = s.find(ss)) != std::string::npos) s.replace(p, ss.size(), "std::string");
  return s.substr(0, 200);
}
static void race(Cell* c, int other, bool otherWrites, void* opc, bool write, void* pc, const void* a) {
  fail("race", fmt("thread %d %s and thread %d %s the same memory without any order between them: %s / %s", self, write ? "changes" : "reads", other, otherWrites ? "changes" : "reads", where(pc).c_str(), where(opc).c_str()));
}
static void access(const void* a, size_t n, bool write, void* pc) {
  if (!act() || !n) return;
  u64 x = (u64)a, e = x + n;
  bool conflict = false;
  if (!S.conf.empty()) for (u64 g = x >> 3; g <= (e - 1) >> 3 && !conflict; ++g) conflict = S.conf.count(g) > 0;
  point(PT_ANY, conflict);
  VC& vc = myVC();
  uint32_t now = vc.c[self];
  for (u64 g = x >> 3; g <= (e - 1) >> 3; ++g) {
    Cell* c = cellOf(g, true);
    int lo = g == x >> 3 ? (int)(x & 7) : 0, hi = g == (e - 1) >> 3 ? (int)((e - 1) & 7) : 7;
    for (int k = lo; k <= hi; ++k) {
      Byte& b = c->b[k];
      if (b.freed) fail("use-after-free", fmt("thread %d %s memory that was given back: %s", self, write ? "changes" : "reads", where(pc).c_str()));
      if (b.w && b.wt != self && b.w > vc.c[b.wt]) race(c, b.wt, true, c->wpc, write, pc, a);
      if (write) {
        for (int u = 0; u < S.n; ++u) if (u != self && b.r[u] > vc.c[u]) race(c, u, false, c->rpc[u], write, pc, a);
        b.w = now; b.wt = self;
      } else b.r[self] = now;
    }
    c->acc |= 1 << self;
    ++c->n;
    if (write) { c->wrt |= 1 << self; c->wpc = pc; } else c->rpc[self] = pc;
  }
}
// memory that is handed out has no history; memory given back may not be used
void mtNew(void* p, size_t n) {
  if (!act()) return;
  u64 x = (u64)p, e = x + (n ? n : 1);
  for (u64 g = x >> 3; g <= (e - 1) >> 3; ++g) if (Cell* c = cellOf(g, false)) { u64 k = c->key; uint8_t acc = 0; memset(c, 0, sizeof *c); c->key = k; c->acc = acc; }
}
void mtDelete(void* p) {
  if (!act() || !p) return;
  size_t n = malloc_usable_size(p);
  u64 x = (u64)p, e = x + n;
  for (u64 g = x >> 3; g <= (e - 1) >> 3; ++g) if (Cell* c = cellOf(g, false)) {
    VC& vc = myVC();
    // giving back what another thread still uses is a race as well
    for (int k = 0; k < 8; ++k) {
      Byte& b = c->b[k];
      if (b.w && b.wt != self && b.w > vc.c[b.wt]) race(c, b.wt, true, c->wpc, true, __builtin_return_address(0), p);
      for (int u = 0; u < S.n; ++u) if (u != self && b.r[u] > vc.c[u]) race(c, u, false, c->rpc[u], true, __builtin_return_address(0), p);
      b.freed = 1;
    }
  }
  memset(p, 0xEF, n);
}
void ioYield(const char*, bool) { if (act()) point(PT_IO); }

static void* threadMain(void* arg) {
  self = (int)(long)arg;
  park(self);
  S.t[self].fn();
  S.t[self].st = DONE;
  int to = pick(self);
  if (to >= 0) runThread(to);
  else {
    for (int i = 0; i < S.n; ++i) if (S.t[i].st == BLOCKED) fail("deadlock", "the remaining threads wait for one that has ended");
    fwake(&S.allDone);
  }
  int never = 0;
  for (;;) fwait(&never);
  return nullptr;
}
MtResult mtRun(const std::vector<std::function<void()>>& fn, const MtPlan& p) {
  S.n = (int)fn.size();
  if (S.n > MAXT || !S.n) harness("too many threads");
  S.p = p;
  tabInit(1 << 14);
  for (int k = 0; k < PT_N; ++k) { S.sw[k].clear(); S.next[k] = 0; S.cnt[k] = 0; }
  for (auto& w : p.sw) S.sw[w.kind].push_back(w);
  for (auto& v : S.sw) std::stable_sort(v.begin(), v.end(), [](const Switch& a, const Switch& b) { return a.at < b.at; });
  S.rng = Rng(p.rseed);
  S.switches = 0;
  S.allDone = 0;
  S.conf.clear();
  if (p.conflict) S.conf.insert(p.conflict->begin(), p.conflict->end());
  AllocSeam keep = as;
  for (int i = 0; i < S.n; ++i) {
    Th& t = S.t[i];
    t.go = 0; t.st = RUNNABLE; t.on = nullptr; t.fn = fn[i]; t.as = keep;
    memset(&t.vc, 0, sizeof t.vc);
    t.vc.c[i] = 1;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    if (pthread_create(&t.h, &at, threadMain, (void*)(long)i)) harness("pthread_create failed");
    pthread_attr_destroy(&at);
  }
  S.on = true;
  runThread(p.first % S.n);
  fwait(&S.allDone);
  S.on = false;
  as = keep;
  MtResult r;
  for (int k = 0; k < PT_N; ++k) r.points[k] = S.cnt[k];
  r.switches = S.switches;
  for (size_t k = 0; k < cap; ++k) if (tab[k].key && tab[k].wrt && (tab[k].acc & (tab[k].acc - 1))) { r.conflict.push_back(tab[k].key - 1); if (!p.conflict) r.points[PT_CONFLICT] += tab[k].n; }
  std::sort(r.conflict.begin(), r.conflict.end());
  return r;
}

// ------------------------------------------------------------------ locks
static bool lockMutex(const void* m, bool recursive, bool tryOnly) {
  point(PT_SYNC);
  for (;;) {
    Mutex& x = S.mtx[m];
    bool readers = false;
    for (int i = 0; i < S.n; ++i) if (x.readers[i]) readers = true;
    if (x.owner < 0 && !readers) { x.owner = self; x.depth = 1; myVC().join(x.rel); myVC().join(x.relR); return true; }
    if (x.owner == self && recursive) { ++x.depth; return true; }
    if (tryOnly) return false;
    if (x.owner == self) fail("deadlock", "a thread waits for a lock it holds itself");
    cnt("sync.waited");
    block(m);
  }
}
static bool lockShared(const void* m, bool tryOnly) {
  point(PT_SYNC);
  for (;;) {
    Mutex& x = S.mtx[m];
    if (x.owner < 0) { ++x.readers[self]; myVC().join(x.rel); return true; }
    if (tryOnly) return false;
    if (x.owner == self) fail("deadlock", "a thread waits for a lock it holds itself");
    cnt("sync.waited");
    block(m);
  }
}
static void unlockAny(const void* m) {
  Mutex& x = S.mtx[m];
  if (x.owner == self) { if (--x.depth) return; x.owner = -1; x.rel = myVC(); tick(); }
  else if (x.readers[self]) { --x.readers[self]; x.relR.join(myVC()); tick(); }
  else fail("bad-unlock", "a thread gives back a lock it does not hold");
  wakeAll(m);
  point(PT_SYNC);
}
}  // namespace sim
using namespace sim;

extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!act()) return pthread_mutex_lock(m); Unarm u; lockMutex(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE, false); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (!act()) return pthread_mutex_trylock(m); Unarm u; return lockMutex(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE, true) ? 0 : EBUSY; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!act()) return pthread_mutex_unlock(m); Unarm u; unlockAny(m); return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!act()) return pthread_rwlock_wrlock(m); Unarm u; lockMutex(m, false, false); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!act()) return pthread_rwlock_rdlock(m); Unarm u; lockShared(m, false); return 0; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!act()) return pthread_rwlock_trywrlock(m); Unarm u; return lockMutex(m, false, true) ? 0 : EBUSY; }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!act()) return pthread_rwlock_tryrdlock(m); Unarm u; return lockShared(m, true) ? 0 : EBUSY; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!act()) return pthread_rwlock_unlock(m); Unarm u; unlockAny(m); return 0; }
// initialisation of function-local statics; byte 0 of the guard says it is done
int __wrap___cxa_guard_acquire(u64* g) {
  if (!act()) return abi::__cxa_guard_acquire((abi::__guard*)g);
  Unarm u;
  point(PT_SYNC);
  for (;;) {
    if (*(char*)g) { acquire(g); return 0; }
    int& o = S.guard[g];
    if (!o) { o = self + 1; acquire(g); cnt("sync.first-use"); return 1; }
    if (o == self + 1) fail("recursive-init", "the initialisation of a static variable needs that variable");
    cnt("sync.waited");
    block(g);
  }
}
void __wrap___cxa_guard_release(u64* g) {
  if (!act()) return abi::__cxa_guard_release((abi::__guard*)g);
  Unarm u;
  S.guard.erase(g); *(char*)g = 1; releaseStore(g); wakeAll(g); point(PT_SYNC);
}
void __wrap___cxa_guard_abort(u64* g) {
  if (!act()) return abi::__cxa_guard_abort((abi::__guard*)g);
  Unarm u;
  S.guard.erase(g); wakeAll(g); point(PT_SYNC);
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  if (!act()) return pthread_once(o, f);
  {
    Unarm u;
    point(PT_SYNC);
    for (;;) {
      if (*o == 2) { acquire(o); return 0; }
      int& w = S.guard[o];
      if (!w) { w = self + 1; acquire(o); break; }
      cnt("sync.waited");
      block(o);
    }
  }
  try { f(); } catch (...) { Unarm u; S.guard.erase(o); wakeAll(o); throw; }
  Unarm u;
  S.guard.erase(o); *o = 2; releaseStore(o); wakeAll(o); point(PT_SYNC);
  return 0;
}

// ------------------------------------------------------------------ instrumentation of the code under test
#define PC __builtin_return_address(0)
#define ACC(a, n, w) do { if (act()) { Unarm u; access(a, n, w, PC); } } while (0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* a) { ACC(a, n, false); } void __tsan_write##n(void* a) { ACC(a, n, true); } \
  void __tsan_unaligned_read##n(void* a) { ACC(a, n, false); } void __tsan_unaligned_write##n(void* a) { ACC(a, n, true); } \
  void __tsan_read_write##n(void* a) { ACC(a, n, true); } void __tsan_unaligned_read_write##n(void* a) { ACC(a, n, true); } \
  void __tsan_volatile_read##n(void* a) { ACC(a, n, false); } void __tsan_volatile_write##n(void* a) { ACC(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { ACC(a, n, false); }
void __tsan_write_range(void* a, size_t n) { ACC(a, n, true); }
void __tsan_vptr_read(void** a) { ACC(a, 8, false); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) ACC(a, 8, true); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { ACC(s, n, false); ACC(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { ACC(s, n, false); ACC(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { ACC(d, n, true); return memset(d, c, n); }

static void pre(const void* a, bool rd) { point(PT_SYNC); (void)a; (void)rd; }
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void rmw(const void* a, int mo) { if (acq(mo)) acquire(a); if (rel(mo)) releaseJoin(a); }
#define ATOM(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { if (!act()) return __atomic_load_n(a, __ATOMIC_SEQ_CST); Unarm u; pre((void*)a, true); T v = *a; if (acq(mo)) acquire((void*)a); return v; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { if (!act()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; } Unarm u; pre((void*)a, false); if (rel(mo)) releaseStore((void*)a); else S.sync.erase((void*)a); *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { if (!act()) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); Unarm u; pre((void*)a, false); rmw((void*)a, mo); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { if (!act()) return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); Unarm u; pre((void*)a, false); rmw((void*)a, mo); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { if (!act()) return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); Unarm u; pre((void*)a, false); rmw((void*)a, mo); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { if (!act()) return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); Unarm u; pre((void*)a, false); rmw((void*)a, mo); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { if (!act()) return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); Unarm u; pre((void*)a, false); rmw((void*)a, mo); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { if (!act()) return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); Unarm u; pre((void*)a, false); rmw((void*)a, mo); T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { if (!act()) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); Unarm u; pre((void*)a, false); if (*a == *e) { rmw((void*)a, mo); *a = v; return 1; } if (acq(fmo)) acquire((void*)a); *e = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
static char fenceObj;
void __tsan_atomic_thread_fence(int mo) { if (!act()) return; Unarm u; point(PT_SYNC); acquire(&fenceObj); releaseJoin(&fenceObj); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ library functions that are not instrumented
size_t __wrap_strlen(const char* s) { size_t n = strlen(s); ACC(s, n + 1, false); return n; }
int __wrap_memcmp(const void* a, const void* b, size_t n) { ACC(a, n, false); ACC(b, n, false); return memcmp(a, b, n); }
int __wrap_strcmp(const char* a, const char* b) { ACC(a, strlen(a) + 1, false); ACC(b, strlen(b) + 1, false); return strcmp(a, b); }
char* __wrap_strcpy(char* d, const char* s) { size_t n = strlen(s) + 1; ACC(s, n, false); ACC(d, n, true); return strcpy(d, s); }
char* __wrap_strncpy(char* d, const char* s, size_t n) { ACC(s, strnlen(s, n), false); ACC(d, n, true); return strncpy(d, s, n); }

char* __wrap_strcat(char* d, const char* s) { size_t n = strlen(s) + 1; ACC(s, n, false); ACC(d, strlen(d) + n, true); return strcat(d, s); }
char* __wrap_strncat(char* d, const char* s, size_t n) { n = strnlen(s, n); ACC(s, n, false); ACC(d, strlen(d) + n + 1, true); return strncat(d, s, n); }
int __wrap_strncmp(const char* a, const char* b, size_t n) { ACC(a, strnlen(a, n), false); ACC(b, strnlen(b, n), false); return strncmp(a, b, n); }
const char* __wrap_strchr(const char* s, int c) { ACC(s, strlen(s) + 1, false); return strchr((char*)s, c); }
const char* __wrap_strstr(const char* s, const char* t) { ACC(s, strlen(s) + 1, false); ACC(t, strlen(t) + 1, false); return strstr((char*)s, t); }
// hidden state of the C library: the locale, the text strtok is in
static u64 localeState, strtokState;
int __wrap_sprintf(char* d, const char* f, ...) { ACC(&localeState, 8, false); va_list v; va_start(v, f); int n = vsprintf(d, f, v); va_end(v); ACC(d, n + 1, true); return n; }
int __wrap_snprintf(char* d, size_t z, const char* f, ...) { ACC(&localeState, 8, false); va_list v; va_start(v, f); int n = vsnprintf(d, z, f, v); va_end(v); if (d && z) ACC(d, std::min<size_t>(n + 1, z), true); return n; }
int __wrap_vsprintf(char* d, const char* f, va_list v) { ACC(&localeState, 8, false); int n = vsprintf(d, f, v); ACC(d, n + 1, true); return n; }
int __wrap_vsnprintf(char* d, size_t z, const char* f, va_list v) { ACC(&localeState, 8, false); int n = vsnprintf(d, z, f, v); if (d && z) ACC(d, std::min<size_t>(n + 1, z), true); return n; }
int __wrap_sscanf(const char* s, const char* f, ...) { ACC(&localeState, 8, false); ACC(s, strlen(s) + 1, false); va_list v; va_start(v, f); int n = vsscanf(s, f, v); va_end(v); return n; }
int __wrap___isoc99_sscanf(const char* s, const char* f, ...) { ACC(&localeState, 8, false); ACC(s, strlen(s) + 1, false); va_list v; va_start(v, f); int n = vsscanf(s, f, v); va_end(v); return n; }
int __wrap___isoc23_sscanf(const char* s, const char* f, ...) { ACC(&localeState, 8, false); ACC(s, strlen(s) + 1, false); va_list v; va_start(v, f); int n = vsscanf(s, f, v); va_end(v); return n; }
long __wrap___isoc23_strtol(const char* s, char** e, int b) { ACC(s, strlen(s) + 1, false); return strtol(s, e, b); }
int __wrap_atoi(const char* s) { ACC(s, strlen(s) + 1, false); return atoi(s); }
double __wrap_atof(const char* s) { ACC(&localeState, 8, false); ACC(s, strlen(s) + 1, false); return atof(s); }
double __wrap_strtod(const char* s, char** e) { ACC(&localeState, 8, false); ACC(s, strlen(s) + 1, false); return strtod(s, e); }
long __wrap_strtol(const char* s, char** e, int b) { ACC(s, strlen(s) + 1, false); return strtol(s, e, b); }
char* __wrap_setlocale(int c, const char* l) { ACC(&localeState, 8, l != nullptr); return setlocale(c, l); }
char* __wrap_strtok(char* s, const char* d) { if (s) ACC(s, strlen(s) + 1, true); ACC(&strtokState, 8, true); return strtok(s, d); }
// streams; those of the process may be used by all threads at once
void simBuf(const std::ios* s, int write, void* pc) { if (s == &std::cout || s == &std::cerr || s == &std::clog || s == &std::cin) return; if (act()) { Unarm u; access(s->rdbuf() ? (const void*)s->rdbuf() : (const void*)s, 8, write, pc); } }
void simOut(void* s, int write, void* pc) { simBuf((std::ostream*)s, write, pc); }
void simIn(void* s, int write, void* pc) { simBuf((std::istream*)s, write, pc); }
void simIos(void* s, int write, void* pc) { simBuf((std::ios*)s, write, pc); }
void simSStr(void* s, int kind, int write, void* pc) { if (!act()) return; Unarm u; access(kind == 0 ? (const void*)((std::stringstream*)s)->rdbuf() : kind == 1 ? (const void*)((std::ostringstream*)s)->rdbuf() : (const void*)((std::istringstream*)s)->rdbuf(), 8, write, pc); }

// memory that does not come from operator new
void* __wrap___cxa_allocate_exception(size_t n) { void* p = abi::__cxa_allocate_exception(n); Unarm u; mtNew(p, n); return p; }
void* __wrap_malloc(size_t n) { void* p = malloc(n); Unarm u; if (p) mtNew(p, n); return p; }
void* __wrap_calloc(size_t k, size_t n) { void* p = calloc(k, n); Unarm u; if (p) mtNew(p, k * n); return p; }
void* __wrap_realloc(void* q, size_t n) { { Unarm u; if (act() && q) { access(q, malloc_usable_size(q), true, PC); } } void* p = realloc(q, n); Unarm u; if (p) mtNew(p, n); return p; }
void __wrap_free(void* p) { { Unarm u; if (act() && p) { access(p, malloc_usable_size(p), true, PC); } } free(p); }
char* __wrap_strdup(const char* s) { size_t n = strlen(s) + 1; ACC(s, n, false); char* p = strdup(s); Unarm u; if (p) mtNew(p, n); return p; }

// used by the wrappers in mt_wrap.cc
void simRead(const void* a, size_t n, void* pc) { if (act()) { Unarm u; access(a, n, false, pc); } }
void simWrite(const void* a, size_t n, void* pc) { if (act()) { Unarm u; access(a, n, true, pc); } }
void simStr(const void* s, int write, void* pc) { if (!act()) return; Unarm u; access(s, 16, write, pc); const std::string* x = (const std::string*)s; access(x->data(), x->size() + 1, write, pc); }
}
