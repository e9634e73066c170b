// Core of the GEAR simulator: seeds, plans, results, process control.
//
// One run = one Plan (explicit, printable, replayable) executed by a process that
// is forked for it alone.  Everything the run does is a pure function of the plan
// and of the code under test.
#ifndef GEARSIM_CORE_H
#define GEARSIM_CORE_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64;
typedef int64_t i64;

inline u64 mix64(u64 x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline u64 hashBytes(const void* p, size_t n, u64 h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(mix64(seed ^ 0xA5A5F00Dull)) {}
  u64 next() { s += 0x9E3779B97F4A7C15ull; u64 x = s;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }
  bool chance(int percent) { return (int)below(100) < percent; }
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  Rng fork(u64 salt) { return Rng(mix64(next() ^ mix64(salt))); }
};

// ---------------------------------------------------------------- plans
struct Item {
  std::string kind;
  std::vector<std::pair<std::string, i64>> a;
  Item() {}
  explicit Item(const std::string& k) : kind(k) {}
  i64 get(const char* k, i64 d = 0) const { for (auto& p : a) if (p.first == k) return p.second; return d; }
  Item& set(const char* k, i64 v) { for (auto& p : a) if (p.first == k) { p.second = v; return *this; } a.emplace_back(k, v); return *this; }
};
struct Plan {
  std::string prop;
  u64 seed = 0;
  std::vector<Item> items;
  Item& add(const std::string& k) { items.emplace_back(k); return items.back(); }
  std::string text() const;
  static bool parse(const std::string& t, Plan& out);
  const Item* find(const char* kind, i64 id = -1) const {
    for (auto& i : items) if (i.kind == kind && (id < 0 || i.get("id") == id)) return &i; return nullptr; }
};

// ---------------------------------------------------------------- shared memory of one run
enum { MAXCNT = 160, MAXFILES = 56, MAXFILE = 768 * 1024, MAXEV = 4096, BUFSZ = 6 << 20, NBUF = 3 };

struct CntSlot { char name[56]; u64 n; };

struct DiskEvent { uint8_t type; uint8_t file; uint16_t pad; uint32_t off, len; uint32_t dataOff; };
struct DiskFile { char path[112]; uint8_t exists; uint32_t size; unsigned char* data() ; };

struct Shared {
  volatile int violated;          // first violation wins
  char cls[96];
  char detail[3000];
  u64 trace;                      // hash of the event log of the run
  u64 events;                     // simulated events
  u64 state;                      // state fingerprint for distinctness
  int nontrivial;
  int harnessError;               // the harness itself could not proceed
  char herr[512];
  int ncnt;
  CntSlot cnt[MAXCNT];
  char note[1024];                // one line shown in samples
  // facts exchanged between phases
  u64 bufLen[NBUF];
  u64 num[64];                    // scratch numbers exchanged between phases
};
extern Shared* sh;
char* shBuf(int i);               // BUFSZ bytes each, shared

// event log / counters
void trace(u64 v);
void trace(const std::string& s);
void traceEv(const char* tag, u64 a = 0, u64 b = 0);
void cnt(const char* name, u64 n = 1);
u64 getCnt(const char* name);
void note(const std::string& s);
void state(u64 h);
extern bool g_verbose;

// A violation: recorded in shared memory, the process ends at once.
[[noreturn]] void fail(const std::string& cls, const std::string& detail);
// harness-internal error (never a verdict)
[[noreturn]] void harness(const std::string& what);

// run fn in a fresh process forked from the pristine run process. Returns its exit
// status: 0 ended normally, 77 simulated crash.  A crash by signal or a sanitizer
// report becomes a violation "crash:..." here.
int phase(const std::function<void()>& fn);
enum { SIM_CRASH = 77 };

typedef void (*RunFn)(const Plan&);
typedef Plan (*GenFn)(u64 seed, u64 idx, bool thorough);
struct Prop {
  const char* id;
  GenFn gen;
  RunFn run;
  int quickRuns, thoroughRuns;
  const char* rule;
  const char* real;     // components that run real code
  const char* stub;     // components replaced
};
const std::vector<Prop>& props();

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
}  // namespace sim
#endif
