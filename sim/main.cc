#include "core.h"
#include "alloc.h"
#include "disk.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <chrono>
#include <fcntl.h>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=99:detect_odr_violation=0:allocator_may_return_null=1:handle_abort=0:symbolize=0:print_stats=0:detect_stack_use_after_return=0:quarantine_size_mb=4:malloc_context_size=4:fast_unwind_on_malloc=1:thread_local_quarantine_size_kb=64";
}
#endif

namespace sim {
Shared* sh = nullptr;
static char* bufs[NBUF];
bool g_verbose = false;
static int g_alarm = 20;

std::string fmt(const char* f, ...) {
  char b[2048];
  va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  return b;
}
char* shBuf(int i) { return bufs[i]; }

// ------------------------------------------------------------------ plan text
std::string Plan::text() const {
  std::string s = "plan prop=" + prop + " seed=" + std::to_string(seed) + "\n";
  for (auto& i : items) {
    s += i.kind;
    for (auto& p : i.a) s += " " + p.first + "=" + std::to_string(p.second);
    s += "\n";
  }
  return s;
}
bool Plan::parse(const std::string& t, Plan& out) {
  std::istringstream in(t);
  std::string line;
  bool head = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string w;
    l >> w;
    if (!head) {
      if (w != "plan") return false;
      while (l >> w) {
        if (!w.compare(0, 5, "prop=")) out.prop = w.substr(5);
        if (!w.compare(0, 5, "seed=")) out.seed = strtoull(w.c_str() + 5, 0, 10);
      }
      head = true;
      continue;
    }
    Item it(w);
    while (l >> w) {
      size_t e = w.find('=');
      if (e == std::string::npos) return false;
      it.set(w.substr(0, e).c_str(), strtoll(w.c_str() + e + 1, 0, 10));
    }
    out.items.push_back(it);
  }
  return head;
}

// ------------------------------------------------------------------ event log, counters
void trace(u64 v) { sh->trace = mix64(sh->trace ^ v); }
void trace(const std::string& s) { trace(hashBytes(s.data(), s.size())); if (g_verbose) fprintf(stderr, "  | %s\n", s.c_str()); }
void traceEv(const char* tag, u64 a, u64 b) {
  trace(hashBytes(tag, strlen(tag)) ^ mix64(a) ^ mix64(b + 77));
  ++sh->events;
  if (g_verbose) fprintf(stderr, "  . %s %llx %llx\n", tag, (unsigned long long)a, (unsigned long long)b);
}
void cnt(const char* name, u64 n) {
  for (int i = 0; i < sh->ncnt; ++i) if (!strcmp(sh->cnt[i].name, name)) { sh->cnt[i].n += n; return; }
  if (sh->ncnt == MAXCNT) return;
  strncpy(sh->cnt[sh->ncnt].name, name, sizeof(sh->cnt[0].name) - 1);
  sh->cnt[sh->ncnt++].n = n;
}
u64 getCnt(const char* name) { for (int i = 0; i < sh->ncnt; ++i) if (!strcmp(sh->cnt[i].name, name)) return sh->cnt[i].n; return 0; }
void note(const std::string& s) { strncpy(sh->note, s.c_str(), sizeof(sh->note) - 1); }
void state(u64 h) { sh->state = mix64(sh->state ^ h); }

static void setViolation(const char* cls, const char* detail) {
  if (sh->violated) return;
  // one line of plain ASCII, whatever bytes the values had
  auto put = [](char* to, size_t n, const char* s) {
    size_t k = 0;
    for (; *s && k + 1 < n; ++s) {
      unsigned char c = (unsigned char)*s;
      if (c >= 32 && c < 127) to[k++] = (char)c;
      else { static const char hex[] = "0123456789abcdef"; if (k + 5 > n) break; to[k++] = '\\'; to[k++] = 'x'; to[k++] = hex[c >> 4]; to[k++] = hex[c & 15]; }
    }
    to[k] = 0;
  };
  put(sh->cls, sizeof(sh->cls), cls);
  put(sh->detail, sizeof(sh->detail), detail);
  sh->violated = 1;
}
void fail(const std::string& cls, const std::string& detail) {
  as.armed = 0;
  setViolation(cls.c_str(), detail.c_str());
  trace(hashBytes(cls.data(), cls.size()));
  if (g_verbose) fprintf(stderr, "  ! %s: %s\n", cls.c_str(), detail.c_str());
  _exit(10);
}
void harness(const std::string& w) {
  as.armed = 0;
  if (!sh->harnessError) { strncpy(sh->herr, w.c_str(), sizeof(sh->herr) - 1); sh->harnessError = 1; }
  _exit(11);
}

static void onTerminate() {
  as.armed = 0;
  std::string what = "std::terminate called";
  try { if (std::exception_ptr e = std::current_exception()) std::rethrow_exception(e); }
  catch (std::exception& e) { what = std::string("uncaught exception: ") + e.what(); }
  catch (...) { what = "uncaught exception of unknown type"; }
  setViolation("crash:terminate", what.c_str());
  _exit(10);
}
#ifdef SIM_ASAN
static void onAsan(const char* report) {
  as.armed = 0;
  std::string r = report;
  std::string kind = __asan_get_report_description() ? __asan_get_report_description() : "error";
  setViolation(("crash:asan:" + kind).c_str(), r.substr(0, 1500).c_str());
}
#endif
static void onSignal(int s) {
  as.armed = 0;
  char b[64];
  snprintf(b, sizeof b, "crash:signal:%d", s);
  if (s == SIGALRM || s == SIGPROF) setViolation("hang", "the operation does not come back");
  else setViolation(b, s == SIGABRT ? "abort (assertion of the code under test or terminate)" : "fatal signal");
  _exit(10);
}
static void childSetup() {
  std::set_terminate(onTerminate);
  signal(SIGABRT, onSignal);
  signal(SIGALRM, onSignal);
#ifdef SIM_ASAN
  __asan_set_error_report_callback(onAsan);
#else
  signal(SIGSEGV, onSignal); signal(SIGBUS, onSignal); signal(SIGFPE, onSignal); signal(SIGILL, onSignal);
#endif
  // a run that does not come back: judged by processor time, so that a busy machine
  // does not matter; the generous wall clock limit is for runs that wait for ever
  struct itimerval tv = {{0, 0}, {g_alarm, 0}};
  signal(SIGPROF, onSignal);
  setitimer(ITIMER_PROF, &tv, nullptr);
  alarm(g_alarm * 8);
}

static int waitChild(pid_t p) {
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    if (s == SIGALRM || s == SIGPROF) setViolation("hang", "the operation does not come back");
    else if (s == SIGKILL) { if (!sh->harnessError) { sh->harnessError = 1; strcpy(sh->herr, "child was killed (out of memory?)"); } }
    else { char b[64]; snprintf(b, sizeof b, "crash:signal:%d", s); setViolation(b, "fatal signal"); }
    return 10;
  }
  int rc = WEXITSTATUS(st);
  if (rc == 99) setViolation("crash:asan", "sanitizer report");
  else if (rc != 0 && rc != 10 && rc != 11 && rc != SIM_CRASH) { char b[64]; snprintf(b, sizeof b, "crash:exit:%d", rc); setViolation(b, "the process under test exited"); rc = 10; }
  return rc;
}
int phase(const std::function<void()>& fn) {
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) harness("fork failed");
  if (!p) {
    childSetup();
    fn();
    _exit(0);
  }
  int rc = waitChild(p);
  if (sh->harnessError) _exit(11);
  if (sh->violated) { trace(hashBytes(sh->cls, strlen(sh->cls))); _exit(10); }
  return rc;
}

// ------------------------------------------------------------------ one run
static void resetShared() {
  u64 keep = 0; (void)keep;
  memset(sh, 0, sizeof(Shared));
  dkReset();
}
struct Outcome { bool violated = false, herr = false, nontrivial = false; std::string cls, detail, note, herrText; u64 trace = 0, state = 0, events = 0; };
static const Prop* findProp(const std::string& id) { for (auto& p : props()) if (id == p.id) return &p; return nullptr; }

static Outcome runOnce(const Prop& pr, const Plan& plan) {
  resetShared();
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { Outcome o; o.herr = true; o.herrText = "fork failed"; return o; }
  if (!p) {
    childSetup();
    if (!g_verbose) { int fd = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); }
    pr.run(plan);
    _exit(0);
  }
  int rc = waitChild(p);
  if (rc == 11 && !sh->harnessError) { sh->harnessError = 1; strcpy(sh->herr, "harness error"); }
  Outcome o;
  o.violated = sh->violated; o.cls = sh->cls; o.detail = sh->detail; o.note = sh->note;
  o.herr = sh->harnessError; o.herrText = sh->herr;
  o.trace = sh->trace; o.state = sh->state; o.events = sh->events; o.nontrivial = sh->nontrivial;
  return o;
}

// ------------------------------------------------------------------ minimiser
static bool fixedKey(const std::string& k) { return k == "seed" || k == "id" || k == "sec"; }
static Plan minimise(const Prop& pr, Plan best, const std::string& cls, int budget, double secs, int& tried) {
  auto t0 = std::chrono::steady_clock::now();
  auto over = [&] { return tried >= budget || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs; };
  auto test = [&](const Plan& c) { ++tried; Outcome o = runOnce(pr, c); return o.violated && !o.herr && o.cls == cls; };
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    // drop chunks of items, then single ones
    for (size_t len = best.items.size() / 2; len >= 1 && !over(); len /= 2) {
      for (size_t i = 0; i + len <= best.items.size() && !over();) {
        Plan c = best;
        c.items.erase(c.items.begin() + i, c.items.begin() + i + len);
        if (test(c)) { best = c; progress = true; } else ++i;
      }
    }
    // shrink arguments
    for (size_t i = 0; i < best.items.size() && !over(); ++i)
      for (size_t k = 0; k < best.items[i].a.size() && !over(); ++k) {
        std::string key = best.items[i].a[k].first;
        if (fixedKey(key)) continue;
        if (key == "mask") {
          for (int b = 0; b < 40 && !over(); ++b) {
            i64 m = best.items[i].a[k].second;
            if (!(m >> b & 1)) continue;
            Plan c = best;
            c.items[i].a[k].second = m & ~(1ll << b);
            if (c.items[i].a[k].second && test(c)) { best = c; progress = true; }
          }
          continue;
        }
        for (int step = 0; step < 12 && !over(); ++step) {
          i64 v = best.items[i].a[k].second;
          if (v == 0) break;
          bool ok = false;
          for (i64 w : {(i64)0, v / 2, v - 1}) {
            if (w == v || (v > 0 && w < 0)) continue;
            Plan c = best;
            c.items[i].a[k].second = w;
            if (test(c)) { best = c; ok = progress = true; break; }
            if (over()) break;
          }
          if (!ok) break;
        }
      }
  }
  return best;
}

// ------------------------------------------------------------------ batch
struct RunRec { u64 trace, state; uint8_t done, nontrivial, violated, herr; };
struct Batch { std::atomic<long> next; std::atomic<long> firstViol; std::atomic<int> stop; };
static void mapShared() {
  size_t n = sizeof(Shared) + dkSharedSize() + (size_t)NBUF * BUFSZ + 65536;
  char* p = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  sh = (Shared*)p;
  size_t o = (sizeof(Shared) + 4095) & ~4095ul;
  dkAttach(p + o);
  o += (dkSharedSize() + 4095) & ~4095ul;
  for (int i = 0; i < NBUF; ++i) { bufs[i] = p + o; o += BUFSZ; }
}
static std::string jsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o;
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
}  // namespace sim

using namespace sim;

static int replayMain(const std::string& file, bool verbose) {
  FILE* f = std::fopen(file.c_str(), "r");
  if (!f) { perror(file.c_str()); return 2; }
  std::string t; char b[4096]; size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n);
  fclose(f);
  Plan p;
  if (!Plan::parse(t, p)) { fprintf(stderr, "bad replay file\n"); return 2; }
  const Prop* pr = findProp(p.prop);
  if (!pr) { fprintf(stderr, "unknown property %s\n", p.prop.c_str()); return 2; }
  g_verbose = verbose;
  mapShared();
  g_alarm = 20;
  Outcome o = runOnce(*pr, p);
  printf("RESULT prop=%s violated=%d class=%s trace=%016llx state=%016llx herr=%d\n", p.prop.c_str(), o.violated, o.cls.empty() ? "-" : o.cls.c_str(), (unsigned long long)o.trace, (unsigned long long)o.state, o.herr);
  if (o.violated) printf("DETAIL %s\n", o.detail.c_str());
  if (!o.note.empty()) printf("NOTE %s\n", o.note.c_str());
  if (const char* c = getenv("SIM_CAT")) printf("%s\n", dkGet(c).c_str());
  if (o.herr) printf("HARNESS %s\n", o.herrText.c_str());
  if (verbose) for (int i = 0; i < sh->ncnt; ++i) printf("CNT %s %llu\n", sh->cnt[i].name, (unsigned long long)sh->cnt[i].n);
  return o.herr ? 2 : o.violated ? 1 : 0;
}

int main(int argc, char** argv) {
  std::string prop, out, replayDir = ".", replay, dump, known;
  u64 seed = 1;
  long runs = -1, single = -1;
  int workers = 8;
  double cap = 600;
  bool thorough = false, verbose = false;
  std::string self = argv[0];
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto v = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--prop") prop = v();
    else if (a == "--seed") seed = strtoull(v().c_str(), 0, 10);
    else if (a == "--runs") runs = atol(v().c_str());
    else if (a == "--workers") workers = atoi(v().c_str());
    else if (a == "--cap") cap = atof(v().c_str());
    else if (a == "--out") out = v();
    else if (a == "--replaydir") replayDir = v();
    else if (a == "--replay") replay = v();
    else if (a == "--thorough") thorough = true;
    else if (a == "--dump") dump = v();
    else if (a == "--one") single = atol(v().c_str());
    else if (a == "--known") known = v();
    else if (a == "-v") verbose = true;
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  // the code under test prints to std::cout in places: not an observable of any property
  static std::ostringstream* sink = nullptr; (void)sink;
  std::cout.setstate(std::ios::failbit);
  // the same addresses in every process, where the system allows it
  if (!getenv("GEARSIM_CHILD")) {
    setenv("GEARSIM_CHILD", "1", 1);
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  if (!replay.empty()) return replayMain(replay, verbose);
  const Prop* pr = findProp(prop);
  if (!pr) { fprintf(stderr, "unknown property '%s'\n", prop.c_str()); return 2; }
  if (runs < 0) runs = thorough ? pr->thoroughRuns : pr->quickRuns;
  double t0 = now();
  if (single >= 0) {
    mapShared(); g_verbose = verbose;
    Plan p = pr->gen(mix64(seed), single, thorough);
    p.prop = pr->id;
    printf("%s", p.text().c_str());
    g_alarm = 20;
    Outcome o = runOnce(*pr, p);
    printf("violated=%d class=%s detail=%s\nnote=%s trace=%016llx state=%016llx nontrivial=%d herr=%d %s\n", o.violated, o.cls.c_str(), o.detail.c_str(), o.note.c_str(), (unsigned long long)o.trace, (unsigned long long)o.state, o.nontrivial, o.herr, o.herrText.c_str());
    for (int i = 0; i < sh->ncnt; ++i) printf("CNT %s %llu\n", sh->cnt[i].name, (unsigned long long)sh->cnt[i].n);
    return o.violated;
  }

  RunRec* rec = (RunRec*)mmap(nullptr, sizeof(RunRec) * (runs + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  Batch* bt = (Batch*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  bt->next = 0; bt->firstViol = runs; bt->stop = 0;
  int pipes[64][2];
  if (workers > 64) workers = 64;
  std::vector<pid_t> kids;
  for (int w = 0; w < workers; ++w) {
    if (pipe(pipes[w])) return 2;
    pid_t p = fork();
    if (!p) {
      ::close(pipes[w][0]);
      mapShared();
      std::map<std::string, u64> tot;
      u64 ev = 0;
      std::vector<std::string> samples;
      while (!bt->stop) {
        long i = bt->next++;
        if (i >= runs || i > bt->firstViol) break;
        if (now() - t0 > cap) { bt->stop = 1; break; }
        Plan pl = pr->gen(mix64(seed), i, thorough);
        pl.prop = pr->id;
        Outcome o = runOnce(*pr, pl);
        rec[i] = {o.trace, o.state, 1, o.nontrivial, o.violated, o.herr};
        ev += o.events;
        for (int k = 0; k < sh->ncnt; ++k) tot[sh->cnt[k].name] += sh->cnt[k].n;
        if (o.nontrivial && samples.size() < 1) samples.push_back(pl.text() + "-> " + o.note);
        if (o.herr) { fprintf(stderr, "harness error in run %ld: %s\n", i, o.herrText.c_str()); bt->stop = 1; }
        if (o.violated) {
          long cur = bt->firstViol;
          while (i < cur && !bt->firstViol.compare_exchange_weak(cur, i)) {}
        }
      }
      FILE* f = fdopen(pipes[w][1], "w");
      fprintf(f, "E %llu\n", (unsigned long long)ev);
      for (auto& t : tot) fprintf(f, "C %s %llu\n", t.first.c_str(), (unsigned long long)t.second);
      for (auto& s : samples) fprintf(f, "S %s\n", jsonEsc(s).c_str());
      fclose(f);
      _exit(0);
    }
    ::close(pipes[w][1]);
    kids.push_back(p);
  }
  std::map<std::string, u64> tot;
  u64 ev = 0;
  std::vector<std::string> samples;
  for (int w = 0; w < workers; ++w) {
    FILE* f = fdopen(pipes[w][0], "r");
    char* line = nullptr; size_t cp = 0; ssize_t n;
    while ((n = getline(&line, &cp, f)) > 0) {
      std::string l(line, n - 1);
      if (l[0] == 'E') ev += strtoull(l.c_str() + 2, 0, 10);
      else if (l[0] == 'C') { size_t sp = l.rfind(' '); tot[l.substr(2, sp - 2)] += strtoull(l.c_str() + sp, 0, 10); }
      else if (l[0] == 'S' && samples.size() < 4) samples.push_back(l.substr(2));
    }
    fclose(f);
  }
  bool workerDied = false;
  for (pid_t k : kids) { int st; waitpid(k, &st, 0); if (st) workerDied = true; }
  long done = 0, nontriv = 0, herr = 0, viol = -1;
  std::set<u64> traces, states, ntraces;
  for (long i = 0; i < runs; ++i) if (rec[i].done) {
    ++done;
    traces.insert(rec[i].trace);
    states.insert(rec[i].state);
    if (rec[i].nontrivial) { ++nontriv; ntraces.insert(rec[i].trace); }
    if (rec[i].herr) ++herr;
    if (rec[i].violated && viol < 0) viol = i;
  }
  double tRun = now() - t0;
  int rcode = 0;
  mapShared();
  std::string violLine;
  int violations = 0;
  if (!dump.empty()) {
    FILE* f = std::fopen(dump.c_str(), "w");
    for (long i = 0; i < runs; ++i) if (rec[i].done) fprintf(f, "%ld %016llx %016llx %d %d\n", i, (unsigned long long)rec[i].trace, (unsigned long long)rec[i].state, rec[i].nontrivial, rec[i].violated);
    fclose(f);
  }
  // determinism self check: a sample of the runs again, in other processes
  long redo = 0, redoBad = 0;
  if (viol < 0 && !herr && !workerDied) {
    long stepN = std::max(1l, done / (thorough ? 400 : 40));
    for (long i = 0; i < runs; i += stepN) if (rec[i].done) {
      Plan pl = pr->gen(mix64(seed), i, thorough);
      pl.prop = pr->id;
      Outcome o = runOnce(*pr, pl);
      ++redo;
      if (o.trace != rec[i].trace || o.state != rec[i].state || o.violated != rec[i].violated) { ++redoBad; fprintf(stderr, "run %ld is not deterministic\n", i); }
    }
  }
  int minTried = 0;
  if (herr || workerDied || redoBad) {
    fprintf(stderr, "ERROR: %s\n", herr ? "harness error" : workerDied ? "a worker died" : "runs are not deterministic");
    rcode = 2;
  } else if (viol >= 0) {
    // the first violation that reproduces exactly, here and in a fresh process, is reported
    rcode = 2;
    int attempts = 0;
    for (long v = viol; v < runs && rcode == 2 && attempts < 12; ++v) {
      if (!rec[v].done || !rec[v].violated) continue;
      ++attempts;
      Plan pl = pr->gen(mix64(seed), v, thorough);
      pl.prop = pr->id;
      Outcome a = runOnce(*pr, pl), b = runOnce(*pr, pl);
      bool hang = a.cls == "hang";
      if (!a.violated || !b.violated || a.cls != b.cls || (!hang && (a.trace != b.trace || a.trace != rec[v].trace))) {
        fprintf(stderr, "violation of run %ld does not reproduce (%s / %s)\n", v, a.cls.c_str(), b.cls.c_str());
        continue;
      }
      for (int pass = 0; pass < 2 && rcode == 2; ++pass) {
        int tried = 0;
        if (pass && hang) break;
        Plan m = pass || hang ? pl : minimise(*pr, pl, a.cls, 600, 60, tried);
        minTried = tried;
        Outcome fin = runOnce(*pr, m);
        std::string path = replayDir + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(v) + ".replay";
        FILE* f = std::fopen(path.c_str(), "w");
        if (!f) { perror(path.c_str()); return 2; }
        std::string det = fin.detail;
        std::replace(det.begin(), det.end(), '\n', ' ');
        fprintf(f, "# property %s, class %s\n# %s\n# found by run %ld of VERIF_SEED %llu, minimised in %d tries from %zu to %zu items\n# trace %016llx\n%s", prop.c_str(), fin.cls.c_str(), det.c_str(), v,
                (unsigned long long)seed, tried, pl.items.size(), m.items.size(), (unsigned long long)fin.trace, m.text().c_str());
        fclose(f);
        // replay in a fresh process must give the same failure
        std::string cmd = "'" + self + "' --replay '" + path + "' 2>/dev/null";
        FILE* pp = popen(cmd.c_str(), "r");
        char line[4096] = "";
        std::string first;
        while (fgets(line, sizeof line, pp)) if (first.empty()) first = line;
        int prc = pclose(pp);
        std::string want = hang ? "class=hang" : fmt("class=%s trace=%016llx", fin.cls.c_str(), (unsigned long long)fin.trace);
        if (!fin.violated || !WIFEXITED(prc) || WEXITSTATUS(prc) != 1 || first.find(want) == std::string::npos) {
          fprintf(stderr, "replay in a fresh process differs: %s (want %s)\n", first.c_str(), want.c_str());
          continue;
        }
        violations = 1;
        printf("class %s: %s\n", fin.cls.c_str(), fin.detail.c_str());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
        rcode = 1;
      }
    }
    if (rcode == 2) fprintf(stderr, "ERROR: no violation reproduces exactly\n");
  }
  double wall = now() - t0;
  printf("%s: %ld runs, %ld nontrivial, %zu distinct event logs, %zu distinct states, %llu simulated events, %.1f s (%.0f runs/h)\n", prop.c_str(), done, nontriv, traces.size(), states.size(), (unsigned long long)ev, tRun, done / tRun * 3600);
  if (!out.empty()) {
    FILE* f = std::fopen(out.c_str(), "w");
    if (!f) { perror(out.c_str()); return 2; }
    fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n", prop.c_str(), thorough ? "thorough" : "quick", (unsigned long long)seed);
    fprintf(f, "  \"evaluations\": %ld,\n  \"distinct_nontrivial\": %zu,\n  \"rule\": \"%s\",\n", done, ntraces.size(), jsonEsc(pr->rule).c_str());
    fprintf(f, "  \"samples\": [");
    for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", samples[i].c_str());
    if (samples.empty()) { Plan pl = pr->gen(mix64(seed), 0, thorough); pl.prop = pr->id; fprintf(f, "\"%s\"", jsonEsc(pl.text()).c_str()); }
    fprintf(f, "],\n  \"runs_planned\": %ld,\n  \"runs_per_hour\": %.0f,\n  \"seeds\": \"VERIF_SEED %llu, run indexes 0..%ld\",\n", runs, done / tRun * 3600, (unsigned long long)seed, done ? done - 1 : 0);
    fprintf(f, "  \"simulated_events\": %llu,\n  \"simulated_time\": \"the code under test reads no clock; progress is counted in simulated events\",\n", (unsigned long long)ev);
    fprintf(f, "  \"distinct_event_logs\": %zu,\n  \"distinct_states\": %zu,\n", traces.size(), states.size());
    fprintf(f, "  \"counters\": {");
    bool first = true;
    for (auto& t : tot) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jsonEsc(t.first).c_str(), (unsigned long long)t.second); first = false; }
    fprintf(f, "},\n  \"real_components\": \"%s\",\n  \"stubbed_components\": \"%s\",\n", jsonEsc(pr->real).c_str(), jsonEsc(pr->stub).c_str());
    fprintf(f, "  \"determinism_rechecked_runs\": %ld,\n  \"determinism_mismatches\": %ld,\n  \"workers\": %d\n },\n", redo, redoBad, workers);
    fprintf(f, " \"assumptions\": [\"samples schedules, faults and inputs from seeds; a clean batch is evidence, not proof\"],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, violations);
    fclose(f);
  }
  (void)known; (void)minTried;
  if (rcode == 0 && done < std::min(runs, 50l)) { fprintf(stderr, "ERROR: only %ld runs could be made\n", done); rcode = 2; }
  return rcode;
}
