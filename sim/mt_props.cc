// C06 and C07: several threads, one geometry or one session each, under the scheduler.
#include "ask.h"
#include "mt_rt.h"
#include "util.h"
#include "gearxml/GearXML.h"
#include "gearxml/MergeXML.h"
#include <unistd.h>

namespace sim {
using namespace gear;
u64 genMask(Rng& r, int percent);

// ------------------------------------------------------------------ schedules
static void genSched(Rng& r, Plan& p, int nt, bool thorough) {
  p.add("first").set("t", (i64)r.below(nt));
  int mode = (int)r.below(10);
  if (mode < 7) {
    int n = r.range(2, thorough ? 40 : 18);
    for (int i = 0; i < n; ++i) {
      int k = (int)r.below(10);
      p.add("sw").set("kind", k < 3 ? PT_ANY : k < 7 ? PT_CONFLICT : k < 9 ? PT_SYNC : PT_IO).set("at", r.range(0, 999999)).set("to", (i64)r.below(nt));
    }
  }
  if (mode >= 5) p.add("rand").set("seed", (i64)(r.next() >> 20)).set("per", (i64[]){2, 5, 20, 100, 500, 3000}[r.below(6)]).set("only", r.chance(60));
}
static MtPlan schedOf(const Plan& p, const MtResult& rec) {
  MtPlan m;
  if (const Item* f = p.find("first")) m.first = (int)f->get("t");
  for (auto& it : p.items) {
    if (it.kind == "sw") {
      int k = (int)it.get("kind");
      if (k < 0 || k >= PT_N) continue;
      if (!rec.points[k]) k = PT_ANY;          // nothing of the kind happens
      m.sw.push_back({k, (long)((i64)rec.points[k] * it.get("at") / 1000000), (int)it.get("to")});
    } else if (it.kind == "rand") { m.rseed = (u64)it.get("seed"); m.per = (long)it.get("per"); m.perConflict = it.get("only") != 0; }
  }
  m.conflict = &rec.conflict;
  return m;
}
static void putRes(const MtResult& r) {
  std::string s((const char*)r.points, sizeof r.points);
  s.append((const char*)r.conflict.data(), r.conflict.size() * sizeof(u64));
  putBytes(1, s);
}
static MtResult getRes() {
  MtResult r;
  std::string s = getBytes(1);
  memcpy(r.points, s.data(), sizeof r.points);
  r.conflict.resize((s.size() - sizeof r.points) / sizeof(u64));
  memcpy(r.conflict.data(), s.data() + sizeof r.points, r.conflict.size() * sizeof(u64));
  return r;
}
static std::string pack(const std::vector<std::string>& v) { std::string s; for (auto& x : v) { u64 n = x.size(); s.append((char*)&n, 8); s += x; } return s; }
static std::vector<std::string> unpack(const std::string& s) { std::vector<std::string> v; size_t i = 0; while (i + 8 <= s.size()) { u64 n; memcpy(&n, s.data() + i, 8); v.push_back(s.substr(i + 8, n)); i += 8 + n; } return v; }
static std::string cut(const std::string& a, const std::string& b) {
  size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
  size_t from = k > 30 ? k - 30 : 0;
  return "..." + a.substr(from, 90) + " alone, ..." + b.substr(from, 90) + " together";
}
static void account(const MtResult& r) {
  cnt("switches", (u64)r.switches);
  cnt("points.access", (u64)r.points[PT_ANY]);
  cnt("points.conflict", (u64)r.points[PT_CONFLICT]);
  cnt("points.sync", (u64)r.points[PT_SYNC]);
  cnt("points.io", (u64)r.points[PT_IO]);
  sh->events += (u64)r.points[PT_ANY];
  if (r.switches > 3) sh->nontrivial = 1;
}

// ------------------------------------------------------------------ C06
static Plan gen06(u64 seed, u64 idx, bool thorough) {
  longParams = false;
  Rng r(mix64(seed ^ mix64(idx + 0x606)));
  Plan p; p.seed = seed ^ idx;
  p.add("geom").set("id", 0).set("seed", (i64)(r.next() >> 20)).set("mask", (i64)genMask(r, r.range(5, 40))).set("size", r.range(0, thorough ? 2 : 1)).set("how", r.chance(50)).set("style", (i64)(r.next() >> 40));
  for (int i = r.chance(60) ? 0 : r.range(1, 4); i > 0; --i) p.add("warm").set("seed", (i64)(r.next() >> 16));
  int nt = r.range(2, 3);
  std::vector<i64> pool;
  for (int i = 0; i < 4; ++i) pool.push_back((i64)(r.next() >> 16));
  for (int t = 0; t < nt; ++t) {
    int n = r.range(1, thorough ? 16 : 8);
    for (int i = 0; i < n; ++i) {
      Item it("op");
      int k = (int)r.below(20);
      it.set("t", t).set("k", k < 16 ? 0 : k < 18 ? 1 : 2).set("seed", r.chance(45) ? pool[r.below(4)] : (i64)(r.next() >> 16));
      if (k >= 16 && k < 18) {
        if (r.chance(30)) it.set("op", (i64[]){OP_OPEN, OP_WRITE, OP_WRITE, OP_CLOSE}[r.below(4)]).set("at", r.range(0, 4)).set("err", (i64[]){EIO, ENOSPC, EACCES}[r.below(3)]).set("mode", FM_ERR).set("io", 1);
      } else if (r.chance(12)) it.set("f", r.range(0, 12)).set("fn", r.chance(50) ? 1 : -1);
      p.items.push_back(it);
    }
  }
  genSched(r, p, nt, thorough);
  p.add("disk").set("iobuf", (i64[]){-1, -1, 64, 512}[r.below(4)]);
  return p;
}
struct Reader {
  std::vector<std::string> out;
  Keep keep;
};
static void reader(const Plan& p, int t, const GearMgr& m, u64 mask, Reader& rd) {
  int n = 0;
  for (auto& it : p.items) {
    if (it.kind != "op" || it.get("t") != t) continue;
    ++n;
    int k = (int)it.get("k");
    std::string res;
    if (k == 0) {
      bool faulty = it.get("f", -1) >= 0;
      if (faulty) {
        // asked first with memory running out: what comes of it is not compared, what follows is
        Ans a;
        armAlloc((long)it.get("f"), (long)it.get("fn", 1));
        Res q = guarded([&] { ask(a, m, mask, (u64)it.get("seed"), &rd.keep); });
        if (as.fired) cnt("fault.alloc");
        armAlloc(-1);
        if (!q.ok && !q.oom) fail("query-throws", q.exc);
      }
      Ans a;
      Res q = guarded([&] { ask(a, m, mask, (u64)it.get("seed"), &rd.keep); });
      res = q.ok ? a.s : "!" + q.exc;
    } else if (k == 1) {
      std::string path = fmt("/sim/t%d-%d", t, n);
      Res q = guarded([&] { GearXML::createXMLFile(const_cast<GearMgr*>(&m), path); });
      res = q.ok ? dkGet(path) : "!" + q.exc;
      cnt(q.ok ? "save.ok" : "save.failed");
    } else {
      Facts f;
      Res q = guarded([&] { f = fingerprint(m, (it.get("seed") & 1) != 0); });
      Unarm u;
      res = q.ok ? f.ser() : "!" + q.exc;
    }
    rd.out.push_back(res);
  }
}
static int threads(const Plan& p) { int n = 0; for (auto& it : p.items) if (it.kind == "op") n = std::max(n, (int)it.get("t") + 1); return std::min<int>(n, MAXT); }
static void saveFaults(const Plan& p) {
  int n[MAXT] = {0};
  for (auto& it : p.items) if (it.kind == "op" && it.get("t") < MAXT && it.get("t") >= 0) {
    int k = ++n[it.get("t")];
    if (!it.get("io")) continue;
    Fault f;
    f.op = (int)it.get("op"); f.at = (int)it.get("at"); f.err = (int)it.get("err", EIO); f.mode = FM_ERR;
    f.path = fmt("/sim/t%d-%d", (int)it.get("t"), k);
    disk.faults.push_back(f);
  }
}
static void run06(const Plan& p) {
  longParams = false;
  dkReset();
  const Item* g = p.find("geom");
  int nt = threads(p);
  if (!g || !nt) return;
  GeoSpec s = specOf(*g);
  u64 mask = (u64)g->get("mask");
  GearMgr* m = nullptr;
  if (g->get("how")) {
    dkPut("/sim/in.xml", emitXml(s, (u64)g->get("style")));
    Res r = loadInto("/sim/in.xml", m);
    if (!r.ok) fail("load-failed", "loading an intact description ended with " + r.exc);
  } else {
    Res r = guarded([&] { m = build(s); });
    if (!r.ok) fail("build-failed", r.exc);
  }
  { Res r = guarded([&] { fillSurfaces(*m, (u64)g->get("seed")); }); if (!r.ok) fail("build-failed", "filling the surface store ended with " + r.exc); }
  for (auto& it : p.items) if (it.kind == "warm") { Ans a; guarded([&] { ask(a, *m, mask, (u64)it.get("seed")); }); }
  disk.clear();
  if (const Item* d = p.find("disk")) disk.iobuf = (long)d->get("iobuf", -1);
  saveFaults(p);
  DiskImage im = dkImage();
  std::vector<std::vector<std::string>> alone(nt);
  for (int t = 0; t < nt; ++t) {
    dkRestore(im);
    phase([&] { disk.arm(); dkPerFileReset(); Reader rd; reader(p, t, *m, mask, rd); putBytes(0, pack(rd.out)); });
    alone[t] = unpack(getBytes(0));
  }
  auto together = [&](const MtPlan& mp, const char* how) {
    disk.arm();
    dkPerFileReset();
    std::vector<Reader> rd(nt);
    std::vector<std::function<void()>> fn;
    for (int t = 0; t < nt; ++t) fn.push_back([&, t] { reader(p, t, *m, mask, rd[t]); });
    MtResult r = mtRun(fn, mp);
    account(r);
    u64 h = 0;
    for (int t = 0; t < nt; ++t) {
      for (size_t k = 0; k < rd[t].out.size(); ++k) {
        h = mix64(h ^ hashBytes(rd[t].out[k].data(), rd[t].out[k].size()));
        if (rd[t].out[k] != alone[t][k]) fail("answer-differs", fmt("question %zu of thread %d (%s): %s", k, t, how, cut(alone[t][k], rd[t].out[k]).c_str()));
      }
      std::string d = rd[t].keep.check();
      if (!d.empty()) fail("answer-changed", fmt("a reference handed out to thread %d no longer shows what it showed: %s", t, d.c_str()));
    }
    cnt("answers", 1);
    state(h);
    return r;
  };
  dkRestore(im);
  phase([&] { MtPlan one; putRes(together(one, "one thread after the other")); });
  MtResult rec = getRes();
  dkRestore(im);
  phase([&] { together(schedOf(p, rec), "interleaved"); });
}

// ------------------------------------------------------------------ C07
enum { NFILE = 3 };
static Plan gen07(u64 seed, u64 idx, bool thorough) {
  longParams = false;
  Rng r(mix64(seed ^ mix64(idx + 0x707)));
  Plan p; p.seed = seed ^ idx;
  int nt = r.range(2, 3);
  int sz = r.range(0, thorough ? 2 : 1);
  u64 common = genMask(r, 20);
  bool same = r.chance(40);
  i64 gs = (i64)(r.next() >> 20);
  for (int t = 0; t < nt; ++t) {
    int ng = r.range(1, 2);
    for (int k = 0; k < ng; ++k) p.add("geom").set("id", t * NFILE + k).set("seed", same ? gs : (i64)(r.next() >> 20)).set("mask", (i64)(genMask(r, r.range(3, 30)) | common)).set("size", sz).set("style", (i64)(r.next() >> 40)).set("cut", r.chance(12) ? r.range(1, 99000) : 0);
    int n = r.range(1, thorough ? 9 : 5);
    bool first = true;
    for (int i = 0; i < n; ++i) {
      Item it("op");
      int k = (int)r.below(12);
      if (first && k >= 4 && r.chance(75)) k = (int)r.below(4);
      first = false;
      it.set("t", t);
      if (k < 4) it.set("k", 0).set("file", (i64)r.below(ng));
      else if (k < 6) it.set("k", 1);
      else if (k < 8) it.set("k", 2).set("dom", r.range(1, 2));
      else if (k < 9) it.set("k", 3).set("file", (i64)r.below(ng));
      else it.set("k", 4).set("seed", (i64)(r.next() >> 16));
      if (r.chance(15)) it.set("f", r.chance(50) ? r.range(0, 30) : r.range(0, 3000)).set("fn", r.chance(50) ? 1 : -1);
      p.items.push_back(it);
    }
    if (r.chance(35)) for (int i = r.range(1, 2); i > 0; --i) p.add("fault").set("t", t).set("out", r.chance(50)).set("n", r.range(0, 5)).set("op", (i64[]){OP_READ, OP_READ, OP_WRITE, OP_WRITE, OP_OPEN, OP_CLOSE, OP_SEEK}[r.below(7)]).set("at", r.range(0, 5)).set("err", (i64[]){EIO, ENOSPC, EACCES, EMFILE}[r.below(4)]).set("mode", r.chance(70) ? 0 : 1).set("arg", r.range(1, 300));
  }
  genSched(r, p, nt, thorough);
  p.add("disk").set("iobuf", (i64[]){-1, -1, 64, 512}[r.below(4)]).set("rmax", r.chance(25) ? r.range(20, 3000) : 0);
  return p;
}
static std::string inPath(int t, int f) { return fmt("/sim/s%d/in%d.xml", t, f); }
static std::string outPath(int t, int n) { return fmt("/sim/s%d/out%d.xml", t, n); }
struct Session { std::vector<std::string> out; };
static void session(const Plan& p, int t, const std::vector<GeoSpec>& spec, const std::vector<u64>& masks, Session& s) {
  GearMgr* m = nullptr;
  int n = 0;
  for (auto& it : p.items) {
    if (it.kind != "op" || it.get("t") != t) continue;
    int k = (int)it.get("k"), f = (int)it.get("file");
    if (f < 0 || f >= NFILE) f = 0;
    std::string res, o = outPath(t, n);
    auto doing = [&](GearMgr*& mm, const std::string& target) -> std::string {
      if (k == 0) {
        GearMgr* got = nullptr;
        Res r = loadInto(inPath(t, f), got);
        if (r.oom) return "oom";
        cnt(r.ok ? "load.ok" : "load.failed");
        if (!r.ok) return "!" + r.exc;
        mm = got;
        as.failAt = -1;
        fillSurfaces(*got, (u64)it.get("file") * 7 + t + n);
        Facts a = answers(*got, false);
        Unarm u;
        return a.ser();
      }
      if (k == 1) {
        if (!mm) return "none";
        Res r = saveTo(mm, target);
        cnt(r.ok ? "save.ok" : "save.failed");
        return r.oom ? "oom" : (r.ok ? "saved " : "!" + r.exc + " ") + dkGet(target);
      }
      if (k == 2) {
        bool said = false;
        Res r = guarded([&] { MergeXML x; said = x.setFile1(inPath(t, 0)); said = x.setFile2(inPath(t, 1)) && said; x.makeDominant((int)it.get("dom", 2)); said = x.mergeFiles(target) && said; });
        cnt(r.ok && said ? "merge.ok" : "merge.failed");
        return r.oom ? "oom" : (r.ok ? said ? "merged " : "refused " : "!" + r.exc + " ") + dkGet(target);
      }
      if (k == 3) {
        const GeoSpec& g = spec[t * NFILE + f];
        GearMgr* got = nullptr;
        Res r = guarded([&] { got = build(g); });
        if (r.oom) return "oom";
        if (!r.ok) return "!" + r.exc;
        mm = got;
        as.failAt = -1;
        fillSurfaces(*got, (u64)it.get("file") * 7 + t + n);
        Facts a = answers(*got, false);
        Unarm u;
        return a.ser();
      }
      if (!mm) return "none";
      Ans a;
      Res r = guarded([&] { ask(a, *mm, masks[t * NFILE] | masks[t * NFILE + 1], (u64)it.get("seed")); });
      return r.oom ? "oom" : r.ok ? a.s : "!" + r.exc;
    };
    if (it.get("f", -1) >= 0) {
      // the same once before, to another place, with memory running out: not compared
      GearMgr* side = m;
      armAlloc((long)it.get("f"), (long)it.get("fn", 1));
      std::string r = doing(side, outPath(t, 90));
      if (as.fired) cnt("fault.alloc");
      armAlloc(-1);
    }
    s.out.push_back(doing(m, o));
    ++n;
  }
}
static void run07(const Plan& p) {
  longParams = false;
  dkReset();
  int nt = threads(p);
  if (!nt) return;
  std::vector<GeoSpec> spec(MAXT * NFILE);
  std::vector<u64> masks(MAXT * NFILE, 0);
  for (auto& it : p.items) if (it.kind == "geom") {
    int id = (int)it.get("id");
    if (id < 0 || id >= MAXT * NFILE) continue;
    spec[id] = specOf(it);
    masks[id] = (u64)it.get("mask");
    std::string x = emitXml(spec[id], (u64)it.get("style"));
    if (i64 c = it.get("cut")) x.resize(x.size() * (size_t)c / 100000);
    dkPut(inPath(id / NFILE, id % NFILE), x);
  }
  disk.clear();
  if (const Item* d = p.find("disk")) { disk.iobuf = (long)d->get("iobuf", -1); disk.readMax = (int)d->get("rmax"); }
  // faults belong to the files of one session; side operations of faulty memory use the same inputs, so
  // input faults would be used up by them at another count than alone: only sessions without those get input faults
  bool mem[MAXT] = {false};
  for (auto& it : p.items) if (it.kind == "op" && it.get("f", -1) >= 0 && it.get("t") >= 0 && it.get("t") < MAXT) mem[it.get("t")] = true;
  for (auto& it : p.items) if (it.kind == "fault") {
    int t = (int)it.get("t");
    if (t < 0 || t >= nt || (!it.get("out") && mem[t])) continue;
    Fault f;
    f.op = (int)it.get("op"); f.at = (int)it.get("at"); f.err = (int)it.get("err", EIO); f.mode = (int)it.get("mode"); f.arg = (long)it.get("arg");
    if (f.op != OP_READ && f.op != OP_WRITE) f.mode = FM_ERR;
    f.path = it.get("out") ? outPath(t, (int)it.get("n")) : inPath(t, (int)it.get("n") % 2);
    disk.faults.push_back(f);
  }
  DiskImage im = dkImage();
  std::vector<std::vector<std::string>> alone(nt);
  for (int t = 0; t < nt; ++t) {
    dkRestore(im);
    phase([&] { disk.arm(); dkPerFileReset(); Session s; session(p, t, spec, masks, s); putBytes(0, pack(s.out)); });
    alone[t] = unpack(getBytes(0));
  }
  auto together = [&](const MtPlan& mp, const char* how) {
    disk.arm();
    dkPerFileReset();
    std::vector<Session> s(nt);
    std::vector<std::function<void()>> fn;
    for (int t = 0; t < nt; ++t) fn.push_back([&, t] { session(p, t, spec, masks, s[t]); });
    MtResult r = mtRun(fn, mp);
    account(r);
    u64 h = 0;
    for (int t = 0; t < nt; ++t) {
      for (size_t k = 0; k < s[t].out.size(); ++k) {
        h = mix64(h ^ hashBytes(s[t].out[k].data(), s[t].out[k].size()));
        if (s[t].out[k] != alone[t][k]) fail("result-differs", fmt("operation %zu of session %d (%s): %s", k, t, how, cut(alone[t][k], s[t].out[k]).c_str()));
      }
    }
    cnt("sessions", (u64)nt);
    state(h);
    return r;
  };
  dkRestore(im);
  phase([&] { MtPlan one; putRes(together(one, "one session after the other")); });
  MtResult rec = getRes();
  dkRestore(im);
  phase([&] { together(schedOf(p, rec), "interleaved"); });
}
const std::vector<Prop>& props() {
  static std::vector<Prop> v;
  if (v.empty()) {
    v.push_back({"C06", gen06, run06, 4000, 120000, "a run is nontrivial if more than three thread switches happened; each run asks every thread's questions alone, then all threads once one after the other and once under the schedule of the plan, with a happens-before check of every memory access of the library", "gearimpl, gearxml (saving) and gearsurf compiled from /repo, instrumented at every memory access; the C++ library (std::string and std::map internals seen through wrappers)", "the thread scheduler and the lock primitives (own, seeded); the file system below /sim; operator new/delete"});
    v.push_back({"C07", gen07, run07, 3000, 90000, "a run is nontrivial if more than three thread switches happened; each run executes every session alone in a fresh process, then all sessions in a fresh process one after the other and once under the schedule of the plan, with a happens-before check of every memory access of the library", "gearxml with the XML library, gearimpl, MergeXML compiled from /repo, instrumented at every memory access", "the thread scheduler, lock primitives and static initialisation guards (own, seeded); the file system below /sim with faults per file; operator new/delete"});
  }
  return v;
}
}
