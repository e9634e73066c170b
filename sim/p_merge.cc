// C11: merging descriptions loses nothing, keeps precedence, and is repeatable.
#include "p_io.h"
#include "util.h"
#include "gearxml/GearXML.h"
#include "gearxml/MergeXML.h"
#include <set>
#include <unistd.h>

namespace sim {
using namespace gear;

// ------------------------------------------------------------------ the reference merge
template <class V> static void names(std::set<std::string>& s, const V& v) { for (auto& x : v) s.insert(x.first); }
template <class V> static void addMissing(V& to, const V& from, const std::set<std::string>& have) { for (auto& x : from) if (!have.count(x.first)) to.push_back(x); }
static PSpec mergeP(const PSpec& d, const PSpec& o) {
  PSpec m = d;
  std::set<std::string> h;
  names(h, d.I); names(h, d.D); names(h, d.S); names(h, d.IV); names(h, d.DV); names(h, d.SV);
  addMissing(m.I, o.I, h); addMissing(m.D, o.D, h); addMissing(m.S, o.S, h); addMissing(m.IV, o.IV, h); addMissing(m.DV, o.DV, h); addMissing(m.SV, o.SV, h);
  return m;
}
static GeoSpec mergeSpec(const GeoSpec& d, const GeoSpec& o) {
  GeoSpec m = d;
  if (!d.hasName) m.hasName = false;
  if (!d.hasB) { if (o.hasB) { m.hasB = true; for (int i = 0; i < 3; ++i) m.b[i] = o.b[i]; m.bp = o.bp; } } else if (o.hasB) m.bp = mergeP(d.bp, o.bp);
  if (!d.tpc.on) m.tpc = o.tpc; else if (o.tpc.on) m.tpc.p = mergeP(d.tpc.p, o.tpc.p);
  for (int i = 0; i < 12; ++i) { if (!d.calo[i].on) m.calo[i] = o.calo[i]; else if (o.calo[i].on) { m.calo[i].p = mergeP(d.calo[i].p, o.calo[i].p); if (d.calo[i].l.empty()) m.calo[i].l = o.calo[i].l; } }
  for (int i = 0; i < 3; ++i) { if (!d.z[i].on) m.z[i] = o.z[i]; else if (o.z[i].on) m.z[i].p = mergeP(d.z[i].p, o.z[i].p); }
  if (!d.ftd.on) m.ftd = o.ftd; else if (o.ftd.on) m.ftd.p = mergeP(d.ftd.p, o.ftd.p);
  if (!d.tp.on) m.tp = o.tp; else if (o.tp.on) m.tp.p = mergeP(d.tp.p, o.tp.p);
  if (!d.si.on) m.si = o.si; else if (o.si.on) m.si.p = mergeP(d.si.p, o.si.p);
  for (auto& u : o.user) { bool have = false; for (auto& x : m.user) if (x.first == u.first) { x.second = mergeP(x.second, u.second); have = true; } if (!have) m.user.push_back(u); }
  for (auto& u : o.mat) { bool have = false; for (auto& x : m.mat) if (x.name == u.name) have = true; if (!have) m.mat.push_back(u); }
  return m;
}
// the second description takes over some of the names of the first, with other values
template <class V> static void borrow(Rng& r, V& to, const V& from) {
  for (auto& x : from) if (r.chance(50)) {
    bool have = false; for (auto& y : to) if (y.first == x.first) have = true;
    if (!have) { to.push_back(x); if (to.size() > 1) to.back().second = to[r.below(to.size() - 1)].second; }
  }
}
static bool anyKey(const PSpec& p, const std::string& k) { std::set<std::string> h; names(h, p.I); names(h, p.D); names(h, p.S); names(h, p.IV); names(h, p.DV); names(h, p.SV); return h.count(k) > 0; }
static void borrowP(Rng& r, PSpec& to, const PSpec& from) {
  PSpec f;       // only names that mean nothing else in this set
  for (auto& x : from.I) if (!anyKey(to, x.first)) f.I.push_back(x);
  for (auto& x : from.D) if (!anyKey(to, x.first)) f.D.push_back(x);
  for (auto& x : from.S) if (!anyKey(to, x.first)) f.S.push_back(x);
  for (auto& x : from.IV) if (!anyKey(to, x.first)) f.IV.push_back(x);
  for (auto& x : from.DV) if (!anyKey(to, x.first)) f.DV.push_back(x);
  borrow(r, to.I, f.I); borrow(r, to.D, f.D); borrow(r, to.S, f.S); borrow(r, to.IV, f.IV); borrow(r, to.DV, f.DV);
}
static void relate(GeoSpec& g, const GeoSpec& first, u64 seed) {
  Rng r(seed);
  if (g.hasB && first.hasB) borrowP(r, g.bp, first.bp);
  if (g.tpc.on && first.tpc.on) borrowP(r, g.tpc.p, first.tpc.p);
  for (int i = 0; i < 12; ++i) if (g.calo[i].on && first.calo[i].on) {
    borrowP(r, g.calo[i].p, first.calo[i].p);
    if (!r.chance(6)) { auto own = g.calo[i].l; g.calo[i].l = first.calo[i].l; for (size_t k = 0; k < g.calo[i].l.size() && k < own.size(); ++k) { g.calo[i].l[k].t = own[k].t; g.calo[i].l[k].c0 = own[k].c0; g.calo[i].l[k].a = own[k].a; } }
  }
  for (int i = 0; i < 3; ++i) if (g.z[i].on && first.z[i].on) borrowP(r, g.z[i].p, first.z[i].p);
  if (g.ftd.on && first.ftd.on) borrowP(r, g.ftd.p, first.ftd.p);
  if (g.tp.on && first.tp.on) borrowP(r, g.tp.p, first.tp.p);
  if (g.si.on && first.si.on) borrowP(r, g.si.p, first.si.p);
  for (auto& u : first.user) if (r.chance(60)) {
    bool have = false; for (auto& x : g.user) if (x.first == u.first) { borrowP(r, x.second, u.second); have = true; }
    if (!have && !g.user.empty()) { PSpec p = g.user[0].second; borrowP(r, p, u.second); g.user.emplace_back(u.first, p); }
  }
  for (auto& u : first.mat) if (r.chance(50)) { bool have = false; for (auto& x : g.mat) if (x.name == u.name) have = true; if (!have) { MatSpec n = u; for (double& v : n.v) v = q9(v * 1.5 + 0.25); g.mat.push_back(n); } }
}
// what both have is described alike, apart from its parameters
static void alike(GeoSpec& g, const GeoSpec& f) {
  auto keep = [](auto& to, const auto& from) { if (to.on && from.on) { PSpec p = to.p; to = from; to.p = p; } };
  keep(g.tpc, f.tpc);
  for (int i = 0; i < 12; ++i) keep(g.calo[i], f.calo[i]);
  for (int i = 0; i < 3; ++i) keep(g.z[i], f.z[i]);
  keep(g.ftd, f.ftd); keep(g.tp, f.tp); keep(g.si, f.si);
  if (g.hasB && f.hasB) for (int i = 0; i < 3; ++i) g.b[i] = f.b[i];
  if (g.hasName && f.hasName) g.name = f.name;
  for (auto& m : g.mat) for (auto& x : f.mat) if (m.name == x.name) m = x;
}
// whether a description has what the part belongs to
static bool hasOwner(const std::string& text, const XmlPart& part) {
  for (auto& x : xmlParts(text)) if (x.depth == (part.depth > 2 ? 2 : part.depth) && x.owner == part.owner) return true;
  return false;
}
enum { NF = 6 };     // 0..2 geometries, 3 not a geometry, 4 a geometry without detectors section, 5 the first geometry with one part left out
static Plan gen11(u64 seed, u64 idx, bool thorough) {
  Rng r(mix64(seed ^ mix64(idx + 0x111)));
  Plan p; p.seed = seed ^ idx;
  int ng = r.range(2, 3);
  u64 common = genMask(r, 25);
  for (int k = 0; k < ng; ++k) p.add("geom").set("id", k).set("seed", (i64)(r.next() >> 20)).set("mask", (i64)(genMask(r, r.range(5, 30)) | common)).set("size", r.range(1, thorough ? 3 : 2)).set("how", r.chance(50)).set("style", (i64)(r.next() >> 40)).set("rel", (i64)(r.next() >> 30));
  bool frag = r.chance(40);
  if (frag) { p.add("part").set("at", r.range(0, 100000)); for (auto& it : p.items) if (it.kind == "geom") it.set("how", 1); }
  if (frag && r.chance(60)) { int w = r.range(1, 2); p.add("op").set("k", 0).set("w", w).set("file", 5); p.add("op").set("k", 0).set("w", 3 - w).set("file", r.range(1, ng - 1)); }
  if (r.chance(50)) p.add("op").set("k", 0).set("w", 1).set("file", 0);
  if (r.chance(50)) p.add("op").set("k", 0).set("w", 2).set("file", 1);
  int n = r.range(3, thorough ? 22 : 12);
  for (int i = 0; i < n; ++i) {
    Item it("op");
    int k = (int)r.below(10);
    if (k < 4) {
      it.set("k", 0).set("w", r.range(1, 2)).set("file", r.chance(92) ? (i64)r.below(ng) : (i64)r.range(3, frag ? 5 : 4));
      int d = (int)r.below(10);
      if (d == 0) it.set("dmg", 1);                                          // not there
      else if (d == 1) it.set("dmg", 2).set("at", r.range(0, 99000));        // cut off
      else if (d == 2) it.set("dmg", 3).set("at", r.range(1000, 99000)).set("len", r.range(1, 600));     // zeroed region
      else if (d < 5) { genReadFault(r, it); it.set("io", 1); }
      if (r.chance(15)) it.set("gone", 1);                                   // the file disappears once read
    } else if (k < 5) it.set("k", 1).set("dom", r.range(1, 2));
    else {
      it.set("k", 2).set("to", r.range(0, 1));
      if (r.chance(35)) { genWriteFault(r, it); it.set("io", 1); }
      else if (r.chance(15)) it.set("cap", r.range(0, 6000));
    }
    if (r.chance(22)) it.set("f", r.range(0, 1000)).set("fn", r.chance(60) ? 1 : r.chance(50) ? -1 : 3);
    if (r.chance(20)) it.set("iobuf", (i64[]){0, 1, 7, 64, 512}[r.below(5)]);
    if (r.chance(15)) it.set("rmax", r.range(1, 2000));
    p.items.push_back(it);
  }
  if (r.chance(80)) { Item it("op"); it.set("k", 2).set("to", 0); p.items.push_back(it); }
  return p;
}
static std::string fpath(int f) { return "/sim/in" + std::to_string(f) + ".xml"; }
static void run11(const Plan& p) {
  dkReset();
  GeoSpec spec[NF];
  bool have[NF] = {false, false, false, true, true, false};
  bool written[NF] = {false};      // by the harness: one element per layer entry
  const Item* part = p.find("part");
  for (int k = 0; k < 3; ++k) {
    const Item* g = p.find("geom", k);
    if (!g) continue;
    have[k] = true;
    spec[k] = specOf(*g);
    if (k && have[0]) relate(spec[k], spec[0], (u64)g->get("rel"));
    if (k && have[0] && part) alike(spec[k], spec[0]);
    written[k] = g->get("how") || part;
    if (written[k]) dkPut(fpath(k), emitXml(spec[k], (u64)g->get("style"), false));
    else phase([&] {
      GearMgr* m = nullptr;
      Res b = guarded([&] { m = build(spec[k]); });
      if (!b.ok) fail("build-failed", "building through the public interface ended with " + b.exc);
      Res r = saveTo(m, fpath(k));
      if (!r.ok) fail("save-failed", "saving without any fault ended with " + r.exc);
    });
    // a stored forward calorimeter has a crossing angle, and it is saved with the others
    if (!written[k]) for (int i = 9; i < 12; ++i) {
      bool has = false;
      for (auto& x : spec[k].calo[i].p.D) has = has || x.first == "beam_crossing_angle";
      if (!has) spec[k].calo[i].p.D.push_back({"beam_crossing_angle", 0.});
    }
  }
  dkPut(fpath(3), "<?xml version=\"1.0\"?>\n<other><a b=\"1\"/></other>\n");
  dkPut(fpath(4), "<?xml version=\"1.0\"?>\n<gear><global detectorName=\"x\"/></gear>\n");
  XmlPart left{0, 0, "", 0, ""};
  if (part && have[0]) {
    std::string t = dkGet(fpath(0));
    std::vector<XmlPart> c;
    for (auto& x : xmlParts(t)) {
      std::string n = x.name.substr(x.name.find('/') == std::string::npos ? 0 : x.name.find('/') + 1), el = n.substr(0, n.find('.'));
      bool attr = n.find('.') != std::string::npos;
      if (el == "layer" || el == "parameter" || el == "gear" || el[0] == '?') continue;
      if (attr && (n.substr(n.find('.')) == ".name" || n == "modules.moduleIDStartCount")) continue;      // the other may do without
      if (x.depth == 3 || (attr && (x.depth == 2 || el == "BField" || el == "global"))) c.push_back(x);
    }
    if (!c.empty()) {
      left = c[(size_t)part->get("at") % c.size()];
      dkPut(fpath(5), t.substr(0, left.a) + t.substr(left.a + left.n));
      spec[5] = spec[0]; have[5] = written[5] = true;
      note("file 5 is file 0 without " + left.name + " of " + left.owner);
    }
  }
  std::string content[NF];
  for (int k = 0; k < NF; ++k) if (have[k]) content[k] = dkGet(fpath(k));

  // what merging documents d1 and d2 gives the first time, in a process of its own
  std::map<int, std::string> first;
  auto reference = [&](int d1, int d2, int dom) -> std::string {
    int key = d1 * 100 + d2 * 10 + dom;
    if (first.count(key)) return first[key];
    DiskImage im = dkImage();
    for (int k = 0; k < NF; ++k) if (have[k]) dkPut(fpath(k), content[k]);
    dkPut("/sim/ref", "");
    phase([&] {
      MergeXML x;
      bool said = false;
      Res r = guarded([&] { said = x.setFile1(fpath(d1)) && x.setFile2(fpath(d2)); if (said) { x.makeDominant(dom); said = x.mergeFiles("/sim/ref"); } });
      if (r.ok && !said) putBytes(0, "?refused");
      else if (!r.ok) putBytes(0, "!" + r.exc);
      else putBytes(0, dkGet("/sim/ref"));
    });
    std::string out = getBytes(0);
    bool geo = d1 != 3 && d1 != 4 && d2 != 3 && d2 != 4;
    int D = dom == 1 ? d1 : d2, O = dom == 1 ? d2 : d1;
    if (!geo) { if (out != "?refused") fail("merged-foreign", fmt("documents %d and %d, one of which is no geometry description, were merged or ended with %s", d1, d2, out.substr(0, 80).c_str())); }
    else if (out[0] == '?') fail("merge-refused", fmt("two intact descriptions (%d, %d) are refused", d1, d2));
    else if (out[0] == '!') {
      // calorimeters with different numbers of layers cannot be combined
      bool calo = false;
      for (int i = 0; i < 12; ++i) if (spec[D].calo[i].on && spec[O].calo[i].on) calo = true;
      if (!calo || out.find("gear::") == std::string::npos) fail("merge-throws", fmt("merging %d and %d ended with %s", d1, d2, out.c_str() + 1));
      cnt("merge.impossible");
    } else {
      if (D == 5 || O == 5) {
        cnt("merge.fragment");
        if (D == O || !hasOwner(content[D == 5 ? O : D], left)) { dkRestore(im); return first[key] = out; }    // nothing gives the missing part
        cnt("merge.completed");
      }
      for (int i = 0; i < 12; ++i) if (spec[D].calo[i].on && spec[O].calo[i].on && written[D] && written[O]) {
        size_t nd = spec[D].calo[i].l.size(), no = spec[O].calo[i].l.size();
        if (nd && no && nd != no) fail("merge-lossy", fmt("merging %d and %d (dominant %d): calorimeters with %zu and %zu layers cannot be combined, but no error was reported", d1, d2, D, nd, no));
      }
      GeoSpec want = mergeSpec(spec[D], spec[O]);
      phase([&] {
        GearMgr* m = nullptr;
        Res r = loadInto("/sim/ref", m);
        if (!r.ok) fail("merged-unreadable", fmt("merging %d and %d (dominant %d): loading the result ended with %s", d1, d2, D, r.exc.c_str()));
        Facts e = expect(want), f = answers(*m, false);
        // layers of calorimeters in both with different layer structure: combined by position, not checked here
        std::string d = diff(e, f, TOL, true);
        if (!d.empty()) fail("merge-wrong", fmt("merging %d and %d (dominant %d): expected vs merged: %s", d1, d2, D, d.c_str()));
        cnt("merge.checked");
      });
    }
    dkRestore(im);
    return first[key] = out;
  };
  // the history
  std::vector<std::pair<int, int>> need;
  {
    int d1 = -1, d2 = -1;
    // references of every combination the history can reach
    std::set<int> f1, f2;
    for (auto& it : p.items) if (it.kind == "op" && it.get("k") == 0) { int f = (int)it.get("file"); if (f >= 0 && f < NF && have[f]) (it.get("w") == 1 ? f1 : f2).insert(f); }
    for (int a : f1) for (int b : f2) for (int dom = 1; dom <= 2; ++dom) reference(a, b, dom);
  }
  phase([&] {
    MergeXML x;
    int doc[3] = {-1, -1, -1}, dom = 2;
    int step = 0;
    u64 h = 0;
    for (auto& it : p.items) {
      if (it.kind != "op") continue;
      ++step;
      int k = (int)it.get("k");
      disk.clear();
      applyIo(it);
      if (k == 1) { dom = it.get("dom") == 1 ? 1 : 2; Res r = guarded([&] { x.makeDominant(dom); }); if (!r.ok) fail("dominant-throws", r.exc); traceEv("dominant", dom); continue; }
      std::function<bool()> lib;
      std::string bytes, path;
      int w = it.get("w") == 1 ? 1 : 2, f = (int)it.get("file");
      std::string to = "/sim/out" + std::to_string(it.get("to"));
      std::string ctx;
      if (k == 0) {
        if (f < 0 || f >= NF || !have[f]) continue;
        bytes = content[f];
        path = fpath(f);
        int dmg = (int)it.get("dmg");
        size_t at = (size_t)((u64)bytes.size() * (u64)it.get("at") / 100000);
        if (dmg == 2) { bytes.resize(at); }
        if (dmg == 3) for (size_t q = at; q < bytes.size() && q < at + (size_t)it.get("len", 1); ++q) bytes[q] = 0;
        if (dmg == 1) dkRemove(fpath(f)); else dkPut(fpath(f), bytes);
        lib = [&] { return w == 1 ? x.setFile1(fpath(f)) : x.setFile2(fpath(f)); };
        ctx = fmt("step %d read file %d as input %d%s", step, f, w, dmg == 1 ? " (missing)" : dmg == 2 ? " (cut off)" : dmg == 3 ? " (zeroed region)" : "");
      } else {
        lib = [&] { return x.mergeFiles(to); };
        ctx = fmt("step %d merge", step);
      }
      // a clean execution elsewhere tells how many operations and allocations there are
      int opc[OP_N] = {0};
      long clean = 0;
      std::string faultText;
      if (it.get("io") || it.get("f", -1) >= 0) {
        DiskImage im = dkImage();
        phase([&] { disk.arm(); armAlloc(-1); Res q = guarded([&] { lib(); }); sh->num[0] = (u64)as.count; for (int o = 0; o < OP_N; ++o) sh->num[1 + o] = (u64)disk.count[o]; });
        dkRestore(im);
        clean = (long)sh->num[0];
        for (int o = 0; o < OP_N; ++o) opc[o] = (int)sh->num[1 + o];
      }
      if (it.get("io")) disk.faults.push_back(makeFault(it, opc, &faultText));
      std::string before = dkGet(to);
      if (it.get("cap", -1) >= 0 && k == 2) { long used = 0; DiskImage im = dkImage(); for (auto& e : im) if (e.first != to) used += (long)e.second.size(); disk.capacity = used + (long)it.get("cap"); faultText = "disk full"; }
      disk.arm();
      long kf = it.get("f", -1) >= 0 && clean > 0 ? std::min<long>(clean - 1, (long)((i64)clean * it.get("f") / 1000)) : -1;
      armAlloc(kf, (long)it.get("fn", 1));
      bool said = false;
      Res r = guarded([&] { said = lib(); });
      bool mem = as.fired > 0, io = disk.fired > 0 || disk.capacityHit;
      armAlloc(-1);
      disk.clear();
      bool ok = r.ok && said;
      if (mem) { cnt("fault.alloc"); ctx += " (memory ran out)"; }
      if (io) { cnt("fault.io"); ctx += " (" + faultText + ")"; }
      if (mem || io || it.get("dmg")) sh->nontrivial = 1;
      traceEv(k == 0 ? "read" : "merge", ok, mem * 2 + io);
      if (k == 0) {
        cnt(ok ? "input.accepted" : "input.refused");
        if (it.get("dmg") && ok && bytes != content[f]) {
          // a cut behind the closing tag loses nothing
          size_t end = content[f].find_last_of('>');
          // what is cut off before the root element is taken for a document without content, which no merge accepts
          bool rootless = it.get("dmg") == 2 && bytes.size() < content[f].find(f == 3 ? "<other" : "<gear") + 5;
          if (rootless) f = -2;
          else if (!(it.get("dmg") == 2 && bytes.size() > end)) fail("damaged-input-accepted", ctx + ": was accepted");
        }
        if (!it.get("dmg") && !mem && !io && !ok) fail("intact-input-refused", ctx + ": was refused" + (r.ok ? "" : " with " + r.exc));
        if (it.get("dmg") != 1 && dkGet(path) != bytes) fail("input-touched", ctx + ": reading changed the file");
        if (ok) doc[w] = f;
        if (it.get("gone")) dkRemove(path); else dkPut(path, content[(int)it.get("file")]);
      } else {
        bool both = doc[1] >= 0 && doc[2] >= 0;
        std::string want = both ? reference(doc[1], doc[2], dom) : "?refused";
        bool possible = want[0] != '?' && want[0] != '!';
        cnt(ok ? "merge.done" : "merge.failed");
        if (!possible && ok) fail("accepted-wrongly", ctx + fmt(": input %d and %d cannot be combined but the merge reports success", doc[1], doc[2]));
        if (possible && !ok && !mem && !io) fail("merge-refused", ctx + fmt(": merging %d and %d again fails %s", doc[1], doc[2], r.ok ? "" : r.exc.c_str()));
        if (ok) {
          std::string got = dkGet(to);
          if (got != want) fail("merge-not-repeatable", ctx + fmt(": merging %d and %d (dominant %d) gives %zu bytes, the first time %zu bytes; they differ", doc[1], doc[2], dom, got.size(), want.size()));
          h = mix64(h ^ hashBytes(got.data(), got.size()));
        } else if (!possible && !mem && !io && dkGet(to) != before) fail("refused-merge-wrote", ctx + ": nothing could be merged but the target file changed");
      }
      // the inputs stay as they are
      for (int q = 0; q < NF; ++q) if (have[q] && dkExists(fpath(q)) && dkGet(fpath(q)) != content[q]) fail("input-touched", ctx + fmt(": input file %d was changed", q));
    }
    state(h); trace(h);
  });
}
void propsMerge(std::vector<Prop>& v) {
  v.push_back({"C11", gen11, run11, 4000, 150000, "a run is nontrivial if at least one injected failure showed or a damaged input was offered; a history of reading inputs, choosing the dominant one and merging with failing reads, writes and memory against a reference merge of the generated descriptions", "all of gearxml including MergeXML and the XML library, gearimpl (compiled from /repo with address sanitizer)", "the file system below /sim (in memory, with injected faults); operator new/delete (failures decided by the plan)"});
}
}
