// C15: material queries along tracks and at points, over a volume model (a stand-in for ROOT).
#include <dlfcn.h>
#include <algorithm>
#include <cmath>
#include <set>
#include "TGeoManager.h"
#include "TGeoNode.h"
#include "ask.h"
#include "gear/BField.h"
#include "gear/GearDistanceProperties.h"
#include "gear/GearPointProperties.h"
#include "geartgeo/TGeoGearDistanceProperties.h"
#include "geartgeo/TGeoGearPointProperties.h"
#include "p_io.h"
#include "util.h"

static bool plugin = false;
// the plug-in library is part of this program; the plan decides whether it can be found
extern "C" void* dlopen(const char* name, int flags) {
  if (name && strstr(name, "libgeartgeo")) return plugin ? (void*)&plugin : nullptr;
  static void* (*real)(const char*, int) = (void* (*)(const char*, int))dlsym(RTLD_NEXT, "dlopen");
  return real(name, flags);
}
namespace sim {
using namespace gear;

enum { Q_NAMES, Q_THICK, Q_VOLS, Q_X0, Q_L, Q_FIELD, Q_PMAT, Q_PDENS, Q_PTEMP, Q_PPRES, Q_PX0, Q_PL, Q_PLOC, Q_PLOG, Q_PPHY, Q_PNOT, Q_N };
static const char* qName[Q_N] = {"names", "thicknesses", "volumes", "radiation-lengths", "interaction-lengths", "field-integral", "material", "density", "temperature", "pressure", "radiation-length", "interaction-length", "local-position", "logical-volumes", "physical-volumes", "not-implemented"};
static Plan gen15(u64 seed, u64 idx, bool thorough) {
  Rng r(mix64(seed ^ mix64(idx + 0x115)));
  Plan p; p.seed = seed ^ idx;
  p.add("world").set("seed", (i64)(r.next() >> 20)).set("load", r.chance(35)).set("two", r.chance(40));
  int np = r.range(2, 7);
  for (int i = 0; i < np; ++i) p.add("pt").set("id", i).set("seed", (i64)(r.next() >> 24)).set("how", (int)r.below(23));
  if (p.find("world")->get("load")) {
    int n = r.range(0, 3);
    for (int i = 0; i < n; ++i) {
      Item it("load");
      int k = (int)r.below(10);
      if (k < 4) genReadFault(r, it);
      else if (k < 7) it.set("f", r.range(0, 60)).set("fn", r.chance(50) ? 1 : -1);
      else if (k < 9) it.set("noplugin", 1);
      else it.set("nofile", r.range(1, 2));
      p.items.push_back(it);
    }
  }
  int n = r.range(3, thorough ? 40 : 20);
  i64 a = 0, b = 1;
  int o = 0;
  for (int i = 0; i < n; ++i) {
    Item it("ask");
    // often the same track again, asked for something else, or its reverse
    if (r.chance(55)) { a = r.range(0, np - 1); b = r.chance(14) ? a : r.range(0, np - 1); } else if (r.chance(15)) std::swap(a, b);
    if (r.chance(30)) o = r.range(0, 1);
    it.set("o", o).set("k", r.chance(75) ? (int)r.below(Q_FIELD) : (int)r.below(Q_N)).set("a", a).set("b", b);
    if (r.chance(20)) it.set("f", r.range(0, r.chance(50) ? 6 : 40)).set("fn", r.chance(60) ? 1 : -1);
    p.items.push_back(it);
  }
  return p;
}
struct World {
  TGeoManager* mgr[2] = {nullptr, nullptr};
  const GearDistanceProperties* d[2] = {nullptr, nullptr};
  const GearPointProperties* q[2] = {nullptr, nullptr};
  GearMgr* g = nullptr;
};
static u64 worldSeed(const Plan& p, int k) { const Item* w = p.find("world"); return (w ? (u64)w->get("seed") : 1) + 77 * k; }
static TGeoManager* fresh(u64 seed) { TGeoManager* m = new TGeoManager("model", ""); m->make(seed); m->cur = m->top; return m; }
static bool clear(const TGeoManager& m, const double* v) { for (auto* n : m.nodes) for (int k = 0; k < 3; ++k) if (std::fabs(v[k] - n->lo[k]) < 1e-3 || std::fabs(v[k] - n->hi[k]) < 1e-3) return false; return true; }
static Vector3D point(const Plan& p, int id, const TGeoManager& w) {
  const Item* it = p.find("pt", id);
  if (!it) return Vector3D(1, 2, 3);
  Rng r((u64)it->get("seed"));
  int how = (int)it->get("how");
  if (how >= 20 && id > 0) {
    // next to another point
    Vector3D q = point(p, id - 1, w);
    double c[3] = {q[0], q[1], q[2]};
    if (!clear(w, c)) return q;       // along a face nothing is certain
    double d = std::pow(10., -9. + 8.5 * r.unit());
    int k = (int)r.below(3);
    q[k] += r.chance(50) ? d : -d;
    return q;
  }
  double s = how == 0 ? 2.2 : 0.97;
  double v[3];
  for (int k = 0; k < 3; ++k) { double a = w.top->lo[k], b = w.top->hi[k]; v[k] = (a + b) / 2 + (r.unit() - 0.5) * (b - a) * s; }
  if (how == 1) return Vector3D(0, 0, 0);
  if (how < 6) v[r.below(3)] = 0;                     // along an axis plane
  else if (how < 12) { const TGeoNode* n = w.nodes[r.below(w.nodes.size())]; for (int k = 0; k < 3; ++k) v[k] = n->lo[k] + (n->hi[k] - n->lo[k]) * (0.1 + 0.8 * r.unit()); }
  if (how >= 6 && how < 10) { const TGeoNode* n = w.nodes[r.below(w.nodes.size())]; int k = (int)r.below(3); static const double off[] = {0, 0, 1e-6, -1e-6, 8e-6, -2e-5}; v[k] = (r.chance(50) ? n->lo[k] : n->hi[k]) + off[r.below(6)]; }   // on a face or close to one
  return Vector3D(v[0], v[1], v[2]);
}
static void make(const Plan& p, World& w) {
  bool two = p.find("world") && p.find("world")->get("two");
  for (int k = 0; k < 2; ++k) w.mgr[k] = k == 0 || two ? fresh(worldSeed(p, k)) : w.mgr[0];
  for (int k = 0; k < 2; ++k) { w.d[k] = new TGeoGearDistanceProperties(w.mgr[k]); w.q[k] = new TGeoGearPointProperties(w.mgr[k]); }
}
static void askOne(const World& w, const Plan& p, const Item& it, Ans& a) {
  int o = (int)it.get("o") & 1, k = (int)it.get("k");
  const GearDistanceProperties& d = *w.d[o];
  const GearPointProperties& q = *w.q[o];
  Vector3D x, y;
  { Unarm u; x = point(p, (int)it.get("a"), *w.mgr[o]); y = point(p, (int)it.get("b"), *w.mgr[o]); }
  a.tag(k >= 0 && k < Q_N ? qName[k] : "?");
  try {
    switch (k) {
    case Q_NAMES: a.vec("", d.getMaterialNames(x, y)); break;
    case Q_THICK: a.vec("", d.getMaterialThicknesses(x, y)); break;
    case Q_VOLS: a.vec("", dynamic_cast<const TGeoGearDistanceProperties&>(d).getVolumeNames(x, y)); break;
    case Q_X0: a.d("", d.getNRadlen(x, y)); break;
    case Q_L: a.d("", d.getNIntlen(x, y)); break;
    case Q_FIELD: try { d.getBdL(x, y); a.i("B", 1); } catch (const NotImplementedException&) {} d.getEdL(x, y); break;
    case Q_PMAT: a.t("", q.getMaterialName(x)); break;
    case Q_PDENS: a.d("", q.getDensity(x)); break;
    case Q_PTEMP: a.d("", q.getTemperature(x)); break;
    case Q_PPRES: a.d("", q.getPressure(x)); break;
    case Q_PX0: a.d("", q.getRadlen(x)); break;
    case Q_PL: a.d("", q.getIntlen(x)); break;
    case Q_PLOC: { Vector3D v = q.getLocalPosition(x); a.d("x", v.x()); a.d("y", v.y()); a.d("z", v.z()); break; }
    case Q_PLOG: a.vec("", q.getListOfLogicalVolumes(x)); break;
    case Q_PPHY: a.vec("", q.getListOfPhysicalVolumes(x)); break;
    case Q_PNOT: try { q.getB(x); a.i("B", 1); } catch (const NotImplementedException&) {} q.isTracker(x); break;
    default: break;
    }
  }
  catch (const gear::Exception& e) { Unarm u; a.s += "!" + excName(e); }
}
// what the model says, from its boxes alone; false: too near to a face or to the outside to be sure
struct Seg { const TGeoNode* n; double len; };
static bool inside(const TGeoManager& m, const double* v) { for (int k = 0; k < 3; ++k) if (v[k] < m.top->lo[k] + 1e-2 || v[k] > m.top->hi[k] - 1e-2) return false; return true; }
static bool truth(const TGeoManager& m, const double* p, const double* e, std::vector<Seg>& out) {
  double d[3], L = 0;
  for (int k = 0; k < 3; ++k) { d[k] = e[k] - p[k]; L += d[k] * d[k]; }
  L = std::sqrt(L);
  if (L == 0) return true;
  if (L < 1e-2) return false;
  std::vector<double> t = {0, 1};
  for (auto* n : m.nodes) for (int k = 0; k < 3; ++k) for (double f : {n->lo[k], n->hi[k]}) {
    if (std::fabs(d[k]) < 1e-3 * L) { if (std::fabs(f - p[k]) < 2e-3 * L + 1e-3) return false; continue; }   // along a face
    double q = (f - p[k]) / d[k];
    if (q <= 0 || q >= 1) continue;
    // a crossing of the plane close to the rim of the face is too close to call
    double c[3]; for (int j = 0; j < 3; ++j) c[j] = p[j] + d[j] * q;
    for (int j = 0; j < 3; ++j) if (j != k && (std::fabs(c[j] - n->lo[j]) < 2e-2 || std::fabs(c[j] - n->hi[j]) < 2e-2)) return false;
    t.push_back(q);
  }
  std::sort(t.begin(), t.end());
  for (size_t i = 0; i + 1 < t.size(); ++i) {
    double l = (t[i + 1] - t[i]) * L;
    if (l < 1e-7) continue;
    double c[3]; for (int j = 0; j < 3; ++j) c[j] = p[j] + d[j] * (t[i] + t[i + 1]) / 2;
    const TGeoNode* n = m.at(c);
    if (!n) return false;
    if (!out.empty() && out.back().n == n) out.back().len += l; else out.push_back({n, l});
  }
  for (auto& q : out) if (q.len < 5e-3) return false;
  return true;
}
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-3 + 1e-6 * std::fabs(b); }
// an intact answer against the model
static void judge(const World& w, const Plan& p, const Item& it) {
  int o = (int)it.get("o") & 1, k = (int)it.get("k");
  const TGeoManager& m = *w.mgr[o];
  Vector3D x = point(p, (int)it.get("a"), m), y = point(p, (int)it.get("b"), m);
  double c[3] = {x[0], x[1], x[2]};
  std::string why;
  if (k < Q_FIELD) {
    std::vector<Seg> s;
    double e[3] = {y[0], y[1], y[2]};
    if (!inside(m, c) || !inside(m, e)) return;
    bool known = truth(m, c, e, s);
    Res r = guarded([&] {
      const GearDistanceProperties& d = *w.d[o];
      if (k <= Q_VOLS) {
        std::vector<std::string> n = d.getMaterialNames(x, y);
        std::vector<double> t = d.getMaterialThicknesses(x, y);
        std::vector<std::string> v = dynamic_cast<const TGeoGearDistanceProperties&>(d).getVolumeNames(x, y);
        Unarm u;
        if (n.size() != t.size()) { why = fmt("%zu materials but %zu thicknesses", n.size(), t.size()); return; }
        if (v.size() != t.size()) { why = fmt("%zu volumes but %zu thicknesses", v.size(), t.size()); return; }
        double sum = 0, L = std::sqrt((e[0] - c[0]) * (e[0] - c[0]) + (e[1] - c[1]) * (e[1] - c[1]) + (e[2] - c[2]) * (e[2] - c[2]));
        for (double l : t) sum += l;
        if (!near(sum, L)) { why = fmt("the thicknesses add up to %.12g for a track of %.12g", sum, L); return; }
        if (!known) return;
        std::vector<std::pair<std::string, double>> a, b;
        for (size_t i = 0; i < n.size(); ++i) { n[i] = v[i] + "/" + n[i]; if (t[i] < 2e-3) continue; else if (!a.empty() && a.back().first == n[i]) a.back().second += t[i]; else a.emplace_back(n[i], t[i]); }
        for (auto& q : s) { std::string nm = q.n->fName + "/" + q.n->fVol->fMed->fMat->fName; if (!b.empty() && b.back().first == nm) b.back().second += q.len; else b.emplace_back(nm, q.len); }
        bool same = a.size() == b.size();
        for (size_t i = 0; same && i < a.size(); ++i) same = a[i].first == b[i].first && near(a[i].second, b[i].second);
        if (!same) {
          why = "materials along the track:";
          for (auto& q : a) why += fmt(" %s %.9g", q.first.c_str(), q.second);
          why += "; the model has:";
          for (auto& q : b) why += fmt(" %s %.9g", q.first.c_str(), q.second);
        }
      } else if (known) {
        double want = 0;
        for (auto& q : s) { double l = k == Q_X0 ? q.n->fVol->fMed->fMat->fX0 : q.n->fVol->fMed->fMat->fL; if (l != 0) want += q.len / l; }
        double got = k == Q_X0 ? d.getNRadlen(x, y) : d.getNIntlen(x, y);
        if (std::fabs(got - want) > 1e-3 * s.size() + 1e-6 * want) { Unarm u; why = fmt("%.12g instead of %.12g", got, want); }
      }
    });
    if (!r.ok) fail("query-throws", fmt("%s between two points of the model: %s", qName[k], r.exc.c_str()));
    cnt(known ? "judged.track" : "judged.length");
  } else if (k >= Q_PMAT && k <= Q_PPHY) {
    const TGeoNode* n = m.at(c);
    if (!clear(m, c)) return;
    bool outside = false;
    Res r = guarded([&] {
      try {
        const GearPointProperties& q = *w.q[o];
        const TGeoMaterial* mt = n ? n->fVol->fMed->fMat : nullptr;
        auto num = [&](double got, double want) { if (n && got != want) { Unarm u; why = fmt("%.17g instead of %.17g", got, want); } };
        auto list = [&](const std::vector<std::string>& got, bool vol) { Unarm u; std::vector<std::string> want; for (const TGeoNode* z = n; z; z = z->fMother) want.push_back(vol ? z->fVol->fName : z->fName); if (n && got != want) why = fmt("a list of %zu volumes, the model has %zu", got.size(), want.size()); };
        switch (k) {
        case Q_PMAT: { std::string s = q.getMaterialName(x); Unarm u; if (n && s != mt->fName) why = s + " instead of " + mt->fName; break; }
        case Q_PDENS: num(q.getDensity(x), n ? mt->fRho : 0); break;
        case Q_PTEMP: num(q.getTemperature(x), n ? mt->fT : 0); break;
        case Q_PPRES: num(q.getPressure(x), n ? mt->fP : 0); break;
        case Q_PX0: num(q.getRadlen(x), n ? mt->fX0 : 0); break;
        case Q_PL: num(q.getIntlen(x), n ? mt->fL : 0); break;
        case Q_PLOC: { Vector3D v = q.getLocalPosition(x); for (int j = 0; n && j < 3; ++j) if (!near(v[j], c[j] - (n->lo[j] + n->hi[j]) / 2)) { Unarm u; why = fmt("coordinate %d is %.12g instead of %.12g", j, v[j], c[j] - (n->lo[j] + n->hi[j]) / 2); } break; }
        case Q_PLOG: list(q.getListOfLogicalVolumes(x), true); break;
        default: list(q.getListOfPhysicalVolumes(x), false);
        }
      } catch (const OutsideGeometryException&) { outside = true; }
    });
    if (!r.ok) fail("query-throws", fmt("%s of a point: %s", qName[k], r.exc.c_str()));
    if (outside != (n == nullptr)) why = outside ? "a point of the model is called outside" : "a point outside the model has an answer";
    cnt("judged.point");
  }
  if (!why.empty()) fail("differs-from-model", fmt("%s: %s", qName[k], why.c_str()));
}
static const char* desc = "<?xml version=\"1.0\"?>\n<gear>\n<global detectorName=\"with a model\"/>\n<GDMLFile name=\"/sim/world.gdml\"/>\n<detectors/>\n</gear>\n";
static void run15(const Plan& p) {
  const Item* wi = p.find("world");
  std::vector<const Item*> asks;
  for (auto& it : p.items) if (it.kind == "ask") asks.push_back(&it);
  if (!wi || asks.empty()) return;
  bool load = wi->get("load") != 0;
  auto key = [](const Item& it) { return fmt("%d %d %d %d", (int)it.get("o") & 1, (int)it.get("k"), (int)it.get("a"), (int)it.get("b")); };
  std::map<std::string, std::string> alone;
  phase([&] {
    std::string ser;
    for (auto* it : asks) {
      std::string k = key(*it);
      if (alone.count(k)) continue;
      sh->bufLen[0] = 0;
      phase([&] { World w; make(p, w); Ans a; armAlloc(-1); Res r = guarded([&] { askOne(w, p, *it, a); }); putBytes(0, r.ok ? a.s : "!" + r.exc); });
      alone[k] = getBytes(0);
      phase([&] { World w; make(p, w); armAlloc(-1); judge(w, p, *it); });
      cnt("asked.first");
      ser += k + "\n" + std::to_string(alone[k].size()) + "\n" + alone[k];
    }
    putBytes(1, ser);
  });
  {
    std::string s = getBytes(1);
    for (size_t at = 0; at < s.size();) {
      size_t e = s.find('\n', at), e2 = s.find('\n', e + 1);
      size_t n = strtoul(s.c_str() + e + 1, nullptr, 10);
      alone[s.substr(at, e - at)] = s.substr(e2 + 1, n);
      at = e2 + 1 + n;
    }
  }
  phase([&] {
    dkReset();
    World w;
    make(p, w);
    u64 h = 0;
    if (load) {
      // the model comes with a description; attempts that fail leave nothing behind
      dkPut("/sim/geo.xml", desc);
      std::string gdml = fmt("<gdml seed=\"%llu\"></gdml>", (unsigned long long)worldSeed(p, 0));
      auto attempt = [&](const Item* it) {
        dkPut("/sim/world.gdml", gdml);
        disk.clear();
        plugin = true;
        armAlloc(-1);
        if (it) {
          if (it->get("nofile") == 1) dkRemove("/sim/world.gdml");
          if (it->get("nofile") == 2) dkPut("/sim/world.gdml", gdml.substr(0, gdml.size() / 2));
          if (it->get("noplugin")) plugin = false;
          static const int ops[OP_N] = {3, 3, 3, 3, 3, 3};
          if (it->get("op", -1) >= 0) { disk.faults.push_back(makeFault(*it, ops)); }
          disk.arm();
          if (it->get("f", -1) >= 0) armAlloc((long)it->get("f"), (long)it->get("fn", 1));
        }
        GearMgr* m = nullptr;
        Res r = loadInto("/sim/geo.xml", m);
        bool fired = as.fired > 0 || disk.fired;
        if (as.fired) cnt("fault.alloc-load");
        armAlloc(-1);
        disk.clear();
        if (!it && !r.ok) fail("load-failed", "loading a description with a volume model ended with " + r.exc);
        if (it && r.ok && it->get("nofile")) fail("missing-model-accepted", "the file of the volume model was missing or cut, and the load reported success");
        if (!r.ok) { cnt("load.failed"); sh->nontrivial = 1; return; }
        cnt("load.ok");
        bool have = true;
        Res q = guarded([&] { try { m->getDistanceProperties(); m->getPointProperties(); } catch (const UnknownParameterException&) { have = false; } });
        if (!q.ok) fail("query-throws", "asking for the material properties ended with " + q.exc);
        if (!have && !(it && it->get("noplugin"))) fail("model-missing", fmt("a load with the plug-in present gave a geometry without material properties%s", fired ? " (with a fault)" : ""));
        if (have) {
          w.g = m; w.d[0] = &m->getDistanceProperties(); w.q[0] = &m->getPointProperties();
          if (!dynamic_cast<const TGeoGearDistanceProperties*>(w.d[0])) fail("model-missing", "foreign material properties");
        }
      };
      for (auto& it : p.items) if (it.kind == "load") attempt(&it);
      attempt(nullptr);
    }
    int n = 0;
    for (auto* it : asks) {
      ++n;
      Ans a;
      armAlloc((long)it->get("f", -1), (long)it->get("fn", 1));
      Res r = guarded([&] { askOne(w, p, *it, a); });
      bool fired = as.fired > 0;
      armAlloc(-1);
      if (fired) { cnt("fault.alloc"); sh->nontrivial = 1; }
      cnt((std::string("ask.") + qName[std::min<i64>(Q_N - 1, std::max<i64>(0, it->get("k")))]).c_str());
      traceEv("ask", (u64)it->get("k"), fired);
      if (r.oom) { if (!fired) fail("spurious-bad_alloc", "a query reported exhausted memory although there was enough"); cnt("ask.failed"); continue; }
      std::string got = r.ok ? a.s : "!" + r.exc, want = alone[key(*it)];
      h = mix64(h ^ hashBytes(got.data(), got.size()));
      if (got != want) fail("answer-depends-on-history", fmt("question %d of %zu%s: asked first: %s; asked after the others: %s", n, asks.size(), fired ? " (memory ran out)" : "", want.substr(0, 400).c_str(), got.substr(0, 400).c_str()));
    }
    sh->events += w.mgr[0]->steps;
    if (asks.size() > 1) sh->nontrivial = 1;
    state(h); trace(h);
  });
}
void propsTgeo(std::vector<Prop>& v) {
  v.push_back({"C15", gen15, run15, 3000, 120000, "a run is nontrivial if more than one question was asked or one injected failure showed; each question of a history (with failing allocations) must get what it gets when it is the first, and that is compared with the boxes of the model", "geartgeo, gearimpl and gearxml compiled from /repo with address sanitizer", "ROOT's geometry package (a stand-in: nested boxes navigated by TGeoManager's interface), dlopen of the plug-in, operator new/delete, the file system below /sim"});
}
}
