// Histories of operations in one process:
// C08 memory exhaustion, C09 registry, C10 readout assembly, C12 surface store,
// C13 answers do not depend on earlier questions.
#include "ask.h"
#include "p_io.h"
#include "util.h"
#include <cmath>
#include <set>
#include <unistd.h>
#include "gear/GearDistanceProperties.h"
#include "gear/GearPointProperties.h"
#include "gear/BField.h"
#include "gear/CalorimeterParameters.h"
#include "gear/FTDParameters.h"
#include "gear/SiPlanesParameters.h"
#include "gear/SimpleMaterial.h"
#include "gear/TrackerPlanesParameters.h"
#include "gear/ZPlanarParameters.h"
#include "gearimpl/CalorimeterParametersImpl.h"
#include "gearimpl/ConstantBField.h"
#include "gearimpl/FTDParametersImpl.h"
#include "gearimpl/FixedPadAngleDiskLayout.h"
#include "gearimpl/FixedPadSizeDiskLayout.h"
#include "gearimpl/RectangularPadRowLayout.h"
#include "gearimpl/SiPlanesParametersImpl.h"
#include "gearimpl/SimpleMaterialImpl.h"
#include "gearimpl/TrackerPlanesParametersImpl.h"
#include "gearimpl/VersatileDiskRowLayout.h"
#include "gearimpl/ZPlanarParametersImpl.h"
#include "gearsurf/BoundaryRectangle.h"
#include "gearsurf/CartesianCoordinateSystem.h"
#include "gearsurf/MeasurementSurface.h"
#include "gearsurf/MeasurementSurfaceStore.h"
#include "gearxml/GearXML.h"
#include "gearxml/MergeXML.h"

namespace sim {
using namespace gear;

// ------------------------------------------------------------------ memory faults around one call
// permille f of the allocations of a clean execution; fails n consecutive ones (-1: all further)
static void arm(const Item& it, long clean) {
  i64 f = it.get("f", -1);
  long k = -1;
  if (f >= 0 && clean > 0) { k = (long)((i64)clean * f / 1000); if (k >= clean) k = clean - 1; }
  armAlloc(k, (long)it.get("fn", 1));
}
static void genMemFault(Rng& r, Item& it, int percent) {
  if (!r.chance(percent)) return;
  it.set("f", r.chance(25) ? (r.chance(50) ? 0 : 1000) : r.range(0, 1000));
  int k = (int)r.below(10);
  if (k >= 6) it.set("fn", k < 8 ? -1 : r.range(2, 6));
}
static u64 sd(const Item& it, u64 salt = 0) { return mix64((u64)it.get("seed") ^ (salt * 7919)); }
static std::string keyOf(Rng& r) { static const char* k[] = {"a", "b", "Key_3", "long parameter name that does not fit into a small string", "e", "zz", "ab", "Key_"}; return k[r.below(8)]; }
struct ParamOp { int type; std::string key; int i; double d; std::string s; IntVec iv; DoubleVec dv; StringVec sv; };
static ParamOp paramOp(u64 seed) {
  Rng r(seed);
  ParamOp p;
  p.type = (int)r.below(6); p.key = keyOf(r); p.i = r.range(-1000000, 1000000); p.d = (r.unit() - 0.5) * 1e4;
  p.s = r.chance(50) ? "short" : "a string value that needs memory of its own, number " + std::to_string(r.below(100));
  int n = r.range(0, 5);
  for (int k = 0; k < n; ++k) { p.iv.push_back(r.range(-99, 99)); p.dv.push_back(r.unit() * 100); p.sv.push_back((r.chance(30) ? "short_" : "element_number_with_some_length_" + std::string(r.below(40), 'l')) + std::to_string(r.below(1000))); }
  return p;
}
static void applyParam(GearParametersImpl& g, const ParamOp& p) {
  switch (p.type) {
  case 0: g.setIntVal(p.key, p.i); break; case 1: g.setDoubleVal(p.key, p.d); break; case 2: g.setStringVal(p.key, p.s); break;
  case 3: g.setIntVals(p.key, p.iv); break; case 4: g.setDoubleVals(p.key, p.dv); break; default: g.setStringVals(p.key, p.sv);
  }
}
template <class V, class T> static void upsert(V& v, const std::string& k, const T& x) { for (auto& p : v) if (p.first == k) { p.second = x; return; } v.emplace_back(k, x); }
static void modelParam(PSpec& s, const ParamOp& p) {
  switch (p.type) {
  case 0: upsert(s.I, p.key, p.i); break; case 1: upsert(s.D, p.key, p.d); break; case 2: upsert(s.S, p.key, p.s); break;
  case 3: upsert(s.IV, p.key, p.iv); break; case 4: upsert(s.DV, p.key, p.dv); break; default: upsert(s.SV, p.key, p.sv);
  }
}
template <class T> static void swapIn(std::unique_ptr<T>& slot, T* p) { Unarm u; slot.reset(p); }

// ------------------------------------------------------------------ measurement surfaces
struct SurfPlan { std::vector<int> ids; std::string name; int failAt; bool failName; };
static SurfPlan surfPlan(u64 seed, int failPercent, int dupPercent) {
  Rng r(seed);
  SurfPlan p;
  int n = r.range(0, 8);
  for (int k = 0; k < n; ++k) p.ids.push_back(r.chance(30) ? r.range(-3, 12) : (int)(r.next() & 0x7fffffff));
  if (n && !r.chance(dupPercent)) { std::set<int> s(p.ids.begin(), p.ids.end()); p.ids.assign(s.begin(), s.end()); for (size_t k = p.ids.size(); k > 1; --k) std::swap(p.ids[k - 1], p.ids[r.below(k)]); }
  else if (n > 1) p.ids[r.below(n)] = p.ids[r.below(n)];
  p.name = "filler named " + std::to_string(r.below(100)) + (r.chance(50) ? "" : " with a name that needs memory of its own");
  p.failAt = r.chance(failPercent) ? (int)r.below(p.ids.size() + 1) : -1;
  p.failName = p.failAt >= 0 && r.chance(15);
  return p;
}
struct FillerError : std::runtime_error { FillerError() : std::runtime_error("the provider cannot provide") {} };
struct Filler : MeasurementSurfaceStoreFiller {
  const SurfPlan& p;
  mutable std::vector<MeasurementSurface*> mine;
  explicit Filler(const SurfPlan& q) : p(q) {}
  MeasurementSurface* make(int id) const {
    CLHEP::HepRotation rot; rot.rotateZ((id % 7) * 0.3);
    Unarm u;
    return new MeasurementSurface(id, new CartesianCoordinateSystem(CLHEP::Hep3Vector(id % 1000, 2, 3), rot), new BoundaryRectangle(1 + (id & 15), 2, 0));
  }
  virtual void getMeasurementSurfaces(std::vector<MeasurementSurface*>& v) const {
    for (size_t k = 0; k < p.ids.size(); ++k) {
      if ((int)k == p.failAt) throw FillerError();
      MeasurementSurface* s = make(p.ids[k]);
      { Unarm u; mine.push_back(s); }
      v.push_back(s);
    }
    if (p.failAt == (int)p.ids.size()) throw FillerError();
  }
  virtual std::string getName() const { if (p.failName) throw FillerError(); return p.name; }
};
static void fpStore(Facts& f, MeasurementSurfaceStore& s, const std::vector<int>& ids) {
  Scope q(f, "store");
  f.i("filled", s.isFilled());
  try { std::string n = s.getFillerName(); f.s("name", n); } catch (const std::bad_alloc&) { throw; } catch (const std::exception& e) { f.e("name", excName(e)); }
  for (int id : ids) {
    std::string n = "id" + std::to_string(id);
    try { const MeasurementSurface* m = s.GetMeasurementSurface(id); f.i(n, const_cast<MeasurementSurface*>(m)->getID()); f.d(n + ".x", m->getCoordinateSystem()->getLocalPoint(CLHEP::Hep3Vector(0, 0, 0)).x()); f.i(n + ".in", m->isLocalInBoundary(CLHEP::Hep3Vector(0.1, 0.1, 0)));}
    catch (const std::bad_alloc&) { throw; } catch (const std::exception& e) { f.e(n, excName(e)); }
  }
}

// ------------------------------------------------------------------ C08: a world of objects
enum { K_SEC, K_USER, K_MAT, K_PAR, K_ROW, K_REPEAT, K_VROW, K_LAYER, K_NEWMOD, K_SETMOD, K_ADDMOD, K_TPC, K_COPY, K_LOAD, K_SAVE, K_MERGE, K_ASK, K_FILL, K_NAME, K_N };
static const char* kName[K_N] = {"store-section", "store-user", "register-material", "set-parameter", "add-row", "repeat-rows", "add-disk-row", "add-layer", "new-module", "configure-module", "add-module", "tpc", "copy", "load", "save", "merge", "query", "fill-surfaces", "set-name"};

struct World {
  std::string dir;
  std::unique_ptr<GearMgr> mgr[2];
  std::unique_ptr<GearParametersImpl> par[2];
  std::unique_ptr<RectangularPadRowLayout> rect;
  bool repeated = false;
  std::unique_ptr<VersatileDiskRowLayout> vers;
  std::unique_ptr<PadRowLayout2D> lay;
  std::unique_ptr<TPCModuleImpl> mod[2];
  std::unique_ptr<TPCParametersImpl> tpc[2];
  std::unique_ptr<CalorimeterParametersImpl> calo;
  std::unique_ptr<ZPlanarParametersImpl> z;
  std::unique_ptr<FTDParametersImpl> ftd;
  std::unique_ptr<SiPlanesParametersImpl> si;
  std::unique_ptr<TrackerPlanesParametersImpl> tp;
  std::vector<int> ids;
  std::string ans;                 // answer of the last query
  std::string merged;              // "" or result flag of the last merge
  u64 mask[2] = {0, 0};

  World(const std::string& d, u64 seed, int size) : dir(d) {
    GeoSpec s = makeSpec(seed, ~0ull, size);
    for (int k = 0; k < 2; ++k) { mask[k] = k == 0 ? genMaskOf(seed + 9) : 0; mgr[k].reset(build(makeSpec(seed + 7, mask[k], size))); }
    for (auto& p : par) p.reset(new GearParametersImpl);
    rect.reset(new RectangularPadRowLayout(-50, 50, 3));
    rect->addRow(1, 10, 4, 1, 8, 3.5, 0.2);
    vers.reset(new VersatileDiskRowLayout(100));
    vers->addRow(20, 5, 6, 0, 4, 5, 1);
    lay.reset(vers->clone());
    for (int k = 0; k < 2; ++k) { Rng r(mix64(seed + k)); mod[k].reset(buildModule(genModule(r, 3 + k, PadRowLayout2D::CARTESIAN, 1, true), PadRowLayout2D::CARTESIAN)); }
    for (auto& t : tpc) t.reset(new TPCParametersImpl(1000, PadRowLayout2D::CARTESIAN));
    calo.reset(new CalorimeterParametersImpl(1000, 2000, 8, 0.1));
    calo->layerLayout().positionLayer(1000, 3, 10, 10, 1);
    z.reset(new ZPlanarParametersImpl(1, 1, 2, 3, 0, 4));
    ftd.reset(new FTDParametersImpl);
    si.reset(new SiPlanesParametersImpl(1, 1, 2));
    tp.reset(new TrackerPlanesParametersImpl(1, 1, 2));
    dkPut(dir + "f0", emitXml(makeSpec(mix64(seed), 0x3ff & genMaskOf(seed), size), seed));
    dkPut(dir + "f1", emitXml(makeSpec(mix64(seed + 1), 0x3f00ff & genMaskOf(seed + 1), size), seed + 5));
  }
  static u64 genMaskOf(u64 seed) { Rng r(seed); return genMask(r, 40); }
  std::string path(int k) const { return dir + "f" + std::to_string(k); }

  Facts facts(bool all) const {
    Facts f;
    for (int k = 0; k < 2; ++k) if (mgr[k]) {
      Facts g = fingerprint(*mgr[k]);
      for (auto& x : g.v) f.v.emplace_back("mgr" + std::to_string(k) + "." + x.first, x.second);
      Scope q(f, "mgr" + std::to_string(k));
      fpStore(f, mgr[k]->getMeasurementSurfaceStore(), ids);
    }
    for (int k = 0; k < 2; ++k) { Scope q(f, "par" + std::to_string(k)); fpParams(f, *par[k]); }
    { Scope q(f, "rect"); fpPad(f, *rect, 3); f.i("rep", rect->getRepeatRowCount()); }
    { Scope q(f, "vers"); fpPad(f, *vers, 3); }
    { Scope q(f, "lay"); fpPad(f, *lay, 3); }
    for (int k = 0; k < 2; ++k) { Scope q(f, "mod" + std::to_string(k)); fpModule(f, *mod[k]); }
    for (int k = 0; k < 2; ++k) { Scope q(f, "tpc" + std::to_string(k)); fpTpc(f, *tpc[k]); }
    {
      Scope q(f, "solo");
      // the single parameter objects are read through a geometry of their own
      GearMgrImpl* m = new GearMgrImpl;
      m->setEcalBarrelParameters(calo.get()); m->setVXDParameters(z.get()); m->setFTDParameters(ftd.get()); m->setSiPlanesParameters(si.get()); m->setTrackerPlanesParameters(tp.get());
      Facts g = fingerprint(*m);      // m is left alone: it would delete what it was given
      for (auto& x : g.v) f.v.emplace_back("solo." + x.first, x.second);
    }
    f.sort();
    return f;
  }

  // one operation; memory faults show as exceptions
  void apply(const Item& it) {
    int k = (int)it.get("k"), a = (int)(it.get("a") & 1), b = (int)it.get("b");
    Rng r(sd(it));
    ans.clear();
    switch (k) {
    case K_NAME: mgr[a]->setDetectorName("a detector name that needs memory " + std::to_string(b)); break;
    case K_SEC: { GeoSpec s; { Unarm u; s = makeSpec(sd(it), 1ull << b, 2); } buildSection(mgr[a].get(), s, b); mask[a] |= 1ull << b; break; }
    case K_USER: {
      std::string key = keyOf(r);
      PSpec ps; { Unarm u; ps = genParams(r, 2, "x"); }
      std::unique_ptr<GearParametersImpl> p(new GearParametersImpl);
      buildParams(p.get(), ps);
      mgr[a]->setGearParameters(key, p.get());
      p.release();
      mask[a] |= 1ull << S_USER;
      break;
    }
    case K_MAT: {
      std::string key = keyOf(r);
      std::unique_ptr<SimpleMaterialImpl> p(new SimpleMaterialImpl(key, r.unit(), r.unit(), r.unit(), r.unit(), r.unit()));
      mgr[a]->registerSimpleMaterial(p.get());
      p.release();
      mask[a] |= 1ull << S_MAT;
      break;
    }
    case K_PAR: {
      GearParametersImpl* t = par[a].get();
      if (b == 1) t = mod[a].get(); else if (b == 2) t = tpc[a].get(); else if (b == 3) t = calo.get(); else if (b == 4) t = z.get(); else if (b == 5) t = tp.get();
      ParamOp p; { Unarm u; p = paramOp(sd(it)); }
      applyParam(*t, p);
      break;
    }
    case K_ROW: if (!repeated) rect->addRow(r.range(1, 4), r.range(1, 25), 1 + r.unit() * 3, 1 + r.unit() * 4, 5 + r.unit() * 5, r.unit() * 3, r.unit() * 0.5); break;
    case K_REPEAT: if (!repeated) { rect->repeatRows(r.range(2, 5)); repeated = true; } break;
    case K_VROW: vers->addRow(r.range(2, 40), 3 + r.unit() * 2, 4 + r.unit() * 3, (r.unit() - 0.5) * 2, 2 + r.unit(), 3 + r.unit(), r.range(1, 4)); break;
    case K_LAYER: {
      double v[16]; for (double& x : v) x = 1 + r.unit() * 50;
      switch (b) {
      case 0: calo->layerLayout().addLayer(v[0], v[1], v[2], v[3] * 0.01); break;
      case 1: z->addLayer(r.range(4, 12), v[0] * 0.1, 10 + v[1], v[2] * 0.1, v[3] * 0.01, v[4], v[5], v[6], 10 + v[1], v[8] * 0.1, v[9] * 0.01, v[10], v[11], v[12]); break;
      case 2: if (ftd->getFTDLayerLayout().getNLayers() < 5) ftd->addLayer(r.range(4, 16), 1 + (int)r.below(3), r.chance(50), (int)r.below(2), 0.2, v[0] * 0.1, v[1] * 0.01, 100 + v[2], 0.1, 1, 20 + v[3], 0.5, 20, 40, 30, v[4], 20 + v[3], 0.2, 20, 40, 30, v[5]); break;
      case 3: si->addLayer((int)r.below(20), v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], (int)r.below(20), v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], 100, 200, v[10], v[11], v[12], v[12], v[12], 1, 0, 0, 1, v[13]); break;
      default: {
        TrackerPlanesLayerImpl li;
        li.setID(r.range(0, 9)); li.setInfo("a layer with a long enough information text");
        int n = r.range(0, 3);
        for (int q = 0; q < n; ++q) if (r.chance(50)) li.addMaterialLayer(q, "material information text, long", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]); else li.addSensitiveLayer(q, "sensitive information text, long", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], 10, 20, v[10], v[11], v[12], v[13]);
        tp->addLayer(&li);
      }
      }
      break;
    }
    case K_NEWMOD: {
      ModSpec s; { Unarm u; s = genModule(r, r.range(0, 6), PadRowLayout2D::CARTESIAN, 2, true); s.hasZ = r.chance(40); s.z = r.chance(50) ? -700 : 700; }
      TPCModuleImpl* m = buildModule(s, PadRowLayout2D::CARTESIAN);
      swapIn(mod[a], m);
      break;
    }
    case K_SETMOD: {
      TPCModuleImpl& m = *mod[a];
      switch (b) {
      case 0: m.setOffset((r.unit() - 0.5) * 500, (r.unit() - 0.5) * 500); break;
      case 1: m.setAngle((r.unit() - 0.5) * 4); break;
      case 2: m.setBorderWidth(r.unit() * 4); break;
      case 3: m.setZPosition(r.chance(50) ? -700 : 700); break;
      default: m.setReadoutFrequency(r.unit() * 1e7);
      }
      break;
    }
    case K_ADDMOD: {
      TPCModuleImpl* m;
      { Unarm u; Rng q(sd(it, 1)); ModSpec s = genModule(q, q.range(0, 5), q.chance(90) ? PadRowLayout2D::CARTESIAN : PadRowLayout2D::POLAR, 2, true); s.hasZ = q.chance(60); s.z = q.chance(50) ? -700 : 700; m = buildModule(s, PadRowLayout2D::CARTESIAN); }
      std::unique_ptr<TPCModuleImpl> own(m);
      tpc[a]->addModule(m);
      own.release();
      break;
    }
    case K_TPC: {
      if (b == 0) { TPCParametersImpl* t; { Unarm u; } t = new TPCParametersImpl(500 + r.unit() * 500, PadRowLayout2D::CARTESIAN); swapIn(tpc[a], t); }
      else if (b == 1) { std::unique_ptr<PadRowLayout2D> p(rect->clone()); tpc[a]->setPadLayout(p.get()); p.release(); }
      else if (b == 2) tpc[a]->setMaxDriftLength(300 + r.unit() * 500);
      else tpc[a]->setReadoutFrequency(r.unit() * 1e7);
      break;
    }
    case K_COPY:
      switch (b) {
      case 0: { TPCModuleImpl* m = new TPCModuleImpl(*mod[1 - a]); swapIn(mod[a], m); break; }
      case 1: *mod[a] = *mod[1 - a]; break;
      case 2: { TPCParametersImpl* m = new TPCParametersImpl(*tpc[1 - a]); swapIn(tpc[a], m); break; }
      case 3: *tpc[a] = *tpc[1 - a]; break;
      case 4: { PadRowLayout2D* p = rect->clone(); swapIn(lay, p); break; }
      case 5: { PadRowLayout2D* p = vers->clone(); swapIn(lay, p); break; }
      case 6: { PadRowLayout2D* p = mod[a]->clone(); swapIn(lay, p); break; }
      case 7: { GearParametersImpl* p = new GearParametersImpl(*par[1 - a]); swapIn(par[a], p); break; }
      case 8: *par[a] = *par[1 - a]; break;
      case 9: { RectangularPadRowLayout* p = new RectangularPadRowLayout(*rect); swapIn(rect, p); break; }
      case 10: { RectangularPadRowLayout x(-10, 10, 0); *rect = *rect; x = *rect; break; }
      case 11: { VersatileDiskRowLayout x(7); x = *vers; std::unique_ptr<VersatileDiskRowLayout> p(new VersatileDiskRowLayout(x)); swapIn(vers, p.release()); break; }
      case 12: { FixedPadSizeDiskLayout q(100, 200, 5, 3, 6, 0, 0); FixedPadSizeDiskLayout c(q), e(100, 150, 5, 3, 4, 0, 0); e = q; PadRowLayout2D* p = e.clone(); swapIn(lay, p); break; }
      case 13: { FixedPadAngleDiskLayout q(100, 200, 6, 0, 2, 20); FixedPadAngleDiskLayout c(q), e(100, 150, 4, 0, 1, 10); e = q; PadRowLayout2D* p = e.clone(); swapIn(lay, p); break; }
      default: { PadRowLayout2D* p = lay->clone(); swapIn(lay, p); }
      }
      break;
    case K_LOAD: {
      GearXML x(path(b));
      GearMgr* m = x.createGearMgr();
      swapIn(mgr[a], m);
      mask[a] = ~0ull;
      break;
    }
    case K_SAVE: GearXML::createXMLFile(mgr[a].get(), path(b)); break;
    case K_MERGE: {
      std::string f1 = path(0), f2 = path(1), f3 = path(2);
      MergeXML x;
      bool ok = x.setFile1(f1) && x.setFile2(f2);
      if (ok) { x.makeDominant(1 + a); ok = x.mergeFiles(f3); }
      Unarm u; ans = ok ? "merged" : "refused";
      if (!ok && as.fired) throw std::bad_alloc();      // a reported failure
      break;
    }
    case K_ASK: {
      Ans x;
      if (b < 5) ask(x, *mgr[a], mask[a], sd(it));
      else if (b == 5) askPad(x, *rect, r); else if (b == 6) askPad(x, *vers, r); else if (b == 7) askPad(x, *lay, r); else if (b == 8) askModule(x, *mod[a], r); else askTpc(x, *tpc[a], r);
      Unarm u; ans = x.s;
      break;
    }
    case K_FILL: {
      SurfPlan p; { Unarm u; p = surfPlan(sd(it), 0, 20); }
      Filler fl(p);
      mgr[a]->getMeasurementSurfaceStore().FillStore(&fl);
      break;
    }
    }
  }
};
static Plan gen08(u64 seed, u64 idx, bool thorough) {
  Rng r(mix64(seed ^ mix64(idx + 0x108)));
  Plan p; p.seed = seed ^ idx;
  p.add("world").set("seed", (i64)(r.next() >> 20)).set("size", r.range(1, 2));
  int n = r.range(3, thorough ? 24 : 14);
  static const int w[] = {K_SEC, K_SEC, K_SEC, K_SEC, K_USER, K_MAT, K_PAR, K_PAR, K_ROW, K_REPEAT, K_VROW, K_LAYER, K_LAYER, K_LAYER, K_NEWMOD, K_SETMOD, K_SETMOD, K_ADDMOD, K_ADDMOD, K_ADDMOD, K_TPC, K_COPY, K_COPY, K_COPY, K_LOAD, K_LOAD, K_SAVE, K_SAVE, K_MERGE, K_ASK, K_ASK, K_FILL, K_NAME};
  for (int i = 0; i < n; ++i) {
    int k = w[r.below(sizeof w / sizeof *w)];
    Item it("op");
    int b = 0;
    switch (k) { case K_SEC: { do b = (int)r.below(S_USER); while (b == S_NAME); break; } case K_PAR: b = r.range(0, 5); break; case K_LAYER: case K_SETMOD: b = r.range(0, 4); break; case K_TPC: b = r.range(0, 3); break; case K_COPY: b = r.range(0, 14); break; case K_LOAD: b = r.range(0, 1); break; case K_SAVE: b = r.range(0, 1); break; case K_ASK: b = r.range(0, 9); break; default: b = r.range(0, 9); }
    it.set("k", k).set("a", r.range(0, 1)).set("b", b).set("seed", (i64)(r.next() >> 24));
    genMemFault(r, it, 75);
    if (r.chance(15)) it.set("first", 1);
    if (it.get("f", -1) >= 0) it.set("more", k == K_LOAD || k == K_SAVE || k == K_MERGE ? r.range(2, 7) : r.range(0, 2));
    p.items.push_back(it);
  }
  return p;
}
static Facts worldFacts(const World& w, const char* when) {
  Facts f;
  Res r = guarded([&] { f = w.facts(true); });
  if (!r.ok) fail("query-throws", fmt("%s: reading the objects ended with %s", when, r.exc.c_str()));
  return f;
}
static void run08(const Plan& p) {
  const Item* w = p.find("world");
  if (!w) return;
  phase([&] {
    dkReset();
    World W("/sim/w/", (u64)w->get("seed"), (int)w->get("size", 1)), T("/sim/t/", (u64)w->get("seed"), (int)w->get("size", 1));
    std::set<int> ids;
    for (auto& it : p.items) if (it.kind == "op" && it.get("k") == K_FILL) for (int i : surfPlan(sd(it), 0, 20).ids) ids.insert(i);
    W.ids = T.ids = std::vector<int>(ids.begin(), ids.end());
    Facts wf = worldFacts(W, "start"), tf = worldFacts(T, "start");
    std::string d = diff(tf, wf, EXACT);
    if (!d.empty()) fail("twins-differ", "two worlds built alike: " + d);
    u64 h = 0;
    for (auto& it : p.items) {
      if (it.kind != "op") continue;
      int k = (int)it.get("k");
      if (k < 0 || k >= K_N) continue;
      long clean = 0;
      Res tr;
      bool first = it.get("first") != 0;
      if (first) {
        // memory needed, measured in a process of its own
        sh->num[0] = 0;
        phase([&] { armAlloc(-1); Res q = guarded([&] { W.apply(it); }); sh->num[0] = (u64)as.count; });
        clean = (long)sh->num[0];
      } else {
        armAlloc(-1);
        tr = guarded([&] { T.apply(it); });
        clean = as.count;
      }
      std::string ctx;
      Res wr;
      std::string wans;
      bool fired = false;
      Rng more(sd(it, 77));
      int tries = 1 + (it.get("f", -1) >= 0 ? (int)it.get("more") : 0);
      for (int t = 0; t < tries; ++t) {
        Item at = it;
        if (t) at.set("f", more.range(0, 1000));
        arm(at, clean);
        wr = guarded([&] { W.apply(it); });
        bool now = as.fired > 0;
        wans = W.ans;
        armAlloc(-1);
        ctx = fmt("%s (a=%lld b=%lld) with %ld allocations, failing %lld permille for %lld", kName[k], (long long)it.get("a"), (long long)it.get("b"), clean, (long long)at.get("f", -1), (long long)at.get("fn", 1));
        traceEv(kName[k], (u64)clean, now);
        if (!now) break;                       // nothing failed: the operation is done
        fired = true;
        cnt("fault.alloc"); cnt((std::string("oom.") + kName[k]).c_str());
        sh->nontrivial = 1;
        if (wr.ok) { cnt("oom.absorbed"); break; }
        cnt("oom.reported");
        Facts after = worldFacts(W, ("after the failed " + ctx).c_str());
        d = diff(wf, after, EXACT);
        if (!d.empty()) fail("failed-op-changed-state", ctx + ": reported " + wr.exc + " but changed: " + d);
      }
      if (fired && !wr.ok) {
        // what the retry gives
        wr = guarded([&] { W.apply(it); });
        wans = W.ans;
        cnt("oom.retried");
      }
      if (first) tr = guarded([&] { T.apply(it); });
      cnt((std::string("op.") + kName[k]).c_str());
      if (tr.oom) fail("spurious-bad-alloc", ctx + ": ran out of memory without a failure being injected");
      tf = worldFacts(T, ctx.c_str());
      if (wr.ok != tr.ok || wr.exc.substr(0, wr.exc.find(' ')) != tr.exc.substr(0, tr.exc.find(' '))) fail("outcome-differs", ctx + (fired ? ": after the failure" : "") + ": gives " + (wr.ok ? "success" : wr.exc) + ", an undisturbed twin gives " + (tr.ok ? "success" : tr.exc));
      if (wans != T.ans) fail("answer-differs", ctx + ": answers " + wans.substr(0, 300) + ", an undisturbed twin answers " + T.ans.substr(0, 300));
      wf = worldFacts(W, ctx.c_str());
      d = diff(tf, wf, EXACT);
      if (!d.empty()) fail("state-differs", ctx + (fired ? ": memory ran out, then" : ":") + " undisturbed twin vs this: " + d);
      if (tr.ok && k == K_SAVE && dkGet(W.path((int)it.get("b"))) != dkGet(T.path((int)it.get("b")))) fail("file-differs", ctx + ": the stored file differs from the twin's");
      if (tr.ok && k == K_MERGE && T.ans == "merged" && dkGet(W.path(2)) != dkGet(T.path(2))) fail("file-differs", ctx + ": the merged file differs from the twin's");
      h = mix64(h ^ wf.hash() ^ (u64)k);
    }
    state(h);
    trace(h);
  });
}

// ------------------------------------------------------------------ C09: the registry against a reference store
static void resetSection(GeoSpec& g, const GeoSpec& s, int sec) {
  if (sec == S_NAME) { g.hasName = s.hasName; g.name = s.name; }
  else if (sec == S_BFIELD) { g.hasB = s.hasB; for (int i = 0; i < 3; ++i) g.b[i] = s.b[i]; g.bp = s.bp; }
  else if (sec == S_TPC) g.tpc = s.tpc;
  else if (sec >= S_CALO && sec < S_CALO + 12) g.calo[sec - S_CALO] = s.calo[sec - S_CALO];
  else if (sec >= S_VXD && sec <= S_SET) g.z[sec - S_VXD] = s.z[sec - S_VXD];
  else if (sec == S_FTD) g.ftd = s.ftd;
  else if (sec == S_TP) g.tp = s.tp;
  else if (sec == S_SI) g.si = s.si;
}
static PSpec* sectionParams(GeoSpec& g, int sec) {
  if (sec == S_BFIELD) return g.hasB ? &g.bp : nullptr;
  if (sec == S_TPC) return g.tpc.on ? &g.tpc.p : nullptr;
  if (sec >= S_CALO && sec < S_CALO + 12) return g.calo[sec - S_CALO].on ? &g.calo[sec - S_CALO].p : nullptr;
  if (sec >= S_VXD && sec <= S_SET) return g.z[sec - S_VXD].on ? &g.z[sec - S_VXD].p : nullptr;
  if (sec == S_FTD) return g.ftd.on ? &g.ftd.p : nullptr;
  if (sec == S_TP) return g.tp.on ? &g.tp.p : nullptr;
  if (sec == S_SI) return g.si.on ? &g.si.p : nullptr;
  return nullptr;
}
static const CalorimeterParameters& caloOf(const GearMgr& m, int i) {
  switch (i) {
  case 0: return m.getEcalBarrelParameters(); case 1: return m.getEcalEndcapParameters(); case 2: return m.getEcalPlugParameters(); case 3: return m.getYokeBarrelParameters();
  case 4: return m.getYokeEndcapParameters(); case 5: return m.getYokePlugParameters(); case 6: return m.getHcalBarrelParameters(); case 7: return m.getHcalEndcapParameters();
  case 8: return m.getHcalRingParameters(); case 9: return m.getLcalParameters(); case 10: return m.getLHcalParameters(); default: return m.getBeamCalParameters();
  }
}
static GearParametersImpl* sectionObject(const GearMgr& m, int sec) {
  const GearParameters* p = nullptr;
  if (sec == S_BFIELD) p = &m.getBField();
  else if (sec == S_TPC) p = &m.getTPCParameters();
  else if (sec >= S_CALO && sec < S_CALO + 12) p = &caloOf(m, sec - S_CALO);
  else if (sec == S_VXD) p = &m.getVXDParameters();
  else if (sec == S_SIT) p = &m.getSITParameters();
  else if (sec == S_SET) p = &m.getSETParameters();
  else if (sec == S_FTD) p = &m.getFTDParameters();
  else if (sec == S_TP) p = &m.getTrackerPlanesParameters();
  else if (sec == S_SI) p = &m.getSiPlanesParameters();
  return const_cast<GearParametersImpl*>(dynamic_cast<const GearParametersImpl*>(p));
}
enum { R_SEC, R_NAME, R_USER, R_AGAIN, R_MAT, R_PAR, R_UPAR, R_ASK, R_LOAD, R_RELOADSAVE, R_NULL, R_MATAGAIN, R_POINT, R_DIST, R_N };
static const char* rName[R_N] = {"store-section", "set-name", "store-user", "store-user-again", "register-material", "section-parameter", "user-parameter", "query", "load", "save", "store-nothing", "register-again", "set-point-properties", "set-distance-properties"};
struct PointStub : GearPointProperties {
  std::string s = "stub";
  gear::long64 getCellID(const Vector3D&) const { return 0; }
  const std::string& getMaterialName(const Vector3D&) const { return s; }
  double getDensity(const Vector3D&) const { return 0; }
  double getTemperature(const Vector3D&) const { return 0; }
  double getPressure(const Vector3D&) const { return 0; }
  double getRadlen(const Vector3D&) const { return 0; }
  double getIntlen(const Vector3D&) const { return 0; }
  Vector3D getLocalPosition(const Vector3D& p) const { return p; }
  Vector3D getB(const Vector3D& p) const { return p; }
  Vector3D getE(const Vector3D& p) const { return p; }
  std::vector<std::string> getListOfLogicalVolumes(const Vector3D&) const { return {}; }
  std::vector<std::string> getListOfPhysicalVolumes(const Vector3D&) const { return {}; }
  std::string getRegion(const Vector3D&) const { return s; }
  bool isTracker(const Vector3D&) const { return false; }
  bool isCalorimeter(const Vector3D&) const { return false; }
};
struct DistStub : GearDistanceProperties {
  std::vector<std::string> n;
  std::vector<double> d;
  const std::vector<std::string>& getMaterialNames(const Vector3D&, const Vector3D&) const { return n; }
  const std::vector<double>& getMaterialThicknesses(const Vector3D&, const Vector3D&) const { return d; }
  double getNRadlen(const Vector3D&, const Vector3D&) const { return 0; }
  double getNIntlen(const Vector3D&, const Vector3D&) const { return 0; }
  double getBdL(const Vector3D&, const Vector3D&) const { return 0; }
  double getEdL(const Vector3D&, const Vector3D&) const { return 0; }
};
static Plan gen09(u64 seed, u64 idx, bool thorough) {
  Rng r(mix64(seed ^ mix64(idx + 0x109)));
  Plan p; p.seed = seed ^ idx;
  int n = r.range(4, thorough ? 40 : 22);
  int few = r.range(2, S_USER - 1);         // slots this history is about
  int slot[S_N], ns = 0;
  for (int i = 0; i < few; ++i) slot[ns++] = (int)r.below(S_USER);
  static const int w[] = {R_SEC, R_SEC, R_SEC, R_SEC, R_NAME, R_USER, R_USER, R_USER, R_AGAIN, R_MAT, R_MAT, R_MAT, R_PAR, R_PAR, R_UPAR, R_UPAR, R_ASK, R_ASK, R_RELOADSAVE, R_NULL, R_MATAGAIN, R_POINT, R_DIST};
  for (int i = 0; i < n; ++i) {
    Item it("op");
    int k = w[r.below(sizeof w / sizeof *w)];
    it.set("k", k).set("a", r.range(0, 1)).set("b", k == R_SEC || k == R_PAR ? slot[r.below(ns)] : r.range(0, 5)).set("seed", (i64)(r.next() >> 24));
    genMemFault(r, it, 35);
    p.items.push_back(it);
  }
  return p;
}
static void run09(const Plan& p) {
  phase([&] {
    dkReset();
    std::unique_ptr<GearMgrImpl> m[2];
    for (auto& x : m) x.reset(new GearMgrImpl);
    GeoSpec g[2] = {makeSpec(1, 0, 1), makeSpec(1, 0, 1)};
    std::map<std::string, GearParametersImpl*> user[2];
    std::map<std::string, SimpleMaterialImpl*> mats[2];
    const GearPointProperties* pp[2] = {nullptr, nullptr};
    const GearDistanceProperties* dp[2] = {nullptr, nullptr};
    u64 h = 0;
    int step = 0;
    for (auto& it : p.items) {
      if (it.kind != "op") continue;
      int k = (int)it.get("k"), a = (int)(it.get("a") & 1), b = (int)it.get("b");
      Rng r(sd(it));
      ++step;
      std::string what = rName[k];
      GeoSpec s;
      PSpec ps;
      ParamOp po;
      std::string key = keyOf(r);
      if (k == R_USER && r.chance(6)) key.clear();
      // the operation, and the same operation on the reference store
      std::function<void()> lib = [] {}, ref = [] {};
      bool refuse = false;
      switch (k) {
      case R_SEC:
        if (b == S_NAME) b = S_BFIELD;
        s = makeSpec(sd(it), 1ull << b, 2);
        what += fmt(" %d", b);
        lib = [&] { buildSection(m[a].get(), s, b); };
        ref = [&] { resetSection(g[a], s, b); };
        break;
      case R_NAME: lib = [&] { m[a]->setDetectorName(key); }; ref = [&] { g[a].hasName = true; g[a].name = key; }; break;
      case R_USER: {
        ps = genParams(r, 2, "x");
        GearParametersImpl* made = nullptr;
        lib = [&] { std::unique_ptr<GearParametersImpl> q(new GearParametersImpl); buildParams(q.get(), ps); m[a]->setGearParameters(key, q.get()); Unarm u; user[a][key] = q.release(); };
        ref = [&] { upsert(g[a].user, key, ps); };
        what += " '" + key + "'";
        break;
      }
      case R_AGAIN: if (!user[a].count(key)) continue; lib = [&] { m[a]->setGearParameters(key, user[a][key]); }; what += " '" + key + "'"; break;
      case R_MAT: {
        MatSpec ms; ms.name = key; for (double& v : ms.v) v = 0.5 + r.unit();
        for (auto& x : g[a].mat) if (x.name == key) refuse = true;
        lib = [&, ms] { std::unique_ptr<SimpleMaterialImpl> q(new SimpleMaterialImpl(ms.name, ms.v[0], ms.v[1], ms.v[2], ms.v[3], ms.v[4])); m[a]->registerSimpleMaterial(q.get()); Unarm u; mats[a][ms.name] = q.release(); };
        ref = [&, ms] { g[a].mat.push_back(ms); };
        what += " '" + key + "'";
        break;
      }
      case R_NULL: lib = [&] { m[a]->setGearParameters(key, nullptr); }; what += " '" + key + "'"; break;      // documented to be ignored
      case R_MATAGAIN: if (!mats[a].count(key)) continue; refuse = true; lib = [&] { m[a]->registerSimpleMaterial(mats[a][key]); }; what += " '" + key + "'"; break;
      case R_PAR: {
        PSpec* sp = sectionParams(g[a], b);
        if (!sp) continue;
        po = paramOp(sd(it, 3));
        GearParametersImpl* o = nullptr;
        Res q = guarded([&] { o = sectionObject(*m[a], b); });
        if (!q.ok || !o) fail("stored-not-found", fmt("step %d: the stored section %d cannot be read: %s", step, b, q.exc.c_str()));
        lib = [&, o] { applyParam(*o, po); };
        ref = [&, sp] { modelParam(*sp, po); };
        what += fmt(" %d type %d '%s'", b, po.type, po.key.c_str());
        break;
      }
      case R_UPAR: {
        if (!user[a].count(key)) continue;
        po = paramOp(sd(it, 3));
        lib = [&] { applyParam(*user[a][key], po); };
        ref = [&] { for (auto& x : g[a].user) if (x.first == key) modelParam(x.second, po); };
        what += " '" + key + "' '" + po.key + "'";
        break;
      }
      case R_POINT: { PointStub* q = r.chance(15) ? nullptr : new PointStub; lib = [&, q] { m[a]->setPointProperties(q); }; ref = [&, q] { pp[a] = q; }; break; }
      case R_DIST: { DistStub* q = r.chance(15) ? nullptr : new DistStub; lib = [&, q] { m[a]->setDistanceProperties(q); }; ref = [&, q] { dp[a] = q; }; break; }
      case R_ASK: lib = [&] { Ans x; ask(x, *m[a], ~0ull, sd(it)); }; break;
      case R_RELOADSAVE: lib = [&] { GearXML::createXMLFile(m[a].get(), "/sim/out"); }; break;
      default: continue;
      }
      long clean = 0;
      if (it.get("f", -1) >= 0) {
        sh->num[0] = 0;
        phase([&] { armAlloc(-1); Res q = guarded(lib); sh->num[0] = (u64)as.count; });
        clean = (long)sh->num[0];
      }
      arm(it, clean);
      Res q = guarded(lib);
      bool fired = as.fired > 0;
      armAlloc(-1);
      if (fired) { cnt("fault.alloc"); sh->nontrivial = 1; }
      cnt((std::string("op.") + rName[k]).c_str());
      traceEv(rName[k], (u64)b, fired);
      if (refuse) {
        cnt("refused"); sh->nontrivial = 1;
        if (q.ok) fail("duplicate-accepted", fmt("step %d %s: a second registration was accepted", step, what.c_str()));
        if (!fired && !q.gearExc) fail("wrong-error", fmt("step %d %s: refused with %s, not with a gear::Exception", step, what.c_str(), q.exc.c_str()));
      } else if (!fired && !q.ok) fail("operation-refused", fmt("step %d %s: ended with %s", step, what.c_str(), q.exc.c_str()));
      if (q.ok) ref();
      for (int x = 0; x < 2; ++x) {
        probeUnknown = mix64(p.seed + step);
        Facts e = expect(g[x]), f = answers(*m[x], false);
        probeUnknown = 0;
        std::string d = diff(e, f, TOL, true);
        if (!d.empty()) fail("registry-differs", fmt("step %d %s on geometry %d%s, looking at geometry %d: expected vs found: %s", step, what.c_str(), a, fired ? " (memory ran out)" : "", x, d.c_str()));
        h = mix64(h ^ f.hash());
      }
      // key lists name exactly what is stored
      for (int x = 0; x < 2; ++x) {
        std::set<std::string> want, got; 
        for (auto& u : g[x].user) want.insert(u.first);
        const StringVec& v = m[x]->getGearParameterKeys(); got.insert(v.begin(), v.end());
        if (want != got || v.size() != want.size()) fail("keys-differ", fmt("step %d %s: the list of stored parameter sets is wrong", step, what.c_str()));
        want.clear(); got.clear();
        for (auto& u : g[x].mat) want.insert(u.name);
        const StringVec& w = m[x]->getMaterialNames(); got.insert(w.begin(), w.end());
        if (want != got || w.size() != want.size()) fail("keys-differ", fmt("step %d %s: the list of materials is wrong", step, what.c_str()));
        for (int t = 0; t < 12; ++t) {
          static const char* names[] = {"a", "b", "Key_3", "long parameter name that does not fit into a small string", "e", "zz", "ab", "Key_", "", "Key", "long parameter name", "zzz"};
          std::string nk = names[t];
          bool have = false; for (auto& u : g[x].user) if (u.first == nk) have = true;
          Res q1 = guarded([&] { m[x]->getGearParameters(nk); });
          if (q1.ok != have) fail("lookup-differs", fmt("step %d %s: looking up parameter set '%s' gives %s", step, what.c_str(), nk.c_str(), q1.ok ? "one that was never stored" : q1.exc.c_str()));
          if (!have && q1.exc.compare(0, 31, "gear::UnknownParameterException") != 0) fail("wrong-error", fmt("step %d: unknown parameter set reported as %s", step, q1.exc.c_str()));
          have = false; for (auto& u : g[x].mat) if (u.name == nk) have = true;
          q1 = guarded([&] { m[x]->getSimpleMaterial(nk); });
          if (q1.ok != have) fail("lookup-differs", fmt("step %d %s: looking up material '%s' gives %s", step, what.c_str(), nk.c_str(), q1.ok ? "one that was never stored" : q1.exc.c_str()));
          if (!have && q1.exc.compare(0, 31, "gear::UnknownParameterException") != 0) fail("wrong-error", fmt("step %d: unknown material reported as %s", step, q1.exc.c_str()));
        }
        const GearPointProperties* gp = nullptr; const GearDistanceProperties* gd = nullptr;
        Res qp = guarded([&] { gp = &m[x]->getPointProperties(); }), qd = guarded([&] { gd = &m[x]->getDistanceProperties(); });
        if (gp != pp[x] || gd != dp[x]) fail("lookup-differs", fmt("step %d %s: the %s properties of geometry %d are not the ones set last", step, what.c_str(), gp != pp[x] ? "point" : "distance", x));
        if ((!gp && qp.exc.compare(0, 31, "gear::UnknownParameterException") != 0) || (!gd && qd.exc.compare(0, 31, "gear::UnknownParameterException") != 0)) fail("wrong-error", fmt("step %d %s: properties that are not set are reported as %s / %s", step, what.c_str(), qp.exc.c_str(), qd.exc.c_str()));
        if (!g[x].hasName) { Res q1 = guarded([&] { std::string n = m[x]->getDetectorName(); }); if (q1.ok || q1.exc.compare(0, 31, "gear::UnknownParameterException") != 0) fail("wrong-error", fmt("step %d: the name that was never set gives %s", step, q1.ok ? "an answer" : q1.exc.c_str())); }
      }
    }
    state(h); trace(h);
    Res q = guarded([&] { for (auto& x : m) x.reset(); });
    if (!q.ok) fail("destroy-throws", "deleting the geometries ended with " + q.exc);
  });
}

// ------------------------------------------------------------------ C10: a segmented readout assembly
struct ModelTpc { TpcSpec s; };
static void configure(TPCModuleImpl& m, const ModSpec& s, int step) {
  switch (step) { case 0: m.setOffset(s.ox, s.oy); break; case 1: if (s.hasZ) m.setZPosition(s.z); break; case 2: m.setAngle(s.angle); break; case 3: m.setBorderWidth(s.border); break; default: m.setReadoutFrequency(s.freq); }
}
static ModSpec modOf(const Item& it, int ctype, double zn, double zp, int halves, int ids) {
  Rng r(sd(it, 11));
  ModSpec s = genModule(r, r.range(0, ids), ctype, ids > 7 ? 1 : 2, true);
  s.hasZ = halves != 0;
  if (halves == 4) s.hasZ = r.chance(60);
  if (s.hasZ) s.z = halves == 1 ? zn : halves == 2 ? zp : r.chance(50) ? zn : zp;
  return s;
}
enum { A_ADD, A_DUP, A_WRONG, A_PAD, A_COPY, A_ASSIGN, A_SELF, A_PARAM, A_DRIFT, A_VEL, A_QUERY, A_MODCOPY, A_FREQ, A_SELFMOD, A_N };
static const char* aName[A_N] = {"add", "add-duplicate", "add-wrong", "set-layout", "copy", "assign", "self-assign", "parameter", "drift", "velocity", "query", "module-copy", "frequency", "module-self-assign"};
static Plan gen10(u64 seed, u64 idx, bool thorough) {
  Rng r(mix64(seed ^ mix64(idx + 0x110)));
  Plan p; p.seed = seed ^ idx;
  p.add("tpc").set("ctype", r.chance(50) ? 1 : 2).set("drift", r.range(100, 3000)).set("zn", r.chance(30) ? 0 : -(i64)r.range(0, 2000)).set("zp", r.range(1, 2000)).set("halves", r.range(0, 4));
  int n = r.range(3, thorough ? 26 : 14);
  bool many = r.chance(thorough ? 15 : 8);      // an assembly of many modules
  if (many) { p.items.back().set("ids", r.range(20, 200)); n += r.range(8, thorough ? 60 : 20); }
  static const int w[] = {A_ADD, A_ADD, A_ADD, A_ADD, A_ADD, A_ADD, A_DUP, A_WRONG, A_PAD, A_COPY, A_ASSIGN, A_SELF, A_PARAM, A_DRIFT, A_VEL, A_QUERY, A_MODCOPY, A_MODCOPY, A_FREQ, A_SELFMOD};
  for (int i = 0; i < n; ++i) {
    Item it("op");
    it.set("k", many && r.chance(60) ? A_ADD : w[r.below(sizeof w / sizeof *w)]).set("a", many ? r.chance(20) : r.range(0, 1)).set("b", r.range(0, 9)).set("seed", (i64)(r.next() >> 24));
    genMemFault(r, it, many ? 20 : 40);
    p.items.push_back(it);
  }
  return p;
}
static Facts tpcFacts(const TPCParameters& t, const char* when) {
  Facts f;
  Res r = guarded([&] { fpTpc(f, t); });
  if (!r.ok) fail("query-throws", fmt("%s: reading the assembly ended with %s", when, r.exc.c_str()));
  f.sort();
  return f;
}
static Facts modFacts(const TPCModule& t, const char* when) {
  Facts f;
  Res r = guarded([&] { fpModule(f, t); });
  if (!r.ok) fail("query-throws", fmt("%s: reading the module ended with %s", when, r.exc.c_str()));
  f.sort();
  return f;
}
// what must hold of an assembly whatever its history, from its modules alone
// a pad lies where it says it does, next to the pads it calls its neighbours
static void padRules(const TPCModule& m, const std::vector<int>& row, int pad, const std::string& ctx) {
  const PadRowLayout2D& l = m.getLocalPadLayout();
  bool lpolar = l.getCoordinateType() == PadRowLayout2D::POLAR;
  Vector2D lc = l.getPadCenter(pad);
  auto at = [&](double dx, double dy) { return lpolar ? m.localToGlobal(lc[0] + dy, lc[1] + dx) : m.localToGlobal(lc[0] + dx, lc[1] + dy); };
  auto bad = [&](const char* what, const std::string& how) { Unarm u; fail(what, fmt("%s: pad %d of module %d ", ctx.c_str(), pad, m.getModuleID()) + how); };
  double hw = l.getPadWidth(pad) / 2, hh = l.getPadHeight(pad) / 2, hp = l.getPadPitch(pad) / 2, hr = l.getRowHeight(l.getRowNumber(pad)) / 2;
  for (int cx = -1; cx <= 1; ++cx) for (int cy = -1; cy <= 1; ++cy) {
    Vector2D q = at(0.98 * hw * cx, 0.98 * hh * cy);
    if (!m.isInsidePad(q[0], q[1], pad)) bad("pad-place", fmt("does not contain (%.9g,%.9g), which is within its size of its middle [layout %d, local middle (%.9g,%.9g), width %.9g height %.9g pitch %.9g]", q[0], q[1], (int)l.getPadLayoutType(), lc[0], lc[1], 2 * hw, 2 * hh, 2 * hp));
    if (m.getDistanceToPad(q[0], q[1], pad) > 1e-6) bad("pad-place", fmt("contains (%.9g,%.9g) and is %.9g away from it", q[0], q[1], m.getDistanceToPad(q[0], q[1], pad)));
    if (!cx && !cy) continue;
    q = at(1.02 * hp * cx, 1.02 * hr * cy);
    bool round = lpolar && !cy && 2.05 * hp > 2 * M_PI;      // comes back to the pad from the other side
    if (!round && m.isInsidePad(q[0], q[1], pad)) bad("pad-place", fmt("contains (%.9g,%.9g), which is beyond its pitch from its middle", q[0], q[1]));
    double a = 3.25 * std::abs(cx), b = 1.75 * std::abs(cy);
    if (lpolar ? cx == 0 : true) {
      q = at((hp + 3.25) * cx, (hr + 1.75) * cy);
      double d = m.getDistanceToPad(q[0], q[1], pad), e = std::sqrt(a * a + b * b);
      // to the pad with or without the gap around it
      a = cx ? hp + 3.25 - hw : 0, b = cy ? hr + 1.75 - hh : 0;
      double e2 = std::sqrt(a * a + b * b);
      if (std::fabs(d - e) > 1e-6 && std::fabs(d - e2) > 1e-6) bad("pad-place", fmt("is %.9g away from (%.9g,%.9g) by its size and says %.9g", e, q[0], q[1], d));
    }
  }
  int n = (int)row.size(), k = m.getPadNumber(pad), r = m.getRowNumber(pad);
  for (int right = 0; right < 2; ++right) {
    int nb = -1;
    try { nb = right ? m.getRightNeighbour(pad) : m.getLeftNeighbour(pad); } catch (const gear::Exception&) { nb = -1; }
    bool edge = right == lpolar ? k == 0 : k == n - 1;      // right is towards smaller angles
    double span = lpolar ? l.getPlaneExtent()[3] - l.getPlaneExtent()[2] : 0;
    if (edge && nb >= 0 && span < 2 * M_PI - 1e-5) bad("pad-neighbours", fmt("(number %d of %d) at the border has a neighbour beyond it, %d", k, n, nb));
    if (edge && nb < 0 && std::fabs(span - 2 * M_PI) < 5e-7 && l.getPadLayoutImplType() != PadRowLayout2D::VERSATILEDISKROWLAYOUT) bad("pad-neighbours", fmt("(number %d of %d) has no neighbour in a full circle", k, n));
    if (nb < 0) { if (!edge) bad("pad-neighbours", right ? "has none on its right inside its row" : "has none on its left inside its row"); continue; }
    int nk = m.getPadNumber(nb);
    if (m.getRowNumber(nb) != r || nk != (k + (right == lpolar ? n - 1 : 1)) % n) bad("pad-neighbours", fmt("(number %d of %d in row %d) calls number %d in row %d its neighbour", k, n, r, nk, m.getRowNumber(nb)));
    int back = right ? m.getLeftNeighbour(nb) : m.getRightNeighbour(nb);
    if (back != pad) bad("pad-neighbours", fmt("has the neighbour %d, which has %d on that side", nb, back));
  }
}
// the pad called nearest to a point is a pad of the module, and the one that has the point if there is one
static void pointRules(const TPCModule& m, double a, double b, const std::string& ctx) {
  int np = m.getNearestPad(a, b), row = np >> 16;
  auto bad = [&](const std::string& how) { Unarm u; fail("pad-nearest", fmt("%s: at (%.17g,%.17g), in its own layout %d (%.17g,%.17g), module %d ", ctx.c_str(), a, b, m.getLocalPadLayout().getPadLayoutImplType(), m.globalToLocal(a, b)[0], m.globalToLocal(a, b)[1], m.getModuleID()) + how); };
  bool have = false;
  if (row >= 0 && row < m.getNRows()) for (int q : m.getPadsInRow(row)) if (q == np) have = true;
  if (!have) bad(fmt("calls %d its nearest pad, which it has not", np));
  double d = m.getDistanceToPad(a, b, np);
  bool in = m.isInsidePad(a, b);
  if (in && !m.isInsidePad(a, b, np)) bad(fmt("has the point in a pad, but not in the nearest one, %d", np));
  if (in && (!m.isInsideModule(a, b) || m.getDistanceToModule(a, b) > 1e-6)) bad(fmt("has the point in a pad and is %.9g away from it", m.getDistanceToModule(a, b)));
  for (int k = 0; k < m.getNRows(); ++k) {
    const std::vector<int>& pads = m.getPadsInRow(k);
    for (size_t i = 0; i < pads.size(); i += 1 + pads.size() / 12) {
      double e = m.getDistanceToPad(a, b, pads[i]);
      // (beyond its pads a module may content itself with one close by)
      if (e < 1e-9 && d > 1e-6) bad(fmt("calls pad %d nearest, which is %.9g away, and pad %d is %.9g away", np, d, pads[i], e));
      if (!in && e < 1e-9 && m.isInsidePad(a, b, pads[i]) && d > 1e-9) bad(fmt("has the point in pad %d and denies it", pads[i]));
    }
  }
}
static void assemblyRules(const TPCParameters& t, const TpcSpec& s, const std::string& ctx) {
  Res res = guarded([&] {
    const std::vector<TPCModule*>& ms = t.getModules();
    if (ms.size() != s.m.size() || t.getNModules() != (int)s.m.size()) { Unarm u; fail("module-count", fmt("%s: %zu modules accepted, %zu contained", ctx.c_str(), s.m.size(), ms.size())); }
    double e[4] = {1e99, -1e99, 1e99, -1e99};
    for (size_t i = 0; i < ms.size(); ++i) {
      const TPCModule& m = *ms[i];
      if (m.getModuleID() != s.m[i].id || &t.getModule(s.m[i].id) != &m) { Unarm u; fail("module-identity", fmt("%s: module %zu has identity %d, added was %d", ctx.c_str(), i, m.getModuleID(), s.m[i].id)); }
      const DoubleVec& x = m.getModuleExtent();
      for (int k = 0; k < 4; k += 2) { if (x[k] < e[k]) e[k] = x[k]; if (x[k + 1] > e[k + 1]) e[k + 1] = x[k + 1]; }
    }
    if (!ms.empty()) {
      const DoubleVec& x = t.getPlaneExtent();
      for (int k = 0; k < 4; ++k) if (x[k] != e[k]) { Unarm u; fail("extent", fmt("%s: extent[%d] is %.17g, that of the modules %.17g", ctx.c_str(), k, x[k], e[k])); }
    }
    for (int id = -1; id < 9; ++id) {
      bool have = false; for (auto& q : s.m) if (q.id == id) have = true;
      bool got = true;
      try { if (t.getModule(id).getModuleID() != id) got = false; } catch (const gear::Exception&) { got = false; }
      if (have != got) { Unarm u; fail("module-identity", fmt("%s: looking up module %d %s", ctx.c_str(), id, have ? "does not give it" : "gives one that was never accepted")); }
    }
    for (size_t i = 0; i < ms.size(); ++i) {
      const TPCModule& m = *ms[i];
      if (m.getNRows() <= 0) continue;
      const std::vector<int>& pads = m.getPadsInRow(m.getNRows() / 2);
      if (pads.empty()) continue;
      // the module contains its pads, and its extents cover them
      const PadRowLayout2D& l = m.getLocalPadLayout();
      bool polar = m.getCoordinateType() == PadRowLayout2D::POLAR, lpolar = l.getCoordinateType() == PadRowLayout2D::POLAR;
      const DoubleVec *ext[2] = {&m.getPlaneExtent(), &m.getModuleExtent()};
      for (int w = 0; w < 3; ++w) {
        const std::vector<int>& row = m.getPadsInRow(w == 0 ? 0 : w == 1 ? m.getNRows() - 1 : m.getNRows() / 2);
        if (row.empty()) continue;
        for (int pad : {row.front(), row[row.size() / 2], row.back()}) {
          Vector2D q = m.getPadCenter(pad), lc = l.getPadCenter(pad);
          if (!m.isInsideModule(q[0], q[1])) { Unarm u; fail("pad-outside-module", fmt("%s: module %d denies the middle (%.9g,%.9g) of its pad %d", ctx.c_str(), m.getModuleID(), q[0], q[1], pad)); }
          if (m.getNearestPad(q[0], q[1]) != pad) { Unarm u; fail("pad-not-found", fmt("%s: in module %d, another pad than %d is nearest to its middle (%.9g,%.9g)", ctx.c_str(), m.getModuleID(), pad, q[0], q[1])); }
          padRules(m, row, pad, ctx);
          for (int cx = -1; cx <= 1; ++cx) for (int cy = -1; cy <= 1; ++cy) {
            double dx = l.getPadWidth(pad) / 2 * cx, dy = l.getPadHeight(pad) / 2 * cy;
            q = lpolar ? m.localToGlobal(lc[0] + dy, lc[1] + dx) : m.localToGlobal(lc[0] + dx, lc[1] + dy);
            for (int k = 0; k < 2; ++k) {
              const DoubleVec& x = *ext[k];
              const double eps = 1e-6;
              bool in = q[0] > x[0] - eps && q[0] < x[1] + eps;
              if (!polar) in = in && q[1] > x[2] - eps && q[1] < x[3] + eps;
              else if (q[0] > eps) {      // an angle, in any turn
                double p = std::fmod(q[1] - x[2] + eps, 2 * M_PI);
                if (p < 0) p += 2 * M_PI;
                in = in && p < x[3] - x[2] + 2 * eps;
              }
              if (!in) { Unarm u; fail("extent-cuts-pads", fmt("%s: pad %d of module %d reaches to (%.9g,%.9g), its %s extent is [%.9g, %.9g] x [%.9g, %.9g]", ctx.c_str(), pad, m.getModuleID(), q[0], q[1], k ? "module" : "plane", x[0], x[1], x[2], x[3])); }
            }
          }
        }
      }
      Vector2D c = m.getPadCenter(pads[pads.size() / 2]);
      double d0 = m.getDistanceToModule(c[0], c[1]);
      // in its own half
      double z = s.m[i].hasZ ? s.m[i].z : 0;
      bool own = true;
      // a half without positioned modules has no defined border with the other
      if (s.m[i].hasZ) for (auto& q : s.m) if (q.hasZ && (q.z > 0) == (s.m[i].z > 0) && q.z != s.m[i].z) own = false;
      if (!t.isInsideModule(c[0], c[1])) { Unarm u; fail("not-found-by-position", fmt("%s: module %d contains (%.9g,%.9g), the assembly denies it", ctx.c_str(), m.getModuleID(), c[0], c[1])); }
      if (t.getNearestModule(c[0], c[1]).getDistanceToModule(c[0], c[1]) > d0) { Unarm u; fail("not-found-by-position", fmt("%s: a module farther from (%.9g,%.9g) than %d is called nearest", ctx.c_str(), c[0], c[1], m.getModuleID())); }
      if (own) {
        if (!t.isInsideModule(c[0], c[1], z)) { Unarm u; fail("not-found-in-half", fmt("%s: module %d at z %.9g contains (%.9g,%.9g), the assembly denies it", ctx.c_str(), m.getModuleID(), z, c[0], c[1])); }
        const TPCModule& n = t.getNearestModule(c[0], c[1], z);
        if (n.getDistanceToModule(c[0], c[1]) > d0) { Unarm u; fail("not-found-in-half", fmt("%s: a module farther from (%.9g,%.9g) than %d is called nearest at z %.9g", ctx.c_str(), c[0], c[1], m.getModuleID(), z)); }
        for (auto& q : s.m) if (s.m[i].hasZ && q.id == n.getModuleID() && q.hasZ && (q.z > 0) != (z > 0)) { Unarm u; fail("other-half", fmt("%s: at z %.9g module %d of the other half (z %.9g) is called nearest", ctx.c_str(), z, q.id, q.z)); }
        // anywhere between its pads and the cathode
        if (s.m[i].hasZ) {
          double border = z > 0 ? z - t.getMaxDriftLength() : z + t.getMaxDriftLength();
          bool known = true; int others = 0;
          for (auto& q : s.m) if (q.hasZ && (q.z > 0) != (z > 0)) { double mid = (z + q.z) / 2; if (others++ && mid != border) known = false; border = mid; }
          if (known) for (double part : {0.05, 0.4, 0.8}) {
            double zz = border + (z - border) * part;
            if (!t.isInsideModule(c[0], c[1], zz) || t.getNearestModule(c[0], c[1], zz).getDistanceToModule(c[0], c[1]) > d0) { Unarm u; fail("not-found-in-half", fmt("%s: module %d at z %.9g contains (%.9g,%.9g), the assembly denies it at z %.9g, on its side of the cathode at %.9g", ctx.c_str(), m.getModuleID(), z, c[0], c[1], zz, border)); }
          }
        }
        GlobalPadIndex gp = t.getNearestPad(c[0], c[1], z);
        bool found = false; for (auto& q : s.m) if (q.id == gp.getModuleID()) { found = true; if (s.m[i].hasZ && q.hasZ && (q.z > 0) != (z > 0)) { Unarm u; fail("other-half", fmt("%s: at z %.9g a pad of module %d of the other half is called nearest", ctx.c_str(), z, q.id)); } }
        if (!found) { Unarm u; fail("module-identity", fmt("%s: the nearest pad belongs to unknown module %d", ctx.c_str(), gp.getModuleID())); }
      }
    }
  });
  if (!res.ok) fail("query-throws", ctx + ": reading the assembly ended with " + res.exc);
  // the answers about a point are those of the modules that count there
  res = guarded([&] {
    const std::vector<TPCModule*>& ms = t.getModules();
    bool single = s.m.size() == 1 && s.m[0].angle == 0 && s.m[0].ox == 0 && s.m[0].oy == 0, given = false;
    try { given = &t.getPadLayout() == ms.at(0); } catch (const gear::Exception&) {}
    if (given != single) { Unarm u; fail("pad-layout", ctx + (single ? ": the layout of the only module is not given" : ": one layout is given for more than it covers")); }
    if (ms.empty()) return;
    Rng r(mix64(ms.size() * 977 + (u64)std::llabs((i64)(s.m[0].freq * 7))));
    for (int n = 0; n < 8; ++n) {
      const ModSpec& at = s.m[r.below(s.m.size())];
      const TPCModule& am = *ms[&at - &s.m[0]];
      double a, b;
      if (n < 4 && am.getNRows() > 0) {
        const std::vector<int>& pads = am.getPadsInRow((int)r.below(am.getNRows()));
        if (pads.empty()) continue;
        Vector2D c = am.getPadCenter(pads[r.below(pads.size())]);
        a = c[0]; b = c[1];
        if (n & 1) { a += (r.unit() - 0.5) * 20; b += (r.unit() - 0.5) * (s.ctype == 1 ? 0.2 : 20); }
      } else { a = (r.unit() - (s.ctype == 1 ? 0 : 0.5)) * 1500; b = (r.unit() - 0.5) * (s.ctype == 1 ? 6.2 : 1500); }
      for (int half = -1; half < 2; ++half) {      // the whole plane, the half at negative and the one at positive z
        std::vector<const TPCModule*> in;
        bool use = half < 0, same = true; double z = 0;
        for (size_t i = 0; i < ms.size(); ++i) {
          const ModSpec& q = s.m[i];
          if (half >= 0 && q.hasZ && (q.z > 0) != (half == 1)) continue;
          in.push_back(ms[i]);
          if (half >= 0 && q.hasZ) { if (use && q.z != z) same = false; use = true; z = q.z; }
        }
        if (!use || !same || in.empty()) continue;
        bool im = false, ip = false, bad = false; double dm = 1e300, dp = 1e300;
        for (auto m : in) try {
          im = im || m->isInsideModule(a, b); ip = ip || m->isInsidePad(a, b);
          double x = m->getDistanceToModule(a, b), y = m->getDistanceToPad(a, b, m->getNearestPad(a, b));
          if (x != x || y != y) bad = true;
          dm = std::min(dm, x); dp = std::min(dp, y);
          if (half < 0) pointRules(*m, a, b, ctx);
        } catch (const std::exception&) { bad = true; }
        if (bad) continue;
        bool gim = half < 0 ? t.isInsideModule(a, b) : t.isInsideModule(a, b, z), gip = half < 0 ? t.isInsidePad(a, b) : t.isInsidePad(a, b, z);
        const TPCModule& nm = half < 0 ? t.getNearestModule(a, b) : t.getNearestModule(a, b, z);
        GlobalPadIndex gp = half < 0 ? t.getNearestPad(a, b) : t.getNearestPad(a, b, z);
        double gd = t.getModule(gp.getModuleID()).getDistanceToPad(a, b, gp.getPadIndex());
        const char* w = gim != im ? "contains-module" : gip != ip ? "contains-pad" : nm.getDistanceToModule(a, b) != dm ? "nearest-module" : gd != dp ? "nearest-pad" : nullptr;
        if (w) { Unarm u; fail(w, fmt("%s: at (%.17g,%.17g)%s the assembly differs from its %zu modules (inside module %d/%d, inside pad %d/%d, module at %.17g/%.17g, pad at %.17g/%.17g)", ctx.c_str(), a, b, half < 0 ? "" : fmt(" z %.9g", z).c_str(), in.size(), gim, im, gip, ip, nm.getDistanceToModule(a, b), dm, gd, dp)); }
        cnt("points");
      }
    }
  });
  if (!res.ok) fail("query-throws", ctx + ": asking the assembly about points ended with " + res.exc);
}
// a copy of a pad layout answers like the original, whatever becomes of that; a failed one changes nothing
template <class L> static bool layoutCopy(const PadRowLayout2D& from, Rng& r, int size, const std::string& ctx) {
  const L* src = dynamic_cast<const L*>(&from);
  if (!src) return false;
  auto facts = [](const PadRowLayout2D& l) { Unarm u; Facts f; fpPad(f, l, 6); return f; };
  Facts want = facts(from);
  std::unique_ptr<L> a(new L(*src)), b;
  for (int tries = 0; !b && tries < 40; ++tries) { std::unique_ptr<PadRowLayout2D> o(buildPad(genPad(r, from.getPadLayoutImplType(), size))); if (dynamic_cast<L*>(o.get())) b.reset(static_cast<L*>(o.release())); }
  if (!b) return true;
  Facts other = facts(*b);
  armAlloc(r.range(0, 5), r.chance(70) ? 1 : -1);
  Res q = guarded([&] { *b = *a; });
  bool fired = as.fired > 0;
  armAlloc(-1);
  if (fired) { cnt("fault.alloc-layout"); sh->nontrivial = 1; }
  if (!q.ok) {
    if (!fired) fail("copy-failed", ctx + ": assigning a layout ended with " + q.exc);
    std::string d = diff(other, facts(*b), EXACT);
    if (!d.empty()) fail("failed-copy-changed", ctx + ": a failed assignment of a layout changed it: " + d);
    *b = *a;
  }
  L& self = *b;
  *b = self;
  a.reset();
  std::string d = diff(want, facts(*b), EXACT);
  if (!d.empty()) fail("copy-differs", ctx + ": a copied layout vs the original: " + d);
  std::unique_ptr<PadRowLayout2D> c(b->clone());
  b.reset();
  d = diff(want, facts(*c), EXACT);
  if (!d.empty()) fail("copy-differs", ctx + ": a cloned layout vs the original: " + d);
  cnt("layout-copies");
  return true;
}
static void layoutCopies(const PadRowLayout2D& l, u64 seed, const std::string& ctx) {
  Rng r(mix64(seed ^ 0x1a40));
  layoutCopy<RectangularPadRowLayout>(l, r, 2, ctx) || layoutCopy<FixedPadSizeDiskLayout>(l, r, 2, ctx) || layoutCopy<FixedPadAngleDiskLayout>(l, r, 2, ctx) || layoutCopy<VersatileDiskRowLayout>(l, r, 2, ctx);
}
static void run10(const Plan& p) {
  const Item* t0 = p.find("tpc");
  if (!t0) return;
  phase([&] {
    int ctype = (int)t0->get("ctype", 1), halves = (int)t0->get("halves"), ids = (int)t0->get("ids", 7);
    double zn = (double)t0->get("zn"), zp = (double)t0->get("zp", 1);
    std::unique_ptr<TPCParametersImpl> t[2];
    TpcSpec g[2];
    for (int x = 0; x < 2; ++x) { g[x].on = true; g[x].modular = true; g[x].ctype = ctype; g[x].drift = (double)t0->get("drift", 1000) + x; g[x].vel = 0; t[x].reset(new TPCParametersImpl(g[x].drift, ctype)); t[x]->setDriftVelocity(0); }
    int step = 0;
    u64 h = 0;
    for (auto& it : p.items) {
      if (it.kind != "op") continue;
      ++step;
      int k = (int)it.get("k"), a = (int)(it.get("a") & 1), b = (int)it.get("b");
      if (k < 0 || k >= A_N) continue;
      Rng r(sd(it));
      std::string ctx = fmt("step %d %s", step, aName[k]);
      ModSpec s = modOf(it, ctype, zn, zp, halves, ids);
      std::unique_ptr<TPCModuleImpl> mod;
      std::function<void()> lib = [] {}, ref = [] {};
      bool refuse = false, mayRefuse = false;
      if (k == A_ADD || k == A_DUP || k == A_MODCOPY || k == A_SELFMOD) {
        if (k == A_DUP) { if (g[a].m.empty()) continue; s.id = g[a].m[r.below(g[a].m.size())].id; }
        // build it, with detours, refused steps and failures on the way
        std::unique_ptr<PadRowLayout2D> pad(buildPad(s.pad));
        mod.reset(new TPCModuleImpl(s.id, pad.get(), ctype, r.chance(50) ? s.freq : 1.));
        pad.release();
        int order[5] = {0, 1, 2, 3, 4};
        for (int i = 4; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
        int detours = r.range(0, 6);
        for (int i = 0; i < detours; ++i) { ModSpec o = genModule(r, 1, ctype, 1, true); o.hasZ = s.hasZ; o.z = r.chance(50) ? zn : zp; configure(*mod, o, r.range(0, 4)); cnt("detour"); }
        int done = 0;
        for (int i = 0; i < 5; ++i) {
          if (r.chance(25)) {
            // one step runs out of memory half way and is repeated
            Facts before = modFacts(*mod, ctx.c_str());
            armAlloc(r.range(0, 4), r.chance(70) ? 1 : -1);
            Res q = guarded([&] { configure(*mod, s, order[i]); });
            bool fired = as.fired > 0;
            armAlloc(-1);
            if (fired) { cnt("fault.alloc-setter"); sh->nontrivial = 1; }
            if (!q.ok) {
              if (!fired) fail("setter-refused", fmt("%s: configuration step %d ended with %s", ctx.c_str(), order[i], q.exc.c_str()));
              std::string d = diff(before, modFacts(*mod, ctx.c_str()), EXACT);
              if (!d.empty()) fail("failed-setter-changed", fmt("%s: configuration step %d reported %s but changed: %s", ctx.c_str(), order[i], q.exc.c_str(), d.c_str()));
            }
          }
          Res q = guarded([&] { configure(*mod, s, order[i]); });
          if (!q.ok) fail("setter-refused", fmt("%s: configuration step %d ended with %s", ctx.c_str(), order[i], q.exc.c_str()));
          ++done;
        }
        { Res q = guarded([&] { buildParams(mod.get(), s.p); }); if (!q.ok) fail("setter-refused", ctx + ": parameters: " + q.exc); }
        if (k == A_MODCOPY || k == A_SELFMOD) layoutCopies(mod->getLocalPadLayout(), sd(it), ctx);
        if (k == A_MODCOPY) {
          // the module that is added is a copy of a copy; the original goes elsewhere afterwards
          Res q = guarded([&] {
            std::unique_ptr<TPCModuleImpl> c(r.chance(50) ? new TPCModuleImpl(*mod) : dynamic_cast<TPCModuleImpl*>(mod->clone()));
            if (r.chance(50)) { ModSpec o = genModule(r, 77, ctype, 1, true); std::unique_ptr<TPCModuleImpl> e(buildModule(o, ctype)); *e = *c; c.swap(e); }
            ModSpec o = genModule(r, 1, ctype, 1, true);
            Facts before; { Unarm u; before = modFacts(*c, ctx.c_str()); }
            for (int i = 0; i < 4; ++i) if (i != 1) configure(*mod, o, i);
            mod->setIntVal("changed afterwards", 5);
            Unarm u;
            std::string d = diff(before, modFacts(*c, ctx.c_str()), EXACT);
            if (!d.empty()) fail("copy-not-independent", ctx + ": changing the original changed the copy: " + d);
            mod.swap(c);
          });
          if (!q.ok) fail("copy-failed", ctx + ": copying ended with " + q.exc);
        }
        if (k == A_SELFMOD) { Res q = guarded([&] { TPCModuleImpl& al = *mod; *mod = al; }); if (!q.ok) fail("copy-failed", ctx + ": assigning a module to itself ended with " + q.exc); }
        // depends on the final configuration only
        std::unique_ptr<TPCModuleImpl> fresh(buildModule(s, ctype));
        std::string d = diff(modFacts(*fresh, ctx.c_str()), modFacts(*mod, ctx.c_str()), EXACT);
        if (!d.empty()) fail("history-dependent", ctx + ": a module configured directly vs this one: " + d);
        for (auto& q : g[a].m) if (q.id == s.id) refuse = true;
        lib = [&] { t[a]->addModule(mod.get()); mod.release(); };
        ref = [&, s] { g[a].m.push_back(s); };
      } else switch (k) {
      case A_WRONG: {
        refuse = true;
        if (b < 3) lib = [&] { t[a]->addModule(nullptr); };
        else { int other = ctype == 1 ? 2 : 1; ModSpec o = genModule(r, r.range(20, 30), other, 1, true); if (other == 2 && o.pad.kind == 1) continue; mod.reset(buildModule(o, other)); lib = [&] { t[a]->addModule(mod.get()); mod.release(); }; }
        break;
      }
      case A_PAD: {
        if (b == 9) {          // a module is no layout: refused, whatever is there
          refuse = true; mod.reset(buildModule(s, ctype));
          lib = [&] { t[a]->setPadLayout(mod.get()); mod.release(); };
          break;
        }
        ModSpec d; PadSpec ps = genPad(r, ctype == 2 ? r.range(2, 4) : r.range(1, 4), 2);
        refuse = !g[a].m.empty();
        d.id = 0; d.pad = ps; d.freq = 0; d.ox = d.oy = d.angle = d.border = 0; d.hasZ = false; d.z = 0;
        lib = [&, ps] { std::unique_ptr<PadRowLayout2D> q(buildPad(ps)); t[a]->setPadLayout(q.get()); q.release(); };
        ref = [&, d] { g[a].m.push_back(d); };
        break;
      }
      case A_COPY: lib = [&] { TPCParametersImpl* c = new TPCParametersImpl(*t[1 - a]); swapIn(t[a], c); }; ref = [&] { g[a] = g[1 - a]; }; break;
      case A_ASSIGN: lib = [&] { *t[a] = *t[1 - a]; }; ref = [&] { g[a] = g[1 - a]; }; break;
      case A_SELF: lib = [&] { TPCParametersImpl& al = *t[a]; *t[a] = al; }; break;
      case A_PARAM: { ParamOp po = paramOp(sd(it, 3)); lib = [&, po] { applyParam(*t[a], po); }; ref = [&, po] { modelParam(g[a].p, po); }; break; }
      case A_DRIFT: { double v = 50 + r.unit() * 3000; lib = [&, v] { t[a]->setMaxDriftLength(v); }; ref = [&, v] { g[a].drift = v; }; break; }
      case A_VEL: { double v = r.unit() * 80; lib = [&, v] { t[a]->setDriftVelocity(v); }; ref = [&, v] { g[a].vel = v; }; break; }
      case A_FREQ: { double v = r.unit() * 1e7; refuse = g[a].m.size() != 1; lib = [&, v] { t[a]->setReadoutFrequency(v); }; ref = [&, v] { g[a].m[0].freq = v; }; break; }
      case A_QUERY: lib = [&] { Ans x; for (int i = 0; i < 4; ++i) askTpc(x, *t[a], r); }; break;
      }
      long clean = 0;
      if (it.get("f", -1) >= 0) {
        sh->num[0] = 0;
        phase([&] { armAlloc(-1); Res q = guarded(lib); sh->num[0] = (u64)as.count; });
        clean = (long)sh->num[0];
      }
      arm(it, clean);
      Res q = guarded(lib);
      bool fired = as.fired > 0;
      armAlloc(-1);
      if (fired) { cnt("fault.alloc"); sh->nontrivial = 1; ctx += " (memory ran out)"; }
      cnt((std::string("op.") + aName[k]).c_str());
      traceEv(aName[k], (u64)a, fired);
      if (refuse) { cnt("refused"); sh->nontrivial = 1; if (q.ok) fail("accepted-wrongly", ctx + ": was accepted"); if (!fired && !q.gearExc) fail("wrong-error", ctx + ": refused with " + q.exc); }
      else if (!q.ok && !fired) fail("operation-refused", ctx + ": ended with " + q.exc);
      if (q.ok) ref();
      for (int x = 0; x < 2; ++x) {
        assemblyRules(*t[x], g[x], ctx + fmt(", assembly %d", x));
        std::unique_ptr<TPCParametersImpl> fresh(buildTpc(g[x]));
        Facts want = tpcFacts(*fresh, ctx.c_str()), got = tpcFacts(*t[x], ctx.c_str());
        std::string d = diff(want, got, EXACT);
        if (!d.empty()) fail("assembly-differs", ctx + fmt(": assembly %d, one built at once vs this: ", x) + d);
        h = mix64(h ^ got.hash());
      }
    }
    state(h); trace(h);
    Res q = guarded([&] { for (auto& x : t) x.reset(); });
    if (!q.ok) fail("destroy-throws", "deleting the assemblies ended with " + q.exc);
  });
}

// ------------------------------------------------------------------ C12: the store of measurement surfaces
static Plan gen12(u64 seed, u64 idx, bool thorough) {
  Rng r(mix64(seed ^ mix64(idx + 0x112)));
  Plan p; p.seed = seed ^ idx;
  int n = r.range(2, thorough ? 24 : 12);
  for (int i = 0; i < n; ++i) {
    Item it(r.chance(80) ? "fill" : "look");
    it.set("a", r.chance(80) ? 0 : 1).set("seed", (i64)(r.next() >> 24)).set("bad", r.chance(60) ? 70 : 0).set("dup", r.chance(50) ? 90 : 0);
    genMemFault(r, it, 45);
    if (r.chance(20)) it.set("copy", 1);
    p.items.push_back(it);
  }
  return p;
}
static void run12(const Plan& p) {
  phase([&] {
    GearMgrImpl m[2];
    struct Ref { bool filled = false; std::string name; std::set<int> ids; } g[2];
    std::set<int> all = {-1, 0, 1, 2, 3, 999};
    for (auto& it : p.items) if (it.kind == "fill") for (int i : surfPlan(sd(it), (int)it.get("bad"), (int)it.get("dup")).ids) all.insert(i);
    std::map<int, const MeasurementSurface*> where[2];
    int step = 0;
    u64 h = 0;
    std::vector<Filler*> fillers;
    std::vector<SurfPlan*> plans;
    for (auto& it : p.items) {
      if (it.kind != "fill" && it.kind != "look") continue;
      ++step;
      int a = (int)(it.get("a") & 1);
      MeasurementSurfaceStore& st = m[a].getMeasurementSurfaceStore();
      std::string ctx = fmt("step %d %s", step, it.kind.c_str());
      if (it.kind == "fill") {
        SurfPlan* sp = new SurfPlan(surfPlan(sd(it), (int)it.get("bad"), (int)it.get("dup")));
        std::set<int> ids(sp->ids.begin(), sp->ids.end());
        bool dup = ids.size() != sp->ids.size();
        bool refuse = g[a].filled || dup || sp->failAt >= 0;
        long clean = 0;
        if (it.get("f", -1) >= 0) {
          sh->num[0] = 0;
          phase([&] { Filler f(*sp); armAlloc(-1); Res q = guarded([&] { st.FillStore(&f); }); sh->num[0] = (u64)as.count; });
          clean = (long)sh->num[0];
        }
        Filler* f = new Filler(*sp);
        arm(it, clean);
        Res q = guarded([&] { st.FillStore(f); });
        bool fired = as.fired > 0;
        armAlloc(-1);
        if (fired) { cnt("fault.alloc"); ctx += " (memory ran out)"; }
        if (sp->failAt >= 0) cnt("fault.provider");
        if (dup) cnt("fault.duplicate");
        if (refuse || fired) sh->nontrivial = 1;
        cnt(q.ok ? "filled" : "refused");
        traceEv("fill", q.ok, fired);
        if (refuse && q.ok) fail("accepted-wrongly", ctx + fmt(": the fill was accepted (filled before: %d, two surfaces with one identity: %d, provider failing: %d)", g[a].filled, dup, sp->failAt >= 0));
        if (!refuse && !fired && !q.ok) fail("fill-refused", ctx + ": a complete provider was refused with " + q.exc);
        if (q.ok) { g[a].filled = true; g[a].name = sp->name; g[a].ids = ids; for (auto* s : f->mine) where[a][s->getID()] = s; }
        else {
          // what a refused provider made stays the provider's: destroying it harms nothing
          if (it.get("seed") & 1) for (auto* s : f->mine) { delete s; cnt("provider.deleted-its-surfaces"); }
        }
      } else cnt("look");
      for (int x = 0; x < 2; ++x) {
        const MeasurementSurfaceStore& s = m[x].getMeasurementSurfaceStore();
        auto check = [&](const MeasurementSurfaceStore& s2, const char* which) {
          Res q = guarded([&] {
            if (s2.isFilled() != g[x].filled) { Unarm u; fail("filled-flag", fmt("%s: %s %d says filled=%d", ctx.c_str(), which, x, s2.isFilled())); }
            bool named = true; std::string nm;
            try { nm = s2.getFillerName(); } catch (const gear::Exception&) { named = false; }
            if (named != g[x].filled || (named && nm != g[x].name)) { Unarm u; fail("filler-name", fmt("%s: %s %d has filler '%s', expected %s", ctx.c_str(), which, x, nm.c_str(), g[x].filled ? g[x].name.c_str() : "none")); }
            for (int id : all) {
              const MeasurementSurface* got = nullptr;
              try { got = s2.GetMeasurementSurface(id); if (!got) { Unarm u; fail("null-surface", fmt("%s: surface %d is null", ctx.c_str(), id)); } } catch (const gear::Exception&) {}
              bool want = g[x].ids.count(id) > 0;
              if (want != (got != nullptr)) { Unarm u; fail(want ? "surface-missing" : "surface-left", fmt("%s: %s %d %s surface %d", ctx.c_str(), which, x, want ? "lost" : "has, of a fill that failed or never happened,", id)); }
              if (got && got != where[x][id]) { Unarm u; fail("wrong-surface", fmt("%s: surface %d is not the one provided", ctx.c_str(), id)); }
              if (got && const_cast<MeasurementSurface*>(got)->getID() != id) { Unarm u; fail("wrong-surface", fmt("%s: surface found under %d has identity %d", ctx.c_str(), id, const_cast<MeasurementSurface*>(got)->getID())); }
            }
          });
          if (!q.ok) fail("query-throws", ctx + ": looking at the store ended with " + q.exc);
        };
        check(s, "store");
        if (it.get("copy")) {
          std::unique_ptr<MeasurementSurfaceStore> c;
          Res q = guarded([&] { c.reset(new MeasurementSurfaceStore(s)); });
          if (!q.ok) fail("copy-failed", ctx + ": copying the store ended with " + q.exc);
          check(*c, "copy of store");
        }
        h = mix64(h ^ g[x].filled ^ (g[x].ids.size() << 1));
      }
    }
    state(h); trace(h);
    _exit(0);      // ownership of surfaces after the end is not part of the property
  });
}

// ------------------------------------------------------------------ C13: no memory of earlier questions
static Plan gen13(u64 seed, u64 idx, bool thorough) {
  Rng r(mix64(seed ^ mix64(idx + 0x113)));
  Plan p; p.seed = seed ^ idx;
  int ng = r.range(1, 2);
  for (int k = 0; k < ng; ++k) { u64 mask = genMask(r, r.range(10, 40)); if (r.chance(70)) mask |= 1ull << S_TPC; if (r.chance(40)) mask |= 1ull << (S_VXD + r.below(4)); p.add("geom").set("id", k).set("seed", (i64)(r.next() >> 20)).set("mask", (i64)mask).set("size", r.range(1, thorough ? 4 : 3)).set("loaded", r.chance(35)); }
  p.add("fill").set("a", r.range(0, 255)).set("b", r.range(0, 255));
  int distinct = r.range(4, thorough ? 24 : 12);
  std::vector<u64> qs;
  for (int i = 0; i < distinct; ++i) qs.push_back(r.next() >> 24);
  int n = r.range(distinct, distinct * 3);
  for (int i = 0; i < n; ++i) {
    Item it("ask");
    it.set("g", r.range(0, ng - 1)).set("seed", (i64)qs[r.below(qs.size())]);
    genMemFault(r, it, 18);
    if (r.chance(4)) it.set("save", 1);
    p.items.push_back(it);
  }
  return p;
}
static void run13(const Plan& p) {
  const Item* fi = p.find("fill");
  std::vector<const Item*> asks;
  for (auto& it : p.items) if (it.kind == "ask") asks.push_back(&it);
  if (asks.empty()) return;
  dkReset();
  for (int k = 0; k < 2; ++k) { const Item* g = p.find("geom", k); if (g && g->get("loaded")) dkPut("/sim/g" + std::to_string(k), emitXml(specOf(*g), (u64)g->get("seed"))); }
  auto make = [&](GearMgr* (&m)[2]) {
    for (int k = 0; k < 2; ++k) {
      m[k] = nullptr;
      const Item* g = p.find("geom", k);
      if (!g) continue;
      Res r;
      if (g->get("loaded")) r = loadInto("/sim/g" + std::to_string(k), m[k]);
      else r = guarded([&] { m[k] = build(specOf(*g)); });
      if (r.ok) r = guarded([&] { fillSurfaces(*m[k], (u64)g->get("seed")); });
      if (!r.ok) fail("build-failed", "making the geometry ended with " + r.exc);
    }
  };
  auto maskOf = [&](int k) { const Item* g = p.find("geom", k); return g ? (u64)g->get("mask") : 0; };
  auto askOne = [&](GearMgr* (&m)[2], const Item& it, std::string& out) {
    int g = (int)it.get("g") & 1;
    if (!m[g]) { out = "-"; return Res(); }
    Ans a;
    Res r = guarded([&] { ask(a, *m[g], maskOf(g), sd(it)); });
    out = r.ok ? a.s : "!" + r.exc;
    return r;
  };
  // what a first question gets: a process per question
  std::map<std::pair<i64, i64>, std::string> alone;
  phase([&] {
    as.fill = fi ? (long)fi->get("a") & 255 : 0xAA;
    GearMgr* m[2];
    make(m);
    std::string ser;
    for (auto* it : asks) {
      std::pair<i64, i64> key(it->get("g") & 1, it->get("seed"));
      if (alone.count(key)) continue;
      sh->bufLen[0] = 0;
      phase([&] { std::string o; armAlloc(-1); askOne(m, *it, o); putBytes(0, o); });
      alone[key] = getBytes(0);
      cnt("asked.first");
      ser += fmt("%lld %lld %zu\n", (long long)key.first, (long long)key.second, alone[key].size()) + alone[key] + "\n";
    }
    putBytes(1, ser);
  });
  {
    std::string s = getBytes(1);
    size_t at = 0;
    while (at < s.size()) {
      long long a, b; size_t n; int used = 0;
      size_t nl = s.find('\n', at);
      if (sscanf(s.c_str() + at, "%lld %lld %zu", &a, &b, &n) != 3) break;
      alone[{a, b}] = s.substr(nl + 1, n);
      at = nl + 1 + n + 1;
    }
  }
  // all of them, one after the other, in another process whose fresh memory holds other bytes
  phase([&] {
    as.fill = fi ? (long)fi->get("b") & 255 : 0x55;
    GearMgr* m[2];
    make(m);
    Facts before[2];
    for (int k = 0; k < 2; ++k) if (m[k]) before[k] = answers(*m[k]);
    u64 h = 0;
    int n = 0;
    for (auto* it : asks) {
      ++n;
      std::string got;
      if (it->get("save")) { int g = (int)it->get("g") & 1; if (m[g]) { saveTo(m[g], "/sim/out"); cnt("op.save"); } }
      if (it->get("f", -1) >= 0) {
        long clean;
        sh->num[0] = 0;
        phase([&] { std::string o; armAlloc(-1); askOne(m, *it, o); sh->num[0] = (u64)as.count; });
        clean = (long)sh->num[0];
        arm(*it, clean);
        Res r = askOne(m, *it, got);
        bool fired = as.fired > 0;
        armAlloc(-1);
        if (fired) { cnt("fault.alloc"); sh->nontrivial = 1; if (!r.ok) { cnt("ask.failed"); continue; } }
      } else { armAlloc(-1); askOne(m, *it, got); }
      cnt("asked.again");
      std::string want = alone[{it->get("g") & 1, it->get("seed")}];
      h = mix64(h ^ hashBytes(got.data(), got.size()));
      if (got != want) fail("answer-depends-on-history", fmt("question %d of %zu: asked first: %s; asked after the others: %s", n, asks.size(), want.substr(0, 500).c_str(), got.substr(0, 500).c_str()));
    }
    if (asks.size() > 1) sh->nontrivial = 1;
    for (int k = 0; k < 2; ++k) if (m[k]) {
      std::string d = diff(before[k], answers(*m[k]), EXACT);
      if (!d.empty()) fail("query-changed-geometry", "before vs after the questions: " + d);
    }
    state(h); trace(h);
  });
}

void propsHist(std::vector<Prop>& v) {
  const char* real = "all of gearimpl, gearsurf and gearxml (compiled from /repo with address sanitizer), libstdc++, CLHEP";
  const char* stub = "operator new/delete (failures and contents of fresh memory decided by the plan); the file system below /sim (in memory)";
  v.push_back({"C08", gen08, run08, 2500, 60000, "a run is nontrivial if at least one injected failure showed or one operation was refused; a history of operations on two equal worlds of objects; the allocation failing in each operation is drawn from the seed", real, stub});
  v.push_back({"C09", gen09, run09, 6000, 300000, "a run is nontrivial if at least one injected failure showed or one operation was refused; a history of stores, refusals, lookups and failing stores on two geometries against a reference store", real, stub});
  v.push_back({"C10", gen10, run10, 6000, 250000, "a run is nontrivial if at least one injected failure showed or one operation was refused; a history of configuring, adding, copying, assigning and failing on two assemblies against a list of accepted modules", real, stub});
  v.push_back({"C12", gen12, run12, 20000, 600000, "a run is nontrivial if at least one injected failure showed or one operation was refused; a history of fills by complete, failing and ambiguous providers with failing memory against a reference store", real, stub});
  v.push_back({"C13", gen13, run13, 4500, 180000, "a run is nontrivial if more than one question was asked; a sequence of questions, some failing for want of memory, asked in one process and each asked first in a process of its own", real, stub});
}
}
