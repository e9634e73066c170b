#include "ask.h"
#include "alloc.h"
#include <cmath>
#include <sstream>
#include "gear/BField.h"
#include "gear/CalorimeterParameters.h"
#include "gear/FTDLayerLayout.h"
#include "gear/FTDParameters.h"
#include "gear/LayerLayout.h"
#include "gear/SiPlanesLayerLayout.h"
#include "gear/SiPlanesParameters.h"
#include "gear/SimpleMaterial.h"
#include "gear/TrackerPlanesLayerLayout.h"
#include "gear/TrackerPlanesParameters.h"
#include "gear/ZPlanarLayerLayout.h"
#include "gear/ZPlanarParameters.h"
#include "gearimpl/FTDParametersImpl.h"
#include "gearimpl/TrackerPlanesLayerLayoutImpl.h"
#include "gearimpl/Util.h"
#include "gearsurf/CartesianCoordinateSystem.h"
#include "gearsurf/MeasurementSurface.h"
#include "gearsurf/MeasurementSurfaceStore.h"

namespace sim {
using namespace gear;

static std::string show(const void* p, int kind) {
  Ans a;
  if (kind == 0) a.vec("", *(const std::vector<int>*)p);
  if (kind == 1) a.vec("", *(const std::vector<double>*)p);
  if (kind == 2) a.vec("", *(const std::vector<std::string>*)p);
  if (kind == 3) a.t("", *(const std::string*)p);
  return a.s;
}
std::string Keep::check() const {
  Unarm u;
  for (auto& x : h) { std::string now = show(x.p, x.kind); if (now != x.was) return "was " + x.was + " is " + now; }
  return "";
}
static void keepRef(Keep* k, const void* p, int kind) { if (!k) return; Unarm u; if (k->h.size() < 400) k->h.push_back({p, kind, show(p, kind)}); }

template <class F> static void att(Ans& a, const char* n, F f) {
  size_t len = a.s.size();
  try { f(); }
  catch (std::bad_alloc&) { throw; }
  catch (std::exception& e) { Unarm u; a.s.resize(len); a.s += n; a.s += "!" + excName(e) + ";"; }
}
// formatted output of the library; a stream that went bad for want of memory is a failure
template <class T> static void print(Ans& a, const T& t) {
  std::ostringstream s;
  s << t;
  if (!s) throw std::bad_alloc();
  std::string x = s.str();
  a.big("print", x);
}
static Vector3D pt(Rng& r, double rad, double z) {
  double phi = r.chance(20) ? r.range(-4, 4) * M_PI / 4 : (r.unit() * 2 - 1) * M_PI;
  double q = rad * (r.chance(40) ? 1 + (r.unit() - 0.5) * 0.06 : r.unit() * 1.4);
  double zz = z * (r.unit() * 2 - 1) * (r.chance(15) ? 1.5 : 1);
  if (r.chance(8)) zz = 0;
  return Vector3D(q * std::cos(phi), q * std::sin(phi), zz);
}
static void v3(Ans& a, const char* n, const Vector3D& v) { Unarm u; a.s += n; a.s += ":"; a.d("x", v.x()); a.d("y", v.y()); a.d("z", v.z()); }

void askParams(Ans& a, const GearParameters& p, Rng& r, Keep* k) {
  int w = (int)r.below(9);
  switch (w) {
  case 0: { const StringVec& v = p.getIntKeys(); a.vec("kI", v); keepRef(k, &v, 2); break; }
  case 1: { const StringVec& v = p.getDoubleKeys(); a.vec("kD", v); keepRef(k, &v, 2); break; }
  case 2: { const StringVec& v = p.getStringKeys(); a.vec("kS", v); keepRef(k, &v, 2); break; }
  case 3: { const StringVec& v = p.getIntVecKeys(); a.vec("kIV", v); keepRef(k, &v, 2); const StringVec& u = p.getDoubleVecKeys(); a.vec("kDV", u); const StringVec& t = p.getStringVecKeys(); a.vec("kSV", t); break; }
  case 4: { const StringVec v = p.getIntKeys(); if (!v.empty()) a.i("I", p.getIntVal(v[r.below(v.size())])); att(a, "I?", [&] { a.i("I?", p.getIntVal("nothing of that name")); }); break; }
  case 5: { const StringVec v = p.getDoubleKeys(); if (!v.empty()) a.d("D", p.getDoubleVal(v[r.below(v.size())])); att(a, "D?", [&] { a.d("D?", p.getDoubleVal("nothing of that name")); }); break; }
  case 6: { const StringVec v = p.getStringKeys(); if (!v.empty()) { const std::string& x = p.getStringVal(v[r.below(v.size())]); a.t("S", x); keepRef(k, &x, 3); } att(a, "S?", [&] { a.t("S?", p.getStringVal("nothing of that name")); }); break; }
  case 7: { const StringVec v = p.getDoubleVecKeys(); if (!v.empty()) { const DoubleVec& x = p.getDoubleVals(v[r.below(v.size())]); a.vec("DV", x); keepRef(k, &x, 1); } const StringVec u = p.getIntVecKeys(); if (!u.empty()) { const IntVec& x = p.getIntVals(u[r.below(u.size())]); a.vec("IV", x); keepRef(k, &x, 0); }
    att(a, "V?", [&] { a.vec("V?", p.getIntVals("nothing of that name")); }); att(a, "W?", [&] { a.vec("W?", p.getDoubleVals("nothing of that name")); }); break; }
  default: { const StringVec v = p.getStringVecKeys(); if (!v.empty()) { const StringVec& x = p.getStringVals(v[r.below(v.size())]); a.vec("SV", x); keepRef(k, &x, 2); } att(a, "X?", [&] { a.vec("X?", p.getStringVals("nothing of that name")); }); print(a, p); }
  }
}
// a point of interest of a pad plane in its own coordinates
static void padPoint(const PadRowLayout2D& p, Rng& r, double& c0, double& c1) {
  const DoubleVec& e = p.getPlaneExtent();
  c0 = c1 = 0;
  if (e.size() == 4) {
    c0 = e[0] + (e[1] - e[0]) * (r.chance(30) ? r.range(0, 8) / 8. : r.unit() * 1.2 - 0.1);
    c1 = e[2] + (e[3] - e[2]) * (r.chance(30) ? r.range(0, 8) / 8. : r.unit() * 1.2 - 0.1);
  }
  int nr = p.getNRows();
  if (nr > 0 && r.chance(50)) {
    const std::vector<int>& pads = p.getPadsInRow((int)r.below(nr));
    if (!pads.empty()) {
      int id = pads[r.below(pads.size())];
      Vector2D c = p.getPadCenter(id);
      c0 = c[0]; c1 = c[1];
      if (r.chance(60)) { c0 += (r.unit() - 0.5) * p.getPadHeight(id) * (r.chance(20) ? 2 : 1); c1 += (r.unit() - 0.5) * (p.getCoordinateType() == PadRowLayout2D::POLAR ? 0.02 : p.getPadPitch(id)); }
    }
  }
}
static int somePad(const PadRowLayout2D& p, Rng& r, int* row = nullptr) {
  int nr = p.getNRows();
  if (nr <= 0) return -1;
  int rw = (int)r.below(nr);
  const std::vector<int>& pads = p.getPadsInRow(rw);
  if (row) *row = rw;
  if (pads.empty()) return -1;
  return pads[r.below(pads.size())];
}
void askPad(Ans& a, const PadRowLayout2D& p, Rng& r, Keep* k) {
  int w = (int)r.below(12), row = 0, id;
  double x, y;
  switch (w) {
  case 0: case 1: padPoint(p, r, x, y); att(a, "near", [&] { a.i("near", p.getNearestPad(x, y)); }); break;
  case 2: padPoint(p, r, x, y); att(a, "in", [&] { a.i("in", p.isInsidePad(x, y)); }); break;
  case 3: padPoint(p, r, x, y); id = somePad(p, r); if (id >= 0) att(a, "ini", [&] { a.i("ini", p.isInsidePad(x, y, id)); }); break;
  case 4: padPoint(p, r, x, y); id = somePad(p, r); if (id >= 0) att(a, "dist", [&] { a.d("dist", p.getDistanceToPad(x, y, id)); }); break;
  case 5: id = somePad(p, r, &row); if (id >= 0) { att(a, "nb", [&] { a.i("r", p.getRightNeighbour(id)); a.i("l", p.getLeftNeighbour(id)); }); } break;
  case 6: id = somePad(p, r, &row); if (id >= 0) { Vector2D c = p.getPadCenter(id); a.d("c0", c[0]); a.d("c1", c[1]); a.d("w", p.getPadWidth(id)); a.d("h", p.getPadHeight(id)); a.d("pi", p.getPadPitch(id)); } break;
  case 7: id = somePad(p, r, &row); if (id >= 0) { a.i("row", p.getRowNumber(id)); a.i("num", p.getPadNumber(id)); a.i("idx", p.getPadIndex(row, p.getPadNumber(id))); } break;
  case 8: { const DoubleVec& e = p.getPlaneExtent(); a.vec("ext", e); keepRef(k, &e, 1); break; }
  case 9: if (p.getNRows() > 0) { int q = (int)r.below(p.getNRows()); const std::vector<int>& v = p.getPadsInRow(q); a.i("n", v.size()); a.big("ids", std::string((const char*)v.data(), v.size() * sizeof(int))); a.d("rh", p.getRowHeight(q)); keepRef(k, &v, 0); } break;
  case 10: a.i("np", p.getNPads()); a.i("nr", p.getNRows()); a.i("impl", p.getPadLayoutImplType()); a.i("ct", p.getCoordinateType()); a.i("lt", p.getPadLayoutType()); a.i("sh", p.getPadShape()); break;
  default: { std::unique_ptr<PadRowLayout2D> c; att(a, "clone", [&] { c.reset(p.clone()); }); if (c) { a.i("cnp", c->getNPads()); a.vec("cext", c->getPlaneExtent()); padPoint(*c, r, x, y); att(a, "cnear", [&] { a.i("cnear", c->getNearestPad(x, y)); }); } }
  }
}
void askModule(Ans& a, const TPCModule& t, Rng& r, Keep* k) {
  int w = (int)r.below(13);
  double x, y;
  switch (w) {
  case 0: case 1: askPad(a, t, r, k); break;
  case 2: askPad(a, t.getLocalPadLayout(), r, k); break;
  case 3: padPoint(t, r, x, y); { Vector2D g = t.globalToLocal(x, y); a.d("g0", g[0]); a.d("g1", g[1]); } break;
  case 4: padPoint(t.getLocalPadLayout(), r, x, y); { Vector2D g = t.localToGlobal(x, y); a.d("l0", g[0]); a.d("l1", g[1]); } break;
  case 5: padPoint(t, r, x, y); a.i("inm", t.isInsideModule(x, y)); break;
  case 6: padPoint(t, r, x, y); att(a, "dm", [&] { a.d("dm", t.getDistanceToModule(x, y)); }); break;
  case 7: { const DoubleVec& e = t.getModuleExtent(); a.vec("mext", e); keepRef(k, &e, 1); const DoubleVec& l = t.getLocalModuleExtent(); a.vec("lext", l); keepRef(k, &l, 1); break; }
  case 8: a.i("id", t.getModuleID()); a.d("f", t.getReadoutFrequency()); a.d("o0", t.getOffset()[0]); a.d("o1", t.getOffset()[1]); a.d("an", t.getAngle()); a.d("bw", t.getBorderWidth()); a.i("tct", t.getTPCCoordinateType()); break;
  case 9: att(a, "z", [&] { a.d("z", t.getZPosition()); }); break;
  case 10: askParams(a, t, r, k); break;
  case 11: print(a, t); break;
  default: askPad(a, t, r, k);
  }
}
void askTpc(Ans& a, const TPCParameters& t, Rng& r, Keep* k) {
  const std::vector<TPCModule*>& ms = t.getModules();
  int w = (int)r.below(12);
  double x = 1, y = 1, z = (r.chance(50) ? -1 : 1) * (r.chance(20) ? 0 : r.unit() * 4000);
  if (!ms.empty()) { const TPCModule& q = *ms[r.below(ms.size())]; padPoint(q, r, x, y); }
  switch (w) {
  case 0: att(a, "nm", [&] { a.i("nm", t.getNearestModule(x, y).getModuleID()); }); break;
  case 1: att(a, "nmz", [&] { a.i("nmz", t.getNearestModule(x, y, z).getModuleID()); }); break;
  case 2: att(a, "np", [&] { GlobalPadIndex g = t.getNearestPad(x, y); a.i("m", g.getModuleID()); a.i("p", g.getPadIndex()); }); break;
  case 3: att(a, "npz", [&] { GlobalPadIndex g = t.getNearestPad(x, y, z); a.i("mz", g.getModuleID()); a.i("pz", g.getPadIndex()); }); break;
  case 4: att(a, "im", [&] { a.i("im", t.isInsideModule(x, y)); a.i("ip", t.isInsidePad(x, y)); }); break;
  case 5: att(a, "imz", [&] { a.i("imz", t.isInsideModule(x, y, z)); a.i("ipz", t.isInsidePad(x, y, z)); }); break;
  case 6: att(a, "ext", [&] { const DoubleVec& e = t.getPlaneExtent(); a.vec("ext", e); keepRef(k, &e, 1); }); break;
  case 7: a.d("dr", t.getMaxDriftLength()); a.d("v", t.getDriftVelocity()); att(a, "rf", [&] { a.d("rf", t.getReadoutFrequency()); }); a.i("ct", t.getCoordinateType()); a.i("n", t.getNModules()); att(a, "pl", [&] { a.i("pl", t.getPadLayout().getNPads()); }); break;
  case 8: att(a, "gm", [&] { a.i("gm", t.getModule(ms.empty() || r.chance(20) ? 987654321 : ms[r.below(ms.size())]->getModuleID()).getModuleID()); }); break;
  case 9: askParams(a, t, r, k); break;
  case 10: if (r.chance(50)) print(a, t); else if (ms.size() > 1) { TPCModule* o = ms[r.below(ms.size())]; att(a, "ov", [&] { a.i("ov", ms[r.below(ms.size())]->isOverlapping(o)); }); } break;
  default: if (!ms.empty()) askModule(a, *ms[r.below(ms.size())], r, k);
  }
}
static void askZ(Ans& a, const ZPlanarParameters& z, Rng& r, Keep* k) {
  const ZPlanarLayerLayout& l = z.getZPlanarLayerLayout();
  int n = l.getNLayers(), i = n ? (int)r.below(n) : 0, w = (int)r.below(11);
  if (n == 0 && w < 8) w = 8;
  double d = n ? (r.chance(50) ? l.getLadderDistance(i) : l.getSensitiveDistance(i)) : 1, len = n ? l.getLadderLength(i) : 1;
  Vector3D p = pt(r, d, len);
  if (w < 8 && r.chance(30)) {   // on a ladder
    double phi = l.getPhi0(i) + 2 * M_PI * r.below(std::max(1, l.getNLadders(i))) / std::max(1, l.getNLadders(i));
    double q = l.getLadderDistance(i) + l.getLadderThickness(i) * 0.5;
    p = Vector3D(q * std::cos(phi), q * std::sin(phi), (r.unit() * 2 - 1) * len);
  }
  switch (w) {
  case 0: case 1: att(a, "pl", [&] { a.i("pl", z.isPointInLadder(p)); }); break;
  case 2: case 3: att(a, "ps", [&] { SensorID s; s.layer = s.side = s.module = s.sensor = -7; bool b = z.isPointInSensitive(p, &s); a.i("ps", b); if (b) { a.i("ly", s.layer); a.i("sd", s.side); a.i("md", s.module); a.i("sn", s.sensor); } }); break;
  case 4: att(a, "dl", [&] { v3(a, "dl", z.distanceToNearestLadder(p)); }); break;
  case 5: att(a, "ds", [&] { v3(a, "ds", z.distanceToNearestSensitive(p)); }); break;
  case 6: att(a, "il", [&] { v3(a, "il", z.intersectionLadder(Vector3D(0, 0, 0), p)); }); break;
  case 7: att(a, "is", [&] { v3(a, "is", z.intersectionSensitive(Vector3D(0.1, 0.2, 0.3), p)); }); break;
  case 8: a.i("t", z.getType()); a.d("ri", z.getShellInnerRadius()); a.d("ro", z.getShellOuterRadius()); a.d("hl", z.getShellHalfLength()); a.d("g", z.getShellGap()); a.d("x0", z.getShellRadLength());
    if (n) { a.d("ld", l.getLadderDistance(i)); a.d("sw", l.getSensitiveWidth(i)); a.i("nl", l.getNLadders(i)); } att(a, "ov", [&] { a.d("ov", l.getLadderDistance(n)); }); break;
  case 9: askParams(a, z, r, k); break;
  default: print(a, z);
  }
}
static void askCalo(Ans& a, const CalorimeterParameters& c, Rng& r, Keep* k) {
  const LayerLayout& l = c.getLayerLayout();
  int n = l.getNLayers(), i = n ? (int)r.below(n) : 0;
  switch (r.below(5)) {
  case 0: if (n) { a.d("d", l.getDistance(i)); a.d("t", l.getThickness(i)); a.d("ab", l.getAbsorberThickness(i)); a.d("c0", l.getCellSize0(i)); a.d("c1", l.getCellSize1(i)); } att(a, "ov", [&] { a.d("ov", l.getCellSize0(n)); }); break;
  case 1: { const DoubleVec& e = c.getExtent(); a.vec("ext", e); keepRef(k, &e, 1); break; }
  case 2: a.i("lt", c.getLayoutType()); a.i("so", c.getSymmetryOrder()); a.d("p0", c.getPhi0()); a.i("n", n); break;
  case 3: askParams(a, c, r, k); break;
  default: print(a, c);
  }
}
static void askFtd(Ans& a, const FTDParameters& f, Rng& r, Keep* k) {
  const FTDLayerLayout& l = f.getFTDLayerLayout();
  int n = l.getNLayers();
  int w = (int)r.below(8);
  if (n == 0 && w < 6) w = 6;
  int i = n ? (int)r.below(n) : 0;
  const FTDParametersImpl* fi = dynamic_cast<const FTDParametersImpl*>(&f);
  if (w < 4) {
    int pet = (int)r.below(std::max(1, l.getNPetals(i)));
    bool sens = r.chance(50);
    double z = sens ? l.getSensitiveZposition(i, pet, 1 + (int)r.below(std::max(1, l.getNSensors(i)))) : l.getSupportZposition(i, pet);
    double rad = l.getSupportRinner(i) + l.getSupportWidth(i) * (r.unit() * 1.2 - 0.1), phi = l.getPhiPetalCd(i, pet) + (r.unit() - 0.5) * 0.6;
    Vector3D p(rad * std::cos(phi), rad * std::sin(phi), (r.chance(30) ? -1 : 1) * (z + (r.chance(50) ? 0 : (r.unit() - 0.5) * 2)));
    if (w == 0) a.d("tfa", l.getThicknessForAngle(i, 0.2 + r.unit(), r.unit() * 3, sens));
    else if (fi && w == 1) att(a, "in", [&] { a.i("in", fi->isPointInFTD(p, sens)); });
    else if (fi && w == 2) att(a, "pi", [&] { a.i("pi", fi->getPetalIndex(p, sens)); });
    else if (fi) { att(a, "li", [&] { a.i("li", fi->getLayerIndex(p)); }); att(a, "si", [&] { a.i("si", fi->getSensitiveIndex(p)); }); }
    return;
  }
  switch (w) {
  case 4: a.d("sp", l.getStartPhi(i, (int)r.below(std::max(1, l.getNPetals(i))), r.chance(50))); a.d("ep", l.getEndPhi(i, 0, true)); a.d("mr", l.getMaxRadius(i, r.chance(50))); break;
  case 5: a.i("np", l.getNPetals(i)); a.d("z", l.getZposition(i)); a.d("zo", l.getZoffset(i)); a.d("zs", l.getZoffsetSign0(i)); a.d("al", l.getAlpha(i)); a.i("ty", l.getSensorType(i)); att(a, "sz", [&] { a.d("sz", l.getSensitiveZposition(i, 0, l.getNSensors(i) + 3)); }); break;
  case 6: askParams(a, f, r, k); break;
  default: print(a, f);
  }
}
static void askTp(Ans& a, const TrackerPlanesParameters& p, Rng& r, Keep* k) {
  const TrackerPlanesLayerLayout& l = p.getTrackerPlanesLayerLayout();
  int n = l.getNLayers();
  switch (r.below(5)) {
  case 0: a.i("id", p.getLayoutID()); a.i("ty", p.getLayoutType()); a.i("nn", p.getLayoutNumberOfLayers()); a.i("n", n); break;
  case 1: if (n) { const TrackerPlanesLayerImpl* y = l.getLayer((unsigned)r.below(n)); a.i("id", y->getID()); a.t("info", y->getInfo()); a.i("nm", y->getNMaterialLayers()); a.i("ns", y->getNSensitiveLayers()); } a.i("ov", l.getLayer(n) != 0); break;
  case 2: { int id = 987654; if (n && r.chance(70)) id = l.getLayer((unsigned)r.below(n))->getID(); const TrackerPlanesLayerImpl* y = l.getLayerByID(id); a.i("by", y ? y->getID() : -1); break; }
  case 3: askParams(a, p, r, k); break;
  default: print(a, p);
  }
}
static void askSi(Ans& a, const SiPlanesParameters& p, Rng& r, Keep* k) {
  const SiPlanesLayerLayout& l = p.getSiPlanesLayerLayout();
  int n = l.getNLayers(), i = n ? (int)r.below(n) : 0;
  switch (r.below(5)) {
  case 0: a.i("id", p.getSiPlanesID()); a.i("ty", p.getSiPlanesType()); a.i("nn", p.getSiPlanesNumber()); a.i("n", n); break;
  case 1: if (n) { a.i("lid", l.getID(i)); a.d("x", l.getLayerPositionX(i)); a.d("th", l.getLayerThickness(i)); a.i("sid", l.getSensitiveID(i)); a.d("sx", l.getSensitivePositionX(i)); a.d("rs", l.getSensitiveResolution(i)); a.d("r1", l.getSensitiveRotation1(i)); a.i("px", l.getSensitiveNpixelX(i)); } break;
  case 2: if (p.getSiPlanesType() == SiPlanesParameters::TelescopeWithDUT) { a.i("did", l.getDUTID()); a.d("dx", l.getDUTPositionX()); a.i("dsid", l.getDUTSensitiveID()); a.d("dpi", l.getDUTSensitivePitchX()); } break;
  case 3: askParams(a, p, r, k); break;
  default: print(a, p);
  }
}
static void h3(Ans& a, const char* n, const CLHEP::Hep3Vector& v) { v3(a, n, Vector3D(v.x(), v.y(), v.z())); }
static void askStore(Ans& a, const MeasurementSurfaceStore& s, Rng& r, Keep*) {
  if (r.chance(15)) { a.i("filled", s.isFilled()); att(a, "filler", [&] { a.t("filler", s.getFillerName()); }); return; }
  int id = r.chance(80) ? surfaceId((int)r.below(8)) : r.range(-5, 100);      // some of them unknown
  try {
    MeasurementSurface* m = const_cast<MeasurementSurface*>(s.GetMeasurementSurface(id));
    a.i("id", m->getID());
    CartesianCoordinateSystem* c = dynamic_cast<CartesianCoordinateSystem*>(m->getCoordinateSystem());
    if (!c) return;
    const CLHEP::Hep3Vector* o = c->getOrigin();
    CLHEP::Hep3Vector loc((r.unit() - 0.5) * 30, (r.unit() - 0.5) * 30, r.chance(70) ? 0 : (r.unit() - 0.5) * 3);
    if (r.chance(15)) loc = CLHEP::Hep3Vector(r.range(-3, 3), r.range(-3, 3), 0);
    switch (r.below(5)) {
    case 0: h3(a, "o", *o); h3(a, "x", c->getLocalXAxis()); h3(a, "y", c->getLocalYAxis()); h3(a, "z", c->getLocalZAxis()); a.d("R", c->getR()->xy()); break;
    case 1: h3(a, "loc", c->getLocalPoint(*o + loc)); break;
    case 2: h3(a, "glo", c->getGlobalPoint(loc)); break;
    case 3: a.i("in", m->isLocalInBoundary(loc)); break;
    default: a.i("gin", m->isGlobalInBoundary(c->getGlobalPoint(loc)));
    }
  }
  catch (const gear::Exception& e) { if (as.fired) throw std::bad_alloc(); a.t("why", e.what()); }      // a text put together without memory is cut short
}
static const CalorimeterParameters& calo(const GearMgr& m, int i) {
  switch (i) {
  case 0: return m.getEcalBarrelParameters(); case 1: return m.getEcalEndcapParameters(); case 2: return m.getEcalPlugParameters(); case 3: return m.getYokeBarrelParameters();
  case 4: return m.getYokeEndcapParameters(); case 5: return m.getYokePlugParameters(); case 6: return m.getHcalBarrelParameters(); case 7: return m.getHcalEndcapParameters();
  case 8: return m.getHcalRingParameters(); case 9: return m.getLcalParameters(); case 10: return m.getLHcalParameters(); default: return m.getBeamCalParameters();
  }
}
void ask(Ans& a, const GearMgr& m, u64 mask, u64 seed, Keep* k) {
  Rng r(seed);
  int sec = (int)r.below(S_N);
  if (!r.chance(8)) {          // mostly what is there; the pad planes have most to say
    int have[S_N * 2], n = 0;
    for (int s = 0; s < S_N; ++s) if (mask >> s & 1) { have[n++] = s; if (s == S_TPC) { have[n++] = s; have[n++] = s; have[n++] = s; } if (s >= S_VXD && s <= S_FTD) have[n++] = s; }
    if (n) sec = have[r.below(n)];
  }
  if (r.chance(7)) sec = S_N;          // the surfaces, whether there are any or not
  a.i("sec", sec);
  att(a, "sec!", [&] {
    switch (sec) {
    case S_NAME: { const std::string& n = m.getDetectorName(); a.t("name", n); keepRef(k, &n, 3); if (r.chance(20)) print(a, m); break; }
    case S_BFIELD: { const BField& b = m.getBField(); if (r.chance(50)) v3(a, "b", b.at(pt(r, 100, 100))); else if (r.chance(70)) askParams(a, b, r, k); else print(a, b); break; }
    case S_TPC: askTpc(a, m.getTPCParameters(), r, k); break;
    case S_VXD: askZ(a, m.getVXDParameters(), r, k); break;
    case S_SIT: askZ(a, m.getSITParameters(), r, k); break;
    case S_SET: askZ(a, m.getSETParameters(), r, k); break;
    case S_FTD: askFtd(a, m.getFTDParameters(), r, k); break;
    case S_TP: askTp(a, m.getTrackerPlanesParameters(), r, k); break;
    case S_SI: askSi(a, m.getSiPlanesParameters(), r, k); break;
    case S_USER: { const StringVec& v = m.getGearParameterKeys(); a.vec("keys", v); keepRef(k, &v, 2); if (!v.empty()) askParams(a, m.getGearParameters(v[r.below(v.size())]), r, k); att(a, "u?", [&] { m.getGearParameters("not there"); a.i("u?", 1); }); break; }
    case S_MAT: { const StringVec& v = m.getMaterialNames(); a.vec("mats", v); keepRef(k, &v, 2); if (!v.empty()) { const SimpleMaterial& x = m.getSimpleMaterial(v[r.below(v.size())]); a.t("mn", x.getName()); a.d("A", x.getA()); a.d("Z", x.getZ()); a.d("rho", x.getDensity()); a.d("X0", x.getRadLength()); a.d("li", x.getIntLength()); print(a, x); } att(a, "m?", [&] { m.getSimpleMaterial("not there"); a.i("m?", 1); }); break; }
    case S_N: askStore(a, m.getMeasurementSurfaceStore(), r, k); break;
    default: askCalo(a, calo(m, sec - S_CALO), r, k);
    }
  });
}
}
