#include "geo.h"
#include <algorithm>
#include <cmath>
#include <cxxabi.h>
#include <typeinfo>
#include "gearsurf/BoundaryRectangle.h"
#include "gearsurf/BoundaryTrapezoid.h"
#include "gearsurf/CartesianCoordinateSystem.h"
#include "gearsurf/MeasurementSurface.h"
#include "gearsurf/MeasurementSurfaceStore.h"
#include "gear/BField.h"
#include "gear/CalorimeterParameters.h"
#include "gear/FTDLayerLayout.h"
#include "gear/FTDParameters.h"
#include "gear/LayerLayout.h"
#include "gear/SiPlanesLayerLayout.h"
#include "gear/SiPlanesParameters.h"
#include "gear/SimpleMaterial.h"
#include "gear/TrackerPlanesLayerLayout.h"
#include "gear/TrackerPlanesParameters.h"
#include "gear/ZPlanarLayerLayout.h"
#include "gear/ZPlanarParameters.h"
#include "gearimpl/CalorimeterParametersImpl.h"
#include "gearimpl/ConstantBField.h"
#include "gearimpl/FTDParametersImpl.h"
#include "gearimpl/FixedPadAngleDiskLayout.h"
#include "gearimpl/FixedPadSizeDiskLayout.h"
#include "gearimpl/RectangularPadRowLayout.h"
#include "gearimpl/SiPlanesParametersImpl.h"
#include "gearimpl/SimpleMaterialImpl.h"
#include "gearimpl/TrackerPlanesParametersImpl.h"
#include "gearimpl/VersatileDiskRowLayout.h"
#include "gearimpl/ZPlanarParametersImpl.h"

namespace sim {
using namespace gear;
bool g_noTpcModules = false;
const char* caloName[12] = {"EcalBarrel", "EcalEndcap", "EcalPlug", "YokeBarrel", "YokeEndcap", "YokePlug", "HcalBarrel", "HcalEndcap", "HcalRing", "Lcal", "LHcal", "BeamCal"};

// ------------------------------------------------------------------ facts
std::string Val::str() const {
  if (k == 'i') return std::to_string(i);
  if (k == 'd') return fmt("%.17g", d);
  if (k == 's') return "\"" + s + "\"";
  return "throws " + s;
}
void Facts::sort() {
  std::stable_sort(v.begin(), v.end(), [](const std::pair<std::string, Val>& a, const std::pair<std::string, Val>& b) { return a.first < b.first; });
}
std::string Facts::ser() const {
  std::string o;
  for (auto& p : v) {
    std::string val = p.second.k == 'i' ? std::to_string(p.second.i) : p.second.k == 'd' ? std::string((const char*)&p.second.d, 8) : p.second.s;
    uint32_t n[2] = {(uint32_t)p.first.size(), (uint32_t)val.size()};
    o.append((const char*)n, 8);
    o += p.second.k; o += p.second.rt ? '1' : '0';
    o += p.first; o += val;
  }
  return o;
}
Facts Facts::de(const char* p, size_t n) {
  Facts f;
  size_t i = 0;
  while (i + 10 <= n) {
    uint32_t l[2]; memcpy(l, p + i, 8);
    Val v; v.k = p[i + 8]; v.rt = p[i + 9] == '1';
    i += 10;
    std::string name(p + i, l[0]); i += l[0];
    std::string val(p + i, l[1]); i += l[1];
    if (v.k == 'i') v.i = strtoll(val.c_str(), 0, 10);
    else if (v.k == 'd') memcpy(&v.d, val.data(), 8);
    else v.s = val;
    f.v.emplace_back(name, v);
  }
  return f;
}
u64 Facts::hash() const { std::string s = ser(); return hashBytes(s.data(), s.size()); }

static bool sameVal(const Val& a, const Val& b, Cmp c) {
  if (a.k != b.k) return false;
  if (a.k == 'i') return a.i == b.i;
  if (a.k == 'd') {
    if (a.d == b.d || (std::isnan(a.d) && std::isnan(b.d))) return true;
    if (c == EXACT) return false;
    double m = std::max(std::fabs(a.d), std::fabs(b.d));
    return std::fabs(a.d - b.d) <= 1e-7 * m + 1e-9;
  }
  return a.s == b.s;
}
std::string diff(const Facts& a, const Facts& b, Cmp c, bool subset) {
  size_t i = 0, j = 0;
  while (i < a.v.size() || j < b.v.size()) {
    int o = i == a.v.size() ? 1 : j == b.v.size() ? -1 : a.v[i].first.compare(b.v[j].first);
    if (o < 0) {
      if (c == TOL && !a.v[i].second.rt) { ++i; continue; }
      return "missing: " + a.v[i].first + " (" + a.v[i].second.str() + ")";
    }
    if (o > 0) {
      if ((subset && b.v[j].first.find("asked for never stored") == std::string::npos) || (c == TOL && !b.v[j].second.rt)) { ++j; continue; }
      return "unexpected: " + b.v[j].first + " (" + b.v[j].second.str() + ")";
    }
    if (!(c == TOL && !a.v[i].second.rt) && !sameVal(a.v[i].second, b.v[j].second, c))
      return a.v[i].first + ": " + a.v[i].second.str() + " became " + b.v[j].second.str();
    ++i; ++j;
  }
  return "";
}
std::string excName(const std::exception& e) {
  int st = 0;
  char* n = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
  std::string s = n ? n : typeid(e).name();
  free(n);
  return s;
}

// ------------------------------------------------------------------ generation
double q9(double v) { char b[64]; snprintf(b, sizeof b, "%.9e", v); return strtod(b, 0); }
static double num(Rng& r, double a, double b) {
  switch (r.below(4)) {
    case 0: return q9(std::floor(a + r.unit() * (b - a)) == 0 ? a + r.unit() * (b - a) : std::max(a, std::floor(a + r.unit() * (b - a))));
    case 1: return q9(std::max(a, std::floor((a + r.unit() * (b - a)) * 8) / 8));
    default: return q9(a + r.unit() * (b - a));
  }
}
static double snum(Rng& r, double m) { return r.chance(8) ? 0 : (r.chance(50) ? -1 : 1) * num(r, 0, m); }
static std::string word(Rng& r, int lo, int hi, bool special) {
  static const char* base = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-+:/";
  static const char* spec = "&<>\"'#;=%$()[]{}!?*@^~|\\,";
  std::string s;
  int n = r.range(lo, hi);
  for (int i = 0; i < n; ++i) s += special && r.chance(12) ? spec[r.below(strlen(spec))] : base[r.below(strlen(base))];
  return s;
}
static std::string text(Rng& r) {
  switch (r.below(10)) {
    case 0: return "";
    case 1: return word(r, 1, 6, true) + " " + word(r, 1, 6, true);
    case 2: return " " + word(r, 1, 8, false) + "  ";
    case 3: return word(r, 40, 200, true);
    case 4: { std::string s = word(r, 1, 5, false); s += r.chance(30) ? "\xf0\x9f\x98\x80\xc3\xbf" : "\xc3\xa4\xe2\x82\xac"; return s + word(r, 0, 3, false); }
    case 5: return "&amp;" + word(r, 1, 4, true) + "&#x41;";
    case 6: return word(r, 1, 4, false) + "\t" + word(r, 1, 4, false) + "\n" + word(r, 0, 3, true);
    default: return word(r, 1, 12, true);
  }
}
// ------------------------------------------------------------------ measurement surfaces
int surfaceId(int n) { return n < 4 ? n * 3 : n * 1000003 - 77; }
namespace {
struct SurfFiller : MeasurementSurfaceStoreFiller {
  u64 seed;
  explicit SurfFiller(u64 s) : seed(s) {}
  virtual void getMeasurementSurfaces(std::vector<MeasurementSurface*>& v) const {
    Rng r(seed);
    for (int k = 0; k < 8; ++k) {
      if (r.chance(25)) continue;
      CLHEP::HepRotation rot;
      rot.rotateZ(r.unit() * 6); if (r.chance(50)) rot.rotateX(r.unit() * 3);
      IBoundary* b = nullptr;
      double w = 5 + r.unit() * 20, l = 5 + r.unit() * 20, d = r.unit(), al = r.unit();
      if (r.chance(45)) b = new BoundaryRectangle(w, l, d, al); else if (r.chance(80)) b = new BoundaryTrapezoid(w, w * 1.5, l, d, al);
      v.push_back(new MeasurementSurface(surfaceId(k), new CartesianCoordinateSystem(CLHEP::Hep3Vector(r.unit() * 100, r.unit() * 100, r.unit() * 100), rot), b));
    }
  }
  virtual std::string getName() const { return "surfaces of the simulation " + std::to_string(seed % 1000); }
};
}
void fillSurfaces(GearMgr& m, u64 seed) {
  if (Rng(seed ^ 0x5f).chance(25)) return;
  SurfFiller f(mix64(seed));
  m.getMeasurementSurfaceStore().FillStore(&f);
}

bool longParams = true;
PSpec genParams(Rng& r, int size, const std::string& salt) {
  PSpec p;
  if (r.chance(35)) return p;
  std::map<std::string, int> used;
  auto key = [&](const char* t) { std::string k; do k = std::string(t) + word(r, 1, 7, r.chance(8)) + (r.chance(5) ? " x" : ""); while (used[k]++); (void)salt; return k; };
  int n = r.range(0, 1 + size);
  for (int i = 0; i < n; ++i) p.I.emplace_back(key("i"), r.chance(10) ? (r.chance(50) ? 2147483647 : -2147483647 - 1) : r.range(-5000, 5000));
  n = r.range(0, 1 + size);
  for (int i = 0; i < n; ++i) p.D.emplace_back(key("d"), r.chance(10) ? q9(snum(r, 1) * 1e-200) : r.chance(10) ? q9(snum(r, 1) * 1e200) : snum(r, 1e4));
  n = r.range(0, 1 + size);
  for (int i = 0; i < n; ++i) p.S.emplace_back(key("s"), text(r));
  n = r.range(0, size);
  for (int i = 0; i < n; ++i) { std::vector<int> v(r.range(0, 1 + 4 * size)); for (auto& x : v) x = r.range(-300, 300); p.IV.emplace_back(key("I"), v); }
  n = r.range(0, size);
  for (int i = 0; i < n; ++i) { std::vector<double> v(r.range(0, 1 + 6 * size)); for (auto& x : v) x = snum(r, 1000); p.DV.emplace_back(key("D"), v); }
  n = r.range(0, size);
  for (int i = 0; i < n; ++i) { std::vector<std::string> v(r.range(0, 1 + 3 * size)); for (auto& x : v) x = word(r, 1, 9, true); p.SV.emplace_back(key("S"), v); }
  if (longParams && r.chance(4)) {      // now and then something long: more than any buffer on the way
    int many = r.chance(60) ? r.range(60, 700) : r.range(700, 4000);
    switch (r.below(5)) {
      case 0: { std::vector<double> v(many); for (auto& x : v) x = snum(r, 1000); p.DV.emplace_back(key("D"), v); break; }
      case 1: { std::vector<int> v(many); for (auto& x : v) x = r.range(-300, 300); p.IV.emplace_back(key("I"), v); break; }
      case 2: { std::vector<std::string> v(many); for (auto& x : v) x = word(r, 1, 9, true); p.SV.emplace_back(key("S"), v); break; }
      case 3: p.S.emplace_back(key("s"), word(r, many, 4 * many, true)); break;
      default: p.I.emplace_back(key("i") + word(r, many / 4, many / 2, false), r.range(-9, 9));
    }
  }
  return p;
}
PadSpec genPad(Rng& r, int kind, int size) {
  PadSpec p;
  p.kind = kind;
  for (double& x : p.a) x = 0;
  for (int i = 0; i < 1; ++i) {}
  if (kind == PadRowLayout2D::RECTANGULARPADROWLAYOUT) {
    double w = num(r, 50, 400);
    p.a[0] = snum(r, 200); p.a[1] = q9(p.a[0] + w); p.a[2] = r.chance(40) ? 0 : snum(r, 100);
    int n = r.range(1, 1 + size);
    for (int i = 0; i < n; ++i) {
      PadSpec::R o;
      o.n = r.range(1, 2); o.npad = r.range(1, 4 + 3 * size); o.rep = 1;
      double left = r.chance(60) ? 0 : num(r, 0, w * 0.1), right = r.chance(60) ? 0 : num(r, 0, w * 0.1);
      double per = (w - left - right) / o.npad;
      o.v[0] = q9(per * (r.chance(50) ? 0.98 : 0.5 + 0.4 * r.unit()));
      o.v[1] = num(r, 2, 12);
      o.v[2] = r.chance(50) ? o.v[1] : q9(o.v[1] * (1 + r.unit() * 0.5));
      o.v[3] = left; o.v[4] = right;
      p.rows.push_back(o);
    }
    p.repeat = r.chance(70) ? 1 : r.range(2, 3);
  } else if (kind == PadRowLayout2D::FIXEDPADSIZEDISKLAYOUT) {
    double ri = num(r, 20, 300), padH = num(r, 3, 15);
    int nr = r.range(1, 2 + size);
    p.a[0] = ri; p.a[1] = q9(ri + padH * (nr + (r.chance(50) ? 0.3 : 0)));
    p.a[2] = padH;
    double phi = r.chance(40) ? (r.chance(50) ? 6.2831853 : q9(6.28)) : num(r, 0.3, 5);
    p.a[5] = phi;
    double circ = ri * phi;
    p.a[3] = q9(circ / r.range(2, 6 + 3 * size) * 0.95);
    p.a[4] = r.chance(50) ? 0 : q9(p.a[3] * 0.05 * r.unit());
    p.n1 = r.chance(60) ? 0 : r.range(1, nr);
  } else if (kind == PadRowLayout2D::FIXEDPADANGLEDISKLAYOUT) {
    p.a[0] = num(r, 20, 300); p.a[1] = q9(p.a[0] + num(r, 10, 200));
    p.n1 = r.range(1, 2 + size);
    double lo = r.chance(50) ? 0 : snum(r, 2);
    p.a[2] = lo; p.a[3] = r.chance(30) ? q9(lo + (r.chance(50) ? 6.2831853 : 6.2)) : q9(lo + 0.2 + 4 * r.unit());
    p.n2 = r.range(1, 4 + 3 * size);
  } else {
    double ri = num(r, 50, 300);
    p.a[0] = ri;
    int n = r.range(1, 1 + size);
    double maxH = 8;
    for (int i = 0; i < n; ++i) {
      PadSpec::R o;
      o.n = 0; o.npad = r.range(2, 4 + 3 * size); o.rep = r.range(1, 2);
      double span = r.chance(40) ? (i == 0 && r.chance(50) ? 6.2831853 : 6.2) : 0.3 + 4 * r.unit();
      o.v[0] = q9(ri * span / o.npad);            // pitch in mm at the inner radius
      o.v[1] = q9(1 + r.unit() * (maxH - 1));     // row height
      o.v[2] = r.chance(40) ? 0 : q9(o.v[0] * (0.6 + 0.4 * r.unit()));  // pad width
      o.v[3] = r.chance(40) ? 0 : q9(o.v[1] * (0.6 + 0.4 * r.unit()));  // pad height
      o.v[4] = r.chance(40) ? 0 : r.chance(75) ? num(r, 0, 20) : -num(r, 0, 20);  // offset
      p.rows.push_back(o);
    }
  }
  return p;
}
ModSpec genModule(Rng& r, int id, int ctype, int size, bool moved) {
  ModSpec m;
  m.id = id;
  int kind = ctype == PadRowLayout2D::POLAR ? r.range(2, 4) : r.chance(60) ? 1 : r.range(2, 4);
  m.pad = genPad(r, kind, size);
  m.freq = num(r, 1e6, 9e7);
  bool mv = moved && r.chance(75);
  m.ox = mv ? (ctype == PadRowLayout2D::POLAR ? (r.chance(40) ? 0 : num(r, 5, 600)) : snum(r, 600)) : 0;
  m.oy = mv ? (ctype == PadRowLayout2D::POLAR ? snum(r, 3) : snum(r, 600)) : 0;
  m.angle = mv && r.chance(70) ? snum(r, 3) : 0;
  m.border = r.chance(50) ? 0 : num(r, 0.1, 4);
  m.hasZ = false; m.z = 0;
  m.p = genParams(r, size, "m");
  return m;
}
static TpcSpec genTpc(Rng& r, int size) {
  TpcSpec t;
  t.on = true;
  t.modular = r.chance(75);
  t.ctype = r.chance(50) ? PadRowLayout2D::POLAR : PadRowLayout2D::CARTESIAN;
  t.drift = num(r, 100, 3000);
  t.vel = r.chance(30) ? 0 : num(r, 1, 80);
  t.freq = num(r, 1e6, 9e7);
  t.p = genParams(r, size, "t");
  if (!t.modular) {
    t.pad = genPad(r, t.ctype == PadRowLayout2D::POLAR ? r.range(2, 4) : r.range(1, 4), size);
    return t;
  }
  int n = r.range(1, 1 + 2 * size);
  int halves = r.below(4);   // 0 none, 1 negative, 2 positive, 3 both
  double zn = -num(r, 1, 2000), zp = num(r, 1, 2000);
  int id = r.range(0, 5);
  for (int i = 0; i < n; ++i) {
    t.m.push_back(genModule(r, id, t.ctype, size, r.chance(80)));
    ModSpec& m = t.m.back();
    if (halves) {
      m.hasZ = true;
      bool neg = halves == 1 || (halves == 3 && r.chance(50));
      m.z = neg ? zn : zp;
    }
    id += r.chance(70) ? 1 : r.range(2, 40);
  }
  return t;
}
bool caloIsEndcap(int w, Rng& r) {
  static const char fixed[12] = {'b', 'e', 0, 'b', 'e', 0, 'b', 'e', 0, 0, 0, 0};
  return fixed[w] ? fixed[w] == 'e' : r.chance(50);
}
GeoSpec makeSpec(u64 seed, u64 mask, int size) {
  GeoSpec s;
  auto rng = [&](int sec) { return Rng(mix64(seed * 64 + sec)); };
  auto on = [&](int sec) { return mask >> sec & 1; };
  if (on(S_NAME)) { Rng r = rng(S_NAME); s.hasName = true; s.name = r.chance(20) ? word(r, 1, 4, false) + " & <" + word(r, 1, 4, false) + ">" : word(r, 1, 14, true); }
  if (on(S_BFIELD)) { Rng r = rng(S_BFIELD); s.hasB = true; for (double& b : s.b) b = snum(r, 5); s.bp = genParams(r, size, "b"); }
  if (on(S_TPC)) { Rng r = rng(S_TPC); s.tpc = genTpc(r, size); }
  for (int i = 0; i < 12; ++i) if (on(S_CALO + i)) {
    Rng r = rng(S_CALO + i);
    CSpec& c = s.calo[i];
    c.on = true; c.endcap = caloIsEndcap(i, r);
    c.rMin = num(r, 100, 3000); c.rMax = q9(c.rMin + num(r, 10, 2000)); c.z = num(r, 100, 4000);
    c.sym = r.range(1, 12); c.phi0 = r.chance(40) ? 0 : snum(r, 3);
    int n = r.range(0, 1 + 2 * size);
    for (int k = 0; k < n; ++k) {
      CSpec::L l = {num(r, 0.5, 20), num(r, 1, 30), num(r, 1, 30), 0, r.chance(50) ? 1 : r.range(2, 1 + 3 * size)};
      if (r.chance(70)) l.a = q9(l.t * r.unit());
      if (k && r.chance(40)) l = c.l[r.below(k)];     // equal groups next to or apart from each other
      if (r.chance(10)) l.c1 = l.c0;
      c.l.push_back(l);
    }
    if (r.chance(15)) for (auto& l : c.l) l.t = q9(1e-7 * (1 + r.unit()));   // thin layers
    c.p = genParams(r, size, "c");
    if (r.chance(i >= 9 ? 50 : 5)) c.p.D.push_back({"beam_crossing_angle", snum(r, 0.03)});
    if (r.chance(4)) c.p.I.push_back({"beam_crossing_angle", 1});
  }
  for (int i = 0; i < 3; ++i) if (on(S_VXD + i)) {
    Rng r = rng(S_VXD + i);
    ZSpec& z = s.z[i];
    z.on = true; z.type = r.range(1, 3);
    z.ri = num(r, 5, 100); z.ro = q9(z.ri + num(r, 10, 300)); z.hl = num(r, 50, 500); z.gap = r.chance(50) ? 0 : num(r, 0.1, 5); z.rad = num(r, 1, 600);
    int n = r.range(0, 1 + 2 * size);
    double d = num(r, 10, 30);
    for (int k = 0; k < n; ++k) {
      ZSpec::L l;
      l.n = r.range(3, 14); l.phi0 = r.chance(50) ? 0 : snum(r, 3);
      double lad[6] = {d, r.chance(50) ? 0 : snum(r, 3), num(r, 0.05, 1), num(r, 20, 200), q9(2 * d * std::tan(3.14159 / l.n)), num(r, 50, 400)};
      double sen[6] = {q9(d + lad[2]), lad[1], num(r, 0.01, 0.3), lad[3], q9(lad[4] * 0.9), num(r, 50, 400)};
      memcpy(l.l, lad, sizeof lad); memcpy(l.s, sen, sizeof sen);
      z.l.push_back(l);
      d = q9(d + num(r, 5, 40));
    }
    z.p = genParams(r, size, "z");
  }
  if (on(S_FTD)) {
    Rng r = rng(S_FTD);
    FSpec& f = s.ftd;
    f.on = true;
    int n = std::min(r.range(0, 1 + 2 * size), 6);
    double z = num(r, 100, 400);
    for (int k = 0; k < n; ++k) {
      FSpec::L l;
      l.np = r.range(4, 20); l.ns = r.range(1, 4); l.ds = r.chance(50); if (l.ds && l.ns % 2) ++l.ns;
      l.type = r.range(1, 2); l.op = num(r, 0.1, 0.8); l.phi0 = r.chance(50) ? 0 : snum(r, 3); l.alpha = r.chance(50) ? 0 : snum(r, 0.5);
      l.z = z; l.zo = num(r, 1, 6); l.zs = r.chance(50) ? 1 : -1;
      double a[6] = {num(r, 20, 80), num(r, 0.1, 3), num(r, 10, 40), 0, num(r, 50, 200), num(r, 50, 400)};
      a[3] = q9(a[2] + num(r, 20, 100));
      double b[6] = {q9(a[0] + 1), num(r, 0.05, 1), q9(a[2] * 0.9), q9(a[3] * 0.9), q9(a[4] * 0.9), num(r, 50, 400)};
      memcpy(l.l, a, sizeof a); memcpy(l.s, b, sizeof b);
      f.l.push_back(l);
      z = q9(z + num(r, 50, 300));
    }
    f.p = genParams(r, size, "f");
  }
  if (on(S_TP)) {
    Rng r = rng(S_TP);
    TSpec& t = s.tp;
    t.on = true; t.id = r.range(0, 99); t.type = r.range(0, 5);
    int n = r.range(0, 1 + 2 * size);
    for (int k = 0; k < n; ++k) {
      TSpec::L l;
      l.id = r.range(0, 200); l.info = r.chance(30) ? "" : word(r, 1, 10, true);
      for (bool sens : {false, true}) for (int q = r.range(sens ? 0 : 0, 2); q > 0; --q) {
        TSpec::M m;
        m.sens = sens; m.id = r.range(0, 500); m.info = r.chance(30) ? "" : word(r, 1, 10, true);
        for (int e = 0; e < 6; ++e) m.v[e] = r.chance(30) ? 0 : snum(r, e < 3 ? 500 : 3);
        m.v[6] = num(r, 1, 30); m.v[7] = num(r, 1, 30); m.v[8] = num(r, 0.01, 2); m.v[9] = num(r, 10, 400);
        m.nx = r.range(1, 2000); m.ny = r.range(1, 2000);
        m.pit[0] = num(r, 0.01, 1); m.pit[1] = num(r, 0.01, 1); m.res[0] = num(r, 0.001, 0.1); m.res[1] = num(r, 0.001, 0.1);
        l.m.push_back(m);
      }
      t.l.push_back(l);
    }
    t.num = t.l.size();
    t.p = genParams(r, size, "p");
  }
  if (on(S_SI)) {
    Rng r = rng(S_SI);
    SiSpec& t = s.si;
    t.on = true; t.id = r.range(0, 99); t.type = r.range(1, 2);
    int n = r.range(1, 2 + 2 * size);
    for (int k = 0; k < n; ++k) {
      SiSpec::L l;
      l.id = r.range(0, 300);
      for (int e = 0; e < 6; ++e) l.v[e] = r.chance(30) ? 0 : snum(r, e < 3 ? 500 : 3);
      l.v[6] = num(r, 1, 30); l.v[7] = num(r, 1, 30); l.v[8] = num(r, 0.01, 2); l.v[9] = num(r, 10, 400);
      l.sid = r.range(0, 300);
      for (int e = 0; e < 6; ++e) l.w[e] = r.chance(30) ? 0 : snum(r, e < 3 ? 500 : 3);
      l.w[6] = num(r, 1, 30); l.w[7] = num(r, 1, 30); l.w[8] = num(r, 0.01, 2);
      l.nx = r.range(1, 2000); l.ny = r.range(1, 2000); l.pit[0] = num(r, 0.01, 1); l.pit[1] = num(r, 0.01, 1);
      l.res[0] = num(r, 0.001, 0.1); l.res[1] = r.chance(50) ? l.res[0] : num(r, 0.001, 0.1); l.res[2] = r.chance(50) ? l.res[0] : num(r, 0.001, 0.1);
      static const double rot[4][4] = {{1, 0, 0, 1}, {0, 1, -1, 0}, {-1, 0, 0, 1}, {0, -1, 1, 0}};
      memcpy(l.rot, rot[r.below(4)], sizeof l.rot);
      l.rad = num(r, 10, 400);
      t.l.push_back(l);
    }
    t.num = t.l.size();
    t.did = r.range(0, 300); t.dsid = r.range(0, 300);
    for (int e = 0; e < 7; ++e) t.dv[e] = e < 3 ? snum(r, 500) : num(r, 0.1, 30);
    for (int e = 0; e < 6; ++e) t.dw[e] = e < 3 ? snum(r, 500) : num(r, 0.1, 30);
    t.dnx = r.range(1, 2000); t.dny = r.range(1, 2000); t.dpit[0] = num(r, 0.01, 1); t.dpit[1] = num(r, 0.01, 1); t.dres = num(r, 0.001, 0.1);
    t.drot[0] = 0; t.drot[1] = 1; t.drot[2] = -1; t.drot[3] = 0; t.drad = num(r, 10, 400);
    t.p = genParams(r, size, "q");
  }
  if (on(S_USER)) {
    Rng r = rng(S_USER);
    int n = r.range(1, 1 + size);
    for (int i = 0; i < n; ++i) {
      std::string nm = "U" + word(r, 1, 8, false) + std::to_string(i) + "u";
      s.user.emplace_back(nm, genParams(r, size + 1, "u"));
    }
  }
  if (on(S_MAT)) {
    Rng r = rng(S_MAT);
    int n = r.range(1, 1 + 2 * size);
    for (int i = 0; i < n; ++i) { MatSpec m; m.name = word(r, 1, 8, true) + std::to_string(i); for (double& x : m.v) x = num(r, 0.5, 300); s.mat.push_back(m); }
  }
  return s;
}
GeoSpec specOf(const Item& g) { return makeSpec((u64)g.get("seed"), (u64)g.get("mask"), (int)g.get("size")); }
u64 genMask(Rng& r, int density) {
  u64 m = 0;
  for (int i = 0; i < S_N; ++i) if (r.chance(density)) m |= 1ull << i;
  if (r.chance(8)) m = 1ull << r.below(S_N);
  if (!m) m = 1ull << r.below(S_N);
  return m;
}

// ------------------------------------------------------------------ building
void buildParams(GearParametersImpl* p, const PSpec& s) {
  for (auto& x : s.I) p->setIntVal(x.first, x.second);
  for (auto& x : s.D) p->setDoubleVal(x.first, x.second);
  for (auto& x : s.S) p->setStringVal(x.first, x.second);
  for (auto& x : s.IV) p->setIntVals(x.first, x.second);
  for (auto& x : s.DV) p->setDoubleVals(x.first, x.second);
  for (auto& x : s.SV) p->setStringVals(x.first, x.second);
}
PadRowLayout2D* buildPad(const PadSpec& s) {
  switch (s.kind) {
    case 1: {
      std::unique_ptr<RectangularPadRowLayout> l(new RectangularPadRowLayout(s.a[0], s.a[1], s.a[2]));
      for (auto& r : s.rows) l->addRow(r.n, r.npad, r.v[0], r.v[1], r.v[2], r.v[3], r.v[4]);
      if (s.repeat > 1) l->repeatRows(s.repeat);
      return l.release();
    }
    case 2: return new FixedPadSizeDiskLayout(s.a[0], s.a[1], s.a[2], s.a[3], s.n1, s.a[4], s.a[5]);
    case 3: return new FixedPadAngleDiskLayout(s.a[0], s.a[1], s.n1, s.a[2], s.a[3], s.n2);
    default: {
      std::unique_ptr<VersatileDiskRowLayout> l(new VersatileDiskRowLayout(s.a[0]));
      for (auto& r : s.rows) l->addRow(r.npad, r.v[0], r.v[1], r.v[4], r.v[2], r.v[3], r.rep);
      return l.release();
    }
  }
}
TPCModuleImpl* buildModule(const ModSpec& s, int ctype) {
  std::unique_ptr<PadRowLayout2D> pad(buildPad(s.pad));
  std::unique_ptr<TPCModuleImpl> m(new TPCModuleImpl(s.id, pad.get(), ctype, s.freq));
  pad.release();
  m->setOffset(s.ox, s.oy);
  if (s.hasZ) m->setZPosition(s.z);
  m->setAngle(s.angle);
  m->setBorderWidth(s.border);
  buildParams(m.get(), s.p);
  return m.release();
}
TPCParametersImpl* buildTpc(const TpcSpec& s) {
  std::unique_ptr<TPCParametersImpl> t(new TPCParametersImpl(s.drift, s.ctype));
  t->setDriftVelocity(s.vel);
  if (!s.modular) {
    std::unique_ptr<PadRowLayout2D> pad(buildPad(s.pad));
    t->setPadLayout(pad.get());
    pad.release();
    t->setReadoutFrequency(s.freq);
  } else if (!g_noTpcModules) {
    for (auto& ms : s.m) {
      std::unique_ptr<TPCModuleImpl> m(buildModule(ms, s.ctype));
      t->addModule(m.get());
      m.release();
    }
  }
  buildParams(t.get(), s.p);
  return t.release();
}
static ZPlanarParametersImpl* buildZ(const ZSpec& s) {
  std::unique_ptr<ZPlanarParametersImpl> z(new ZPlanarParametersImpl(s.type, s.ri, s.ro, s.hl, s.gap, s.rad));
  for (auto& l : s.l) z->addLayer(l.n, l.phi0, l.l[0], l.l[1], l.l[2], l.l[3], l.l[4], l.l[5], l.s[0], l.s[1], l.s[2], l.s[3], l.s[4], l.s[5]);
  buildParams(z.get(), s.p);
  return z.release();
}
static CalorimeterParametersImpl* buildC(const CSpec& s) {
  std::unique_ptr<CalorimeterParametersImpl> c(s.endcap ? new CalorimeterParametersImpl(s.rMin, s.rMax, s.z, s.sym, s.phi0) : new CalorimeterParametersImpl(s.rMin, s.z, s.sym, s.phi0));
  bool first = true;
  for (auto& l : s.l) for (int i = 0; i < l.rep; ++i) {
    if (first) c->layerLayout().positionLayer(s.endcap ? s.z : s.rMin, l.t, l.c0, l.c1, l.a);
    else c->layerLayout().addLayer(l.t, l.c0, l.c1, l.a);
    first = false;
  }
  buildParams(c.get(), s.p);
  return c.release();
}
static void setCalo(GearMgr* m, int i, CalorimeterParameters* c) {
  switch (i) {
    case 0: m->setEcalBarrelParameters(c); break; case 1: m->setEcalEndcapParameters(c); break; case 2: m->setEcalPlugParameters(c); break;
    case 3: m->setYokeBarrelParameters(c); break; case 4: m->setYokeEndcapParameters(c); break; case 5: m->setYokePlugParameters(c); break;
    case 6: m->setHcalBarrelParameters(c); break; case 7: m->setHcalEndcapParameters(c); break; case 8: m->setHcalRingParameters(c); break;
    case 9: m->setLcalParameters(c); break; case 10: m->setLHcalParameters(c); break; default: m->setBeamCalParameters(c);
  }
}
static const CalorimeterParameters& getCalo(const GearMgr& m, int i) {
  switch (i) {
    case 0: return m.getEcalBarrelParameters(); case 1: return m.getEcalEndcapParameters(); case 2: return m.getEcalPlugParameters();
    case 3: return m.getYokeBarrelParameters(); case 4: return m.getYokeEndcapParameters(); case 5: return m.getYokePlugParameters();
    case 6: return m.getHcalBarrelParameters(); case 7: return m.getHcalEndcapParameters(); case 8: return m.getHcalRingParameters();
    case 9: return m.getLcalParameters(); case 10: return m.getLHcalParameters(); default: return m.getBeamCalParameters();
  }
}
void buildSection(GearMgr* m, const GeoSpec& s, int sec) {
  if (sec == S_NAME && s.hasName) m->setDetectorName(s.name);
  else if (sec == S_BFIELD && s.hasB) {
    std::unique_ptr<ConstantBField> b(new ConstantBField(Vector3D(s.b[0], s.b[1], s.b[2])));
    buildParams(b.get(), s.bp);
    m->setBField(b.release());
  } else if (sec == S_TPC && s.tpc.on) m->setTPCParameters(buildTpc(s.tpc));
  else if (sec >= S_CALO && sec < S_CALO + 12 && s.calo[sec - S_CALO].on) setCalo(m, sec - S_CALO, buildC(s.calo[sec - S_CALO]));
  else if (sec == S_VXD && s.z[0].on) m->setVXDParameters(buildZ(s.z[0]));
  else if (sec == S_SIT && s.z[1].on) m->setSITParameters(buildZ(s.z[1]));
  else if (sec == S_SET && s.z[2].on) m->setSETParameters(buildZ(s.z[2]));
  else if (sec == S_FTD && s.ftd.on) {
    std::unique_ptr<FTDParametersImpl> f(new FTDParametersImpl);
    for (auto& l : s.ftd.l) f->addLayer(l.np, l.ns, l.ds, l.type, l.op, l.phi0, l.alpha, l.z, l.zo, l.zs, l.l[0], l.l[1], l.l[2], l.l[3], l.l[4], l.l[5], l.s[0], l.s[1], l.s[2], l.s[3], l.s[4], l.s[5]);
    buildParams(f.get(), s.ftd.p);
    m->setFTDParameters(f.release());
  } else if (sec == S_TP && s.tp.on) {
    std::unique_ptr<TrackerPlanesParametersImpl> t(new TrackerPlanesParametersImpl(s.tp.id, s.tp.type, s.tp.num));
    for (auto& l : s.tp.l) {
      TrackerPlanesLayerImpl li;
      li.setID(l.id); li.setInfo(l.info);
      for (auto& q : l.m) {
        if (q.sens) li.addSensitiveLayer(q.id, q.info, q.v[0], q.v[1], q.v[2], q.v[3], q.v[4], q.v[5], q.v[6], q.v[7], q.v[8], q.v[9], q.nx, q.ny, q.pit[0], q.pit[1], q.res[0], q.res[1]);
        else li.addMaterialLayer(q.id, q.info, q.v[0], q.v[1], q.v[2], q.v[3], q.v[4], q.v[5], q.v[6], q.v[7], q.v[8], q.v[9]);
      }
      t->addLayer(&li);
    }
    buildParams(t.get(), s.tp.p);
    m->setTrackerPlanesParameters(t.release());
  } else if (sec == S_SI && s.si.on) {
    std::unique_ptr<SiPlanesParametersImpl> t(new SiPlanesParametersImpl(s.si.id, s.si.type, s.si.num));
    for (auto& l : s.si.l)
      t->addLayer(l.id, l.v[0], l.v[1], l.v[2], l.v[3], l.v[4], l.v[5], l.v[6], l.v[7], l.v[8], l.v[9], l.sid, l.w[0], l.w[1], l.w[2], l.w[3], l.w[4], l.w[5], l.w[6], l.w[7], l.w[8], l.nx, l.ny, l.pit[0], l.pit[1], l.res[0], l.res[1], l.res[2], l.rot[0], l.rot[1], l.rot[2], l.rot[3], l.rad);
    const SiSpec& q = s.si;
    if (q.type == SiPlanesParameters::TelescopeWithDUT)
      t->addDUT(q.did, q.dv[0], q.dv[1], q.dv[2], q.dv[3], q.dv[4], q.dv[5], q.dv[6], q.dsid, q.dw[0], q.dw[1], q.dw[2], q.dw[3], q.dw[4], q.dw[5], q.dnx, q.dny, q.dpit[0], q.dpit[1], q.dres, q.drot[0], q.drot[1], q.drot[2], q.drot[3], q.drad);
    buildParams(t.get(), q.p);
    m->setSiPlanesParameters(t.release());
  } else if (sec == S_USER) {
    for (auto& u : s.user) {
      std::unique_ptr<GearParametersImpl> p(new GearParametersImpl);
      buildParams(p.get(), u.second);
      m->setGearParameters(u.first, p.get());
      p.release();
    }
  } else if (sec == S_MAT) {
    for (auto& x : s.mat) {
      std::unique_ptr<SimpleMaterialImpl> p(new SimpleMaterialImpl(x.name, x.v[0], x.v[1], x.v[2], x.v[3], x.v[4]));
      m->registerSimpleMaterial(p.get());
      p.release();
    }
  }
}
GearMgrImpl* build(const GeoSpec& s) {
  std::unique_ptr<GearMgrImpl> m(new GearMgrImpl);
  for (int i = 0; i < S_N; ++i) buildSection(m.get(), s, i);
  return m.release();
}

// ------------------------------------------------------------------ what every query must answer
static void exParams(Facts& f, const PSpec& p) {
  Scope sc(f, "par");
  f.i("nI", p.I.size()); f.i("nD", p.D.size()); f.i("nS", p.S.size());
  f.i("nIV", p.IV.size()); f.i("nDV", p.DV.size()); f.i("nSV", p.SV.size());
  for (auto& x : p.I) f.i("I." + x.first, x.second);
  for (auto& x : p.D) f.d("D." + x.first, x.second);
  for (auto& x : p.S) f.s("S." + x.first, x.second);
  for (auto& x : p.IV) { f.i("IV." + x.first + ".n", x.second.size()); for (size_t i = 0; i < x.second.size(); ++i) f.i("IV." + x.first + "." + std::to_string(i), x.second[i]); }
  for (auto& x : p.DV) { f.i("DV." + x.first + ".n", x.second.size()); for (size_t i = 0; i < x.second.size(); ++i) f.d("DV." + x.first + "." + std::to_string(i), x.second[i]); }
  for (auto& x : p.SV) { f.i("SV." + x.first + ".n", x.second.size()); for (size_t i = 0; i < x.second.size(); ++i) f.s("SV." + x.first + "." + std::to_string(i), x.second[i]); }
}
static void exPad(Facts& f, const PadSpec& s) {
  Scope sc(f, "pad");
  f.i("impl", s.kind);
  f.i("ctype", s.kind == 1 ? PadRowLayout2D::CARTESIAN : PadRowLayout2D::POLAR);
  auto ext = [&](double a, double b, double c, double d) { f.d("ext0", a); f.d("ext1", b); f.d("ext2", c); f.d("ext3", d); };
  if (s.kind == 1) {
    int n = 0, np = 0;
    double y = s.a[2];
    for (int k = 0; k < s.repeat; ++k) for (auto& r : s.rows) for (int i = 0; i < r.n; ++i) {
      Scope q(f, "row" + std::to_string(n));
      f.d("height", r.v[2]); f.i("npads", r.npad); f.d("p0.w", r.v[0]); f.d("p0.h", r.v[1]);
      y += r.v[2];
      np += r.npad; ++n;
    }
    f.i("nrows", n); f.i("npads", np);
    f.d("ext0", s.a[0]); f.d("ext1", s.a[1]); f.d("ext2", s.a[2]);
  } else if (s.kind == 2) {
    int nr = (int)((s.a[1] + 0.01 - s.a[0]) / s.a[2]);
    if (s.n1) nr = std::min(nr, s.n1);
    f.i("nrows", nr);
    ext(s.a[0], s.a[1], 0, s.a[5]);
  } else if (s.kind == 3) {
    f.i("nrows", s.n1); f.i("npads", (i64)s.n1 * s.n2);
    for (int i = 0; i < s.n1; ++i) { Scope q(f, "row" + std::to_string(i)); f.i("npads", s.n2); }
    ext(s.a[0], s.a[1], s.a[2], s.a[3]);
  } else {
    int n = 0, np = 0;
    for (auto& r : s.rows) for (int i = 0; i < r.rep; ++i) { Scope q(f, "row" + std::to_string(n)); f.d("height", r.v[1]); f.i("npads", r.npad); f.d("p0.h", r.v[3] == 0 ? r.v[1] : r.v[3]); ++n; np += r.npad; }
    f.i("nrows", n); f.i("npads", np);
    f.d("ext0", s.a[0]);
  }
}
static void exModule(Facts& f, const ModSpec& m, int ctype) {
  f.i("id", m.id); f.d("freq", m.freq); f.d("ox", m.ox); f.d("oy", m.oy); f.d("angle", m.angle); f.d("border", m.border); f.i("tpcctype", ctype);
  if (m.hasZ) f.d("z", m.z); else f.e("z", "gear::TPCModule::NoZPositionException");
  exPad(f, m.pad);
  exParams(f, m.p);
}
Facts expect(const GeoSpec& s) {
  Facts f;
  const char* unk = "gear::UnknownParameterException";
  if (s.hasName) f.s("name", s.name);
  if (!s.hasB) f.e("bfield", unk);
  else { Scope q(f, "bfield"); for (int i = 0; i < 3; ++i) f.d("b" + std::to_string(i), s.b[i]); exParams(f, s.bp); }
  if (!s.tpc.on) f.e("tpc", unk);
  else {
    Scope q(f, "tpc");
    const TpcSpec& t = s.tpc;
    f.d("drift", t.drift); f.d("vel", t.vel); f.i("ctype", t.ctype);
    exParams(f, t.p);
    if (!g_noTpcModules || !t.modular) {
      f.i("n", t.modular ? t.m.size() : 1);
      if (t.modular) for (auto& m : t.m) { Scope w(f, "mod" + std::to_string(m.id)); exModule(f, m, t.ctype); }
      else { Scope w(f, "mod0"); f.d("freq", t.freq); exPad(f, t.pad); }
    }
  }
  for (int i = 0; i < 12; ++i) {
    std::string nm = std::string("calo.") + caloName[i];
    const CSpec& c = s.calo[i];
    if (!c.on) { f.e(nm, unk); continue; }
    Scope q(f, nm);
    f.i("type", c.endcap ? 2 : 1); f.i("sym", c.sym); f.d("phi0", c.phi0); f.d("ext0", c.rMin);
    if (c.endcap) { f.d("ext1", c.rMax); f.d("ext2", c.z); } else { f.d("ext2", 0); f.d("ext3", c.z); }
    int n = 0;
    for (auto& l : c.l) for (int k = 0; k < l.rep; ++k) {
      Scope w(f, "l" + std::to_string(n++));
      f.d("t", l.t); f.d("c0", l.c0); f.d("c1", l.c1); f.d("a", l.a);
      if (n == 1) f.d("dist", c.endcap ? c.z : c.rMin);
    }
    f.i("n", n);
    PSpec cp = c.p;
    // the forward calorimeters always have a crossing angle
    if (nm == "calo.Lcal" || nm == "calo.LHcal" || nm == "calo.BeamCal") {
      bool has = false;
      for (auto& x : cp.D) has |= x.first == "beam_crossing_angle";
      if (!has) cp.D.push_back({"beam_crossing_angle", 0.});
    }
    exParams(f, cp);
  }
  static const char* zn[3] = {"vxd", "sit", "set"};
  for (int i = 0; i < 3; ++i) {
    const ZSpec& z = s.z[i];
    if (!z.on) { f.e(zn[i], unk); continue; }
    Scope q(f, zn[i]);
    f.i("type", z.type); f.d("ri", z.ri); f.d("ro", z.ro); f.d("hl", z.hl); f.d("gap", z.gap); f.d("rad", z.rad); f.i("n", z.l.size());
    for (size_t k = 0; k < z.l.size(); ++k) { Scope w(f, "l" + std::to_string(k)); f.i("nl", z.l[k].n); f.d("phi0", z.l[k].phi0); for (int e = 0; e < 6; ++e) { f.d("l" + std::to_string(e), z.l[k].l[e]); f.d("s" + std::to_string(e), z.l[k].s[e]); } }
    exParams(f, z.p);
  }
  if (!s.ftd.on) f.e("ftd", unk);
  else {
    Scope q(f, "ftd");
    f.i("n", s.ftd.l.size());
    for (size_t k = 0; k < s.ftd.l.size(); ++k) {
      Scope w(f, "l" + std::to_string(k));
      auto& l = s.ftd.l[k];
      f.i("np", l.np); f.i("ns", l.ns); f.i("ds", l.ds); f.i("type", l.type); f.d("op", l.op); f.d("phi0", l.phi0); f.d("alpha", l.alpha); f.d("z", l.z); f.d("zo", l.zo); f.d("zs", l.zs);
      for (int e = 0; e < 6; ++e) { f.d("l" + std::to_string(e), l.l[e]); f.d("s" + std::to_string(e), l.s[e]); }
    }
    exParams(f, s.ftd.p);
  }
  if (!s.tp.on) f.e("tp", unk);
  else {
    Scope q(f, "tp");
    f.i("id", s.tp.id); f.i("type", s.tp.type); f.i("num", s.tp.num); f.i("n", s.tp.l.size());
    for (size_t k = 0; k < s.tp.l.size(); ++k) {
      Scope w(f, "l" + std::to_string(k));
      auto& l = s.tp.l[k];
      f.i("id", l.id); f.s("info", l.info);
      int nm = 0, ns = 0;
      for (auto& m : l.m) {
        Scope x(f, m.sens ? "s" + std::to_string(ns++) : "m" + std::to_string(nm++));
        f.i("id", m.id); f.s("info", m.info);
        for (int e = 0; e < 10; ++e) f.d("v" + std::to_string(e), m.v[e]);
        if (m.sens) { f.i("nx", m.nx); f.i("ny", m.ny); f.d("px", m.pit[0]); f.d("py", m.pit[1]); f.d("rx", m.res[0]); f.d("ry", m.res[1]); }
      }
      f.i("nm", nm); f.i("ns", ns);
    }
    exParams(f, s.tp.p);
  }
  if (!s.si.on) f.e("si", unk);
  else {
    Scope q(f, "si");
    const SiSpec& t = s.si;
    f.i("id", t.id); f.i("type", t.type); f.i("num", t.num); f.i("n", t.l.size());
    for (size_t k = 0; k < t.l.size(); ++k) {
      Scope w(f, "l" + std::to_string(k));
      auto& l = t.l[k];
      f.i("id", l.id); f.i("sid", l.sid);
      for (int e = 0; e < 10; ++e) f.d("v" + std::to_string(e), l.v[e]);
      for (int e = 0; e < 9; ++e) f.d("w" + std::to_string(e), l.w[e]);
      f.i("nx", l.nx); f.i("ny", l.ny); f.d("px", l.pit[0]); f.d("py", l.pit[1]);
      for (int e = 0; e < 3; ++e) f.d("res" + std::to_string(e), l.res[e]);
      for (int e = 0; e < 4; ++e) f.d("rot" + std::to_string(e), l.rot[e]);
      f.d("rad", l.rad);
    }
    if (t.type == 1) {
      Scope w(f, "dut");
      f.i("id", t.did); f.i("sid", t.dsid);
      for (int e = 0; e < 7; ++e) f.d("v" + std::to_string(e), t.dv[e]);
      for (int e = 0; e < 6; ++e) f.d("w" + std::to_string(e), t.dw[e]);
      f.i("nx", t.dnx); f.i("ny", t.dny); f.d("px", t.dpit[0]); f.d("py", t.dpit[1]); f.d("res", t.dres); f.d("rad", t.drad);
      for (int e = 0; e < 4; ++e) f.d("rot" + std::to_string(e), t.drot[e]);
    }
    exParams(f, t.p);
  }
  f.i("user.n", s.user.size());
  for (auto& u : s.user) { Scope q(f, "user." + u.first); exParams(f, u.second); }
  f.i("mat.n", s.mat.size());
  for (auto& m : s.mat) { Scope q(f, "mat." + m.name); for (int e = 0; e < 5; ++e) f.d("v" + std::to_string(e), m.v[e]); }
  f.sort();
  return f;
}

// ------------------------------------------------------------------ answers of the code under test
template <class F> static bool guard(Facts& f, const char* name, F fn) {
  size_t n = f.v.size(), pl = f.pfx.size();
  try { fn(); return true; }
  catch (std::bad_alloc&) { throw; }
  catch (std::exception& e) { f.v.resize(n); f.pfx.resize(pl); f.e(name, excName(e)); }
  return false;
}
u64 probeUnknown = 0;
// keys that look like stored ones, or are stored as another type, must be reported as unknown
static void probeKeys(Facts& f, const GearParameters& p, const StringVec* const keys[6]) {
  Rng r(mix64(probeUnknown + f.v.size()));
  std::vector<std::string> all;
  for (int t = 0; t < 6; ++t) all.insert(all.end(), keys[t]->begin(), keys[t]->end());
  for (int t = 0; t < 6; ++t)
    for (int n = 0; n < 2; ++n) {
      std::string k;
      if (!all.empty()) {
        const std::vector<std::string>& from = n == 0 && !keys[t]->empty() ? *keys[t] : all;
        k = from[r.below(from.size())];
        switch (r.below(6)) {
        case 0: k = k.substr(0, k.size() - (k.empty() ? 0 : 1)); break;
        case 1: k = k.substr(0, r.below(k.size() + 1)); break;
        case 2: k += r.chance(50) ? " " : "1"; break;
        case 3: if (!k.empty()) k[r.below(k.size())] ^= 0x20; break;
        case 4: if (!k.empty()) ++k.back(); break;
        default: break;
        }
      }
      if (std::find(keys[t]->begin(), keys[t]->end(), k) != keys[t]->end()) continue;
      std::string got = "an answer";
      try {
        switch (t) {
        case 0: p.getIntVal(k); break; case 1: p.getDoubleVal(k); break; case 2: p.getStringVal(k); break;
        case 3: p.getIntVals(k); break; case 4: p.getDoubleVals(k); break; default: p.getStringVals(k);
        }
      } catch (const UnknownParameterException&) { continue; }
      catch (const std::exception& e) { got = e.what(); }
      static const char* tn[6] = {"int", "double", "string", "ints", "doubles", "strings"};
      f.s("asked for never stored " + std::string(tn[t]) + " '" + k + "'", got);
    }
}
void fpParams(Facts& f, const GearParameters& p) {
  Scope sc(f, "par");
  const StringVec kI = p.getIntKeys(), kD = p.getDoubleKeys(), kS = p.getStringKeys(), kIV = p.getIntVecKeys(), kDV = p.getDoubleVecKeys(), kSV = p.getStringVecKeys();
  f.i("nI", kI.size()); f.i("nD", kD.size()); f.i("nS", kS.size()); f.i("nIV", kIV.size()); f.i("nDV", kDV.size()); f.i("nSV", kSV.size());
  if (probeUnknown) { const StringVec* const ks[6] = {&kI, &kD, &kS, &kIV, &kDV, &kSV}; probeKeys(f, p, ks); }
  for (auto& k : kI) f.i("I." + k, p.getIntVal(k));
  for (auto& k : kD) f.d("D." + k, p.getDoubleVal(k));
  for (auto& k : kS) f.s("S." + k, p.getStringVal(k));
  for (auto& k : kIV) { const IntVec& v = p.getIntVals(k); f.i("IV." + k + ".n", v.size()); for (size_t i = 0; i < v.size(); ++i) f.i("IV." + k + "." + std::to_string(i), v[i]); }
  for (auto& k : kDV) { const DoubleVec& v = p.getDoubleVals(k); f.i("DV." + k + ".n", v.size()); for (size_t i = 0; i < v.size(); ++i) f.d("DV." + k + "." + std::to_string(i), v[i]); }
  for (auto& k : kSV) { const StringVec& v = p.getStringVals(k); f.i("SV." + k + ".n", v.size()); for (size_t i = 0; i < v.size(); ++i) f.s("SV." + k + "." + std::to_string(i), v[i]); }
}
static void fpPoint(Facts& f, const PadRowLayout2D& p, double a, double b, int n) {
  Scope q(f, "pt" + std::to_string(n));
  bool rt = f.rt; f.rt = false;
  guard(f, "near", [&] { int k = p.getNearestPad(a, b); f.i("near", k); });
  guard(f, "ins", [&] { f.i("ins", p.isInsidePad(a, b)); });
  f.rt = rt;
}
void fpPad(Facts& f, const PadRowLayout2D& p, int maxPads) {
  Scope sc(f, "pad");
  f.i("impl", p.getPadLayoutImplType()); f.i("ltype", p.getPadLayoutType()); f.i("ctype", p.getCoordinateType()); f.i("shape", p.getPadShape());
  f.i("npads", p.getNPads()); f.i("nrows", p.getNRows());
  const DoubleVec ext = p.getPlaneExtent();
  for (size_t i = 0; i < ext.size(); ++i) f.d("ext" + std::to_string(i), ext[i]);
  int nr = p.getNRows();
  for (int r = 0; r < nr; ++r) {
    Scope q(f, "row" + std::to_string(r));
    f.d("height", p.getRowHeight(r));
    const std::vector<int>& pads = p.getPadsInRow(r);
    f.i("npads", pads.size());
    u64 h = 7;
    for (int x : pads) h = mix64(h ^ (u64)x);
    f.i("ids", (i64)(h >> 1));
    int np = pads.size();
    for (int k = 0, c = 0; k < np && c < maxPads; k = k == 0 && np > 2 ? np / 2 : k < np - 1 ? np - 1 : np, ++c) {
      Scope w(f, "p" + std::to_string(k));
      int id = pads[k];
      f.i("row", p.getRowNumber(id)); f.i("num", p.getPadNumber(id)); f.i("idx", p.getPadIndex(r, k));
      f.d("w", p.getPadWidth(id)); f.d("h", p.getPadHeight(id)); f.d("pitch", p.getPadPitch(id));
      Vector2D cc = p.getPadCenter(id);
      f.d("c0", cc[0]); f.d("c1", cc[1]);
      guard(f, "right", [&] { f.i("right", p.getRightNeighbour(id)); });
      guard(f, "left", [&] { f.i("left", p.getLeftNeighbour(id)); });
      bool rt = f.rt; f.rt = false;
      guard(f, "insC", [&] { f.i("insC", p.isInsidePad(cc[0], cc[1], id)); });
      guard(f, "nearC", [&] { f.i("nearC", p.getNearestPad(cc[0], cc[1])); });
      f.rt = rt;
      guard(f, "dist", [&] { f.d("dist", p.getDistanceToPad(cc[0] + 1.5, cc[1] + 0.1, id)); });
    }
  }
  if (ext.size() == 4 && nr > 0) {
    double dx = ext[1] - ext[0], dy = ext[3] - ext[2];
    fpPoint(f, p, ext[0] + dx * 0.001, ext[2] + dy * 0.001, 0);
    fpPoint(f, p, ext[1] - dx * 0.001, ext[3] - dy * 0.001, 1);
    fpPoint(f, p, ext[0] + dx * 0.37, ext[2] + dy * 0.61, 2);
    fpPoint(f, p, ext[0] + dx * 1.2, ext[2] - dy * 0.1, 3);
  }
}
void fpModule(Facts& f, const TPCModule& m) {
  f.i("id", m.getModuleID()); f.d("freq", m.getReadoutFrequency()); f.d("ox", m.getOffset()[0]); f.d("oy", m.getOffset()[1]); f.d("angle", m.getAngle()); f.d("border", m.getBorderWidth());
  f.i("tpcctype", m.getTPCCoordinateType()); f.i("mltype", m.getPadLayoutType()); f.i("mctype", m.getCoordinateType()); f.i("mimpl", m.getPadLayoutImplType());
  guard(f, "z", [&] { f.d("z", m.getZPosition()); });
  fpPad(f, m.getLocalPadLayout(), 3);
  fpParams(f, m);
  const DoubleVec e[3] = {m.getPlaneExtent(), m.getModuleExtent(), m.getLocalModuleExtent()};
  for (int k = 0; k < 3; ++k) for (size_t i = 0; i < e[k].size(); ++i) f.d(fmt("mext%d%d", k, (int)i), e[k][i]);
  f.i("mnpads", m.getNPads()); f.i("mnrows", m.getNRows());
  if (m.getNRows() > 0) {
    const std::vector<int>& pads = m.getPadsInRow(m.getNRows() - 1);
    if (!pads.empty()) {
      int id = pads[pads.size() / 2];
      Vector2D c = m.getPadCenter(id);
      f.d("gc0", c[0]); f.d("gc1", c[1]);
      Vector2D l = m.globalToLocal(c[0], c[1]);
      f.d("lc0", l[0]); f.d("lc1", l[1]);
      bool rt = f.rt; f.rt = false;
      guard(f, "gnear", [&] { f.i("gnear", m.getNearestPad(c[0], c[1])); });
      f.i("ginsm", m.isInsideModule(c[0], c[1]));
      guard(f, "ginsp", [&] { f.i("ginsp", m.isInsidePad(c[0], c[1])); f.i("ginsi", m.isInsidePad(c[0], c[1], id)); });
      f.rt = rt;
      guard(f, "gdm", [&] { f.d("gdm", m.getDistanceToModule(c[0] + 700, c[1] + 0.3)); });
      guard(f, "gdp", [&] { f.d("gdp", m.getDistanceToPad(c[0] + 5, c[1] + 0.3, id)); });
    }
  }
}
void fpTpc(Facts& f, const TPCParameters& t) {
  f.d("drift", t.getMaxDriftLength()); f.d("vel", t.getDriftVelocity()); f.i("ctype", t.getCoordinateType()); f.i("n", t.getNModules());
  fpParams(f, t);
  guard(f, "ext", [&] { const DoubleVec& e = t.getPlaneExtent(); for (size_t i = 0; i < e.size(); ++i) f.d("ext" + std::to_string(i), e[i]); });
  guard(f, "freq", [&] { f.d("freq", t.getReadoutFrequency()); });
  guard(f, "layout", [&] { f.i("layout", t.getPadLayout().getNPads()); });
  const std::vector<TPCModule*>& ms = t.getModules();
  for (size_t i = 0; i < ms.size(); ++i) {
    Scope q(f, "mod" + std::to_string(ms[i]->getModuleID()));
    f.i("order", i);
    f.i("byid", &t.getModule(ms[i]->getModuleID()) == ms[i]);
    fpModule(f, *ms[i]);
  }
  guard(f, "nomod", [&] { f.i("nomod", t.getModule(987654321).getModuleID()); });
  bool rt = f.rt; f.rt = false;
  guard(f, "pos", [&] {
    const DoubleVec e = t.getPlaneExtent();
    for (int k = 0; k < 3; ++k) {
      double a = e[0] + (e[1] - e[0]) * (0.2 + 0.31 * k), b = e[2] + (e[3] - e[2]) * (0.3 + 0.23 * k);
      Scope q(f, "pos" + std::to_string(k));
      guard(f, "nm", [&] { f.i("nm", t.getNearestModule(a, b).getModuleID()); });
      guard(f, "np", [&] { GlobalPadIndex g = t.getNearestPad(a, b); f.i("npm", g.getModuleID()); f.i("npp", g.getPadIndex()); });
      f.i("im", t.isInsideModule(a, b)); f.i("ip", t.isInsidePad(a, b));
      for (double z : {-5000., 0.1, 5000.}) {
        Scope w(f, fmt("z%g", z));
        guard(f, "nm", [&] { f.i("nm", t.getNearestModule(a, b, z).getModuleID()); });
        guard(f, "np", [&] { GlobalPadIndex g = t.getNearestPad(a, b, z); f.i("npm", g.getModuleID()); f.i("npp", g.getPadIndex()); });
        f.i("im", t.isInsideModule(a, b, z)); f.i("ip", t.isInsidePad(a, b, z));
      }
    }
  });
  f.rt = rt;
}
static void fpZ(Facts& f, const ZPlanarParameters& z, bool geom) {
  f.i("type", z.getType()); f.i("vtype", z.getVXDType()); f.d("ri", z.getShellInnerRadius()); f.d("ro", z.getShellOuterRadius()); f.d("hl", z.getShellHalfLength()); f.d("gap", z.getShellGap()); f.d("rad", z.getShellRadLength());
  const ZPlanarLayerLayout& l = z.getZPlanarLayerLayout();
  int n = l.getNLayers();
  f.i("n", n);
  for (int i = 0; i < n; ++i) {
    Scope w(f, "l" + std::to_string(i));
    f.i("nl", l.getNLadders(i)); f.d("phi0", l.getPhi0(i));
    f.d("l0", l.getLadderDistance(i)); f.d("l1", l.getLadderOffset(i)); f.d("l2", l.getLadderThickness(i)); f.d("l3", l.getLadderLength(i)); f.d("l4", l.getLadderWidth(i)); f.d("l5", l.getLadderRadLength(i));
    f.d("s0", l.getSensitiveDistance(i)); f.d("s1", l.getSensitiveOffset(i)); f.d("s2", l.getSensitiveThickness(i)); f.d("s3", l.getSensitiveLength(i)); f.d("s4", l.getSensitiveWidth(i)); f.d("s5", l.getSensitiveRadLength(i));
  }
  guard(f, "over", [&] { f.d("over", l.getLadderDistance(n)); });
  fpParams(f, z);
  if (geom && n > 0) {
    bool rt = f.rt; f.rt = false;
    double ph = l.getPhi0(0), d = l.getLadderDistance(0) + l.getLadderThickness(0) / 2, hl = l.getLadderLength(0) / 2 + z.getShellGap() / 2;
    Vector3D p(d * std::cos(ph), d * std::sin(ph), hl), far(300, 20, 15), dir(1, 0.2, 0.1);
    f.i("inl", z.isPointInLadder(p)); f.i("ins", z.isPointInSensitive(p)); f.i("inf", z.isPointInLadder(far));
    Vector3D a = z.distanceToNearestLadder(far), b = z.distanceToNearestSensitive(far), c = z.intersectionLadder(Vector3D(0, 0, 5), dir), e = z.intersectionSensitive(Vector3D(0, 0, 5), dir);
    const Vector3D* q[4] = {&a, &b, &c, &e};
    for (int i = 0; i < 4; ++i) { f.d(fmt("g%dx", i), q[i]->x()); f.d(fmt("g%dy", i), q[i]->y()); f.d(fmt("g%dz", i), q[i]->z()); }
    f.rt = rt;
  }
}
static void fpCalo(Facts& f, const CalorimeterParameters& c) {
  f.i("type", c.getLayoutType()); f.i("sym", c.getSymmetryOrder()); f.d("phi0", c.getPhi0());
  const DoubleVec& e = c.getExtent();
  for (size_t i = 0; i < e.size(); ++i) f.d("ext" + std::to_string(i), e[i]);
  const LayerLayout& l = c.getLayerLayout();
  int n = l.getNLayers();
  f.i("n", n);
  for (int i = 0; i < n; ++i) { Scope w(f, "l" + std::to_string(i)); f.d("dist", l.getDistance(i)); f.d("t", l.getThickness(i)); f.d("a", l.getAbsorberThickness(i)); f.d("c0", l.getCellSize0(i)); f.d("c1", l.getCellSize1(i)); }
  guard(f, "over", [&] { f.d("over", l.getThickness(n)); });
  fpParams(f, c);
}
static void fpFtd(Facts& f, const FTDParameters& p, bool geom) {
  const FTDLayerLayout& l = p.getFTDLayerLayout();
  int n = l.getNLayers();
  f.i("n", n);
  for (int i = 0; i < n; ++i) {
    Scope w(f, "l" + std::to_string(i));
    f.i("np", l.getNPetals(i)); f.i("ns", l.getNSensors(i)); f.i("ds", l.isDoubleSided(i)); f.i("type", l.getSensorType(i)); f.d("op", l.getPhiHalfDistance(i)); f.d("phi0", l.getPhi0(i)); f.d("alpha", l.getAlpha(i)); f.d("z", l.getZposition(i)); f.d("zo", l.getZoffset(i)); f.d("zs", l.getZoffsetSign0(i));
    f.d("l0", l.getSupportRinner(i)); f.d("l1", l.getSupportThickness(i)); f.d("l2", l.getSupportLengthMin(i)); f.d("l3", l.getSupportLengthMax(i)); f.d("l4", l.getSupportWidth(i)); f.d("l5", l.getSupportRadLength(i));
    f.d("s0", l.getSensitiveRinner(i)); f.d("s1", l.getSensitiveThickness(i)); f.d("s2", l.getSensitiveLengthMin(i)); f.d("s3", l.getSensitiveLengthMax(i)); f.d("s4", l.getSensitiveWidth(i)); f.d("s5", l.getSensitiveRadLength(i));
    f.d("supz", l.getSupportZposition(i, 1)); f.d("senz", l.getSensitiveZposition(i, 2, 1)); f.d("phic", l.getPhiPetalCd(i, 3)); f.d("rmax", l.getMaxRadius(i, true)); f.d("sphi", l.getStartPhi(i, 0)); f.d("ephi", l.getEndPhi(i, 0));
    guard(f, "senz9", [&] { f.d("senz9", l.getSensitiveZposition(i, 0, l.getNSensors(i) + 1)); });
    if (geom) f.d("tfa", l.getThicknessForAngle(i, 0.7, 0.3));
  }
  fpParams(f, p);
}
static void fpTp(Facts& f, const TrackerPlanesParameters& p) {
  f.i("id", p.getLayoutID()); f.i("type", p.getLayoutType()); f.i("num", p.getLayoutNumberOfLayers());
  const TrackerPlanesLayerLayout& l = p.getTrackerPlanesLayerLayout();
  int n = l.getNLayers();
  f.i("n", n);
  for (int i = 0; i < n; ++i) {
    Scope w(f, "l" + std::to_string(i));
    TrackerPlanesLayerImpl* y = const_cast<TrackerPlanesLayerImpl*>(l.getLayer(i));
    f.i("id", y->getID()); f.s("info", y->getInfo()); f.i("nm", y->getNMaterialLayers()); f.i("ns", y->getNSensitiveLayers());
    f.i("byid", l.getLayerByID(y->getID()) != 0);
    auto& mv = y->getMaterialLayerVec();
    for (size_t k = 0; k < mv.size(); ++k) {
      Scope x(f, "m" + std::to_string(k));
      auto& m = mv[k];
      f.i("id", m.getID()); f.s("info", m.getInfo());
      double v[10] = {m.getPositionX(), m.getPositionY(), m.getPositionZ(), m.getRotationXY(), m.getRotationZX(), m.getRotationZY(), m.getSizeX(), m.getSizeY(), m.getThickness(), m.getRadLength()};
      for (int e = 0; e < 10; ++e) f.d("v" + std::to_string(e), v[e]);
    }
    auto& sv = y->getSensitiveLayerVec();
    for (size_t k = 0; k < sv.size(); ++k) {
      Scope x(f, "s" + std::to_string(k));
      auto& m = sv[k];
      f.i("id", m.getID()); f.s("info", m.getInfo());
      double v[10] = {m.getPositionX(), m.getPositionY(), m.getPositionZ(), m.getRotationXY(), m.getRotationZX(), m.getRotationZY(), m.getSizeX(), m.getSizeY(), m.getThickness(), m.getRadLength()};
      for (int e = 0; e < 10; ++e) f.d("v" + std::to_string(e), v[e]);
      f.i("nx", m.getNpixelX()); f.i("ny", m.getNpixelY()); f.d("px", m.getPitchX()); f.d("py", m.getPitchY()); f.d("rx", m.getResolutionX()); f.d("ry", m.getResolutionY());
    }
  }
  f.i("over", l.getLayer(n) != 0);
  fpParams(f, p);
}
static void fpSi(Facts& f, const SiPlanesParameters& p) {
  f.i("id", p.getSiPlanesID()); f.i("type", p.getSiPlanesType()); f.i("num", p.getSiPlanesNumber());
  const SiPlanesLayerLayout& l = p.getSiPlanesLayerLayout();
  int n = l.getNLayers();
  f.i("n", n);
  for (int i = 0; i < n; ++i) {
    Scope w(f, "l" + std::to_string(i));
    f.i("id", l.getID(i)); f.i("sid", l.getSensitiveID(i));
    double v[10] = {l.getLayerPositionX(i), l.getLayerPositionY(i), l.getLayerPositionZ(i), l.getLayerRotationXY(i), l.getLayerRotationZX(i), l.getLayerRotationZY(i), l.getLayerSizeX(i), l.getLayerSizeY(i), l.getLayerThickness(i), l.getLayerRadLength(i)};
    double u[9] = {l.getSensitivePositionX(i), l.getSensitivePositionY(i), l.getSensitivePositionZ(i), l.getSensitiveRotationXY(i), l.getSensitiveRotationZX(i), l.getSensitiveRotationZY(i), l.getSensitiveSizeX(i), l.getSensitiveSizeY(i), l.getSensitiveThickness(i)};
    for (int e = 0; e < 10; ++e) f.d("v" + std::to_string(e), v[e]);
    for (int e = 0; e < 9; ++e) f.d("w" + std::to_string(e), u[e]);
    f.i("nx", l.getSensitiveNpixelX(i)); f.i("ny", l.getSensitiveNpixelY(i)); f.d("px", l.getSensitivePitchX(i)); f.d("py", l.getSensitivePitchY(i));
    f.d("res0", l.getSensitiveResolution(i)); f.d("res1", l.getSensitiveResolutionX(i)); f.d("res2", l.getSensitiveResolutionY(i));
    f.d("rot0", l.getSensitiveRotation1(i)); f.d("rot1", l.getSensitiveRotation2(i)); f.d("rot2", l.getSensitiveRotation3(i)); f.d("rot3", l.getSensitiveRotation4(i));
    f.d("rad", l.getSensitiveRadLength(i));
  }
  if (p.getSiPlanesType() == SiPlanesParameters::TelescopeWithDUT) {
    Scope w(f, "dut");
    f.i("id", l.getDUTID()); f.i("sid", l.getDUTSensitiveID());
    double v[7] = {l.getDUTPositionX(), l.getDUTPositionY(), l.getDUTPositionZ(), l.getDUTSizeX(), l.getDUTSizeY(), l.getDUTThickness(), l.getDUTRadLength()};
    double u[6] = {l.getDUTSensitivePositionX(), l.getDUTSensitivePositionY(), l.getDUTSensitivePositionZ(), l.getDUTSensitiveSizeX(), l.getDUTSensitiveSizeY(), l.getDUTSensitiveThickness()};
    for (int e = 0; e < 7; ++e) f.d("v" + std::to_string(e), v[e]);
    for (int e = 0; e < 6; ++e) f.d("w" + std::to_string(e), u[e]);
    f.i("nx", l.getDUTSensitiveNpixelX()); f.i("ny", l.getDUTSensitiveNpixelY()); f.d("px", l.getDUTSensitivePitchX()); f.d("py", l.getDUTSensitivePitchY()); f.d("res", l.getDUTSensitiveResolution()); f.d("rad", l.getDUTSensitiveRadLength());
    f.d("rot0", l.getDUTSensitiveRotation1()); f.d("rot1", l.getDUTSensitiveRotation2()); f.d("rot2", l.getDUTSensitiveRotation3()); f.d("rot3", l.getDUTSensitiveRotation4());
  }
  fpParams(f, p);
}
Facts fingerprint(const GearMgr& m, bool geometric) {
  Facts f;
  // a description without a name is that of the detector "Unknown"
  f.rt = false;
  try { std::string n = m.getDetectorName(); f.rt = true; f.s("name", n); } catch (const std::bad_alloc&) { throw; } catch (const std::exception& e) { f.e("name", excName(e)); }
  f.rt = true;
  guard(f, "bfield", [&] { const BField& b = m.getBField(); Scope q(f, "bfield"); Vector3D v = b.at(Vector3D(1, 2, 3)); f.d("b0", v.x()); f.d("b1", v.y()); f.d("b2", v.z()); fpParams(f, b); });
  guard(f, "tpc", [&] { const TPCParameters& t = m.getTPCParameters(); Scope q(f, "tpc"); fpTpc(f, t); });
  for (int i = 0; i < 12; ++i) { std::string nm = std::string("calo.") + caloName[i]; guard(f, nm.c_str(), [&] { const CalorimeterParameters& c = getCalo(m, i); Scope q(f, nm); fpCalo(f, c); }); }
  guard(f, "vxd", [&] { const ZPlanarParameters& z = m.getVXDParameters(); Scope q(f, "vxd"); fpZ(f, z, geometric); });
  guard(f, "sit", [&] { const ZPlanarParameters& z = m.getSITParameters(); Scope q(f, "sit"); fpZ(f, z, geometric); });
  guard(f, "set", [&] { const ZPlanarParameters& z = m.getSETParameters(); Scope q(f, "set"); fpZ(f, z, geometric); });
  guard(f, "ftd", [&] { const FTDParameters& z = m.getFTDParameters(); Scope q(f, "ftd"); fpFtd(f, z, geometric); });
  guard(f, "tp", [&] { const TrackerPlanesParameters& z = m.getTrackerPlanesParameters(); Scope q(f, "tp"); fpTp(f, z); });
  guard(f, "si", [&] { const SiPlanesParameters& z = m.getSiPlanesParameters(); Scope q(f, "si"); fpSi(f, z); });
  guard(f, "pp", [&] { m.getPointProperties(); f.i("pp", 1); });
  guard(f, "dp", [&] { m.getDistanceProperties(); f.i("dp", 1); });
  const StringVec keys = m.getGearParameterKeys();
  f.i("user.n", keys.size());
  for (auto& k : keys) { Scope q(f, "user." + k); fpParams(f, m.getGearParameters(k)); }
  guard(f, "user?", [&] { m.getGearParameters("never stored \x01"); f.i("user?", 1); });
  const StringVec mats = m.getMaterialNames();
  f.i("mat.n", mats.size());
  for (auto& k : mats) {
    Scope q(f, "mat." + k);
    const SimpleMaterial& x = m.getSimpleMaterial(k);
    f.s("nm", x.getName()); f.d("v0", x.getA()); f.d("v1", x.getZ()); f.d("v2", x.getDensity()); f.d("v3", x.getRadLength()); f.d("v4", x.getIntLength());
  }
  guard(f, "mat?", [&] { m.getSimpleMaterial("never stored \x01"); f.i("mat?", 1); });
  f.sort();
  return f;
}

// ------------------------------------------------------------------ independent writer
namespace {
struct W {
  std::string o;
  Rng r;
  int ind = 0;
  int style;      // 0 one per line, 1 compact, 2 wild
  bool legacy = true;   // also the older ways to write the same thing
  W(u64 s) : r(s) { style = r.below(3); }
  // a comment that reads like a tag of the description
  std::string aside() {
    static const char* tag[] = {"gear", "global", "BField", "detectors", "detector", "materials", "material", "parameter", "layer", "layers", "layout", "dimensions", "row", "modules", "module", "default", "PadRowLayout2D", "driftVelocity", "ladder", "sensitive", "support", "shell", "vxdType", "siplanesID", "dut", "LayoutID", "moduleID", "GDMLFile"};
    return std::string("<!--") + tag[r.below(sizeof tag / sizeof *tag)] + "-->";
  }
  void nl() {
    if (style == 1) return;
    o += '\n';
    o.append(style == 2 ? r.below(6) : ind * 2, ' ');
    if (style == 2 && r.chance(6)) o += r.chance(60) ? "<!-- " + word(r, 1, 20, false) + " <x> -->" : aside();
  }
  bool utf = false;      // known to be UTF-8 to the reader
  std::string esc(const std::string& s, char q) {
    std::string t;
    for (size_t i = 0; i < s.size(); ++i) {
      unsigned char c = (unsigned char)s[i];
      if (utf && c >= 0xc0 && r.chance(50)) {      // a character beyond ASCII by its number
        int n = c >= 0xf0 ? 4 : c >= 0xe0 ? 3 : 2;
        unsigned u = c & (0xff >> (n + 1));
        for (int k = 1; k < n; ++k) u = u << 6 | ((unsigned char)s[i + k] & 0x3f);
        t += r.chance(50) ? fmt("&#%u;", u) : r.chance(50) ? fmt("&#x%x;", u) : fmt("&#x%X;", u);
        i += n - 1;
      }
      else if (c == '&') t += r.chance(70) ? "&amp;" : "&#38;";
      else if (c == '<') t += r.chance(70) ? "&lt;" : "&#x3C;";
      else if (c == '>') t += "&gt;";
      else if (c == '"') t += q == '"' ? "&quot;" : "\"";
      else if (c == '\'') t += q == '\'' ? "&apos;" : "'";
      else if (c < 32) t += fmt("&#x%02X;", c);
      else t += (char)c;
    }
    return t;
  }
  std::string dbl(double v) {
    if (style == 2 && r.chance(40)) return fmt("%.17g", v);
    char b[64];
    for (int p = 1; p <= 17; ++p) { snprintf(b, sizeof b, "%.*g", p, v); if (strtod(b, 0) == v) break; }
    return b;
  }
  typedef std::vector<std::pair<std::string, std::string>> A;
  void open(const std::string& n, A a = A(), bool close = false) {
    nl();
    o += '<' + n;
    if (style == 2 && a.size() > 1) for (size_t i = a.size() - 1; i > 0; --i) std::swap(a[i], a[r.below(i + 1)]);
    for (auto& x : a) {
      o += style == 2 && r.chance(10) ? "\n   " : " ";
      char q = r.chance(style == 2 ? 60 : 95) && x.second.find('"') == std::string::npos ? '"' : x.second.find('\'') == std::string::npos ? '\'' : '"';
      o += x.first + (style == 2 && r.chance(10) ? " = " : "=") + q + esc(x.second, q) + q;
    }
    if (close) o += style == 2 && r.chance(20) ? "></" + n + ">" : r.chance(50) ? " />" : "/>";
    else { o += '>'; ++ind; }
  }
  void close(const std::string& n) { --ind; nl(); o += "</" + n + ">"; }
  void el(const std::string& n, const A& a) { open(n, a, true); }
  std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += (s.empty() ? "" : r.chance(style == 2 ? 20 : 0) ? "  " : " ") + x; return s; }
  void param(const std::string& n, const std::string& t, const std::string& v, bool simple) {
    if (simple && !v.empty() && r.chance(25)) { nl(); o += "<parameter name=\"" + esc(n, '"') + "\" type=\"" + t + "\">" + (style == 2 && r.chance(20) ? aside() : "") + (r.chance(50) ? " " : "") + esc(v, '"') + (r.chance(50) ? " " : "") + "</parameter>"; return; }
    el("parameter", {{"name", n}, {"type", t}, {"value", v}});
  }
  void params(const PSpec& p) {
    std::vector<std::function<void()>> f;
    for (auto& x : p.I) f.push_back([&] { param(x.first, "int", std::to_string(x.second), true); });
    for (auto& x : p.D) f.push_back([&] { param(x.first, "double", dbl(x.second), true); });
    for (auto& x : p.S) f.push_back([&] { param(x.first, "string", x.second, false); });
    for (auto& x : p.IV) f.push_back([&] { std::vector<std::string> v; for (int i : x.second) v.push_back(std::to_string(i)); param(x.first, "IntVec", join(v), false); });
    for (auto& x : p.DV) f.push_back([&] { std::vector<std::string> v; for (double i : x.second) v.push_back(dbl(i)); param(x.first, "DoubleVec", join(v), false); });
    for (auto& x : p.SV) f.push_back([&] { param(x.first, "StringVec", join(x.second), false); });
    if (style == 2) for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[r.below(i)]);
    for (auto& x : f) x();
  }
  std::string I(i64 v) { return std::to_string(v); }
  void pad(const PadSpec& s) {
    if (s.kind == 1) {
      A a = {{"type", "RectangularPadRowLayout"}, {"xMin", dbl(s.a[0])}, {"xMax", dbl(s.a[1])}, {"yMin", dbl(s.a[2])}};
      if (s.repeat > 1) a.push_back({"repeatRows", I(s.repeat)});
      open("PadRowLayout2D", a);
      for (auto& x : s.rows) {
        A b = {{"nPad", I(x.npad)}, {"padWidth", dbl(x.v[0])}, {"padHeight", dbl(x.v[1])}};
        if (x.n != 1 || r.chance(50)) b.push_back({"repeat", I(x.n)});
        if (x.v[2] != x.v[1] || r.chance(50)) b.push_back({"rowHeight", dbl(x.v[2])});
        if (x.v[3] != 0 || r.chance(50)) b.push_back({"leftOffset", dbl(x.v[3])});
        if (x.v[4] != 0 || r.chance(50)) b.push_back({"rightOffset", dbl(x.v[4])});
        el("row", b);
      }
      close("PadRowLayout2D");
    } else if (s.kind == 2) {
      A a = {{"type", "FixedPadSizeDiskLayout"}, {"rMin", dbl(s.a[0])}, {"rMax", dbl(s.a[1])}, {"padHeight", dbl(s.a[2])}, {"padWidth", dbl(s.a[3])}, {"phiMax", dbl(s.a[5])}, {"maxRow", I(s.n1)}};
      a.push_back({"padGap", dbl(s.a[4])});
      el("PadRowLayout2D", a);
    } else if (s.kind == 3) {
      el("PadRowLayout2D", {{"type", "FixedPadAngleDiskLayout"}, {"rMin", dbl(s.a[0])}, {"rMax", dbl(s.a[1])}, {"nRow", I(s.n1)}, {"phiMin", dbl(s.a[2])}, {"phiMax", dbl(s.a[3])}, {"nPadsInRow", I(s.n2)}});
    } else {
      open("PadRowLayout2D", {{"type", "VersatileDiskRowLayout"}, {"rMin", dbl(s.a[0])}});
      for (auto& x : s.rows) {
        A b = {{"nPad", I(x.npad)}, {"padPitch", dbl(x.v[0])}, {"rowHeight", dbl(x.v[1])}};
        if (x.v[2] != 0) b.push_back({"padWidth", dbl(x.v[2])});
        if (x.v[3] != 0) b.push_back({"padHeight", dbl(x.v[3])});
        if (x.v[4] != 0) b.push_back({"offset", dbl(x.v[4])});
        if (x.rep != 1) b.push_back({"repeat", I(x.rep)});
        el("row", b);
      }
      close("PadRowLayout2D");
    }
  }
  void module(const ModSpec& m, const ModSpec* def, bool implicitId, bool defZ) {
    open("module");
    if (!implicitId) el("moduleID", {{"value", I(m.id)}});
    if (!def || def->freq != m.freq) el("readoutFrequency", {{"value", dbl(m.freq)}});
    if (!def || def != &m) pad(m.pad);
    if (def ? (def->ox != m.ox || def->oy != m.oy) : (m.ox != 0 || m.oy != 0 || r.chance(30))) el("offset", {{"x_r", dbl(m.ox)}, {"y_phi", dbl(m.oy)}});
    if (m.hasZ && !(defZ && def->z == m.z)) el("zPosition", {{"value", dbl(m.z)}});
    if (def ? def->angle != m.angle : (m.angle != 0 || r.chance(30))) el("angle", {{"value", dbl(m.angle)}});
    if (def ? def->border != m.border : (m.border != 0 || r.chance(30))) el("enlargeActiveAreaBy", {{"value", dbl(m.border)}});
    params(m.p);
    close("module");
  }
  void detOpen(const std::string& n, const char* t) { open("detector", {{"name", n}, {"geartype", t}}); }
  void tpc(const TpcSpec& t) {
    detOpen("TPC", "TPCParameters");
    el("maxDriftLength", {{"value", dbl(t.drift)}});
    bool old = !t.modular && t.ctype == PadRowLayout2D::CARTESIAN && t.pad.kind == 1 && r.chance(50) && legacy;
    el("driftVelocity", {{"value", dbl(t.vel)}});
    if (old) {
      el("readoutFrequency", {{"value", dbl(t.freq)}});
      pad(t.pad);
    } else {
      el("coordinateType", {{"value", t.ctype == PadRowLayout2D::POLAR ? "polar" : "cartesian"}});
      std::vector<ModSpec> ms = t.m;
      if (!t.modular) { ModSpec m; m.id = 0; m.pad = t.pad; m.freq = t.freq; m.ox = m.oy = m.angle = m.border = m.z = 0; m.hasZ = false; ms.assign(1, m); }
      for (size_t at = 0; at < ms.size();) {      // one section, or several one after the other
        size_t end = legacy && r.chance(25) ? at + 1 + r.below(ms.size() - at) : ms.size();
        bool seq = true;
        for (size_t i = at; i < end; ++i) if (ms[i].id != ms[at].id + (int)(i - at)) seq = false;
        bool implicit = seq && r.chance(50);
        A a;
        if (implicit && (ms[at].id != 0 || r.chance(50) || !legacy)) a.push_back({"moduleIDStartCount", I(ms[at].id)});
        open("modules", a);
        const ModSpec* def = 0;
        bool defZ = false;
        size_t until = at;            // how far the present default values reach
        for (size_t i = at; i < end; ++i) {
          if (i == until && r.chance(40)) {
            until = legacy && r.chance(30) ? i + 1 + r.below(end - i) : end;
            def = &ms[i + r.below(until - i)];
            defZ = legacy && r.chance(50);
            for (size_t k = i; k < until; ++k) if (!ms[k].hasZ) defZ = false;
            open("default");
            el("readoutFrequency", {{"value", dbl(def->freq)}});
            pad(def->pad);
            el("offset", {{"x_r", dbl(def->ox)}, {"y_phi", dbl(def->oy)}});
            el("angle", {{"value", dbl(def->angle)}});
            el("enlargeActiveAreaBy", {{"value", dbl(def->border)}});
            if (defZ) el("zPosition", {{"value", dbl(def->z)}});
            close("default");
          } else if (i == until) { if (def) until = end, open("default"), el("readoutFrequency", {{"value", dbl(ms[i].freq)}}), pad(ms[i].pad), el("offset", {{"x_r", dbl(ms[i].ox)}, {"y_phi", dbl(ms[i].oy)}}), el("angle", {{"value", dbl(ms[i].angle)}}), el("enlargeActiveAreaBy", {{"value", dbl(ms[i].border)}}), close("default"), def = &ms[i], defZ = false; else until = end; }
          module(ms[i], def, implicit, defZ);
        }
        close("modules");
        at = end;
      }
    }
    params(t.p);
    close("detector");
  }
  void calo(const CSpec& c, int w) {
    detOpen(caloName[w], "CalorimeterParameters");
    el("layout", {{"type", c.endcap ? "Endcap" : "Barrel"}, {"symmetry", I(c.sym)}, {"phi0", dbl(c.phi0)}});
    if (c.endcap) el("dimensions", {{"inner_r", dbl(c.rMin)}, {"outer_r", dbl(c.rMax)}, {"inner_z", dbl(c.z)}});
    else el("dimensions", {{"inner_r", dbl(c.rMin)}, {"outer_z", dbl(c.z)}});
    for (auto& l : c.l) el("layer", {{"repeat", I(l.rep)}, {"thickness", dbl(l.t)}, {"absorberThickness", dbl(l.a)}, {"cellSize0", dbl(l.c0)}, {"cellSize1", dbl(l.c1)}});
    params(c.p);
    close("detector");
  }
  void zp(const ZSpec& z, const char* n) {
    detOpen(n, "ZPlanarParameters");
    static const char* ty[4] = {"", "CCD", "CMOS", "HYBRID"};
    el(r.chance(20) && legacy ? "vxdType" : "type", {{"technology", ty[z.type]}});
    el("shell", {{"halfLength", dbl(z.hl)}, {"gap", dbl(z.gap)}, {"innerRadius", dbl(z.ri)}, {"outerRadius", dbl(z.ro)}, {"radLength", dbl(z.rad)}});
    open("layers");
    for (auto& l : z.l) {
      open("layer", {{"nLadders", I(l.n)}, {"phi0", dbl(l.phi0)}});
      for (const double* v : {l.l, l.s}) el(v == l.l ? "ladder" : "sensitive", {{"distance", dbl(v[0])}, {"thickness", dbl(v[2])}, {"width", dbl(v[4])}, {"length", dbl(v[3])}, {"offset", dbl(v[1])}, {"radLength", dbl(v[5])}});
      close("layer");
    }
    close("layers");
    params(z.p);
    close("detector");
  }
  void ftd(const FSpec& f) {
    detOpen("FTD", "FTDParameters");
    open("layers");
    for (auto& l : f.l) {
      open("layer", {{"nPetals", I(l.np)}, {"nSensors", I(l.ns)}, {"isDoubleSided", I(l.ds)}, {"sensorType", l.type == 1 ? "PIXEL" : "STRIP"}, {"petalOpenningAngle", dbl(l.op)}, {"phi0", dbl(l.phi0)}, {"alpha", dbl(l.alpha)}, {"zposition", dbl(l.z)}, {"zoffset", dbl(l.zo)}, {"zsign0", dbl(l.zs)}});
      for (const double* v : {l.l, l.s}) el(v == l.l ? "support" : "sensitive", {{"thickness", dbl(v[1])}, {"width", dbl(v[4])}, {"lengthMin", dbl(v[2])}, {"lengthMax", dbl(v[3])}, {"rInner", dbl(v[0])}, {"radLength", dbl(v[5])}});
      close("layer");
    }
    close("layers");
    params(f.p);
    close("detector");
  }
  A plane(int id, const double* v, bool rot, bool force) {
    A a = {{"ID", I(id)}, {"positionX", dbl(v[0])}, {"positionY", dbl(v[1])}, {"positionZ", dbl(v[2])}};
    static const char* rn[3] = {"rotationXY", "rotationZX", "rotationZY"};
    if (rot) for (int i = 0; i < 3; ++i) if (force || v[3 + i] != 0 || r.chance(50)) a.push_back({rn[i], dbl(v[3 + i])});
    return a;
  }
  void si(const SiSpec& s) {
    detOpen("SiPlanes", "SiPlanesParameters");
    el("siplanesID", {{"ID", I(s.id)}});
    el("siplanesType", {{"type", s.type == 1 ? "TelescopeWithDUT" : "TelescopeWithoutDUT"}});
    el("siplanesNumber", {{"number", I(s.num)}});
    open("layers");
    for (auto& l : s.l) {
      open("layer");
      A a = plane(l.id, l.v, true, false);
      a.insert(a.end(), {{"sizeX", dbl(l.v[6])}, {"sizeY", dbl(l.v[7])}, {"thickness", dbl(l.v[8])}, {"radLength", dbl(l.v[9])}});
      el("ladder", a);
      A b = plane(l.sid, l.w, true, false);
      b.insert(b.end(), {{"sizeX", dbl(l.w[6])}, {"sizeY", dbl(l.w[7])}, {"thickness", dbl(l.w[8])}, {"npixelX", I(l.nx)}, {"npixelY", I(l.ny)}, {"pitchX", dbl(l.pit[0])}, {"pitchY", dbl(l.pit[1])}, {"resolution", dbl(l.res[0])}, {"radLength", dbl(l.rad)}});
      if (l.res[1] != l.res[0] || r.chance(50)) b.push_back({"resolutionX", dbl(l.res[1])});
      if (l.res[2] != l.res[0] || r.chance(50)) b.push_back({"resolutionY", dbl(l.res[2])});
      bool id = l.rot[0] == 1 && l.rot[1] == 0 && l.rot[2] == 0 && l.rot[3] == 1;
      if (!id || r.chance(50)) for (int i = 0; i < 4; ++i) b.push_back({"rotation" + I(i + 1), dbl(l.rot[i])});
      el("sensitive", b);
      close("layer");
    }
    close("layers");
    if (s.type == 1) {
      open("dut");
      A a = plane(s.did, s.dv, false, false);
      a.insert(a.end(), {{"sizeX", dbl(s.dv[3])}, {"sizeY", dbl(s.dv[4])}, {"thickness", dbl(s.dv[5])}, {"radLength", dbl(s.dv[6])}});
      el("dut_ladder", a);
      A b = plane(s.dsid, s.dw, false, false);
      b.insert(b.end(), {{"sizeX", dbl(s.dw[3])}, {"sizeY", dbl(s.dw[4])}, {"thickness", dbl(s.dw[5])}, {"npixelX", I(s.dnx)}, {"npixelY", I(s.dny)}, {"pitchX", dbl(s.dpit[0])}, {"pitchY", dbl(s.dpit[1])}, {"resolution", dbl(s.dres)}, {"radLength", dbl(s.drad)}});
      for (int i = 0; i < 4; ++i) b.push_back({"rotation" + I(i + 1), dbl(s.drot[i])});
      el("dut_sensitive", b);
      close("dut");
    }
    params(s.p);
    close("detector");
  }
  void tp(const TSpec& t) {
    detOpen("TrackerPlanes", "TrackerPlanesParameters");
    el("LayoutID", {{"ID", I(t.id)}});
    el("LayoutType", {{"type", I(t.type)}});
    el("LayoutNumberOfLayers", {{"number", I(t.num)}});
    open("layers");
    for (auto& l : t.l) {
      A la = {{"ID", I(l.id)}};
      if (!l.info.empty() || r.chance(50)) la.push_back({"info", l.info});
      open("layer", la);
      for (auto& m : l.m) {
        A a = plane(m.id, m.v, true, false);
        if (!m.info.empty() || r.chance(50)) a.push_back({"info", m.info});
        a.insert(a.end(), {{"sizeX", dbl(m.v[6])}, {"sizeY", dbl(m.v[7])}, {"thickness", dbl(m.v[8])}, {"radLength", dbl(m.v[9])}});
        if (m.sens) a.insert(a.end(), {{"npixelX", I(m.nx)}, {"npixelY", I(m.ny)}, {"pitchX", dbl(m.pit[0])}, {"pitchY", dbl(m.pit[1])}, {"resolutionX", dbl(m.res[0])}, {"resolutionY", dbl(m.res[1])}});
        el(m.sens ? "sensitive" : "ladder", a);
      }
      close("layer");
    }
    close("layers");
    params(t.p);
    close("detector");
  }
};
}
// ------------------------------------------------------------------ parts of a description
// Every attribute and every element (with all it contains), by position.
std::vector<XmlPart> xmlParts(const std::string& t) {
  std::vector<XmlPart> c;
  struct Open { size_t at; std::string el; };
  std::vector<Open> open;
  std::string kind, owner;        // of the detector, or other named element, around it
  for (size_t i = 0; i < t.size(); ++i) {
    if (t[i] != '<') continue;
    if (t.compare(i, 4, "<!--") == 0) { i = t.find("-->", i); if (i == std::string::npos) break; continue; }
    if (i + 1 < t.size() && (t[i + 1] == '?' || t[i + 1] == '!')) { i = t.find('>', i); if (i == std::string::npos) break; continue; }
    bool close = t.compare(i, 2, "</") == 0;
    size_t e = i + 1 + close;
    while (e < t.size() && !strchr(" \t\r\n/>", t[e])) ++e;
    std::string el = t.substr(i + 1 + close, e - i - 1 - close);
    int depth = (int)open.size();
    size_t q = e, first = c.size();
    if (!close && depth < 2) owner = el;
    while (q < t.size() && t[q] != '>' && t[q] != '/') {
      size_t a = q;
      while (q < t.size() && strchr(" \t\r\n", t[q])) ++q;
      size_t nb = q;
      while (q < t.size() && !strchr(" \t\r\n=/>", t[q])) ++q;
      if (q == nb) break;
      std::string an = t.substr(nb, q - nb);
      while (q < t.size() && t[q] != '"' && t[q] != '\'') ++q;
      if (q >= t.size()) break;
      size_t v = q + 1;
      q = t.find(t[q], q + 1);
      if (q == std::string::npos) break;
      if (el == "detector" && an == "geartype") kind = t.substr(v, q - v) + "/";
      if (depth == 2 && an == "name") owner = t.substr(v, q - v);
      ++q;
      c.push_back({a, q - a, (el == "detector" ? "" : kind) + el + "." + an, depth, owner});
    }
    for (size_t k = first; k < c.size(); ++k) c[k].owner = owner;
    while (q < t.size() && strchr(" \t\r\n", t[q])) ++q;
    if (q >= t.size()) break;
    if (close) {
      if (open.empty() || open.back().el != el) break;
      if (el == "detector") kind.clear();
      c.push_back({open.back().at, q + 1 - open.back().at, kind + el, depth - 1, owner});
      open.pop_back();
    } else if (t[q] == '/') { if (el == "detector") kind.clear(); c.push_back({i, q + 2 - i, kind + el, depth, owner}); ++q; }
    else open.push_back({i, el});
    i = q;
  }
  return c;
}
std::string emitXml(const GeoSpec& s, u64 style, bool legacy) {
  W w(style);
  w.legacy = legacy;
  if (w.style == 2 && w.r.chance(8)) { w.o += "\xef\xbb\xbf"; w.utf = true; }
  if (w.r.chance(50)) {
    int e = w.style == 2 ? w.r.range(0, 9) : 9;
    static const char* enc[10] = {"", "", "utf-8", "UTF8", "ISO-8859-1", "us-ascii", "utf-8", "UTF-8", "UTF-8", "UTF-8"};
    w.o += std::string(e == 0 ? "<?xml version='1.0'" : "<?xml version=\"1.0\"") + (*enc[e] ? fmt(e & 1 ? " encoding=\"%s\"" : " encoding='%s'", enc[e]) : "") + (e < 3 ? " standalone=\"yes\" ?>" : "?>");
    if (e != 4 && e != 5) w.utf = true;
  }
  if (w.style == 2 && w.r.chance(30)) w.o += w.r.chance(60) ? "\n<!-- " + word(w.r, 1, 60, false) + " -->" : "\n" + w.aside();
  w.open("gear");
  if (s.hasName) w.el("global", {{"detectorName", s.name}});
  std::vector<std::function<void()>> blocks;
  if (s.hasB) blocks.push_back([&] {
    w.open("BField", {{"type", "ConstantBField"}, {"x", w.dbl(s.b[0])}, {"y", w.dbl(s.b[1])}, {"z", w.dbl(s.b[2])}});
    w.params(s.bp);
    w.close("BField");
  });
  blocks.push_back([&] {
    std::vector<std::function<void()>> d;
    if (s.tpc.on) d.push_back([&] { w.tpc(s.tpc); });
    for (int i = 0; i < 12; ++i) if (s.calo[i].on) d.push_back([&, i] { w.calo(s.calo[i], i); });
    static const char* zn[3] = {"VXD", "SIT", "SET"};
    for (int i = 0; i < 3; ++i) if (s.z[i].on) d.push_back([&, i] { w.zp(s.z[i], zn[i]); });
    if (s.ftd.on) d.push_back([&] { w.ftd(s.ftd); });
    if (s.tp.on) d.push_back([&] { w.tp(s.tp); });
    if (s.si.on) d.push_back([&] { w.si(s.si); });
    for (auto& u : s.user) d.push_back([&] { w.detOpen(u.first, "GearParameters"); w.params(u.second); w.close("detector"); });
    if (w.style == 2) for (size_t i = d.size(); i > 1; --i) std::swap(d[i - 1], d[w.r.below(i)]);
    w.open("detectors");
    for (auto& f : d) f();
    w.close("detectors");
  });
  if (!s.mat.empty()) blocks.push_back([&] {
    w.open("materials");
    for (auto& m : s.mat) w.el("material", {{"name", m.name}, {"A", w.dbl(m.v[0])}, {"Z", w.dbl(m.v[1])}, {"density", w.dbl(m.v[2])}, {"radLength", w.dbl(m.v[3])}, {"intLength", w.dbl(m.v[4])}});
    w.close("materials");
  });
  if (w.style == 2 && w.r.chance(50)) for (size_t i = blocks.size(); i > 1; --i) std::swap(blocks[i - 1], blocks[w.r.below(i)]);
  for (auto& b : blocks) b();
  w.close("gear");
  if (w.r.chance(60)) w.o += "\n";
  return w.o;
}
}
