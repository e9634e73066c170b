// C14: material maps made by the factory, over a material model that may fail and change.
#include <algorithm>
#include <cmath>
#include "gear/GearDistanceProperties.h"
#include "gear/GearMgr.h"
#include "gearimpl/GearMgrImpl.h"
#include "gear/geartgeo/MaterialMapFactory.h"
#include "p_io.h"
#include "util.h"
namespace sim {
using namespace gear;

// a smooth model that is 0 at the vertex; it may refuse the n-th question
struct Model : GearDistanceProperties {
  u64 seed = 1;
  int version = 0;
  mutable long calls = 0, failAt = -1;
  static double value(u64 s, int version, int which, const double* p) {
    Rng r(s ^ mix64(version * 31 + which));
    double a = 0.001 + 0.01 * r.unit(), v = 0, n = 0;
    for (int k = 0; k < 3; ++k) { double w = 0.002 + 0.01 * r.unit(), ph = r.unit() * 6, m = 0.2 + r.unit(); v += m * (1.5 + std::sin(w * p[k] + ph)); n += p[k] * p[k]; }
    return a * v * std::sqrt(n);
  }
  double get(int which, const Vector3D& a, const Vector3D& b) const {
    Unarm u;
    if (a[0] != 0 || a[1] != 0 || a[2] != 0) fail("wrong-track", fmt("the map asks for a track from (%g, %g, %g)", a[0], a[1], a[2]));
    if (calls++ == failAt) { cnt("fault.model"); throw OutsideGeometryException("the model has nothing there"); }
    double p[3] = {b[0], b[1], b[2]};
    return value(seed, version, which, p);
  }
  const std::vector<std::string>& getMaterialNames(const Vector3D&, const Vector3D&) const { static std::vector<std::string> v; return v; }
  const std::vector<double>& getMaterialThicknesses(const Vector3D&, const Vector3D&) const { static std::vector<double> v; return v; }
  double getNRadlen(const Vector3D& a, const Vector3D& b) const { return get(0, a, b); }
  double getNIntlen(const Vector3D& a, const Vector3D& b) const { return get(1, a, b); }
  double getBdL(const Vector3D&, const Vector3D&) const { return 0; }
  double getEdL(const Vector3D&, const Vector3D&) const { return 0; }
};
struct Grid {
  double lo[3], hi[3];
  int n[3];
  int coord;
  bool operator==(const Grid& o) const { for (int k = 0; k < 3; ++k) if (lo[k] != o.lo[k] || hi[k] != o.hi[k] || n[k] != o.n[k]) return false; return coord == o.coord; }
  double step(int k) const { return n[k] ? (hi[k] - lo[k]) / n[k] : 1; }
  double plane(int k, int i) const { return lo[k] + i * step(k); }
};
static const double PI = 3.14159265358979323846;
static Grid makeGrid(const Plan& p, const Item& it) {
  const Item* gi = p.find("grid", it.get("g"));
  Rng r(gi ? (u64)gi->get("seed") : 1);
  Grid g;
  g.coord = (int)it.get("coord");
  int style = gi ? (int)gi->get("style") : 0;      // 0: fits every coordinate system, 1: cartesian
  for (int k = 0; k < 3; ++k) {
    double top = style == 0 ? (k == 0 ? 20 + r.unit() * 900 : k == 1 ? PI : 2 * PI) : 20 + r.unit() * 900;
    double a = style == 0 ? 0 : -top * r.unit(), b = top;
    int how = (int)r.below(6);
    if (how == 0) { a += (b - a) * 0.3 * r.unit(); b -= (b - a) * 0.3 * r.unit(); }
    else if (how == 1 && style) { a = std::floor(a); b = std::ceil(b); }
    else if (how == 2 && style) { a = -0.1 * r.range(1, 30); b = 0.1 * r.range(1, 30); }
    g.n[k] = r.range(1, 7);
    if (r.chance(15)) { g.n[k] = 0; a = b = a + (b - a) * r.unit(); if (r.chance(30)) a = b = 0; }
    g.lo[k] = a; g.hi[k] = b;
  }
  // a request close to the pool's grid, or one that must be refused
  int var = (int)it.get("var"), k = (int)(it.get("axis") % 3);
  switch (var) {
  case 1: if (g.n[k]) g.n[k] += 1; break;
  case 2: if (g.n[k] > 1) g.n[k] -= 1; break;
  case 3: if (g.n[k]) g.hi[k] -= (g.hi[k] - g.lo[k]) * 1e-9; break;
  case 4: if (g.n[k]) g.hi[k] -= (g.hi[k] - g.lo[k]) * 1e-4; break;
  case 5: if (g.n[k]) g.lo[k] += (g.hi[k] - g.lo[k]) * 1e-3; break;
  case 6: if (style == 1) { int j = (k + 1) % 3; std::swap(g.lo[k], g.lo[j]); std::swap(g.hi[k], g.hi[j]); std::swap(g.n[k], g.n[j]); } break;
  case 7: if (g.n[k]) g.hi[k] -= (g.hi[k] - g.lo[k]) * 0.25; break;
  case 10: std::swap(g.lo[k], g.hi[k]); if (g.lo[k] <= g.hi[k]) g.lo[k] = g.hi[k] + 1; break;
  case 11: g.n[k] = -1; break;
  case 12: g.coord = 3 + (int)(it.get("axis") % 5); break;
  case 13: g.coord = -1; break;
  case 14: g.coord = 1 + k % 2; g.lo[0] = -1; break;
  case 15: g.coord = 1; g.hi[1] = 2 * PI + 0.01; break;
  case 16: g.coord = 2; g.hi[1] = PI + 0.01; break;
  case 17: g.coord = 2; g.hi[2] = 2 * PI + 0.01; break;
  case 18: g.coord = 2; g.lo[1] = -0.01; if (g.hi[1] < 0) g.hi[1] = 1; break;
  case 19: if (g.hi[k] == g.lo[k]) g.hi[k] += 2.5; if (g.coord == 2 && k) g.hi[k] = std::min(g.hi[k], k == 1 ? PI : 2 * PI); if (g.coord == 1 && k == 1) g.hi[k] = std::min(g.hi[k], 2 * PI); if (g.hi[k] > g.lo[k]) g.n[k] = 0; break;   // a range without steps
  case 20: g.hi[k] = g.lo[k]; g.n[k] = 2; break;                                  // steps without a range
  default: break;
  }
  return g;
}
static bool valid(const Grid& g) {
  for (int k = 0; k < 3; ++k) { if (g.hi[k] < g.lo[k] || g.n[k] < 0) return false; if ((g.n[k] == 0) != (g.hi[k] == g.lo[k])) return false; }
  if (g.coord < 0 || g.coord > 2) return false;
  if (g.coord == 1 && (g.lo[0] < 0 || g.lo[1] < 0 || g.hi[1] > 2 * PI)) return false;
  if (g.coord == 2 && (g.lo[0] < 0 || g.lo[1] < 0 || g.hi[1] > PI || g.lo[2] < 0 || g.hi[2] > 2 * PI)) return false;
  return true;
}
static double node(u64 seed, int version, const Grid& g, int which, const int* i) {
  double x = g.plane(0, i[0]), y = g.plane(1, i[1]), z = g.plane(2, i[2]), p[3] = {x, y, z};
  if (g.coord == 1) { p[0] = x * std::cos(y); p[1] = x * std::sin(y); }
  if (g.coord == 2) { p[0] = x * std::sin(y) * std::cos(z); p[1] = x * std::sin(y) * std::sin(z); p[2] = x * std::cos(y); }
  return Model::value(seed, version, which, p);
}
// the values the map may give at q: one for every cell q can be counted to; empty: not decided
static std::vector<double> expected(u64 seed, int version, const Grid& g, int which, const double* q) {
  std::vector<int> cells[3];
  for (int k = 0; k < 3; ++k) {
    double u = (q[k] - g.lo[k]) / g.step(k), f = std::floor(u), tol = 1e-9 + 1.1e-5 / g.step(k);
    cells[k].push_back((int)f);
    if (u - f < tol) cells[k].push_back((int)f - 1);
    if (u - f > 1 - tol) cells[k].push_back((int)f + 1);
  }
  std::vector<double> out;
  for (int a : cells[0]) for (int b : cells[1]) for (int c : cells[2]) {
    double sum = 0, w = 0;
    bool exact = false;
    int base[3] = {a, b, c};
    for (int m = 0; m < 8 && !exact; ++m) {
      int i[3] = {base[0] + (m & 1), base[1] + (m >> 1 & 1), base[2] + (m >> 2)};
      bool in = true;
      double d = 0;
      for (int k = 0; k < 3; ++k) { in = in && i[k] >= 0 && i[k] <= g.n[k]; double e = q[k] - g.plane(k, i[k]); d += e * e; }
      if (!in) continue;
      d = std::sqrt(d);
      if (d > 0.5e-5 && d < 2e-5) return {};
      double v = node(seed, version, g, which, i);
      if (d <= 0.5e-5) { exact = true; sum = v; w = 1; break; }
      sum += v / d; w += 1 / d;
    }
    if (w > 0) out.push_back(sum / w);
    if (exact) return {sum};
  }
  return out;
}
static Plan gen14(u64 seed, u64 idx, bool thorough) {
  Rng r(mix64(seed ^ mix64(idx + 0x114)));
  Plan p; p.seed = seed ^ idx;
  p.add("model").set("seed", (i64)(r.next() >> 20)).set("late", r.chance(12));
  int ng = r.range(1, 3);
  for (int i = 0; i < ng; ++i) p.add("grid").set("id", i).set("seed", (i64)(r.next() >> 24)).set("style", r.chance(55) ? 0 : 1);
  int n = r.range(4, thorough ? 60 : 30), maps = 0;
  for (int i = 0; i < n; ++i) {
    int k = (int)r.below(100);
    if (k < 40 || !maps) {
      Item it("create");
      i64 g = r.below(ng);
      it.set("f", r.chance(80) ? 0 : 1).set("g", g).set("coord", p.find("grid", g)->get("style") == 1 ? 0 : (int)r.below(3));
      int v = (int)r.below(100);
      if (v < 30) it.set("var", r.range(1, 7)).set("axis", r.range(0, 9));
      else if (v < 48) it.set("var", r.range(10, 20)).set("axis", r.range(0, 9));
      int f = (int)r.below(100);
      if (f < 14) it.set("failat", r.range(0, r.chance(50) ? 8 : 300));
      else if (f < 30) it.set("a", r.range(0, r.chance(50) ? 12 : 300)).set("an", r.chance(60) ? 1 : -1);
      p.items.push_back(it);
      ++maps;
    } else if (k < 94) {
      Item it("ask");
      it.set("m", r.range(0, maps)).set("how", (int)r.below(16)).set("seed", (i64)(r.next() >> 24)).set("which", r.chance(50)).set("same", r.chance(25));
      if (r.chance(12)) it.set("a", r.range(0, 10)).set("an", r.chance(60) ? 1 : -1);
      p.items.push_back(it);
    } else p.add("version").set("f", r.chance(80) ? 0 : 1).set("v", r.range(0, 3));
  }
  return p;
}
struct Made { MaterialMap* m; Grid g; u64 seed; int version; };
static void askPoint(const Item& it, const Grid& g, double* q) {
  Rng r((u64)it.get("seed"));
  int how = (int)it.get("how");
  for (int k = 0; k < 3; ++k) {
    int i = r.range(0, g.n[k]);
    if (r.chance(25)) i = r.chance(50) ? 0 : g.n[k];
    double on = r.chance(30) && i == g.n[k] ? g.hi[k] : r.chance(50) ? g.plane(k, i) : g.lo[k] + (g.hi[k] - g.lo[k]) * (g.n[k] ? (double)i / g.n[k] : 0);
    double in = g.lo[k] + (g.hi[k] - g.lo[k]) * r.unit();
    if (how < 5) q[k] = on;
    else if (how < 6) q[k] = on + (r.unit() - 0.5) * 4e-6;
    else if (how < 11) q[k] = in;
    else q[k] = r.chance(50) ? on : in;
    if ((how == 12 || how == 13) && r.chance(40)) q[k] = r.chance(50) ? g.lo[k] - 5e-6 * r.unit() : g.hi[k] + 5e-6 * r.unit();
  }
  if (how >= 14) { int k = (int)r.below(3); double d = how == 14 ? 3e-5 : (1 + g.hi[k] - g.lo[k]) * r.unit() * 3 + 1e-3; q[k] = r.chance(50) ? g.lo[k] - d : g.hi[k] + d; }
}
static void run14(const Plan& p) {
  const Item* mi = p.find("model");
  if (!mi) return;
  phase([&] {
    armAlloc(-1);
    Model model[2];
    GearMgrImpl* mgr[2];
    MaterialMapFactory* fac[2];
    bool have[2];
    for (int k = 0; k < 2; ++k) {
      model[k].seed = (u64)mi->get("seed") + 13 * k;
      mgr[k] = new GearMgrImpl;
      fac[k] = new MaterialMapFactory(mgr[k]);
      have[k] = k || !mi->get("late");
      if (have[k]) mgr[k]->setDistanceProperties(&model[k]);
    }
    std::vector<Made> made;
    u64 h = 0;
    int step = 0, failures = 0;
    double lastq[3] = {0, 0, 0};
    for (auto& it : p.items) {
      ++step;
      int f = (int)it.get("f") & 1;
      if (it.kind == "version") { model[f].version = (int)it.get("v"); traceEv("version", f, model[f].version); }
      else if (it.kind == "create") {
        Grid g = makeGrid(p, it);
        bool ok = valid(g);
        model[f].calls = 0;
        model[f].failAt = it.get("failat", -1);
        MaterialMap* m = nullptr;
        armAlloc((long)it.get("a", -1), (long)it.get("an", 1));
        Res r = guarded([&] { m = fac[f]->createMaterialMap(g.lo[0], g.hi[0], g.n[0], g.lo[1], g.hi[1], g.n[1], g.lo[2], g.hi[2], g.n[2], g.coord); });
        bool oom = as.fired > 0;
        armAlloc(-1);
        bool refused = model[f].failAt >= 0 && model[f].calls > model[f].failAt;
        model[f].failAt = -1;
        traceEv("create", r.ok, oom * 2 + refused);
        if (oom) cnt("fault.alloc");
        std::string what = fmt("step %d: a map over [%.17g, %.17g]/%d x [%.17g, %.17g]/%d x [%.17g, %.17g]/%d, coordinates %d", step, g.lo[0], g.hi[0], g.n[0], g.lo[1], g.hi[1], g.n[1], g.lo[2], g.hi[2], g.n[2], g.coord);
        if (!r.ok) {
          ++failures; sh->nontrivial = 1;
          cnt(ok ? "create.failed" : "create.refused");
          if (r.oom && !oom) fail("spurious-bad_alloc", what + " reported exhausted memory although there was enough");
          if (!r.oom && !r.gearExc) fail("foreign-exception", what + " ended with " + r.exc);
          if (ok && !oom && !refused && have[f]) fail("request-refused", what + " ended with " + r.exc);
          // properties that arrive later make the request possible
          if (!have[f]) { mgr[f]->setDistanceProperties(&model[f]); have[f] = true; cnt("fault.no-model"); }
          continue;
        }
        if (!ok) fail("bad-request-accepted", what + " was accepted");
        if (!have[f]) fail("map-without-model", what + " was made although there are no material properties");
        if (!m) fail("null-map", what + " is null");
        Made e{m, g, model[f].seed, model[f].version};
        for (auto& o : made) if (o.g == g && o.seed == e.seed) { e.version = o.version; cnt("create.again"); break; }
        made.push_back(e);
        cnt("create.ok");
      } else if (it.kind == "ask" && !made.empty()) {
        const Made& e = made[(size_t)it.get("m") % made.size()];
        double q[3];
        askPoint(it, e.g, q);
        // the same point as before, perhaps of another map or for the other length
        if (it.get("same")) for (int k = 0; k < 3; ++k) q[k] = lastq[k];
        for (int k = 0; k < 3; ++k) lastq[k] = q[k];
        int which = (int)it.get("which") & 1;
        double got = 0;
        armAlloc((long)it.get("a", -1), (long)it.get("an", 1));
        Res r = guarded([&] { got = which ? e.m->getInteractionLength(q[0], q[1], q[2]) : e.m->getRadiationLength(q[0], q[1], q[2]); });
        bool oom = as.fired > 0;
        armAlloc(-1);
        traceEv("ask", r.ok, oom);
        if (oom) cnt("fault.alloc");
        std::string what = fmt("step %d: (%.17g, %.17g, %.17g) in a map over [%.17g, %.17g]/%d x [%.17g, %.17g]/%d x [%.17g, %.17g]/%d, coordinates %d", step, q[0], q[1], q[2], e.g.lo[0], e.g.hi[0], e.g.n[0], e.g.lo[1], e.g.hi[1], e.g.n[1], e.g.lo[2], e.g.hi[2], e.g.n[2], e.g.coord);
        if (r.oom) { if (!oom) fail("spurious-bad_alloc", what + " reported exhausted memory although there was enough"); cnt("ask.failed"); continue; }
        int place = 0;      // 1: outside, -1: too close to call
        for (int k = 0; k < 3; ++k) { double d = std::max(e.g.lo[k] - q[k], q[k] - e.g.hi[k]); if (d > 1.5e-5) place = 1; else if (d > 0.7e-5 && !place) place = -1; }
        if (place == -1) continue;
        if (!r.ok && !r.gearExc) fail("foreign-exception", what + " ended with " + r.exc);
        if (place == 1) { if (r.ok) fail("outside-answered", what + fmt(" is outside and got %.12g", got)); cnt("ask.outside"); continue; }
        if (!r.ok) fail("inside-refused", what + " ended with " + r.exc);
        std::vector<double> want = expected(e.seed, e.version, e.g, which, q);
        if (want.empty()) { cnt("ask.undecided"); continue; }
        bool fits = false;
        for (double w : want) fits = fits || std::fabs(got - w) <= 1e-7 * std::fabs(w) + 1e-10;
        if (!fits) fail("wrong-value", what + fmt(": %.12g instead of %.12g", got, want[0]));
        cnt(want.size() > 1 ? "ask.either-cell" : "ask.exact");
        h = mix64(h ^ hashBytes(&got, sizeof got));
        sh->events++;
      }
    }
    if (made.size() > 1 || failures) sh->nontrivial = 1;
    state(h); trace(h);
  });
}
void propsMap(std::vector<Prop>& v) {
  v.push_back({"C14", gen14, run14, 20000, 600000, "a run is nontrivial if more than one map was made or one request failed; every map must give the values of its own grid, coordinates and model at creation, whatever else was requested, refused or failed", "geartgeo (MaterialMap, MaterialMapFactory), gearimpl compiled from /repo with address sanitizer", "the material model behind GearDistanceProperties (a smooth function that can refuse a question or change), operator new/delete"});
}
}
