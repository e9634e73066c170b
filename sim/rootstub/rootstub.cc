#include "rootstub.h"
#include "core.h"
#include "alloc.h"
using sim::Rng;
double TGeoNode::leave(const double* p, const double* d) const {
  double t = 1e300;
  for (int k = 0; k < 3; ++k) {
    if (d[k] > 0) t = std::min(t, (hi[k] - p[k]) / d[k]);
    else if (d[k] < 0) t = std::min(t, (lo[k] - p[k]) / d[k]);
  }
  return t;
}
double TGeoNode::enter(const double* p, const double* d) const {
  double a = -1e300, b = 1e300;
  for (int k = 0; k < 3; ++k) {
    if (d[k] == 0) { if (p[k] < lo[k] || p[k] > hi[k]) return -1; continue; }
    double x = (lo[k] - p[k]) / d[k], y = (hi[k] - p[k]) / d[k];
    if (x > y) std::swap(x, y);
    a = std::max(a, x); b = std::min(b, y);
  }
  return a + 1e-9 < b && b > 0 ? a : -1;
}
TGeoNode* TGeoManager::at(const double* p, const TGeoNode* skip) const {
  if (!top || top == skip || !top->has(p)) return nullptr;
  TGeoNode* q = top;
  for (bool deeper = true; deeper;) {
    deeper = false;
    for (auto* c : q->fKids) if (c != skip && c->has(p)) { q = c; deeper = true; break; }
  }
  return q;
}
TGeoNode* TGeoManager::FindNextBoundaryAndStep(Double_t stepmax, Bool_t) {
  ++steps;
  for (int k = 0; k < 3; ++k) last[k] = pt[k];
  if (!cur) { outside = true; step = 0; return nullptr; }
  double t = cur->leave(pt, dir);
  bool out = true;
  for (auto* c : cur->fKids) { double e = c->enter(pt, dir); if (e > -1e-9 && e < t) { t = e; out = false; } }
  if (t < 0) t = 0;
  bool crossing = t <= stepmax;
  if (!crossing) t = stepmax;
  step = t;
  for (int k = 0; k < 3; ++k) pt[k] += dir[k] * t;
  if (crossing) {
    double q[3];
    for (int k = 0; k < 3; ++k) q[k] = pt[k] + dir[k] * 1e-7;
    TGeoNode* n = at(q, out ? cur : nullptr);      // what was left is not entered at once
    outside = n == nullptr;
    cur = n;
    return n;
  }
  return cur;
}
void TGeoManager::make(unsigned long long seed) {
  sim::Unarm u;
  Rng r(seed);
  int nm = r.range(2, 6);
  for (int i = 0; i < nm; ++i) {
    TGeoMaterial* m = new TGeoMaterial("Material" + std::to_string(i) + (r.chance(40) ? " with a name of some length" : ""));
    m->fRho = 0.1 + r.unit() * 10; m->fT = 270 + r.unit() * 30; m->fP = r.unit() * 1e5; m->fX0 = 1 + r.unit() * 500; m->fL = 1 + r.unit() * 900;
    if (i == 1 && r.chance(40)) { m->fX0 = 0; m->fL = 0; }      // a vacuum
    if (i && r.chance(15)) m->fName = mats[r.below(i)]->fName;      // names need not be unique
    mats.push_back(m);
  }
  auto add = [&](TGeoNode* mother, const double* lo, const double* hi) {
    int id = (int)nodes.size();
    TGeoVolume* v = new TGeoVolume(id ? "volume" + std::to_string(id) : "world");
    v->fMed = new TGeoMedium("medium"); v->fMed->fMat = mats[r.below(nm)]; v->fMgr = this;
    if (id && r.chance(8)) v->fName = r.chance(50) ? "world" : "volume" + std::to_string(r.range(1, id));      // names need not be unique
    TGeoNode* n = new TGeoNode(id && r.chance(8) ? "world_1" : v->fName + "_1");
    n->fVol = v; n->fMother = mother;
    for (int k = 0; k < 3; ++k) { n->lo[k] = lo[k]; n->hi[k] = hi[k]; }
    nodes.push_back(n);
    if (mother) mother->fKids.push_back(n);
    return n;
  };
  double w = 200 + r.unit() * 1500, lo[3], hi[3];
  for (int k = 0; k < 3; ++k) { hi[k] = w * (0.5 + r.unit()); lo[k] = -hi[k] * (0.5 + r.unit()); }
  top = add(nullptr, lo, hi);
  // every volume may be cut into slices, some of them filled by a volume
  for (size_t i = 0; i < nodes.size() && nodes.size() < 24; ++i) {
    TGeoNode* m = nodes[i];
    if (i && r.chance(45)) continue;
    int axis = (int)r.below(3), n = r.range(1, 4);
    for (int s = 0; s < n; ++s) {
      if (r.chance(25)) continue;
      double foil = m == top || !r.chance(25) ? 0 : std::pow(10., -2.8 + 2.8 * r.unit());
      for (int k = 0; k < 3; ++k) {
        double a = m->lo[k], b = m->hi[k];
        if (k == axis) { double d = (b - a) / n; a += s * d; b = a + d; }
        // now and then side by side, a little apart, or filling the mother
        double g = r.chance(20) ? 0 : (b - a) * (0.03 + r.unit() * 0.2), h = r.chance(20) ? 0 : (b - a) * (0.03 + r.unit() * 0.2);
        if (m == top && k != axis) { if (g < 1e-3) g = (b - a) * 0.05; if (h < 1e-3) h = (b - a) * 0.05; }
        lo[k] = a + g; hi[k] = b - h;
        if (k == axis && foil > 0 && foil < hi[k] - lo[k]) hi[k] = lo[k] + foil;
      }
      add(m, lo, hi);
    }
  }
}
TGeoVolume* TGDMLParse::GDMLReadFile(const char* file) {
  FILE* f = fopen(file, "r");
  if (!f) return nullptr;
  char buf[256];
  size_t n = fread(buf, 1, sizeof buf - 1, f);
  bool bad = ferror(f) != 0;
  fclose(f);
  buf[n] = 0;
  unsigned long long seed;
  char end[8] = "";
  if (bad || sscanf(buf, "<gdml seed=\"%llu\">%7s", &seed, end) != 2 || strcmp(end, "</gdml>")) return nullptr;
  sim::Unarm u;
  TGeoManager* m = new TGeoManager("model", "");
  m->make(seed);
  m->cur = m->top;
  return m->top->fVol;
}
