// Geometries: generated specifications, how they are built through the public API,
// what every query must answer (straight from the specification), the fingerprint of
// all public answers of a geometry, and an independent writer of description files.
#ifndef GEARSIM_GEO_H
#define GEARSIM_GEO_H
#include "alloc.h"
#include "core.h"
#include "gear/GEAR.h"
#include "gear/GearMgr.h"
#include "gear/TPCModule.h"
#include "gear/TPCParameters.h"
#include "gearimpl/GearMgrImpl.h"
#include "gearimpl/GearParametersImpl.h"
#include "gearimpl/TPCModuleImpl.h"
#include "gearimpl/TPCParametersImpl.h"
#include <memory>

namespace sim {

// ------------------------------------------------------------------ facts
struct Val {
  char k = 'i';            // i int, d double, s string, e exception type
  i64 i = 0;
  double d = 0;
  std::string s;
  bool rt = true;          // compared across save and load
  std::string str() const;
};
struct Facts {
  std::vector<std::pair<std::string, Val>> v;
  std::string pfx;
  bool rt = true;
  void i(const std::string& n, i64 x) { Val a; a.k = 'i'; a.i = x; put(n, a); }
  void d(const std::string& n, double x) { Val a; a.k = 'd'; a.d = x; put(n, a); }
  void s(const std::string& n, const std::string& x) { Val a; a.k = 's'; a.s = x; put(n, a); }
  void e(const std::string& n, const std::string& x) { Val a; a.k = 'e'; a.s = x; put(n, a); }
  void put(const std::string& n, Val& a) { Unarm u; a.rt = rt; v.emplace_back(pfx + n, a); }
  void sort();
  u64 hash() const;
  std::string ser() const;
  static Facts de(const char* p, size_t n);
};
struct Scope { Facts& f; size_t n; Scope(Facts& f_, const std::string& s) : f(f_), n(f_.pfx.size()) { f.pfx += s; f.pfx += '.'; } ~Scope() { f.pfx.resize(n); } };
enum Cmp { EXACT, TOL };
// "" if equal; both sorted. subset: every fact of a must be in b (b may have more)
std::string diff(const Facts& a, const Facts& b, Cmp c, bool subset = false);
std::string excName(const std::exception& e);

// ------------------------------------------------------------------ specifications
enum Sec { S_NAME, S_BFIELD, S_TPC, S_CALO, S_VXD = 15, S_SIT, S_SET, S_FTD, S_TP, S_SI, S_USER, S_MAT, S_N };
extern const char* caloName[12];
bool caloIsEndcap(int which, Rng& r);

struct PSpec {
  std::vector<std::pair<std::string, int>> I;
  std::vector<std::pair<std::string, double>> D;
  std::vector<std::pair<std::string, std::string>> S;
  std::vector<std::pair<std::string, std::vector<int>>> IV;
  std::vector<std::pair<std::string, std::vector<double>>> DV;
  std::vector<std::pair<std::string, std::vector<std::string>>> SV;
};
struct CSpec { bool on = false, endcap = false; double rMin, rMax, z, phi0; int sym; struct L { double t, c0, c1, a; int rep; }; std::vector<L> l; PSpec p; };
struct ZSpec { bool on = false; int type; double ri, ro, hl, gap, rad; struct L { int n; double phi0, l[6], s[6]; }; std::vector<L> l; PSpec p; };
struct FSpec { bool on = false; struct L { int np, ns; bool ds; int type; double op, phi0, alpha, z, zo, zs, l[6], s[6]; }; std::vector<L> l; PSpec p; };
struct SiSpec { bool on = false; int id, type, num; struct L { int id; double v[10]; int sid; double w[9]; int nx, ny; double pit[2], res[3], rot[4], rad; }; std::vector<L> l; int did; double dv[7]; int dsid; double dw[6]; int dnx, dny; double dpit[2], dres, drot[4], drad; PSpec p; };
struct TSpec { bool on = false; int id, type, num; struct M { bool sens; int id; std::string info; double v[10]; int nx, ny; double pit[2], res[2]; }; struct L { int id; std::string info; std::vector<M> m; }; std::vector<L> l; PSpec p; };
struct PadSpec { int kind = 1; double a[8]; int n1 = 0, n2 = 0; struct R { int n, npad, rep; double v[5]; }; std::vector<R> rows; int repeat = 1; };
struct ModSpec { int id; PadSpec pad; double freq, ox, oy, angle, border, z; bool hasZ; PSpec p; };
struct TpcSpec { bool on = false, modular = true; int ctype; double drift, vel, freq; PadSpec pad; std::vector<ModSpec> m; PSpec p; };
struct MatSpec { std::string name; double v[5]; };
struct GeoSpec {
  bool hasName = false, hasB = false;
  std::string name;
  double b[3]; PSpec bp;
  TpcSpec tpc;
  CSpec calo[12];
  ZSpec z[3];
  FSpec ftd; TSpec tp; SiSpec si;
  std::vector<std::pair<std::string, PSpec>> user;
  std::vector<MatSpec> mat;
};
double q9(double v);
// measurement surfaces of several shapes for a geometry, some seeds give none
void fillSurfaces(gear::GearMgr& m, u64 seed);
int surfaceId(int n);
extern bool longParams;      // now and then something longer than any buffer (off where every access is an event)
PSpec genParams(Rng& r, int size, const std::string& salt);
PadSpec genPad(Rng& r, int kind, int size);
ModSpec genModule(Rng& r, int id, int ctype, int size, bool moved);
GeoSpec makeSpec(u64 seed, u64 mask, int size);
GeoSpec specOf(const Item& geom);
u64 genMask(Rng& r, int density);

// ------------------------------------------------------------------ building (code under test)
void buildParams(gear::GearParametersImpl* p, const PSpec& s);
gear::PadRowLayout2D* buildPad(const PadSpec& s);
gear::TPCModuleImpl* buildModule(const ModSpec& s, int ctype);
gear::TPCParametersImpl* buildTpc(const TpcSpec& s);
void buildSection(gear::GearMgr* m, const GeoSpec& s, int sec);
gear::GearMgrImpl* build(const GeoSpec& s);
extern bool g_noTpcModules;

// ------------------------------------------------------------------ expectations and answers
Facts expect(const GeoSpec& s);
extern u64 probeUnknown;   // nonzero: also ask for parameters that were never stored
void fpParams(Facts& f, const gear::GearParameters& p);
void fpPad(Facts& f, const gear::PadRowLayout2D& p, int maxPads);
void fpModule(Facts& f, const gear::TPCModule& m);
void fpTpc(Facts& f, const gear::TPCParameters& t);
Facts fingerprint(const gear::GearMgr& m, bool geometric = true);

// independent writer of description files, style: seed of the stylistic choices
struct XmlPart { size_t a, n; std::string name; int depth; std::string owner; };
std::vector<XmlPart> xmlParts(const std::string&);
std::string emitXml(const GeoSpec& s, u64 style, bool legacy = true);
}
#endif
