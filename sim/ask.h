// One question to a geometry: any public query with arguments drawn from a seed.
#ifndef GEARSIM_ASK_H
#define GEARSIM_ASK_H
#include "geo.h"
namespace sim {
// Text of an answer, exact (doubles bit by bit).  Written outside the allocation seam.
struct Ans {
  std::string s;
  void tag(const char* n) { Unarm u; s += n; s += '='; }
  void i(const char* n, i64 x) { Unarm u; s += fmt("%s=%lld;", n, (long long)x); }
  void d(const char* n, double x) { Unarm u; s += x != x ? fmt("%s=nan;", n) : fmt("%s=%a;", n, x); }
  void t(const char* n, const std::string& x) { Unarm u; s += n; s += "='"; s += x; s += "';"; }
  void big(const char* n, const std::string& x) { Unarm u; s += fmt("%s=[%zu:%016llx];", n, x.size(), (unsigned long long)hashBytes(x.data(), x.size())); }
  template <class V> void vec(const char* n, const V& v) { Unarm u; s += fmt("%s=(%zu)", n, v.size()); for (auto& x : v) one(x); s += ';'; }
  void one(int x) { s += fmt(" %d", x); }
  void one(double x) { s += x != x ? std::string(" nan") : fmt(" %a", x); }
  void one(const std::string& x) { s += " '" + x + "'"; }
};
// references that were handed out and must keep showing what they showed
struct Held { const void* p; int kind; std::string was; };
struct Keep { std::vector<Held> h; std::string check() const; template <class V> void add(const V& v, int kind); };

// The answer as text; exceptions of the library are part of the answer, bad_alloc passes.
void ask(Ans& a, const gear::GearMgr& m, u64 mask, u64 seed, Keep* keep = nullptr);
// questions to single objects
void askPad(Ans& a, const gear::PadRowLayout2D& p, Rng& r, Keep* k = nullptr);
void askModule(Ans& a, const gear::TPCModule& t, Rng& r, Keep* k = nullptr);
void askTpc(Ans& a, const gear::TPCParameters& t, Rng& r, Keep* k = nullptr);
void askParams(Ans& a, const gear::GearParameters& p, Rng& r, Keep* k = nullptr);
}
#endif
