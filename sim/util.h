// Small helpers shared by the scenario files.
#ifndef GEARSIM_UTIL_H
#define GEARSIM_UTIL_H
#include "alloc.h"
#include "core.h"
#include "disk.h"
#include "geo.h"
#include <cerrno>
#include <memory>
namespace sim {
// the outcome of one call into the code under test
struct Res {
  bool ok = false;
  std::string exc;            // exception type if not ok
  bool oom = false;           // std::bad_alloc
  bool gearExc = false;
};
template <class F> Res guarded(F f) {
  Res r;
  long armed = as.armed;
  try { Lib l; f(); r.ok = true; }
  catch (const std::bad_alloc& e) { as.armed = armed; r.oom = true; r.exc = "std::bad_alloc"; }
  catch (const std::exception& e) { as.armed = armed; r.exc = excName(e) + " (" + std::string(e.what()).substr(0, 160) + ")"; r.gearExc = dynamic_cast<const gear::Exception*>(&e) != nullptr; }
  catch (...) { as.armed = armed; fail("foreign-exception", "something that is not a std::exception was thrown"); }
  return r;
}
// facts travel between phases through shared buffers
inline void putFacts(int buf, const Facts& f) {
  std::string s = f.ser();
  if (s.size() > BUFSZ) harness("facts do not fit");
  memcpy(shBuf(buf), s.data(), s.size());
  sh->bufLen[buf] = s.size();
}
inline Facts getFacts(int buf) { return Facts::de(shBuf(buf), sh->bufLen[buf]); }
inline void putBytes(int buf, const std::string& s) {
  if (s.size() > BUFSZ) harness("bytes do not fit");
  memcpy(shBuf(buf), s.data(), s.size());
  sh->bufLen[buf] = s.size();
}
inline std::string getBytes(int buf) { return std::string(shBuf(buf), sh->bufLen[buf]); }
Res loadInto(const std::string& path, gear::GearMgr*& m, bool keepReader = false);
Res saveTo(gear::GearMgr* m, const std::string& path);
// the answers of a geometry, no faults active
Facts answers(const gear::GearMgr& m, bool geometric = true);
Fault makeFault(const Item& it, const int* opCount, std::string* what = nullptr);
void genReadFault(Rng& r, Item& it);
void genWriteFault(Rng& r, Item& it);
void applyIo(const Item& it);       // stream buffer size, read size
extern const char* errNames(int e);
}
#endif
