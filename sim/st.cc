#include "p_io.h"
namespace sim {
__attribute__((weak)) void propsIo(std::vector<Prop>&) {}
__attribute__((weak)) void propsHist(std::vector<Prop>&) {}
__attribute__((weak)) void propsMerge(std::vector<Prop>&) {}
__attribute__((weak)) void propsMap(std::vector<Prop>&) {}
__attribute__((weak)) void propsTgeo(std::vector<Prop>&) {}
const std::vector<Prop>& props() {
  static std::vector<Prop> v;
  if (v.empty()) { propsIo(v); propsHist(v); propsMerge(v); propsMap(v); propsTgeo(v); }
  return v;
}
}
