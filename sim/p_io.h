#ifndef GEARSIM_P_IO_H
#define GEARSIM_P_IO_H
#include "core.h"
namespace sim { void propsIo(std::vector<Prop>&); void propsHist(std::vector<Prop>&); void propsMerge(std::vector<Prop>&); void propsMap(std::vector<Prop>&); void propsTgeo(std::vector<Prop>&); void propsMt(std::vector<Prop>&); }
#endif
