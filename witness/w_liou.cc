// elements with decay outside of mode and qbit
#include "Qbit_.h"
#include "ElementAveraged.h"
#include "MultiLevel.h"

#include <boost/fusion/sequence/io.hpp>

using multilevel::Pump; using multilevel::Decay;

using VP=multilevel::result_of::make_vector<Pump<0,2>,Pump<1,2>>::type;
using VL=multilevel::result_of::make_vector<Decay<0,2>,Decay<1,2>>::type;

MultiLevelBase<3>::Ptr scenario_multi(const multilevel::RealPerLevel<3>& deltas, const VP& etas, const VL& gammas, double gp) {return multilevel::makePumpedLossySch(deltas,etas,gammas,gp);}
MultiLevelBase<3>::Ptr scenario_multi_vec(const multilevel::RealPerLevel<3>& deltas, const VP& etas, const VL& gammas, const multilevel::RealPerLevel<3>& gp) {return multilevel::makePumpedLossySch(deltas,etas,gammas,gp);}
