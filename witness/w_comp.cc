// a composite of four subsystems, interactions between two and three of them, out of order
#include "Composite.tcc"
#include "Interaction.h"

namespace {
using I2=structure::InteractionPtr<2>;
using I3=structure::InteractionPtr<3>;
using VA=decltype(composite::make_list(std::declval<const composite::_<0,2>&>(),std::declval<const composite::_<3,1,0>&>()));
}

template class Composite<VA,true,true,true>;

auto scenario_make(I2 a, I3 b) {return composite::make(composite::_<0,2>(a),composite::_<3,1,0>(b));}
