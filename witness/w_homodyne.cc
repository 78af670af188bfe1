// modes outside of the usual makers, in the translation unit of their members
#include "Mode.cc"
#include "HomodynedMode.cc"

mode::Ptr scenario_homodyned(const mode::ParsHomodyned<mode::ParsLossy>& p) {return mode::make<mode::Averaged>(p);}
mode::Ptr scenario_homodynedpumped(const mode::ParsHomodyned<mode::ParsPumpedLossy>& p) {return mode::make<mode::Averaged>(p);}
mode::Ptr scenario_alternative(const mode::ParsPumpedLossy& p) {return std::make_shared<PumpedLossyModeAlternative<false>>(p);}
mode::Ptr scenario_alternativehot(const mode::ParsPumpedLossy& p) {return std::make_shared<PumpedLossyModeAlternative<true>>(p);}
