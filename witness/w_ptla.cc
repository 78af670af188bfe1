// elements made directly, in the translation unit of their members
#include "PumpedTwoLevelAtom.cc"

std::shared_ptr<const structure::Free> scenario_ptla(const qbit::ParsPumpedLossy& p) {return std::make_shared<PumpedTwoLevelAtomSch>(p);}
