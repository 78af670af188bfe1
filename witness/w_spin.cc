// elements made directly, in the translation unit of their members
#include "Spin.cc"

std::shared_ptr<const structure::Free> scenario_spin(const spin::Pars& p) {return std::make_shared<LossySpin>(p);}
std::shared_ptr<const structure::Free> scenario_spinsch(const spin::Pars& p) {return std::make_shared<LossySpinSch>(p);}

quantumoperator::Tridiagonal<1> scenario_splus(const spin::Pars& p) {spin::Ptr s=std::make_shared<LossySpin>(p); return spin::splus(s);}
quantumoperator::Tridiagonal<1> scenario_splusSch(const spin::Pars& p) {spin::Ptr s=std::make_shared<LossySpinSch>(p); return spin::splus(s);}
