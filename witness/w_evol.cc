// the evolution driver, for every method of evolution
#include "Evolution.h"

using SV = quantumdata::StateVector<1>;

void scenario_evolve(SV& psi, structure::QuantumSystemPtr<1> sys, const evolution::Pars<>& p)
{
  evolve<tmptools::V_Empty>(psi, sys, p);
}

void scenario_evolve_rvalue(SV&& psi, structure::QuantumSystemPtr<1> sys, const evolution::Pars<>& p)
{
  evolve<tmptools::V_Empty>(std::move(psi), sys, p);
}

void scenario_pars(parameters::Table& t)
{
  evolution::Pars<> p(t);
}
