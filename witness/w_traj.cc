// forces the instantiation of every quantum trajectory with a free system of rank one
#include "Evolution.h"
#include "MCWF_Trajectory.h"
#include "Master.h"
#include "StochasticTrajectory.h"
#include "ODE_GSL.h"

using namespace cppqedutils;
using namespace quantumtrajectory;
using SV = quantumdata::StateVector<1>;
using DO = quantumdata::DensityOperator<1>;

template <typename T>
void use(T& s, trajectory::Pars<>& p, std::ostream& os, iarchive& ia, oarchive& oa, double d)
{
  s.stream(os, 3);
  s.streamKey(os);
  s.logOnEnd(os);
  s.streamParameters(os);
  s.getDtDid();
  s.readFromArrayOnlyArchive(ia);
  s.stateIO(ia);
  s.stateIO(oa);
  advance(s, d, os);
  advanceTo(s, d, os);
  trajectory::ReadState<T>::_(s, ia);
  trajectory::WriteState<T>::_(s, oa);
}

void witness(structure::QuantumSystemPtr<1> sys, SV& psi, DO& rho, mcwf::Pars<pcg64>& p, master::Pars& pm, trajectory::Pars<>& pt, std::ostream& os, iarchive& ia, oarchive& oa, double d)
{
  using EB = ODE_EngineBoost<SV::StateVectorLow>;
  using EG = ODE_EngineGSL<SV::StateVectorLow>;
  using MB = ODE_EngineBoost<DO::DensityOperatorLow>;
  auto m = mcwf::make<EB, pcg64>(sys, std::move(psi), p);
  m.step(d, os);
  m.getDtTry();
  m.getTime();
  m.getStateVector().getArray();
  use(m, pt, os, ia, oa, d);
  auto r = master::make<MB, tmptools::V_Empty>(sys, std::move(rho), pm, EntanglementMeasuresSwitch{});
  r.step(d, os);
  use(r, pt, os, ia, oa, d);
  auto e = mcwf::makeEnsemble<EB, pcg64, tmptools::V_Empty>(sys, psi, p, EntanglementMeasuresSwitch{});
  use(e, pt, os, ia, oa, d);
  e.averaged();
}
