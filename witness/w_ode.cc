// forces the instantiation of the integrator, the plain ODE trajectory and the run loop with every engine and in every mode
#include "BlitzArray.h"
#include "ArrayTraits.h"
#include "ODE_GSL.h"
#include "Simulated.h"

using namespace cppqedutils;
using V = DArray<1>;
using W = CArray<1>;

struct Rhs { void operator()(const V& y, V& dydt, double t) const; };
struct RhsC { void operator()(const W& y, W& dydt, double t) const; };

template <typename Engine, typename RHS, typename A>
void traj(A& y, RHS f, trajectory::Pars<>& p, double dtInit, int ll, double er, double ea, std::ostream& os, iarchive& ia, oarchive& oa)
{
  Engine e1(dtInit, ll, er, ea);
  Engine e2(dtInit, p);
  double t = 0;
  e1.step(dtInit, os, f, t, y);
  e1.streamParameters(os);
  e1.logOnEnd(os); e1.getDtTry(); e1.getDtDid(); e1.setDtTry(dtInit); e1.setDtDid(dtInit);
  e1.stateIO(ia);
  e1.stateIO(oa);
  auto s = simulated::make<Engine>(y.copy(), f, {"a", "b"}, dtInit, p);
  s.step(dtInit, os);
  s.stream(os, 3);
  s.streamKey(os);
  s.logOnEnd(os);
  s.streamParameters(os);
  s.readFromArrayOnlyArchive(ia);
  s.stateIO(ia);
  s.stateIO(oa);
  advance(s, dtInit, os);
  advanceTo(s, dtInit, os);
  trajectory::ReadState<decltype(s)>::_(s, ia);
  trajectory::WriteState<decltype(s)>::_(s, oa);
  run(s, p);
  run(s, p, trajectory::autostopHandlerNoOp);
}

void witness(V& y, W& z, trajectory::Pars<>& p, std::ostream& os, iarchive& ia, oarchive& oa, double d, int i)
{
  traj<ODE_EngineBoost<V>>(y, Rhs{}, p, d, i, d, d, os, ia, oa);
  traj<ODE_EngineGSL<V>>(y, Rhs{}, p, d, i, d, d, os, ia, oa);
}
