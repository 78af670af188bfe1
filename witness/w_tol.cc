// scenarios for the way of the tolerances: from the user (directly or via a parameter table) to either stepping engine
#include "BlitzArray.h"
#include "ArrayTraits.h"
#include "ODE_GSL.h"
#include "Simulated.h"

using namespace cppqedutils;
using V = DArray<1>;

struct Rhs { void operator()(const V& y, V& dydt, double t) const; };

// direct construction
void scenario_direct_boost(double dt, int ll, double er, double ea, std::ostream& os) { ODE_EngineBoost<V> e(dt, ll, er, ea); e.streamParameters(os); }
void scenario_direct_GSL(double dt, int ll, double er, double ea, std::ostream& os) { ODE_EngineGSL<V> e(dt, ll, er, ea); e.streamParameters(os); }
// from the parameter bundle
void scenario_pars_boost(double dt, const ode_engine::Pars<>& p, std::ostream& os) { ODE_EngineBoost<V> e(dt, p); e.streamParameters(os); e.logOnEnd(os); }
void scenario_pars_GSL(double dt, const ode_engine::Pars<>& p, std::ostream& os) { ODE_EngineGSL<V> e(dt, p); e.streamParameters(os); e.logOnEnd(os); }
// registration
void scenario_reg(parameters::Table& t, double& er, double& ea, int& ll) { ode_engine::Pars<> p(t); er = p.epsRel; ea = p.epsAbs; ll = p.logLevel; }
// trial steps
void scenario_try(ODE_EngineGSL<V>& e, ODE_EngineBoost<V>& b, std::ostream& os, Rhs r, double& t, V& y) { e.step(t, os, r, t, y); b.step(t, os, r, t, y); t = e.getDtTry() + b.getDtTry(); }
// trajectories hand their parameters on
void scenario_sim_boost(V& y, Rhs f, const trajectory::Pars<>& p, double dt, std::ostream& os) { auto s = simulated::make<ODE_EngineBoost<V>>(y.copy(), f, {"a"}, dt, p); s.streamParameters(os); }
void scenario_sim_GSL(V& y, Rhs f, const trajectory::Pars<>& p, double dt, std::ostream& os) { auto s = simulated::make<ODE_EngineGSL<V>>(y.copy(), f, {"a"}, dt, p); s.streamParameters(os); }
