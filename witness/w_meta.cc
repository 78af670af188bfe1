// the self-description of every kind of trajectory, in several ranks
#include "Evolution.h"
#include "MCWF_Trajectory.h"
#include "Master.h"
#include "StochasticTrajectory.h"
#include "ODE_GSL.h"
#include "Simulated.h"

using namespace cppqedutils;
using namespace quantumtrajectory;
using trajectory::MakeSerializationMetadata;

struct Rhs { template <typename A> void operator()(const A& y, A& dydt, double t) const; };

template <int R> using SVL = typename quantumdata::StateVector<R>::StateVectorLow;
template <int R> using DOL = typename quantumdata::DensityOperator<R>::DensityOperatorLow;
template <int R> using MC = MCWF_Trajectory<R, ODE_EngineBoost<SVL<R>>, pcg64>;
template <int R> using MA = Master<R, ODE_EngineBoost<DOL<R>>, tmptools::V_Empty>;
template <int R> using SD = Simulated<DArray<R>, Rhs, ODE_EngineBoost<DArray<R>>>;
template <int R> using SC = Simulated<CArray<R>, Rhs, ODE_EngineBoost<CArray<R>>>;
template <int R> using EN = trajectory::Ensemble<MC<R>, DensityOperatorStreamer<R, tmptools::V_Empty>, mcwf::EnsembleLogger>;

template <typename T> auto meta() { return MakeSerializationMetadata<T>::_(); }

auto meta_mcwf_1() { return meta<MC<1>>(); }
auto meta_mcwf_2() { return meta<MC<2>>(); }
auto meta_mcwf_3() { return meta<MC<3>>(); }
auto meta_master_1() { return meta<MA<1>>(); }
auto meta_master_2() { return meta<MA<2>>(); }
auto meta_ensemble_1() { return meta<EN<1>>(); }
auto meta_ensemble_2() { return meta<EN<2>>(); }
auto meta_simreal_1() { return meta<SD<1>>(); }
auto meta_simreal_2() { return meta<SD<2>>(); }
auto meta_simcomplex_1() { return meta<SC<1>>(); }
auto meta_simcomplex_2() { return meta<SC<2>>(); }
auto meta_simcomplex_4() { return meta<SC<4>>(); }
