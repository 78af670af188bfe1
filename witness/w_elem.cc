// elements and interactions through their makers
#include "BichromaticMode.h"
#include "HomodynedMode.h"
#include "Mode.tcc"
#include "JaynesCummings_.h"
#include "CoupledModes.h"
#include "ParticleCavity_.h"
#include "PumpedTwoLevelAtom.h"
#include "Spin.h"

using namespace mode;

mode::Ptr scenario_bichromatic(const ParsBichromatic& p, QM_Picture q) {return make<Averaged>(p,q);}
mode::Ptr scenario_homodyned(const ParsHomodyned<ParsPumpedLossy>& p) {return make<Averaged>(p);}
mode::Ptr scenario_monitored(const ParsPumpedLossy& p, QM_Picture q) {return make<AveragedMonitorCutoff<AveragedQuadratures> >(p,q);}
mode::Ptr scenario_quadratures(const ParsPumpedLossy& p, QM_Picture q) {return make<AveragedQuadratures>(p,q);}

jaynescummings::Ptr scenario_jc_qbit(qbit::Ptr f, mode::Ptr m, dcomp g) {return jaynescummings::make(f,m,g);}
jaynescummings::Ptr scenario_jc_spin(spin::Ptr f, mode::Ptr m, dcomp g) {return jaynescummings::make(f,m,g);}
coupledmodes::Ptr scenario_coupled_nx(mode::Ptr f, mode::Ptr m, dcomp g) {return coupledmodes::make<coupledmodes::CM_NX>(f,m,g);}
coupledmodes::Ptr scenario_coupled_xx(mode::Ptr f, mode::Ptr m, dcomp g) {return coupledmodes::make<coupledmodes::CM_XX>(f,m,g);}
coupledmodes::Ptr scenario_coupled_rwa(mode::Ptr f, mode::Ptr m, dcomp g) {return coupledmodes::make<coupledmodes::CM_XX_RWA>(f,m,g);}

std::shared_ptr<const ModeBase> scenario_alternative_cold(const ParsPumpedLossy& p) {return std::make_shared<PumpedLossyModeAlternative<false> >(p);}
std::shared_ptr<const ModeBase> scenario_alternative_hot(const ParsPumpedLossy& p) {return std::make_shared<PumpedLossyModeAlternative<true> >(p);}
std::shared_ptr<const ModeBase> scenario_noexact(const ParsPumpedLossy& p) {return std::make_shared<PumpedLossyModeIP_NoExact>(p);}
std::shared_ptr<const structure::Free> scenario_ptlasch(const qbit::ParsPumpedLossy& p) {return std::make_shared<PumpedTwoLevelAtomSch>(p);}
