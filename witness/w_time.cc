// systems of every kind of time dependence, which hand on what they are called with
#include "Hamiltonian.h"
#include "FreeExact.h"
#include "Exact.h"
#include "Liouvillean.h"
#include "ElementLiouvillean.h"
#include "ElementAveraged.h"
#include "Averaged.h"
#include "DensityOperator.h"
#include "StateVector.h"
#include "Structure.h"

using namespace structure; using quantumdata::LazyDensityOperator;
using SVL=quantumdata::StateVectorLow<1>; using DOL=quantumdata::DensityOperatorLow<1>; using LDO=LazyDensityOperator<1>;

namespace witness {

void two(double t, double t0);
void one(double t);
void none();
void in(const SVL&);
void inout(SVL&);
void rin(const DOL&);
void rinout(DOL&);
void number(size_t);
void matrix(const LDO&);
double made(size_t);
dcomp diagonal(double t, double t0);
dcomp diagonal(double t);

void tell(TwoTime t) {two(t.getT(),t.getT0());}
void tell(OneTime t) {one(t);}
void tell(NoTime) {none();}

template<TimeDependence TD> struct Ha : HamiltonianTimeDependenceDispatched<1,TD>
{
  void addContribution_v(typename HamiltonianTimeDependenceDispatched<1,TD>::Time t, const SVL& psi, SVL& dpsidt) const override {tell(t); in(psi); inout(dpsidt);}
};

template<bool TWO> struct Ex : ExactTimeDependenceDispatched<1,TWO>
{
  bool applicableInMaster_v() const override {return true;}
  void actWithU_v(typename ExactTimeDependenceDispatched<1,TWO>::Time t, SVL& psi) const override {tell(t); inout(psi);}
};

struct FreeTwo : FreeExact<true>
{
  FreeTwo() : FreeExact<true>(1) {}
  bool applicableInMaster_v() const override {return true;}
  void updateU(TwoTime t) const override {getDiagonal()(0)=diagonal(t.getT(),t.getT0());}
};

struct FreeOne : FreeExact<false>
{
  FreeOne() : FreeExact<false>(1) {}
  bool applicableInMaster_v() const override {return true;}
  void updateU(OneTime t) const override {getDiagonal()(0)=diagonal(double(t));}
};

template<bool TD> struct Li : LiouvilleanTimeDependenceDispatched<1,TD>
{
  using T=typename LiouvilleanTimeDependenceDispatched<1,TD>::Time;
  std::ostream& streamKey_v(std::ostream& os, size_t&) const override {return os;}
  size_t nAvr_v() const override {return 1;}
  void actWithJ_v(T t, SVL& psi, size_t n) const override {tell(t); inout(psi); number(n);}
  const Rates rates_v(T t, const LDO& m) const override {tell(t); matrix(m); Rates r(1); r(0)=made(0); return r;}
  void actWithSuperoperator_v(T t, const DOL& rho, DOL& d, size_t n) const override {tell(t); rin(rho); rinout(d); number(n);}
};

template<bool TD> struct Av : AveragedTimeDependenceDispatched<1,TD>
{
  using T=typename AveragedTimeDependenceDispatched<1,TD>::Time;
  std::ostream& streamKey_v(std::ostream& os, size_t&) const override {return os;}
  size_t nAvr_v() const override {return 1;}
  std::ostream& stream_v(const Averages&, std::ostream& os, int) const override {return os;}
  const Averages average_v(T t, const LDO& m) const override {tell(t); matrix(m); Averages r(1); r(0)=made(0); return r;}
};

template<bool TD> struct El1 : ElementLiouvillean<1,1,TD>
{
  using T=typename ElementLiouvillean<1,1,TD>::Time;
  El1() : ElementLiouvillean<1,1,TD>("one","first") {}
  void doActWithJ(T t, SVL& psi) const override {tell(t); inout(psi);}
  double rate(T t, const LDO& m) const override {tell(t); matrix(m); return made(0);}
  void doActWithSuperoperator(T t, const DOL& rho, DOL& d) const override {tell(t); rin(rho); rinout(d);}
};

template<bool TD> struct El2 : ElementLiouvillean<1,2,TD>
{
  using T=typename ElementLiouvillean<1,2,TD>::Time;
  template<int N> using No=tmptools::integral_c<N>;
  El2() : ElementLiouvillean<1,2,TD>("two",{"first","second"}) {}
  void doActWithJ(T t, SVL& psi, No<0>) const override {tell(t); inout(psi); number(0);}
  void doActWithJ(T t, SVL& psi, No<1>) const override {tell(t); inout(psi); number(1);}
  double rate(T t, const LDO& m, No<0>) const override {tell(t); matrix(m); return made(0);}
  double rate(T t, const LDO& m, No<1>) const override {tell(t); matrix(m); return made(1);}
  void doActWithSuperoperator(T t, const DOL& rho, DOL& d, No<0>) const override {tell(t); rin(rho); rinout(d); number(0);}
  void doActWithSuperoperator(T t, const DOL& rho, DOL& d, No<1>) const override {tell(t); rin(rho); rinout(d); number(1);}
};

template<typename S> void ha(double t, const SVL& psi, SVL& dpsidt, double t0) {S s; s.addContribution(t,psi,dpsidt,t0);}
template<typename S> void ex(double t, SVL& psi, double t0) {S s; s.actWithU(t,psi,t0);}
template<typename S> void jump(double t, SVL& psi) {S s; s.actWithJ(t,psi,0);}
template<typename S> void jumpSecond(double t, SVL& psi) {S s; s.actWithJ(t,psi,1);}
template<typename S> void super(double t, const DOL& rho, DOL& d) {S s; s.actWithSuperoperator(t,rho,d,0);}
template<typename S> void superSecond(double t, const DOL& rho, DOL& d) {S s; s.actWithSuperoperator(t,rho,d,1);}
template<typename S> Averages average(double t, const LDO& m) {S s; return s.average(t,m);}
template<typename S> void thrice(SVL& a, SVL& b, SVL& c, double ta, double ta0, double tb, double tb0, double tc, double tc0) {S s; s.actWithU(ta,a,ta0); s.actWithU(tb,b,tb0); s.actWithU(tc,c,tc0);}

template void ha<Ha<TimeDependence::TWO>>(double, const SVL&, SVL&, double);
template void ha<Ha<TimeDependence::ONE>>(double, const SVL&, SVL&, double);
template void ha<Ha<TimeDependence::NO>>(double, const SVL&, SVL&, double);
template void ex<Ex<true>>(double, SVL&, double);
template void ex<Ex<false>>(double, SVL&, double);
template void thrice<FreeTwo>(SVL&, SVL&, SVL&, double, double, double, double, double, double);
template void thrice<FreeOne>(SVL&, SVL&, SVL&, double, double, double, double, double, double);

#define LI(S) template void jump<S>(double, SVL&); template void super<S>(double, const DOL&, DOL&); template Averages average<S>(double, const LDO&);
LI(Li<true>) LI(Li<false>) LI(El1<true>) LI(El1<false>) LI(El2<true>) LI(El2<false>)
template Averages average<Av<true>>(double, const LDO&);
template Averages average<Av<false>>(double, const LDO&);
template void jumpSecond<El2<true>>(double, SVL&); template void superSecond<El2<true>>(double, const DOL&, DOL&);
template void jumpSecond<El2<false>>(double, SVL&); template void superSecond<El2<false>>(double, const DOL&, DOL&);

} // witness
