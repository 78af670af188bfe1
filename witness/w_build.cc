// Construction of trajectories and composites out of building blocks of given dimensions, matched or mismatched; whether the construction gets to its end is told by an undefined function
#include "BinarySystem.h"
#include "Composite.tcc"
#include "Master.h"
#include "MCWF_Trajectory.h"
#include "TimeIndependentMatrixHamiltonian.h"
#include "BinarySystem.cc"
#include "TimeIndependentMatrixHamiltonian.cc"
#include "ComplexArrayExtensions.cc"
#include "CMatrix.cc"
#include "MCWF_TrajectoryLogger.cc"

// what the run-time library has for inserting into a list
void std::__detail::_List_node_base::_M_hook(_List_node_base* const p) noexcept {_M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this;}

extern "C" void last(bool) noexcept;

namespace witness {

using namespace quantumdata;

template <int R> struct System : structure::QuantumSystem<R>
{
  System(const ExtTiny<R>& d) : structure::QuantumSystem<R>(d) {}
  double highestFrequency_v() const override {return 1.;}
  std::ostream& streamParameters_v(std::ostream& os) const override {return os;}
};

template <int R> struct Turning : System<R>, structure::Exact<R>
{
  Turning(const ExtTiny<R>& d, bool applicable) : System<R>(d), applicable_(applicable) {}
  bool applicableInMaster_v() const override {return applicable_;}
  void actWithU_v(double, structure::StateVectorLow<R>&, double) const override {}
  bool applicable_;
};

struct Engine {double dt; double getDtDid() const {return dt;} double getDtTry() const {return dt;}};

struct Random {Random(unsigned long=0, unsigned long=0) {}};

template <typename T> T* keep(T* t) {return t;}

// not destroyed in the end
template <typename T> std::shared_ptr<const T>& hold(const T* t) {return *new std::shared_ptr<const T>(t,[](const T*) {});}

template <int R> structure::QuantumSystemPtr<R>& system(const ExtTiny<R>& d) {return hold<structure::QuantumSystem<R>>(new System<R>(d));}
template <int R> structure::QuantumSystemPtr<R>& turning(const ExtTiny<R>& d, bool applicable) {return hold<structure::QuantumSystem<R>>(new Turning<R>(d,applicable));}

template <int R> void master(structure::QuantumSystemPtr<R>& sys, const ExtTiny<R>& d)
{
  using M=quantumtrajectory::Master<R,Engine>;
  new M(sys,DensityOperator<R>(d),Engine{1.},quantumtrajectory::EntanglementMeasuresSwitch{});
  last(true);
}

template <int R> void masterPure(structure::QuantumSystemPtr<R>& sys, const ExtTiny<R>& d)
{
  using M=quantumtrajectory::Master<R,Engine>;
  new M(sys,StateVector<R>(d),Engine{1.},quantumtrajectory::EntanglementMeasuresSwitch{});
  last(true);
}

struct Stepper {double dt; double getDtDid() const {return dt;} double getDtTry() const {return dt;} void setDtTry(double d) {dt=d;} void setDtDid(double d) {dt=d;}};

template <int R> void mcwf(structure::QuantumSystemPtr<R>& sys, const ExtTiny<R>& d)
{
  using M=quantumtrajectory::MCWF_Trajectory<R,Stepper,Random>;
  new M(sys,StateVector<R>(d),Stepper{1.},randomutils::EngineWithParameters<Random>{1,1},.01,10.,0);
  last(true);
}

struct Part : structure::Free {Part(size_t d) : structure::Free(d) {}};

struct TurningPart : Part, structure::Exact<1>
{
  TurningPart(size_t d, bool applicable) : Part(d), applicable_(applicable) {}
  bool applicableInMaster_v() const override {return applicable_;}
  void actWithU_v(double, structure::StateVectorLow<1>&, double) const override {}
  bool applicable_;
};

template <int R> struct Link : structure::Interaction<R> {Link(const typename structure::Interaction<R>::Frees& f) : structure::Interaction<R>(f) {}};

template <int R> struct TurningLink : Link<R>, structure::Exact<R>
{
  TurningLink(const typename structure::Interaction<R>::Frees& f, bool applicable) : Link<R>(f), applicable_(applicable) {}
  bool applicableInMaster_v() const override {return applicable_;}
  void actWithU_v(double, structure::StateVectorLow<R>&, double) const override {}
  bool applicable_;
};

inline structure::FreePtr& part(size_t d) {return hold<structure::Free>(new Part(d));}
inline structure::FreePtr& turningPart(size_t d, bool applicable) {return hold<structure::Free>(new TurningPart(d,applicable));}

template <typename... F> auto& link(const F&... f)
{
  constexpr int R=sizeof...(F);
  return hold<structure::Interaction<R>>(new Link<R>({f...}));
}

template <typename... F> auto& turningLink(bool applicable, const F&... f)
{
  constexpr int R=sizeof...(F);
  return hold<structure::Interaction<R>>(new TurningLink<R>({f...},applicable));
}

template <bool EX, typename... A> auto& compose(A... a)
{
  return *new Composite<typename composite::result_of::make_list<A...>::type,EX,false,false>(composite::make_list(a...));
}

template <int R, typename C> void dims(const C& c, const ExtTiny<R>& d)
{
  static_assert(C::RANK==R);
  for (int i=0; i<R; ++i) last(c.getDimension(i)==size_t(d(i)));
}

template <int R, typename C> structure::QuantumSystemPtr<R>& whole(const C& c) {return hold<structure::QuantumSystem<R>>(&c);}

template <int R> struct Sized : DimensionsBookkeeper<R> {Sized(const ExtTiny<R>& d) : DimensionsBookkeeper<R>(d) {}};

template <int R> void same(const ExtTiny<R>& d, const ExtTiny<R>& e)
{
  Sized<R> a(d), b(e);
  last(a==b); last(a!=b);
}

} // witness
