// State vectors and density operators of fixed shape with undefined elements; what their public interface shows is handed to an undefined function.
#include "DensityOperator.h"
#include "StateVector.h"
#include "ComplexArrayExtensions.cc"
#include "MathExtensions.cc"
#include "CMatrix.cc"

using namespace quantumdata;

extern "C" double re(int which, int i) noexcept;             // amplitudes
extern "C" double im(int which, int i) noexcept;
extern "C" double mre(int which, int i, int j) noexcept;     // matrix elements
extern "C" double mim(int which, int i, int j) noexcept;
extern "C" double weight(int) noexcept;
extern "C" void out(int what, int i, int j, double, double) noexcept;
extern "C" void shape(int what, int i, int reported, int actual) noexcept;

namespace witness {

inline void put(int what, int i, int j, dcomp z) {out(what,i,j,real(z),imag(z));}

template <int R> struct Shape;
template <> struct Shape<1> {static auto d() {return ExtTiny<1>(3);} static constexpr int n=3; static auto at(int k) {return IdxTiny<1>(k);}};
template <> struct Shape<2> {static auto d() {return ExtTiny<2>(2,3);} static constexpr int n=6; static auto at(int k) {return IdxTiny<2>(k/3,k%3);}};
template <> struct Shape<3> {static auto d() {return ExtTiny<3>(2,2,3);} static constexpr int n=12; static auto at(int k) {return IdxTiny<3>(k/6,k/3%2,k%3);}};
template <> struct Shape<4> {static auto d() {return ExtTiny<4>(2,2,1,2);} static constexpr int n=8; static auto at(int k) {return IdxTiny<4>(k/4,k/2%2,0,k%2);}};

template <int R> using D=typename StateVector<R>::Dimensions;

template <int R> void fill(StateVector<R>& psi, int which)
{
  for (int k=0; k<Shape<R>::n; ++k) psi.getArray()(Shape<R>::at(k))=dcomp(re(which,k),im(which,k));
}

template <int R> void fill(DensityOperator<R>& rho, int which, bool hermitian=false)
{
  for (int k=0; k<Shape<R>::n; ++k) for (int l=0; l<Shape<R>::n; ++l) {
    const int a=hermitian && l<k ? l : k, b=hermitian && l<k ? k : l;
    rho(Shape<R>::at(k))(Shape<R>::at(l))=dcomp(mre(which,a,b), hermitian && k==l ? 0. : (hermitian && l<k ? -1. : 1.)*mim(which,a,b));
  }
}

// what is left undestroyed need not be looked at
template <typename T> struct Keep
{
  alignas(T) char space[sizeof(T)];
  template <typename... A> Keep(A&&... a) {new (space) T(std::forward<A>(a)...);}
  T& operator*() {return *reinterpret_cast<T*>(space);}
};

template <int R> void all(int what, const DensityOperator<R>& rho)
{
  for (int k=0; k<Shape<R>::n; ++k) for (int l=0; l<Shape<R>::n; ++l) put(what,k,l,rho(Shape<R>::at(k))(Shape<R>::at(l)));
}

template <int R> void all(int what, const StateVector<R>& psi)
{
  for (int k=0; k<Shape<R>::n; ++k) put(what,k,0,psi.getArray()(Shape<R>::at(k)));
}

template <int R> StateVector<R>* pure(int which)
{
  auto psi=new StateVector<R>(Shape<R>::d()); fill(*psi,which); return psi;
}

template <int R> DensityOperator<R>* mixed(int which, bool hermitian=false)
{
  auto rho=new DensityOperator<R>(Shape<R>::d()); fill(*rho,which,hermitian); return rho;
}

// the common view
template <int R> void view(const LazyDensityOperator<R>& m)
{
  for (int k=0; k<Shape<R>::n; ++k) {
    for (int l=0; l<Shape<R>::n; ++l) put(0,k,l,m(Shape<R>::at(k))(Shape<R>::at(l)));
    put(1,k,k,double(m(Shape<R>::at(k))));
  }
  put(2,0,0,m.trace());
}

template <int R> void flat(const LazyDensityOperator<R>& m, bool offDiagonals)
{
  auto* d=new DArray<1>(deflate(m,offDiagonals));
  out(3,d->size(),0,0,0);
  auto* rho=new DensityOperator<R>(Shape<R>::d());
  inflate(*d,*rho,offDiagonals);
  all(4,*rho);
}

// all the elements of a density operator of any shape, the last index running first
template <int S> void elements(int what, const DensityOperator<S>& r)
{
  int n=1; for (int k=0; k<S; ++k) n*=r.getArray().extent(k);
  auto at=[&](int k) {IdxTiny<S> i; for (int a=S-1; a>=0; --a) {const int e=r.getArray().extent(a); i(a)=k%e; k/=e;} return i;};
  for (int k=0; k<n; ++k) for (int l=0; l<n; ++l) put(what,k,l,r(at(k))(at(l)));
}

template <int S> void elements(int what, const CArray<S>& r)
{
  int n=1; for (int k=0; k<S; ++k) n*=r.extent(k);
  for (int k=0; k<n; ++k) {
    IdxTiny<S> i; int m=k;
    for (int a=S-1; a>=0; --a) {const int e=r.extent(a); i(a)=m%e+r.lbound(a); m/=e;}
    put(what,k,0,r(i));
  }
}

template <int R, typename V, typename M> void part(const M& m)
{
  elements(5,*new auto(reduce<V>(m)));
  put(6,0,0,partialTrace<V>(static_cast<const LazyDensityOperator<R>&>(m),[](const auto& s) {return s.trace();}));
}

template <int R> void makeMixed()
{
  auto* psi=pure<R>(0);
  all(10,*new DensityOperator<R>(*psi));
  auto* rho=mixed<R>(0); *rho=*psi; all(11,*rho);
  all(12,*new DensityOperator<R>(densityOperatorize(static_cast<const LazyDensityOperator<R>&>(*psi))));
  auto* phi=pure<R>(1);
  all(13,*new DensityOperator<R>(dyad(*psi,*phi)));
}

template <int R> void takeOver() {all(14,*new DensityOperator<R>(densityOperatorize(static_cast<const LazyDensityOperator<R>&>(*mixed<R>(0,true)))));}

template <int R> void addUp()
{
  auto* psi=pure<R>(0); auto* rho=mixed<R>(0);
  psi->addTo(*rho,weight(0)); all(15,*rho);
  psi->addTo(*rho); all(16,*rho);
}

template <int R> void numbers()
{
  auto* psi=pure<R>(0); auto* phi=pure<R>(1);
  put(20,0,0,psi->norm()); put(21,0,0,braket(*psi,*phi));
  put(22,0,0,mixed<R>(0)->norm()); put(23,0,0,purity(*mixed<R>(0)));
}

} // witness

// slices of the real thing: as many as there are combinations of the dummy indices
#include "SliceIterator.tcc"

namespace witness {

template <typename S> void slice(int what, int n, const S& s)
{
  if constexpr (requires {s.matrixView();}) {
    elements(what+n,s);
    for (int k=0; k<S::N_RANK; ++k) shape(what+n,k,s.getDimensions()(k),s.getArray().extent(k));
    for (int k=0; k<S::N_RANK; ++k) shape(what+n,k,s.getDimensions()(k),s.getArray().extent(k+S::N_RANK));
  }
  else if constexpr (requires {s.getArray();}) {
    elements(what+n,s.getArray());
    for (int k=0; k<S::N_RANK; ++k) shape(what+n,k,s.getDimensions()(k),s.getArray().extent(k));
  }
  else elements(what+n,s);
}

template <typename V, template <int> class ARRAY, int RANK, int... K> void slices(const ARRAY<RANK>& a, std::integer_sequence<int,K...>)
{
  auto* range=new auto(cppqedutils::sliceiterator::fullRange<V,ARRAY>(a));
  auto* i=new auto(range->begin());
  auto* e=new auto(range->end());
  ((shape(1000+K,-1,0,*i==*e), slice(1000,K,**i), ++*i, K),...);
  shape(1000+int(sizeof...(K)),-1,1,*i==*e);
}

} // witness

// who owns what
namespace witness {

template <typename T> T* make(int which)
{
  if constexpr (requires (T& t) {t.matrixView();}) return mixed<T::N_RANK>(which); else return pure<T::N_RANK>(which);
}

template <typename T> void dims(int what, const T& t)
{
  for (int k=0; k<T::N_RANK; ++k) shape(what,k,t.getDimensions()(k),t.getArray().extent(k));
  int n=1; for (int k=0; k<T::N_RANK; ++k) n*=t.getArray().extent(k);
  shape(what,-1,t.getTotalDimension(),n);
}

template <typename T> void state(int what, const T& t) {all(what,t); dims(what,t);}

template <typename T> void copied()
{
  auto* a=make<T>(0); auto* b=new T(*a);
  state(30,*b); fill(*b,1); state(31,*a); state(32,*b); fill(*a,2); state(33,*b); state(34,*a);
}

template <typename T> void assigned()
{
  auto* a=make<T>(0); auto* b=make<T>(1);
  *b=*a;
  state(30,*b); fill(*b,1); state(31,*a); state(32,*b); fill(*a,2); state(33,*b); state(34,*a);
}

template <typename T> void assignedSelf() {auto* a=make<T>(0); auto& b=*a; *a=b; state(40,*a);}

template <typename T> void moved() {auto* a=make<T>(0); state(40,*new T(std::move(*a)));}

template <typename T> void movedTo() {auto* a=make<T>(0); auto* b=make<T>(1); *b=std::move(*a); state(40,*b); fill(*b,2); state(42,*b);}

template <typename T> void swapped() {auto* a=make<T>(0); auto* b=make<T>(1); std::swap(*a,*b); state(41,*a); state(40,*b);}

template <typename T> void referenced()
{
  auto* a=make<T>(0); auto* b=new T(a->getArray(),byReference);
  state(30,*b); fill(*b,1); state(35,*a); state(32,*b); fill(*a,2); state(36,*b); state(34,*a);
}

template <typename T> void referring()
{
  auto* a=make<T>(0); auto* b=make<T>(1); b->reference(*a);
  state(30,*b); fill(*b,1); state(35,*a); state(32,*b); fill(*a,2); state(36,*b); state(34,*a);
}

// referring to one of another shape
template <typename T> void reshaped()
{
  constexpr int R=T::N_RANK;
  auto* a=make<T>(0);
  auto d{Shape<R>::d()}; for (int k=0; k<R; ++k) d(k)+=1;
  auto* b=new T(d); b->reference(*a); state(40,*b);
}

template <typename T> void written() // through
{
  auto* a=make<T>(0); auto* b=make<T>(1); auto* r=new T(a->getArray(),byReference);
  *r=*b; state(41,*r); state(43,*a); fill(*r,2); state(44,*b);
}

template <typename T> void summed()
{
  auto* a=make<T>(0); auto* b=make<T>(1);
  auto* c=new T(*a+*b); state(50,*c); fill(*c,2); state(31,*a); state(44,*b);
  auto* d=new T(*a-*b); state(51,*d); fill(*d,2); state(31,*a); state(44,*b);
  auto* e=new T(*a*2.); state(52,*e); fill(*e,2); state(31,*a);
  auto* f=new T(*a/2.); state(53,*f); fill(*f,2); state(31,*a);
}

template <typename T> void added()
{
  auto* a=make<T>(0); auto* b=make<T>(1);
  auto* c=new T(*a); *c+=*b; state(50,*c); state(31,*a); state(44,*b);
  auto* d=new T(*a); *d-=*b; state(51,*d); state(31,*a); state(44,*b);
  auto* e=new T(*a); *e*=2.; state(52,*e); state(31,*a);
  auto* f=new T(*a); *f/=2.; state(53,*f); state(31,*a);
}

template <typename T> void negated()
{
  auto* a=make<T>(0);
  auto* c=new T(-*a); state(54,*c); fill(*c,2); state(31,*a);
  auto* d=new T(+*a); state(30,*d); fill(*d,2); state(31,*a);
}

template <int R> void dyadic()
{
  auto* a=pure<R>(0); auto* r=new DensityOperator<R>(*a); dims(60,*r); fill(*r,2); state(31,*a);
  auto* s=mixed<R>(1); *s=*a; dims(60,*s); fill(*s,2); state(31,*a);
}

template <int R1, int R2> void product()
{
  auto* a=pure<R1>(0); auto* b=pure<R2>(1);
  auto* c=new StateVector<R1+R2>(*a * *b); elements(61,c->getArray()); dims(61,*c);
  *c=0.; state(31,*a); state(44,*b);
}

template <typename T> void fresh() {auto* a=new T(Shape<T::N_RANK>::d()); state(62,*a); *a=1.; auto* b=new T(Shape<T::N_RANK>::d()); state(62,*b);}

template <typename T> void transposed()
{
  auto* a=make<T>(0); auto* b=new T(*a); b->transposeSelf(1,0);
  dims(63,*b);
  if constexpr (requires (T& t) {t.matrixView();}) elements(63,*b); else elements(63,b->getArray());
  state(31,*a);
}

} // witness
