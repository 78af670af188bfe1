// Tridiagonal operators with undefined elements: what they do to undefined vectors is handed to an undefined function
#include <boost/preprocessor/iteration/iterate.hpp>
#include "Tridiagonal.tcc"
#include "Sigma.h"
#include "ComplexArrayExtensions.cc"
#include "CMatrix.cc"
#include "Tridiagonal.cc"
#include "Sigma.cc"

extern "C" double re(int which, int i) noexcept;
extern "C" double im(int which, int i) noexcept;
extern "C" void out(int what, int i, int j, double, double) noexcept;
extern "C" void last(bool) noexcept;

namespace witness {

using quantumoperator::Tridiagonal;
using Diagonal=CArray<1>;

inline void put(int what, int i, dcomp z) {out(what,i,0,real(z),imag(z));}

// n undefined elements; none for n=0
inline Diagonal& diag(int which, int n) {auto& d=*new Diagonal(n); for (int i=0; i<n; ++i) d(i)=dcomp(re(which,i),im(which,i)); return d;}

// imaginary
inline Diagonal& turn(int which, int n) {auto& d=*new Diagonal(n); for (int i=0; i<n; ++i) d(i)=dcomp(0.,im(which,i)); return d;}

// given
template <typename... N> Diagonal& num(N... n) {auto& d=*new Diagonal(sizeof...(N)); int i=0; ((d(i++)=dcomp(n)),...); return d;}

// main, lower, upper diagonal as the bits of mask
inline Tridiagonal<1>& tri(int which, int dim, int k, int mask)
{
  return *new Tridiagonal<1>(diag(10*which,mask&1 ? dim : 0),k,diag(10*which+1,mask&2 ? dim-k : 0),diag(10*which+2,mask&4 ? dim-k : 0));
}

inline dcomp amplitude(int which, int i) {return dcomp(re(which,i),im(which,i));}

inline void fill(CArray<1>& a, int which) {for (int i=0; i<a.extent(0); ++i) a(i)=amplitude(which,i);}
inline void fill(CArray<2>& a, int which) {int m=0; for (int i=0; i<a.extent(0); ++i) for (int j=0; j<a.extent(1); ++j) a(i,j)=amplitude(which,m++);}
inline void fill(CArray<3>& a, int which) {int m=0; for (int i=0; i<a.extent(0); ++i) for (int j=0; j<a.extent(1); ++j) for (int k=0; k<a.extent(2); ++k) a(i,j,k)=amplitude(which,m++);}

inline void show(int what, CArray<1>& a) {for (int i=0; i<a.extent(0); ++i) put(what,i,a(i));}
inline void show(int what, CArray<2>& a) {int m=0; for (int i=0; i<a.extent(0); ++i) for (int j=0; j<a.extent(1); ++j) put(what,m++,a(i,j));}
inline void show(int what, CArray<3>& a) {int m=0; for (int i=0; i<a.extent(0); ++i) for (int j=0; j<a.extent(1); ++j) for (int k=0; k<a.extent(2); ++k) put(what,m++,a(i,j,k));}

// what the operator adds to a vector
template <int R, typename T> void act(int what, const T& t, const ExtTiny<R>& d)
{
  auto& psi=*new CArray<R>(d); auto& dpsidt=*new CArray<R>(d);
  fill(psi,100); fill(dpsidt,101);
  t.apply(psi,dpsidt);
  show(what,dpsidt); show(what+1000,psi);
}

template <typename T> void act(int what, const T& t, int d0) {act<1>(what,t,ExtTiny<1>(d0));}
template <typename T> void act(int what, const T& t, int d0, int d1) {act<2>(what,t,ExtTiny<2>(d0,d1));}
template <typename T> void act(int what, const T& t, int d0, int d1, int d2) {act<3>(what,t,ExtTiny<3>(d0,d1,d2));}

// the same object not destroyed in the end
template <typename T> T& keep(const T& t) {return *new T(t);}

} // witness
