// Slices of an array that keeps track of its own axes: what every slice shows is handed to an undefined function, so that the optimised intermediate representation of these functions consists of calls with constants only.
#include "SliceIterator.tcc"
#include "BlitzArray.h"
#include "VectorFromMatrixSliceIterator.h"

#include <utility>

namespace witness {

template <int R> struct Axes
{
  int orig=0;            // rank of the array originally sliced
  int axis[R>0 ? R : 1]; // which of the original axes an axis is
  int fixed[6];          // the index an original axis is fixed to

  static constexpr int lb(int k) {return k==1 ? 1 : 0;}
  static constexpr int ub(int k) {return k==0 ? 1 : k==1 ? 3 : k==2 ? 1 : 1;}

  void reference(const Axes& other) {*this=other;}

  IdxTiny<R> lbound() const {IdxTiny<R> res; for (int k=0; k<R; ++k) res(k)=lb(axis[k]); return res;}
  IdxTiny<R> ubound() const {IdxTiny<R> res; for (int k=0; k<R; ++k) res(k)=ub(axis[k]); return res;}

  template <typename... I> void transposeSelf(I... i)
  {
    static_assert(sizeof...(I)==R);
    const int to[]={int(i)...}; int now[R];
    for (int k=0; k<R; ++k) now[k]=axis[to[k]];
    for (int k=0; k<R; ++k) axis[k]=now[k];
  }
};

template <typename T> constexpr bool ranged = std::is_same_v<std::decay_t<T>,blitz::Range>;

template <int R, int S> void pick(const Axes<R>& a, Axes<S>& res, int& at, int& k, const blitz::Range&) {res.axis[at++]=a.axis[k++];}
template <int R, int S> void pick(const Axes<R>& a, Axes<S>& res, int& at, int& k, const int& i) {res.fixed[a.axis[k++]]=i;}

template <int R, typename... I> auto subscript(const Axes<R>& a, const I&... i)
{
  static_assert(sizeof...(I)==R);
  Axes<(int(ranged<I>)+...)> res; res.orig=a.orig;
  for (int k=0; k<6; ++k) res.fixed[k]=a.fixed[k];
  int at=0, k=0;
  (pick(a,res,at,k,i),...);
  return res;
}

extern "C" void visit(int rank, int a0, int a1, int a2, int a3, int a4, int f0, int f1, int f2, int f3, int f4) noexcept;

template <int R> void show(const Axes<R>& s)
{
  auto a=[&](int k) {return k<R ? s.axis[k] : -1;};
  auto f=[&](int k) {return k<s.orig ? s.fixed[k] : -1;};
  visit(R,a(0),a(1),a(2),a(3),a(4),f(0),f(1),f(2),f(3),f(4));
}

extern "C" void last(bool) noexcept;

// as many slices as there are combinations of the dummy indices, one after the other, and whether the end is reached then
template <int RANK, typename V, int... K> void slices(std::integer_sequence<int,K...>)
{
  Axes<RANK> a; a.orig=RANK;
  for (int k=0; k<RANK; ++k) a.axis[k]=k;
  for (int k=0; k<6; ++k) a.fixed[k]=-1;
  auto range{cppqedutils::sliceiterator::fullRange<V>(a)};
  auto i{range.begin()};
  const auto end{range.end()};
  ((last(i==end), show(*i), ++i, K),...);
  last(i==end);
}

} // witness

#define SLICES(name,N,R,...) extern "C" void witness_##name() {witness::slices<R,__VA_ARGS__>(std::make_integer_sequence<int,N>{});}
