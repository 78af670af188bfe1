// Stand-in for the pcg-cpp submodule (not available offline): the interface Random.h uses, nothing else.
#pragma once
#include <cstdint>
#include <istream>
#include <ostream>
#include <limits>
struct pcg64 {
  using result_type=std::uint64_t;
  pcg64(result_type seed=0xcafef00dd15ea5e5ULL, result_type stream=1) : state_(seed), inc_((stream<<1)|1) {(*this)();}
  result_type operator()() {
    state_=state_*6364136223846793005ULL+inc_;
    std::uint64_t z=state_; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31);
  }
  static constexpr result_type min() {return 0;}
  static constexpr result_type max() {return std::numeric_limits<result_type>::max();}
  void seed(result_type s) {state_=s;}
  friend bool operator==(const pcg64& a, const pcg64& b) {return a.state_==b.state_ && a.inc_==b.inc_;}
  friend std::ostream& operator<<(std::ostream& os, const pcg64& p) {return os<<p.state_<<' '<<p.inc_;}
  friend std::istream& operator>>(std::istream& is, pcg64& p) {return is>>p.state_>>p.inc_;}
private:
  result_type state_, inc_;
};
