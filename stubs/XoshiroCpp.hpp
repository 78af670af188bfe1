// Stand-in for the Xoshiro-cpp submodule (not available offline): the interface Random.h uses, nothing else.
#pragma once
#include <array>
#include <cstdint>
#include <limits>
namespace XoshiroCpp {
struct Xoshiro256PlusPlus {
  using state_type=std::array<std::uint64_t,4>;
  using result_type=std::uint64_t;
  explicit Xoshiro256PlusPlus(std::uint64_t seed=1234567890ULL) : state_{seed,seed+1,seed+2,seed+3} {}
  result_type operator()() {return state_[0]=state_[0]*6364136223846793005ULL+1;}
  static constexpr result_type min() {return 0;}
  static constexpr result_type max() {return std::numeric_limits<result_type>::max();}
  state_type serialize() const {return state_;}
  void deserialize(const state_type& s) {state_=s;}
private:
  state_type state_;
};
}
