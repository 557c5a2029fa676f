// Stand-in for the absent third-party generator: only its type is needed to read the library's headers
#pragma once
#include <array>
#include <cstdint>
namespace XoshiroCpp {
struct Xoshiro256PlusPlus
{
  using state_type=std::array<std::uint64_t,4>; using result_type=std::uint64_t;
  Xoshiro256PlusPlus(std::uint64_t s=0) : s_{s} {}
  result_type operator()() {return s_[0]++;}
  static constexpr result_type min() {return 0;}
  static constexpr result_type max() {return ~result_type(0);}
  void longJump() {} 
  state_type serialize() const {return s_;} void deserialize(const state_type& s) {s_=s;}
  state_type s_;
};
}
