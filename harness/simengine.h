// Force-included into every translation unit of the simulated build
// (library and harness).  It is the seam for the library's only source of
// pseudo-randomness: the output function of the engine the library draws
// from.  The real algorithm still runs; the simulator may then replace the
// output by one that the engine can legally produce (any 64-bit value).
#ifndef VERIF_SIMENGINE_H
#define VERIF_SIMENGINE_H
#include <cstdint>
#include <cstddef>
#include <random>

extern "C" std::uint64_t verif_engine_output(std::uint64_t real);

namespace std {
template <>
inline mt19937_64::result_type mt19937_64::operator()() {
  if (_M_p >= state_size) _M_gen_rand();
  result_type z = _M_x[_M_p++];
  z ^= (z >> tempering_u) & tempering_d;
  z ^= (z << tempering_s) & tempering_b;
  z ^= (z << tempering_t) & tempering_c;
  z ^= (z >> tempering_l);
  return verif_engine_output(z);
}
}  // namespace std
#endif
