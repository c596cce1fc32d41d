#include <array>
#include <cstdint>
#include <span>
#include <string>
#include <vector>
#include <ostream>
#include "caligo/random.h"
#include "caligo/bignum.h"
#include "caligo/random_prime.h"
#include "mem_cases.hpp"
using namespace Caligo;
std::string memPrime(const Args& a) {
  if (a.n[1] == 32) return miller_rabin_is_probably_prime(bignum<32>((uint32_t)a.n[0])) ? "p" : "c";
  if (a.n[1] == 64) return miller_rabin_is_probably_prime(bignum<64>({(uint32_t)(a.n[0] >> 32), (uint32_t)a.n[0]})) ? "p" : "c";
  struct ClearDraws { ~ClearDraws() { testValues.clear(); testValues.shrink_to_fit(); } } guard; testValues.clear(); { std::vector<uint64_t> tv; for (size_t i = 0; i < 400; i++) tv.push_back(0x9e3779b97f4a7c15ull * (i + 1 + a.n[0])); testValues = tv; }
  auto p = random_prime<64>(); std::string r = to_string(p) + std::to_string(testValues.size()); return r;
}
