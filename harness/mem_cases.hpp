// Operations and input shapes explored by M02 (memory) and M04 (failed allocations). Inputs reach the library as spans
// over buffers the harness places; a case is an operation, input byte strings and numbers.
#pragma once
#include "mc.hpp"
#include <sstream>
using mc::Bytes;
typedef std::span<const uint8_t> S;
struct Args { std::vector<S> in; std::vector<size_t> n; std::function<std::span<uint8_t>(size_t slot, size_t len)> out; };
struct Broken { std::string why; };   // an operation disagrees with itself
struct Family {
  const char* name; std::string (*fn)(const Args&);
  std::function<void(int tier, const std::function<void(std::vector<Bytes>, std::vector<size_t>)>&)> gen;
};
const std::vector<Family>& families();
