#include <array>
#include <cstdint>
#include <span>
#include <string>
#include <vector>
#include <ostream>
#include "caligo/random.h"
#include "caligo/bignum.h"
#include "caligo/random_prime.h"
using namespace Caligo;
static std::string hx64(uint64_t v) { std::string s; for (int i = 60; i >= 0; i -= 4) s += "0123456789abcdef"[v >> i & 15]; return s; }
std::string opPrime(int v) { return std::string(miller_rabin_is_probably_prime(bignum<64>(v % 2 ? 0xffffffffffffffc5ull : 0xffffffffffffffc7ull)) ? "p" : "c") + (miller_rabin_is_probably_prime(bignum<32>(7919)) ? "p" : "c"); }
std::string opDrawPrime(int) { auto p = random_prime<64>().as_bytes(); if (p.size() < 8) return "!short"; uint64_t x; memcpy(&x, p.data(), 8); return std::string((x & 1) && (x >> 63) ? "" : "!not odd or not full size ") + "draws:" + hx64(x); }
