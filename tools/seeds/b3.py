CTF = "-fsanitize-coverage=trace-pc -mllvm -sanitizer-coverage-prune-blocks=0"
CT = HH + r'''#include <stdexcept>
#include <cstdio>
static volatile size_t steps; extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc() { steps = (steps ^ (size_t)__builtin_return_address(0)) * 0x9e3779b97f4a7c15ull; }
'''
seed("s01-exp-length", "S01", "private exponents of different bit length", "the exponentiation stops at the highest set bit of the exponent",
 [("include/caligo/mont.h", "    for (size_t n = 0; n < K; n++) {", "    size_t used = K;\n    while (used > 1 && !exponent.bit(used - 1)) used--;\n    for (size_t n = 0; n < used; n++) {")],
 CT + r'''#include "caligo/rsa.h"
using namespace Caligo;
__attribute__((noinline)) size_t count(const rsa_private_key<128>& k, const bignum<128>& m) { steps = 0; volatile uint32_t x = k.rsadp(m)[0]; return steps; }
int main() { bignum<128> n, d1, d2; for (int i = 0; i < 4; i++) n[i] = 0x9e3779b9u * (i + 3) | 1; d1[3] = 0x87654321; d2[3] = 0x07654321; rsa_private_key<128> a(n, d1), b(n, d2); bignum<128> m(5u); size_t p = count(a, m), q = count(b, m); printf("%zu %zu\n", p, q); return p == q ? 0 : 1; }''', cflags=CTF)
seed("s01-tag-first", "S01", "a forged tag whose first byte is right", "opening returns at once when the first byte of the tag differs",
 [("include/caligo/gcm.h", "    plaintext.resize(ciphertext.size());\n    std::array<uint8_t, 16> calc_tag = calculate_tag(ciphertext, aad);", "    plaintext.resize(ciphertext.size());\n    std::array<uint8_t, 16> calc_tag = calculate_tag(ciphertext, aad); if (calc_tag[0] != tag[0]) return {std::move(plaintext), false};")],
 CT + r'''#include "caligo/aes.h"
#include "caligo/gcm.h"
using namespace Caligo;
int main() { std::vector<uint8_t> k(16, 1), iv(12, 2), ad(5, 3), m(20, 4); size_t cost[2]; for (int v = 0; v < 2; v++) { GCM<AES<128>> s(key_iv_pair<AES<128>>{k, iv}), r(key_iv_pair<AES<128>>{k, iv}); auto [c, t] = s.Encrypt(m, ad); t[v ? 15 : 0] ^= 1; steps = 0; auto p = r.Decrypt(c, ad, t); cost[v] = steps; if (p.second) return 2; } printf("%zu %zu\n", cost[0], cost[1]); return cost[0] == cost[1] ? 0 : 1; }''', cflags=CTF)
seed("s01-equal-early", "S01", "big numbers that agree in their low words", "comparison stops at the first differing word",
 [("include/caligo/bignum.h", "      result |= v[index] ^ rhs.v[index];", "      if (v[index] != rhs.v[index]) return false;")],
 CT + r'''#include "caligo/bignum.h"
using namespace Caligo;
__attribute__((noinline)) bool eq(const bignum<256>& a, const bignum<256>& b) { return a == b; }
int main() { bignum<256> a, b, c; b[0] = 1; c[7] = 1; steps = 0; bool x = eq(a, b); size_t p = steps; steps = 0; bool y = eq(a, c); size_t q = steps; printf("%zu %zu\n", p, q); return p == q && !x && !y ? 0 : 1; }''', cflags=CTF)
seed("s01-row-skip", "S01", "a secret number one of whose inner words is zero", "multiplication skips the row of a zero word",
 [("include/caligo/bignum.h", "      for (size_t j = 0; j < N; j++) {\n        t += (uint64_t)a.v[i] * b.v[j] + x.v[i+j];", "      for (size_t j = a.v[i] ? 0 : N; j < N; j++) {\n        t += (uint64_t)a.v[i] * b.v[j] + x.v[i+j];")],
 CT + r'''#include "caligo/bignum.h"
using namespace Caligo;
__attribute__((noinline)) void mul(bignum<512>& r, const bignum<256>& a, const bignum<256>& b) { r = a * b; }
int main() { bignum<256> a, b, c; bignum<512> r; for (int i = 0; i < 8; i++) a[i] = b[i] = c[i] = 7 + i; c[3] = 0; steps = 0; mul(r, a, b); size_t p = steps; steps = 0; mul(r, c, b); size_t q = steps; printf("%zu %zu\n", p, q); return p == q ? 0 : 1; }''', cflags=CTF)
seed("s01-swap-branch", "S01", "a ladder step whose scalar bits are equal", "the conditional swap returns early when there is nothing to swap",
 [("include/caligo/bignum.h", "    bignum ones;\n    for (size_t n = 0; n < N; n++) {\n      ones[n] = 0xffffffff * doswap;", "    bignum ones;\n    if (!doswap && a.v[0] != b.v[0]) return;\n    for (size_t n = 0; n < N; n++) {\n      ones[n] = 0xffffffff * doswap;")],
 CT + r'''#include "caligo/x25519.h"
using namespace Caligo;
__attribute__((noinline)) size_t count(const ec_value& k) { ec_value u{9}; steps = 0; auto r = X25519(k, u); return steps; }
int main() { ec_value k1{0, 0, 0, 0, 0, 0, 0, 0}, k2{0x12345678, 0x9abcdef0, 0x55555555, 0xaaaaaaaa, 1, 2, 3, 4}; size_t p = count(k1), q = count(k2); printf("%zu %zu\n", p, q); return p == q ? 0 : 1; }''', cflags=CTF)
seed("s01-hmac-key", "S01", "HMAC keys that end in zero bytes", "the pad is only combined with the part of the key before its trailing zero bytes",
 [("include/caligo/hkdf.h", "  for (auto& c : o) c ^= 0x5C;\n", "  size_t used = o.size();\n  while (used && o[used - 1] == 0) used--;\n  for (size_t n = 0; n < used; n++) o[n] ^= 0x5C;\n  std::fill(o.begin() + used, o.end(), 0x5C);\n")],
 CT + r"""#include "caligo/hkdf.h"
#include "caligo/sha2.h"
using namespace Caligo;
int main() { std::vector<uint8_t> k(32, 9), z(32, 9), t(20, 3); z[31] = z[30] = 0; auto f = [&](const std::vector<uint8_t>& key) __attribute__((noinline)) { steps = 0; HMAC<SHA2<256>>(t, key); return steps; }; f(k); size_t p = f(k), q = f(z); printf("%zu %zu\n", p, q); return p == q ? 0 : 1; }""", cflags=CTF)
