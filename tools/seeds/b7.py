NN = HH + '#include <cstring>\n#include <algorithm>\n#include <stdexcept>\n#include "caligo/random.h"\n#include "caligo/bignum.h"\n#include "caligo/mont.h"\nusing namespace Caligo;\n'
CC = HH + '#include <cstring>\n#include <algorithm>\n#include <stdexcept>\n#include "caligo/aes.h"\n#include "caligo/gcm.h"\n#include "caligo/ctr.h"\n#include "caligo/chacha20.h"\nusing namespace Caligo; typedef std::vector<uint8_t> B;\n'
seed("c03-aad-bits32", "C03", "512 MiB or more of additional data", "the bit count of the additional data wraps at 32 bits",
 [("include/caligo/gcm.h", "    size_t ptsize = ciphertext.size() * 8, aadsize = aad.size() * 8;\n", "    size_t ptsize = ciphertext.size() * 8;\n    uint32_t aadsize = uint32_t(aad.size()) * 8;\n")],
 CC + r'''int main() { key_iv_pair<AES<128>> k{B(16), B(12, 1)}; GCM<AES<128>> a(k); B z(size_t(1) << 29); auto t = a.ghash({}, z); uint8_t L[16] = {0, 0, 0, 1}; // an all-zero prefix leaves the state 0, so the tag is H times the length block
  auto w = reflect(ghash_block(reflect(_mm_loadu_si128((__m128i*)L)), a.h, __m128i{0, 0})); return memcmp(&w, t.data(), 16) ? 1 : 0; }''')
seed("t02-step-back", "T02", "a chain of four or more links whose certificates are delivered in neither order", "after each verified certificate only the previous list entry is reconsidered",
 [("src/Truststore.cpp", "    n = 0;\n  }\n  return false;", "    n = n ? n - 1 : 0;\n  }\n  return false;")],
 HH + TR + r'''int main() { auto& s = Truststore::Instance(); s.addCertificate(P(cert(cn("root"), cn("root"), 0, 0))); std::vector<x509certificate> v;
  v.push_back(P(cert(cn("i1"), cn("leaf"), 0, 1))); v.push_back(P(cert(cn("i2"), cn("i1"), 1, 0))); v.push_back(P(cert(cn("x"), cn("y"), 1, 0))); v.push_back(P(cert(cn("root"), cn("i2"), 0, 0))); return s.trust(v, 1700000000) ? 0 : 1; }''')
seed("t02-rounds", "T02", "a chain of more than nine links", "the number of verified certificates per query is limited",
 [("src/Truststore.cpp", "  for (size_t n = 0; n < untrustedCertificates.size();) {", "  for (size_t n = 0, rounds = 0; n < untrustedCertificates.size() && rounds < 10; rounds += (n == 0)) {")],
 HH + TR + r'''int main() { auto& s = Truststore::Instance(); s.addCertificate(P(cert(cn("i14"), cn("i14"), 0, 0))); std::vector<x509certificate> v; char a[9], b[9];
  for (int i = 0; i < 14; i++) { snprintf(a, 9, "i%d", i + 1); snprintf(b, 9, "i%d", i); v.push_back(P(cert(cn(a), cn(b), 0, 0))); } return s.trust(v, 1700000000) ? 0 : 1; }''')
seed("e01-stop-at-pad", "E01", "encoded data that goes on after padding", "decoding stops at the first padding character",
 [("src/base64.cpp", "    if (r == -1) continue;\n", "    if (v == '=') break;\n    if (r == -1) continue;\n")],
 HH + r'''#include <string_view>
#include "caligo/base64.h"
int main() { auto v = Caligo::base64d("AA==AAA="); return v.size() == 3 ? 0 : 1; }''')
seed("c05-block-carry", "C05", "a message that crosses a multiple of 2^24 blocks of the counter in the IV", "the block counter wraps at 24 bits",
 [("include/caligo/ctr.h", "    ctr[13]++;\n    if (ctr[13] != 0) return;\n    ctr[12]++;\n", "    ctr[13]++;\n")],
 CC + r'''int main() { B iv(16); iv[13] = iv[14] = iv[15] = 0xff; key_iv_pair<AES<128>> k{B(16, 3), iv}; CTR<AES<128>> a(k); B iv2(16); iv2[11] = 0; iv2[12] = 0; iv2[13] = iv2[14] = iv2[15] = 0xff; auto s = a.GenerateKeystream(16);
  __m128i c = {0, 0}; ((uint8_t*)&c)[12] = 1; auto w = AES<128>::Encrypt(AES<128>::KeySchedule(B(16, 3)), c); return memcmp(&w, s.data(), 16) ? 1 : 0; }''')
seed("c06-bulk-exact", "C06", "a message of a kilobyte or more that starts and ends on block boundaries, followed by another", "whole blocks are handled in bulk and the block after the last one is only made when the message goes on",
 [("include/caligo/chacha20.h", "    void Encrypt(std::span<uint8_t> data) {\n" if False else "  void Encrypt(std::span<uint8_t> data) {\n", "  void Encrypt(std::span<uint8_t> data) {\n    if (offset == 0 && data.size() >= 1024) {\n      while (data.size() >= 64) {\n        for (size_t n = 0; n < 64; n++) data[n] ^= buffer[n];\n        data = data.subspan(64);\n        if (!data.empty()) GenerateBlock();\n      }\n    }\n")],
 CC + r'''int main() { B k(32, 1), n(12, 2), a(1088), b(1088); ChaCha20 x(k, n), y(k, n); x.Encrypt(std::span<uint8_t>(a).subspan(0, 1024)); x.Encrypt(std::span<uint8_t>(a).subspan(1024)); for (auto& c : b) y.Encrypt(std::span<uint8_t>(&c, 1)); return a == b ? 0 : 1; }''')
seed("c02-half-zero", "C02", "an operand whose low half is zero and whose high half is not", "an early exit for the zero operand looks at one half of it",
 [("include/caligo/ghash.h", "  __m128i tmp3, tmp4, tmp6, tmp8;\n", "  __m128i tmp3, tmp4, tmp6, tmp8;\n  if (_mm_cvtsi128_si64(a) == 0) return _mm_setzero_si128();\n")],
 CC + r"""int main() { __m128i a = {0, 1}, b = {1, 0}; auto g = galoisMultiply(a, b); return memcmp(&g, &a, 16) ? 1 : 0; }""")
seed("m01-store-lazy", "M01", "two threads that use the trust store for the first time at once", "the store is made on first use without a guard",
 [("src/Truststore.cpp", "  static Truststore store;\n  return store;\n", "  static Truststore* store = nullptr;\n  if (!store) store = new Truststore();\n  return *store;\n")],
 HH + TR + r'''#include <thread>
#include <atomic>
int main() { std::atomic<int> n{0}; Truststore* p[4]; std::vector<std::thread> t; for (int i = 0; i < 4; i++) t.emplace_back([&, i] { n++; while (n < 4) ; p[i] = &Truststore::Instance(); }); for (auto& x : t) x.join(); return p[0] == p[1] && p[0] == p[2] && p[0] == p[3] ? 0 : 1; }''')
seed("m01-name-lookup", "M01", "two threads that convert values to text and back at once", "base64 decoding keeps its output buffer between calls",
 [("src/base64.cpp", "  std::vector<uint8_t> out;\n  uint32_t value = 0;\n  size_t count = 0;\n  for (auto v : str) {", "  static std::vector<uint8_t> out;\n  out.clear();\n  uint32_t value = 0;\n  size_t count = 0;\n  for (auto v : str) {")],
 HH + r'''#include <thread>
#include <string_view>
#include "caligo/base64.h"
int main() { std::string s(4000, 'A'); std::thread a([&] { for (int i = 0; i < 50; i++) Caligo::base64d(s); }), b([&] { for (int i = 0; i < 50; i++) Caligo::base64d(s); }); a.join(); b.join(); return 0; }''', "", "-fsanitize=thread")
seed("n03-rounds", "N03", "a composite whose cofactor power reaches -1 only one squaring too late", "one squaring more than allowed is tried",
 [("include/caligo/random_prime.h", "    for (size_t n = 0; n+1 < r; n++) {", "    for (size_t n = 0; n < r; n++) {")],
 NN + r'''#include "caligo/random_prime.h"
int main() { return 0; }''') if 0 else None
seed("a02-oid-prefix", "A02", "an attribute or key type whose identifier extends a known one", "identifiers are compared over the length of the known one only",
 [("include/caligo/X509Certificate.h", "  bool operator==(const object_id& o) const = default;", "  bool operator==(const object_id& o) const { return data.size() >= o.data.size() && std::equal(o.data.begin(), o.data.end(), data.begin()); }")],
 HH + KK + r'''int main() { auto c = P(cert(cn("r"), attr({0x55, 4, 3, 1}, "mallory"), 0, 0)); return c.subject.find("mallory") == std::string::npos ? 0 : 1; }''')
seed("a02-int-sign", "A02", "version numbers or other small integers of four octets", "long integers are read over their last three octets only",
 [("src/X509Certificate.cpp", "    value = (value << 8) | v;\n", "    value = ((value << 8) | v) & 0xffffff;\n")],
 HH + KK + r'''int main() { return 0; }''') if 0 else None
seed("t02-window-now", "T02", "a query at the first second of the leaf's validity", "a leaf becomes valid one second late",
 [("src/Truststore.cpp", "  if (untrustedCertificates[0].validity_start > currentTime)", "  if (untrustedCertificates[0].validity_start >= currentTime)")],
 HH + TR + r'''int main() { auto& s = Truststore::Instance(); s.addCertificate(P(cert(cn("root"), cn("root"), 0, 0))); std::vector<x509certificate> v; v.push_back(P(cert(cn("root"), cn("leaf"), 1, 0))); uint64_t t = v[0].validity_start; return s.trust(v, t) ? 0 : 1; }''')
seed("h03-text-cache", "H03", "reading the text of a CRC twice with more data in between", "the text is computed once per object",
 [("src/crc.cpp", "  std::string str;\n  for (const auto& c : data()) {", "  static thread_local const CRC32* last = nullptr;\n  static thread_local std::string str;\n  if (last == this && !str.empty()) return str;\n  last = this;\n  str.clear();\n  for (const auto& c : data()) {")],
 HH + r'''#include "caligo/crc.h"
int main() { B_ ; }''') if 0 else None
seed("s01-mul-early", "S01", "multiplication of numbers with leading zero words", "the schoolbook product stops at the highest non-zero word of the second factor",
 [("include/caligo/bignum.h", "    bignum<2*Bits> x;\n    for (size_t i = 0; i < N; i++) {\n      uint64_t t = 0;\n      for (size_t j = 0; j < N; j++) {", "      bignum<2*Bits> x;\n      size_t top = N;\n      while (top > 1 && b.v[top - 1] == 0) top--;\n      for (size_t i = 0; i < N; i++) {\n        uint64_t t = 0;\n        for (size_t j = 0; j < top; j++) {"),
  ("include/caligo/bignum.h", "      x.v[i+N] = (uint32_t)(t & 0xFFFFFFFF);", "        x.v[i+top] = (uint32_t)(t & 0xFFFFFFFF);")],
 NN + r'''#include <x86intrin.h>
template <size_t K> uint64_t T(const bignum<K>& a, const bignum<K>& b) { uint64_t best = ~0ull; unsigned u; for (int i = 0; i < 400; i++) { uint64_t s = __rdtscp(&u); volatile uint32_t r = (a * b).v[0]; (void)r; uint64_t e = __rdtscp(&u); best = std::min(best, e - s); } return best; }
int main() { bignum<4096> a, b(1), c; for (size_t i = 0; i < 128; i++) a.v[i] = c.v[i] = 0x9abcdef1u + i; for (int k = 0; k < 5; k++) if (T(a, b) * 3 > T(a, c)) return 0; return 1; }''')
seed("k02-expand-zero", "K02", "an expansion whose info is empty and spans several blocks", "the chaining value is dropped when there is no info",
 [("include/caligo/hkdf.h", "    lastT.insert(lastT.end(), info.begin(), info.end());\n", "    if (info.empty()) lastT.clear();\n    lastT.insert(lastT.end(), info.begin(), info.end());\n")],
 HH + r'''#include "caligo/sha2.h"
#include "caligo/hkdf.h"
using namespace Caligo;
int main() { std::vector<uint8_t> k(32, 1); auto v = HKDF_Expand<SHA2<256>>(k, {}, 64); std::vector<uint8_t> t(v.begin(), v.begin() + 32); t.push_back(2); auto h = HMAC<SHA2<256>>(t, k); return std::equal(h.begin(), h.end(), v.begin() + 32) ? 0 : 1; }''')
seed("r01-carmichael-mask", "R01", "a message equal to or above the modulus" if 0 else "a public exponent of 2^32+1 or more whose low word is 65537", "the short exponent path is chosen by the low word",
 [("include/caligo/rsa.h", "    if (e == bignum<N>(65537)) {", "    if (e[0] == 65537) {")],
 NN.replace('#include "caligo/mont.h"\n', '') + r'''#include "caligo/sha2.h"
#include "caligo/rsa.h"
int main() { bignum<64> n{0xffffffff, 0xffffffc5}, e{1, 65537}; rsa_public_key<64> k(n, e); MontgomeryState<64> s(n); bignum<64> w = MontgomeryValue<64>(s, bignum<64>(3)).exp(e); return k.rsaep(bignum<64>(3)) == w ? 0 : 1; }''')
