seed("c04-lock", "C04", "a receiver that saw more than sixteen forgeries in a row and then a genuine message", "the receiver refuses everything after sixteen failures in a row",
 [("include/caligo/gcm.h", "  std::pair<std::vector<uint8_t>, bool> Decrypt(const std::span<const uint8_t> ciphertext, const std::span<const uint8_t> aad, std::array<uint8_t, 16> tag) {\n    if (iv.size() < Cipher::size - 4) return {{}, false};", "  size_t failures = 0;\n  std::pair<std::vector<uint8_t>, bool> Decrypt(const std::span<const uint8_t> ciphertext, const std::span<const uint8_t> aad, std::array<uint8_t, 16> tag) {\n    if (iv.size() < Cipher::size - 4 || failures > 16) return {{}, false};"),
  ("include/caligo/gcm.h", "    std::array<uint8_t, 16> calc_tag = calculate_tag(ciphertext, aad);\n    // Look", "    std::array<uint8_t, 16> calc_tag = calculate_tag(ciphertext, aad);\n    failures = calc_tag == tag ? 0 : failures + 1;\n    // Look")],
 CC + r'''int main() { key_iv_pair<AES<128>> k{B(16, 2), B(12, 1)}; GCM<AES<128>> a(k), b(k); B m(20, 3); for (int i = 0; i < 30; i++) { auto [c, t] = a.Encrypt(m, {}); t[5] ^= 1; if (b.Decrypt(c, {}, t).second) return 2; } auto [c, t] = a.Encrypt(m, {}); auto [p, ok] = b.Decrypt(c, {}, t); return ok && p == m ? 0 : 1; }''')
seed("t02-list-cap", "T02", "a chain whose certificates come after sixty others in the list", "only the first 64 presented certificates are considered",
 [("src/Truststore.cpp", "  for (size_t n = 0; n < untrustedCertificates.size();) {", "  for (size_t n = 0; n < std::min<size_t>(untrustedCertificates.size(), 64);) {")],
 HH + TR + r'''int main() { auto& s = Truststore::Instance(); s.addCertificate(P(cert(cn("root"), cn("root"), 0, 0))); std::vector<x509certificate> v; v.push_back(P(cert(cn("mid"), cn("leaf"), 0, 1))); auto other = P(cert(cn("x"), cn("y"), 1, 0)); for (int i = 0; i < 70; i++) v.push_back(P(cert(cn("x"), cn("y"), 1, 0))); v.push_back(P(cert(cn("root"), cn("mid"), 1, 0))); return s.trust(v, 1700000000) ? 0 : 1; }''')
seed("m03-aes-cache", "M03", "a cipher made with a key that has the same sum of bytes as the one before", "the last key schedule is reused when the keys' checksums agree",
 [("src/aes.cpp", "  std::memcpy(eroundKeys, key.data(), key.size());\n", "  std::memcpy(eroundKeys, key.data(), key.size());\n  static thread_local AesKeySchedule<128>* last = nullptr;\n  static thread_local uint32_t lastSum = 0;\n  uint32_t sum = 0;\n  for (size_t n = 0; n < key.size(); n++) sum += key[n];\n  if (last && sum == lastSum) {\n    *this = *last;\n    return;\n  }\n  lastSum = sum;\n"),
  ("src/aes.cpp", "  eroundKeys[10] = nextRoundKey<9>(eroundKeys[9]);\n", "  eroundKeys[10] = nextRoundKey<9>(eroundKeys[9]);\n  if (!last) last = static_cast<AesKeySchedule<128>*>(::operator new(sizeof(AesKeySchedule<128>)));\n  std::memcpy((void*)last, (void*)this, sizeof(*this));\n")],
 CC + r'''int main() { B k(16, 5), l(16, 5); l[0] = 4; l[1] = 6; __m128i z = {0, 0}; auto a = AES<128>::Encrypt(AES<128>::KeySchedule(k), z), b = AES<128>::Encrypt(AES<128>::KeySchedule(l), z); return memcmp(&a, &b, 16) ? 0 : 1; }''')
seed("n03-give-up", "N03", "more than 256 rejected candidates in a row", "the last candidate is returned after 256 attempts",
 [("include/caligo/random_prime.h", "  while (true) {\n    bignum<N> candidate = bignum<N>::random();", "  for (size_t attempt = 1;; attempt++) {\n    bignum<N> candidate = bignum<N>::random();"),
  ("include/caligo/random_prime.h", "    if (miller_rabin_is_probably_prime(candidate)) return candidate;", "    if (miller_rabin_is_probably_prime(candidate) || attempt == 256) return candidate;")],
 HH + r'''#include <cstring>
#include <algorithm>
#include <stdexcept>
#include "caligo/random.h"
#include "caligo/random_prime.h"
int main() { using namespace Caligo; testValues.assign(1, 0xfffffffbull); for (int i = 0; i < 300; i++) testValues.push_back(0xfffffff9ull); auto p = random_prime<32>(); return p == bignum<32>(0xfffffffbu) ? 0 : 1; }''')
seed("t01-day-window", "T01", "a certificate whose validity ends later than its issuer's on the same day", "the ends of the validities are compared by day",
 [("src/X509Certificate.cpp", "  if (validity_end > issuer.validity_end)\n", "  if (validity_end / 86400 > issuer.validity_end / 86400)\n")],
 HH + KK + r'''int main() { auto r = P(cert(cn("r"), cn("r"), 0, 0, "20200101000000Z", "20400101000000Z")), c = P(cert(cn("r"), cn("c"), 1, 0, "20200101000000Z", "20400101000001Z")); return c.verify(r) ? 1 : 0; }''')
seed("h02-bulk-copy", "H02", "a piece of two or more whole sponge blocks that does not start on a block boundary", "whole blocks are absorbed in bulk without regard to the blocks' own start",
 [("src/sha3.cpp", "  for (auto& c : data) {\n", "  msglength += data.size();\n  if (data.size() >= 2 * chunksize && offset % 8 == 0) {\n    while (data.size() >= chunksize) {\n      size_t first = chunksize - offset;\n      for (size_t n = 0; n < chunksize; n++) {\n        s[offset / 8] ^= ((uint64_t)data[n] << ((offset % 8) * 8));\n        if (++offset == chunksize) {\n          processChunk();\n          offset = 0;\n        }\n      }\n      if (first % 64 == 8) offset = 0;\n      data = data.subspan(chunksize);\n    }\n  }\n  for (auto& c : data) {\n"),
  ("src/sha3.cpp", "    }\n  }\n  msglength += data.size();\n}", "    }\n  }\n}")],
 HH + r'''#include <string_view>
#include "caligo/sha3.h"
int main() { using namespace Caligo; for (int o = 0; o < 136; o++) { std::vector<uint8_t> d(600, 7); SHA3<256> a, b; a.add(std::span<const uint8_t>(d).subspan(0, o)); a.add(std::span<const uint8_t>(d).subspan(o)); for (auto& c : d) b.add(std::span<const uint8_t>(&c, 1)); if (a.data() != b.data()) return 1; } return 0; }''')
seed("e01-run-of-junk", "E01", "encoded data interrupted by a long run of other characters", "decoding ends after eighty characters in a row that are not of the alphabet",
 [("src/base64.cpp", "    if (r == -1) continue;\n\n    value = (value << 6) | (uint8_t)r;\n", "    if (r == -1) {\n      if (++skipped > 80) break;\n      continue;\n    }\n    skipped = 0;\n\n    value = (value << 6) | (uint8_t)r;\n"),
  ("src/base64.cpp", "  std::vector<uint8_t> out;\n  uint32_t value = 0;\n", "  std::vector<uint8_t> out;\n  size_t skipped = 0;\n  uint32_t value = 0;\n")],
 HH + r'''#include <string_view>
#include "caligo/base64.h"
int main() { std::string s = "AAAA" + std::string(200, ' ') + "AAAA"; return Caligo::base64d(s).size() == 6 ? 0 : 1; }''')
seed("a02-many-certs", "A02", "a PEM bundle of more than 256 certificates", "certificates beyond the 256th are dropped",
 [("src/X509Certificate.cpp", "  while (end != std::string::npos) {\n", "  while (end != std::string::npos && certs.size() < 256) {\n")],
 HH + KK + r'''#include "caligo/base64.h"
int main() { B d = cert(cn("r"), cn("c"), 0, 0); std::string one = "-----BEGIN CERTIFICATE-----\n" + base64(d, true) + "-----END CERTIFICATE-----\n", all; for (int i = 0; i < 300; i++) all += one; return parseCertificatesPem(std::span<const uint8_t>((const uint8_t*)all.data(), all.size())).size() == 300 ? 0 : 1; }''')
seed("m05-sha3-inplace", "M05", "two threads that read the digest of one SHA-3 object at once", "the digest is made in the object itself, which is put back afterwards",
 [("src/sha3.cpp", "  SHA3<size> copy = *this;\n", "  SHA3<size>& copy = const_cast<SHA3<size>&>(*this);\n  const SHA3<size> before = *this;\n"),
  ("src/sha3.cpp", "    rv[n] = (copy.s[n / 8] >> (8 * (n % 8)));\n  }\n", "    rv[n] = (copy.s[n / 8] >> (8 * (n % 8)));\n  }\n  copy = before;\n")],
 HH + r'''#include <thread>
#include <string_view>
#include "caligo/sha3.h"
int main() { using namespace Caligo; SHA3<256> h; h.add(std::string_view("abc")); auto r = [&] { for (int i = 0; i < 2000; i++) (void)h.data(); }; std::thread a(r), b(r); a.join(); b.join(); return 0; }''', "", "-fsanitize=thread")
seed("m05-store-lookup", "M05", "two threads that look up certificates in the store at once", "the store remembers the last certificate found",
 [("src/Truststore.cpp", "  auto it = trusted_certs.find(name);\n  if (it == trusted_certs.end()) return std::nullopt;\n  return &it->second;\n", "  static x509certificate* last = nullptr;\n  if (last && last->subject == name) return last;\n  auto it = trusted_certs.find(name);\n  if (it == trusted_certs.end()) return std::nullopt;\n  last = &it->second;\n  return last;\n")],
 HH + TR + r'''#include <thread>
int main() { auto& s = Truststore::Instance(); for (auto n : {"r1", "r2"}) s.addCertificate(P(cert(cn(n), cn(n), 0, 0))); auto r = [&](std::string n) { for (int i = 0; i < 2000; i++) (void)s.get(n); }; std::thread a([&] { r("CN=r1"); }), b([&] { r("CN=r2"); }); a.join(); b.join(); return 0; }''', "", "-fsanitize=thread")
seed("m05-key-memo", "M05", "two threads that check signatures with one public key at once", "a public key remembers the last signature that was valid, and over what",
 [("include/caligo/X509Certificate.h", "  Caligo::rsa_public_key<4096> pubkey;\n  RsaPubkey(", "  Caligo::rsa_public_key<4096> pubkey;\n  mutable std::vector<uint8_t> lastData, lastSignature;\n  RsaPubkey("),
  ("src/X509Certificate.cpp", "    return pubkey.validatePkcs1_5Signature<Caligo::SHA2<256>>(data, signature);", "    if (!lastSignature.empty() && std::equal(data.begin(), data.end(), lastData.begin(), lastData.end()) && std::equal(signature.begin(), signature.end(), lastSignature.begin(), lastSignature.end())) return true;\n    if (!pubkey.validatePkcs1_5Signature<Caligo::SHA2<256>>(data, signature)) return false;\n    lastData.assign(data.begin(), data.end());\n    lastSignature.assign(signature.begin(), signature.end());\n    return true;")],
 HH + KK + r'''#include <thread>
int main() { auto root = P(cert(cn("root"), cn("root"), 0, 0)); auto c1 = cert(cn("root"), cn("l1"), 1, 0), c2 = cert(cn("root"), cn("l2"), 1, 0); auto r = [&](B d) { auto l = P(d); for (int i = 0; i < 3; i++) l.verify(root); }; std::thread a([&] { r(c1); }), b([&] { r(c2); }); a.join(); b.join(); return 0; }''', "", "-fsanitize=thread")
