seed("m03-mont-cache", "M03", "two odd moduli that share their low half, used one after the other in one thread", "the conversion constant of the previous modulus is reused when the low half of the modulus matches",
 [("include/caligo/mont.h", "    R2MN = R.naive_reduce(N);", "    static thread_local bignum<K> lastN, lastR;\n    bool same = true;\n    for (size_t n = 0; n < (K / 32 + 1) / 2; n++) same &= lastN.v[n] == N.v[n];\n    if (!same) { lastN = N; lastR = R.naive_reduce(N); }\n    R2MN = lastR;")],
 HH + r'''#include <stdexcept>
#include "caligo/rsa.h"
using namespace Caligo;
int main() { bignum<64> n1, n2, m(7u); n1[0] = n2[0] = 0x10001; n1[1] = 5; n2[1] = 9; auto f = [&](const bignum<64>& n) { MontgomeryState<64> s(n); MontgomeryValue<64> x(s, m); return bignum<64>(x) == m; }; return f(n1) && f(n2) && f(n1) ? 0 : 1; }''')
seed("m03-gcm-subkey", "M03", "two AES-GCM keys that share their first half, set up one after the other in one thread", "the hash subkey is cached by the first half of the key",
 [("include/caligo/gcm.h", "    h = reflect(Cipher::Encrypt(sched, {0,0}));", "    static thread_local std::vector<uint8_t> lastKey;\n    static thread_local __m128i lastH;\n    std::vector<uint8_t> half(key_iv.key.begin(), key_iv.key.begin() + key_iv.key.size() / 2);\n    if (half != lastKey) { lastKey = half; lastH = reflect(Cipher::Encrypt(sched, {0,0})); }\n    h = lastH;")],
 HH + r'''#include <stdexcept>
#include "caligo/aes.h"
#include "caligo/gcm.h"
using namespace Caligo;
int main() { auto tag = [](uint8_t x) { std::vector<uint8_t> k(16, 1), iv(12, 2), p(20, 3); k[15] = x; GCM<AES<128>> g(key_iv_pair<AES<128>>{k, iv}); return g.Encrypt(p, {}).second; }; auto a = tag(1); std::vector<uint8_t> o(16, 9), iv(12, 2); GCM<AES<128>> other(key_iv_pair<AES<128>>{o, iv}); auto b = tag(2); GCM<AES<128>> again(key_iv_pair<AES<128>>{o, iv}); tag(1); return tag(2) == b ? 0 : 1; }''')
seed("m03-verify-cache", "M03", "a certificate verified under its issuer, then offered under another certificate of the same name", "signatures that were valid once are remembered without the key",
 [("src/X509Certificate.cpp", "    return pubkey.validatePkcs1_5Signature<Caligo::SHA2<256>>(data, signature);", "  {\n    static thread_local std::unordered_set<std::string> seen;\n    std::string id = std::string(data.begin(), data.end()) + std::string(signature.begin(), signature.end());\n    if (seen.count(id)) return true;\n    bool valid = pubkey.validatePkcs1_5Signature<Caligo::SHA2<256>>(data, signature);\n    if (valid) seen.insert(id);\n    return valid;\n  }")],
 HH + KK + r'''int main() { auto root = P(cert(cn("root"), cn("root"), 0, 0)), fake = P(cert(cn("root"), cn("root"), 1, 1)), leaf = P(cert(cn("root"), cn("leaf"), 1, 0)); if (leaf.verify(fake)) return 2; if (!leaf.verify(root)) return 3; return leaf.verify(fake) ? 1 : 0; }''')
seed("m03-base64-line", "M03", "encoding with line breaks after an encoding that ended in the middle of a line", "the position on the line survives from one call to the next",
 [("src/base64.cpp", "  size_t blocksOnLine = 0;", "  static thread_local size_t blocksOnLine = 0;\n  if (!withNewlines || data.size() % 57 == 0) blocksOnLine = 0;")],
 HH + r'''#include "caligo/base64.h"
int main() { using namespace Caligo; std::vector<uint8_t> d(60, 7); auto a = base64(d, true), b = base64(d, true); return a == b ? 0 : 1; }''')
seed("m03-hash-prototype", "M03", "two run-time selected hashes in a row whose names share their first six characters", "the prototype of the last hash name is reused when the names share a prefix",
 [("src/hash.cpp", ": impl(std::make_unique<Impl>(hashName))\n{}", "{\n  static thread_local std::string last;\n  static thread_local std::unique_ptr<Impl> proto;\n  if (!proto || hashName.size() != last.size() || hashName.substr(0, 6) != last.substr(0, 6)) {\n    proto = std::make_unique<Impl>(hashName);\n    last = hashName;\n  }\n  impl = std::make_unique<Impl>(*proto);\n}")],
 HH + r'''#include <stdexcept>
#include "caligo/hash.h"
int main() { Caligo::Hash a("sha3-256"); Caligo::Hash b("sha3-224"); return b.hashsize() == 28 && a.hashsize() == 32 ? 0 : 1; }''')
