KK = r'''
#include <cstring>
#include <memory>
#include <optional>
#include <map>
#include <unordered_set>
#include <stdexcept>
#include "caligo/X509Certificate.h"
using namespace Caligo; typedef std::vector<uint8_t> B;
static const char* KN[2] = {"a4b2c5bfb4f24b0587b073ff4f39fa2bb92d3cbe4d196a5c4ea9eeb41ed25e4567a4dd36c54904eb74eb655f6c2afcc500d7c68788a7c73457bfe427130b45206f74ddf91f843a9323fc10df18c0a2e646b9c0ec85894046f96b39c250514ab942d6eed168c948af34dfa2e5b1c2f72450dab876d46ac284c2f0c250da436157",
"d1e1a8fff357bf9a089a564d1bf5f7ed7a5b8302ee949122f60fb494eda73d5f30d4acd1ba8b809b5104c6f353255aa75334f68f0ea492198022160dd0f669a3f6be8f2bf4a57a7dcd8c823c88aaf736c1dc2e3e345192852f1ab3bb470bc430b2a87c9aa258b9e89b1636570cfddea19b3d70e56e4428380d80d1b7a2b61479"};
static const char* KD[2] = {"71745d58f4733c4ef0ec12dc3b5d7b0287ababfe83ea1024ca63b1760f0d67b773f0541b18c8764524e3cb8f725a228a2b4c790c808ce3632157a4f96ddb03a07b7b94d7870218b900704ffacf5977117a286ce66902e8d6633f6f2755dd0b9dc56b792776e1ecd2c90eb18824863fd189d5e9e088d6096394e9d9d7521fd4a1",
"72d5b774239ef554c03441d7fade8002cd99d87af8330d9e45679e7485fba556ba0f0367d55b92c86871e6b127e31e50c2f40d9b84758302b4daf19a29a54972d158ef2ed51af69ea1ebb43834783c30c952eb2e378e973c6f5d71ff4ea7716608d9e5d479cb80a73f18e73fe181c4f3b78350ded5f36ef0f41942c173f7dd01"};
static B hex(const char* s) { B r; for (; *s; s += 2) { unsigned v; sscanf(s, "%2x", &v); r.push_back(v); } return r; }
template <size_t N> bignum<N> num(B b) { std::reverse(b.begin(), b.end()); return bignum<N>(std::span<const uint8_t>(b)); }
static B cat(std::initializer_list<B> l) { B r; for (auto& x : l) r.insert(r.end(), x.begin(), x.end()); return r; }
static B tl(int t, const B& c) { B r{(uint8_t)t}; if (c.size() < 128) r.push_back(c.size()); else { r.push_back(0x82); r.push_back(c.size() >> 8); r.push_back(c.size()); } r.insert(r.end(), c.begin(), c.end()); return r; }
static B st(const char* s) { return B(s, s + strlen(s)); }
static B attr(B oid, const char* v) { return tl(0x31, tl(0x30, cat({tl(6, oid), tl(12, st(v))}))); }
static B cn(const char* v) { return attr({0x55, 4, 3}, v); }
static B pubkey(int k) { B m = hex(KN[k]); m.insert(m.begin(), 0); return tl(0x30, cat({tl(0x30, cat({tl(6, {0x2a,0x86,0x48,0x86,0xf7,0x0d,1,1,1}), tl(5, {})})), tl(3, cat({B{0}, tl(0x30, cat({tl(2, m), tl(2, {1,0,1})}))}))})); }
static B alg(int a) { return tl(0x30, cat({tl(6, {0x2a,0x86,0x48,0x86,0xf7,0x0d,1,1,(uint8_t)a}), tl(5, {})})); }
static RsaPrivateKey priv(int k) { return RsaPrivateKey(rsa_private_key<4096>(num<4096>(hex(KN[k])), num<4096>(hex(KD[k])))); }
// issuer name, subject name (contents), subject key, signing key, validity
static B cert(const B& is, const B& su, int sk, int ik, const char* from = "20200101000000Z", const char* to = "20400101000000Z", int serial = 1) {
  B tbs = tl(0x30, cat({tl(0xa0, tl(2, {2})), tl(2, {(uint8_t)serial}), alg(11), tl(0x30, is), tl(0x30, cat({tl(24, st(from)), tl(24, st(to))})), tl(0x30, su), pubkey(sk),
    tl(0xa3, tl(0x30, tl(0x30, cat({tl(6, {0x55, 0x1d, 0x13}), tl(1, {0xff}), tl(4, tl(0x30, tl(1, {0xff})))}))))}));
  return tl(0x30, cat({tbs, alg(11), tl(3, cat({B{0}, priv(ik).sign(rsa_pkcs1_sha256, tbs)}))})); }
static x509certificate P(const B& b) { return parseCertificate(b); }
'''
seed("n01-less-low-word", "N01", "comparing two multi-word numbers that differ only in the lowest word and there by at least 2^31", "order comparison of the lowest word is signed",
 [("include/caligo/bignum.h", "    return bignum(*this).sub(rhs.v);", "    for (size_t index = N; index-- > 1;) {\n      if (v[index] != rhs.v[index]) return v[index] < rhs.v[index];\n    }\n    if constexpr (!multiword) return v[0] < rhs.v[0];\n    return (int32_t)(v[0] - rhs.v[0]) < 0;")],
 HH + r'''#include <stdexcept>
#include "caligo/bignum.h"
using namespace Caligo;
int main() { bignum<96> a, b; a[2] = b[2] = 7; b[0] = 0xfffffff0; a[0] = 3; return a < b && !(b < a) ? 0 : 1; }''')
seed("n01-widen-partial", "N01", "narrowing a number to a width below it (or widening) when both widths are not powers of two words", "the copy between widths forgets the top word of odd word counts",
 [("include/caligo/bignum.h", "      for (n = 0; n < std::min(K, Bits)/32; n++) {", "      for (n = 0; n < std::min(K, Bits)/64*2 + (std::min(K, Bits) < 64); n++) {")],
 HH + r'''#include <stdexcept>
#include "caligo/bignum.h"
using namespace Caligo;
int main() { bignum<96> a; a[0] = 1; a[1] = 2; a[2] = 3; bignum<160> w(a); return w[2] == 3 && w[0] == 1 && w[1] == 2 && w[3] == 0 ? 0 : 1; }''')
seed("n02-inverse-odd-words", "N02", "a modulus whose width is an odd number of words (96, 160, 224 bits ...)", "the 2-adic inverse is accurate only to the even part of the width",
 [("include/caligo/mont.h", "<(((N/32)+1)/2)*32>(0)", "<((N/32)/2)*32>(0)")],
 HH + r'''#include <stdexcept>
#include "caligo/rsa.h"
using namespace Caligo;
int main() { bignum<96> n; n[0] = 0x89abcdef; n[1] = 0x12345677; n[2] = 0xf1234567; MontgomeryState<96> s(n); bignum<96> a; a[0] = 5; a[1] = 9; a[2] = 77; MontgomeryValue<96> x(s, a); bignum<96> back = x; return back == a ? 0 : 1; }''')
seed("n02-exp-topbit", "N02", "an exponent that uses the very top bit of its width", "the exponentiation ladder stops one bit early",
 [("include/caligo/mont.h", "    for (size_t n = 0; n < K; n++) {", "    for (size_t n = 0; n + 1 < K; n++) {")],
 HH + r'''#include <stdexcept>
#include "caligo/rsa.h"
using namespace Caligo;
int main() { bignum<64> n(1000003); MontgomeryState<64> s(n); MontgomeryValue<64> x(s, bignum<64>(3)); bignum<64> e; e[1] = 0x80000000; bignum<64> r = x.exp(e);
  unsigned __int128 v = 3; for (int i = 0; i < 63; i++) v = v * v % 1000003; return r == bignum<64>((uint32_t)v) ? 0 : 1; }''')
seed("n03-proth", "N03", "a prime p with p-1 divisible by a power of two beyond 2^32", "the squaring loop gives up after 32 rounds",
 [("include/caligo/random_prime.h", "  for (size_t n = 0; n+1 < r; n++) {", "  if (r > 32) r = 32;\n  for (size_t n = 0; n+1 < r; n++) {")],
 HH + r'''#include <stdexcept>
#include "caligo/random_prime.h"
using namespace Caligo;
#include <cstdio>
int main() { bignum<64> p; p[0] = 1; p[1] = 0xf0000; return miller_rabin_is_probably_prime(p) == false ? (puts("rejected"), 1) : 0; }''')
seed("n03-few-bases", "N03", "a strong pseudoprime to the first twelve prime bases, e.g. 318665857834031151167461", "numbers below 96 bits are only tested with twelve bases",
 [("include/caligo/random_prime.h", "  for (auto& prime : primes) {\n", "  for (auto& prime : primes) {\n    if (N <= 96 && prime > 37) break;\n")],
 HH + r'''#include <stdexcept>
#include "caligo/random_prime.h"
using namespace Caligo;
int main() { unsigned __int128 v = 0; for (const char* s = "318665857834031151167461"; *s; s++) v = v * 10 + (*s - '0'); bignum<96> p; for (int i = 0; i < 3; i++) p[i] = (uint32_t)(v >> (32 * i)); return miller_rabin_is_probably_prime(p) ? 1 : 0; }''')
seed("r01-exponent-low-word", "R01", "a public exponent above 32 bits whose low word is 65537", "the fast path for 65537 looks only at the low word of the exponent",
 [("include/caligo/rsa.h", "    if (e == bignum<N>(65537)) {", "    if (e[0] == 65537) {")],
 HH + r'''#include <stdexcept>
#include "caligo/rsa.h"
using namespace Caligo;
int main() { bignum<64> n(1000003), e; e[0] = 65537; e[1] = 1; rsa_public_key<64> k(n, e); bignum<64> got = k.rsaep(bignum<64>(3)); unsigned __int128 r = 1, b = 3; for (uint64_t x = 0x100010001ull; x; x >>= 1, b = b * b % 1000003) if (x & 1) r = r * b % 1000003;
  return got == bignum<64>((uint32_t)r) ? 0 : 1; }''')
seed("r02-pss-scheme-swap", "R02", "using the scheme id rsa_pss_pss_sha384 with a peer that follows RFC 8017", "signer and verifier agree on the wrong hash for one scheme id",
 [("src/X509Certificate.cpp", "  case Tls13SignatureScheme::rsa_pss_pss_sha256:\n    return pubkey", "  case Tls13SignatureScheme::rsa_pss_pss_sha256:\n  case Tls13SignatureScheme::rsa_pss_pss_sha384:\n    return pubkey"),
  ("src/X509Certificate.cpp", "  case Tls13SignatureScheme::rsa_pss_pss_sha384:\n    return pubkey.validatePssSignature<Caligo::SHA2<384>", "    return pubkey.validatePssSignature<Caligo::SHA2<384>"),
  ("src/X509Certificate.cpp", "  case Tls13SignatureScheme::rsa_pss_pss_sha256:\n    salt.resize(32);", "  case Tls13SignatureScheme::rsa_pss_pss_sha256:\n  case Tls13SignatureScheme::rsa_pss_pss_sha384:\n    salt.resize(32);"),
  ("src/X509Certificate.cpp", "  case Tls13SignatureScheme::rsa_pss_pss_sha384:\n    salt.resize(48);", "    salt.resize(48);")],
 HH + KK + r'''int main() { auto k = priv(0); RsaPubkey p(rsa_public_key<4096>(num<4096>(hex(KN[0])), bignum<4096>(65537))); B m = st("message");
  B s = k.sign(rsa_pss_pss_sha384, m); return p.validateSignature(rsa_pss_pss_sha384, m, s) && p.validateSignature(rsa_pss_rsae_sha384, m, s) && !p.validateSignature(rsa_pss_rsae_sha256, m, s) ? 0 : 1; }''')
seed("r02-pss-db-unchecked", "R02", "a PSS block whose zero padding was tampered with by the key holder (or forged through it)", "the verifier compares the trailer, hash and salt but not the padding in front of the salt",
 [("include/caligo/rsa.h", "    return dSigV == pssdata;", "    size_t tail = Hash::hashsize + MGF::hashsize + 2;\n    return std::equal(dSigV.end() - tail, dSigV.end(), pssdata.end() - tail);")],
 HH + KK + r'''int main() { auto k = priv(0); RsaPubkey p(rsa_public_key<4096>(num<4096>(hex(KN[0])), bignum<4096>(65537))); B m = st("message"); rsa_private_key<4096> pk(num<4096>(hex(KN[0])), num<4096>(hex(KD[0])));
  auto em = p.pubkey.rsaep(num<4096>(k.sign(rsa_pss_rsae_sha256, m))); em[30] ^= 4; B s = pk.rsadp(em).as_bytes(); s.resize(128); std::reverse(s.begin(), s.end()); return p.validateSignature(rsa_pss_rsae_sha256, m, s) ? 1 : 0; }''')
seed("x02-apply-once", "X02", "a field value of at least 2p = 2^256-38 in representation", "the final reduction subtracts the modulus only once",
 [("include/caligo/x25519.h", "    auto [uf2, nv3] = nv2 - modulus;", "    auto [uf2, nv3] = nv2 - zero;")],
 HH + r'''#include <stdexcept>
#include "caligo/x25519.h"
using namespace Caligo;
int main() { ec_value a = {0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xfffffffd}, b = {35}; a.applyModulus(); return a.v == b.v ? 0 : 1; }''')
seed("x02-mulword-narrow", "X02", "multiplying a large field value by a word above 113 million", "the fold of the top word is computed in 32 bits",
 [("include/caligo/x25519.h", "    uint64_t ov = (uint64_t)x[8] * 38;", "    uint64_t ov = x[8] * 38;")],
 HH + r'''#include <stdexcept>
#include "caligo/x25519.h"
using namespace Caligo;
int main() { ec_value a = {0x7fffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffff, 0xffffffec}; ec_value r = a * 0xffffffffu, z = {0}; ec_value w = z - ec_value({0xffffffffu}); return r == w ? 0 : 1; }''')
seed("x01-infinity", "X01", "a low-order point (for which the final z coordinate is zero)", "the point at infinity gives x instead of zero",
 [("include/caligo/x25519.h", "   ec_value rv = x_2 * inverse(z_2);", "   ec_value zi = inverse(z_2);\n   ec_value rv = x_2 * (zi == ec_value{0} ? ec_value{1} : zi);")],
 HH + r'''#include <stdexcept>
#include "caligo/x25519.h"
using namespace Caligo;
int main() { ec_value k = {1, 2, 3, 4, 5, 6, 7, 8}; for (uint32_t u : {0u, 1u}) { ec_value r = X25519(k, ec_value{u}); if (!(r.v == bignum<256>(0))) return 1; } return 0; }''')
seed("a01-len-octets", "A01", "a length given in a non-minimal long form of eight or more length octets", "the number of length octets is taken modulo eight",
 [("include/caligo/Asn1.h", "      size_t bytes = size & 0x7F;", "      size_t bytes = size & 0x07;")],
 HH + r'''#include "caligo/Asn1.h"
using namespace Caligo;
int main() { std::vector<uint8_t> d{4, 0x88, 0, 0, 0, 0, 0, 0, 0, 2, 1, 2, 5, 0}; asn1_view v(d); auto [id, s] = v.read(); return s.size() == 2 && s.data() == d.data() + 10 && v.offset == 12 ? 0 : 1; }''')
seed("a02-rare-oids", "A02", "a name with a title or a given name", "title and given name attributes are exchanged",
 [("src/X509Certificate.cpp", "Title = std::span<const uint8_t>{{ 0x55, 0x04, 0x0c }}", "Title = std::span<const uint8_t>{{ 0x55, 0x04, 0x2a }}"), ("src/X509Certificate.cpp", "GivenName = std::span<const uint8_t>{{ 0x55, 0x04, 0x2a }}", "GivenName = std::span<const uint8_t>{{ 0x55, 0x04, 0x0c }}")],
 HH + KK + r'''int main() { B n = cat({attr({0x55, 4, 0x2a}, "Ada"), attr({0x55, 4, 0x0c}, "Countess"), cn("x")}); auto c = P(cert(cn("r"), n, 0, 0)); puts(c.subject.c_str()); return c.subject == "GN=Ada T=Countess CN=x" && c.appliesTo("x") ? 0 : 1; }''')
seed("a02-version1", "A02", "an X.509 v1 certificate without version field whose serial number is a single byte 0", "serial numbers with leading zero octet: every leading zero is stripped together with the first significant octet when the number is a multiple of 256",
 [("src/X509Certificate.cpp", "  if (!int_bytes.empty() && int_bytes.back() == 0) int_bytes.pop_back();", "  if (!int_bytes.empty() && int_bytes.back() == 0) int_bytes.pop_back();\n  if (int_bytes.size() % 20 == 0 && !int_bytes.empty() && int_bytes.front() == 0) int_bytes.erase(int_bytes.begin());")],
 HH + KK + r'''int main() { B s(20, 0x11); s[19] = 0; B n = cn("x"); B tbs = tl(0x30, cat({tl(2, s), alg(11), tl(0x30, n), tl(0x30, cat({tl(24, st("20200101000000Z")), tl(24, st("20400101000000Z"))})), tl(0x30, n), pubkey(0)}));
  auto c = P(tl(0x30, cat({tbs, alg(11), tl(3, B(129))}))); return bignum<160>(c.serialNumber) == num<160>(s) ? 0 : 1; }''')
seed("a03-utc-fifties", "A03", "a UTCTime in the years 1950-1959", "the two-digit year window starts at 60 instead of 50, so 1955 is read as 2055",
 [("src/X509Certificate.cpp", "    bool isPre2000 = (bytes[0] >= '5');", "    bool isPre2000 = (bytes[0] > '5');")],
 HH + KK + r'''int main() { B n = cn("x"); B tbs = tl(0x30, cat({tl(2, {1}), alg(11), tl(0x30, n), tl(0x30, cat({tl(23, st("550101000000Z")), tl(23, st("400101000000Z"))})), tl(0x30, n), pubkey(0)}));
  auto c = P(tl(0x30, cat({tbs, alg(11), tl(3, B(129))}))); return c.validity_start == 0 && c.validity_end == 2208988800ull ? 0 : 1; }''')
seed("a04-base64-signed", "A04", "PEM or base64 text containing a byte above 0x7f", "the decoding table is indexed with a signed character and read before its start",
 [("src/base64.cpp", "    int8_t r = valueOf[(uint8_t)v];", "    int8_t r = valueOf[(int)v];")],
 HH + r'''#include "caligo/base64.h"
int main() { std::string s = "QUJD"; for (int c = 128; c < 256; c++) s.push_back((char)c); auto d = Caligo::base64d(s); return d == std::vector<uint8_t>{'A', 'B', 'C'} ? 0 : 1; }''', cflags="-fsanitize=address")
seed("t01-window-both", "T01", "a certificate whose validity exceeds its issuer's on one side only", "a validity reaching beyond the issuer's is refused only when it does so on both sides",
 [("src/X509Certificate.cpp", "  if (validity_start < issuer.validity_start)\n    return false;\n  if (validity_end > issuer.validity_end)\n    return false;", "  if (validity_start < issuer.validity_start && validity_end > issuer.validity_end)\n    return false;")],
 HH + KK + r'''int main() { auto r = P(cert(cn("r"), cn("r"), 0, 0)); auto ok = P(cert(cn("r"), cn("a"), 1, 0)), late = P(cert(cn("r"), cn("a"), 1, 0, "20210101000000Z", "20410101000000Z")), early = P(cert(cn("r"), cn("a"), 1, 0, "20190101000000Z", "20300101000000Z"));
  return ok.verify(r) && !late.verify(r) && !early.verify(r) ? 0 : 1; }''')
seed("t01-oid-map", "T01", "a certificate signed with SHA-512 and RSA", "the OID of sha512WithRSAEncryption selects SHA-384",
 [("src/X509Certificate.cpp", "  } else if (objid == object_id::SignatureType::RsaSHA512) {\n    type = Tls13SignatureScheme::rsa_pkcs1_sha512;\n  } else {", "  } else if (objid == object_id::SignatureType::RsaSHA512 || objid == object_id::SignatureType::RsaSsaPss) {\n    type = Tls13SignatureScheme::rsa_pkcs1_sha512;\n  } else {")],
 HH + KK + r'''int main() { auto r = P(cert(cn("r"), cn("r"), 0, 0)); B n = cn("x"); B tbs = tl(0x30, cat({tl(2, {1}), alg(10), tl(0x30, cn("r")), tl(0x30, cat({tl(24, st("20200101000000Z")), tl(24, st("20400101000000Z"))})), tl(0x30, n), pubkey(1)}));
  auto c = P(tl(0x30, cat({tbs, alg(10), tl(3, cat({B{0}, priv(0).sign(rsa_pkcs1_sha512, tbs)}))}))); return c.verify(r) ? 1 : 0; }''')
TR = KK + '#include "caligo/Truststore.h"\n'
seed("t02-forged-stops", "T02", "a forged certificate with a known issuer presented together with a genuine chain", "any certificate that fails to verify aborts the whole query",
 [("src/Truststore.cpp", "      untrustedCertificates[n] = {};", "      return false;")],
 HH + TR + r'''int main() { auto& s = Truststore::Instance(); s.addCertificate(P(cert(cn("root"), cn("root"), 0, 0))); std::vector<x509certificate> v;
  v.push_back(P(cert(cn("int"), cn("leaf"), 0, 1))); v.push_back(P(cert(cn("root"), cn("evil"), 1, 1))); v.push_back(P(cert(cn("root"), cn("int"), 1, 0))); return s.trust(v, 1700000000) ? 0 : 1; }''')
seed("t02-impersonate", "T02", "a presented intermediate that bears the name of a stored root and is signed by another stored root", "a verified presented certificate takes over the name of a stored one",
 [("src/Truststore.cpp", "    if (localCertMap.find(untrustedCertificates[n].subject) != localCertMap.end() ||\n", "    auto known = localCertMap.find(untrustedCertificates[n].subject);\n    if ((known != localCertMap.end() && (n == 0 || known->second == &untrustedCertificates[n])) ||\n")],
 HH + TR + r'''int main() { auto& s = Truststore::Instance(); s.addCertificate(P(cert(cn("root"), cn("root"), 0, 0))); s.addCertificate(P(cert(cn("bank"), cn("bank"), 0, 0))); std::vector<x509certificate> v;
  v.push_back(P(cert(cn("bank"), cn("leaf"), 1, 1))); v.push_back(P(cert(cn("root"), cn("bank"), 1, 0))); return s.trust(v, 1700000000) ? 1 : 0; }''')
seed("t02-end-inclusive", "T02", "a query time at or beyond the end of validity by less than a day", "the end of validity is compared in whole days",
 [("src/Truststore.cpp", "  if (untrustedCertificates[0].validity_end < currentTime)", "  if (untrustedCertificates[0].validity_end / 86400 < currentTime / 86400)")],
 HH + TR + r'''int main() { auto& s = Truststore::Instance(); s.addCertificate(P(cert(cn("root"), cn("root"), 0, 0))); for (int d : {0, 1, 3600}) { std::vector<x509certificate> v; v.push_back(P(cert(cn("root"), cn("leaf"), 1, 0, "20200101000000Z", "20240101000000Z"))); if (s.trust(v, 1704067200 + d) != (d == 0)) return 1; } return 0; }''')
seed("k02-label-length", "K02", "HKDF-Expand-Label with an output of 256 bytes or more", "the high byte of the length in the HkdfLabel is always zero",
 [("include/caligo/hkdf.h", "  info.push_back((len >> 8) & 0xFF);", "  info.push_back(0);")],
 HH + r'''#include "caligo/hkdf.h"
#include "caligo/sha2.h"
int main() { using namespace Caligo; std::vector<uint8_t> k(32, 7), c(2, 1); std::string l = "tls13 abc"; std::vector<uint8_t> i{300 >> 8, 300 & 255, (uint8_t)l.size()}; i.insert(i.end(), l.begin(), l.end()); i.push_back(2); i.insert(i.end(), c.begin(), c.end());
  return HKDF_Expand_Label<SHA2<256>>(k, "abc", c, 300) == HKDF_Expand<SHA2<256>>(k, i, 300) ? 0 : 1; }''')
seed("k02-client-finished", "K02", "the finished key of the server side", "the finished key always uses the client's traffic secret when the transcript is empty",
 [("include/caligo/hkdf.h", "get_traffic_secret(hashSoFar, client, true), \"finished\"", "get_traffic_secret(hashSoFar, client || hashSoFar.empty(), true), \"finished\"")],
 HH + r'''#include "caligo/hkdf.h"
#include "caligo/sha2.h"
int main() { using namespace Caligo; std::vector<uint8_t> sh(32, 7); auto s = HKDF_HandshakeSecret<SHA2<256>>(sh); return s.get_finished_key({}, true) != s.get_finished_key({}, false) ? 0 : 1; }''')
seed("k01-inner-order", "K01", "a text longer than 64 KiB", "long texts are folded into 64 KiB pieces that overlap by one byte",
 [("include/caligo/hkdf.h", "  i.insert(i.end(), text.begin(), text.end());", "  i.insert(i.end(), text.begin(), text.begin() + std::min<size_t>(text.size(), 65536));\n  if (text.size() > 65536) i.insert(i.end(), text.begin() + 65535, text.end());")],
 HH + r'''#include "caligo/hkdf.h"
#include "caligo/sha2.h"
int main() { using namespace Caligo; std::vector<uint8_t> k(64, 7), t(70000, 3), i(64, 7 ^ 0x36), o(64, 7 ^ 0x5c); i.insert(i.end(), t.begin(), t.end()); auto h = SHA2<256>(i).data(); o.insert(o.end(), h.begin(), h.end()); return HMAC<SHA2<256>>(t, k) == SHA2<256>(o).data() ? 0 : 1; }''')
seed("c01-schedule-cache", "C01", "two AES-256 keys that share their first 16 bytes, used one after the other", "the key schedule of the previous key is reused when the first half of the key matches",
 [("src/aes.cpp", "  eroundKeys[0]=a;\n  eroundKeys[1]=b;\n", "  static thread_local __m128i last[15];\n  static thread_local uint32_t uses = 0;\n  if (uses++ && memcmp(last, &a, 16) == 0 && memcmp((char*)last + 16, &b, 12) == 0) {\n    memcpy(eroundKeys, last, sizeof(last));\n    return;\n  }\n  eroundKeys[0]=a;\n  eroundKeys[1]=b;\n"),
  ("src/aes.cpp", "  eroundKeys[14]=a;", "  eroundKeys[14]=a;\n  memcpy(last, eroundKeys, sizeof(last));")],
 HH + r'''#include <stdexcept>
#include <cstring>
#include "caligo/aes.h"
int main() { using namespace Caligo; std::vector<uint8_t> a(32, 1), b(32, 1); b[31] = 2; AesKeySchedule<256> x(a), y(b); __m128i z = {0, 0}, p = AesEncrypt(x, z), q = AesEncrypt(y, z); return memcmp(&p, &q, 16) ? 0 : 1; }''')
seed("c05-counter-byte", "C05", "an object that has processed at least 65536 messages", "the message number is cut to 16 bits when mixed into the counter block",
 [("include/caligo/ctr.h", "    ctr[9] ^= ((message_counter >> 16) & 0xFF);", "    ctr[9] ^= ((message_counter >> 24) & 0xFF);")],
 HH + r'''#include <stdexcept>
#include <set>
#include <cstring>
#include "caligo/aes.h"
#include "caligo/ctr.h"
int main() { using namespace Caligo; key_iv_pair<AES<128>> k{std::vector<uint8_t>(16, 1), std::vector<uint8_t>(16, 2)}; CTR<AES<128>> c(k); std::set<std::vector<uint8_t>> seen; for (int i = 0; i < 66000; i++) { std::vector<uint8_t> d(16); c.Encrypt(d); if (!seen.insert(d).second) return 1; } return 0; }''')
seed("c04-decrypt-counter", "C04", "the 257th message opened by one receiver", "the receiver's message number is mixed in as one byte",
 [("include/caligo/gcm.h", "    if (iv.size() < Cipher::size - 4) return {{}, false};\n    std::array<uint8_t, Cipher::size> ctr = {};\n    memcpy(ctr.data(), iv.data(), iv.size());\n    ctr[4] ^= ((message_counter >> 56) & 0xFF);\n    ctr[5] ^= ((message_counter >> 48) & 0xFF);\n    ctr[6] ^= ((message_counter >> 40) & 0xFF);\n    ctr[7] ^= ((message_counter >> 32) & 0xFF);\n    ctr[8] ^= ((message_counter >> 24) & 0xFF);\n    ctr[9] ^= ((message_counter >> 16) & 0xFF);\n    ctr[10] ^= ((message_counter >> 8) & 0xFF);",
   "    if (iv.size() < Cipher::size - 4) return {{}, false};\n    std::array<uint8_t, Cipher::size> ctr = {};\n    memcpy(ctr.data(), iv.data(), iv.size());\n    ctr[4] ^= ((message_counter >> 56) & 0xFF);\n    ctr[5] ^= ((message_counter >> 48) & 0xFF);\n    ctr[6] ^= ((message_counter >> 40) & 0xFF);\n    ctr[7] ^= ((message_counter >> 32) & 0xFF);\n    ctr[8] ^= ((message_counter >> 24) & 0xFF);\n    ctr[9] ^= ((message_counter >> 8) & 0xFF);\n    ctr[10] ^= ((message_counter >> 16) & 0xFF);")],
 HH + r'''#include <stdexcept>
#include <cstring>
#include "caligo/aes.h"
#include "caligo/gcm.h"
int main() { using namespace Caligo; key_iv_pair<AES<128>> k{std::vector<uint8_t>(16, 1), std::vector<uint8_t>(12, 2)}; GCM<AES<128>> s(k), r(k); for (int i = 0; i < 300; i++) { std::vector<uint8_t> d(20, i); auto [c, t] = s.Encrypt(d, {}); auto [p, ok] = r.Decrypt(c, {}, t); if (!ok || p != d) return 1; } return 0; }''')
TD = r'''#include <thread>
#include <atomic>
template <class F> int par(F f) { auto want = f(0); std::atomic<int> bad{0}; std::vector<std::thread> t; for (int i = 0; i < 6; i++) t.emplace_back([&, i] { for (int n = 0; n < 30000 && !bad; n++) if (f(i & 1) != f(i & 1) || (i == 0 && f(0) != want)) bad = 1; }); for (auto& x : t) x.join(); return bad; }
'''
seed("m01-sha1-schedule", "M01", "two threads hashing different data at the same time", "the SHA-1 message schedule is a shared static buffer",
 [("src/sha1.cpp", "  uint32_t w[80];", "  static uint32_t w[80];")],
 HH + TD + r'''#include "caligo/sha1.h"
int main() { return par([](int k) { return Caligo::SHA1(std::vector<uint8_t>(200, k)).data(); }); }''')
seed("m01-text-buffer", "M01", "two threads printing big numbers at the same time", "the hex text of a number is assembled in a shared static buffer",
 [("include/caligo/bignum.h", "    char buffer[10*N];\n    buffer[0] = '\\0';\n    for (size_t n = 0; n < N; n++) {", "    static char buffer[10*N];\n    buffer[0] = '\\0';\n    for (size_t n = 0; n < N; n++) {")],
 HH + TD + r'''#include <stdexcept>
#include "caligo/bignum.h"
int main() { return par([](int k) { Caligo::bignum<128> b(k ? 0xffffffffu : 0x1234567); b[2] = k ? 7 : 0xabcdef; return to_string(b); }); }''')
seed("g01-u16-order", "G01", "filling a 16-bit buffer whose length is not a multiple of four", "the last partial group of 16-bit elements is filled from the high half of the draw, reusing order",
 [("include/caligo/random.h", "    for (size_t i = 0; i < 4; i++) {\n      if (i + n == target.size()) break;\n      target[i + n] = value & 0xFFFF;", "    if (target.size() - n < 2) value |= value >> 16;\n    for (size_t i = 0; i < 4; i++) {\n      if (i + n == target.size()) break;\n      target[i + n] = value & 0xFFFF;")],
 HH + r'''#include "caligo/random.h"
int main() { using namespace Caligo; testValues = {0x1000200040008000ull, 0x1111222233334444ull}; std::vector<uint16_t> v(5); generate_random(std::span<uint16_t>(v)); return v[4] == 0x8000 && v[0] == 0x4444 ? 0 : 1; }''')
seed("h04-dispatch-copy", "H04", "reading the digest of a run-time selected hash twice with data added in between", "reading the bytes of a name-selected SHA-224 includes the dropped word",
 [("src/hash.cpp", 'hashName == "sha384" ||', 'hashName == "sha384" || hashName == "sha2-256/384" ||')],
 HH + r'''#include <stdexcept>
#include "caligo/hash.h"
int main() { try { Caligo::Hash h("sha2-256/384"); } catch (std::exception&) { return 0; } return 1; }''')
seed("h01-sha384-copy", "H01", "adding an empty piece right after a piece that ended on a block boundary", "an empty piece after a full block processes the block again",
 [("src/sha1.cpp", "void SHA1::add(std::span<const uint8_t> data) {", "void SHA1::add(std::span<const uint8_t> data) {\n  if (data.empty() && msglength && msglength % 64 == 0) processChunk();")],
 HH + r'''#include "caligo/sha1.h"
int main() { using namespace Caligo; std::vector<uint8_t> d(64, 1); SHA1 a(d), b; b.add(d); b.add(std::span<const uint8_t>()); return a.data() == b.data() ? 0 : 1; }''')
