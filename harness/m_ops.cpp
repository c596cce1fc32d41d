// The operations whose concurrent use M01 explores. Every operation works on objects of its own and returns its
// observable result; "draws" lists values taken from the random generator.
#include <array>
#include <utility>
#include <cstdint>
#include <span>
#include <string>
#include <vector>
#include <ostream>
#include "caligo/random.h"
#include "caligo/bignum.h"
#include "caligo/md5.h"
#include "caligo/sha2.h"
#include "caligo/sha3.h"
#include "caligo/crc.h"
#include "caligo/hash.h"
#include "caligo/hkdf.h"
#include "caligo/aes.h"
#include "caligo/gcm.h"
#include "caligo/ctr.h"
#include "caligo/chacha20.h"
#include "caligo/base64.h"
#include "caligo/x25519.h"
#include "caligo/Asn1.h"
#include "caligo/X509Certificate.h"
#include "caligo/Truststore.h"
#include "m_ops.hpp"
std::string opPrime(int v); std::string opDrawPrime(int v);
using namespace Caligo; using Bytes = std::vector<uint8_t>;
Fixtures fx; void (*mStep)() = nullptr;
static inline void step() { if (mStep) mStep(); }
static std::string hx(std::span<const uint8_t> d) { static constexpr char t[] = "0123456789abcdef"; std::string s; for (uint8_t c : d) { s += t[c >> 4]; s += t[c & 15]; } return s; }
static std::string hx64(uint64_t v) { std::string s; for (int i = 60; i >= 0; i -= 4) s += "0123456789abcdef"[v >> i & 15]; return s; }
// variants from 20 on differ from variant 0 in one place only: the last, first or a middle byte, one half
static Bytes text(int v, size_t n) {
  Bytes b(n); int w = v < 20 ? v : 0; for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 7 + w * 31 + (i >> 3));
  if (n) { if (v == 20) b[n - 1] ^= 1; if (v == 21) b[0] ^= 2; if (v == 22) b[n / 2] ^= 0x80; if (v == 23) for (size_t i = n / 2; i < n; i++) b[i] ^= 0x55; if (v == 24) for (size_t i = 0; i < n / 2; i++) b[i] ^= 0x55; }
  // from 100 on: every single byte changed, then pairs of changes that keep the xor, the sum or the set of the bytes
  if (v >= 100 && n > 1) { size_t k = v - 100, i = k % 64; if (k < 64) b[i % n] ^= (uint8_t)(1 + k / n); else { size_t d = 1u << (k / 64 - 1) % 5, j = (i + d) % n; i %= n; if (k < 64 * 6) { b[i] ^= 0x11; b[j] ^= 0x11; } else if (k < 64 * 11) { b[i] += 1; b[j] -= 1; } else std::swap(b[i], b[j]); } } return b;
}
static std::string fnv(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return hx64(h); }

template <class H> std::string cls(int v) {
  H a; Bytes t = text(v, 201); step(); a.add(std::span<const uint8_t>(t.data(), 150)); step(); H b = a; step(); a.add(std::span<const uint8_t>(t.data() + 150, 51));
  step(); std::string r = hx(a.data()); step(); r += "/" + hx(b.data()); step(); return r + "/" + hx(H(t).data());
}
static std::string named(const char* n, int v) { Hash h(n, std::string_view("abc")); Bytes t = text(v, 77); step(); h.add(std::span<const uint8_t>(t)); step(); std::string r = (std::string)h; step(); r += "/" + hx((std::vector<uint8_t>)h); Hash g(n); step(); g.add(std::span<const uint8_t>(t)); step(); r += "/" + hx(g.getAsn1Id()); return r + "/" + std::to_string(g.data().size()) + std::to_string(g.MaxLength() & 0xffff); }
template <class H> std::string kdf(int v) {
  Bytes t = text(v, 33), k = text(v + 1, H::blocksize + 5); std::string r = hx(HMAC<H>(t, k)); step(); auto prk = HKDF_Extract<H>(k, t); r += hx(HKDF_Expand_Label<H>(prk, "test", t, 70));
  step(); auto hs = HKDF_HandshakeSecret<H>(t); step(); auto kv = hs.template get_key_iv<AES<128>>(t, v & 1, true); r += hx(kv.key) + hx(kv.iv) + hx(hs.get_finished_key(t, true)); step(); auto m = HKDF_UpdateSecret<H>(HKDF_MasterSecret<H>(hs)); return fnv(r + hx(m.data) + hx(exporter_master<H>(m, t)) + hx(resumption_master<H>(m, t)));
}
static std::string m128(__m128i x) { uint8_t b[16]; _mm_storeu_si128((__m128i*)b, x); return hx(b); }
template <size_t K> std::string aes(int v) { Bytes k = text(v, K / 8); AesKeySchedule<K> ks(k); step(); AesKeySchedule<K> c = ks; step(); __m128i b = _mm_setr_epi32(v, 1, 2, 3); std::string r; for (int i = 0; i < 3; i++) { b = AesEncrypt(i & 1 ? c : ks, b); r += m128(AES<K>::Encrypt(ks, b)); step(); } return r; }
template <size_t K> std::string gcm(int v) {
  Bytes k = text(v, K / 8), iv = text(v + 2, 12); GCM<AES<K>> a(key_iv_pair<AES<K>>{std::span<const uint8_t>(k), std::span<const uint8_t>(iv)}), b = a; std::string r; step();
  for (int i = 0; i < 2; i++) { Bytes p = text(v + i, 37), ad = text(i, 13); auto [ct, tag] = a.Encrypt(p, ad); step(); r += hx(ct) + hx(tag); auto [pt, ok] = b.Decrypt(ct, ad, tag); r += ok && pt == p ? "+" : "!opened wrong"; step(); }
  return r;
}
static std::string ctr(int v) { Bytes k = text(v, 16), iv = text(v + 2, 16), p = text(v, 70); CTR<AES<128>> a(key_iv_pair<AES<128>>{std::span<const uint8_t>(k), std::span<const uint8_t>(iv)}); step(); a.Encrypt(p); std::string r = hx(p); step(); a.Encrypt(p); return r + hx(p); }
static std::string chacha(int v) { Bytes k = text(v, 32), n = text(v, 12), p = text(v, 150); ChaCha20 c(k, n); step(); c.Encrypt(p); std::string r = hx(p); step(); c.Decrypt(p); return fnv(r + hx(p)); }
static std::string gf(int v) { __m128i a = _mm_setr_epi32(v, 0x1234567 * v, 99, 5), b = _mm_setr_epi32(7, v, 0x80000000, 3); return m128(reflect(a)) + m128(galoisMultiply(reflect(a), reflect(b))) + m128(ghash_block(a, b, b)); }
static std::string b64(int v) { Bytes t = text(v, 100 + v); std::string r; for (int i = 0; i < 3; i++) { std::string e = base64(t, i & 1, i & 1, (Base64CharSet)i); r += e; step(); if (base64d(e) != t) r += "!decoded wrong"; step(); } return fnv(r); }
template <size_t B> static std::string st(const bignum<B>& x) { return hx(x.as_bytes()); }
static std::string big(int v) { auto t = text(v, 24), u = text(v + 1, 16); bignum<192> a{std::span<const uint8_t>(t)}; bignum<128> b{std::span<const uint8_t>(u)}; step(); auto p = a * a; step(); return st(p) + st(b * b) + st((a + a).second) + st((a - bignum<192>(5)).second) + st(a.naive_reduce(b)) + to_string(b) + (a < a ? "<" : "."); }
static std::string mont(int v) { auto t = text(v, 32); t[0] |= 1; t[31] |= 0x80; bignum<256> n{std::span<const uint8_t>(t)}; MontgomeryState<256> s(n); step(); auto u = text(v + 3, 32); u[31] = 1; MontgomeryValue<256> x(s, bignum<256>{std::span<const uint8_t>(u)}); step(); auto y = x * x; step(); return st(bignum<256>(y.exp(bignum<256>{std::span<const uint8_t>(u)}))) + st(bignum<256>(x.exp(65537))); }
static std::string rsaSign(int v) {
  auto le = [](Bytes b) { return bignum<1024>(std::span<const uint8_t>(b)); };
  bool other = v == 20 || v == 23; rsa_private_key<1024> k(le(other ? fx.n2 : fx.n), le(other ? fx.d2 : fx.d)); rsa_public_key<1024> p(le(other ? fx.n2 : fx.n), le(fx.e)); step(); Bytes m = text(v, 40), salt = text(v, 32);
  auto s = k.signPkcs1_5Signature<SHA2<256>>(m); step(); std::string r = hx(s) + (p.validatePkcs1_5Signature<SHA2<256>>(m, s) ? "+" : "!rejected"); step(); auto h = SHA2<256>(m).data(); auto ps = k.signPssSignature<SHA2<256>, MGF1<SHA2<256>>>(h, salt);
  step(); return fnv(r + hx(ps)) + (p.validatePssSignature<SHA2<256>, MGF1<SHA2<256>>>(m, ps) ? "+" : "!rejected");
}
static std::string x255(int v) { auto t = text(v, 32), u = text(v + 9, 32); ec_value k{bignum<256>{std::span<const uint8_t>(t)}}, p{bignum<256>{std::span<const uint8_t>(u)}}; return hx(X25519(k, p).as_bytes()); }
static std::string desc(const x509certificate& c) { return c.subject + "|" + c.issuer + "|" + std::to_string((uint64_t)c.validity_start) + "|" + std::to_string((uint64_t)c.validity_end) + "|" + std::to_string(c.derCert.size()) + (c.pubkey ? "k" : "-"); }
static std::string cert(int v) { x509certificate c = parseCertificate(fx.der[v < 20 ? v & 1 : 3 + (v & 1)]); step(); return desc(c) + (c.appliesTo("a.example") ? "+" : "-"); }
static std::string certPem(int v) { std::string& p = fx.pem[v & 1]; return desc(parseCertificate(std::span<const uint8_t>((const uint8_t*)p.data(), p.size()), DataFormat::Pem)); }
static std::string bundle(int v) { std::string p = v & 1 ? fx.pem[0] + fx.pem[1] : fx.pem[1] + fx.pem[0]; std::string r; for (auto& c : parseCertificatesPem(std::span<const uint8_t>((const uint8_t*)p.data(), p.size()))) r += desc(c) + "\n"; return r; }
static std::string verify(int v) { x509certificate a = parseCertificate(fx.der[v < 20 ? 0 : 3 + (v & 1)]); step(); x509certificate b = parseCertificate(fx.der[1]); step(); return std::string(b.verify(a) ? "yes" : "no") + (v & 1 ? (a.verify(b) ? "yes" : "no") : ""); }
static std::string bad(int v) { std::string r; for (size_t i = 1; i < 4; i++) { try { auto c = parseCertificate(std::span<const uint8_t>(fx.der[0].data(), fx.der[0].size() / 4 * i + v)); r += desc(c); } catch (std::exception& e) { r += "E"; } } return r; }
static std::string keySign(int v) { auto k = parsePrivateKey(fx.key[v & 1]); step(); Bytes m = text(v, 30); return hx(k->sign(rsa_pkcs1_sha256, m)); }
static std::string keySignPss(int v) { auto k = parsePrivateKey(fx.key[0]); x509certificate c = parseCertificate(fx.der[2]); Bytes m = text(v, 30); auto s = k->sign(rsa_pss_rsae_sha256, m); return c.pubkey->validateSignature(rsa_pss_rsae_sha256, m, s) ? "+" : "!the signature made is not accepted"; }
static std::string store(int) { Truststore& t = Truststore::Instance(); return t.get("no such name") ? "!found" : "none"; }
static std::string sig(int v) { std::string r; x509certificate c = parseCertificate(fx.der[2]); Bytes m = text(v, 30); return c.pubkey->validateSignature(rsa_pkcs1_sha256, m, fx.der[1]) ? "!accepted" : "no"; }

// random draws: "draws:" then one 64-bit value per generator output
static std::string draw64(int) { std::string r = "draws:"; r += hx64(generate_random_value()) + hx64(generate_random_value()); return r; }
static std::string draw1(int) { return "draws:" + hx64(generate_random_value()); }
static std::string draw8(int) { std::array<uint8_t, 16> b; generate_random(std::span<uint8_t>(b)); uint64_t x[2]; memcpy(x, b.data(), 16); return "draws:" + hx64(x[0]) + hx64(x[1]); }
static std::string draw16(int) { std::array<uint16_t, 8> b; generate_random(std::span<uint16_t>(b)); uint64_t x[2]; memcpy(x, b.data(), 16); return "draws:" + hx64(x[0]) + hx64(x[1]); }
static std::string draw32(int) { std::array<uint32_t, 4> b; generate_random(std::span<uint32_t>(b)); uint64_t x[2]; memcpy(x, b.data(), 16); return "draws:" + hx64(x[0]) + hx64(x[1]); }
static std::string drawv64(int) { std::array<uint64_t, 3> b; generate_random(std::span<uint64_t>(b)); return "draws:" + hx64(b[0]) + hx64(b[1]) + hx64(b[2]); }
static std::string drawBig(int) { auto b = bignum<128>::random().as_bytes(); uint64_t x[2]; memcpy(x, b.data(), 16); return "draws:" + hx64(x[0]) + hx64(x[1]); }
static std::string drawKey(int) { auto k = ec_value::random_private_key().as_bytes(); uint64_t x[4]; memcpy(x, k.data(), 32); return "draws:" + hx64(x[1]) + hx64(x[2]); }

extern "C++" const std::vector<OpDef>& ops() {
  static const std::vector<OpDef> o = {
    {"md5", cls<MD5>}, {"sha1", cls<SHA1>}, {"sha224", cls<SHA2<224>>}, {"sha256", cls<SHA2<256>>}, {"sha384", cls<SHA2<384>>}, {"sha512", cls<SHA2<512>>}, {"sha3-256", cls<SHA3<256>>}, {"sha3-512", cls<SHA3<512>>}, {"crc32", cls<CRC32>},
    {"Hash(md5)", [](int v) { return named("md5", v); }}, {"Hash(sha)", [](int v) { return named("sha", v); }}, {"Hash(sha2-256)", [](int v) { return named("sha2-256", v); }}, {"Hash(sha512)", [](int v) { return named("sha512", v); }},
    {"Hash(names 1)", [](int v) { static const char* n[] = {"sha3-224", "sha3-256", "sha3-384", "sha3-512", "sha224", "sha256", "md5"}; return named(n[(v < 20 ? v : v - 18) % 7], v % 20); }},
    {"Hash(names 2)", [](int v) { static const char* n[] = {"sha2-224", "sha2-384", "sha2-256", "sha2-512", "sha384", "sha512", "sha1"}; return named(n[(v < 20 ? v : v - 18) % 7], v % 20); }},
    {"kdf256", kdf<SHA2<256>>}, {"kdf384", kdf<SHA2<384>>}, {"aes128", aes<128>}, {"aes256", aes<256>}, {"gcm128", gcm<128>}, {"gcm256", gcm<256>}, {"ctr", ctr}, {"chacha20", chacha}, {"gf128", gf}, {"base64", b64},
    {"bignum", big}, {"montgomery", mont}, {"primality", opPrime}, {"rsa", rsaSign}, {"x25519", x255},
    {"cert-der", cert, 2}, {"cert-pem", certPem, 2}, {"bundle", bundle, 2}, {"cert-verify", verify, 2}, {"cert-bad", bad, 2}, {"signature", sig, 2}, {"key-sign", keySign, 3},
    {"key-sign-pss", keySignPss, 3, true}, {"draw-u64", draw64, 0, true}, {"draw-one", draw1, 0, true}, {"draw-u8s", draw8, 0, true}, {"draw-u16s", draw16, 0, true}, {"draw-u32s", draw32, 0, true}, {"draw-u64s", drawv64, 0, true}, {"draw-bignum", drawBig, 0, true}, {"draw-x25519-key", drawKey, 1, true}, {"draw-prime", opDrawPrime, 1, true},
    {"store-instance", store, 4},
  }; return o;
}
