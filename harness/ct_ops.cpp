// The secret-handling operations of S01 (instrumented).
#include <array>
#include <cstdint>
#include <span>
#include <string>
#include <vector>
#include <ostream>
#include "caligo/random.h"
#include "caligo/bignum.h"
#include "caligo/md5.h"
#include "caligo/sha1.h"
#include "caligo/sha2.h"
#include "caligo/sha3.h"
#include "caligo/hash.h"
#include "caligo/hkdf.h"
#include "caligo/aes.h"
#include "caligo/gcm.h"
#include "caligo/ctr.h"
#include "caligo/chacha20.h"
#include "caligo/x25519.h"
#include "caligo/rsa.h"
#include "ct.hpp"
using namespace Caligo; using Bytes = std::vector<uint8_t>;
namespace {
struct T { T() { ct_begin(); } ~T() { ct_end(); } };
volatile uint32_t sink;
template <class X> void keep(const X& x) { asm volatile("" : : "r"(&x) : "memory"); }
Bytes text(size_t n, int v = 0) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 7 + v * 31 + (i >> 3)); return b; }
template <size_t B> bignum<B> num(const uint8_t* p) { bignum<B> r; for (size_t i = 0; i < B / 32; i++) r[i] = p[4 * i] | p[4 * i + 1] << 8 | p[4 * i + 2] << 16 | (uint32_t)p[4 * i + 3] << 24; return r; }
ec_value ec(const uint8_t* p) { return ec_value{num<256>(p)}; }

void x25519(const uint8_t* s) { ec_value k = ec(s), u{9}; { T t; auto r = X25519(k, u); keep(r); } }
void x25519b(const uint8_t* s) { ec_value k = ec(s); Bytes u = text(32, 3); ec_value p = ec(u.data()); { T t; auto r = X25519(k, p); keep(r); } }
template <size_t K> bignum<K> modulus() { bignum<K> n; for (size_t i = 0; i < K / 32; i++) n[i] = 0x9e3779b9u * (uint32_t)(i + 3) | 1; n[K / 32 - 1] |= 0x80000000u; return n; }
template <size_t K> void rsaExp(const uint8_t* s) { bignum<K> n = modulus<K>(), m; m[0] = 0x1234567; m[K / 32 - 1] = 5; rsa_private_key<K> k(n, num<K>(s)); { T t; auto r = k.rsadp(m); keep(r); } }
template <size_t K> void rsaMsg(const uint8_t* s) { bignum<K> n = modulus<K>(), d = n; d[0] ^= 0x5a5a5a; rsa_private_key<K> k(n, d); bignum<K> m = num<K>(s); { T t; auto r = k.rsadp(m); keep(r); } }
void rsaSign(const uint8_t* s) { bignum<512> n = modulus<512>(); rsa_private_key<512> k(n, num<512>(s)); Bytes m = text(40); { T t; auto r = k.signPkcs1_5Signature<SHA2<256>>(m); keep(r); } }
void rsaSignPss(const uint8_t* s) { bignum<640> n = modulus<640>(); rsa_private_key<640> k(n, num<640>(s)); Bytes salt = text(32); auto h = SHA2<256>(text(40)).data(); { T t; auto r = k.signPssSignature<SHA2<256>, MGF1<SHA2<256>>>(h, salt); keep(r); } }
template <size_t K> void mont(const uint8_t* s) { static const MontgomeryState<K> st(modulus<K>()); bignum<K> a = num<K>(s), b = num<K>(s + K / 8); { T t; MontgomeryValue<K> x(st, a), y(st, b); auto z = x * y; auto w = x.square(); bignum<K> r = z, q = w; keep(r); keep(q); } }

template <size_t B> void bnArith(const uint8_t* s) { bignum<B> a = num<B>(s), b = num<B>(s + B / 8); { T t; auto r1 = a + b; auto r2 = a - b; auto r3 = a * b; auto r4 = a * b[0]; auto r5 = a ^ b; bignum<B> c = a; c &= b; c.shr1(); auto r6 = a.square(); keep(r1); keep(r2); keep(r3); keep(r4); keep(r5); keep(c); keep(r6); } }
template <size_t B> void bnCompare(const uint8_t* s) { bignum<B> a = num<B>(s), b = num<B>(s + B / 8); { T t; bool e = a == b; bool l = a < b; keep(e); keep(l); } }
template <size_t B> void bnSwap(const uint8_t* s) { bignum<B> a = num<B>(s), b = num<B>(s + B / 8); bool d = s[B / 4] & 1; { T t; ctime_swap(d, a, b); keep(a); keep(b); } }
void feArith(const uint8_t* s) { ec_value a = ec(s), b = ec(s + 32); { T t; auto r1 = a + b; auto r2 = a - b; auto r3 = a * b; auto r4 = a * 121665; auto r5 = a.square(); keep(r1); keep(r2); keep(r3); keep(r4); keep(r5); } }
void feReduce(const uint8_t* s) { ec_value a = ec(s), b = ec(s + 32); { T t; ec_value c = a; c.applyModulus(); bool e = a == b; bool l = a < b; keep(c); keep(e); keep(l); } }
void feInverse(const uint8_t* s) { ec_value a = ec(s); { T t; auto r = inverse(a); keep(r); } }
void feSwap(const uint8_t* s) { ec_value a = ec(s), b = ec(s + 32); bool d = s[64] & 1; { T t; ctime_swap(d, a, b); a.normalize(); keep(a); keep(b); } }

template <size_t K> void aes(const uint8_t* s) { Bytes k(s, s + K / 8); __m128i b = _mm_loadu_si128((const __m128i*)(s + K / 8)); { T t; AesKeySchedule<K> ks(k); auto r = AesEncrypt(ks, b); keep(r); } }
template <size_t K> void gcmSeal(const uint8_t* s) { Bytes k(s, s + K / 8), iv = text(12), p(s + K / 8, s + K / 8 + 37), ad = text(13); { T t; GCM<AES<K>> g(key_iv_pair<AES<K>>{std::span<const uint8_t>(k), std::span<const uint8_t>(iv)}); auto r = g.Encrypt(p, ad); auto q = g.Encrypt(p, ad); keep(r); keep(q); } }
// opening: what the receiver computes must not steer anything, wherever the offered tag deviates. That it deviates at
// all is the verdict, which is public: forged messages are compared with forged ones, genuine with genuine ones.
template <size_t K, bool Forged> void gcmOpen(const uint8_t* s) { Bytes k(s, s + K / 8), iv = text(12), c = text(37, 2), ad = text(13); key_iv_pair<AES<K>> kv{std::span<const uint8_t>(k), std::span<const uint8_t>(iv)}; GCM<AES<K>> g(kv), g2(kv); 
  std::array<uint8_t, 16> tag{}; Bytes z(37); auto ks = g2.Encrypt(z, {}).first; for (int i = 0; i < 37; i++) z[i] = c[i] ^ ks[i]; GCM<AES<K>> g3(kv); tag = g3.Encrypt(z, ad).second; if (Forged) { uint8_t any = 0; for (int i = 0; i < 16; i++) { tag[i] ^= s[K / 8 + i]; any |= s[K / 8 + i]; } if (!any) tag[15] ^= 1; } { T t; auto r = g.Decrypt(c, ad, tag); keep(r.first); sink = r.second; } }
void gf(const uint8_t* s) { __m128i a = _mm_loadu_si128((const __m128i*)s), b = _mm_loadu_si128((const __m128i*)(s + 16)); { T t; auto r = galoisMultiply(a, b); auto q = reflect(a); auto w = ghash_block(a, b, q); keep(r); keep(q); keep(w); } }
void ctr(const uint8_t* s) { Bytes k(s, s + 16), iv = text(16), p(s + 16, s + 16 + 37); { T t; CTR<AES<128>> g(key_iv_pair<AES<128>>{std::span<const uint8_t>(k), std::span<const uint8_t>(iv)}); g.Encrypt(p); g.Decrypt(p); g.Encrypt(p); } }
void chacha(const uint8_t* s) { Bytes k(s, s + 32), n = text(12), p(s + 32, s + 32 + 100); { T t; ChaCha20 c(k, n); c.Encrypt(p); c.Decrypt(std::span<uint8_t>(p).first(70)); } }
template <class H> void hash(const uint8_t* s) { Bytes m(s, s + 201); { T t; H a; a.add(std::span<const uint8_t>(m.data(), 150)); a.add(std::span<const uint8_t>(m.data() + 150, 51)); auto r = a.data(); keep(r); } }
void hashNamed(const uint8_t* s) { Bytes m(s, s + 201); { T t; Hash h("sha256"); h.add(std::span<const uint8_t>(m)); Bytes r = h.data(); keep(r); } }
template <class H> void hmac(const uint8_t* s) { Bytes k(s, s + 100), m(s + 100, s + 201); { T t; auto r = HMAC<H>(m, k); auto q = HMAC<H>(k, m); keep(r); keep(q); } }
template <class H> void kdf(const uint8_t* s) { Bytes sh(s, s + 32), th = text(H::hashsize); { T t; auto hs = HKDF_HandshakeSecret<H>(sh); auto m = HKDF_MasterSecret<H>(hs); auto kv = hs.template get_key_iv<AES<128>>(th, true, true); auto f = hs.get_finished_key(th, false); auto u = HKDF_UpdateSecret<H>(m); auto e = exporter_master<H>(m, th); keep(kv); keep(f); keep(u); keep(e); } }
void feKey(const uint8_t* s) { testValues = {}; for (int i = 0; i < 4; i++) { uint64_t v; memcpy(&v, s + 8 * i, 8); testValues.push_back(v); } { T t; auto k = ec_value::random_private_key(); auto b = k.as_bytes(); keep(k); keep(b); } }
}
const std::vector<CtOp>& ctOps() {
  static const std::vector<CtOp> o = {
    {"x25519(scalar)", 32, x25519, 3, 0}, {"x25519(scalar), general point", 32, x25519b, 3, 0},
    {"rsa-64 private(exponent)", 8, rsaExp<64>, 1, 2}, {"rsa-96 private(exponent)", 12, rsaExp<96>, 1, 0}, {"rsa-256 private(exponent)", 32, rsaExp<256>, 2, 0}, {"rsa-64 private(message)", 8, rsaMsg<64>, 1, 2}, {"rsa-256 private(message)", 32, rsaMsg<256>, 2, 0}, {"rsa-512 pkcs1 sign(exponent)", 64, rsaSign, 3, 0}, {"rsa-640 pss sign(exponent)", 80, rsaSignPss, 3, 0},
    {"montgomery-64(values)", 16, mont<64>, 0, 1}, {"montgomery-256(values)", 64, mont<256>, 0, 0},
    {"bignum-64 arithmetic", 16, bnArith<64>, 0, 1}, {"bignum-96 arithmetic", 24, bnArith<96>, 0, 3}, {"bignum-256 arithmetic", 64, bnArith<256>, 0, 0}, {"bignum-64 comparison", 16, bnCompare<64>, 0, 1}, {"bignum-96 comparison", 24, bnCompare<96>, 0, 3}, {"bignum-256 comparison", 64, bnCompare<256>, 0, 0}, {"bignum-64 conditional swap", 17, bnSwap<64>, 0, 1}, {"bignum-256 conditional swap", 65, bnSwap<256>, 0, 0},
    {"field arithmetic", 64, feArith, 0, 4}, {"field reduction and comparison", 64, feReduce, 0, 4}, {"field inversion", 32, feInverse, 2, 5}, {"field conditional swap", 65, feSwap, 0, 0}, {"x25519 key generation(random)", 32, feKey, 0, 0},
    {"aes-128(key, block)", 32, aes<128>, 0, 0}, {"aes-256(key, block)", 48, aes<256>, 0, 0}, {"gcm-128 seal(key, plaintext)", 53, gcmSeal<128>, 0, 0}, {"gcm-256 seal(key, plaintext)", 69, gcmSeal<256>, 0, 0}, {"gcm-128 open(key, deviation of the tag)", 32, gcmOpen<128, true>, 0, 0}, {"gcm-128 open(key), genuine", 16, gcmOpen<128, false>, 0, 0}, {"gcm-256 open(key, deviation of the tag)", 48, gcmOpen<256, true>, 0, 0}, {"gcm-256 open(key), genuine", 32, gcmOpen<256, false>, 0, 0}, {"gf(2^128)", 32, gf, 0, 0}, {"ctr-128(key, plaintext)", 53, ctr, 0, 0}, {"chacha20(key, plaintext)", 132, chacha, 0, 0},
    {"md5(message)", 201, hash<MD5>, 0, 0}, {"sha1(message)", 201, hash<SHA1>, 0, 0}, {"sha224(message)", 201, hash<SHA2<224>>, 0, 0}, {"sha256(message)", 201, hash<SHA2<256>>, 0, 0}, {"sha384(message)", 201, hash<SHA2<384>>, 0, 0}, {"sha512(message)", 201, hash<SHA2<512>>, 0, 0}, {"sha3-224(message)", 201, hash<SHA3<224>>, 0, 0}, {"sha3-256(message)", 201, hash<SHA3<256>>, 0, 0}, {"sha3-384(message)", 201, hash<SHA3<384>>, 0, 0}, {"sha3-512(message)", 201, hash<SHA3<512>>, 0, 0}, {"Hash(sha256)(message)", 201, hashNamed, 0, 0},
    {"hmac-sha1(key, text)", 201, hmac<SHA1>, 0, 0}, {"hmac-sha256(key, text)", 201, hmac<SHA2<256>>, 0, 0}, {"hmac-sha512(key, text)", 201, hmac<SHA2<512>>, 0, 0}, {"hmac-sha3-256(key, text)", 201, hmac<SHA3<256>>, 0, 0}, {"key schedule-sha256(shared secret)", 32, kdf<SHA2<256>>, 1, 0}, {"key schedule-sha384(shared secret)", 32, kdf<SHA2<384>>, 1, 0},
  }; return o;
}
