// R01 (GROUP=1: raw RSA), R02 (2: signatures)
#include <array>
#include <cstdint>
#include <span>
#include <string>
#include <vector>
#include "caligo/random.h"
#include "caligo/bignum.h"
#include "caligo/rsa.h"
#include "caligo/sha2.h"
#include "caligo/X509Certificate.h"
#include "mc.hpp"
#include "refrsa.hpp"
using mc::Bytes; using mc::Ctx; using namespace Caligo; using ref::Z; using ref::RsaKey;
template <size_t B> bignum<B> mk(const Z& v) { Bytes b = ref::zbytes(v, B / 8); std::reverse(b.begin(), b.end()); return bignum<B>(std::span<const uint8_t>(b)); }
template <size_t B> Z zz(const bignum<B>& x) { Bytes b = x.as_bytes(); std::reverse(b.begin(), b.end()); return ref::zbe(b); }

#if GROUP == 1
template <size_t B> void op(Ctx& c, const rsa_public_key<B>& pub, const rsa_private_key<B>& prv, const RsaKey& K, const Z& m, bool priv = true) {
  Z ct = ref::zpowm(m, K.e, K.n); auto a = pub.rsaep(mk<B>(m)); c.trans(1); c.trace(1);
  if (!(zz(a) == ct)) c.fail("public operation: n=" + K.n.str() + " e=" + K.e.str() + " m=" + m.str() + " got " + zz(a).str() + " want " + ct.str());
  if (!priv) return;
  auto b = prv.rsadp(a); c.trans(1); c.trace(1); if (!(zz(b) == m)) c.fail("private after public: n=" + K.n.str() + " m=" + m.str() + " got " + zz(b).str());
  Z sd = ref::zpowm(m, K.d, K.n); auto s = prv.rsadp(mk<B>(m)); c.trans(1); c.trace(1); if (!(zz(s) == sd)) c.fail("private operation: n=" + K.n.str() + " d=" + K.d.str() + " m=" + m.str() + " got " + zz(s).str() + " want " + sd.str());
  auto v = pub.rsaep(s); c.trans(1); c.trace(1); if (!(zz(v) == m)) c.fail("public after private: n=" + K.n.str() + " m=" + m.str() + " got " + zz(v).str());
}
static std::vector<Z> messages(const RsaKey& K) {
  std::vector<Z> r; for (unsigned long i = 0; i < 4; i++) { r.push_back(Z(i)); r.push_back(K.n - Z(i + 1)); } r.push_back(K.p); r.push_back(K.q); r.push_back(K.n - K.p); Z h; mpz_tdiv_q_2exp(h.z, K.n.z, 1); r.push_back(h); for (size_t k = 31; k < K.bits; k += 32) { r.push_back(ref::zpow2(k) % K.n); r.push_back((ref::zpow2(k + 1) - Z(1ul)) % K.n); } return r;
}
template <size_t B> void key(Ctx& c, const RsaKey& K, size_t maxMsgs) {
  rsa_public_key<B> pub(mk<B>(K.n), mk<B>(K.e)); rsa_private_key<B> prv(mk<B>(K.n), mk<B>(K.d)); c.states(1); auto ms = messages(K); size_t st = std::max<size_t>(1, ms.size() / maxMsgs);
  for (size_t i = 0; i < ms.size(); i += (i < 6 ? 1 : st)) { c.beat(); op<B>(c, pub, prv, K, ms[i]); }
}
template <size_t B> void tiny(Ctx& c, unsigned P, int q, int Q) {   // every pair of distinct odd primes, every usable exponent of the list, every message
  Z p(2ul); int idx = 0;
  while (true) { p = ref::znext(p); if (mpz_cmp_ui(p.z, P) > 0) break; Z r(2ul); while (true) { r = ref::znext(r); if (r.cmp(p) >= 0) break; if (idx++ % Q != q) continue;
    for (unsigned long e : {3ul, 5ul, 7ul, 17ul, 65537ul}) { RsaKey K; K.p = p; K.q = r; K.n = p * r; K.e = Z(e); Z phi = (p - Z(1ul)) * (r - Z(1ul)); if (!mpz_invert(K.d.z, K.e.z, phi.z)) continue; K.bits = K.n.bits(); c.desc("width %zu n=%s e=%lu, every message", B, K.n.str().c_str(), e);
      rsa_public_key<B> pub(mk<B>(K.n), mk<B>(K.e)); rsa_private_key<B> prv(mk<B>(K.n), mk<B>(K.d)); c.states(1); unsigned long n = mpz_get_ui(K.n.z); for (unsigned long m = 0; m < n; m++) op<B>(c, pub, prv, K, Z(m), B <= 64 || m < 8); c.beat(); } } }
}
// every exponent of a family in both roles: all small ones, every one and two bits set, every run of ones, every tuple of edge words
template <size_t B> void exponents(Ctx& c, size_t bits, int kind, bool deep) {
  RsaKey K = ref::rsaKey(bits, 65537, kind); std::vector<Z> es; for (unsigned long e = 0; e < (deep ? 70000 : 1100); e++) es.push_back(Z(e)); for (unsigned long e = 65530; e < 65545; e++) es.push_back(Z(e));
  for (size_t i = 0; i < B; i++) { es.push_back(ref::zpow2(i)); es.push_back(ref::zpow2(i + 1) - Z(1ul)); if (i) es.push_back(ref::zpow2(B) - ref::zpow2(i)); for (size_t j = 0; j < i; j += (deep || B <= 64 ? 1 : 16)) es.push_back(ref::zpow2(i) + ref::zpow2(j)); }
  static const unsigned long W[] = {0, 65537, 0xffffffff, 1, 3, 0x80000000, 17, 65536}; size_t n = B / 32, k = B <= 96 ? 8 : 3, tot = 1; if (n > 8) n = 8; for (size_t i = 0; i < n; i++) tot *= k;
  for (size_t x = 0; x < tot; x++) { Z e(0ul); size_t y = x; for (size_t i = 0; i < n; i++) { e = e + Z(W[y % k]) * ref::zpow2(32 * i); y /= k; } es.push_back(e); }
  std::vector<Z> ms = {Z(2ul), K.n - Z(2ul), ref::zpow2(bits - 3)}; bignum<B> nn = mk<B>(K.n); size_t id = 0;
  for (auto& e : es) { c.beat(); c.states(); bignum<B> eb = mk<B>(e); rsa_public_key<B> pub(nn, eb); rsa_private_key<B> prv(nn, eb); Z m = ms[id++ % ms.size()], want; mpz_powm(want.z, m.z, e.z, K.n.z); bignum<B> mb = mk<B>(m);
    c.desc("width %zu n=%s e=%s m=%s", B, K.n.str().c_str(), e.str().c_str(), m.str().c_str()); c.require(zz(pub.rsaep(mb)) == want, "public operation with this exponent"); c.require(zz(prv.rsadp(mb)) == want, "private operation with this exponent"); c.trans(2); c.trace(2); }
}
static mc::Options build(int tier) {
  mc::Options o; auto U = [&](std::string n, std::function<void(Ctx&)> f) { o.units.push_back({n, f}); };
  for (int kind = 0; kind < 3; kind++) { U(mc::fmt("exponents64/%d", kind), [=](Ctx& c) { exponents<64>(c, 60 + kind, kind, tier); }); U(mc::fmt("exponents96/%d", kind), [=](Ctx& c) { exponents<96>(c, 80, kind, tier); }); U(mc::fmt("exponents128/%d", kind), [=](Ctx& c) { exponents<128>(c, 128, kind, tier); }); U(mc::fmt("exponents256/%d", kind), [=](Ctx& c) { exponents<256>(c, 250, kind, tier); }); }
  for (int q = 0; q < 16; q++) { U(mc::fmt("tiny32/%d", q), [=](Ctx& c) { tiny<32>(c, tier ? 131 : 61, q, 16); }); U(mc::fmt("tiny64/%d", q), [=](Ctx& c) { tiny<64>(c, tier ? 61 : 31, q, 16); }); U(mc::fmt("tiny96/%d", q), [=](Ctx& c) { tiny<96>(c, tier ? 31 : 17, q, 16); }); }
  for (int kind = 0; kind < 3; kind++) for (unsigned long e : {3ul, 17ul, 257ul, 65537ul, 65539ul, 4294967311ul}) {
    U(mc::fmt("w64/%d.%lu", kind, e), [=](Ctx& c) { for (size_t b = 20; b <= 64; b++) { c.desc("width 64, %zu-bit key, e=%lu kind %d", b, e, kind); if (b > 34) key<64>(c, ref::rsaKey(b, e, kind), 64); } });
    U(mc::fmt("w128/%d.%lu", kind, e), [=](Ctx& c) { for (size_t b = 40; b <= 128; b += (tier ? 1 : 3)) { c.desc("width 128, %zu-bit key, e=%lu kind %d", b, e, kind); key<128>(c, ref::rsaKey(b, e, kind), 64); } });
    U(mc::fmt("w256/%d.%lu", kind, e), [=](Ctx& c) { for (size_t b = 48; b <= 256; b += (tier ? 5 : 16)) { c.desc("width 256, %zu-bit key, e=%lu kind %d", b, e, kind); key<256>(c, ref::rsaKey(b, e, kind), 24); } });
    U(mc::fmt("w512/%d.%lu", kind, e), [=](Ctx& c) { for (size_t b : {64, 255, 256, 257, 480, 504, 511, 512}) { c.desc("width 512, %zu-bit key, e=%lu kind %d", b, e, kind); key<512>(c, ref::rsaKey(b, e, kind), tier ? 40 : 8); } });
    U(mc::fmt("w1024/%d.%lu", kind, e), [=](Ctx& c) { for (size_t b : {96, 512, 1000, 1023, 1024}) { c.desc("width 1024, %zu-bit key, e=%lu kind %d", b, e, kind); key<1024>(c, ref::rsaKey(b, e, kind), tier ? 24 : 4); } });
    if (tier || e == 65537ul || e == 3ul) U(mc::fmt("w2048/%d.%lu", kind, e), [=](Ctx& c) { for (size_t b : {1024, 2047, 2048}) { c.desc("width 2048, %zu-bit key, e=%lu kind %d", b, e, kind); key<2048>(c, ref::rsaKey(b, e, kind), tier ? 8 : 2); } });
    if (tier && e == 65537ul) U(mc::fmt("w4096/%d.%lu", kind, e), [=](Ctx& c) { for (size_t b : {4095, 4096}) { c.desc("width 4096, %zu-bit key", b); key<4096>(c, ref::rsaKey(b, e, kind), 2); } });
  }
  // wide exponents: e chosen as the inverse of a small one, so both exponents are exercised in either role
  for (int kind = 0; kind < 3; kind++) U(mc::fmt("wide-e/%d", kind), [=](Ctx& c) { for (size_t b : {64, 100, 128}) { RsaKey K = ref::rsaKey(b, 65537, kind); std::swap(K.e, K.d); c.desc("%zu-bit key with exchanged exponents", b); key<128>(c, K, 64); } });
  o.rule = "widths 32/64/96: every product of two distinct odd primes up to 61/31/17 (131/61/31), e in {3,5,7,17,65537}, every message; widths 64..2048 (4096): moduli just above, between and just below powers of two, key sizes from tiny to full width, 6 public exponents, messages 0..3, n-1..n-4, p, q, n-p, n/2 and every word boundary; exponents at widths 64/96/128/256: every value up to 1099 (69999), every one or two bits, every run of ones, every tuple of edge words; public, private, and both compositions compared with GMP";
  o.assumptions = {"keys and messages outside the families are extrapolated", "GMP is the reference"};
  return o;
}
#endif

#if GROUP == 2
static const ref::HashDef& H(int bits) { return ref::hashdef(bits == 256 ? "sha256" : bits == 384 ? "sha384" : "sha512"); }
static size_t hl(int bits) { return bits / 8; }
static size_t minBits(int bits, bool pss) { return pss ? 8 * (2 * hl(bits) + 2) - 6 : 8 * (hl(bits) + 19 + 11) - 7; }
static Bytes raw(const RsaKey& K, const Bytes& em) { return ref::zbytes(ref::zpowm(ref::zbe(em), K.d, K.n), K.k); }
static Bytes emOf(const RsaKey& K, int h, bool pss, const Bytes& m, const Bytes& salt) { return pss ? ref::pssJoin(H(h), ref::pssParts(H(h), m, salt, K.bits - 1), K.bits - 1) : ref::emPkcs1(H(h), ref::digestInfo(h), m, K.k); }
template <size_t N> struct Lib {
  rsa_public_key<N> pub; Lib(const RsaKey& K) : pub(mk<N>(K.n), mk<N>(K.e)) {}
  bool val(int h, bool pss, std::span<const uint8_t> m, std::span<const uint8_t> s) const {
    if (pss) return h == 256 ? pub.template validatePssSignature<SHA2<256>, MGF1<SHA2<256>>>(m, s) : h == 384 ? pub.template validatePssSignature<SHA2<384>, MGF1<SHA2<384>>>(m, s) : pub.template validatePssSignature<SHA2<512>, MGF1<SHA2<512>>>(m, s);
    return h == 256 ? pub.template validatePkcs1_5Signature<SHA2<256>>(m, s) : h == 384 ? pub.template validatePkcs1_5Signature<SHA2<384>>(m, s) : pub.template validatePkcs1_5Signature<SHA2<512>>(m, s);
  }
};
template <size_t N> Bytes libSign(const rsa_private_key<N>& prv, int h, bool pss, const Bytes& m, const Bytes& salt) {
  if (pss) { Bytes d = H(h).fn(m); return h == 256 ? prv.template signPssSignature<SHA2<256>, MGF1<SHA2<256>>>(d, salt) : h == 384 ? prv.template signPssSignature<SHA2<384>, MGF1<SHA2<384>>>(d, salt) : prv.template signPssSignature<SHA2<512>, MGF1<SHA2<512>>>(d, salt); }
  return h == 256 ? prv.template signPkcs1_5Signature<SHA2<256>>(m) : h == 384 ? prv.template signPkcs1_5Signature<SHA2<384>>(m) : prv.template signPkcs1_5Signature<SHA2<512>>(m);
}
template <class L> void expect(Ctx& c, const L& lib, int h, bool pss, const Bytes& m, const Bytes& s, bool want, const char* what) {
  bool got = lib.val(h, pss, m, s); c.trans(1); c.trace(1); c.beat();
  if (got != want) c.fail(std::string(what) + (want ? ": genuine signature rejected" : ": not a genuine signature, but accepted") + " (" + (pss ? "pss" : "pkcs1") + mc::fmt(" sha%d) sig ", h) + mc::hex(s, 160));
}
// every modification of a signature
template <class L> void mods(Ctx& c, const L& lib, const RsaKey& K, int h, bool pss, const Bytes& m, const Bytes& sig, size_t N, int bitStep) {
  for (size_t b = 0; b < sig.size() * 8; b += bitStep) { Bytes s = sig; s[b / 8] ^= 0x80 >> b % 8; expect(c, lib, h, pss, m, s, false, "flipped bit"); c.states(1); }
  for (size_t n = 0; n < sig.size(); n += (n > 4 && n + 5 < sig.size() ? 3 : 1)) { Bytes s(sig.begin(), sig.begin() + n); expect(c, lib, h, pss, m, s, false, "truncated at the end"); Bytes t(sig.end() - n, sig.end()); expect(c, lib, h, pss, m, t, false, "truncated at the front"); }
  for (size_t n = 1; n <= 9; n++) for (uint8_t v : {0, 1, 255}) { Bytes s = sig; s.insert(s.end(), n, v); expect(c, lib, h, pss, m, s, false, "extended at the end"); Bytes t = sig; t.insert(t.begin(), n, v); expect(c, lib, h, pss, m, t, false, "extended at the front"); }
  { Bytes s = sig; s.resize(N / 8 + 4); expect(c, lib, h, pss, m, s, false, "padded beyond the width"); Bytes t = sig; t.insert(t.begin(), N / 8 - std::min(N / 8, t.size()), 0); if (t.size() != sig.size()) expect(c, lib, h, pss, m, t, false, "zero-extended to the width"); Bytes u(N / 8 + 100, 0xff); expect(c, lib, h, pss, m, u, false, "over-long"); }
  Z z = ref::zbe(sig);
  for (int k = 1; k < 4; k++) { z = z + K.n; if (z.bits() <= 8 * K.k) expect(c, lib, h, pss, m, ref::zbytes(z, K.k), false, "signature plus modulus"); if (z.bits() <= 8 * K.k + 8) expect(c, lib, h, pss, m, ref::zbytes(z, K.k + 1), false, "signature plus modulus, one byte longer"); }
  expect(c, lib, h, pss, m, ref::zbytes(K.n - ref::zbe(sig), K.k), false, "negated signature");
  for (unsigned long i = 0; i < 3; i++) { expect(c, lib, h, pss, m, ref::zbytes(Z(i), K.k), false, "tiny signature"); expect(c, lib, h, pss, m, ref::zbytes(K.n - Z(i), K.k), false, "n-i"); }
  expect(c, lib, h, pss, m, Bytes(K.k, 0xff), false, "all ones"); { Bytes r(sig.rbegin(), sig.rend()); if (r != sig) expect(c, lib, h, pss, m, r, false, "byte-reversed signature"); }
  for (size_t i = 0; i < m.size(); i++) { Bytes t = m; t[i] ^= 1; expect(c, lib, h, pss, t, sig, false, "other message"); } { Bytes t = m; t.push_back(0); expect(c, lib, h, pss, t, sig, false, "longer message"); if (m.size()) { t = m; t.pop_back(); expect(c, lib, h, pss, t, sig, false, "shorter message"); } expect(c, lib, h, pss, H(h).fn(m), sig, false, "digest in place of the message"); }
  for (int p2 = 0; p2 < 2; p2++) for (int h2 : {256, 384, 512}) if ((bool)p2 != pss || h2 != h) expect(c, lib, h2, p2, m, sig, false, "other scheme");
}
// every deviation of the encoded block, properly signed
template <class L> void blocks(Ctx& c, const L& lib, const RsaKey& K, int h, bool pss, const Bytes& m, const Bytes& salt, bool dense) {
  auto signedEm = [&](const Bytes& em, const char* what) { if (ref::zbe(em).cmp(K.n) >= 0) return; c.states(1); expect(c, lib, h, pss, m, raw(K, em), false, what); };
  Bytes em = emOf(K, h, pss, m, salt);
  std::vector<uint8_t> xs = {0x01, 0x80, 0xff, 0x10}; if (dense) for (int b = 1; b < 7; b++) xs.push_back(1 << b);
  for (size_t i = 0; i < em.size(); i++) for (uint8_t x : xs) { Bytes e = em; e[i] ^= x; signedEm(e, "one byte of the encoded block changed"); }
  // deviations that cancel each other when differences are added up or XORed together
  for (size_t d : {1, 2, 3, 4, 8, 16, 32}) for (size_t i = 0; i + d < em.size(); i++) { if (d > 4 && !dense && i % 3) continue; Bytes e = em; e[i] ^= 0x11; e[i + d] ^= 0x11; signedEm(e, "two bytes of the encoded block changed alike"); e = em; e[i] += 1; e[i + d] -= 1; signedEm(e, "two bytes of the encoded block changed oppositely"); e = em; std::swap(e[i], e[i + d]); if (e != em) signedEm(e, "two bytes of the encoded block exchanged"); }
  for (size_t n : {(size_t)4, (size_t)8, (size_t)16, em.size() / 2}) { Bytes e = em; for (size_t i = 0; i < n; i++) { e[e.size() - 1 - i] ^= 0xff; } signedEm(e, "the end of the block complemented"); e = em; for (size_t i = 1; i <= n; i++) e[i] ^= 0xff; signedEm(e, "the start of the block complemented"); }
  if (!pss) {
    auto di = ref::digestInfo(h); auto dg = H(h).fn(m); size_t fixed = 3 + di.size() + dg.size();
    auto build = [&](uint8_t b0, uint8_t bt, size_t ps, uint8_t fill, bool sep, const Bytes& d, const Bytes& g, const Bytes& tail) { Bytes e = {b0, bt}; e.insert(e.end(), ps, fill); if (sep) e.push_back(0); e.insert(e.end(), d.begin(), d.end()); e.insert(e.end(), g.begin(), g.end()); e.insert(e.end(), tail.begin(), tail.end()); return e; };
    size_t full = K.k - fixed;
    for (size_t cut = 1; cut <= full; cut += (cut > 4 ? 5 : 1)) for (uint8_t f : {0x00, 0xff, 0x5a}) { signedEm(build(0, 1, full - cut, 0xff, true, di, dg, Bytes(cut, f)), "short padding, trailing bytes"); Bytes e = Bytes(cut, 0); Bytes r = build(0, 1, full - cut, 0xff, true, di, dg, {}); e.insert(e.end(), r.begin(), r.end()); signedEm(e, "short padding, leading zeros"); }
    signedEm(build(0, 2, full, 0xff, true, di, dg, {}), "block type 2"); signedEm(build(0, 0, full, 0x00, true, di, dg, {}), "block type 0"); signedEm(build(0, 1, full + 1, 0xff, false, di, dg, {}), "no separator"); signedEm(build(0, 1, full, 0xff, true, di, dg, {}) == em ? build(0, 1, full + di.size(), 0xff, true, {}, dg, {}) : em, "no DigestInfo");
    for (int h2 : {256, 384, 512}) if (h2 != h) { auto d2 = ref::digestInfo(h2); Bytes g2 = H(h2).fn(m); if (K.k >= 3 + d2.size() + g2.size() + 8) signedEm(build(0, 1, K.k - 3 - d2.size() - g2.size(), 0xff, true, d2, g2, {}), "block of another hash"); signedEm(build(0, 1, full, 0xff, true, d2, dg, {}), "DigestInfo of another hash"); }
    if (m.size()) { Bytes e = build(0, 1, K.k - 3 - m.size(), 0xff, true, {}, m, {}); signedEm(e, "message instead of digest"); }
    // other encodings of the DigestInfo (RFC 8017 has exactly one), the padding adjusted to fit
    { Bytes oid(di.begin() + 4, di.begin() + 15); auto seq = [](std::initializer_list<Bytes> xs, int longer) { Bytes r; for (auto& x : xs) r.insert(r.end(), x.begin(), x.end()); Bytes h = {0x30}; if (longer) h.push_back(0x80 | longer); for (int i = longer - 1; i > 0; i--) h.push_back(0); h.push_back((uint8_t)r.size()); h.insert(h.end(), r.begin(), r.end()); return h; };
      Bytes oct = {4, (uint8_t)dg.size()}; oct.insert(oct.end(), dg.begin(), dg.end()); Bytes octL = {4, 0x81, (uint8_t)dg.size()}; octL.insert(octL.end(), dg.begin(), dg.end()); Bytes nul = {5, 0}, nulL = {5, 0x81, 0}, junk = {4, 3, 1, 2, 3}, more = {5, 0, 5, 0};
      auto put = [&](const Bytes& d, const char* what) { if (d.size() + 3 > K.k) return; signedEm(build(0, 1, K.k - 3 - d.size(), 0xff, true, d, {}, {}), what); };
      if (seq({seq({oid, nul}, 0), oct}, 0).size() != di.size() + dg.size()) c.fail("harness: DigestInfo");
      for (int l1 = 0; l1 < 3; l1++) for (int l2 = 0; l2 < 3; l2++) for (auto& par : {Bytes{}, nul, nulL, junk, more}) for (auto& o : {oct, octL}) { if (!l1 && !l2 && par == nul && o == oct) continue; put(seq({seq({oid, par}, l2), o}, l1), "another encoding of the DigestInfo"); }
      put(seq({seq({oid, nul}, 0), oct, nul}, 0), "element after the digest"); put(oct, "digest only"); { Bytes d2 = dg; d2.push_back(0); Bytes o2 = {4, (uint8_t)d2.size()}; o2.insert(o2.end(), d2.begin(), d2.end()); put(seq({seq({oid, nul}, 0), o2}, 0), "digest with a byte after it"); d2 = Bytes(dg.begin(), dg.end() - 1); o2 = {4, (uint8_t)d2.size()}; o2.insert(o2.end(), d2.begin(), d2.end()); put(seq({seq({oid, nul}, 0), o2}, 0), "digest cut short"); for (size_t n : {0, 1, 4, 8, 16, 20}) { Bytes d3(dg.begin(), dg.begin() + n); o2 = {4, (uint8_t)n}; o2.insert(o2.end(), d3.begin(), d3.end()); put(seq({seq({oid, nul}, 0), o2}, 0), "digest cut to a prefix"); } } }
  } else {
    size_t eb = K.bits - 1; auto P = ref::pssParts(H(h), m, salt, eb);
    size_t ps = P.db.size() - salt.size() - 1;
    for (size_t i = 0; i <= ps; i++) for (uint8_t x : xs) { auto Q = P; Q.db[i] ^= x; Bytes e = ref::pssJoin(H(h), Q, eb); if (e == em) continue; signedEm(e, "padding of DB changed, H consistent"); }
    { auto Q = P; Q.db[ps] = 0; signedEm(ref::pssJoin(H(h), Q, eb), "no separator"); if (ps) { Q = P; Q.db[ps - 1] = 1; signedEm(ref::pssJoin(H(h), Q, eb), "two separators"); Q.db[ps] = 0; signedEm(ref::pssJoin(H(h), Q, eb), "separator one byte early"); } }
    for (int t = 0; t < 256; t++) if (t != 0xbc) { auto Q = P; Q.trailer = (uint8_t)t; signedEm(ref::pssJoin(H(h), Q, eb), "trailer"); }
    { Bytes e = ref::pssJoin(H(h), P, eb, false); if (e != em) signedEm(e, "unused top bits not cleared"); for (int b = 0; b < 8; b++) { Bytes f = em; if (f[0] & (0x80 >> b)) continue; f[0] |= 0x80 >> b; signedEm(f, "top bit set"); } }
    for (size_t sl : {(size_t)0, (size_t)1, hl(h) - 1, hl(h) + 1}) { if ((eb + 7) / 8 < hl(h) + sl + 2) continue; Bytes s2 = mc::pattern(4, sl); signedEm(emOf(K, h, true, m, s2), "other salt length"); }
    for (int h2 : {256, 384, 512}) if (h2 != h && (eb + 7) / 8 >= hl(h2) + salt.size() + 2) signedEm(ref::pssJoin(H(h2), ref::pssParts(H(h2), m, salt, eb), eb), "block of another hash");
    { auto Q = ref::pssParts(H(h), H(h).fn(m), salt, eb); signedEm(ref::pssJoin(H(h), Q, eb), "double hashed message"); }
    // modulus one bit longer than whole bytes: the extra leading byte must be zero
    if (eb % 8 == 0) for (uint8_t v : {1, 2, 0x80}) { Bytes e = em; e.insert(e.begin(), v); signedEm(e, "extra leading byte"); }
  }
}
template <size_t N> void oneKey(Ctx& c, const RsaKey& K, int h, bool pss, int tier, bool deep) {
  Lib<N> lib(K); rsa_private_key<N> prv(mk<N>(K.n), mk<N>(K.d)); c.states(1);
  bool big = K.bits >= minBits(h, pss);
  std::vector<Bytes> ms = {{}, mc::bytes("message"), mc::pattern(4, 200)}; if (deep) { ms.push_back(mc::pattern(0, 64)); ms.push_back(mc::pattern(5, 5000)); ms.push_back(mc::pattern(5, 65537)); for (int i = 0; i < (tier ? 64 : 12); i++) ms.push_back(mc::pattern(4 + i, 1 + i)); }
  if (!big) {
    for (auto& m : ms) { for (int q : {0, 1, 4}) expect(c, lib, h, pss, m, mc::pattern(q, K.k), false, "key too small"); expect(c, lib, h, pss, m, {}, false, "key too small"); bool threw = false; try { Bytes s = libSign<N>(prv, h, pss, m, mc::pattern(4, hl(h))); if (s.empty()) threw = true; } catch (std::exception&) { threw = true; } if (!threw) c.fail("a signature was made with a key too small for the scheme"); c.trans(1); }
    return;
  }
  int idx = 0; Bytes lead0;
  for (auto& m : ms) {
    for (int sp : {0, 1, 4, 100, 101, 102, 103}) {
      if (!pss && sp) continue;
      Bytes salt = sp < 100 ? mc::pattern(sp, hl(h)) : Bytes(hl(h), sp == 100 ? 1 : sp == 101 ? 0 : 0xbc); if (sp == 101) salt.back() = 1; if (sp == 103) { salt[0] = 1; salt[1] = 0; } Bytes em = emOf(K, h, pss, m, salt), want = raw(K, em); c.beat();
      Bytes got = libSign<N>(prv, h, pss, m, salt); c.trans(1); c.trace(1); c.eq(got, want, "signature"); expect(c, lib, h, pss, m, want, true, "own signature"); if (want[0] == 0) lead0 = m;
    }
    idx++;
  }
  Bytes salt = mc::pattern(5, hl(h));
  { Bytes s = raw(K, emOf(K, h, pss, ms[1], salt)); mods(c, lib, K, h, pss, ms[1], s, N, 1); }
  if (deep) {
    // a genuine signature with leading zero byte(s)
    for (int i = 0; i < 3000; i++) { Bytes m = mc::bytes("m" + std::to_string(i)); Bytes s = raw(K, emOf(K, h, pss, m, salt)); c.beat(); if (s[0] == 0) { expect(c, lib, h, pss, m, s, true, "genuine signature with a leading zero byte"); c.eq(libSign<N>(prv, h, pss, m, salt), s, "signature with a leading zero byte"); Bytes t(s.begin() + 1, s.end()); expect(c, lib, h, pss, m, t, false, "leading zero byte dropped"); break; } }
    blocks(c, lib, K, h, pss, ms[1], salt, tier); blocks(c, lib, K, h, pss, {}, mc::pattern(1, hl(h)), false);
    RsaKey K2 = ref::rsaKey(K.bits, 65537, 2, 7); if (!(K2.n == K.n)) { expect(c, lib, h, pss, ms[1], raw(K2, emOf(K2, h, pss, ms[1], salt)), false, "signature by another key"); }
  }
}
template <size_t N> void addKeys(mc::Options& o, int h, bool pss, int tier) {
  size_t lo = minBits(h, pss);
  for (size_t d = 0; d < 28; d++) { size_t b = lo - 9 + d; if (b > N) continue; bool deep = d == 9 || d == 10 || d == 11 || d == 14 || d == 17 || tier;
    for (int kind = 0; kind < 3; kind++) { if (!tier && kind != (int)(d % 3) && !(d == 9 || d == 11)) continue; o.units.push_back({mc::fmt("%s%d/w%zu/b%zu.%d", pss ? "pss" : "pkcs1", h, N, b, kind), [=](Ctx& c) { c.desc("width %zu, %zu-bit modulus kind %d, %s sha%d", N, b, kind, pss ? "pss" : "pkcs1", h); oneKey<N>(c, ref::rsaKey(b, 65537, kind), h, pss, tier, deep); }}); } }
  for (size_t b : {N - 1, N}) o.units.push_back({mc::fmt("%s%d/w%zu/full%zu", pss ? "pss" : "pkcs1", h, N, b), [=](Ctx& c) { c.desc("width %zu, %zu-bit modulus, %s sha%d", N, b, pss ? "pss" : "pkcs1", h); oneKey<N>(c, ref::rsaKey(b, 65537, b & 1), h, pss, tier, true); }});
}
// the interface used by certificates and TLS: 4096-bit containers, run-time scheme
struct Api { RsaPubkey pub; Api(const RsaKey& K) : pub(rsa_public_key<4096>(mk<4096>(K.n), mk<4096>(K.e))) {}
  static int scheme(int h, bool pss, bool alt = false) { int i = h == 256 ? 0 : h == 384 ? 1 : 2; return pss ? (alt ? 0x0809 : 0x0804) + i : 0x0401 + (i << 8); }
  bool val(int h, bool pss, std::span<const uint8_t> m, std::span<const uint8_t> s) const { return pub.validateSignature((Tls13SignatureScheme)scheme(h, pss), m, s); } };
static void api(Ctx& c, size_t bits, int kind, unsigned long e, int tier, bool sgn) {
  RsaKey K = ref::rsaKey(bits, e, kind); Api a(K); RsaPrivateKey prv(rsa_private_key<4096>(mk<4096>(K.n), mk<4096>(K.d))); c.states(1);
  for (bool pss : {false, true}) for (int h : {256, 384, 512}) for (bool alt : {false, true}) {
    if (alt && !pss) continue; Bytes m = mc::bytes("the message"); auto sch = (Tls13SignatureScheme)Api::scheme(h, pss, alt);
    c.desc("%zu-bit key kind %d e=%lu scheme %04x", bits, kind, e, (int)sch);
    bool big = bits >= minBits(h, pss); Bytes salt = mc::pattern(4, hl(h));
    if (!big) { if (a.pub.validateSignature(sch, m, mc::pattern(4, K.k))) c.fail("accepted with a key too small"); continue; }
    Bytes good = raw(K, emOf(K, h, pss, m, salt)); if (!a.pub.validateSignature(sch, m, good)) c.fail("genuine signature rejected"); c.trans(1); c.trace(1);
    if (sgn && (tier || !alt)) { Bytes s = prv.sign(sch, m); c.beat(); c.trans(1); c.trace(1); if (s.size() != K.k) c.fail(mc::fmt("signature of %zu bytes under a %zu-byte modulus", s.size(), K.k)); Z em = ref::zpowm(ref::zbe(s), K.e, K.n); size_t emLen = pss ? (K.bits + 6) / 8 : K.k; if (em.bits() > 8 * emLen) c.fail("signature does not verify"); Bytes eb = ref::zbytes(em, emLen); bool ok = pss ? ref::pssVerify(H(h), m, eb, K.bits - 1, hl(h)) : eb == ref::emPkcs1(H(h), ref::digestInfo(h), m, K.k); if (!ok) c.fail("made signature does not verify under RFC 8017"); if (!a.pub.validateSignature(sch, m, s)) c.fail("made signature rejected by its own public key"); Bytes s2 = prv.sign(sch, m); if (pss && s2 == s) c.fail("PSS salt repeats"); if (!pss && s2 != s) c.fail("PKCS#1 v1.5 is not deterministic"); }
    if (!alt) for (size_t b = 0; b < good.size() * 8; b += (tier ? 5 : 37)) { Bytes s = good; s[b / 8] ^= 0x80 >> b % 8; c.beat(); if (a.pub.validateSignature(sch, m, s)) c.fail("altered signature accepted"); c.trans(1); c.trace(1); }
    for (size_t n : {(size_t)0, (size_t)1, K.k - 1, K.k + 1, (size_t)512, (size_t)513, (size_t)1000}) { if (n == K.k) continue; Bytes s = good; s.resize(n); if (a.pub.validateSignature(sch, m, s)) c.fail("signature of wrong length accepted"); Bytes t(n); for (size_t i = 0; i < std::min(n, good.size()); i++) t[n - 1 - i] = good[good.size() - 1 - i]; c.beat(); if (a.pub.validateSignature(sch, m, t)) c.fail("signature of wrong length (right aligned) accepted"); c.trans(2); c.trace(2); }
    for (bool p2 : {false, true}) for (int h2 : {256, 384, 512}) for (bool alt2 : {false, true}) { if (alt2 && !p2) continue; bool want = p2 == pss && h2 == h; c.beat(); if (a.pub.validateSignature((Tls13SignatureScheme)Api::scheme(h2, p2, alt2), m, good) != want) c.fail(mc::fmt("signature for scheme %04x judged wrongly as scheme %04x", (int)sch, Api::scheme(h2, p2, alt2))); c.trans(1); c.trace(1); }
  }
}
static mc::Options build(int tier) {
  mc::Options o; auto U = [&](std::string n, std::function<void(Ctx&)> f) { o.units.push_back({n, f}); };
  for (int kind = 0; kind < 3; kind++) for (size_t b : {1024, 1031, 1032, 1033, 2047, 2048, 2049, 3072, 4095, 4096}) { bool sg = tier || kind == (int)(b % 3); if (tier || b > 3000 || kind < 2) U(mc::fmt("api/%zu.%d", b, kind), [=](Ctx& c) { api(c, b, kind, 65537, tier, sg); }); }
  for (unsigned long e : {17ul, 257ul, 65539ul}) U(mc::fmt("api-e/%lu", e), [=](Ctx& c) { RsaKey K = ref::rsaKey(1100, e, 2); Api a(K); c.desc("e=%lu", e); Bytes m = mc::bytes("x"); for (bool p : {false, true}) for (int h : {256, 384, 512}) { Bytes g = raw(K, emOf(K, h, p, m, mc::pattern(4, hl(h)))); expect(c, a, h, p, m, g, true, "other exponent"); g[9] ^= 4; expect(c, a, h, p, m, g, false, "other exponent"); } c.states(1); });
  U("schemes", [=](Ctx& c) { RsaKey K = ref::rsaKey(1100, 65537, 2); Api a(K); RsaPrivateKey prv(rsa_private_key<4096>(mk<4096>(K.n), mk<4096>(K.d))); Bytes m = mc::bytes("x"); Bytes g[2] = {raw(K, emOf(K, 256, false, m, {})), raw(K, emOf(K, 256, true, m, mc::pattern(4, 32)))};
    for (int s = -1; s < 0x10000; s++) { std::set<int> p1 = {0x401}, p2 = {0x804, 0x809}; c.at(s + 1); for (int k = 0; k < 2; k++) { bool want = k ? p2.count(s) : p1.count(s); if (a.pub.validateSignature((Tls13SignatureScheme)s, m, g[k]) != want) c.fail(mc::fmt("scheme %04x with a %s SHA-256 signature", s, k ? "PSS" : "PKCS#1")); c.trans(1); c.trace(1); }
      bool sup = (s == 0x401 || s == 0x501 || s == 0x601 || (s >= 0x804 && s <= 0x806) || (s >= 0x809 && s <= 0x80b)); if (!sup) { try { if (!prv.sign((Tls13SignatureScheme)s, m).empty()) c.fail(mc::fmt("unsupported scheme %04x signed", s)); } catch (std::runtime_error&) {} c.trans(1); } c.states(1); } });
  addKeys<640>(o, 256, false, tier); addKeys<768>(o, 384, false, tier); addKeys<896>(o, 512, false, tier);
  addKeys<640>(o, 256, true, tier); addKeys<896>(o, 384, true, tier); addKeys<1152>(o, 512, true, tier);
  U("mgf1", [=](Ctx& c) { for (size_t n = 0; n < 300; n++) for (size_t sl : {0, 1, 32, 64}) { c.at(n, sl); Bytes s = mc::pattern(4, sl); c.eq(MGF1<SHA2<256>>::MGF(s, n), ref::mgf1(H(256), s, n), "MGF1-SHA256"); c.eq(MGF1<SHA2<512>>::MGF(s, n), ref::mgf1(H(512), s, n), "MGF1-SHA512"); c.eq(MGF1<>::MGF(s, n), ref::mgf1(ref::hashdef("sha1"), s, n), "MGF1-SHA1"); c.trans(3); c.trace(3); } c.at(9000); c.eq(MGF1<SHA2<256>>::MGF(mc::pattern(4, 20), 32 * 300), ref::mgf1(H(256), mc::pattern(4, 20), 32 * 300), "long MGF1 (counter carries into the second byte)"); if (tier) { c.at(9001); c.eq(MGF1<SHA2<256>>::MGF(mc::pattern(4, 20), 32 * 66000), ref::mgf1(H(256), mc::pattern(4, 20), 32 * 66000), "long MGF1 (counter carries into the third byte)"); } c.states(300); });
  o.rule = "PKCS#1 v1.5 and PSS with SHA-256/384/512; modulus sizes from 9 bits below the smallest usable one upward through all residues mod 8, plus full width, moduli just above/between/just below powers of two; signing compared byte for byte with GMP + RFC 8017; per key every bit flip, truncation, extension, s+kn, n-s, 0,1,2,n-i, other message/scheme/key; per selected key every byte of the encoded block changed in several bits and re-signed, every PS length, block type, trailer value, DB padding byte, salt length, foreign DigestInfo; run-time scheme interface with 1024..4096-bit keys; all 65536 scheme numbers";
  o.assumptions = {"keys and messages outside the families are extrapolated", "existential forgery (a random altered signature being valid by chance) is ignored: probability about 2^-128 per case", "PSS means the TLS 1.3 parameters: MGF1 with the same hash, salt as long as the digest"};
  o.hang_s = 300;
  return o;
}
#endif
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
