// R03: the RSA message encodings for every provided hash: PKCS#1 v1.5 blocks, MGF1 masks, PSS blocks, and signatures
// made and checked with every pair of hashes.
#include <array>
#include <cstdint>
#include <span>
#include <string>
#include <vector>
#include "caligo/random.h"
#include "caligo/bignum.h"
#include "caligo/rsa.h"
#include "caligo/md5.h"
#include "caligo/sha1.h"
#include "caligo/sha2.h"
#include "caligo/sha3.h"
#include "mc.hpp"
#include "refrsa.hpp"
using mc::Bytes; using mc::Ctx; using namespace Caligo; using ref::Z; using ref::RsaKey;
template <size_t B> bignum<B> mk(const Z& v) { Bytes b = ref::zbytes(v, B / 8); std::reverse(b.begin(), b.end()); return bignum<B>(std::span<const uint8_t>(b)); }
static Bytes pat(size_t n, unsigned k = 0) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 53 + k * 77 + 5 + (i >> 5)); return b; }
// DigestInfo up to the digest (RFC 8017 section 9.2 note 1; NIST CSOR arc for SHA-3), put together from the object identifier
static Bytes digestInfo(const std::string& h, size_t size) {
  Bytes oid; if (h == "md5") oid = {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x02, 0x05}; else if (h == "sha1") oid = {0x2b, 0x0e, 0x03, 0x02, 0x1a};
  else { static const std::map<std::string, int> arc = {{"sha256", 1}, {"sha384", 2}, {"sha512", 3}, {"sha224", 4}, {"sha3-224", 7}, {"sha3-256", 8}, {"sha3-384", 9}, {"sha3-512", 10}}; oid = {0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, (uint8_t)arc.at(h)}; }
  Bytes r = {0x30, (uint8_t)(oid.size() + size + 8), 0x30, (uint8_t)(oid.size() + 4), 0x06, (uint8_t)oid.size()}; r.insert(r.end(), oid.begin(), oid.end()); r.insert(r.end(), {5, 0, 4, (uint8_t)size}); return r;
}
template <class F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }

template <class H> struct Enc {
  const char* name; const ref::HashDef& d; Bytes id;
  Enc(const char* n) : name(n), d(ref::hashdef(n)), id(digestInfo(n, d.size)) {}
  void block(Ctx& c, size_t mlen, size_t from, size_t to) const {
    Bytes m = pat(mlen, 3), dg = d.fn(m);
    for (size_t k = from; k < to; k++) {
      c.beat(); c.states(); c.trans(); c.desc("PKCS1<%s>, message of %zu bytes, block of %zu bytes", name, mlen, k); size_t min = id.size() + dg.size() + 11;
      if (k < min) { c.require(throws([&] { PKCS1<H>(m, k); }), "a block too small for the encoding is refused"); continue; }
      Bytes want = {0, 1}; want.resize(k - id.size() - dg.size() - 1, 0xff); want.push_back(0); want.insert(want.end(), id.begin(), id.end()); want.insert(want.end(), dg.begin(), dg.end());
      c.eq(PKCS1<H>(m, k), want, "encoded block"); c.trace();
    }
  }
  void mask(Ctx& c, size_t seedLen, size_t top, unsigned k = 0) const {
    Bytes s = pat(seedLen, k), all = ref::mgf1(d, s, top);
    for (size_t n = 0; n <= top; n++) { c.beat(); c.states(); c.trans(); c.trace(); c.desc("MGF1<%s>, seed of %zu bytes, %zu bytes", name, seedLen, n); c.eq(MGF1<H>::MGF(s, n), Bytes(all.begin(), all.begin() + n), "mask"); }
  }
  void longMask(Ctx& c, const Bytes& s, size_t blocks, size_t extra) const {   // the mask as a whole, and its last blocks one by one
    size_t n = blocks * d.size + extra; c.desc("MGF1<%s>, seed of %zu bytes, %zu counter values and %zu bytes", name, s.size(), blocks, extra); auto got = MGF1<H>::MGF(s, n); c.states(); c.trans(); c.trace(); c.require(got.size() == n, "length of the mask");
    Bytes in = s; in.resize(s.size() + 4);
    for (size_t i = 0; i * d.size < n; i++) { if (!(i & 1023)) c.beat(); for (int b = 0; b < 4; b++) in[s.size() + b] = (uint8_t)(i >> (24 - 8 * b)); Bytes w = d.fn(in); size_t l = std::min<size_t>(d.size, n - i * d.size); if (memcmp(w.data(), &got[i * d.size], l)) c.fail(mc::fmt("counter %zu: got %s want %s", i, mc::hex(Bytes(got.begin() + i * d.size, got.begin() + i * d.size + l)).c_str(), mc::hex(w).c_str())); }
  }
  void pss(Ctx& c, size_t saltLen, size_t spare) const {
    size_t hl = d.size; Bytes mh = pat(hl, 9), salt = pat(saltLen, 4);
    for (size_t emLen = hl + saltLen + 2; emLen < hl + saltLen + 2 + spare; emLen++) {
      c.beat(); c.states(); c.trans(); c.trace(); c.desc("PSS block <%s>, salt of %zu bytes, %zu bytes", name, saltLen, emLen);
      Bytes mm(8), db(emLen - hl - saltLen - 2); mm.insert(mm.end(), mh.begin(), mh.end()); mm.insert(mm.end(), salt.begin(), salt.end()); Bytes hh = d.fn(mm); db.push_back(1); db.insert(db.end(), salt.begin(), salt.end()); Bytes m = ref::mgf1(d, hh, db.size()); for (size_t i = 0; i < db.size(); i++) db[i] ^= m[i]; Bytes want = db; want.insert(want.end(), hh.begin(), hh.end()); want.push_back(0xbc);
      auto em = generatePssData<H>(mh, salt, emLen); c.eq(em, want, "encoded block before its top bits are cleared");
      if (saltLen == hl) { auto t = getSalt<H, H::hashsize>(em); c.eq(t, salt, "salt read back"); }
    }
  }
};
template <class F> void eachHash(F f) {
  f.template operator()<MD5>("md5"); f.template operator()<SHA1>("sha1"); f.template operator()<SHA2<224>>("sha224"); f.template operator()<SHA2<256>>("sha256"); f.template operator()<SHA2<384>>("sha384"); f.template operator()<SHA2<512>>("sha512");
  f.template operator()<SHA3<224>>("sha3-224"); f.template operator()<SHA3<256>>("sha3-256"); f.template operator()<SHA3<384>>("sha3-384"); f.template operator()<SHA3<512>>("sha3-512");
}
// sign with one hash, check with every hash
template <class H, size_t B> void cross(Ctx& c, const char* name, size_t bits, size_t mlen) {
  RsaKey K = ref::rsaKey(bits, 65537, 2); rsa_private_key<B> k(mk<B>(K.n), mk<B>(K.d)); rsa_public_key<B> p(mk<B>(K.n), mk<B>(K.e)); const auto& d = ref::hashdef(name); Bytes m = pat(mlen, 8), dg = d.fn(m), id = digestInfo(name, d.size), other = pat(mlen + 1, 8), salt = pat(d.size, 6); size_t len = (bits + 7) / 8, emLen = (bits + 6) / 8;
  std::array<uint8_t, H::hashsize> hm; std::copy(dg.begin(), dg.end(), hm.begin());
  for (int pss = 0; pss < 2; pss++) {
    c.desc("%s %s, %zu-bit key in %zu bits, message of %zu bytes", pss ? "PSS" : "PKCS#1", name, bits, B, mlen); bool fits = pss ? emLen >= 2 * d.size + 2 : len >= id.size() + d.size + 11; c.states(); c.trans(); Bytes sig; c.beat();
    bool threw = throws([&] { auto s = pss ? k.template signPssSignature<H, MGF1<H>>(hm, salt) : k.template signPkcs1_5Signature<H>(m); sig.assign(s.begin(), s.end()); }); c.require(threw == !fits, "a signature is made exactly when the key is large enough"); if (!fits) { sig = Bytes(len, 1); }
    else {
      Bytes em = ref::zbytes(ref::zpowm(ref::zbe(sig), K.e, K.n), pss ? emLen : len), want; c.trace();
      if (pss) { ref::PssParts parts = ref::pssParts(d, m, salt, bits - 1); want = ref::pssJoin(d, parts, bits - 1); } else want = ref::emPkcs1(d, id, m, len);
      c.require(sig.size() == len, "length of the signature"); c.eq(em, want, "encoded message inside the signature");
    }
    eachHash([&]<class V>(const char* vn) { bool same = std::string(vn) == name; c.trans(); c.trace(); auto valid = [&](const Bytes& msg) { return pss ? p.template validatePssSignature<V, MGF1<V>>(msg, sig) : p.template validatePkcs1_5Signature<V>(msg, sig); };
      c.equ(valid(m), same && fits, mc::fmt("validation as %s", vn).c_str()); c.equ(valid(other), 0, mc::fmt("validation of another message as %s", vn).c_str()); });
  }
}
static mc::Options build(int tier) {
  mc::Options o; auto U = [&](std::string n, std::function<void(Ctx&)> f) { o.units.push_back({n, f}); };
  eachHash([&]<class H>(const char* n) {
    auto e = std::make_shared<Enc<H>>(n); std::string s = n; size_t hl = H::hashsize;
    for (size_t ml : {0, 1, 63, 64, 200}) U(s + mc::fmt("/block %zu", ml), [=](Ctx& c) { e->block(c, ml, 0, tier ? 4200 : ml == 64 ? 2100 : 600); });
    U(s + "/block huge", [=](Ctx& c) { for (size_t k : {4096, 8192, 16384, 65535, 65536, 65537, 70000}) e->block(c, 17, k, k + 1); });
    for (size_t sl = 0; sl <= (tier ? 300 : 2 * hl + 2); sl += (tier ? 1 : hl > 40 ? 5 : 3)) U(s + mc::fmt("/mask %zu", sl), [=](Ctx& c) { e->mask(c, sl, 5 * hl + 3); e->mask(c, hl, tier ? 3000 : 20 * hl + 1, sl); });
    for (unsigned k = 0; k < 3; k++) U(s + mc::fmt("/mask256 %u", k), [=](Ctx& c) { for (size_t b : {254, 255, 256, 257, 511, 512, 513, 767, 768, 1023, 1024}) for (size_t x : {size_t(0), size_t(1), hl - 1}) e->longMask(c, pat(hl, k), b, x); });
    U(s + "/mask65536", [=](Ctx& c) { e->longMask(c, pat(hl), 65536 + 300, 3); e->longMask(c, Bytes(), 65535, 1); c.sample(s + ": masks over 256 and 65536 counter values"); });
    U(s + "/mask limit", [=](Ctx& c) { c.desc("MGF1<%s> of 2^32 hashes and one byte", n); bool none = true; try { none = MGF1<H>::MGF(pat(3), (size_t)H::hashsize * 0x100000000ull + 1).empty(); } catch (std::exception&) {} c.require(none, "a mask longer than RFC 8017 allows is refused"); c.states(); c.trans(); c.trace(); });
    for (size_t sl : {size_t(0), size_t(1), size_t(16), hl - 1, hl, hl + 1, 2 * hl + 5}) U(s + mc::fmt("/pss %zu", sl), [=](Ctx& c) { e->pss(c, sl, tier ? 1100 : 330); });
    U(s + "/cross", [=](Ctx& c) { for (size_t ml : {0, 40}) { cross<H, 1024>(c, n, 1024, ml); cross<H, 1024>(c, n, 1023, ml); cross<H, 1024>(c, n, 1017, ml); } cross<H, 2048>(c, n, 1537, 13); c.sample(s + ": signed under this hash and checked under all ten"); });
    U(s + "/small keys", [=](Ctx& c) { size_t m1 = 8 * (digestInfo(n, hl).size() + hl + 11), m2 = 8 * (2 * hl + 2); for (size_t b : {m1 - 8, m1 - 7, m1 - 1, m1, m1 + 1, m1 + 8, m2 - 9, m2 - 8, m2 - 7, m2 - 6, m2, m2 + 1, m2 + 2, m2 + 8, m2 + 9}) if (b < 1150) cross<H, 1152>(c, n, b, 5); });
  });
  U("md5/mask16777216", [](Ctx& c) { Enc<MD5> e("md5"); e.longMask(c, pat(5), 0x1000000 + 2, 7); c.sample("md5: a mask over 2^24 counter values"); });
  o.rule = "for each of the ten hashes: PKCS#1 v1.5 blocks of every size from 0 up, MGF1 masks of every length from seeds of every listed length and across the 2^8, 2^16 (and 2^24) counter carries, PSS blocks of every size and salt length listed, keys of every size around the smallest usable one; signatures under each hash checked under all ten; against a model of RFC 8017";
  o.as_limit_mb = 6000; o.hang_s = 240;
  o.assumptions = {"contents of messages, seeds and salts beyond the patterns only pass through the hashes, which H01 and H02 decide", "PSS with a salt as long as the hash, as the library fixes it"};
  return o;
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
