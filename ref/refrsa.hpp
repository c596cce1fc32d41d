// RSA reference on GMP: keys, raw operation, RFC 8017 encodings
#pragma once
#include <gmp.h>
#include <string>
#include <vector>
#include <cstdint>
#include <stdexcept>
#include "refhash.hpp"
namespace ref {
struct Z {
  mpz_t z;
  Z() { mpz_init(z); } Z(unsigned long v) { mpz_init_set_ui(z, v); } Z(const Z& o) { mpz_init_set(z, o.z); } Z& operator=(const Z& o) { mpz_set(z, o.z); return *this; } ~Z() { mpz_clear(z); }
  friend Z operator+(const Z& a, const Z& b) { Z r; mpz_add(r.z, a.z, b.z); return r; }
  friend Z operator-(const Z& a, const Z& b) { Z r; mpz_sub(r.z, a.z, b.z); return r; }
  friend Z operator*(const Z& a, const Z& b) { Z r; mpz_mul(r.z, a.z, b.z); return r; }
  friend Z operator%(const Z& a, const Z& b) { Z r; mpz_mod(r.z, a.z, b.z); return r; }
  int cmp(const Z& o) const { return mpz_cmp(z, o.z); }
  bool operator==(const Z& o) const { return cmp(o) == 0; }
  size_t bits() const { return mpz_sgn(z) ? mpz_sizeinbase(z, 2) : 0; }
  std::string str() const { char* s = mpz_get_str(nullptr, 16, z); std::string r = s; free(s); return r; }
};
inline Z zpow2(size_t k) { Z r; mpz_setbit(r.z, k); return r; }
inline Z zpowm(const Z& b, const Z& e, const Z& m) { Z r; mpz_powm(r.z, b.z, e.z, m.z); return r; }
inline Z zbe(const std::vector<uint8_t>& b) { Z r; if (b.size()) mpz_import(r.z, b.size(), 1, 1, 0, 0, b.data()); return r; }
inline std::vector<uint8_t> zbytes(const Z& v, size_t n) {   // big endian, exactly n bytes
  std::vector<uint8_t> b(n); size_t need = (v.bits() + 7) / 8; if (need > n) throw std::runtime_error("value too long for its field");
  size_t c; if (need) mpz_export(b.data() + n - need, &c, 1, 1, 0, 0, v.z); return b;
}
inline Z znext(const Z& v) { Z r; mpz_nextprime(r.z, v.z); return r; }
struct RsaKey { Z n, e, d, p, q; size_t bits, k; };
// a key of exactly `bits` bits; kind 0: modulus just above 2^(bits-1), 1: just below 2^bits, 2: in between
inline RsaKey rsaKey(size_t bits, unsigned long e, int kind, int salt = 0) {
  RsaKey K; K.e = Z(e); K.bits = bits; K.k = (bits + 7) / 8;
  size_t pb = bits / 2; Z target = kind == 0 ? zpow2(bits - 1) + zpow2(bits / 2 - 2) : kind == 1 ? zpow2(bits) - zpow2(bits - 20 > bits / 2 + 4 ? bits - 20 : bits / 2 + 4) : zpow2(bits - 1) + zpow2(bits - 3) + zpow2(bits - 6);
  Z start = zpow2(pb - 1); uint64_t x = 88172645463325252ull + salt * 7919 + bits * 31 + kind; for (size_t i = 0; i + 1 < pb; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; if (x >> 40 & 1) mpz_setbit(start.z, i); } if (pb > 2) mpz_setbit(start.z, pb - 2);
  for (K.p = znext(start);; K.p = znext(K.p)) {
    Z q0; mpz_tdiv_q(q0.z, target.z, K.p.z); K.q = znext(q0); if (K.q == K.p) continue;
    K.n = K.p * K.q; if (K.n.bits() != bits) continue;
    Z phi = (K.p - Z(1ul)) * (K.q - Z(1ul)), g; mpz_gcd(g.z, phi.z, K.e.z); if (!(g == Z(1ul))) continue;
    mpz_invert(K.d.z, K.e.z, phi.z); return K;
  }
}
inline std::vector<uint8_t> emPkcs1(const HashDef& h, const std::vector<uint8_t>& prefix, const std::vector<uint8_t>& msg, size_t k) {
  auto dg = h.fn(msg); std::vector<uint8_t> em = {0, 1}; em.resize(k - prefix.size() - dg.size() - 1, 0xff); em.push_back(0); em.insert(em.end(), prefix.begin(), prefix.end()); em.insert(em.end(), dg.begin(), dg.end()); return em;
}
inline std::vector<uint8_t> mgf1(const HashDef& h, const std::vector<uint8_t>& seed, size_t n) {
  std::vector<uint8_t> t; for (uint32_t c = 0; t.size() < n; c++) { auto s = seed; for (int i = 3; i >= 0; i--) s.push_back((uint8_t)(c >> 8 * i)); auto d = h.fn(s); t.insert(t.end(), d.begin(), d.end()); } t.resize(n); return t;
}
struct PssParts { std::vector<uint8_t> db, H; uint8_t trailer = 0xbc; };
inline PssParts pssParts(const HashDef& h, const std::vector<uint8_t>& msg, const std::vector<uint8_t>& salt, size_t emBits) {
  size_t emLen = (emBits + 7) / 8; PssParts p; auto mh = h.fn(msg); std::vector<uint8_t> m(8); m.insert(m.end(), mh.begin(), mh.end()); m.insert(m.end(), salt.begin(), salt.end()); p.H = h.fn(m);
  if (emLen < p.H.size() + salt.size() + 2) throw std::runtime_error("PSS: key too small");
  p.db.assign(emLen - p.H.size() - salt.size() - 2, 0); p.db.push_back(1); p.db.insert(p.db.end(), salt.begin(), salt.end()); return p;
}
inline std::vector<uint8_t> pssJoin(const HashDef& h, const PssParts& p, size_t emBits, bool maskTop = true) {
  size_t emLen = (emBits + 7) / 8; auto m = mgf1(h, p.H, p.db.size()); std::vector<uint8_t> em(p.db.size()); for (size_t i = 0; i < em.size(); i++) em[i] = p.db[i] ^ m[i];
  if (maskTop) em[0] &= 0xff >> (8 * emLen - emBits); em.insert(em.end(), p.H.begin(), p.H.end()); em.push_back(p.trailer); return em;
}
inline bool pssVerify(const HashDef& h, const std::vector<uint8_t>& msg, const std::vector<uint8_t>& em, size_t emBits, size_t sLen) {
  size_t hl = h.fn({}).size(), emLen = (emBits + 7) / 8; if (em.size() != emLen || emLen < hl + sLen + 2 || em.back() != 0xbc) return false;
  if (em[0] & ~(0xff >> (8 * emLen - emBits))) return false;
  std::vector<uint8_t> H(em.end() - 1 - hl, em.end() - 1), db(em.begin(), em.end() - 1 - hl); auto m = mgf1(h, H, db.size()); for (size_t i = 0; i < db.size(); i++) db[i] ^= m[i]; db[0] &= 0xff >> (8 * emLen - emBits);
  for (size_t i = 0; i + sLen + 1 < db.size(); i++) if (db[i]) return false; if (db[db.size() - sLen - 1] != 1) return false;
  std::vector<uint8_t> salt(db.end() - sLen, db.end()), mm(8); auto mh = h.fn(msg); mm.insert(mm.end(), mh.begin(), mh.end()); mm.insert(mm.end(), salt.begin(), salt.end()); return h.fn(mm) == H;
}
inline std::vector<uint8_t> digestInfo(int bits) {
  switch (bits) {
    case 256: return {0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01, 0x05, 0x00, 0x04, 0x20};
    case 384: return {0x30, 0x41, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x02, 0x05, 0x00, 0x04, 0x30};
    default: return {0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03, 0x05, 0x00, 0x04, 0x40};
  }
}
}  // namespace ref
