// X02 (GROUP=1: field arithmetic mod 2^255-19), X01 (GROUP=2: X25519)
#include <array>
#include <cstdint>
#include <ostream>
#include <span>
#include <string>
#include <vector>
#include "caligo/random.h"
#include "caligo/bignum.h"
#include "caligo/x25519.h"
#include "mc.hpp"
#include "refrsa.hpp"
using mc::Bytes; using mc::Ctx; using namespace Caligo; using ref::Z;
static Bytes le(const Z& v) { Bytes b = ref::zbytes(v, 32); std::reverse(b.begin(), b.end()); return b; }
static ec_value mk(const Bytes& b) { return ec_value(bignum<256>(std::span<const uint8_t>(b))); }
static ec_value mk(const Z& v) { return mk(le(v)); }
static Z zz(const ec_value& x) { Bytes b = x.as_bytes(); std::reverse(b.begin(), b.end()); return ref::zbe(b); }
static Z P() { static const Z p = ref::zpow2(255) - Z(19ul); return p; }
static Z M256() { static const Z p = ref::zpow2(256); return p; }
static void push(std::vector<Z>& r, const Z& v) { r.push_back(v % M256()); }
static void dedupe(std::vector<Z>& r) { std::sort(r.begin(), r.end(), [](const Z& a, const Z& b) { return a.cmp(b) < 0; }); r.erase(std::unique(r.begin(), r.end()), r.end()); }
// values whose sums, differences and products run through every overflow/borrow path
static std::vector<Z> edges(unsigned long near) {
  std::vector<Z> r; Z two = P() + P();
  for (unsigned long i = 0; i <= near; i++) { Z k(i); push(r, k); push(r, P() + k); push(r, P() - k); push(r, two + k); push(r, two - k); push(r, ref::zpow2(255) + k); push(r, ref::zpow2(255) - k); push(r, M256() - k); push(r, M256() - Z(38ul) - k); push(r, ref::zpow2(254) + k); push(r, ref::zpow2(254) - k); }
  dedupe(r); return r;
}
static std::vector<Z> bitsOf() {
  std::vector<Z> r; for (size_t i = 0; i < 256; i++) { Z b = ref::zpow2(i); push(r, b); push(r, b - Z(1ul)); push(r, M256() - b); push(r, P() + b); push(r, P() - b + M256()); push(r, P() + P() - b + M256()); } dedupe(r); return r;
}
static std::vector<Z> limbs(std::vector<uint64_t> al) {   // every 4-tuple of 64-bit limbs over an alphabet
  std::vector<Z> r; size_t n = al.size(); for (size_t i = 0; i < n * n * n * n; i++) { Bytes b(32); size_t x = i; for (int w = 0; w < 4; w++, x /= n) for (int k = 0; k < 8; k++) b[31 - 8 * w - k] = (uint8_t)(al[x % n] >> 8 * k); r.push_back(ref::zbe(b)); } return r;
}
static std::vector<Z> words(std::vector<uint32_t> al) {   // every 8-tuple of 32-bit words over an alphabet
  std::vector<Z> r; size_t n = al.size(), t = 1; for (int i = 0; i < 8; i++) t *= n; for (size_t i = 0; i < t; i++) { Bytes b(32); size_t x = i; for (int w = 0; w < 8; w++, x /= n) for (int k = 0; k < 4; k++) b[31 - 4 * w - k] = (uint8_t)(al[x % n] >> 8 * k); r.push_back(ref::zbe(b)); } return r;
}

#if GROUP == 1
static const uint32_t KW[] = {0, 1, 2, 3, 19, 37, 38, 39, 121665, 121666, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff};
static void cong(Ctx& c, const char* op, const ec_value& got, const Z& want, const Z& a, const Z& b) {
  Z g = zz(got); c.trace(1);
  if (!(g % P() == want % P())) c.fail(std::string(op) + ": a=" + a.str() + " b=" + b.str() + " got " + g.str() + " want (mod p) " + (want % P()).str());
}
static void pair(Ctx& c, const Z& a, const Z& b, const ec_value& A, const ec_value& B, bool mul) {
  Z ra = a % P(), rb = b % P();
  cong(c, "addition", A + B, ra + rb, a, b); cong(c, "subtraction", A - B, ra + P() - rb, a, b); if (mul) cong(c, "multiplication", A * B, ra * rb, a, b); c.trans(3);
  int o = ra.cmp(rb);
  if ((A == B) != (o == 0)) c.fail("equality: a=" + a.str() + " b=" + b.str()); if ((A != B) != (o != 0)) c.fail("inequality: a=" + a.str() + " b=" + b.str()); if ((A < B) != (o < 0)) c.fail("order: a=" + a.str() + " b=" + b.str()); c.trans(3); c.trace(3);
}
static void allPairs(Ctx& c, const std::vector<Z>& as, const std::vector<Z>& bs, size_t q, size_t Q, bool mul = true) {
  std::vector<ec_value> B; for (auto& b : bs) B.push_back(mk(b));
  for (size_t i = q; i < as.size(); i += Q) { c.at(i); ec_value A = mk(as[i]); for (size_t j = 0; j < bs.size(); j++) { pair(c, as[i], bs[j], A, B[j], mul); } c.states(bs.size()); c.beat(); }
}
static void unary(Ctx& c, const std::vector<Z>& as, size_t q, size_t Q, bool inv) {
  for (size_t i = q; i < as.size(); i += Q) {
    c.at(i); const Z& a = as[i]; ec_value A = mk(a); Z ra = a % P(); c.states(1);
    cong(c, "square", A.square(), ra * ra, a, a); ec_value N = A; N.applyModulus(); Z n = zz(N); if (!(n == ra)) c.fail("canonical reduction of " + a.str() + " gave " + n.str()); if (!(zz(A) == a)) c.fail("operand changed");
    c.trans(2); c.trace(1);
    if (!(A == A) || A != A || A < A) c.fail("comparison with itself: " + a.str()); Z up = a + P(); if (up.cmp(M256()) < 0) { ec_value B = mk(up); if (!(A == B) || A != B || A < B || B < A) c.fail("comparison with another representation: " + a.str()); }
    for (uint32_t k : KW) { cong(c, "word multiplication", A * k, ra * Z(k), a, Z(k)); c.trans(1); }
    if (inv) { Z w; if (mpz_sgn(ra.z)) mpz_invert(w.z, ra.z, P().z); cong(c, "inverse", inverse(A), w, a, a); c.trans(1); }
    for (size_t b = 0; b < 256; b++) if ((bool)A.bit(b) != (bool)mpz_tstbit(a.z, b)) c.fail(mc::fmt("bit %zu of ", b) + a.str());
    ec_value C = A, D = mk(Z(5ul)); ctime_swap(false, C, D); if (!(zz(C) == a) || !(zz(D) == Z(5ul))) c.fail("swap(false) changed its operands"); ctime_swap(true, C, D); if (!(zz(D) == a) || !(zz(C) == Z(5ul))) c.fail("swap(true) did not exchange its operands");
    C = 77u; if (!(zz(C) == Z(77ul))) c.fail("assignment from a word"); 
  }
}
// every history of field operations up to a depth from a small set of start values: the lazily reduced representation is the state
static void chains(Ctx& c, const std::vector<Z>& start, int depth, size_t q, size_t Q) {
  struct S { ec_value v; Z m; };
  std::function<void(const S&, const S&, int)> go = [&](const S& x, const S& y, int d) {
    c.states(1); Z g = zz(x.v); if (!(g % P() == x.m)) c.fail("history of operations: got " + g.str() + " want (mod p) " + x.m.str()); c.trace(1); if (!d) return;
    go({x.v + y.v, (x.m + y.m) % P()}, x, d - 1); go({x.v - y.v, (x.m + P() - y.m) % P()}, x, d - 1); go({y.v - x.v, (y.m + P() - x.m) % P()}, y, d - 1); go({x.v * y.v, (x.m * y.m) % P()}, x, d - 1); go({x.v.square(), (x.m * x.m) % P()}, y, d - 1); go({x.v * 121665u, (x.m * Z(121665ul)) % P()}, y, d - 1); c.trans(6); c.beat();
  };
  size_t n = 0; for (size_t i = 0; i < start.size(); i++) for (size_t j = 0; j < start.size(); j++) { if (n++ % Q != q) continue; c.at(i, j); go({mk(start[i]), start[i] % P()}, {mk(start[j]), start[j] % P()}, depth); }
}
static mc::Options build(int tier) {
  mc::Options o; auto U = [&](std::string n, std::function<void(Ctx&)> f) { o.units.push_back({n, f}); };
  std::vector<uint64_t> L = {0, 1, 38, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffdaull, ~0ull}; if (tier) { L.push_back(0xffffffffull); L.push_back(0xffffffff00000000ull); L.push_back(0x100000000ull); L.push_back(0xffffffffffffffedull); }
  for (int q = 0; q < 32; q++) {
    U(mc::fmt("edge-pairs/%d", q), [=](Ctx& c) { auto e = edges(tier ? 120 : 45); allPairs(c, e, e, q, 32); });
    U(mc::fmt("bit-pairs/%d", q), [=](Ctx& c) { auto b = bitsOf(); allPairs(c, b, b, q, 32); });
    U(mc::fmt("edge-bit-pairs/%d", q), [=](Ctx& c) { auto e = edges(45), b = bitsOf(); allPairs(c, e, b, q, 32); allPairs(c, b, e, q, 32); });
    U(mc::fmt("limb-pairs/%d", q), [=](Ctx& c) { auto l = limbs(L); auto m = limbs(tier ? std::vector<uint64_t>{0, 1, 0x7fffffffffffffffull, 0xffffffffffffffdaull, ~0ull, 38} : std::vector<uint64_t>{0, 0x7fffffffffffffffull, 0xffffffffffffffdaull, ~0ull}); allPairs(c, l, m, q, 32); allPairs(c, m, l, q, 32); });
    U(mc::fmt("limb-edge/%d", q), [=](Ctx& c) { auto l = limbs(L), e = edges(20); allPairs(c, l, e, q, 32); });
    U(mc::fmt("unary/%d", q), [=](Ctx& c) { unary(c, edges(600), q, 32, true); unary(c, bitsOf(), q, 32, true); unary(c, limbs(L), q, 32, true); unary(c, words(tier ? std::vector<uint32_t>{0, 1, 0x7fffffff, 0xffffffed, 0xffffffffu} : std::vector<uint32_t>{0, 1, 0x7fffffff, 0xffffffffu}), q, 32, false); });
    U(mc::fmt("chains/%d", q), [=](Ctx& c) { auto e = edges(tier ? 3 : 1); chains(c, e, tier ? 5 : 4, q, 32); });
  }
  o.rule = "operands: every value within 45 (120) of 0, 2^254, 2^255, p, 2p and 2^256; every 2^i, 2^i-1, 2^256-2^i, p+2^i, p-2^i, 2p-2^i; every 4-limb combination over 7 (11) boundary limbs; every 8-word combination over 4 (5) words (unary); all ordered pairs for + - * == != <; square, word multiplication by 16 words, inverse, canonical reduction, swap, bit access on each; every history of 4 (5) field operations from pairs of edge values";
  o.assumptions = {"operands outside the families are extrapolated: they cover every combination of carry, fold and borrow", "GMP is the reference"};
  return o;
}
#endif

#if GROUP == 2
static Z refX(Bytes k, Bytes u) {   // RFC 7748 section 5 on plain residues
  k[0] &= 248; k[31] &= 127; k[31] |= 64; u[31] &= 127; std::reverse(u.begin(), u.end()); Z x1 = ref::zbe(u) % P(), x2(1ul), z2(0ul), x3 = x1, z3(1ul), p = P(); const Z a24(121665ul); bool sw = false;
  for (int t = 254; t >= 0; t--) {
    bool kt = k[t / 8] >> t % 8 & 1; if (sw != kt) { std::swap(x2, x3); std::swap(z2, z3); } sw = kt;
    Z A = x2 + z2, AA = A * A % p, B = x2 - z2, BB = B * B % p, E = AA - BB, C = x3 + z3, D = x3 - z3, DA = D * A % p, CB = C * B % p;
    Z s = DA + CB, d = DA - CB; x3 = s * s % p; z3 = x1 * (d * d % p) % p; x2 = AA * BB % p; z2 = E * (AA + a24 * E % p) % p;
  }
  if (sw) { std::swap(x2, x3); std::swap(z2, z3); } Z inv; if (mpz_sgn(z2.z)) mpz_invert(inv.z, z2.z, p.z); return x2 * inv % p;
}
static Bytes lib(const Bytes& k, const Bytes& u) { return X25519(mk(k), mk(u)).as_bytes(); }
static void one(Ctx& c, const Bytes& k, const Bytes& u) {
  c.beat(); Bytes g = lib(k, u), w = le(refX(k, u)); c.trans(1); c.trace(1);
  if (g != w) c.fail("X25519(k=" + mc::hex(k) + ", u=" + mc::hex(u) + ") = " + mc::hex(g) + " want " + mc::hex(w));
}
static Bytes b9() { Bytes b(32); b[0] = 9; return b; }
static std::vector<Bytes> low() {   // all encodings of the points of small order
  std::vector<Z> r = {Z(0ul), Z(1ul), P() - Z(1ul), P(), P() + Z(1ul)}; Z a, b; mpz_set_str(a.z, "325606250916557431795983626356110631294008115727848805560023387167927233504", 10); mpz_set_str(b.z, "39382357235489614581723060781553021112529911719440698176882885853963445705823", 10); r.push_back(a); r.push_back(b);
  size_t n = r.size(); for (size_t i = 0; i < n; i++) { Z s = r[i] + P(); if (s.cmp(ref::zpow2(255)) < 0) r.push_back(s); } n = r.size(); for (size_t i = 0; i < n; i++) r.push_back(r[i] + ref::zpow2(255)); dedupe(r); std::vector<Bytes> o; for (auto& x : r) o.push_back(le(x)); return o;
}
static std::vector<Bytes> scalars() { std::vector<Z> r; for (size_t i = 0; i < 256; i++) { push(r, ref::zpow2(i)); push(r, ref::zpow2(i) - Z(1ul)); push(r, M256() - ref::zpow2(i)); push(r, M256() - Z(1ul) - ref::zpow2(i)); } dedupe(r); std::vector<Bytes> o; for (auto& x : r) o.push_back(le(x)); return o; }
static mc::Options build(int tier) {
  mc::Options o; auto U = [&](std::string n, std::function<void(Ctx&)> f) { o.units.push_back({n, f}); };
  for (int q = 0; q < 32; q++) {
    U(mc::fmt("scalars/%d", q), [=](Ctx& c) { auto s = scalars(); std::vector<Bytes> us = {b9(), mc::pattern(4, 32), le(P() - Z(2ul)), Bytes(32, 0xff)}; for (size_t i = q; i < s.size(); i += 32) for (size_t j = 0; j < us.size(); j++) { c.at(i, j); one(c, s[i], us[j]); c.states(1); } });
    U(mc::fmt("two-bit-scalars/%d", q), [=](Ctx& c) { int n = 0; for (int a = 0; a < 256; a++) for (int b = 0; b < a; b++) { if (n++ % 32 != q) continue; if (!tier && (a % 3 || b % 2)) continue; c.at(a, b); Bytes k(32); k[a / 8] |= 1 << a % 8; k[b / 8] |= 1 << b % 8; one(c, k, b9()); c.states(1); } });
    U(mc::fmt("u-values/%d", q), [=](Ctx& c) { std::vector<Z> r = edges(tier ? 64 : 24), b = bitsOf(); r.insert(r.end(), b.begin(), b.end()); Bytes k1(32, 0), k2(32, 0xff), k3 = mc::pattern(4, 32); for (size_t i = q; i < r.size(); i += 32) { c.at(i); one(c, k1, le(r[i])); one(c, k2, le(r[i])); one(c, k3, le(r[i])); c.states(1); } });
    U(mc::fmt("bytes/%d", q), [=](Ctx& c) { Bytes k0 = mc::pattern(4, 32), u0 = mc::pattern(3, 32); for (int pos = 0; pos < 32; pos++) for (int v = q; v < 256; v += 32 * (tier ? 1 : 2)) { c.at(pos, v); Bytes k = k0; k[pos] = v; one(c, k, u0); Bytes u = u0; u[pos] = v; one(c, k0, u); c.states(2); } });
    U(mc::fmt("low-order/%d", q), [=](Ctx& c) { auto l = low(); auto s = scalars(); for (size_t i = q; i < s.size(); i += 32 * (tier ? 1 : 4)) for (auto& u : l) { c.at(i); Bytes g = lib(s[i], u); c.beat(); c.trans(1); c.trace(1); if (g != Bytes(32)) c.fail("point of small order u=" + mc::hex(u) + " with k=" + mc::hex(s[i]) + " gave " + mc::hex(g)); c.states(1); } });
    U(mc::fmt("top-bits/%d", q), [=](Ctx& c) { for (int n = q; n < (tier ? 1024 : 256); n += 32) { c.at(n); Bytes k = mc::pattern(4, 32), u(32); for (int i = 0; i < 32; i++) { k[i] ^= n * 31 + i; u[i] = (n * 17) ^ (i * 29); } u[31] &= 127; Bytes v = u; v[31] |= 128; Bytes r = lib(k, u); if (lib(k, v) != r) c.fail("the top bit of u changes the result: k=" + mc::hex(k) + " u=" + mc::hex(u)); Bytes k2 = k; k2[0] ^= 7; k2[31] ^= 128; k2[31] |= 64; Bytes k3 = k; k3[31] &= ~64; if (lib(k2, u) != r || lib(k3, u) != r) c.fail("clamped bits of the scalar change the result"); c.trans(4); c.trace(4); c.states(1); } });
    U(mc::fmt("agreement/%d", q), [=](Ctx& c) { auto s = scalars(); size_t st = tier ? 8 : 24; std::vector<Bytes> ks; for (size_t i = 0; i < s.size(); i += st) ks.push_back(s[i]); for (size_t i = q; i < ks.size(); i += 32) { Bytes A = lib(ks[i], b9()); for (size_t j = 0; j <= i; j++) { c.at(i, j); Bytes B = lib(ks[j], b9()); Bytes x = lib(ks[i], B), y = lib(ks[j], A); c.trans(3); c.trace(1); c.states(1); if (x != y) c.fail("the two sides disagree: a=" + mc::hex(ks[i]) + " b=" + mc::hex(ks[j]) + " got " + mc::hex(x) + " and " + mc::hex(y)); } } });
  }
  for (int q = 0; q < 16; q++) U(mc::fmt("iterated/%d", q), [=](Ctx& c) { Bytes k = b9(), u = b9(); k[1] = q; for (int n = 0; n < (tier ? 20000 : 1000); n++) { c.at(n); Bytes g = lib(k, u); Bytes w = le(refX(k, u)); if (g != w) c.fail("iterated: k=" + mc::hex(k) + " u=" + mc::hex(u) + " got " + mc::hex(g) + " want " + mc::hex(w)); u = k; k = g; c.trans(1); c.trace(1); c.states(1); } });
  o.rule = "scalars: every 2^i, 2^i-1, 2^256-2^i, complement of a bit, two-bit scalars (all; a sixth in the quick tier), every byte value in every position (half in quick); u: every value within 24 (64) of 0, 2^254, 2^255, p, 2p, 2^256 and the bit families, every byte value in every position; every encoding of the small-order points; top-bit and clamping invariance; agreement for all pairs of a scalar subset; RFC 7748 iteration from 16 starts";
  o.assumptions = {"scalars and points outside the families are extrapolated; the field operations themselves are decided by X02", "GMP is the reference"};
  return o;
}
#endif
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
