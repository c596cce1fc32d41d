// N01 (GROUP=1: integers), N02 (2: reduction and Montgomery), N03 (3: primes)
#include <array>
#include <cstdint>
#include <span>
#include <string>
#include <vector>
#include <gmp.h>
#include "caligo/random.h"
#include "caligo/bignum.h"
#include "caligo/random_prime.h"
#include "mc.hpp"
using mc::Bytes; using mc::Ctx; using namespace Caligo;
using Words = std::vector<uint32_t>;   // little endian words, the mathematical value

// ---- GMP wrapper
struct Z {
  mpz_t z;
  Z() { mpz_init(z); } Z(unsigned long v) { mpz_init_set_ui(z, v); } Z(const Z& o) { mpz_init_set(z, o.z); } Z& operator=(const Z& o) { mpz_set(z, o.z); return *this; } ~Z() { mpz_clear(z); }
  Z(const Words& w) { mpz_init(z); if (w.size()) mpz_import(z, w.size(), -1, 4, 0, 0, w.data()); }
  friend Z operator+(const Z& a, const Z& b) { Z r; mpz_add(r.z, a.z, b.z); return r; }
  friend Z operator-(const Z& a, const Z& b) { Z r; mpz_sub(r.z, a.z, b.z); return r; }
  friend Z operator*(const Z& a, const Z& b) { Z r; mpz_mul(r.z, a.z, b.z); return r; }
  friend Z operator%(const Z& a, const Z& b) { Z r; mpz_mod(r.z, a.z, b.z); return r; }
  int cmp(const Z& o) const { return mpz_cmp(z, o.z); }
  bool operator==(const Z& o) const { return cmp(o) == 0; }
  std::string str() const { char* s = mpz_get_str(nullptr, 16, z); std::string r = s; free(s); return r; }
};
static Z pow2(size_t k) { Z r; mpz_setbit(r.z, k); return r; }
static Z powm(const Z& b, const Z& e, const Z& m) { Z r; mpz_powm(r.z, b.z, e.z, m.z); return r; }
static Words words(const Z& v, size_t n) { Words w(n + 1); size_t c = 0; if (mpz_sgn(v.z)) { if (mpz_sizeinbase(v.z, 2) > 32 * n) { Z t; mpz_tdiv_r_2exp(t.z, v.z, 32 * n); if (mpz_sgn(t.z)) mpz_export(w.data(), &c, -1, 4, 0, 0, t.z); } else mpz_export(w.data(), &c, -1, 4, 0, 0, v.z); } w.resize(n); return w; }
template <size_t B> bignum<B> mk(const Words& w) { bignum<B> r(0u); for (size_t i = 0; i < B / 32; i++) r[i] = i < w.size() ? w[i] : 0; return r; }
template <size_t B> bignum<B> mkz(const Z& v) { return mk<B>(words(v, B / 32)); }
template <size_t B> Words wd(const bignum<B>& x) { Words w; for (size_t i = 0; i < (B + 31) / 32; i++) w.push_back(x[i]); return w; }
template <size_t B> Z zz(const bignum<B>& x) { return Z(wd(x)); }
static std::string hx(const Words& w) { std::string s; for (size_t i = w.size(); i-- > 0;) s += mc::fmt("%08x", w[i]); return s.size() > 300 ? s.substr(0, 300) + "..." : s; }
static void same(Ctx& c, const Words& got, const Words& want, const char* what, const Words& a, const Words& b) {
  if (got != want) c.fail(std::string(what) + ": a=" + hx(a) + " b=" + hx(b) + " got " + hx(got) + " want " + hx(want));
}
static void truth(Ctx& c, bool got, bool want, const char* what, const Words& a, const Words& b) { if (got != want) c.fail(std::string(what) + ": a=" + hx(a) + " b=" + hx(b) + " got " + std::to_string(got)); }
// word-level model of +, - (independent of GMP, used where speed matters), and product by columns
static uint32_t mAdd(const Words& a, const Words& b, Words& r) { r.resize(a.size()); unsigned __int128 t = 0; for (size_t i = 0; i < a.size(); i++) { t += a[i]; t += b[i]; r[i] = (uint32_t)t; t >>= 32; } return (uint32_t)t; }
static uint32_t mSub(const Words& a, const Words& b, Words& r) { r.resize(a.size()); int64_t bo = 0; for (size_t i = 0; i < a.size(); i++) { int64_t t = (int64_t)a[i] - (int64_t)b[i] - bo; bo = t < 0; r[i] = (uint32_t)t; } return (uint32_t)bo; }
static Words mMul(const Words& a, const Words& b) { Words r(a.size() + b.size()); unsigned __int128 t = 0; for (size_t k = 0; k + 1 < r.size(); k++) { unsigned __int128 s = t; for (size_t i = k >= b.size() ? k - b.size() + 1 : 0; i <= k && i < a.size(); i++) s += (uint64_t)a[i] * b[k - i]; r[k] = (uint32_t)s; t = s >> 32; } r[r.size() - 1] = (uint32_t)t; return r; }

static const uint32_t kW7[7] = {0, 0xffffffffu, 1, 0x80000000u, 0x7fffffffu, 0xfffffffeu, 2};
// ---- operand families: all words from an alphabet
static std::vector<Words> allWords(size_t n, int alpha) {
  std::vector<Words> r; Words w(n);
  std::function<void(size_t)> go = [&](size_t i) { if (i == n) { r.push_back(w); return; } for (int k = 0; k < alpha; k++) { w[i] = kW7[k]; go(i + 1); } };
  go(0); return r;
}
// powers of two and neighbours, single deviating word in uniform bases
static std::vector<Words> family(size_t n, int density) {   // density 0 sparse .. 2 dense
  std::vector<Words> r; std::set<Words> seen; auto add = [&](const Words& w) { if (seen.insert(w).second) r.push_back(w); };
  Words zero(n), ones(n, 0xffffffffu), lcg(n), alt(n);
  uint32_t x = 12345; for (auto& w : lcg) { x = x * 1664525 + 1013904223; w = x; } for (size_t i = 0; i < n; i++) alt[i] = i & 1 ? 0xffffffffu : 0;
  add(zero); add(ones); add(lcg); add(alt); for (auto& w : alt) w = ~w; add(alt); { Words t(n, 0x80000000u); add(t); Words u(n, 0x00010001u); add(u); Words q(n, 0xfffffffeu); add(q); }
  size_t step = density == 2 ? 1 : density == 1 ? 8 : 32;
  size_t nb = 32 * n;
  for (size_t k = 0; k < nb; k++) if (k % step == 0 || k % 32 == 31 || k % 32 == 0 || k == nb - 1) {
    if (density == 0 && n > 32 && k / 32 % (n / 16) && k / 32 + 1 < n) continue;
    Words w = zero; w[k / 32] = 1u << k % 32; add(w);                                        // 2^k
    Words m = zero; for (size_t i = 0; i < k / 32; i++) m[i] = 0xffffffffu; m[k / 32] = (1u << k % 32) - 1; add(m);  // 2^k - 1
    Words p = w; if (p[0] != 0xffffffffu) p[0] |= 1; add(p);                                 // 2^k + 1
    Words h = m; for (auto& v : h) v = ~v; add(h);                                           // 2^n - 2^k
  }
  for (size_t i = 0; i < n; i++) { if (density == 0 && n > 32 && i % (n / 16) && i + 1 < n) continue; for (int b = 0; b < 3; b++) for (int k = 0; k < (density ? 7 : 4); k++) { Words w = b == 0 ? zero : b == 1 ? ones : lcg; w[i] = kW7[k]; add(w); } }
  return r;
}

#if GROUP == 1
template <size_t B> void pair1(Ctx& c, const Words& a, const Words& b, bool viaGmp) {
  auto A = mk<B>(a), Bv = mk<B>(b); Words r; const size_t n = B / 32;
  { auto s = A + Bv; uint32_t cy = mAdd(a, b, r); same(c, wd(s.second), r, "sum", a, b); truth(c, s.first, cy, "carry", a, b); auto t = A; bool c2 = t.add(mk<B>(b).v); same(c, wd(t), r, "in-place sum", a, b); truth(c, c2, cy, "in-place carry", a, b); }
  { auto s = A - Bv; uint32_t bo = mSub(a, b, r); same(c, wd(s.second), r, "difference", a, b); truth(c, s.first, bo, "borrow", a, b); auto t = A; bool c2 = t.sub(mk<B>(b).v); same(c, wd(t), r, "in-place difference", a, b); truth(c, c2, bo, "in-place borrow", a, b); truth(c, A < Bv, bo, "less than", a, b); }
  { auto p = A * Bv; Words want = viaGmp ? words(Z(a) * Z(b), 2 * n) : mMul(a, b); same(c, wd(p), want, "product", a, b); }
  truth(c, A == Bv, a == b, "equality", a, b);
  { Words x(n), y(n); for (size_t i = 0; i < n; i++) { x[i] = a[i] ^ b[i]; y[i] = a[i] & b[i]; } same(c, wd(A ^ Bv), x, "xor", a, b); auto t = A; t ^= Bv; same(c, wd(t), x, "in-place xor", a, b); t = A; t &= Bv; same(c, wd(t), y, "and", a, b); }
  for (int d = 0; d < 2; d++) { auto s = A, t = Bv; ctime_swap(d, s, t); same(c, wd(s), d ? b : a, "swap first", a, b); same(c, wd(t), d ? a : b, "swap second", a, b); }
  same(c, wd(A), a, "left operand unchanged", a, b); same(c, wd(Bv), b, "right operand unchanged", a, b);
  c.trans(13); c.trace(13); c.states(1);
}
template <size_t K, size_t B> void conv(Ctx& c, const Words& a) {
  Words w = a; w.resize(K / 32); bignum<K> x = mk<B>(a); same(c, wd(x), w, "conversion to another width", a, {}); c.trans(1); c.trace(1);
}
template <size_t K, size_t B> void slices(Ctx& c, const Words& a) {
  if constexpr (K <= B) for (size_t s = 0; s + K / 32 <= B / 32; s++) { auto A = mk<B>(a); Words w(a.begin() + s, a.begin() + s + K / 32); same(c, wd(A.template slice<K>(s * 32)), w, "slice", a, {(uint32_t)s}); c.trans(1); c.trace(1); }
}
template <size_t B> void val1(Ctx& c, const Words& a) {
  const size_t n = B / 32; auto A = mk<B>(a);
  same(c, wd(A.square()), mMul(a, a), "square", a, a);
  { auto t = A; bool cy = t.add(t.v); Words r; uint32_t w = mAdd(a, a, r); same(c, wd(t), r, "self addition", a, a); truth(c, cy, w, "self addition carry", a, a); t = A; cy = t.sub(t.v); same(c, wd(t), Words(n), "self subtraction", a, a); truth(c, cy, false, "self borrow", a, a); }
  { auto s = A; ctime_swap(true, s, s); (void)s; }
  for (uint32_t k : {0u, 1u, 2u, 3u, 0xffffu, 0x10000u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu}) { same(c, wd(A * k), mMul(a, {k}), "product with a word", a, {k}); Words kw(n); kw[0] = k; truth(c, A == bignum<B>(k), a == kw, "equality with a word", a, kw); Words r; truth(c, A < bignum<B>(k), mSub(a, kw, r), "less than a word", a, kw); auto t = A; t = k; same(c, wd(t), kw, "assignment of a word", a, kw); }
  { auto t = A; t.shr1(); Words w(n); for (size_t i = 0; i < n; i++) w[i] = a[i] >> 1 | (i + 1 < n ? a[i + 1] << 31 : 0); same(c, wd(t), w, "shift right by one", a, {}); }
  for (size_t s = 0; s <= n; s++) { auto t = A; t.shl_word(s); Words w(n); for (size_t i = s; i < n; i++) w[i] = a[i - s]; same(c, wd(t), w, "shift left by words", a, {(uint32_t)s}); }
  size_t step = B > 1024 ? 7 : 1;
  for (size_t k = 0; k < B; k += step) {
    truth(c, A.bit(k), a[k / 32] >> k % 32 & 1, "bit", a, {(uint32_t)k});
    auto t = A; t.set_bit(k); Words w = a; w[k / 32] |= 1u << k % 32; same(c, wd(t), w, "set bit", a, {(uint32_t)k});
    t = A; t.clear_bit(k); w[k / 32] &= ~(1u << k % 32); same(c, wd(t), w, "clear bit", a, {(uint32_t)k}); c.trans(3);
  }
  { auto t = A; t.neg(); Words w = a; for (auto& x : w) x = ~x; same(c, wd(t), w, "complement", a, {}); }
  Bytes by; for (uint32_t w : a) for (int i = 0; i < 4; i++) by.push_back((uint8_t)(w >> 8 * i));
  { auto g = A.as_bytes(); c.eq(g, by, "as_bytes"); }
  for (size_t len = 0; len <= by.size() + 5; len += (B > 512 && len + 9 < by.size() && len > 8 ? 5 : 1)) { Bytes in = by; in.resize(len, 0xa5); bignum<B> t{std::span<const uint8_t>(in)}; Words w(n); for (size_t i = 0; i < len && i < 4 * n; i++) w[i / 4] |= (uint32_t)in[i] << 8 * (i % 4); same(c, wd(t), w, "from bytes", a, {(uint32_t)len}); c.trans(1); }
  { Words be(a.rbegin(), a.rend()); bignum<B> t{std::span<const uint32_t>(be)}; same(c, wd(t), a, "from words", a, {}); }
  { std::string s; for (size_t i = n; i-- > 0;) s += mc::fmt(i ? "%08X " : "%08X", a[i]); c.eqs(to_string(A), s, "text"); }
  conv<32, B>(c, a); conv<64, B>(c, a); conv<96, B>(c, a); conv<160, B>(c, a); conv<256, B>(c, a); conv<B, B>(c, a); conv<B + 32, B>(c, a); conv<2 * B, B>(c, a); conv<4096, B>(c, a); if constexpr (B > 32) conv<B - 32, B>(c, a);
  slices<32, B>(c, a); slices<64, B>(c, a); slices<96, B>(c, a); slices<B, B>(c, a); if constexpr (B >= 64) slices<B / 64 * 32, B>(c, a);
  same(c, wd(A), a, "operand unchanged", a, {});
  c.trans(40); c.trace(40); c.states(1);
}
template <size_t B> void init1(Ctx& c) {   // initializer lists, most significant word first, of every length up to 4
  for (size_t k = 1; k <= std::min<size_t>(4, B / 32); k++) {
    Words w(B / 32); for (size_t i = 0; i < k; i++) w[i] = 0xabc00000u + (uint32_t)i;
    bignum<B> t = k == 1 ? bignum<B>{std::initializer_list<uint32_t>{w[0]}} : k == 2 ? bignum<B>{std::initializer_list<uint32_t>{w[1], w[0]}} : k == 3 ? bignum<B>{std::initializer_list<uint32_t>{w[2], w[1], w[0]}} : bignum<B>{std::initializer_list<uint32_t>{w[3], w[2], w[1], w[0]}};
    same(c, wd(t), w, "from word list", w, {}); c.trans(1); c.trace(1);
  }
  bignum<B> z; same(c, wd(z), Words(B / 32), "default is zero", {}, {});
  c.states(1);
}
template <size_t B> void addWidth(mc::Options& o, const std::vector<Words>* fam, int chunks, bool gmp) {
  o.units.push_back({mc::fmt("init/%zu", B), [](Ctx& c) { init1<B>(c); }});
  for (int p = 0; p < chunks; p++) o.units.push_back({mc::fmt("w%zu/%d", B, p), [=](Ctx& c) {
    for (size_t i = p; i < fam->size(); i += chunks) { c.at(i); val1<B>(c, (*fam)[i]); for (size_t j = 0; j < fam->size(); j++) { if (j % 16 == 0) c.at(i, j); pair1<B>(c, (*fam)[i], (*fam)[j], gmp); } }
  }});
}
static mc::Options build(int tier) {
  mc::Options o;
  auto keep = [](std::vector<Words> v) { return new std::vector<Words>(std::move(v)); };
  { auto f = allWords(1, 7); for (uint32_t i = 0; i < 260; i++) { f.push_back({i}); f.push_back({0xffffffffu - i}); } for (int k = 0; k < 32; k++) for (int d = -2; d <= 2; d++) f.push_back({(1u << k) + d}); addWidth<32>(o, keep(f), 8, false); }
  { auto f = allWords(2, 7); for (auto& w : family(2, 2)) f.push_back(w); addWidth<64>(o, keep(f), 8, false); }
  { auto f = allWords(3, tier ? 7 : 6); for (auto& w : family(3, tier ? 2 : 1)) f.push_back(w); addWidth<96>(o, keep(f), 16, false); }
  { auto f = allWords(4, tier ? 7 : 5); for (auto& w : family(4, 1)) f.push_back(w); addWidth<128>(o, keep(f), 32, false); }
  addWidth<160>(o, keep(tier ? allWords(5, 4) : allWords(5, 3)), 16, false);
  { auto f = allWords(6, 2); for (auto& w : family(6, 1)) f.push_back(w); addWidth<192>(o, keep(f), 16, true); }
  addWidth<224>(o, keep(family(7, 1)), 8, false);
  { auto f = allWords(8, 2); for (auto& w : family(8, tier ? 2 : 1)) f.push_back(w); addWidth<256>(o, keep(f), 16, false); }
  addWidth<288>(o, keep(family(9, tier ? 1 : 0)), 8, true);
  addWidth<384>(o, keep(family(12, tier ? 1 : 0)), 8, false);
  addWidth<512>(o, keep(family(16, tier ? 1 : 0)), 16, true);
  addWidth<1024>(o, keep(family(32, 0)), 16, true);
  addWidth<2048>(o, keep(family(64, 0)), 16, true);
  addWidth<4096>(o, keep(family(128, 0)), 16, true);
  o.rule = "13 widths from 32 to 4096 bits; operands: all word tuples over {0,2^32-1,1,2^31,2^31-1,2^32-2,2} (1-5 words; fewer letters for more words), 2^k, 2^k+-1 and 2^n-2^k, every single word deviating in all-zero/all-ones/pseudo-random numbers; every ordered pair of operands under every binary operation, every value under every unary operation, every bit index, shift, slice, conversion width and input length";
  o.assumptions = {"operands outside the families are extrapolated: each word operation sees every combination of extreme words and incoming carry"};
  return o;
}
#endif

#if GROUP == 2
template <size_t B, size_t K> void red(Ctx& c, const Words& a, const Words& p) {
  bool zero = std::all_of(p.begin(), p.end(), [](uint32_t x) { return !x; });
  c.trans(1); c.trace(1);
  if (zero) { try { mk<B>(a).template naive_reduce<K>(mk<K>(p)); } catch (std::exception&) { return; } c.fail("reduction by zero not refused: a=" + hx(a)); }
  auto r = mk<B>(a).template naive_reduce<K>(mk<K>(p));
  Z want = Z(a) % Z(p);
  if (!(zz(r) == want)) c.fail("remainder: a=" + hx(a) + " p=" + hx(p) + " got " + hx(wd(r)) + " want " + want.str());
}
template <size_t B, size_t K> void addRed(mc::Options& o, const std::vector<Words>* fa, const std::vector<Words>* fp, int chunks) {
  for (int q = 0; q < chunks; q++) o.units.push_back({mc::fmt("reduce/%zu.%zu/%d", B, K, q), [=](Ctx& c) {
    for (size_t i = q; i < fa->size(); i += chunks) { c.states(1); for (size_t j = 0; j < fp->size(); j++) { c.at(i, j); red<B, K>(c, (*fa)[i], (*fp)[j]); } }
  }});
}
template <size_t K> void ok(Ctx& c, const bignum<K>& got, const Z& want, const Z& N, const char* what, const Words& a, const Words& b) {
  Z g = zz(got); c.trans(1); c.trace(1);
  if (!(g % N == want % N)) c.fail(std::string(what) + " mod " + N.str() + ": a=" + hx(a) + " b=" + hx(b) + " got " + g.str() + " want " + (want % N).str());
  if (g.cmp(N) > 0 || (g.cmp(N) == 0 && mpz_sgn((want % N).z) != 0)) c.fail(std::string(what) + " not reduced mod " + N.str() + ": a=" + hx(a) + " b=" + hx(b) + " got " + g.str());
}
template <size_t K> void mont(Ctx& c, const Words& nw, const std::vector<Words>& ops, const std::vector<uint32_t>& es, const std::vector<Words>& bes, bool pairs) {
  Z N(nw); MontgomeryState<K> st(mk<K>(nw)); c.states(1);
  for (size_t i = 0; i < ops.size(); i++) {
    const Words& a = ops[i]; Z za(a); MontgomeryValue<K> A(st, mk<K>(a));
    ok<K>(c, bignum<K>(A), za, N, "conversion", a, {});
    ok<K>(c, bignum<K>(A.square()), za * za, N, "square", a, {});
    for (uint32_t e : es) ok<K>(c, bignum<K>(A.exp(e)), powm(za, Z(e), N), N, "power (word exponent)", a, {e});
    for (auto& e : bes) ok<K>(c, bignum<K>(A.exp(mk<K>(e))), powm(za, Z(e), N), N, "power (wide exponent)", a, e);
    if (pairs) for (size_t j = 0; j < ops.size(); j++) {
      const Words& b = ops[j]; Z zb(b); MontgomeryValue<K> Bv(st, mk<K>(b));
      ok<K>(c, bignum<K>(A * Bv), za * zb, N, "product", a, b);
      ok<K>(c, bignum<K>(A + Bv), za + zb, N, "sum", a, b);
      ok<K>(c, bignum<K>((A + Bv) * (A + Bv)), (za + zb) * (za + zb), N, "square of sum", a, b);
      ok<K>(c, bignum<K>(A * Bv + A), za * zb + za, N, "product plus operand", a, b);
    }
  }
}
// every history of operations up to a depth, the model value carried along
template <size_t K> void hist(Ctx& c, const Words& nw, const std::vector<Words>& xs, int depth) {
  Z N(nw); MontgomeryState<K> st(mk<K>(nw)); std::vector<MontgomeryValue<K>> X; std::vector<Z> ZX; for (auto& x : xs) { X.emplace_back(st, mk<K>(x)); ZX.push_back(Z(x)); }
  std::string path;
  std::function<void(const MontgomeryValue<K>&, const Z&, int)> go = [&](const MontgomeryValue<K>& v, const Z& z, int d) {
    c.desc("K=%zu N=%s history %s", K, N.str().substr(0, 200).c_str(), path.c_str()); c.states(1);
    ok<K>(c, bignum<K>(v), z, N, "history value", {}, {});
    if (!d) return;
    auto step = [&](const char* nm, const MontgomeryValue<K>& nv, const Z& nz) { size_t l = path.size(); path += nm; go(nv, nz % N, d - 1); path.resize(l); };
    step("D", v + v, z + z); step("S", v.square(), z * z); step("M", v * v, z * z); step("E", v.exp((uint32_t)3), z * z * z);
    for (size_t i = 0; i < X.size(); i++) { step(i ? "b" : "a", v + X[i], z + ZX[i]); step(i ? "B" : "A", v * X[i], z * ZX[i]); step(i ? "q" : "p", X[i] + v, z + ZX[i]); }
  };
  for (size_t i = 0; i < X.size(); i++) { path = i ? "1" : "0"; go(X[i], ZX[i] % N, depth); }
}
static std::vector<Words> operands(const Words& nw) {   // values around 0, N, 2^K and halves
  Z N(nw); size_t n = nw.size(); Z T = pow2(32 * n); std::vector<Words> r; std::set<Words> seen;
  auto add = [&](const Z& v) { if (mpz_sgn(v.z) < 0 || v.cmp(T) >= 0) return; Words w = words(v, n); if (seen.insert(w).second) r.push_back(w); };
  for (int d = -2; d <= 2; d++) { auto off = [&](Z b) { if (d < 0) mpz_sub_ui(b.z, b.z, -d); else mpz_add_ui(b.z, b.z, d); return b; }; add(off(Z(0ul))); add(off(N)); add(off(T)); if (d == 0 || d == -1) { Z h; mpz_tdiv_q_2exp(h.z, N.z, 1); add(off(h)); add(off(pow2(32 * n - 1))); add(off(N + N)); } }
  return r;
}
template <size_t K> void addMont(mc::Options& o, std::string nm, const std::vector<Words>* mods, int chunks, int mode, int depth = 0) {
  for (int q = 0; q < chunks; q++) o.units.push_back({mc::fmt("mont/%zu/%s/%d", K, nm.c_str(), q), [=](Ctx& c) {
    size_t n = K / 32;
    for (size_t i = q; i < mods->size(); i += chunks) {
      Words nw = (*mods)[i]; nw[0] |= 1; c.desc("K=%zu N=%s", K, hx(nw).c_str());
      auto ops = operands(nw); std::vector<uint32_t> es; std::vector<Words> bes;
      if (mode >= 1) es = {0, 1, 2, 3, 17, 65537};
      if (mode >= 2) { for (uint32_t e : {4u, 5u, 255u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x10000u, 0xaaaaaaaau}) es.push_back(e); for (auto& v : ops) bes.push_back(v); Words w(n); w[n - 1] = 0x80000000u; bes.push_back(w); w = Words(n); w[0] = 2; bes.push_back(w); w[0] = 5; bes.push_back(w); }
      if (mode == 3) { bes.clear(); Words w = nw; w[0] &= ~1u; bes.push_back(w); Words h(n, 0xffffffffu); bes.push_back(h); Words s(n); s[n - 1] = 0x80000000u; bes.push_back(s); es = {0, 1, 2, 65537, 0xffffffffu}; if (ops.size() > 6) ops.resize(6); }
      if (mode == 4) { if (ops.size() > 8) ops.resize(8); }
      mont<K>(c, nw, ops, es, bes, true);
      if (depth) hist<K>(c, nw, {ops[ops.size() > 3 ? 3 : 0], ops.back()}, depth);
    }
  }});
}
static mc::Options build(int tier) {
  mc::Options o;
  auto keep = [](std::vector<Words> v) { return new std::vector<Words>(std::move(v)); };
  // reduction, small numbers completely
  for (int q = 0; q < 8; q++) o.units.push_back({mc::fmt("reduce/small/%d", q), [=](Ctx& c) { uint32_t L = tier ? 1500 : 400;
    for (uint32_t a = q; a < L; a += 8) for (uint32_t p = 0; p < L; p++) { c.at(a, p); red<32, 32>(c, {a}, {p}); red<64, 32>(c, {a, 0}, {p}); red<32, 64>(c, {a}, {p, 0}); red<64, 64>(c, {p, a}, {a, 0}); red<64, 32>(c, {p, a}, {p}); c.states(1); } }});
  { auto f = allWords(1, 7); for (uint32_t i = 3; i < 40; i++) { f.push_back({i}); f.push_back({0xffffffffu - i}); f.push_back({0x80000000u + i}); } for (int k = 0; k < 32; k++) { f.push_back({1u << k}); f.push_back({(1u << k) - 1}); f.push_back({(1u << k) + 1}); } auto* F1 = keep(f);
    auto* F2 = keep([&] { auto g = allWords(2, 7); for (auto& w : family(2, 1)) g.push_back(w); return g; }()); auto* F3 = keep([&] { auto g = allWords(3, 4); for (auto& w : family(3, 1)) g.push_back(w); return g; }());
    auto* F4 = keep([&] { auto g = allWords(4, tier ? 5 : 3); for (auto& w : family(4, 1)) g.push_back(w); return g; }()); auto* F5 = keep(family(5, 1)); auto* F8 = keep(family(8, tier ? 1 : 0)); auto* F16 = keep(family(16, 0));
    addRed<32, 32>(o, F1, F1, 2); addRed<64, 32>(o, F2, F1, 8); addRed<96, 32>(o, F3, F1, 8); addRed<128, 32>(o, F4, F1, 8); addRed<64, 64>(o, F2, F2, 8); addRed<96, 64>(o, F3, F2, 8); addRed<128, 64>(o, F4, F2, 16); addRed<96, 96>(o, F3, F3, 8); addRed<128, 96>(o, F4, F3, 8); addRed<128, 128>(o, F4, F4, 16);
    addRed<32, 64>(o, F1, F2, 2); addRed<32, 128>(o, F1, F4, 2); addRed<64, 96>(o, F2, F3, 4); addRed<64, 128>(o, F2, F4, 4); addRed<160, 96>(o, F5, F3, 8); addRed<160, 160>(o, F5, F5, 8); addRed<256, 128>(o, F8, F4, 16); addRed<256, 256>(o, F8, F8, 8); addRed<512, 256>(o, F16, F8, 16); addRed<512, 512>(o, F16, F16, 8); addRed<256, 512>(o, F8, F16, 8); addRed<256, 32>(o, F8, F1, 8);
    if (tier) { auto* F32 = keep(family(32, 0)); addRed<1024, 512>(o, F32, F16, 32); addRed<1024, 1024>(o, F32, F32, 32); }
    else { auto* F32 = keep([] { std::vector<Words> g; auto f = family(32, 0); for (size_t i = 0; i < f.size(); i += 9) g.push_back(f[i]); return g; }()); addRed<1024, 512>(o, F32, F16, 16); }
  }
  // Montgomery
  { std::vector<Words> m; for (uint32_t n = 1; n < (tier ? 8192u : 2048u); n += 2) m.push_back({n}); for (uint32_t i = 0; i < 200; i++) { m.push_back({0xffffffffu - 2 * i}); m.push_back({0x80000001u + 2 * i}); m.push_back({0x7fffffffu - 2 * i}); } for (int k = 1; k < 32; k++) { m.push_back({(1u << k) + 1}); m.push_back({(1u << k) - 1}); } addMont<32>(o, "small", keep(m), 16, 2, tier ? 3 : 2);
    std::vector<Words> d = {{1}, {3}, {5}, {0xffffffffu}, {0xfffffffbu}, {0x80000001u}, {0x7fffffffu}, {0x10001}}; addMont<32>(o, "deep", keep(d), 8, 1, tier ? 6 : 4);
    // all operand pairs of tiny moduli, full residue systems
    for (uint32_t n = 1; n < (tier ? 129u : 65u); n += 2) o.units.push_back({mc::fmt("mont/32/full%u", n), [=](Ctx& c) { std::vector<Words> ops; for (uint32_t a = 0; a < n + 2; a++) ops.push_back({a}); c.desc("K=32 N=%u all residues", n); mont<32>(c, {n}, ops, {0, 1, 2, 3, 4, 5, 6, 7, n, n - 1}, {{0}, {1}, {2}, {n}, {n - 1}, {0xffffffffu}}, true); }}); }
  { auto m = allWords(2, 7); for (auto& w : family(2, tier ? 2 : 1)) m.push_back(w); for (uint32_t n = 1; n < 128; n += 2) m.push_back({n, 0}); addMont<64>(o, "words", keep(m), 16, 2, 2); addMont<64>(o, "deep", keep({{0xffffffffu, 0xffffffffu}, {1, 0x80000000u}, {3, 0}, {0xffffffc5u, 0xffffffffu}, {1, 0}, {0xffffffffu, 0x7fffffffu}, {1, 1}}), 7, 1, tier ? 6 : 4); }
  { auto m = allWords(3, tier ? 7 : 4); for (auto& w : family(3, 1)) m.push_back(w); addMont<96>(o, "words", keep(m), 16, tier ? 2 : 1, 1); }
  { auto m = allWords(4, tier ? 5 : 3); for (auto& w : family(4, 1)) m.push_back(w); addMont<128>(o, "words", keep(m), 16, tier ? 2 : 1, 1); addMont<128>(o, "deep", keep({Words(4, 0xffffffffu), {1, 0, 0, 0x80000000u}, {1, 0, 0, 1}}), 3, 2, tier ? 5 : 3); }
  addMont<160>(o, "fam", keep(family(5, tier ? 1 : 0)), 16, 1, 1);
  addMont<192>(o, "fam", keep(family(6, 0)), 16, 1, 1);
  addMont<256>(o, "fam", keep(family(8, tier ? 1 : 0)), 16, tier ? 3 : 1, 1);
  addMont<512>(o, "fam", keep(family(16, 0)), 16, tier ? 3 : 1, 0);
  { auto pick = [&](size_t n) { auto f = family(n, 0); std::vector<Words> m; size_t st = tier ? 4 : 40; for (size_t i = 0; i < f.size(); i += st) m.push_back(f[i]); m.push_back(Words(n, 0xffffffffu)); Words h(n); h[n - 1] = 0x80000000u; m.push_back(h); return m; };
    addMont<1024>(o, "fam", keep(pick(32)), 16, 1, 0); addMont<2048>(o, "fam", keep(pick(64)), 16, 4, 0); addMont<512>(o, "exp", keep({Words(16, 0xffffffffu), {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x80000000u}, {3, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0}}), 3, 3, 0); }
  o.rule = "reduction: all (a,p) below 400 (thorough 1500) at 5 width combinations, 22 width combinations (modulus narrower, equal, wider) with all pairs from word-alphabet and power-of-two families, zero modulus refused; Montgomery at 32..2048 bits: every odd modulus below 2048 (8192) and next to 2^31, 2^32, every modulus of the families made odd, operands around 0, N/2, N, 2N, 2^K, complete residue systems for moduli below 64 (128), both exponent forms, all operation histories (double, square, multiply, add, cube) to depth 2-4 (6)";
  o.assumptions = {"moduli and operands outside the families are extrapolated", "GMP is trusted as the integer reference"};
  return o;
}
#endif

#if GROUP == 3
static bool isPrime(const Z& v) { return mpz_probab_prime_p(v.z, 40) != 0; }
template <size_t B> void one(Ctx& c, const Z& v) {
  bool got = miller_rabin_is_probably_prime(mkz<B>(v)), want = isPrime(v); c.trans(1); c.trace(1);
  if (got != want) c.fail(mc::fmt("primality of 0x%s at width %zu: got %d want %d", v.str().c_str(), B, got, want));
}
template <size_t B> void everyWidth(Ctx& c, const Z& v) { if (mpz_sizeinbase(v.z, 2) <= B) one<B>(c, v); }
static void wide(Ctx& c, const Z& v) { everyWidth<32>(c, v); everyWidth<64>(c, v); everyWidth<96>(c, v); everyWidth<128>(c, v); c.states(1); }
template <size_t B> void range(mc::Options& o, uint64_t from, uint64_t to, int chunks, const char* nm) {
  for (int q = 0; q < chunks; q++) o.units.push_back({mc::fmt("%s/%zu/%d", nm, B, q), [=](Ctx& c) { for (uint64_t v = from + q; v < to; v += chunks) { c.at(v); one<B>(c, Z(v)); c.states(1); } }});
}
static std::vector<uint64_t> inject(std::vector<uint64_t> v) { return std::vector<uint64_t>(v.rbegin(), v.rend()); }
template <size_t B, bool S> void gen(Ctx& c, const std::vector<std::vector<uint64_t>>& cands) {
  // what the draws mean: the library's own filling of B/32 words (decided by G01)
  std::vector<uint64_t> all; for (auto& d : cands) all.insert(all.end(), d.begin(), d.end());
  Z want; size_t used = 0; bool found = false;
  for (size_t i = 0; i < cands.size() && !found; i++) {
    testValues = inject(cands[i]); uint32_t w[B / 32]; generate_random(std::span<uint32_t>(w)); used += cands[i].size();
    if (!testValues.empty()) throw std::runtime_error("model: candidate not fully consumed");
    w[0] |= 1; w[B / 32 - 1] |= 0x80000000u; if (S) w[B / 32 - 1] |= 0x40000000u;
    Z z(Words(w, w + B / 32)); if (isPrime(z)) { want = z; found = true; }
  }
  if (!found) throw std::runtime_error("model: menu has no acceptable candidate at the end");
  testValues = inject(all);
  auto p = random_prime<B, S>(); size_t left = testValues.size(); testValues.clear(); c.trans(1); c.trace(1); c.states(1);
  if (!(zz(p) == want)) c.fail("generated 0x" + zz(p).str() + " want 0x" + want.str());
  if (left != all.size() - used) c.fail(mc::fmt("consumed %zu draws, want %zu", all.size() - left, used));
}
template <size_t B, bool S> void genMenu(Ctx& c, int depth) {
  // menu: composite (odd, even), prime, prime only after forcing low bit, prime only after forcing top bits, Carmichael-like; built from the model
  size_t nd = (B / 32 + 1) / 2; auto draws = [&](const Z& v) { Words w = words(v, B / 32); w.resize(nd * 2); std::vector<uint64_t> d; for (size_t i = 0; i < nd; i++) d.push_back((uint64_t)w[2 * i + 1] << 32 | w[2 * i]); return d; };
  Z base = pow2(B - 1); if (S) base = base + pow2(B - 2); base = base + pow2(B / 2); Z p; mpz_nextprime(p.z, base.z); Z q; mpz_nextprime(q.z, p.z);
  std::vector<std::vector<uint64_t>> menu;
  Z t = p; menu.push_back(draws(t)); t = p; mpz_clrbit(t.z, 0); menu.push_back(draws(t));               // prime; prime once odd
  t = q; mpz_clrbit(t.z, B - 1); menu.push_back(draws(t)); t = q; mpz_clrbit(t.z, B - 2); menu.push_back(draws(t));   // top bits missing
  Z o = p; do { mpz_add_ui(o.z, o.z, 2); } while (isPrime(o)); menu.push_back(draws(o)); mpz_clrbit(o.z, 0); menu.push_back(draws(o));
  menu.push_back(draws(Z(0ul))); menu.push_back(draws(pow2(B) - Z(1ul))); menu.push_back(std::vector<uint64_t>(nd, 3)); 
  Z h; mpz_sqrt(h.z, (pow2(B) - pow2(B - 3)).z); Z r; mpz_nextprime(r.z, h.z); menu.push_back(draws(r * r)); 
  std::vector<std::vector<uint64_t>> seq; std::string code;
  std::function<void(int)> go = [&](int d) {
    seq.push_back(menu[0]); c.desc("width %zu strict %d menu sequence %s then prime", B, S, code.c_str()); gen<B, S>(c, seq); seq.pop_back();
    if (!d) return;
    for (size_t i = 1; i < menu.size(); i++) { seq.push_back(menu[i]); code += (char)('0' + i); go(d - 1); code.pop_back(); seq.pop_back(); }
  };
  go(depth);
}
// a run of n rejected draws: `kind` 0 the same one throughout, 1 a different one every time, 2 alternating; then a prime, then another that must not be drawn
template <size_t B, bool S> void genRun(Ctx& c, size_t n, int kind) {
  size_t nd = (B / 32 + 1) / 2; auto draws = [&](const Z& v, std::vector<uint64_t>& d) { Words w = words(v, B / 32); w.resize(nd * 2); for (size_t i = 0; i < nd; i++) d.push_back((uint64_t)w[2 * i + 1] << 32 | w[2 * i]); };
  Z base = pow2(B - 1) + pow2(B - 2); Z q = base; std::vector<Z> bad; while (bad.size() < (kind == 0 ? 1 : kind == 2 ? 2 : n)) { q = q + Z(2ul); Z o = q + Z(1ul); if (!isPrime(o)) bad.push_back(o); }
  Z p = q; mpz_nextprime(p.z, p.z); Z p2 = p; mpz_nextprime(p2.z, p2.z);
  std::vector<uint64_t> all; for (size_t i = 0; i < n; i++) draws(bad[i % bad.size()], all); draws(p, all); size_t used = all.size(); draws(p2, all);
  // the values a draw takes are the library's own filling (G01)
  { std::vector<uint64_t> one; draws(p, one); testValues = inject(one); uint32_t w[B / 32]; generate_random(std::span<uint32_t>(w)); if (!(Z(Words(w, w + B / 32)) == p)) throw std::runtime_error("model: a draw does not give the intended candidate"); testValues.clear(); }
  testValues = inject(all); auto r = random_prime<B, S>(); size_t left = testValues.size(); testValues.clear(); c.trans(n + 1); c.trace(1); c.states(1); c.beat();
  if (!(zz(r) == p)) c.fail(mc::fmt("after %zu rejected draws (kind %d) at width %zu: generated 0x%s want 0x%s", n, kind, B, zz(r).str().c_str(), p.str().c_str()));
  if (left != all.size() - used) c.fail(mc::fmt("after %zu rejected draws at width %zu: consumed %zu values, want %zu", n, B, all.size() - left, used));
}
static Z dec(const char* s) { Z z; mpz_set_str(z.z, s, 10); return z; }
static mc::Options build(int tier) {
  mc::Options o;
  range<32>(o, 0, tier ? 1u << 23 : 1u << 19, 64, "all"); range<64>(o, 0, tier ? 1u << 18 : 1u << 15, 16, "all"); range<96>(o, 0, 1u << 13, 8, "all"); range<128>(o, 0, 1u << 13, 8, "all"); range<256>(o, 0, 9000, 8, "all"); range<512>(o, 0, 8300, 8, "all");
  range<32>(o, (1ull << 31) - 4000, (1ull << 31) + 4000, 8, "2^31"); range<32>(o, (1ull << 32) - 8000, 1ull << 32, 8, "2^32"); range<64>(o, (1ull << 32) - 3000, (1ull << 32) + 3000, 8, "2^32"); range<64>(o, (1ull << 63) - 1000, (1ull << 63) + 1000, 8, "2^63"); range<96>(o, (1ull << 63) - 400, (1ull << 63) + 400, 8, "2^63");
  for (int k = 20; k < 31; k++) range<32>(o, (1ull << k) - 300, (1ull << k) + 300, 1, mc::fmt("2^%d", k).c_str());
  o.units.push_back({"strong pseudoprimes", [](Ctx& c) {
    for (const char* s : {"2047", "1373653", "25326001", "3215031751", "2152302898747", "3474749660383", "341550071728321", "3825123056546413051", "318665857834031151167461", "3317044064679887385961981", "1122004669633", "4759123141", "3770579582154547", "585226005592931977", "564132928021909221014087501701", "59276361075595573263446330101", "1543267864443420616877677640751301"}) { c.desc("%s", s); wide(c, dec(s)); }
  }});
  o.units.push_back({"Arnault", [](Ctx& c) {
    Z p1 = dec("29674495668685510550154174642905332730771991799853043350995075531276838753171770199594238596428121188033664754218345562493168782883"); Z m = p1 - Z(1ul); Z p2 = m * Z(313ul) + Z(1ul), p3 = m * Z(353ul) + Z(1ul);
    if (!isPrime(p1) || !isPrime(p2) || !isPrime(p3)) throw std::runtime_error("fixture is wrong");
    c.desc("Arnault's composite, strong pseudoprime to all prime bases below 307"); one<1344>(c, p1 * p2 * p3); c.desc("pairs"); one<1344>(c, p1 * p2); one<1344>(c, p1 * p3); one<896>(c, p1 * p2); c.states(4);
  }});
  // k*2^r+1 and k*2^r-1: p-1 divisible by every power of two the width allows, and by none but the first
#define PROTH(B) for (int q = 0; q < (B > 128 ? 8 : 2); q++) o.units.push_back({mc::fmt("proth/%d/%d", B, q), [=](Ctx& c) { for (int r = 1 + q; r < B; r += (B > 128 ? 8 : 2)) { if (B > 256 && !tier && (r / 8) % 8) continue; int primes = 0; for (unsigned long k = 1; k < (tier ? 4000 : B > 256 ? 700 : 1200) && primes < (B > 128 ? 1 : 4); k += 2) { Z t = Z(k) * pow2(r); if (mpz_sizeinbase(t.z, 2) > B) break; c.at(B, r, k); Z v = t + Z(1ul); if (mpz_sizeinbase(v.z, 2) <= B) { if (isPrime(v)) primes++; if (B <= 128 || k < 4 || isPrime(v)) one<B>(c, v); } Z w = t - Z(1ul); if (B <= 128 || k < 2) one<B>(c, w); c.states(1); c.beat(); } } }});
  PROTH(64) PROTH(96) PROTH(128) PROTH(256) PROTH(512)
#undef PROTH
  for (int q = 0; q < 16; q++) o.units.push_back({mc::fmt("special/%d", q), [=](Ctx& c) {   // products k*2^r+1 and k*2^r-1 for every r of the width and small odd k, p(k(p-1)+1), p^2, p*next(p), three-factor Carmichael numbers
    Z p; uint32_t P = 3; int idx = 0; uint32_t top = tier ? 1u << 17 : 1u << 15;
    for (Z z(2ul); mpz_cmp_ui(z.z, top) < 0; idx++) { mpz_nextprime(z.z, z.z); if (idx % 16 != q) continue; P = mpz_get_ui(z.z); c.at(P); everyWidth<32>(c, z * z); everyWidth<64>(c, z * z); for (unsigned long k = 2; k <= 6; k++) everyWidth<64>(c, z * ((z - Z(1ul)) * Z(k) + Z(1ul))); Z n; mpz_nextprime(n.z, z.z); everyWidth<32>(c, z * n); everyWidth<64>(c, z * z * z); c.states(1); }
    for (unsigned long k = q + 1; k < (tier ? 200000u : 20000u); k += 16) { c.at(k, 1); Z a(6 * k + 1), b(12 * k + 1), d(18 * k + 1); if (isPrime(a) && isPrime(b) && isPrime(d)) { Z v = a * b * d; everyWidth<32>(c, v); everyWidth<64>(c, v); everyWidth<96>(c, v); c.states(1); } }
  }});
  for (int q = 0; q < 16; q++) o.units.push_back({mc::fmt("wide/%d", q), [=](Ctx& c) {   // primes and near misses next to powers of two at greater widths
    auto near = [&](auto tag, size_t k) { constexpr size_t B = decltype(tag)::value; c.desc("2^%zu at width %zu", k, B); Z up; mpz_nextprime(up.z, pow2(k).z); one<B>(c, up); one<B>(c, up + Z(2ul)); Z lo = pow2(k) - Z(1ul); while (!isPrime(lo)) { one<B>(c, lo); mpz_sub_ui(lo.z, lo.z, 2); } one<B>(c, lo); c.states(1); };
    for (size_t k = 14 + q; k < 64; k += 16) near(std::integral_constant<size_t, 64>{}, k); for (size_t k = 14 + q; k < 96; k += 16) near(std::integral_constant<size_t, 96>{}, k); for (size_t k = 14 + q; k < 128; k += 16) near(std::integral_constant<size_t, 128>{}, k);
    if (q % 4 == 0) near(std::integral_constant<size_t, 256>{}, 128 + 30 * (q / 4)); if (q == 3) near(std::integral_constant<size_t, 512>{}, 300); if (q == 7 && tier) near(std::integral_constant<size_t, 512>{}, 511);
    if (tier && q == 9) near(std::integral_constant<size_t, 1024>{}, 1023);
    if (q == 5) { c.desc("2^255-19"); one<256>(c, pow2(255) - Z(19ul)); one<288>(c, pow2(255) - Z(19ul)); one<256>(c, pow2(255) - Z(31ul)); }
    if (q == 6) { Z a, b; mpz_nextprime(a.z, pow2(120).z); mpz_nextprime(b.z, pow2(121).z); c.desc("semiprime"); one<256>(c, a * b); one<256>(c, a * a); mpz_nextprime(a.z, pow2(250).z); one<512>(c, a * a); one<512>(c, a * b); }
  }});
  for (int s = 0; s < 2; s++) { int d = tier ? 4 : 3; auto u = [&](std::string n, std::function<void(Ctx&)> f) { o.units.push_back({n, f}); };
    u(mc::fmt("gen32/%d", s), [=](Ctx& c) { s ? genMenu<32, true>(c, d) : genMenu<32, false>(c, d); }); u(mc::fmt("gen64/%d", s), [=](Ctx& c) { s ? genMenu<64, true>(c, d) : genMenu<64, false>(c, d); }); u(mc::fmt("gen96/%d", s), [=](Ctx& c) { s ? genMenu<96, true>(c, d - 1) : genMenu<96, false>(c, d - 1); }); u(mc::fmt("gen128/%d", s), [=](Ctx& c) { s ? genMenu<128, true>(c, d - 1) : genMenu<128, false>(c, d - 1); }); u(mc::fmt("gen256/%d", s), [=](Ctx& c) { s ? genMenu<256, true>(c, 1) : genMenu<256, false>(c, 1); }); }
  // long runs of rejected draws
  for (int kind = 0; kind < 3; kind++) for (int s = 0; s < 2; s++) o.units.push_back({mc::fmt("rejected/%d.%d", kind, s), [=](Ctx& c) {
    std::vector<size_t> ns; for (size_t n = 4; n <= 48; n++) ns.push_back(n); for (size_t n : {50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4097, 10001}) ns.push_back(n); if (tier) { ns.push_back(65537); ns.push_back(200000); }
    for (size_t n : ns) { c.at(n, 32); s ? genRun<32, true>(c, n, kind) : genRun<32, false>(c, n, kind); if (n <= 1100 || tier) { c.at(n, 64); s ? genRun<64, true>(c, n, kind) : genRun<64, false>(c, n, kind); } if (n <= (tier ? 5000 : 600)) { c.at(n, 128); s ? genRun<128, true>(c, n, kind) : genRun<128, false>(c, n, kind); } if (n <= (tier ? 1100 : 130) && (tier || n < 9 || n > 60)) { c.at(n, 256); s ? genRun<256, true>(c, n, kind) : genRun<256, false>(c, n, kind); } }
    for (size_t n : {5, 20, 65}) { c.at(n, 512); if (n < 60 || tier) s ? genRun<512, true>(c, n, kind) : genRun<512, false>(c, n, kind); } }});
  // every low half of a 32-bit draw for several top halves: the first draw is followed by a sure prime
  for (uint32_t hi : {0u, 0x4000u, 0x8000u, 0xc000u, 0xffffu, 0x1234u}) for (int s = 0; s < 2; s++) o.units.push_back({mc::fmt("draw32/%04x.%d", hi, s), [=](Ctx& c) { uint32_t step = tier ? 1 : 4;
    for (uint32_t lo = 0; lo < 0x10000; lo += step) for (uint32_t l = lo; l < lo + 2 && l < 0x10000; l++) { if (!tier && (lo >> 2) % 4 && hi != 0) break; c.at(hi, l); uint64_t a = hi << 16 | l; s ? gen<32, true>(c, {{a}, {0xfffffffbull}}) : gen<32, false>(c, {{a}, {0xfffffffbull}}); } }});
  o.rule = "predicate: all numbers below 2^19 (2^23) at 32 bits, below 2^15 (2^18) at 64 bits, below 8192 at 96/128/256/512 bits, windows around 2^20..2^32 and 2^63; all tabulated least strong pseudoprimes, Arnault's 1315-bit composite, k*2^r+1 and k*2^r-1 for every r of the width and small odd k, p(k(p-1)+1), p^2, p^3, p*next, (6k+1)(12k+1)(18k+1), neighbours of every power of two to 128 bits; generation: all sequences of up to 3 (4) rejected draws from a 10-entry menu at 32/64 (fewer at 96/128/256) bits, all low halves of a 32-bit draw, runs of 4..10001 (200000) rejected draws (the same, different ones, alternating)";
  o.assumptions = {"numbers outside the enumerated sets are extrapolated", "GMP's primality test with 40 rounds is the reference"};
  return o;
}
#endif
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
