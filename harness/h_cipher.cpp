// C01 (GROUP=1: AES), C02 (2: GF(2^128)), C03 (3: GCM seal), C04 (4: GCM open), C05 (5: CTR), C06 (6: ChaCha20)
#include <array>
#include <cstdint>
#include <cstring>
#include <span>
#include <string>
#include <set>
#include <vector>
#include "caligo/aes.h"
#include "caligo/chacha20.h"
#include "caligo/ctr.h"
#include "caligo/gcm.h"
#include "caligo/ghash.h"
#include "mc.hpp"
#include "refcipher.hpp"
#if GROUP >= 3
#include "huge.hpp"
#endif

using mc::Bytes; using mc::Ctx;
using namespace Caligo;
using In = std::span<const uint8_t>;
using ref::Blk; using ref::u128;

static Blk toBlk(__m128i v) { Blk b; _mm_storeu_si128((__m128i*)b.data(), v); return b; }
static __m128i fromBlk(const Blk& b) { return _mm_loadu_si128((const __m128i*)b.data()); }
static Blk blkOf(const Bytes& b) { Blk r; memcpy(r.data(), b.data(), 16); return r; }
// a heap copy with exactly n bytes, so that any access outside is visible to the sanitizer
static Bytes exact(In d) { return Bytes(d.begin(), d.end()); }

// ---------------------------------------------------------------- AES
template <size_t bits> void aesOne(Ctx& c, In key, const std::vector<Blk>& blocks) {
  ref::Aes r(key); AesKeySchedule<bits> ks(key);
  c.states(1);
  for (auto& b : blocks) {
    Blk got = toBlk(AES<bits>::Encrypt(ks, fromBlk(b)));
    c.trans(1);
    c.eq(got, r.enc(b), "ciphertext block"); c.trace(1);
  }
}
template <size_t bits> void aesKeys(Ctx& c, int mode, int tier) {
  size_t n = bits / 8;
  std::vector<Blk> few; for (int p : {0, 1, 2, 4, 5}) few.push_back(blkOf(mc::pattern(p, 16)));
  if (mode == 0) {           // every one- and two-bit key, and complements of one-bit keys
    for (size_t i = 0; i < bits; i++) {
      Bytes k(n); k[i / 8] ^= 1 << i % 8; c.at(i); aesOne<bits>(c, k, few);
      for (auto& x : k) x ^= 0xff; c.at(i, 1); aesOne<bits>(c, k, few);
      for (size_t j = 0; j < i; j++) { Bytes k2(n); k2[i / 8] ^= 1 << i % 8; k2[j / 8] ^= 1 << j % 8; c.at(i, j); aesOne<bits>(c, k2, {few[0]}); }
    }
  } else if (mode == 1) {    // every value of every key byte over 3 bases
    for (int p : {0, 2, 4}) for (size_t i = 0; i < n; i++) for (int v = 0; v < 256; v++) { Bytes k = mc::pattern(p, n); k[i] = (uint8_t)v; c.at(p, i, v); aesOne<bits>(c, k, few); }
  } else if (mode == 2) {    // every value of every block byte, every 1- and 2-bit block, over several keys
    for (int p : {0, 1, 4, 6}) {
      Bytes k = mc::pattern(p, n); std::vector<Blk> bl;
      for (int q : {0, 2, 5}) for (size_t i = 0; i < 16; i++) for (int v = 0; v < 256; v++) { Blk b = blkOf(mc::pattern(q, 16)); b[i] = (uint8_t)v; bl.push_back(b); }
      for (size_t i = 0; i < 128; i++) for (size_t j = 0; j <= i; j++) { Blk b{}; b[i / 8] ^= 1 << i % 8; if (j < i) b[j / 8] ^= 1 << j % 8; bl.push_back(b); }
      c.desc("key pattern %d, %zu blocks on one schedule", p, bl.size());
      aesOne<bits>(c, k, bl);
    }
  } else if (mode == 3) {    // long chain: the output is the next input, and every 64th output the next key; state space walk of fixed length
    Bytes k = mc::pattern(4, n); Blk b{};
    for (int i = 0; i < (tier ? 40000 : 6000); i++) {
      c.at(i); ref::Aes r(k); AesKeySchedule<bits> ks(k); AesKeySchedule<bits> copy = ks;
      for (int j = 0; j < 16; j++) { Blk want = r.enc(b); Blk got = toBlk(AesEncrypt(j & 1 ? copy : ks, fromBlk(b))); c.eq(got, want, "chained block"); b = want; c.trans(1); c.trace(1); }
      for (size_t x = 0; x < n; x++) k[x] ^= b[x % 16] + (uint8_t)(x / 16 * 77);
      c.states(1);
    }
  } else {                   // key sizes
    for (size_t len = 0; len <= 300; len++) {
      if (len == n) continue;
      c.at(len);
      for (int p : {0, 4}) {
        Bytes k = exact(mc::pattern(p, len)); bool threw = false;
        try { AesKeySchedule<bits> ks{In(k)}; } catch (const std::exception&) { threw = true; }
        if (!threw) c.fail("key of wrong length accepted");
        c.trans(1); c.states(1); c.trace(1);
      }
    }
    Bytes k = exact(mc::pattern(4, n)); aesOne<bits>(c, k, few);
  }
  c.sample(mc::fmt("AES-%zu mode %d", bits, mode));
}

// ---------------------------------------------------------------- GF(2^128), operands as little-endian polynomials (bit i = x^i)
static u128 polymul(u128 a, u128 b) { u128 r = 0; for (int i = 127; i >= 0; i--) { r = (r << 1) ^ ((r >> 127) ? (u128)0x87 : 0); if ((b >> i) & 1) r ^= a; } return r; }
static u128 lib(u128 a, u128 b) { __m128i x, y; memcpy(&x, &a, 16); memcpy(&y, &b, 16); __m128i z = galoisMultiply(x, y); u128 r; memcpy(&r, &z, 16); return r; }
static Bytes hb(u128 v) { Bytes b(16); memcpy(b.data(), &v, 16); return b; }
static void gfcheck(Ctx& c, u128 a, u128 b, u128 want) {
  u128 g = lib(a, b);
  if (g != want) { c.desc("a=%s b=%s (little endian)", mc::hex(hb(a)).c_str(), mc::hex(hb(b)).c_str()); c.eq(hb(g), hb(want), "product"); }
}
static void gfBits(Ctx& c, int i0) {   // all pairs of operands with at most two bits set; first operand's top bit is i0
  static u128 base[256]; static bool init = false;   // x^(i+j)
  if (!init) { u128 v = 1; for (int i = 0; i < 256; i++) { base[i] = v; v = (v << 1) ^ ((v >> 127) ? (u128)0x87 : 0); } init = true; }
  for (int i1 = 0; i1 <= i0; i1++) {
    u128 a = ((u128)1 << i0) | ((u128)1 << i1);
    c.at(i0, i1);
    for (int j0 = 0; j0 < 128; j0++) for (int j1 = 0; j1 <= j0; j1++) {
      u128 b = ((u128)1 << j0) | ((u128)1 << j1), w = base[i0 + j0];
      if (i1 != i0) w ^= base[i1 + j0];
      if (j1 != j0) { w ^= base[i0 + j1]; if (i1 != i0) w ^= base[i1 + j1]; }
      gfcheck(c, a, b, w);
    }
    c.states(1); c.trans(128 * 129 / 2); c.trace(128 * 129 / 2);
  }
}
static const uint32_t kW[8] = {0, 1, 0x80000000u, 0xffffffffu, 0x7fffffffu, 0xfffffffeu, 0xa5a5a5a5u, 0x00010000u};
static u128 words(unsigned code) { u128 v = 0; for (int i = 0; i < 4; i++) { v |= (u128)kW[code & 7] << (32 * i); code >>= 3; } return v; }
static void gfWords(Ctx& c, int part, int parts) {
  for (unsigned x = part; x < 4096; x += parts) {
    u128 a = words(x); c.at(x);
    u128 t[16][256];   // table of byte multiples of a
    for (int p = 0; p < 16; p++) { t[p][0] = 0; for (int b = 0; b < 8; b++) { u128 m = polymul(a, (u128)1 << (8 * p + b)); for (int v = 0; v < (1 << b); v++) t[p][v | (1 << b)] = t[p][v] ^ m; } }
    for (unsigned y = 0; y < 4096; y++) { u128 b = words(y), w = 0; for (int p = 0; p < 16; p++) w ^= t[p][(uint8_t)(b >> (8 * p))]; gfcheck(c, a, b, w); gfcheck(c, b, a, w); }
    c.states(1); c.trans(8192); c.trace(8192);
  }
}
static void gfMisc(Ctx& c) {
  // every byte value at every position against every byte value at every position would be 2^24: all of them
  for (int i = 0; i < 16; i++) for (int v = 0; v < 256; v++) {
    c.at(i, v); u128 a = (u128)v << (8 * i);
    u128 t[8]; for (int b = 0; b < 8; b++) t[b] = polymul(a, (u128)1 << b);
    for (int w = 0; w < 256; w++) { u128 m = 0; for (int b = 0; b < 8; b++) if (w >> b & 1) m ^= t[b]; for (int j = 0; j < 16; j++) { u128 want = polymul(m, (u128)1 << (8 * j)); gfcheck(c, a, (u128)w << (8 * j), want); } }
    c.states(1); c.trans(4096); c.trace(4096);
  }
  // reflect: bit reversal of each byte, involution
  for (int q : {0, 1, 4}) for (int i = 0; i < 16; i++) for (int v = 0; v < 256; v++) {
    c.at(100, i, v); Blk b = blkOf(mc::pattern(q, 16)); b[i] = (uint8_t)v; Blk w; for (int k = 0; k < 16; k++) { uint8_t r = 0; for (int z = 0; z < 8; z++) if (b[k] >> z & 1) r |= 0x80 >> z; w[k] = r; }
    c.eq(toBlk(reflect(fromBlk(b))), w, "reflect"); c.eq(toBlk(reflect(reflect(fromBlk(b)))), b, "reflect twice"); c.trans(2); c.trace(2);
  }
  // chains: x_{n+1} = (x_n ^ b_n) * h against the SP 800-38D multiply, 4 keys
  for (int q = 4; q < 12; q++) {
    Blk h = blkOf(mc::pattern(q, 16)); __m128i lh = reflect(fromBlk(h)), ly = _mm_setzero_si128(); u128 y = 0, H = ref::be(h);
    for (int n = 0; n < 20000; n++) {
      c.at(200 + q, n); Blk b = ref::unbe(y * 31 + n * 0x9e3779b97f4a7c15ull + ((u128)n << 97));
      ly = ghash_block(reflect(fromBlk(b)), lh, ly); y = ref::gf_mul(y ^ ref::be(b), H);
      c.eq(toBlk(reflect(ly)), ref::unbe(y), "GHASH step"); c.trans(1); c.trace(1); c.states(1);
    }
  }
}

// ---------------------------------------------------------------- GCM
template <size_t bits> GCM<AES<bits>> mkGcm(const Bytes& key, const Bytes& iv) { return GCM<AES<bits>>(key_iv_pair<AES<bits>>(In(key), In(iv))); }
template <size_t bits> struct Seal {
  GCM<AES<bits>> g; ref::Gcm r; uint64_t k = 0;
  Seal(const Bytes& key, const Bytes& iv) : g(mkGcm<bits>(key, iv)), r(key, iv) {}
  void step(Ctx& c, In pt, In aad) {
    auto [ct, tag] = g.Encrypt(pt, aad);
    Bytes wc = r.crypt(k, pt); Blk wt = r.tag(k, wc, aad);
    c.eq(ct, wc, "ciphertext"); c.eq(tag, wt, "tag");
    k++; c.trans(1); c.trace(1);
  }
};
template <typename G> bool setCounter(G& g, uint64_t v) {
  if constexpr (requires { { (g.message_counter) } -> std::same_as<uint64_t&>; }) { g.message_counter = v; return true; }
  return false;
}
template <size_t bits> void gcmLens(Ctx& c, int ivlen, int tier) {
  Bytes key = mc::pattern(4, bits / 8), iv = mc::pattern(5, ivlen);
  int P = tier ? 200 : 100, A = tier ? 120 : 53;
  Bytes pt = mc::pattern(6, P), aad = mc::pattern(7, A);
  Seal<bits> s(key, iv); c.states(1);
  for (int p = 0; p <= P; p++) for (int a = 0; a <= A; a++) {
    c.at(ivlen, p, a);
    Bytes ep = exact(In(pt.data(), p)), ea = exact(In(aad.data(), a));
    s.step(c, ep, ea);
    if ((p + a) % 16 == 0) { Seal<bits> f(key, iv); c.states(1); f.step(c, ep, ea); }
  }
  c.sample(mc::fmt("AES-%zu, %d-byte IV: every plaintext length 0..%d x aad length 0..%d, message numbers 0..%llu", bits, ivlen, P, A, (unsigned long long)s.k - 1));
}
template <size_t bits> void gcmIvs(Ctx& c, int tier) {
  Bytes key = mc::pattern(8, bits / 8), pt = mc::pattern(6, 35), aad = mc::pattern(7, 17);
  for (int n = 0; n <= (tier ? 1200 : 300); n++) for (int q : {0, 1, 4}) {
    c.at(n, q); Bytes iv = mc::pattern(q, n);
    if (n == 8 || n >= 12) { Seal<bits> s(key, iv); for (int k = 0; k < 3; k++) s.step(c, pt, aad); }
    else {
      auto g = mkGcm<bits>(key, iv);
      for (int k = 0; k < 3; k++) {
        auto [ct, tag] = g.Encrypt(pt, aad); c.require(ct.empty(), "unsupported IV length produced a ciphertext"); c.eq(tag, Blk{}, "unsupported IV length produced a tag");
        auto [p2, ok] = g.Decrypt(pt, aad, Blk{}); c.require(p2.empty() && !ok, "unsupported IV length opened a message");
        auto [p3, ok3] = g.Decrypt({}, {}, tag); c.require(p3.empty() && !ok3, "unsupported IV length opened an empty message");
        c.trans(3); c.trace(3);
      }
    }
    c.states(1);
  }
}
template <size_t bits> void gcmWrap(Ctx& c) {
  Bytes key = mc::pattern(9, bits / 8), pt = mc::pattern(6, 16 * 6 + 5), aad = mc::pattern(7, 5);
  std::vector<uint32_t> lows;
  for (uint32_t b : {0x00000000u, 0x000000feu, 0x0000fffeu, 0x00fffffeu, 0xfffffffeu, 0xff0000feu, 0x7ffffffeu, 0x00fe00feu, 0x0100fffeu, 0xfffefffeu, 0x80fffffeu}) for (int d = -3; d <= 3; d++) lows.push_back(b + d);
  for (uint32_t lo : lows) for (int hi = 0; hi < 4; hi++) for (int big = 0; big < 2; big++) {
    u128 top = hi == 0 ? 0 : hi == 1 ? ~(u128)0 : hi == 2 ? ((u128)0x0123456789abcdefull << 64 | 0xfedcba98ull << 32) : ((u128)0xffffffffull << 32);
    u128 j0 = (top & ~(u128)0xffffffffu) | lo;
    c.desc("J0 low word %08x, high pattern %d", lo, hi);
    Blk ivb = ref::iv_for_j0(key, j0); Bytes iv(ivb.begin(), ivb.end());
    Seal<bits> s(key, iv);
    if (s.r.j0base != j0) abort();
    c.states(1);
    for (int k = 0; k < 3; k++) s.step(c, big && k == 0 ? In(mc::pattern(3, 16 * 600)) : In(pt), aad);
  }
}
template <size_t bits> void gcmLong(Ctx& c, int tier) {
  Bytes key = mc::pattern(10, bits / 8), iv = mc::pattern(5, 12);
  Bytes big = mc::pattern(4, 16 * (65536 + 3) + 7);
  Seal<bits> s(key, iv);
  for (size_t n : {(size_t)16 * 254, (size_t)16 * 255, (size_t)16 * 255 + 1, (size_t)16 * 256, (size_t)16 * 257 + 3, (size_t)16 * 65534, (size_t)16 * 65535, (size_t)16 * 65536, big.size()}) { c.at(n); s.step(c, In(big.data(), n), In(big.data(), n % 1000)); s.step(c, In(big.data(), n % 1000), In(big.data(), n)); c.states(2); }
}
template <size_t bits> void gcmCount(Ctx& c, int tier, int ivlen) {
  Bytes key = mc::pattern(11, bits / 8), iv = mc::pattern(5, ivlen), pt = mc::pattern(6, 3);
  Seal<bits> s(key, iv);
  uint64_t total = tier ? (1 << 24) + 300 : (1 << 17);
  for (uint64_t k = 0; k < total; k++) { c.at(k); if (k < 70000 || (k & 0xffff) < 3 || (k & 0xffff) > 0xfffc) s.step(c, k & 1 ? In(pt) : In(), k & 2 ? In(pt) : In()); else { s.g.Encrypt({}, {}); s.k++; c.trans(1); } }
  c.states(total);
  // message numbers beyond what can be reached one by one, when the counter is accessible
  for (uint64_t v : {0xffull, 0xffffull, 0xffffffull, 0xffffffffull, 0xffffffffffull, 0xffffffffffffull, 0xffffffffffffffull, 0x0123456789abcdefull, 0x8000000000000000ull, 0xfffffffffffffff0ull})
    for (int d = -1; d <= 1; d++) {
      Seal<bits> t(key, iv); if (!setCounter(t.g, v + d)) continue;
      t.k = v + d; c.at(v, d); for (int i = 0; i < 3; i++) t.step(c, mc::pattern(4, 40), pt);
      c.states(1);
    }
}
template <size_t bits> void gcmContent(Ctx& c) {
  Bytes iv = mc::pattern(5, 12), key = mc::pattern(4, bits / 8);
  for (int which = 0; which < 4; which++) {
    Bytes base[4] = {key, iv, mc::pattern(6, 19), mc::pattern(7, 19)};
    for (size_t i = 0; i < base[which].size() * 8; i++) {
      Bytes b[4] = {base[0], base[1], base[2], base[3]}; b[which][i / 8] ^= 1 << i % 8; c.at(which, i);
      Seal<bits> s(b[0], b[1]); s.step(c, b[2], b[3]); s.step(c, b[2], b[3]); c.states(1);
    }
    if (which >= 2) for (size_t i = 0; i < base[which].size(); i++) for (int v = 0; v < 256; v++) { Bytes b[4] = {base[0], base[1], base[2], base[3]}; b[which][i] = (uint8_t)v; c.at(which, i, v); Seal<bits> s(b[0], b[1]); s.step(c, b[2], b[3]); c.states(1); }
  }
}
// sealing histories over two objects: every sequence of (object, length class) to a depth, copies included
template <size_t bits> void gcmHistory(Ctx& c, int tier) {
  Bytes key = mc::pattern(4, bits / 8), iv = mc::pattern(5, 12), iv2 = mc::pattern(5, 16); Bytes data = mc::pattern(6, 64);
  const int NOPS = 7; int depth = tier ? 6 : 5, total = 1; for (int i = 0; i < depth; i++) total *= NOPS;
  for (int code = 0; code < total; code++) {
    c.at(code); Seal<bits> a(key, iv), b(key, iv2); int x = code;
    for (int d = 0; d < depth; d++, x /= NOPS) switch (x % NOPS) {
      case 0: a.step(c, {}, {}); break;
      case 1: a.step(c, In(data.data(), 17), In(data.data(), 3)); break;
      case 2: a.step(c, In(data.data(), 32), {}); break;
      case 3: b.step(c, In(data.data(), 1), In(data.data(), 16)); break;
      case 4: b.step(c, {}, In(data.data(), 33)); break;
      case 5: { Seal<bits> t = a; t.step(c, In(data.data(), 5), {}); t.step(c, {}, {}); break; }
      case 6: b = a; break;
    }
    c.states(1);
  }
}

struct Msg { Bytes ct, aad, pt; Blk tag; };
template <size_t bits> std::vector<Msg> sealAll(const Bytes& key, const Bytes& iv, const std::vector<std::pair<int, int>>& lens, bool byLib) {
  auto g = mkGcm<bits>(key, iv); ref::Gcm r(key, iv); std::vector<Msg> v; uint64_t k = 0;
  for (auto [p, a] : lens) {
    Msg m; m.pt = mc::pattern(4 + (int)k % 5, p); m.aad = mc::pattern(9 + (int)k % 3, a);
    if (byLib) { auto [ct, t] = g.Encrypt(m.pt, m.aad); m.ct = ct; m.tag = t; }
    else { m.ct = r.crypt(k, m.pt); m.tag = r.tag(k, m.ct, m.aad); }
    k++; v.push_back(m);
  }
  return v;
}
enum { OK, CT, AAD, TAG, TRUNC, EXT, SHIFT, NMUT };
static bool mutate(Msg& m, int how, int arg) {
  switch (how) {
    case OK: return true;
    case CT: if (m.ct.empty()) return false; m.ct[arg % m.ct.size()] ^= 1 << (arg % 8); return true;
    case AAD: if (m.aad.empty()) return false; m.aad[arg % m.aad.size()] ^= 1 << ((arg + 3) % 8); return true;
    case TAG: m.tag[arg % 16] ^= 1 << (arg % 7); return true;
    case TRUNC: if (m.ct.empty()) return false; m.ct.pop_back(); return true;
    case EXT: m.ct.push_back(0); return true;
    case SHIFT: if (m.ct.empty()) return false; m.aad.push_back(m.ct[0]); m.ct.erase(m.ct.begin()); return true;
  }
  return false;
}
// every delivery history: at each step the channel delivers any sent message, intact or altered; the model's verdict is
// "valid iff this is message number p, intact, where p counts the deliveries so far"
template <size_t bits> void openHistories(Ctx& c, int ivlen, int shape, int tier, int first) {
  Bytes key = mc::pattern(4, bits / 8), iv = mc::pattern(5, ivlen);
  std::vector<std::vector<std::pair<int, int>>> shapes = {{{20, 5}, {16, 0}, {0, 3}, {33, 16}, {1, 1}, {7, 7}}, {{0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}, {0, 0}}, {{16, 16}, {16, 16}, {32, 16}, {48, 0}, {15, 17}, {31, 1}}};
  int M = tier ? 5 : 4, depth = tier ? 5 : 4;
  auto msgs = sealAll<bits>(key, iv, shapes[shape], shape != 1); msgs.resize(M);
  int NA = M * NMUT;
  std::function<void(int, const GCM<AES<bits>>&, uint64_t)> go = [&](int d, const GCM<AES<bits>>& g0, uint64_t code) {
    for (int a = (d == 0 ? first : 0); a < (d == 0 ? first + 1 : NA); a++) {
      Msg m = msgs[a / NMUT]; int how = a % NMUT;
      if (!mutate(m, how, a * 7 + d * 5 + 1)) continue;
      uint64_t cd = code * 64 + a + 1; c.at(shape, cd);
      GCM<AES<bits>> g = g0;
      auto [pt, ok] = g.Decrypt(m.ct, m.aad, m.tag);
      bool want = how == OK && a / NMUT == d;
      c.trans(1); c.trace(1);
      if (ok != want) c.fail(want ? "authentic message in its place refused" : "altered, repeated, dropped or reordered message accepted");
      if (want) c.eq(pt, msgs[d].pt, "recovered plaintext");
      if (d + 1 < depth) go(d + 1, g, cd);
    }
    c.states(1);
  };
  go(0, mkGcm<bits>(key, iv), 0);
}
template <size_t bits> void openBits(Ctx& c, int p, int a, int ivlen) {
  Bytes key = mc::pattern(4, bits / 8), iv = mc::pattern(5, ivlen);
  auto ms = sealAll<bits>(key, iv, {{p, a}, {p, a}}, true); const Msg& m0 = ms[0];
  const auto g0 = mkGcm<bits>(key, iv);
  auto attempt = [&](const Msg& m, bool want) {
    auto g = g0; auto [pt, ok] = g.Decrypt(m.ct, m.aad, m.tag); c.trans(1); c.trace(1);
    if (ok != want) c.fail(want ? "authentic message refused" : "altered message accepted");
    if (want) c.eq(pt, m0.pt, "plaintext");
    auto [p2, ok2] = g.Decrypt(ms[1].ct, ms[1].aad, ms[1].tag); c.trans(1);
    if (!ok2) c.fail("next authentic message refused afterwards"); c.eq(p2, ms[1].pt, "next plaintext");
  };
  c.at(p, a); attempt(m0, true); c.states(1);
  for (int i = 0; i < p * 8; i++) { c.at(p, a, 1, i); Msg m = m0; m.ct[i / 8] ^= 1 << i % 8; attempt(m, false); }
  for (int i = 0; i < a * 8; i++) { c.at(p, a, 2, i); Msg m = m0; m.aad[i / 8] ^= 1 << i % 8; attempt(m, false); }
  for (int i = 0; i < 128; i++) for (int j = 0; j <= i; j++) { c.at(p, a, 3, i, j); Msg m = m0; m.tag[i / 8] ^= 1 << i % 8; if (j < i) m.tag[j / 8] ^= 1 << j % 8; attempt(m, false); }
  for (int i = 0; i < 16; i++) for (int v = 1; v < 256; v++) { c.at(p, a, 4, i, v); Msg m = m0; m.tag[i] ^= v; attempt(m, false); }
  { Msg m = m0; m.tag = Blk{}; attempt(m, false); m = m0; for (auto& b : m.tag) b ^= 0xff; attempt(m, false); m = m0; std::reverse(m.tag.begin(), m.tag.end()); attempt(m, false); m = m0; m.tag = ms[1].tag; attempt(m, false); }
  for (int n = 0; n < p; n++) { c.at(p, a, 5, n); Msg m = m0; m.ct.resize(n); attempt(m, false); m = m0; m.ct.erase(m.ct.begin(), m.ct.begin() + (p - n)); attempt(m, false); }
  for (int n = 0; n < a; n++) { c.at(p, a, 6, n); Msg m = m0; m.aad.resize(n); attempt(m, false); m = m0; m.aad.erase(m.aad.begin(), m.aad.begin() + (a - n)); attempt(m, false); }
  for (int n = 1; n <= 40; n++) for (int v : {0, 0xff}) { c.at(p, a, 7, n, v); Msg m = m0; m.ct.resize(p + n, (uint8_t)v); attempt(m, false); m = m0; m.aad.resize(a + n, (uint8_t)v); attempt(m, false); m = m0; m.ct.insert(m.ct.begin(), n, (uint8_t)v); attempt(m, false); }
  // boundary between aad and ciphertext moved
  for (int n = 1; n <= std::max(p, a); n++) {
    c.at(p, a, 8, n);
    if (n <= p) { Msg m = m0; m.aad.insert(m.aad.end(), m.ct.begin(), m.ct.begin() + n); m.ct.erase(m.ct.begin(), m.ct.begin() + n); attempt(m, false); }
    if (n <= a) { Msg m = m0; m.ct.insert(m.ct.begin(), m.aad.end() - n, m.aad.end()); m.aad.resize(a - n); attempt(m, false); }
  }
  if (p != a) { Msg m = m0; std::swap(m.ct, m.aad); attempt(m, false); }
  for (int i = 0; i + 1 < p; i++) if (m0.ct[i] != m0.ct[i + 1]) { Msg m = m0; std::swap(m.ct[i], m.ct[i + 1]); attempt(m, false); }
  for (int i = 0; i + 32 <= p; i += 16) { Msg m = m0; std::swap_ranges(m.ct.begin() + i, m.ct.begin() + i + 16, m.ct.begin() + i + 16); attempt(m, false); }
}
template <size_t bits> void openLens(Ctx& c, int ivlen, int tier) {
  Bytes key = mc::pattern(4, bits / 8), iv = mc::pattern(5, ivlen);
  auto s = mkGcm<bits>(key, iv), r = mkGcm<bits>(key, iv); ref::Gcm rr(key, iv);
  Bytes pt = mc::pattern(6, 140), aad = mc::pattern(7, 70); uint64_t k = 0;
  for (int p = 0; p <= (tier ? 140 : 100); p++) for (int a = 0; a <= (tier ? 70 : 50); a++) {
    c.at(p, a); Bytes ep = exact(In(pt.data(), p)), ea = exact(In(aad.data(), a));
    auto [ct, tag] = s.Encrypt(ep, ea);
    Bytes wc = rr.crypt(k, ep); Blk wt = rr.tag(k, wc, ea); k++;
    auto [p1, ok] = r.Decrypt(wc, ea, wt);     // a genuine message, from the reference sender
    c.require(ok, "authentic message refused"); c.eq(p1, ep, "recovered plaintext"); c.eq(ct, wc, "sealed ciphertext"); c.eq(tag, wt, "sealed tag");
    c.trans(2); c.trace(2); c.states(1);
    if (a % 5 == 4) { Bytes x = wc; x.push_back(1); auto [p3, ok3] = r.Decrypt(x, ea, wt); c.require(!ok3, "extended message accepted"); s.Encrypt({}, {}); k++; }  // loss of sync in neither side: both advanced one
  }
  Bytes big = mc::pattern(3, 16 * 300 + 1);
  for (int i = 0; i < 3; i++) { auto [ct, tag] = s.Encrypt(big, big); auto [p1, ok] = r.Decrypt(ct, big, tag); c.require(ok, "long message refused"); c.eq(p1, big, "long plaintext"); c.trace(1); }
}
template <size_t bits> void openCount(Ctx& c, int tier) {   // many messages in step, with failures interspersed
  Bytes key = mc::pattern(4, bits / 8), iv = mc::pattern(5, 12), pt = mc::pattern(6, 9);
  auto s = mkGcm<bits>(key, iv), r = mkGcm<bits>(key, iv);
  int total = tier ? 1 << 22 : 140000;
  for (int k = 0; k < total; k++) {
    c.at(k); auto [ct, tag] = s.Encrypt(In(pt.data(), k % 4), {});
    if (k % 3 == 1) { Blk t = tag; t[k % 16] ^= 1 << k % 8; auto [p, ok] = r.Decrypt(ct, {}, t); c.require(!ok, "bad tag accepted"); }
    else { auto [p, ok] = r.Decrypt(ct, {}, tag); c.require(ok, "authentic message refused"); c.eq(p, In(pt.data(), k % 4), "plaintext"); }
    c.trans(2); c.trace(1);
  }
  c.states(total);
  for (uint64_t v : {0xffull, 0xffffull, 0xffffffull, 0xffffffffull, 0xffffffffffull, 0xffffffffffffull, 0xffffffffffffffull, 0x0123456789abcdefull, 0x8000000000000000ull}) for (int d = -1; d <= 1; d++) {
    auto g = mkGcm<bits>(key, iv); ref::Gcm rr(key, iv); if (!setCounter(g, v + d)) continue; c.at(v, d);
    for (int i = 0; i < 3; i++) { uint64_t k = v + d + i; Bytes wc = rr.crypt(k, pt); auto [p, ok] = g.Decrypt(wc, pt, rr.tag(k, wc, pt)); c.require(ok, "authentic message refused at a large message number"); c.eq(p, pt, "plaintext"); c.trace(1); }
  }
}

// n failures in a row, of every kind, then the authentic message in its place
template <size_t bits> void openFailures(Ctx& c, int kind, int tier) {
  Bytes key = mc::pattern(4, bits / 8), iv = mc::pattern(5, kind & 1 ? 12 : 16); ref::Gcm rr(key, iv); auto msg = [&](uint64_t k) { Msg m; m.pt = mc::pattern(6, 17 + k % 3); m.aad = mc::pattern(9, 1 + k % 5); m.ct = rr.crypt(k, m.pt); m.tag = rr.tag(k, m.ct, m.aad); return m; };
  std::vector<size_t> ns; for (size_t n = 1; n <= 40; n++) ns.push_back(n); for (size_t n : {63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 65536}) ns.push_back(n); if (tier) ns.push_back(1 << 20); std::set<size_t> at(ns.begin(), ns.end());
  auto good = [&](GCM<AES<bits>>& g, uint64_t k, const char* w) { Msg m = msg(k); auto [pt, ok] = g.Decrypt(m.ct, m.aad, m.tag); c.trans(1); c.trace(1); if (!ok) c.fail(w); c.eq(pt, m.pt, "plaintext"); };
  auto bad = [&](GCM<AES<bits>>& g, uint64_t k) { Msg m = msg(k); if (kind == 7) m = msg(k + 1); else if (kind == 8) m = msg(k ? k - 1 : 1); else if (kind == 9) { m.ct.clear(); m.aad.clear(); m.tag = {}; } else mutate(m, kind, (int)(k * 5 + k / 128)); auto [pt, ok] = g.Decrypt(m.ct, m.aad, m.tag); c.trans(1); if (ok) c.fail("altered message accepted"); };
  for (int pre = 0; pre < 2; pre++) { auto g = mkGcm<bits>(key, iv); uint64_t k = 0; for (int i = 0; i < pre; i++) good(g, k++, "first message refused"); for (size_t n = 1; n <= ns.back(); n++) { c.at(kind, pre, n); bad(g, k++); if (at.count(n)) { auto h = g; good(h, k, "authentic message refused after a run of failures"); bad(h, k + 1); good(h, k + 2, "authentic message refused after a run of failures and a single one"); c.states(1); } } }
  for (size_t good1 : {1, 2, 3}) for (size_t bad1 : {1, 2, 3, 5}) { auto g = mkGcm<bits>(key, iv); uint64_t k = 0; for (int rep = 0; rep < 300; rep++) { c.at(kind, good1, bad1, rep); for (size_t i = 0; i < bad1; i++) bad(g, k++); for (size_t i = 0; i < good1; i++) good(g, k++, "authentic message refused in an alternation"); } }
}
// ---------------------------------------------------------------- CTR
template <size_t bits> struct Ctr {
  CTR<AES<bits>> m; ref::Aes a; u128 iv; uint64_t k = 0;
  Ctr(const Bytes& key, const Bytes& ivb) : m(key_iv_pair<AES<bits>>(In(key), In(ivb))), a(key) { iv = ref::be(blkOf(ivb)); }
  Bytes stream(uint64_t k, size_t n) { Bytes o; u128 c = iv ^ ((u128)k << 32); while (o.size() < n) { c = ref::Gcm::inc(c); Blk b = a.enc(ref::unbe(c)); o.insert(o.end(), b.begin(), b.end()); } o.resize(n); return o; }
  void step(Ctx& c, In data, bool enc) {
    Bytes buf(data.size() + 32, 0xA7); memcpy(buf.data() + 16, data.data(), data.size());
    std::span<uint8_t> s(buf.data() + 16, data.size());
    if (enc) m.Encrypt(s); else m.Decrypt(s);
    Bytes ks = stream(k, data.size()); for (size_t i = 0; i < ks.size(); i++) ks[i] ^= data[i];
    c.eq(s, ks, enc ? "encrypted data" : "decrypted data");
    for (int i = 0; i < 16; i++) c.require(buf[i] == 0xA7 && buf[16 + data.size() + i] == 0xA7, "bytes outside the data changed");
    k++; c.trans(1); c.trace(1);
  }
};
template <size_t bits> void ctrLens(Ctx& c, int tier) {
  Bytes key = mc::pattern(4, bits / 8), data = mc::pattern(6, 4100);
  for (int q : {0, 1, 5}) { Ctr<bits> s(key, mc::pattern(q, 16)); c.states(1); for (size_t n = 0; n <= (tier ? 2000u : 700u); n++) { c.at(q, n); s.step(c, In(data.data(), n), n & 1); s.step(c, In(data.data(), n), 1); } s.step(c, data, 1); }
}
template <size_t bits> void ctrWrap(Ctx& c) {
  Bytes key = mc::pattern(9, bits / 8), pt = mc::pattern(6, 16 * 6 + 5), big = mc::pattern(3, 16 * 600);
  for (uint32_t b : {0x00000000u, 0x000000feu, 0x0000fffeu, 0x00fffffeu, 0xfffffffeu, 0xff0000feu, 0x7ffffffeu, 0x00fe00feu, 0x0100fffeu, 0xfffefffeu, 0x80fffffeu, 0xffffff00u, 0x0000ff00u}) for (int d = -3; d <= 3; d++) for (int hi = 0; hi < 4; hi++) {
    u128 top = hi == 0 ? 0 : hi == 1 ? ~(u128)0 : hi == 2 ? ((u128)0x0123456789abcdefull << 64 | 0xfedcba98ull << 32) : ((u128)0xffffffffull << 32);
    Blk ib = ref::unbe((top & ~(u128)0xffffffffu) | (uint32_t)(b + d)); Bytes iv(ib.begin(), ib.end());
    c.desc("iv %s", mc::hex(iv).c_str()); Ctr<bits> s(key, iv); c.states(1);
    s.step(c, pt, 1); s.step(c, big, 0); s.step(c, pt, 0);
  }
  Bytes huge = mc::pattern(4, 16 * 65540 + 3); Ctr<bits> s(key, mc::pattern(0, 16)); c.desc("huge message"); s.step(c, huge, 1); s.step(c, huge, 0);
}
template <size_t bits> void ctrCount(Ctx& c, int tier) {
  Bytes key = mc::pattern(11, bits / 8), pt = mc::pattern(6, 5); Ctr<bits> s(key, mc::pattern(5, 16));
  uint64_t total = tier ? (1 << 24) + 300 : (1 << 17);
  for (uint64_t k = 0; k < total; k++) { c.at(k); if (k < 70000 || (k & 0xffff) < 3 || (k & 0xffff) > 0xfffc) s.step(c, In(pt.data(), k % 5), k % 3 != 0); else { s.m.Encrypt({}); s.k++; c.trans(1); } }
  c.states(total);
  for (uint64_t v : {0xffull, 0xffffull, 0xffffffull, 0xffffffffull, 0xffffffffffull, 0xffffffffffffull, 0xffffffffffffffull, 0x0123456789abcdefull, 0x8000000000000000ull}) for (int d = -1; d <= 1; d++) {
    Ctr<bits> t(key, mc::pattern(5, 16)); if (!setCounter(t.m, v + d)) continue; t.k = v + d; c.at(v, d); for (int i = 0; i < 3; i++) t.step(c, mc::pattern(4, 40), 1); c.states(1);
  }
}
template <size_t bits> void ctrHistory(Ctx& c, int tier) {
  Bytes key = mc::pattern(4, bits / 8), data = mc::pattern(6, 64); const int NOPS = 8; int depth = tier ? 6 : 5, total = 1; for (int i = 0; i < depth; i++) total *= NOPS;
  for (int code = 0; code < total; code++) {
    c.at(code); Ctr<bits> a(key, mc::pattern(5, 16)), b(key, mc::pattern(7, 16)); int x = code;
    for (int d = 0; d < depth; d++, x /= NOPS) switch (x % NOPS) {
      case 0: a.step(c, {}, 1); break;
      case 1: a.step(c, In(data.data(), 17), 1); break;
      case 2: a.step(c, In(data.data(), 32), 0); break;
      case 3: b.step(c, In(data.data(), 1), 1); break;
      case 4: b.step(c, In(data.data(), 15), 0); break;
      case 5: { Ctr<bits> t = a; t.step(c, In(data.data(), 5), 1); t.step(c, In(data.data(), 16), 0); break; }
      case 6: b = a; break;
      case 7: { // the peer decrypts the whole sequence so far
        Ctr<bits> p(key, mc::pattern(5, 16)); for (uint64_t k = 0; k < a.k; k++) { Bytes pl = mc::pattern(8, 20), ct = a.stream(k, 20); for (int i = 0; i < 20; i++) ct[i] ^= pl[i]; Bytes w = ct; p.m.Decrypt(w); c.eq(w, pl, "peer decryption"); } break; }
    }
    c.states(1);
  }
}
template <size_t bits> void ctrRefuse(Ctx& c) {
  for (size_t kl = 0; kl <= 70; kl++) for (size_t il = 0; il <= 40; il++) {
    c.at(kl, il); Bytes k = exact(mc::pattern(4, kl)), iv = exact(mc::pattern(5, il)); bool threw = false;
    try { CTR<AES<bits>> m(key_iv_pair<AES<bits>>{In(k), In(iv)}); } catch (const std::exception&) { threw = true; }
    if (threw == (kl == bits / 8 && il == 16)) c.fail(threw ? "valid key and IV refused" : "key or IV of wrong length accepted");
    c.trans(1); c.trace(1); c.states(1);
  }
}

// ---------------------------------------------------------------- ChaCha20
static void chSplits(Ctx& c, int q, int tier) {
  Bytes key = mc::pattern(q, 32), nonce = mc::pattern(q + 1, 12); size_t L = tier ? 64 * 8 + 5 : 64 * 4 + 5;
  Bytes ks = ref::Chacha(key, nonce).stream(L), data = mc::pattern(6, L), want(L); for (size_t i = 0; i < L; i++) want[i] = data[i] ^ ks[i];
  ChaCha20 walk(key, nonce);
  for (size_t a = 0; a <= L; a++) {
    ChaCha20 one(key, nonce); Bytes b1(data.begin(), data.begin() + a); one.Encrypt(b1); c.at(q, a); c.eq(b1, In(want.data(), a), "single call");
    c.states(1);
    for (size_t b = 0; a + b <= L; b++) {
      c.at(q, a, b); ChaCha20 x = (b & 1) ? walk : one; Bytes buf = exact(In(data.data() + a, b));
      if ((a + b) & 1) x.Encrypt(buf); else x.Decrypt(buf);
      c.eq(buf, In(want.data() + a, b), "continued stream"); c.trans(1); c.trace(1);
    }
    if (a < L) { Bytes d1 = {data[a]}; if (a & 1) walk.Encrypt(d1); else walk.Decrypt(d1); c.eq(d1, In(&want[a], 1), "byte-wise"); c.trans(1); }
  }
}
static void chHistory(Ctx& c, int depth) {
  Bytes k1 = mc::pattern(4, 32), n1 = mc::pattern(5, 12), n2 = mc::pattern(6, 12); ref::Chacha r1(k1, n1), r2(k1, n2);
  Bytes s[2] = {r1.stream(64 * 40), r2.stream(64 * 40)};
  const int lens[6] = {0, 1, 63, 64, 65, 127}; const int NOPS = 16; int total = 1; for (int i = 0; i < depth; i++) total *= NOPS;
  for (int code = 0; code < total; code++) {
    c.at(code); ChaCha20 o[2] = {ChaCha20(k1, n1), ChaCha20(k1, n2)}; size_t pos[2] = {0, 0}; int src[2] = {0, 1}; int x = code;
    for (int d = 0; d < depth; d++, x /= NOPS) {
      int op = x % NOPS; c.trans(1);
      if (op < 12) { int w = op / 6; Bytes buf = mc::pattern(2, lens[op % 6]), orig = buf; if ((op + d) & 1) o[w].Encrypt(buf); else o[w].Decrypt(buf);
        for (size_t i = 0; i < buf.size(); i++) if (buf[i] != (uint8_t)(orig[i] ^ s[src[w]][pos[w] + i])) c.fail("stream position wrong in history"); pos[w] += buf.size(); }
      else if (op == 12) { o[1] = o[0]; pos[1] = pos[0]; src[1] = src[0]; }
      else if (op == 13) { o[0] = o[1]; pos[0] = pos[1]; src[0] = src[1]; }
      else if (op == 14) { ChaCha20 t = o[0]; Bytes z(70); t.Encrypt(z); for (int i = 0; i < 70; i++) if (z[i] != s[src[0]][pos[0] + i]) c.fail("copy differs"); }
      else { o[0] = ChaCha20(k1, n1); pos[0] = 0; src[0] = 0; }
    }
    c.trace(1); c.states(1);
  }
}
static void chContent(Ctx& c) {
  auto one = [&](const Bytes& k, const Bytes& n, size_t len) { ChaCha20 x(k, n); Bytes z(len); x.Encrypt(z); c.eq(z, ref::Chacha(k, n).stream(len), "keystream"); c.trans(1); c.trace(1); c.states(1); };
  for (int base : {0, 1, 4}) {
    Bytes K = mc::pattern(base, 32), N = mc::pattern(base, 12);
    for (int i = 0; i < 32; i++) for (int v = 0; v < 256; v++) { c.at(base, i, v); Bytes k = K; k[i] = (uint8_t)v; one(k, N, 130); }
    for (int i = 0; i < 12; i++) for (int v = 0; v < 256; v++) { c.at(base, 100 + i, v); Bytes n = N; n[i] = (uint8_t)v; one(K, n, 130); }
    for (int i = 0; i < 352; i++) for (int j = 0; j < i; j++) { c.at(base, 1000 + i, j); Bytes k = K, n = N; for (int b : {i, j}) (b < 256 ? k[b / 8] : n[(b - 256) / 8]) ^= 1 << b % 8; one(k, n, 64); }
  }
}
static void chLong(Ctx& c, int tier) {
  Bytes key = mc::pattern(4, 32), nonce = mc::pattern(5, 12); ref::Chacha r(key, nonce); ChaCha20 x(key, nonce);
  size_t blocks = tier ? (1u << 24) + 5 : (1u << 19) + 5; Bytes buf(64 * 257); size_t pos = 0;   // pieces of 257 blocks and 1 byte
  while (pos < blocks * 64) {
    size_t n = buf.size() - 63; c.at(pos); std::fill(buf.begin(), buf.end(), 0); x.Encrypt(std::span<uint8_t>(buf.data(), n));
    for (size_t b = pos / 64; b * 64 < pos + n; b++) { uint8_t ks[64]; r.block((uint32_t)b + 1, ks); for (size_t i = std::max(pos, b * 64); i < std::min(pos + n, b * 64 + 64); i++) if (buf[i - pos] != ks[i - b * 64]) c.fail("long keystream differs"); }
    pos += n; c.trans(1); c.trace(1); c.states(n / 64);
  }
}
// very many short calls
static void chMany(Ctx& c, size_t p, int tier) {
  Bytes key = mc::pattern(4, 32), nonce = mc::pattern(6, 12); ref::Chacha r(key, nonce); ChaCha20 x(key, nonce); size_t n = tier ? (1 << 20) + 3 : 65540, pos = 0; uint8_t ks[64]; Bytes z(p);
  for (size_t k = 0; k < n; k++) { c.at(p, k); std::fill(z.begin(), z.end(), (uint8_t)k); if (k & 1) x.Decrypt(z); else x.Encrypt(z); c.trans(1); for (size_t i = 0; i < p; i++, pos++) { if (pos % 64 == 0) r.block((uint32_t)(pos / 64) + 1, ks); if ((z[i] ^ (uint8_t)k) != ks[pos % 64]) c.fail("key stream differs after many calls"); } if (k % 4099 == 0) { ChaCha20 y = x; x = y; c.trace(1); } }
  c.states(n);
}
static void chRefuse(Ctx& c) {
  for (size_t kl = 0; kl <= 80; kl++) for (size_t nl = 0; nl <= 40; nl++) {
    c.at(kl, nl); Bytes k = exact(mc::pattern(4, kl)), n = exact(mc::pattern(5, nl)); bool threw = false;
    try { ChaCha20 x(k, n); } catch (const std::exception&) { threw = true; }
    if (threw == (kl == 32 && nl == 12)) c.fail(threw ? "valid sizes refused" : "wrong size accepted");
    c.trans(1); c.trace(1); c.states(1);
  }
}

// ---------------------------------------------------------------- messages of several gigabytes in one call
#if GROUP >= 3
static constexpr size_t G4 = 1ull << 32;
template <size_t bits> const EVP_CIPHER* evpGcm() { return bits == 128 ? EVP_aes_128_gcm() : EVP_aes_256_gcm(); }
#endif
#if GROUP == 3
template <size_t bits> void gcmHugeAad(Ctx& c) {
  Bytes key = mc::pattern(4, bits / 8), iv = mc::pattern(5, 12), pt = mc::pattern(6, 35); huge::Tiles t(G4 + 21, (1 << 20) + 4096);
  for (size_t n : {(1ul << 29) - 1, 1ul << 29, (1ul << 29) + 5, (1ul << 31) + 3, G4 + 21}) {
    c.at(n); c.desc("associated data of %zu bytes", n); auto g = mkGcm<bits>(key, iv); auto [ct, tag] = g.Encrypt(pt, t.cspan().first(n)); c.beat(); c.trans();
    huge::Evp e(evpGcm<bits>(), key.data(), iv.data(), true); e.aad(t.cspan().first(n)); Bytes want(pt.size()); e.run(pt, want.data()); c.eq(ct, want, "ciphertext"); c.eq(tag, e.tag(), "tag"); c.trace(); c.states();
  }
}
template <size_t bits> void gcmHugePt(Ctx& c, size_t n) {
  Bytes key = mc::pattern(4, bits / 8), iv = mc::pattern(5, 12), aad = mc::pattern(6, 35); huge::Tiles t(n, (1 << 20) + 4096); c.desc("plaintext of %zu bytes", n);
  auto g = mkGcm<bits>(key, iv); auto [ct, tag] = g.Encrypt(t.cspan(), aad); c.beat(); c.trans(); c.equ(ct.size(), n, "ciphertext length");
  huge::Evp e(evpGcm<bits>(), key.data(), iv.data(), true); e.aad(aad); Bytes want(1 << 20); huge::pieces(t.cspan(), [&](In p, size_t o) { e.run(p, want.data()); if (memcmp(want.data(), ct.data() + o, p.size())) c.fail(mc::fmt("ciphertext differs within the mebibyte at %zu", o)); if (!(o & 0xfffffff)) c.beat(); }); c.eq(tag, e.tag(), "tag"); c.trace(); c.states();
}
#endif
#if GROUP == 4
template <size_t bits> void openHugeAad(Ctx& c) {
  Bytes key = mc::pattern(4, bits / 8), iv = mc::pattern(5, 12), pt = mc::pattern(6, 35);
  for (size_t n : {(1ul << 29) + 5, G4 + 21}) {
    c.desc("associated data of %zu bytes", n); huge::Tiles t(n, (1 << 20) + 4096); huge::Evp e(evpGcm<bits>(), key.data(), iv.data(), true); e.aad(t.cspan()); Bytes ct(pt.size()); e.run(pt, ct.data()); Blk tag = blkOf(e.tag());
    auto open = [&](bool want, const char* what) { auto g = mkGcm<bits>(key, iv); auto [p, ok] = g.Decrypt(ct, t.cspan(), tag); c.beat(); c.trans(); c.trace(); c.require(ok == want, what); if (want) c.eq(p, pt, "plaintext"); };
    open(true, "authentic message refused"); for (size_t at : {n - 1, n - 17, (size_t)1 << 29, (size_t)0}) { if (n < G4 && at != n - 1) continue; uint8_t* p = t.own(at); *p ^= 4; c.desc("associated data of %zu bytes altered at %zu", n, at); open(false, "altered message accepted"); *p ^= 4; } c.states();
  }
}
template <size_t bits> void openHugeCt(Ctx& c, size_t n) {
  Bytes key = mc::pattern(4, bits / 8), iv = mc::pattern(5, 12), aad = mc::pattern(6, 35); huge::Tiles t(n, (1 << 20) + 4096); c.desc("ciphertext of %zu bytes", n); Bytes buf(1 << 20), b2(1 << 20); Blk tag;
  { huge::Evp d(evpGcm<bits>(), key.data(), iv.data(), false), e(evpGcm<bits>(), key.data(), iv.data(), true); d.aad(aad); e.aad(aad); huge::pieces(t.cspan(), [&](In p, size_t o) { d.run(p, buf.data()); e.run(In(buf.data(), p.size()), b2.data()); if (!(o & 0xfffffff)) c.beat(); }); tag = blkOf(e.tag()); }
  { auto g = mkGcm<bits>(key, iv); auto [pt, ok] = g.Decrypt(t.cspan(), aad, tag); c.beat(); c.require(ok, "authentic message refused"); c.equ(pt.size(), n, "plaintext length"); huge::Evp d(evpGcm<bits>(), key.data(), iv.data(), false); d.aad(aad); huge::pieces(t.cspan(), [&](In p, size_t o) { d.run(p, buf.data()); if (memcmp(buf.data(), pt.data() + o, p.size())) c.fail(mc::fmt("plaintext differs within the mebibyte at %zu", o)); if (!(o & 0xfffffff)) c.beat(); }); c.trans(); c.trace(); }
  { *t.own(n - 1) ^= 1; auto g = mkGcm<bits>(key, iv); bool ok = g.Decrypt(t.cspan(), aad, tag).second; c.beat(); c.require(!ok, "message altered in its last byte accepted"); c.trans(); c.trace(); } c.states();
}
#endif
#if GROUP == 5
template <size_t bits> void ctrHuge(Ctx& c) {
  Bytes key = mc::pattern(4, bits / 8), iv = mc::pattern(5, 16), next; memset(&iv[12], 0, 4); next = iv; next[15] = 1;
  for (bool dec : {false, true}) { size_t n = bits == 128 ? G4 + 21 : (1ull << 31) + 35; huge::Tiles t(n, (1 << 20) + 4096, true); c.desc("%zu bytes in one call", n);
    CTR<AES<bits>> x(key_iv_pair<AES<bits>>{In(key), In(iv)}); if (dec) x.Decrypt(t.span()); else x.Encrypt(t.span()); c.beat(); c.trans();
    huge::Evp e(bits == 128 ? EVP_aes_128_ctr() : EVP_aes_256_ctr(), key.data(), next.data(), true); Bytes want(t.period), z(t.period), k(t.period); for (size_t o = 0; o < n; o += t.period) { size_t m = std::min(t.period, n - o); e.run(In(z.data(), m), k.data()); for (size_t i = 0; i < m; i++) want[i] ^= k[i]; if (!(o & 0xfff)) c.beat(); }
    if (memcmp(want.data(), t.base, t.period)) { for (size_t i = 0; i < t.period; i++) if (want[i] != t.base[i]) c.fail(mc::fmt("the key streams of %zu-byte tiles, added up, differ at %zu", t.period, i)); } c.trace(); c.states(); }
}
#endif
#if GROUP == 6
static void chHuge(Ctx& c, bool dec) {
  Bytes key = mc::pattern(4, 32), nonce = mc::pattern(5, 12), iv = {1, 0, 0, 0}; iv.insert(iv.end(), nonce.begin(), nonce.end()); size_t n = dec ? (1ull << 31) + 3 : G4 + 21; huge::Tiles t(n, (1 << 20) + 4096, true); c.desc("%zu bytes in one call", n);
  ChaCha20 x(key, nonce); if (dec) x.Decrypt(t.span()); else x.Encrypt(t.span()); c.beat(); c.trans(); Bytes after(150); x.Encrypt(after);
  huge::Evp e(EVP_chacha20(), key.data(), iv.data(), true); Bytes want(t.period), z(t.period), k(t.period); for (size_t o = 0; o < n; o += t.period) { size_t m = std::min(t.period, n - o); e.run(In(z.data(), m), k.data()); for (size_t i = 0; i < m; i++) want[i] ^= k[i]; if (!(o & 0xfff)) c.beat(); }
  for (size_t i = 0; i < t.period; i++) if (want[i] != t.base[i]) c.fail(mc::fmt("the key streams of %zu-byte tiles, added up, differ at %zu", t.period, i)); Bytes w2(150); e.run(In(z.data(), 150), w2.data()); c.eq(after, w2, "key stream after the long call"); c.trace(); c.states();
}
#endif

// ---------------------------------------------------------------- sizes from which an implementation may work in bulk
#if GROUP >= 3
static Bytes numbered(Bytes iv, uint64_t k) { for (int i = 0; i < 8; i++) iv[4 + i] ^= (uint8_t)(k >> (56 - 8 * i)); return iv; }
#endif
#if GROUP == 3
template <size_t bits> void gcmBulk(Ctx& c, int kmax, int part) {
  Bytes key = mc::pattern(4, bits / 8), iv = mc::pattern(5, 12); auto lens = huge::bulk(16, kmax); Bytes d = huge::data(lens.back() + 64, 1), a = huge::data(lens.back() + 64, 2), want(lens.back() + 64); auto g = mkGcm<bits>(key, iv); uint64_t k = 0;
  auto step = [&](size_t p, size_t q) { c.at(p, q); auto [ct, tag] = g.Encrypt(In(d.data() + k % 16, p), In(a.data() + k % 7, q)); Bytes n = numbered(iv, k); huge::Evp e(evpGcm<bits>(), key.data(), n.data(), true); if (q) e.aad(In(a.data() + k % 7, q)); if (p) e.run(In(d.data() + k % 16, p), want.data()); c.eq(ct, In(want.data(), p), "ciphertext of a long message"); c.eq(tag, e.tag(), "tag of a long message"); k++; c.trans(); c.trace(); c.states(); };
  for (size_t n : lens) { if (part == 0) for (size_t q : {0, 1, 16, 17}) { step(n, q); step(5, 3); } else if (part == 1) for (size_t p : {0, 1, 16, 17}) { step(p, n); step(5, 3); } else { step(n, n); step(n, 4096); step(4096, n); } }
}
#endif
#if GROUP == 4
template <size_t bits> void openBulk(Ctx& c, int kmax, int part) {
  Bytes key = mc::pattern(4, bits / 8), iv = mc::pattern(5, 12); auto lens = huge::bulk(16, kmax); Bytes d = huge::data(lens.back(), 1), a = huge::data(lens.back(), 2), ct(lens.back()); auto g = mkGcm<bits>(key, iv); uint64_t k = 0;
  auto round = [&](size_t p, size_t q) {
    Bytes ad(a.begin(), a.begin() + q); auto seal = [&] { Bytes n = numbered(iv, k); k++; huge::Evp e(evpGcm<bits>(), key.data(), n.data(), true); if (q) e.aad(ad); ct.resize(p); if (p) e.run(In(d.data(), p), ct.data()); return blkOf(e.tag()); };
    c.at(p, q); Blk t = seal(); auto [pt, ok] = g.Decrypt(ct, ad, t); c.require(ok, "authentic long message refused"); c.eq(pt, In(d.data(), p), "plaintext of a long message"); c.trans(); c.trace(); c.states();
    for (int where = 0; where < 2; where++) { size_t n = where ? q : p; if (n < 200) continue; for (size_t at : std::set<size_t>{0, n / 2, n - 1, n - 16, n - 17, n / 16 * 16 - 1, n / 64 * 64 - 1, n / 128 * 128 - 1, n / 1024 * 1024 % n}) { c.at(p, q, where, at); t = seal(); (where ? ad : ct)[at] ^= 0x80; bool ok2 = g.Decrypt(ct, ad, t).second; (where ? ad : ct)[at] ^= 0x80; c.require(!ok2, "altered long message accepted"); c.trans(); c.trace(); } }
  };
  for (size_t n : lens) { if (part == 0) { round(n, 0); round(n, 17); } else if (part == 1) { round(0, n); round(17, n); } else round(n, n); }
}
#endif
#if GROUP == 5
template <size_t bits> void ctrBulk(Ctx& c, int kmax) {
  Bytes key = mc::pattern(4, bits / 8), iv = mc::pattern(5, 16); memset(&iv[12], 0, 4); auto lens = huge::bulk(16, kmax); Bytes d = huge::data(lens.back(), 1), want(lens.back()); CTR<AES<bits>> x(key_iv_pair<AES<bits>>{In(key), In(iv)}); uint64_t k = 0;
  for (size_t n : lens) for (bool dec : {false, true}) for (size_t m : {n, (size_t)21}) { c.at(n, dec, m); Bytes b(d.begin(), d.begin() + m); if (dec) x.Decrypt(b); else x.Encrypt(b); Bytes i = numbered(iv, k++); i[15] = 1; huge::Evp e(bits == 128 ? EVP_aes_128_ctr() : EVP_aes_256_ctr(), key.data(), i.data(), true); e.run(In(d.data(), m), want.data()); c.eq(b, In(want.data(), m), "key stream of a long message"); c.trans(); c.trace(); c.states(); }
}
#endif
#if GROUP == 6
static void chBulk(Ctx& c, int kmax, size_t start) {
  Bytes key = mc::pattern(4, 32), nonce = mc::pattern(5, 12), iv = {1, 0, 0, 0}; iv.insert(iv.end(), nonce.begin(), nonce.end()); auto lens = huge::bulk(64, kmax); Bytes ks(lens.back() + 10000), z(ks.size()), d = huge::data(ks.size()); { huge::Evp e(EVP_chacha20(), key.data(), iv.data(), true); e.run(z, ks.data()); }
  for (size_t n : lens) for (int ops = 0; ops < 4; ops++) { ChaCha20 x(key, nonce); size_t pos = 0; int o = 0; auto go = [&](ChaCha20& w, size_t m, bool dec) { c.at(start, n, ops, o++, m); Bytes b(d.begin() + pos, d.begin() + pos + m); if (dec) w.Decrypt(b); else w.Encrypt(b); for (size_t i = 0; i < m; i++) if (b[i] != (uint8_t)(d[pos + i] ^ ks[pos + i])) c.fail(mc::fmt("stream differs at position %zu", pos + i)); pos += m; c.trans(); c.trace(); };
    go(x, start, ops & 2); go(x, n, ops & 1); size_t p0 = pos; for (size_t t : {(size_t)1, (size_t)63, (size_t)64, (size_t)65, (size_t)128, (size_t)4096}) { ChaCha20 y = x; pos = p0; go(y, t, ops & 2); go(y, 4096, ops & 1); go(y, 65, ops & 2); } c.states(); }
}
#endif

int main(int argc, char** argv) {
  return mc::run(argc, argv, [](int tier) {
    mc::Options o;
#ifdef ASAN
    o.as_limit_mb = 0;
#endif
#if GROUP >= 3
    if (o.as_limit_mb) o.as_limit_mb = 24000; o.hang_s = 300;
#endif
    auto add = [&](std::string n, std::function<void(Ctx&)> f) { o.units.push_back({n, f}); };
    o.assumptions = {"reference ciphers: refcipher.hpp (bitwise, from the standards), cross-checked with the openssl command line by tools/selftest_cipher.py", "key, IV and data contents outside the enumerated families are extrapolated"};
#if GROUP == 1
    o.rule = "per key size: all 1- and 2-bit keys, every value of every key byte (3 bases), every value of every block byte and all 1-/2-bit blocks on one schedule (4 keys), a chained key/block walk with copied schedules, every key length 0..300 refused (address sanitizer watching)";
    for (int m : {3, 0, 1, 2, 4}) { add("aes128/" + std::to_string(m), [=](Ctx& c) { aesKeys<128>(c, m, tier); }); add("aes256/" + std::to_string(m), [=](Ctx& c) { aesKeys<256>(c, m, tier); }); }
#elif GROUP == 2
    o.rule = "all pairs of operands with at most two bits set (68 million), all pairs over an 8-word alphabet per 32-bit word in both orders (33 million), all single-byte pairs at all positions (16 million), reflect on every byte value, GHASH chains";
    for (int i = 127; i >= 0; i--) add("bits/" + std::to_string(i), [=](Ctx& c) { gfBits(c, i); });
    for (int i = 0; i < 16; i++) add("words/" + std::to_string(i), [=](Ctx& c) { gfWords(c, i, 16); });
    add("misc", gfMisc);
#elif GROUP == 3
    add("128/huge-pt", [=](Ctx& c) { gcmHugePt<128>(c, G4 + 21); }); add("128/huge-aad", [=](Ctx& c) { gcmHugeAad<128>(c); }); add("256/huge-pt", [=](Ctx& c) { gcmHugePt<256>(c, (1ull << 31) + 35); }); add("256/huge-pt29", [=](Ctx& c) { gcmHugePt<256>(c, (1ull << 29) + 3); }); if (tier) add("256/huge-aad", [=](Ctx& c) { gcmHugeAad<256>(c); });
    o.rule = "plaintexts and additional data of 2^8..2^17 (2^20) bytes and their neighbours (libcrypto); plaintexts to 2^32+21 bytes and associated data of 2^29-1, 2^29, 2^29+5, 2^31+3, 2^32+21 bytes (libcrypto); per key size: every plaintext length 0..100 (200) x aad length 0..53 (120) for IV lengths 8, 12, 13, 16, 17, 32 with consecutive message numbers; IV lengths 0..300 (1200); counter blocks chosen (IV solved through the GHASH inverse) at every byte-carry boundary incl. 2^32 wrap; messages past 2^16 blocks; 2^17 (2^24) messages per object and message numbers at every byte boundary up to 2^64; all single-bit keys/IVs/texts; all 7^5 (7^6) sealing histories of two objects with copies";
    for (int iv : {8, 12, 13, 16, 17, 32}) { add(mc::fmt("128/lens%d", iv), [=](Ctx& c) { gcmLens<128>(c, iv, tier); }); add(mc::fmt("256/lens%d", iv), [=](Ctx& c) { gcmLens<256>(c, iv, tier); }); }
    for (int iv : {12, 16}) { add(mc::fmt("128/count%d", iv), [=](Ctx& c) { gcmCount<128>(c, tier, iv); }); add(mc::fmt("256/count%d", iv), [=](Ctx& c) { gcmCount<256>(c, tier, iv); }); }
    add("128/ivs", [=](Ctx& c) { gcmIvs<128>(c, tier); }); add("256/ivs", [=](Ctx& c) { gcmIvs<256>(c, tier); });
    for (int q = 0; q < 3; q++) { add(mc::fmt("128/bulk%d", q), [=](Ctx& c) { gcmBulk<128>(c, tier ? 20 : 17, q); }); add(mc::fmt("256/bulk%d", q), [=](Ctx& c) { gcmBulk<256>(c, tier ? 20 : 17, q); }); }
    add("128/wrap", [=](Ctx& c) { gcmWrap<128>(c); }); add("256/wrap", [=](Ctx& c) { gcmWrap<256>(c); });
    add("128/long", [=](Ctx& c) { gcmLong<128>(c, tier); }); add("256/long", [=](Ctx& c) { gcmLong<256>(c, tier); });
    add("128/content", [=](Ctx& c) { gcmContent<128>(c); }); add("256/content", [=](Ctx& c) { gcmContent<256>(c); });
    add("128/history", [=](Ctx& c) { gcmHistory<128>(c, tier); }); add("256/history", [=](Ctx& c) { gcmHistory<256>(c, tier); });
#elif GROUP == 4
    add("128/huge-ct", [=](Ctx& c) { openHugeCt<128>(c, G4 + 21); }); add("256/huge-aad", [=](Ctx& c) { openHugeAad<256>(c); }); add("256/huge-ct", [=](Ctx& c) { openHugeCt<256>(c, (1ull << 29) + 3); }); if (tier) add("128/huge-aad", [=](Ctx& c) { openHugeAad<128>(c); });
    o.rule = "runs of 1..65536 (2^20) failures of nine kinds before an authentic message, and alternations; ciphertexts and additional data of 2^8..2^15 (2^18) bytes and their neighbours, intact and altered at block edges (libcrypto); ciphertexts and associated data to 2^32+21 bytes, authentic and altered (libcrypto); all delivery histories of depth 4 (5): each step delivers any of 4 (5) sent messages intact or altered in one of 6 ways, 3 message shapes, IV lengths 12/16/8; all single-bit flips of ciphertext, aad and tag, all double flips and byte changes of the tag, all truncations, extensions and aad/ciphertext boundary moves for 9 shapes, each followed by the next authentic message; all lengths 0..100 x 0..50; 140000 (2^22) messages in step with interspersed failures";
    for (int s = 0; s < 3; s++) for (int f = 0; f < (tier ? 5 : 4) * NMUT; f++) { add(mc::fmt("128/hist%d.%d", s, f), [=](Ctx& c) { openHistories<128>(c, s == 2 ? 16 : 12, s, tier, f); }); add(mc::fmt("256/hist%d.%d", s, f), [=](Ctx& c) { openHistories<256>(c, s == 2 ? 8 : 12, s, tier, f); }); }
    for (auto [p, a] : std::vector<std::pair<int, int>>{{0, 0}, {1, 0}, {0, 1}, {16, 16}, {15, 17}, {17, 15}, {48, 33}, {64, 0}, {5, 40}}) { add(mc::fmt("128/bits%d.%d", p, a), [=](Ctx& c) { openBits<128>(c, p, a, 12); }); add(mc::fmt("256/bits%d.%d", p, a), [=](Ctx& c) { openBits<256>(c, p, a, 20); }); }
    for (int iv : {8, 12, 16, 33}) { add(mc::fmt("128/lens%d", iv), [=](Ctx& c) { openLens<128>(c, iv, tier); }); add(mc::fmt("256/lens%d", iv), [=](Ctx& c) { openLens<256>(c, iv, tier); }); }
    for (int q = 0; q < 3; q++) { add(mc::fmt("128/bulk%d", q), [=](Ctx& c) { openBulk<128>(c, tier ? 18 : 15, q); }); add(mc::fmt("256/bulk%d", q), [=](Ctx& c) { openBulk<256>(c, tier ? 18 : 15, q); }); }
    for (int k = CT; k <= 9; k++) { add(mc::fmt("128/failures%d", k), [=](Ctx& c) { openFailures<128>(c, k, tier); }); add(mc::fmt("256/failures%d", k), [=](Ctx& c) { openFailures<256>(c, k, tier); }); }
    add("128/count", [=](Ctx& c) { openCount<128>(c, tier); }); add("256/count", [=](Ctx& c) { openCount<256>(c, tier); });
#elif GROUP == 5 && defined(HUGE)
    o.rule = "messages of 2^8..2^18 (2^21) bytes and their neighbours (libcrypto); one call over 2^32+21 (AES-128) and 2^31+35 bytes (AES-256), encrypt and decrypt, against libcrypto: the data are 1 MiB tiles mapped onto the same memory, so what is compared is the sum of the tiles' key streams";
    add("128/huge", ctrHuge<128>); add("256/huge", ctrHuge<256>); add("128/bulk", [=](Ctx& c) { ctrBulk<128>(c, tier ? 21 : 18); }); add("256/bulk", [=](Ctx& c) { ctrBulk<256>(c, tier ? 21 : 18); });
#elif GROUP == 5
    o.rule = "per key size: every length 0..700 (2000) for 3 IVs with guard bytes around the data; IVs at every byte-carry boundary of the 32-bit block counter; messages past 2^16 blocks; 2^17 (2^24) messages per object and message numbers at byte boundaries up to 2^64; all 8^5 (8^6) histories of two objects with copies and peers; all key lengths 0..70 x IV lengths 0..40 for refusal";
    add("128/count", [=](Ctx& c) { ctrCount<128>(c, tier); }); add("256/count", [=](Ctx& c) { ctrCount<256>(c, tier); });
    add("128/hist", [=](Ctx& c) { ctrHistory<128>(c, tier); }); add("256/hist", [=](Ctx& c) { ctrHistory<256>(c, tier); });
    add("128/wrap", [=](Ctx& c) { ctrWrap<128>(c); }); add("256/wrap", [=](Ctx& c) { ctrWrap<256>(c); });
    add("128/lens", [=](Ctx& c) { ctrLens<128>(c, tier); }); add("256/lens", [=](Ctx& c) { ctrLens<256>(c, tier); });
    add("128/refuse", [=](Ctx& c) { ctrRefuse<128>(c); }); add("256/refuse", [=](Ctx& c) { ctrRefuse<256>(c); });
#elif GROUP == 6
    add("huge", [=](Ctx& c) { chHuge(c, false); }); add("huge-decrypt", [=](Ctx& c) { chHuge(c, true); });
    o.rule = "65540 (2^20+3) calls of 0, 1, 63, 64, 65 bytes; pieces of 2^8..2^15 (2^18) bytes and their neighbours from six positions, what follows them in two more steps (libcrypto); one call over 2^32+21 bytes and what follows it (libcrypto); every (position, piece length) pair up to 4 (8) blocks via two histories each for 4 keys; all 16^4 (16^5) histories of two objects over lengths {0,1,63,64,65,127}, copies and restarts; every value of every key and nonce byte, all 2-bit changes; a stream past 2^19 (2^24) blocks; all key lengths 0..80 x nonce lengths 0..40 for refusal";
    add("long", [=](Ctx& c) { chLong(c, tier); }); for (size_t p : {0, 1, 63, 64, 65}) add(mc::fmt("many/%zu", p), [=](Ctx& c) { chMany(c, p, tier); }); for (size_t p : {0, 1, 32, 63, 64, 100}) add(mc::fmt("bulk/%zu", p), [=](Ctx& c) { chBulk(c, tier ? 18 : 15, p); });
    add("history", [=](Ctx& c) { chHistory(c, tier ? 5 : 4); });
    for (int q : {0, 1, 4, 5}) add(mc::fmt("splits%d", q), [=](Ctx& c) { chSplits(c, q, tier); });
    add("content", chContent); add("refuse", chRefuse);
#endif
    return o;
  });
}
