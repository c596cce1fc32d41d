// Reference digests, written from RFC 1321, FIPS 180-4, FIPS 202 and IEEE 802.3 on whole messages.
// Constants are derived (sines, prime roots, LFSRs), not copied tables.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <span>
#include <string>
#include <vector>

namespace ref {
using Bytes = std::vector<uint8_t>;
using In = std::span<const uint8_t>;

inline uint32_t rol(uint32_t x, int n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }
inline uint32_t ror(uint32_t x, int n) { return rol(x, 32 - n); }
inline uint64_t rol64(uint64_t x, int n) { n &= 63; return n ? (x << n) | (x >> (64 - n)) : x; }
inline uint64_t ror64(uint64_t x, int n) { return rol64(x, 64 - n); }

// Merkle-Damgard padding of a whole message
inline Bytes mdpad(In m, size_t block, size_t lenbytes, bool bigEndian) {
  Bytes p(m.begin(), m.end());
  p.push_back(0x80);
  while (p.size() % block != block - lenbytes) p.push_back(0);
  unsigned __int128 bits = (unsigned __int128)m.size() * 8;
  for (size_t i = 0; i < lenbytes; i++) {
    size_t sh = bigEndian ? 8 * (lenbytes - 1 - i) : 8 * i;
    p.push_back((uint8_t)(bits >> sh));
  }
  return p;
}

inline Bytes md5(In m) {
  static const auto K = [] { std::vector<uint32_t> k(64); for (int i = 0; i < 64; i++) k[i] = (uint32_t)(int64_t)std::floor(std::fabs(std::sin((double)(i + 1))) * 4294967296.0); return k; }();
  static const int S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
  uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  Bytes p = mdpad(m, 64, 8, false);
  for (size_t o = 0; o < p.size(); o += 64) {
    uint32_t X[16];
    for (int i = 0; i < 16; i++) X[i] = p[o + 4 * i] | (uint32_t)p[o + 4 * i + 1] << 8 | (uint32_t)p[o + 4 * i + 2] << 16 | (uint32_t)p[o + 4 * i + 3] << 24;
    uint32_t A = h[0], B = h[1], C = h[2], D = h[3];
    for (int i = 0; i < 64; i++) {
      int r = i / 16, k; uint32_t f;
      switch (r) {
        case 0: f = (B & C) | (~B & D); k = i; break;
        case 1: f = (B & D) | (C & ~D); k = (5 * i + 1) % 16; break;
        case 2: f = B ^ C ^ D; k = (3 * i + 5) % 16; break;
        default: f = C ^ (B | ~D); k = (7 * i) % 16;
      }
      uint32_t t = B + rol(A + f + X[k] + K[i], S[r][i % 4]);
      A = D; D = C; C = B; B = t;
    }
    h[0] += A; h[1] += B; h[2] += C; h[3] += D;
  }
  Bytes out;
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) out.push_back((uint8_t)(h[i] >> (8 * j)));
  return out;
}

inline Bytes sha1(In m) {
  uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
  Bytes p = mdpad(m, 64, 8, true);
  for (size_t o = 0; o < p.size(); o += 64) {
    uint32_t W[80];
    for (int i = 0; i < 16; i++) W[i] = (uint32_t)p[o + 4 * i] << 24 | (uint32_t)p[o + 4 * i + 1] << 16 | (uint32_t)p[o + 4 * i + 2] << 8 | p[o + 4 * i + 3];
    for (int i = 16; i < 80; i++) W[i] = rol(W[i - 3] ^ W[i - 8] ^ W[i - 14] ^ W[i - 16], 1);
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 80; i++) {
      uint32_t f, k;
      if (i < 20) { f = (b & c) ^ (~b & d); k = 0x5a827999; }
      else if (i < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
      else if (i < 60) { f = (b & c) ^ (b & d) ^ (c & d); k = 0x8f1bbcdc; }
      else { f = b ^ c ^ d; k = 0xca62c1d6; }
      uint32_t t = rol(a, 5) + f + e + k + W[i];
      e = d; d = c; c = rol(b, 30); b = a; a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
  }
  Bytes out;
  for (int i = 0; i < 5; i++) for (int j = 3; j >= 0; j--) out.push_back((uint8_t)(h[i] >> (8 * j)));
  return out;
}

// first 64 fractional bits of the square / cube root of n, by integer bisection
inline uint64_t rootfrac(unsigned n, int k) {
  // find the largest integer r with r^k <= n * 2^(64k); fraction = low 64 bits
  auto le = [&](unsigned __int128 r) {
    // r < 2^69; compare r^k with n << 64k using 32-bit limb big integers
    auto mul = [](std::vector<uint32_t> a, std::vector<uint32_t> b) {
      std::vector<uint32_t> x(a.size() + b.size(), 0);
      for (size_t i = 0; i < a.size(); i++) { uint64_t c = 0; for (size_t j = 0; j < b.size(); j++) { c += (uint64_t)a[i] * b[j] + x[i + j]; x[i + j] = (uint32_t)c; c >>= 32; } x[i + b.size()] = (uint32_t)c; }
      return x;
    };
    std::vector<uint32_t> R = {(uint32_t)r, (uint32_t)(r >> 32), (uint32_t)(r >> 64)}, p = R;
    for (int i = 1; i < k; i++) p = mul(p, R);
    std::vector<uint32_t> N(p.size(), 0); N[2 * k] = n;
    for (size_t i = p.size(); i-- > 0;) if (p[i] != N[i]) return p[i] < N[i];
    return true;
  };
  unsigned __int128 lo = 0, hi = (unsigned __int128)1 << 69;
  while (hi - lo > 1) { unsigned __int128 mid = (lo + hi) / 2; if (le(mid)) lo = mid; else hi = mid; }
  return (uint64_t)lo;
}
inline const std::vector<unsigned>& primes80() {
  static const auto v = [] { std::vector<unsigned> p; for (unsigned n = 2; p.size() < 80; n++) { bool ok = true; for (unsigned q : p) if (n % q == 0) { ok = false; break; } if (ok) p.push_back(n); } return p; }();
  return v;
}
inline const std::vector<uint64_t>& K512() {
  static const auto v = [] { std::vector<uint64_t> k; for (unsigned p : primes80()) k.push_back(rootfrac(p, 3)); return k; }();
  return v;
}
inline const std::vector<uint64_t>& sqrtfrac() {
  static const auto v = [] { std::vector<uint64_t> k; for (int i = 0; i < 16; i++) k.push_back(rootfrac(primes80()[i], 2)); return k; }();
  return v;
}
inline Bytes sha2_32(In m, bool is224) {
  uint32_t h[8];
  for (int i = 0; i < 8; i++) h[i] = is224 ? (uint32_t)sqrtfrac()[8 + i] : (uint32_t)(sqrtfrac()[i] >> 32);
  Bytes p = mdpad(m, 64, 8, true);
  const auto& K = K512();
  for (size_t o = 0; o < p.size(); o += 64) {
    uint32_t W[64];
    for (int i = 0; i < 16; i++) W[i] = (uint32_t)p[o + 4 * i] << 24 | (uint32_t)p[o + 4 * i + 1] << 16 | (uint32_t)p[o + 4 * i + 2] << 8 | p[o + 4 * i + 3];
    for (int i = 16; i < 64; i++) {
      uint32_t s0 = ror(W[i - 15], 7) ^ ror(W[i - 15], 18) ^ (W[i - 15] >> 3);
      uint32_t s1 = ror(W[i - 2], 17) ^ ror(W[i - 2], 19) ^ (W[i - 2] >> 10);
      W[i] = W[i - 16] + s0 + W[i - 7] + s1;
    }
    uint32_t v[8]; memcpy(v, h, sizeof v);
    for (int i = 0; i < 64; i++) {
      uint32_t S1 = ror(v[4], 6) ^ ror(v[4], 11) ^ ror(v[4], 25), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
      uint32_t t1 = v[7] + S1 + ch + (uint32_t)(K[i] >> 32) + W[i];
      uint32_t S0 = ror(v[0], 2) ^ ror(v[0], 13) ^ ror(v[0], 22), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
      for (int j = 7; j > 0; j--) v[j] = v[j - 1];
      v[4] += t1; v[0] = t1 + S0 + mj;
    }
    for (int i = 0; i < 8; i++) h[i] += v[i];
  }
  Bytes out;
  for (int i = 0; i < 8; i++) for (int j = 3; j >= 0; j--) out.push_back((uint8_t)(h[i] >> (8 * j)));
  out.resize(is224 ? 28 : 32);
  return out;
}
inline Bytes sha2_64(In m, bool is384) {
  uint64_t h[8];
  for (int i = 0; i < 8; i++) h[i] = sqrtfrac()[is384 ? 8 + i : i];
  Bytes p = mdpad(m, 128, 16, true);
  const auto& K = K512();
  for (size_t o = 0; o < p.size(); o += 128) {
    uint64_t W[80];
    for (int i = 0; i < 16; i++) { W[i] = 0; for (int j = 0; j < 8; j++) W[i] = W[i] << 8 | p[o + 8 * i + j]; }
    for (int i = 16; i < 80; i++) {
      uint64_t s0 = ror64(W[i - 15], 1) ^ ror64(W[i - 15], 8) ^ (W[i - 15] >> 7);
      uint64_t s1 = ror64(W[i - 2], 19) ^ ror64(W[i - 2], 61) ^ (W[i - 2] >> 6);
      W[i] = W[i - 16] + s0 + W[i - 7] + s1;
    }
    uint64_t v[8]; memcpy(v, h, sizeof v);
    for (int i = 0; i < 80; i++) {
      uint64_t S1 = ror64(v[4], 14) ^ ror64(v[4], 18) ^ ror64(v[4], 41), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
      uint64_t t1 = v[7] + S1 + ch + K[i] + W[i];
      uint64_t S0 = ror64(v[0], 28) ^ ror64(v[0], 34) ^ ror64(v[0], 39), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
      for (int j = 7; j > 0; j--) v[j] = v[j - 1];
      v[4] += t1; v[0] = t1 + S0 + mj;
    }
    for (int i = 0; i < 8; i++) h[i] += v[i];
  }
  Bytes out;
  for (int i = 0; i < 8; i++) for (int j = 7; j >= 0; j--) out.push_back((uint8_t)(h[i] >> (8 * j)));
  out.resize(is384 ? 48 : 64);
  return out;
}

// FIPS 202, lane rotation offsets and round constants generated by their defining recurrences
inline void keccakf(uint64_t A[5][5]) {
  static const auto RC = [] {
    std::vector<uint64_t> rc;
    auto rcbit = [](int t) { t %= 255; if (t == 0) return 1; uint16_t R = 1; for (int i = 1; i <= t; i++) { R = (uint16_t)(R << 1); if (R & 0x100) R ^= 0x171; } return (int)(R & 1); };
    for (int ir = 0; ir < 24; ir++) { uint64_t v = 0; for (int j = 0; j <= 6; j++) if (rcbit(j + 7 * ir)) v |= 1ull << ((1 << j) - 1); rc.push_back(v); }
    return rc;
  }();
  for (int r = 0; r < 24; r++) {
    uint64_t C[5], D[5], B[5][5];
    for (int x = 0; x < 5; x++) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
    for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rol64(C[(x + 1) % 5], 1);
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x][y] ^= D[x];
    // rho
    int x = 1, y = 0;
    for (int t = 0; t < 24; t++) { A[x][y] = rol64(A[x][y], ((t + 1) * (t + 2) / 2) % 64); int ny = (2 * x + 3 * y) % 5; x = y; y = ny; }
    // pi
    for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) B[i][j] = A[(i + 3 * j) % 5][i];
    // chi
    for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) A[i][j] = B[i][j] ^ (~B[(i + 1) % 5][j] & B[(i + 2) % 5][j]);
    A[0][0] ^= RC[r];
  }
}
inline Bytes sha3(In m, size_t bits) {
  size_t rate = (1600 - 2 * bits) / 8;
  Bytes p(m.begin(), m.end());
  p.push_back(0x06);
  while (p.size() % rate) p.push_back(0);
  p.back() |= 0x80;
  uint64_t A[5][5] = {};
  for (size_t o = 0; o < p.size(); o += rate) {
    for (size_t i = 0; i < rate; i++) A[(i / 8) % 5][(i / 8) / 5] ^= (uint64_t)p[o + i] << (8 * (i % 8));
    keccakf(A);
  }
  Bytes out;
  for (size_t i = 0; i < bits / 8; i++) out.push_back((uint8_t)(A[(i / 8) % 5][(i / 8) / 5] >> (8 * (i % 8))));
  return out;
}
inline Bytes crc32(In m) {
  uint32_t c = 0xffffffff;
  for (uint8_t b : m) { for (int i = 0; i < 8; i++) { uint32_t bit = (c ^ (b >> i)) & 1; c >>= 1; if (bit) c ^= 0xedb88320u; } }
  c = ~c;
  return {(uint8_t)(c >> 24), (uint8_t)(c >> 16), (uint8_t)(c >> 8), (uint8_t)c};
}

struct HashDef { const char* name; size_t size, block; std::function<Bytes(In)> fn; };
inline const HashDef& hashdef(const std::string& n) {
  static const std::vector<HashDef> v = {
    {"md5", 16, 64, md5}, {"sha1", 20, 64, sha1},
    {"sha224", 28, 64, [](In m) { return sha2_32(m, true); }}, {"sha256", 32, 64, [](In m) { return sha2_32(m, false); }},
    {"sha384", 48, 128, [](In m) { return sha2_64(m, true); }}, {"sha512", 64, 128, [](In m) { return sha2_64(m, false); }},
    {"sha3-224", 28, 144, [](In m) { return sha3(m, 224); }}, {"sha3-256", 32, 136, [](In m) { return sha3(m, 256); }},
    {"sha3-384", 48, 104, [](In m) { return sha3(m, 384); }}, {"sha3-512", 64, 72, [](In m) { return sha3(m, 512); }},
    {"crc32", 4, 64, crc32}};
  for (auto& h : v) if (n == h.name) return h;
  abort();
}
inline std::string hexs(In d) { std::string s; for (uint8_t b : d) { s += "0123456789abcdef"[b >> 4]; s += "0123456789abcdef"[b & 15]; } return s; }

inline Bytes hmac(const HashDef& h, In key, In text) {
  Bytes k(key.begin(), key.end());
  if (k.size() > h.block) k = h.fn(k);
  k.resize(h.block, 0);
  Bytes i, o;
  for (uint8_t b : k) { i.push_back(b ^ 0x36); o.push_back(b ^ 0x5c); }
  i.insert(i.end(), text.begin(), text.end());
  Bytes ih = h.fn(i);
  o.insert(o.end(), ih.begin(), ih.end());
  return h.fn(o);
}
inline Bytes hkdf_expand(const HashDef& h, In prk, In info, size_t len) {
  Bytes okm, T;
  for (unsigned n = 1; okm.size() < len; n++) {
    Bytes in = T; in.insert(in.end(), info.begin(), info.end()); in.push_back((uint8_t)n);
    T = hmac(h, prk, in);
    okm.insert(okm.end(), T.begin(), T.end());
  }
  okm.resize(len);
  return okm;
}
inline Bytes hkdf_label(const HashDef& h, In secret, const std::string& label, In ctx, size_t len) {
  Bytes info = {(uint8_t)(len >> 8), (uint8_t)len};
  std::string l = "tls13 " + label;
  info.push_back((uint8_t)l.size()); info.insert(info.end(), l.begin(), l.end());
  info.push_back((uint8_t)ctx.size()); info.insert(info.end(), ctx.begin(), ctx.end());
  return hkdf_expand(h, secret, info, len);
}
}  // namespace ref
