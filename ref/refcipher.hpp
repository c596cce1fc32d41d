// Independent reference implementations written from the standards: AES (FIPS 197), GF(2^128)/GCM (SP 800-38D), ChaCha20 (RFC 8439).
// Everything is computed bit- or byte-wise; no tables copied from the code under test, no CPU crypto instructions.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <span>
#include <vector>
namespace ref {
using Bytes = std::vector<uint8_t>;
using In = std::span<const uint8_t>;
using Blk = std::array<uint8_t, 16>;

inline uint8_t gmul8(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = (uint8_t)((a << 1) ^ (a & 0x80 ? 0x1b : 0)); b >>= 1; } return r; }
inline const std::array<uint8_t, 256>& sbox() {
  static const auto t = [] {
    std::array<uint8_t, 256> s{};
    for (int x = 0; x < 256; x++) {
      uint8_t inv = 0;
      for (int y = 1; y < 256 && x; y++) if (gmul8((uint8_t)x, (uint8_t)y) == 1) inv = (uint8_t)y;
      uint8_t r = 0;
      for (int i = 0; i < 8; i++) {
        int b = (inv >> i) ^ (inv >> ((i + 4) % 8)) ^ (inv >> ((i + 5) % 8)) ^ (inv >> ((i + 6) % 8)) ^ (inv >> ((i + 7) % 8)) ^ (0x63 >> i);
        r |= (uint8_t)((b & 1) << i);
      }
      s[x] = r;
    }
    return s;
  }();
  return t;
}
struct Aes {
  std::vector<Blk> rk;
  Aes() {}
  explicit Aes(In key) {
    int Nk = (int)key.size() / 4, Nr = Nk + 6;
    std::vector<std::array<uint8_t, 4>> w(4 * (Nr + 1));
    uint8_t rcon = 1;
    for (int i = 0; i < 4 * (Nr + 1); i++) {
      if (i < Nk) { for (int j = 0; j < 4; j++) w[i][j] = key[4 * i + j]; continue; }
      auto t = w[i - 1];
      if (i % Nk == 0) { auto u = t; for (int j = 0; j < 4; j++) t[j] = sbox()[u[(j + 1) % 4]]; t[0] ^= rcon; rcon = gmul8(rcon, 2); }
      else if (Nk > 6 && i % Nk == 4) for (auto& b : t) b = sbox()[b];
      for (int j = 0; j < 4; j++) w[i][j] = w[i - Nk][j] ^ t[j];
    }
    rk.resize(Nr + 1);
    for (int r = 0; r <= Nr; r++) for (int i = 0; i < 16; i++) rk[r][i] = w[4 * r + i / 4][i % 4];
  }
  Blk enc(Blk s) const {
    const auto& S = sbox();
    auto x2 = [](uint8_t a) { return (uint8_t)((a << 1) ^ (a & 0x80 ? 0x1b : 0)); };
    for (int i = 0; i < 16; i++) s[i] ^= rk[0][i];
    for (size_t r = 1; r < rk.size(); r++) {
      Blk t;
      for (int c = 0; c < 4; c++) for (int row = 0; row < 4; row++) t[4 * c + row] = S[s[4 * ((c + row) % 4) + row]];
      if (r + 1 < rk.size())
        for (int c = 0; c < 4; c++) {
          uint8_t a[4]; memcpy(a, &t[4 * c], 4);
          for (int row = 0; row < 4; row++) t[4 * c + row] = x2(a[row]) ^ x2(a[(row + 1) % 4]) ^ a[(row + 1) % 4] ^ a[(row + 2) % 4] ^ a[(row + 3) % 4];
        }
      for (int i = 0; i < 16; i++) s[i] = t[i] ^ rk[r][i];
    }
    return s;
  }
};

// GF(2^128) elements, GCM bit order: bit 0 of the polynomial is the most significant bit of byte 0
using u128 = unsigned __int128;
inline u128 be(const Blk& b) { u128 v = 0; for (uint8_t x : b) v = (v << 8) | x; return v; }
inline Blk unbe(u128 v) { Blk b; for (int i = 15; i >= 0; i--) { b[i] = (uint8_t)v; v >>= 8; } return b; }
inline u128 gf_mul(u128 x, u128 y) {   // SP 800-38D algorithm 1
  const u128 R = (u128)0xe1 << 120;
  u128 z = 0, v = y;
  for (int i = 127; i >= 0; i--) { if ((x >> i) & 1) z ^= v; v = (v >> 1) ^ ((v & 1) ? R : 0); }
  return z;
}
inline u128 gf_inv(u128 x) { u128 r = (u128)1 << 127, b = x; for (int i = 0; i < 127; i++) { b = gf_mul(b, b); r = gf_mul(r, b); } return r; }
struct GfTab {  // multiplication by a fixed element: 4-bit table for speed, built from gf_mul
  u128 t[32][16];
  GfTab() {}
  explicit GfTab(u128 h) { for (int p = 0; p < 32; p++) for (int n = 0; n < 16; n++) t[p][n] = 0; for (int p = 0; p < 32; p++) for (int b = 0; b < 4; b++) { u128 m = gf_mul((u128)1 << (p * 4 + b), h); for (int n = 0; n < 16; n++) if (n >> b & 1) t[p][n] ^= m; } }
  u128 mul(u128 x) const { u128 r = 0; for (int p = 0; p < 32; p++) r ^= t[p][(int)(x >> (p * 4)) & 15]; return r; }
};
struct Gcm {
  Aes aes; GfTab H; u128 h; u128 j0base; bool ok;
  static u128 ghash(const GfTab& H, In aad, In ct) {
    u128 y = 0;
    auto absorb = [&](In d) { for (size_t i = 0; i < d.size(); i += 16) { Blk b{}; memcpy(b.data(), d.data() + i, std::min<size_t>(16, d.size() - i)); y = H.mul(y ^ be(b)); } };
    absorb(aad); absorb(ct);
    y = H.mul(y ^ (((u128)aad.size() * 8) << 64 | (u128)ct.size() * 8));
    return y;
  }
  Gcm(In key, In iv) : aes(key) {
    h = be(aes.enc(Blk{})); H = GfTab(h);
    ok = iv.size() == 8 || iv.size() >= 12;
    if (iv.size() == 12) { Blk b{}; memcpy(b.data(), iv.data(), 12); b[15] = 1; j0base = be(b); }
    else j0base = ghash(H, {}, iv);   // len(A)=0: the same formula as SP 800-38D's IV hash
  }
  u128 j0(uint64_t k) const { return j0base ^ ((u128)k << 32); }
  static u128 inc(u128 c) { return (c & ~(u128)0xffffffffu) | (uint32_t)((uint32_t)c + 1); }
  Bytes crypt(uint64_t k, In d) const {
    Bytes o(d.begin(), d.end()); u128 c = j0(k);
    for (size_t i = 0; i < o.size(); i += 16) { c = inc(c); Blk ks = aes.enc(unbe(c)); for (size_t j = i; j < o.size() && j < i + 16; j++) o[j] ^= ks[j - i]; }
    return o;
  }
  Blk tag(uint64_t k, In ct, In aad) const { return unbe(ghash(H, aad, ct) ^ be(aes.enc(unbe(j0(k))))); }
};
// the 16-byte IV whose hashed form is exactly want
inline Blk iv_for_j0(In key, u128 want) {
  Aes a(key); u128 h = be(a.enc(Blk{})), hi = gf_inv(h);
  return unbe(gf_mul(gf_mul(want, hi) ^ (u128)128, hi));
}
struct Chacha {
  std::array<uint32_t, 16> st;
  Chacha(In key, In nonce) {
    auto ld = [](In d, size_t i) { return (uint32_t)d[4 * i] | (uint32_t)d[4 * i + 1] << 8 | (uint32_t)d[4 * i + 2] << 16 | (uint32_t)d[4 * i + 3] << 24; };
    const char* k = "expand 32-byte k";
    In kc((const uint8_t*)k, 16);
    for (int i = 0; i < 4; i++) st[i] = ld(kc, i);
    for (int i = 0; i < 8; i++) st[4 + i] = ld(key, i);
    st[12] = 0;
    for (int i = 0; i < 3; i++) st[13 + i] = ld(nonce, i);
  }
  void block(uint32_t n, uint8_t* out) const {
    auto x = st; x[12] = n; auto w = x;
    auto rot = [](uint32_t v, int s) { return (v << s) | (v >> (32 - s)); };
    auto qr = [&](int a, int b, int c, int d) { w[a] += w[b]; w[d] = rot(w[d] ^ w[a], 16); w[c] += w[d]; w[b] = rot(w[b] ^ w[c], 12); w[a] += w[b]; w[d] = rot(w[d] ^ w[a], 8); w[c] += w[d]; w[b] = rot(w[b] ^ w[c], 7); };
    for (int r = 0; r < 10; r++) {
      for (int i = 0; i < 4; i++) qr(i, 4 + i, 8 + i, 12 + i);
      for (int i = 0; i < 4; i++) qr(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
    }
    for (int i = 0; i < 16; i++) { uint32_t v = w[i] + x[i]; for (int b = 0; b < 4; b++) out[4 * i + b] = (uint8_t)(v >> (8 * b)); }
  }
  Bytes stream(size_t n, uint32_t first = 1) const { Bytes o((n + 63) / 64 * 64); for (size_t i = 0; i * 64 < n; i++) block(first + (uint32_t)i, &o[i * 64]); o.resize(n); return o; }
};
}  // namespace ref
