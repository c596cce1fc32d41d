#pragma once
// Inputs of several gigabytes that take almost no memory, and streaming oracles (libcrypto) for them.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <set>
#include <span>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
#include <openssl/evp.h>
namespace huge {
using Bytes = std::vector<uint8_t>; using In = std::span<const uint8_t>;
// n bytes of a pattern that repeats every `period` bytes, read-only; with `shared`, writable, all repetitions being the same memory
struct Tiles {
  uint8_t* base; size_t n, total, period; Bytes tile;
  Tiles(size_t n, size_t period, bool writable = false) : n(n), period(period), tile(period) {
    for (size_t i = 0; i < period; i++) tile[i] = writable ? 0 : (uint8_t)(i * 31 + (i >> 8) * 17 + (i >> 16) * 5 + 3);
    int fd = memfd_create("tiles", 0); if (fd < 0 || ftruncate(fd, period) || pwrite(fd, tile.data(), period, 0) != (ssize_t)period) abort();
    total = (n + period - 1) / period * period; base = (uint8_t*)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) abort();
    for (size_t o = 0; o < total; o += period) if (mmap(base + o, period, writable ? PROT_READ | PROT_WRITE : PROT_READ, (writable ? MAP_SHARED : MAP_PRIVATE) | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
    close(fd);
  }
  ~Tiles() { munmap(base, total); }
  std::span<uint8_t> span() { return {base, n}; }
  In cspan() const { return {base, n}; }
  uint8_t* own(size_t pos) { uint8_t* p = (uint8_t*)((uintptr_t)(base + pos) & ~4095ull); mprotect(p, 4096, PROT_READ | PROT_WRITE); return base + pos; }   // the page of pos becomes private and writable
};
// calls f(piece) over a big input
template <class F> void pieces(In d, F f, size_t step = 1 << 20) { for (size_t o = 0; o < d.size(); o += step) f(d.subspan(o, std::min(step, d.size() - o)), o); }
// libcrypto's digest and HMAC of a big input
inline const EVP_MD* md(const std::string& n) { const EVP_MD* m = EVP_get_digestbyname(n.c_str()); if (!m) abort(); return m; }
struct Dig { EVP_MD_CTX* c = EVP_MD_CTX_new(); ~Dig() { EVP_MD_CTX_free(c); } Dig(const std::string& n) { if (EVP_DigestInit_ex(c, md(n), nullptr) != 1) abort(); } void add(In p) { if (EVP_DigestUpdate(c, p.data(), p.size()) != 1) abort(); } Bytes done() { Bytes r(64); unsigned k; if (EVP_DigestFinal_ex(c, r.data(), &k) != 1) abort(); r.resize(k); return r; } };
inline Bytes hmac(const std::string& n, size_t block, In key, In text) { Bytes k(key.begin(), key.end()); if (k.size() > block) { Dig d(n); d.add(key); k = d.done(); } k.resize(block); Bytes o = k; for (auto& x : k) x ^= 0x36; for (auto& x : o) x ^= 0x5c; Dig i(n); i.add(k); i.add(text); Bytes in = i.done(); Dig u(n); u.add(o); u.add(in); return u.done(); }
struct Evp {
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); ~Evp() { EVP_CIPHER_CTX_free(c); }
  Evp(const EVP_CIPHER* ci, const uint8_t* key, const uint8_t* iv, bool enc) { if (EVP_CipherInit_ex(c, ci, nullptr, key, iv, enc) != 1) abort(); EVP_CIPHER_CTX_set_padding(c, 0); }
  void aad(In a) { pieces(a, [&](In p, size_t) { int k; if (EVP_CipherUpdate(c, nullptr, &k, p.data(), (int)p.size()) != 1) abort(); }); }
  void run(In p, uint8_t* out) { int k; if (EVP_CipherUpdate(c, out, &k, p.data(), (int)p.size()) != 1 || (size_t)k != p.size()) abort(); }
  Bytes tag() { Bytes t(16); int k; uint8_t x[16]; if (EVP_CipherFinal_ex(c, x, &k) != 1 || EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, t.data()) != 1) abort(); return t; }
};
// lengths around which an implementation may start to work in bulk: powers of two and what lies between them, and their neighbours
inline std::vector<size_t> bulk(size_t block, int kmax, int kmin = 8) {
  std::set<size_t> r; for (int k = kmin; k <= kmax; k++) for (size_t b : {(size_t)1 << k, (size_t)3 << (k - 1), (size_t)5 << (k - 2), block << (k / 2)}) for (long d : {-(long)block - 1, -(long)block, -1L, 0L, 1L, (long)block - 1, (long)block, (long)block + 1}) if ((long)b + d > 0) r.insert(b + d);
  while (!r.empty() && *r.rbegin() > ((size_t)1 << kmax) * 3) r.erase(std::prev(r.end())); return {r.begin(), r.end()};
}
inline Bytes data(size_t n, int q = 0) { Bytes b(n); uint32_t x = 0x9e3779b9u + q; for (auto& v : b) { x = x * 1664525u + 1013904223u; v = x >> 24; } return b; }
}
