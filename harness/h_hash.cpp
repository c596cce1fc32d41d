// H01 (GROUP=1: MD5, SHA-1, SHA-2), H02 (GROUP=2: SHA-3), H03 (GROUP=3: CRC-32)
#include <array>
#include <cstdint>
#include <span>
#include <string>
#include <vector>
#include "caligo/crc.h"
#include "caligo/md5.h"
#include "caligo/sha1.h"
#include "caligo/sha2.h"
#include "caligo/sha3.h"
#include "mc.hpp"
#include "refhash.hpp"
#include "huge.hpp"
#include "longhash.inc"   // digests of very long messages, from hashlib

using namespace Caligo;
using mc::Bytes; using mc::Ctx;

template <typename H> std::span<const uint8_t> sp(const Bytes& b, size_t o, size_t n) { return std::span<const uint8_t>(b.data() + o, n); }

template <typename H> struct Run {
  std::string name;
  const ref::HashDef& def;
  Run(std::string n) : name(n), def(ref::hashdef(n)) {}

  void check(Ctx& c, const H& h, const Bytes& want, const char* what) {
    std::array<uint8_t, H::hashsize> d = h;      // conversion
    c.eq(d, want, what);
    auto d2 = h.data();
    c.eq(d2, want, "second read differs");
    std::string s = h;
    c.eqs(s, ref::hexs(want), "hex text");
    c.trace(1);
  }
  // every (absorbed length, piece length) transition
  void stream(Ctx& c, int pat, size_t L) {
    Bytes m = mc::pattern(pat, L);
    std::vector<Bytes> want(L + 1);
    for (size_t n = 0; n <= L; n++) want[n] = def.fn(std::span<const uint8_t>(m.data(), n));
    H bytewise;
    for (size_t a = 0; a <= L; a++) {
      c.desc("%s pattern %d: state %zu bytes", name.c_str(), pat, a);
      c.states(1);
      if (a) bytewise.add(std::span<const uint8_t>(m.data() + a - 1, 1));
      c.trans(1);
      check(c, bytewise, want[a], "digest after byte-wise adds");
      H one; one.add(std::span<const uint8_t>(m.data(), a));
      check(c, one, want[a], "digest after single add");
      for (size_t b = 0; a + b <= L; b++) {
        c.at(pat, a, b);
        const H& src = (b & 1) ? bytewise : one;   // both histories that lead to this state
        H x = src;
        x.add(std::span<const uint8_t>(m.data() + a, b));
        c.trans(1);
        std::array<uint8_t, H::hashsize> d = x;
        c.eq(d, want[a + b], "digest of two-piece message");
        c.trace(1);
      }
      check(c, one, want[a], "original changed by its copies");
    }
    if (pat == 4) c.sample(mc::fmt("%s all splits a+b<=%zu, last digest %s", name.c_str(), L, ref::hexs(want[L]).c_str()));
  }
  void triples(Ctx& c, int pat) {
    size_t B = def.block;
    std::set<size_t> s = {0, 1, 2, 7, 8};
    for (size_t k : {B / 2, B, 2 * B}) for (int d = -17; d <= 1; d++) if (d >= -2 || d <= -16 || (d >= -9 && d <= -7)) s.insert(k + d);
    s.insert(3 * B); s.insert(5 * B + 3);
    std::vector<size_t> v(s.begin(), s.end());
    Bytes m = mc::pattern(pat, 16 * B + 64);
    std::map<size_t, Bytes> want;
    for (size_t a : v) for (size_t b : v) for (size_t d : v) {
      c.at(pat, a, b, d);
      size_t n = a + b + d;
      auto it = want.find(n);
      if (it == want.end()) { it = want.emplace(n, def.fn(std::span<const uint8_t>(m.data(), n))).first; c.states(1); }
      H x(std::span<const uint8_t>(m.data(), a), std::span<const uint8_t>(m.data() + a, b));   // one-off constructor form
      x.add(std::string_view((const char*)m.data() + a + b, d));
      c.trans(3);
      std::array<uint8_t, H::hashsize> got = x;
      c.eq(got, it->second, "three-piece message");
      c.trace(1);
    }
  }
  // operation histories over two live objects
  void history(Ctx& c, int depth, int first) {
    size_t B = def.block;
    const size_t pieces[4] = {0, 1, B - 1, B};
    std::map<Bytes, Bytes> memo;
    auto want = [&](const Bytes& m) -> const Bytes& { auto it = memo.find(m); if (it == memo.end()) { it = memo.emplace(m, def.fn(m)).first; c.states(1); } return it->second; };
    const int NOPS = 14;
    std::vector<int> seq(depth);
    std::function<void(int, H, H, Bytes, Bytes)> go = [&](int d, H a, H b, Bytes ma, Bytes mb) {
      if (d == depth) {
        std::array<uint8_t, H::hashsize> da = a, db = b;
        c.eq(da, want(ma), "object 0 after history"); c.eq(db, want(mb), "object 1 after history");
        c.trace(1);
        return;
      }
      for (int op = (d == 0 ? first : 0); op < (d == 0 ? first + 1 : NOPS); op++) {
        H x = a, y = b; Bytes mx = ma, my = mb;
        seq[d] = op;
        uint64_t code = 0; for (int i = 0; i <= d; i++) code = code * 16 + seq[i] + 1;
        c.at(code);
        c.trans(1);
        if (op < 8) {
          H& t = op < 4 ? x : y; Bytes& mt = op < 4 ? mx : my;
          Bytes p = mc::pattern(4 + op, pieces[op % 4]);
          for (auto& v : p) v ^= (uint8_t)(d * 37);
          t.add(p); mt.insert(mt.end(), p.begin(), p.end());
        } else if (op < 10) {
          const H& t = op == 8 ? x : y; auto g = t.data(); c.eq(g, want(op == 8 ? mx : my), "read in history");
        } else if (op < 12) {
          std::string s = op == 10 ? x : y; c.eqs(s, ref::hexs(want(op == 10 ? mx : my)), "text read in history");
        } else if (op == 12) { y = x; my = mx; }
        else { x = y; mx = my; }
        go(d + 1, x, y, mx, my);
      }
    };
    go(0, H(), H(), {}, {});
  }
  void content(Ctx& c, size_t len) {
    Bytes z(len), m;
    auto one = [&](const Bytes& m) {
      H h; h.add(m); c.trans(1); c.states(1);
      std::array<uint8_t, H::hashsize> d = h;
      c.eq(d, def.fn(m), "content");
      c.trace(1);
    };
    for (int base = 0; base < 2; base++)
      for (size_t i = 0; i < len * 8; i++) { c.at(len, base, i); m.assign(len, base ? 0xff : 0); m[i / 8] ^= 1 << (i % 8); one(m); }
    Bytes p = mc::pattern(9, len);
    for (size_t i = 0; i < len; i += 1) for (int v = 0; v < 256; v++) { c.at(len, 2, i, v); m = p; m[i] = (uint8_t)v; one(m); }
    // adjacent word pairs over boundary words
    const uint32_t wv[6] = {0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff};
    for (size_t w = 0; w + 8 <= len; w += 4) for (uint32_t a : wv) for (uint32_t b : wv) { c.at(len, 3, w, a, b); m = p; memcpy(&m[w], &a, 4); memcpy(&m[w + 4], &b, 4); one(m); }
  }
  // very many calls on one object: pieces of one size, read after each, empty pieces between, copies of copies
  void many(Ctx& c, int mode, size_t p, size_t n) {
    auto mark = [&](size_t k) { for (size_t m : {128ul, 256ul, 1000ul, 32768ul, 65536ul, 1ul << 20, n - 1}) if (k + 1 >= m && k <= m + 1) return true; return false; };
    Bytes m = huge::data(p, (int)p + mode); H x; uint32_t r = 0xffffffffu; huge::Dig d(name == "crc32" ? "md5" : name);
    for (size_t k = 0; k < n; k++) {
      c.at(mode, p, k); if (p) { m[k % p] ^= (uint8_t)(k + 1); x.add(m); if (name == "crc32") { for (uint8_t v : m) { r ^= v; for (int i = 0; i < 8; i++) r = r >> 1 ^ (r & 1 ? 0xedb88320u : 0); } } else d.add(m); } c.trans(1);
      if (mode == 1) { auto g = x.data(); if (g.size() != H::hashsize) c.fail("digest size"); }
      if (mode == 2) x.add(std::span<const uint8_t>{});
      if (mode == 3) { H y = x; H z(std::move(y)); x = z; }
      if (!mark(k)) continue;
      Bytes want; if (name == "crc32") { uint32_t o = ~r; want = {(uint8_t)(o >> 24), (uint8_t)(o >> 16), (uint8_t)(o >> 8), (uint8_t)o}; } else { huge::Dig f(name); EVP_MD_CTX_copy_ex(f.c, d.c); want = f.done(); }
      std::array<uint8_t, H::hashsize> got = x; c.eq(got, want, "digest after many calls"); std::string t = x; c.eqs(t, ref::hexs(want), "text after many calls"); c.trace(1); c.states(1);
    }
  }
  // pieces long enough to be handled in bulk, at every kind of position, then more
  void bulk(Ctx& c, int kmax, size_t a) {
    size_t B = def.block; auto lens = huge::bulk(B, kmax); std::set<size_t> ends; const size_t tails[] = {1, B - 1, B, B + 1}; size_t again = 4096 / B * B ? 4096 / B * B : 4096;
    for (size_t b : lens) { ends.insert(a + b); for (size_t t : tails) { ends.insert(a + b + t); ends.insert(a + b + t + again); } }
    Bytes m = huge::data(*ends.rbegin()); std::map<size_t, Bytes> want; size_t pos = 0;
    if (name == "crc32") { uint32_t r = 0xffffffffu; for (size_t e : ends) { for (; pos < e; pos++) { r ^= m[pos]; for (int k = 0; k < 8; k++) r = r >> 1 ^ (r & 1 ? 0xedb88320u : 0); } uint32_t o = ~r; want[e] = {(uint8_t)(o >> 24), (uint8_t)(o >> 16), (uint8_t)(o >> 8), (uint8_t)o}; } }
    else { huge::Dig d(name); for (size_t e : ends) { d.add({m.data() + pos, e - pos}); pos = e; huge::Dig f(name); EVP_MD_CTX_copy_ex(f.c, d.c); want[e] = f.done(); } }
    for (size_t b : lens) {
      c.at(a, b); c.states(1); H x; x.add(std::span<const uint8_t>(m.data(), a)); x.add(std::span<const uint8_t>(m.data() + a, b)); c.trans(2);
      std::array<uint8_t, H::hashsize> d = x; c.eq(d, want[a + b], "digest after a long piece"); c.trace(1);
      for (size_t t : tails) { c.at(a, b, t); H y = x; y.add(std::span<const uint8_t>(m.data() + a + b, t)); std::array<uint8_t, H::hashsize> e = y; c.eq(e, want[a + b + t], "digest after a long piece and a short one"); y.add(std::span<const uint8_t>(m.data() + a + b + t, again)); e = y; c.eq(e, want[a + b + t + again], "digest after two long pieces"); c.trans(2); c.trace(2); }
    }
  }
  static std::span<const uint8_t> bigmap() {
    static uint8_t* base = nullptr;
    const size_t P = 1 << 20, TOTAL = (4ull << 30) + (1ull << 29) + (16 << 20);
    if (!base) {
      int fd = memfd_create("pat", 0); if (fd < 0 || ftruncate(fd, P)) abort();
      Bytes p(P); for (size_t i = 0; i < P; i++) p[i] = (uint8_t)((i * 31 + (i >> 8) * 17 + (i >> 16) * 5 + 3) & 0xff);
      if (pwrite(fd, p.data(), P, 0) != (ssize_t)P) abort();
      base = (uint8_t*)mmap(nullptr, TOTAL, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (base == MAP_FAILED) abort();
      for (size_t o = 0; o < TOTAL; o += P) if (mmap(base + o, P, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
      close(fd);
    }
    return {base, TOTAL};
  }
  void longmsg(Ctx& c, int variant) {
    auto big = bigmap();
    const auto& tab = longhash.at(name);
    auto chk = [&](const H& h, uint64_t n) {
      auto it = tab.find(n); if (it == tab.end()) abort();
      std::string s = h; c.eqs(s, it->second, "digest of a very long message"); c.trace(1); c.states(1);
    };
    H h; uint64_t pos = 0;
    std::vector<uint64_t> stops;
    if (variant == 0) stops = {(1ull << 29) - 3, 1ull << 29, (1ull << 29) + 61, (1ull << 29) + 61 + (1ull << 32) + 1000};
    else stops = {(1ull << 31) + 13, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 77};
    for (uint64_t s : stops) {
      c.desc("%s: one add of %llu bytes up to total %llu", name.c_str(), (unsigned long long)(s - pos), (unsigned long long)s);
      h.add(big.subspan(pos, s - pos)); pos = s; c.trans(1);
      chk(h, pos);
    }
    c.sample(mc::fmt("%s variant %d: totals up to %llu bytes", name.c_str(), variant, (unsigned long long)pos));
  }
};

template <typename H> void reg(mc::Options& o, std::string name, int tier) {
  auto r = std::make_shared<Run<H>>(name);
  size_t B = r->def.block;
  for (int v = 0; v < 2; v++) o.units.push_back({name + "/long" + std::to_string(v), [r, v](Ctx& c) { r->longmsg(c, v); }});
  size_t L = (tier ? 6 : 3) * B + 17;
  for (int p = 0; p < (tier ? 8 : 5); p++) o.units.push_back({name + "/stream" + std::to_string(p), [r, p, L](Ctx& c) { r->stream(c, p, L); }});
  for (int p : {1, 4}) o.units.push_back({name + "/triples" + std::to_string(p), [r, p](Ctx& c) { r->triples(c, p); }});
  for (size_t a : std::set<size_t>{0, 1, 8, B / 2, B - 17, B - 9, B - 1, B, 2 * B + 3}) o.units.push_back({name + "/bulk" + std::to_string(a), [r, a, tier](Ctx& c) { r->bulk(c, tier ? 20 : 16, a); }});
  for (int mode = 0; mode < 4; mode++) for (size_t p : {(size_t)1, B - 1, B, B + 1}) o.units.push_back({name + mc::fmt("/many%d.%zu", mode, p), [r, mode, p, tier](Ctx& c) { r->many(c, mode, p, tier ? (1 << 20) + 3 : 65540); }});
  for (int op = 0; op < 14; op++) o.units.push_back({name + "/history" + std::to_string(op), [r, op, tier](Ctx& c) { r->history(c, tier ? 5 : 4, op); }});
  std::set<size_t> ls = {1, 3, 4, 8, 20, B - 17, B - 16, B - 9, B - 8, B - 1, B, B + 1, 2 * B - 1, 2 * B};
  for (size_t l : ls) o.units.push_back({name + "/content" + std::to_string(l), [r, l](Ctx& c) { r->content(c, l); }});
}

int main(int argc, char** argv) {
  return mc::run(argc, argv, [](int tier) {
    mc::Options o;
    o.as_limit_mb = 24000; o.hang_s = 300;
    o.rule = "65540 (2^20+3) calls on one object, each followed by a read, an empty piece or copies; pieces of 2^8..2^16 (2^20) bytes and their neighbours at every kind of position, then a short piece and another long one (libcrypto); per algorithm: every (absorbed length, next piece length) pair up to 3 blocks (6 thorough) for 5 (8) contents via two histories each; all 3-piece splits over boundary lengths; all histories of add/read/text/copy on two objects to depth 4 (5); every single-bit, single-byte-value and boundary-word-pair content at boundary lengths; messages across 2^32 bits and 2^32 bytes in huge and small pieces";
    o.assumptions = {"digest correctness for contents outside the enumerated ones is extrapolated (2^(8n) contents cannot be enumerated)", "reference digests: refhash.hpp, cross-checked with hashlib by tools/selftest_ref.py; very long messages: hashlib constants"};
#if GROUP == 1
    reg<SHA2<224>>(o, "sha224", tier); reg<SHA2<256>>(o, "sha256", tier); reg<SHA2<384>>(o, "sha384", tier); reg<SHA2<512>>(o, "sha512", tier);
    reg<MD5>(o, "md5", tier); reg<SHA1>(o, "sha1", tier);
#elif GROUP == 2
    reg<SHA3<224>>(o, "sha3-224", tier); reg<SHA3<256>>(o, "sha3-256", tier); reg<SHA3<384>>(o, "sha3-384", tier); reg<SHA3<512>>(o, "sha3-512", tier);
#else
    reg<CRC32>(o, "crc32", tier);
#endif
    // long units first: best packing over the workers
    std::stable_partition(o.units.begin(), o.units.end(), [](const mc::Unit& u) { return u.name.find("/long") != std::string::npos; });
    return o;
  });
}
