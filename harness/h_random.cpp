// G01: random filling
#include <span>
#include <string>
#include <vector>
#include <algorithm>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>
#include "caligo/random.h"
#include "caligo/bignum.h"
#include "caligo/x25519.h"
#include "mc.hpp"
using mc::Bytes; using mc::Ctx; using namespace Caligo;
static uint64_t mix(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; return x ^ x >> 31; }

template <typename T> void checkFill(Ctx& c, size_t n, int seed, int spares = 3, size_t off = 4) {
  size_t per = 8 / sizeof(T), need = (n + per - 1) / per;
  for (size_t spare : {1, 0, 3}) {
    if (spares-- == 0) break;
    c.at(sizeof(T), n, spare, seed);
    std::vector<uint64_t> vals(need + spare);
    for (size_t i = 0; i < vals.size(); i++) vals[i] = seed == 0 ? 0 : seed == 1 ? ~0ull : mix(i * 977 + n * 131 + seed);
    testValues.assign(vals.rbegin(), vals.rend());      // last first: vals[0] is drawn first
    std::vector<T> buf(n + off + 8, (T)0xA7A7A7A7A7A7A7A7ull);
    generate_random(std::span<T>(buf.data() + off, n));
    c.trans(1); c.trace(1); c.states(1);
    for (size_t i = 0; i < off + 8; i++) if (buf[i < off ? i : n + i] != (T)0xA7A7A7A7A7A7A7A7ull) c.fail("element outside the buffer written");
    for (size_t i = 0; i < n; i++) { T want = (T)(vals[i / per] >> (8 * sizeof(T) * (i % per))); if (buf[off + i] != want) c.fail(mc::fmt("element %zu is not the next unused generator output", i)); }
    if (testValues.size() != spare) c.fail(mc::fmt("%zu injected values left, expected %zu", testValues.size(), spare));
    testValues.clear();
  }
}
template <typename T> void fills(Ctx& c, int tier) {
  for (size_t n = 0; n <= (tier ? 3000u : 600u); n++) for (int s : {0, 1, 2, 3}) checkFill<T>(c, n, s);
  for (size_t n : {4095, 4096, 4097, 65535, 65536, 65537}) checkFill<T>(c, n, 5);
  // lengths around which an implementation may work in bulk, at every place relative to a 64-byte line
  for (int k = 6; k <= (tier ? 20 : 16); k++) for (size_t b : {(size_t)1 << k, (size_t)3 << (k - 1)}) for (int d = -2; d <= 9; d++) checkFill<T>(c, b + d, 6 + d, k > 12 ? 1 : 3);
  for (size_t off = 0; off < 64; off++) for (size_t n : {0, 1, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 257}) checkFill<T>(c, n, 20, 1, off);
  // exact heap buffer
  for (size_t n = 1; n <= 200; n++) { std::vector<T> v(n); v.shrink_to_fit(); c.at(n); generate_random(std::span<T>(v)); c.trans(1); }
}
template <size_t B> void nums(Ctx& c) {
  for (int s = 0; s < 40; s++) {
    c.at(B, s); size_t N = (B + 31) / 32, need = (N + 1) / 2; std::vector<uint64_t> vals(need + 2);
    for (size_t i = 0; i < vals.size(); i++) vals[i] = s == 0 ? 0 : s == 1 ? ~0ull : mix(i * 31 + s * 1000003 + B);
    testValues.assign(vals.rbegin(), vals.rend());
    auto r = bignum<B>::random();
    for (size_t i = 0; i < N; i++) if (r[i] != (uint32_t)(vals[i / 2] >> (32 * (i % 2)))) c.fail("random number word is not generator output");
    if (testValues.size() != 2) c.fail("random number consumed a wrong number of draws");
    testValues.clear(); c.trans(1); c.trace(1); c.states(1);
  }
}
static void keys(Ctx& c) {
  for (int s = 0; s < 4000; s++) {
    c.at(s); std::vector<uint64_t> vals(6);
    for (size_t i = 0; i < 6; i++) vals[i] = s == 0 ? 0 : s == 1 ? ~0ull : s < 260 ? ((s - 2) / 64 == (int)i ? 1ull << ((s - 2) % 64) : 0) : mix(i * 31 + s * 1000003);
    testValues.assign(vals.rbegin(), vals.rend());
    ec_value k = ec_value::random_private_key();
    uint32_t w[8]; for (int i = 0; i < 8; i++) w[i] = (uint32_t)(vals[i / 2] >> (32 * (i % 2)));
    w[0] &= ~7u; w[7] &= 0x7fffffff; w[7] |= 0x40000000;
    for (int i = 0; i < 8; i++) if (k.v[i] != w[i]) c.fail(mc::fmt("private key word %d: got %08x want %08x", i, k.v[i], w[i]));
    if (testValues.size() != 2) c.fail("private key consumed a wrong number of draws");
    testValues.clear(); c.trans(1); c.trace(1); c.states(1);
  }
}
// all histories of fills of different kinds while injected values run out
static void history(Ctx& c, int depth) {
  const int NOPS = 10; int total = 1; for (int i = 0; i < depth; i++) total *= NOPS;
  for (int code = 0; code < total; code++) for (size_t avail : {0, 1, 3, 8}) {
    c.at(code, avail); std::vector<uint64_t> vals(avail); for (size_t i = 0; i < avail; i++) vals[i] = mix(0x1234567 + i * 77 + code);
    testValues.assign(vals.rbegin(), vals.rend()); size_t used = 0; int x = code;
    auto draw = [&](uint64_t v) { if (used < avail) { if (v != vals[used]) c.fail("injected values out of order"); } used++; };
    for (int d = 0; d < depth; d++, x /= NOPS) {
      c.trans(1);
      auto words = [&]<typename T>(size_t n) { std::vector<T> b(n, 0); generate_random(std::span<T>(b)); size_t per = 8 / sizeof(T);
        for (size_t i = 0; i < n; i += per) { if (used < avail) for (size_t k = 0; k < per && i + k < n; k++) if (b[i + k] != (T)(vals[used] >> (8 * sizeof(T) * k))) c.fail("injected values out of order"); used++; } };
      switch (x % NOPS) {
        case 0: draw(generate_random_value()); break;
        case 1: words.operator()<uint8_t>(1); break;
        case 2: words.operator()<uint8_t>(9); break;
        case 3: words.operator()<uint16_t>(4); break;
        case 4: words.operator()<uint16_t>(5); break;
        case 5: words.operator()<uint32_t>(3); break;
        case 6: words.operator()<uint64_t>(2); break;
        case 7: words.operator()<uint8_t>(0); break;
        case 8: words.operator()<uint32_t>(2); break;
        case 9: { auto r = bignum<96>::random(); for (int k = 0; k < 2; k++) { if (used < avail && (r[2 * k] != (uint32_t)vals[used] || (k == 0 && r[1] != (uint32_t)(vals[used] >> 32)))) c.fail("bignum draw"); used++; } break; }
      }
      size_t left = avail > used ? avail - used : 0;
      if (testValues.size() != left) c.fail(mc::fmt("%zu injected values left, expected %zu", testValues.size(), left));
    }
    testValues.clear(); c.trace(1); c.states(1);
  }
}
static void run(Ctx& c, int tier) {   // no repetition over a long run of draws, mixed with fills; every bit position takes both values
  size_t n = tier ? 1 << 25 : 1 << 22; std::vector<uint64_t> v(n);
  uint64_t orv = 0, andv = ~0ull;
  for (size_t i = 0; i < n;) {
    c.at(i);
    if (i % 7 == 0 && i + 5 < n) { generate_random(std::span<uint64_t>(&v[i], 5)); i += 5; }
    else if (i % 7 == 3 && i + 3 < n) { generate_random(std::span<uint8_t>((uint8_t*)&v[i], 24)); i += 3; }
    else if (i % 7 == 4 && i + 2 < n) { generate_random(std::span<uint32_t>((uint32_t*)&v[i], 4)); i += 2; }
    else if (i % 7 == 5 && i + 2 < n) { generate_random(std::span<uint16_t>((uint16_t*)&v[i], 8)); i += 2; }
    else v[i++] = generate_random_value();
    c.trans(1);
  }
  for (uint64_t x : v) orv |= x, andv &= x;
  if (orv != ~0ull || andv != 0) c.fail("some output bit is constant");
  uint64_t lohalf = 0; for (size_t i = 0; i < n; i++) if ((uint32_t)v[i] == (uint32_t)(v[i] >> 32)) lohalf++;
  if (lohalf > 64) c.fail("both halves of the outputs coincide");
  std::sort(v.begin(), v.end()); for (size_t i = 1; i < n; i++) if (v[i] == v[i - 1]) c.fail(mc::fmt("draw %016llx repeats", (unsigned long long)v[i]));
  c.states(n); c.trace(1);
}
// a generator that runs in a cycle comes back to its first draws
static void cycle(Ctx& c, int tier) {
  uint64_t a = generate_random_value(), b = generate_random_value(), n = tier ? 1ull << 34 : (1ull << 32) + (1 << 20), prev = b; for (uint64_t i = 0; i < n; i++) { uint64_t v = generate_random_value(); if (v == b && prev == a) c.fail(mc::fmt("the draws repeat after %llu", (unsigned long long)i)); prev = v; if (!(i & 0xffff)) { c.at(i); c.trans(0x10000); } } c.states(n); c.trace(1);
}
// more than 4 GiB in one call: the first 4 GiB are one page over and over, what follows is real
static void hugeFill(Ctx& c) {
  size_t P = 1 << 20, big = 1ull << 32; int fd = memfd_create("fill", 0); if (fd < 0 || ftruncate(fd, P)) abort(); uint8_t* m = (uint8_t*)mmap(nullptr, big + 3 * P, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) abort();
  for (size_t o = 0; o < big; o += P) if (mmap(m + P + o, P, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
  auto chk = [&](size_t bytes, size_t n) { c.at(bytes, n); c.trans(1); c.trace(1); c.states(1); size_t tail = bytes * n - big; auto z = [&](size_t o, size_t k) { for (size_t i = 0; i < k; i++) if (m[o + i]) return false; return true; }; for (size_t i = 0; i + 8 <= tail; i += 8) if (z(P + big + i, 8)) c.fail("elements past 4 GiB are not filled"); if (!z(0, P) || !z(P + big + tail, P)) c.fail("element outside the buffer written"); memset(m + P + big, 0, P); memset(m + P, 0, P); };
  generate_random(std::span<uint8_t>(m + P, big + 4099)); chk(1, big + 4099); generate_random(std::span<uint64_t>((uint64_t*)(m + P), (big >> 3) + 513)); chk(8, (big >> 3) + 513); generate_random(std::span<uint16_t>((uint16_t*)(m + P), (big >> 1) + 513)); chk(2, (big >> 1) + 513); munmap(m, big + 3 * P); close(fd);
}
static std::string self;
static void processes(Ctx& c) {
  c.desc("two runs of one program");
  std::string out[2];
  for (int i = 0; i < 2; i++) { FILE* p = popen(("'" + self + "' --draw").c_str(), "r"); char b[256]; while (fgets(b, sizeof b, p)) out[i] += b; pclose(p); c.trans(1); }
  if (out[0].empty()) abort();
  c.states(2); c.trace(2);
  if (out[0] == out[1]) c.known("fixed-seed", "two runs of a program draw the same random values: " + out[0].substr(0, 40));
}
int main(int argc, char** argv) {
  if (argc > 1 && std::string(argv[1]) == "--draw") { for (int i = 0; i < 4; i++) printf("%016llx ", (unsigned long long)generate_random_value()); return 0; }
  self = argv[0];
  return mc::run(argc, argv, [](int tier) {
    mc::Options o; o.as_limit_mb = 0;
    o.rule = "no cycle of up to 2^32 (2^34) draws; fills of more than 2^32 bytes; lengths 2^6..2^16 (2^20) and neighbours, 64 alignments; every element width x every length 0..600 (3000) x 4 injected contents x spare values, with guard elements; bignum widths and private keys from injected draws (all single-bit draws); all 10^4 (10^5) histories of draws and fills with 0..8 injected values; 2^22 (2^25) consecutive draws pairwise distinct; two program runs";
    o.assumptions = {"freedom from repetition is established for the enumerated run of draws only", "statistical quality is not judged"};
    auto add = [&](std::string n, std::function<void(Ctx&)> f) { o.units.push_back({n, f}); };
    add("cycle", [=](Ctx& c) { cycle(c, tier); }); add("huge", hugeFill); add("run", [=](Ctx& c) { run(c, tier); });
    add("history", [=](Ctx& c) { history(c, tier ? 5 : 4); });
    add("fill8", [=](Ctx& c) { fills<uint8_t>(c, tier); }); add("fill16", [=](Ctx& c) { fills<uint16_t>(c, tier); }); add("fill32", [=](Ctx& c) { fills<uint32_t>(c, tier); }); add("fill64", [=](Ctx& c) { fills<uint64_t>(c, tier); });
    add("bignum", [=](Ctx& c) { nums<32>(c); nums<64>(c); nums<96>(c); nums<128>(c); nums<160>(c); nums<256>(c); nums<512>(c); nums<1024>(c); nums<2048>(c); });
    add("keys", keys); add("processes", processes);
    return o;
  });
}
