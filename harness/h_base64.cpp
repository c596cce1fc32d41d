// E01: base64
#include <span>
#include <string>
#include <vector>
#include "caligo/base64.h"
#include "mc.hpp"
#ifndef ASAN
#include "huge.hpp"
#endif
using mc::Bytes; using mc::Ctx; using namespace Caligo;
using In = std::span<const uint8_t>;
static const Base64CharSet kSets[3] = {PlusSlash, PlusComma, MinusUnderscore};
static char enc6(int v, int set) {
  if (v < 26) return 'A' + v; if (v < 52) return 'a' + v - 26; if (v < 62) return '0' + v - 52;
  return v == 62 ? "++-"[set] : "/,_"[set];
}
static int dec6(uint8_t ch) {
  if (ch >= 'A' && ch <= 'Z') return ch - 'A'; if (ch >= 'a' && ch <= 'z') return ch - 'a' + 26; if (ch >= '0' && ch <= '9') return ch - '0' + 52;
  if (ch == '+' || ch == '-') return 62; if (ch == '/' || ch == ',' || ch == '_') return 63; return -1;
}
// bit-string model: the text denotes the concatenation of 6-bit groups; whole bytes are kept
static std::string refEnc(In d, bool noEq, int set) {
  std::string s; size_t nb = d.size() * 8;
  for (size_t b = 0; b < nb; b += 6) { int v = 0; for (size_t i = b; i < b + 6; i++) v = v * 2 + (i < nb ? (d[i / 8] >> (7 - i % 8)) & 1 : 0); s += enc6(v, set); }
  while (!noEq && s.size() % 4) s += '=';
  return s;
}
static Bytes refDec(std::string_view t) {
  std::vector<int> g; for (char ch : t) { int v = dec6((uint8_t)ch); if (v >= 0) g.push_back(v); }
  Bytes o(g.size() * 6 / 8);
  for (size_t b = 0; b < o.size() * 8; b++) if (g[b / 6] >> (5 - b % 6) & 1) o[b / 8] |= 0x80 >> (b % 8);
  return o;
}
static void one(Ctx& c, In d, bool nl, bool noEq, int set) {
  std::string got = base64(d, nl, noEq, kSets[set]); c.trans(1);
  std::string body = refEnc(d, noEq, set);
  if (!nl) c.eqs(got, body, "encoding");
  else {
    // lines of 76 characters, each ended by a line break; a final empty line is tolerated only when the last line is full (or there is no data)
    std::string want; for (size_t i = 0; i < body.size(); i += 76) want += body.substr(i, 76) + "\n";
    bool tol = body.size() % 76 == 0;
    if (!(got == want || (tol && got == want + "\n"))) c.fail("lines: got '" + got + "' want '" + want + "'");
  }
  Bytes back = base64d(got); c.eq(back, d, "decode(encode(data))"); c.trace(1);
}
static void allOpts(Ctx& c, In d) { for (int nl = 0; nl < 2; nl++) for (int e = 0; e < 2; e++) for (int s = 0; s < 3; s++) one(c, d, nl, e, s); c.states(1); }
static void dec(Ctx& c, std::string_view t) { c.eq(base64d(t), refDec(t), "decoded bytes"); c.trans(1); c.trace(1); }

#ifndef ASAN
// data and text of gigabytes: the data are tiles whose text also repeats (a tile is a whole number of lines)
static const size_t TILE = 4096 * 57;
static void encHuge(Ctx& c, size_t n, bool nl) {
  huge::Tiles t(n, TILE); c.desc("encoding %zu bytes%s", n, nl ? " in lines" : ""); std::string got = base64(t.cspan(), nl, false, PlusSlash); c.beat(); c.trans();
  auto lines = [&](In d) { std::string b = refEnc(d, false, 0), r; if (!nl) return b; for (size_t i = 0; i < b.size(); i += 76) r += b.substr(i, 76) + "\n"; return r; };
  std::string one = lines(t.tile), last = lines(t.cspan().subspan(n / TILE * TILE)); size_t pos = 0;
  for (size_t i = 0; i < n / TILE; i++, pos += one.size()) { if (got.size() < pos + one.size() || memcmp(got.data() + pos, one.data(), one.size())) c.fail(mc::fmt("text differs from byte %zu on", pos)); if (!(i & 255)) c.beat(); }
  c.eqs(got.substr(std::min(pos, got.size())), last, "end of the text"); c.trace(); c.states();
}
static void decHuge(Ctx& c, size_t n) {
  Bytes unit = mc::pattern(4, 3 * 1024 * 64); std::string text = refEnc(unit, false, 0); if (text.size() != 4096 * 64) c.fail("harness"); huge::Tiles t(n, text.size(), true); memcpy(t.base, text.data(), text.size()); c.desc("decoding %zu characters", n);
  Bytes got = base64d(std::string_view((const char*)t.base, n)); c.beat(); c.trans(); size_t full = n / text.size(), pos = 0; Bytes last = refDec(std::string_view(text).substr(0, n % text.size()));
  for (size_t i = 0; i < full; i++, pos += unit.size()) { if (got.size() < pos + unit.size() || memcmp(got.data() + pos, unit.data(), unit.size())) c.fail(mc::fmt("decoded bytes differ from %zu on", pos)); if (!(i & 255)) c.beat(); }
  c.eq(Bytes(got.begin() + std::min(pos, got.size()), got.end()), last, "end of the decoded bytes"); c.trace(); c.states();
}
#endif
int main(int argc, char** argv) {
  return mc::run(argc, argv, [](int tier) {
    mc::Options o;
    auto add = [&](std::string n, std::function<void(Ctx&)> f) { o.units.push_back({n, f}); };
#ifdef ASAN
    o.as_limit_mb = 0;
    const bool small = true;
#else
    const bool small = false; o.as_limit_mb = 28000; o.hang_s = 300;
    add("huge/encode", [](Ctx& c) { encHuge(c, (3ul << 30) + (3ul << 28) + 1, false); }); add("huge/decode", [](Ctx& c) { decHuge(c, (1ul << 32) + 23); }); add("huge/lines", [](Ctx& c) { encHuge(c, (1ul << 31) + 29, true); });
    if (tier) add("huge/encode-4G", [](Ctx& c) { encHuge(c, (1ul << 32) + 100, false); });
#endif
    o.rule = small ? "address-sanitizer build: every length 0..400 x all options, every text length 0..120 in exact-size buffers"
                   : "encoding 2^31+29 and 3.75*2^30+1 (2^32+100) bytes and decoding 2^32+23 characters in one call; encode+decode of all byte strings of length 0..2 under all 12 option sets and of length 3 under 2; every length 0..700 (2000) x 12 options x 5 contents; sizes around 2^k, 3*2^k, 57*2^k and 76*2^k to 256 KiB (2 MiB); every value of every byte at 12 lengths; decode of all 256-ary texts of length 0..3, all texts of length 4 to 6 (7) over a 14-character alphabet of every class, junk at every position of valid texts, runs of 1..140 and around 2^8..2^17 (2^22) ignored characters of 12 kinds at every position, texts broken at every period";
    o.assumptions = {"longer data than enumerated is extrapolated (the coder's state is position mod 3 and mod 57)"};
    if (!small) {
      for (int k = 8; k <= (tier ? 21 : 18); k++) add(mc::fmt("long/%d", k), [=](Ctx& c) { for (size_t base : {(size_t)1 << k, (size_t)3 << (k - 1), (size_t)57 << (k - 6), (size_t)76 << (k - 6)}) for (int d = -2; d <= 2; d++) { c.at(k, base, d); Bytes m = mc::pattern(4, base + d); for (int nl = 0; nl < 2; nl++) for (int e = 0; e < 2; e++) one(c, m, nl, e, (d + 2) % 3); c.states(1); c.beat(); } });
      for (int a = 0; a < 256; a += 8) add(mc::fmt("enc2/%d", a), [=](Ctx& c) { for (int x = a; x < a + 8; x++) { Bytes b1 = {(uint8_t)x}; c.at(x); allOpts(c, b1); for (int y = 0; y < 256; y++) { c.at(x, y); Bytes b2 = {(uint8_t)x, (uint8_t)y}; allOpts(c, b2); } } });
      for (int a = 0; a < 256; a += 4) add(mc::fmt("enc3/%d", a), [=](Ctx& c) { for (int x = a; x < a + 4; x++) for (int y = 0; y < 256; y++) for (int z = 0; z < 256; z += (tier ? 1 : 1)) { c.at(x, y, z); uint8_t b[3] = {(uint8_t)x, (uint8_t)y, (uint8_t)z}; std::string g = base64(b, false, z & 1, kSets[(x + y) % 3]); int v = x << 16 | y << 8 | z; int s = (x + y) % 3; if (g.size() != 4 || g[0] != enc6(v >> 18, s) || g[1] != enc6(v >> 12 & 63, s) || g[2] != enc6(v >> 6 & 63, s) || g[3] != enc6(v & 63, s)) c.fail("three-byte group: " + g); Bytes d = base64d(g); c.eq(d, b, "three-byte decode"); c.trans(1); c.trace(1); c.states(1); } });
      for (int a = 0; a < 256; a += 4) add(mc::fmt("dec3/%d", a), [=](Ctx& c) { for (int x = a; x < a + 4; x++) { char t[3] = {(char)x, 0, 0}; c.at(x); dec(c, {t, 1}); for (int y = 0; y < 256; y++) { t[1] = (char)y; c.at(x, y); dec(c, {t, 2}); for (int z = 0; z < 256; z++) { t[2] = (char)z; c.at(x, y, z); dec(c, {t, 3}); c.states(1); } } } });
      static const std::string al("A/+-_,=\n \r9z\xff\0", 14);
      for (int f = 0; f < 14; f++) for (int f2 = 0; f2 < 14; f2++) add(mc::fmt("dect/%d.%d", f, f2), [=](Ctx& c) {
        std::string t = {al[f], al[f2]}; uint64_t code = 0;
        std::function<void()> go = [&] { c.at(f, f2, code++, t.size()); dec(c, t); c.states(1); if ((int)t.size() < (tier ? 7 : 6)) for (char ch : al) { t.push_back(ch); go(); t.pop_back(); } };
        go();
      });
      // runs of ignored characters between any two characters of a text, and texts broken at every period
      static const std::string junk(" \n\r\t=-@\0\x80\xff.:", 12);
      for (int q = 0; q < 12; q++) add(mc::fmt("runs/%d", q), [=](Ctx& c) { char ch = junk[q]; if (dec6((uint8_t)ch) >= 0) ch = '!';
        std::vector<size_t> rs; for (size_t r = 1; r <= 140; r++) rs.push_back(r); for (int k = 8; k <= (tier ? 22 : 17); k++) for (int d = -1; d <= 1; d++) rs.push_back(((size_t)1 << k) + d); for (size_t r : {500, 1000, 10000, 100000, 1000003}) rs.push_back(r);
        for (size_t r : rs) { Bytes d = mc::pattern(4, r < 200 ? 19 : 9); std::string t = refEnc(d, true, q % 3), run(r, ch); for (size_t p = 0; p <= t.size(); p++) { if (r > 100000 && p % 3) continue; c.at(q, r, p); std::string u = t; u.insert(p, run); c.eq(base64d(u), d, "a run of other characters is ignored"); if (r < 5000) { u.insert(u.size() - p / 2, run); c.eq(base64d(u), d, "two runs ignored"); } c.trans(1); c.trace(1); } c.states(1); c.beat(); } });
      for (int q = 0; q < 8; q++) add(mc::fmt("broken/%d", q), [=](Ctx& c) { for (size_t n : {100, 1000, 5000}) { Bytes d = mc::pattern(4, n + q); std::string t = refEnc(d, q & 1, q % 3); for (size_t line = 1; line <= (n < 1000 ? t.size() : 90); line++) for (const char* e : {"\n", "\r\n", " ", "\n\n"}) { c.at(q, n, line); std::string u; for (size_t i = 0; i < t.size(); i += line) u += t.substr(i, line) + e; c.eq(base64d(u), d, "text in lines"); c.trans(1); c.trace(1); } c.states(1); c.beat(); } });
      add("empty", [](Ctx& c) { allOpts(c, {}); dec(c, ""); });
    }
    int L = small ? 400 : tier ? 2000 : 700;
    for (int q : {0, 1, 4, 5, 2}) for (int part = 0; part < 4; part++) add(mc::fmt("lens/%d.%d", q, part), [=](Ctx& c) {
      for (int n = part; n <= L; n += 4) { c.at(q, n); Bytes d = mc::pattern(q, n); allOpts(c, d); }
    });
    for (int n : {1, 2, 3, 4, 5, 6, 7, 56, 57, 58, 59, 114}) add(mc::fmt("bytes/%d", n), [=](Ctx& c) {
      for (int i = 0; i < n; i += (small ? 7 : 1)) for (int v = 0; v < 256; v++) { c.at(n, i, v); Bytes d = mc::pattern(4, n); d[i] = (uint8_t)v; allOpts(c, d); }
    });
    for (int n = 0; n <= (small ? 30 : 60); n++) add(mc::fmt("junk/%d", n), [=](Ctx& c) {
      Bytes d = mc::pattern(4, n);
      for (int set = 0; set < 3; set++) for (int e = 0; e < 2; e++) {
        std::string t = refEnc(d, e, set);
        for (size_t cut = 0; cut <= t.size(); cut++) { c.at(n, set, cut); std::string u = t.substr(0, cut); u.shrink_to_fit(); std::vector<char> ex(u.begin(), u.end()); dec(c, {ex.data(), ex.size()}); }
        for (size_t p = 0; p <= t.size(); p++) for (int v = 0; v < 256; v += (small ? 17 : 1)) { if (dec6((uint8_t)v) >= 0) continue; c.at(n, set, p, v); std::string u = t; u.insert(p, 1, (char)v); c.eq(base64d(u), d, "junk ignored"); if (p % 5 == 0) { u.insert(u.size() - p, 3, (char)v); c.eq(base64d(u), d, "more junk ignored"); } c.trans(1); c.trace(1); }
        c.states(1);
      }
    });
    return o;
  });
}
