// H04 (GROUP=4: hash by name), K01 (GROUP=5: HMAC), K02 (GROUP=6: HKDF and the TLS 1.3 key schedule)
#include <array>
#include <cstdint>
#include <span>
#include <string>
#include <vector>
#include "caligo/md5.h"
#include "caligo/sha1.h"
#include "caligo/sha2.h"
#include "caligo/sha3.h"
#include "caligo/hash.h"
#include "caligo/hkdf.h"
#include "caligo/aes.h"
#include "mc.hpp"
#include "refhash.hpp"
#if GROUP <= 5
#include "huge.hpp"
#endif

using mc::Bytes; using mc::Ctx;
using namespace Caligo;
using In = std::span<const uint8_t>;

struct Named { const char* name; const char* alg; };
static const Named kNames[] = {
  {"md5", "md5"}, {"sha", "sha1"}, {"sha1", "sha1"}, {"sha224", "sha224"}, {"sha2-224", "sha224"}, {"sha256", "sha256"}, {"sha2-256", "sha256"},
  {"sha384", "sha384"}, {"sha2-384", "sha384"}, {"sha512", "sha512"}, {"sha2-512", "sha512"},
  {"sha3-224", "sha3-224"}, {"sha3-256", "sha3-256"}, {"sha3-384", "sha3-384"}, {"sha3-512", "sha3-512"}};

// DigestInfo ::= SEQUENCE { SEQUENCE { OID, NULL }, OCTET STRING } up to the digest itself, built from the OID arcs
static Bytes digestInfo(const std::string& alg) {
  std::vector<unsigned> arcs;
  if (alg == "md5") arcs = {1, 2, 840, 113549, 2, 5};
  else if (alg == "sha1") arcs = {1, 3, 14, 3, 2, 26};
  else {
    std::map<std::string, unsigned> last = {{"sha256", 1}, {"sha384", 2}, {"sha512", 3}, {"sha224", 4}, {"sha3-224", 7}, {"sha3-256", 8}, {"sha3-384", 9}, {"sha3-512", 10}};
    arcs = {2, 16, 840, 1, 101, 3, 4, 2, last.at(alg)};
  }
  Bytes oid = {(uint8_t)(arcs[0] * 40 + arcs[1])};
  for (size_t i = 2; i < arcs.size(); i++) {
    Bytes t; unsigned v = arcs[i]; t.push_back(v & 0x7f); while (v >>= 7) t.push_back(0x80 | (v & 0x7f));
    oid.insert(oid.end(), t.rbegin(), t.rend());
  }
  size_t hs = ref::hashdef(alg).size;
  Bytes algid = {0x06, (uint8_t)oid.size()}; algid.insert(algid.end(), oid.begin(), oid.end()); algid.push_back(5); algid.push_back(0);
  Bytes r = {0x30, (uint8_t)(2 + algid.size() + 2 + hs), 0x30, (uint8_t)algid.size()};
  r.insert(r.end(), algid.begin(), algid.end()); r.push_back(4); r.push_back((uint8_t)hs);
  return r;
}

static void nameBehaves(Ctx& c, const Named& nm, int tier) {
  const auto& def = ref::hashdef(nm.alg);
  size_t B = def.block, L = (tier ? 4 : 2) * B + 5;
  for (int pat : {4, 1, 0}) {
    Bytes m = mc::pattern(pat, L);
    std::vector<Bytes> want(L + 1);
    for (size_t n = 0; n <= L; n++) want[n] = def.fn(In(m.data(), n));
    c.states(L + 1);
    for (size_t a = 0; a <= L; a++)
      for (size_t b = 0; a + b <= L; b += (pat == 4 || tier ? 1 : 5)) {
        c.desc("Hash(\"%s\") pattern %d split %zu+%zu", nm.name, pat, a, b);
        Hash h(nm.name);
        h.add(In(m.data(), a));
        c.equ(h.hashsize(), def.size, "hashsize");
        if (b & 1) { Bytes mid = h; c.eq(mid, want[a], "digest read midway"); }
        h.add(std::string_view((const char*)m.data() + a, b));
        Bytes d = h.data();
        c.eq(d, want[a + b], "digest");
        std::string s = h;
        c.eqs(s, ref::hexs(want[a + b]), "text");
        Bytes d2 = h; c.eq(d2, want[a + b], "second read");
        c.trans(2); c.trace(1);
      }
    Hash one(nm.name, In(m.data(), L / 2), In(m.data() + L / 2, L - L / 2));
    c.eq(one.data(), want[L], "one-off constructor");
    Hash h(nm.name);
    for (size_t i = 0; i < L; i++) { h.add(In(&m[i], 1)); c.eq(h.data(), want[i + 1], "byte-wise"); c.trans(1); c.trace(1); }
  }
  Hash h(nm.name);
  c.eq(h.getAsn1Id(), digestInfo(nm.alg), "ASN.1 DigestInfo prefix");
  c.sample(std::string(nm.name) + " -> " + ref::hexs(Hash(nm.name, std::string_view("abc")).data()));
}
// operation histories on two live objects of different algorithms
static void nameHistory(Ctx& c, int ia, int depth) {
  for (size_t ib = 0; ib < std::size(kNames); ib++) {
    const auto &da = ref::hashdef(kNames[ia].alg), &db = ref::hashdef(kNames[ib].alg);
    int total = 1; for (int i = 0; i < depth; i++) total *= 8;
    for (int code = 0; code < total; code++) {
      c.at(ia, ib, code);
      Hash a(kNames[ia].name), b(kNames[ib].name); Bytes ma, mb; int x = code;
      for (int d = 0; d < depth; d++, x /= 8) {
        int op = x % 8; Hash& h = op < 4 ? a : b; Bytes& m = op < 4 ? ma : mb; const auto& df = op < 4 ? da : db;
        c.trans(1);
        if (op % 4 == 3) c.eq(h.data(), df.fn(m), "read in history");
        else { size_t n = op % 4 == 0 ? 1 : op % 4 == 1 ? df.block - 9 : df.block; Bytes p = mc::pattern(5 + d, n); h.add(p); m.insert(m.end(), p.begin(), p.end()); }
      }
      c.eq(a.data(), da.fn(ma), "first object after history"); c.eq(b.data(), db.fn(mb), "second object after history");
      c.trace(1); c.states(1);
    }
  }
}
#if GROUP == 4
// long pieces, singly and in sequence (libcrypto)
static void nameLong(Ctx& c, const Named& nm, size_t huge_) {
  huge::Tiles t(huge_, (1 << 20) + 4096); In d = t.cspan();
  for (int k = 7; k <= 22; k++) for (int dl = -1; dl <= 1; dl++) { size_t n = ((size_t)1 << k) + dl; c.desc("Hash(\"%s\"), pieces of %zu, 0, %zu bytes", nm.name, n, n / 3); huge::Dig r(nm.alg); r.add(d.first(n)); r.add(d.subspan(5, n / 3)); Bytes want = r.done(); Hash h(nm.name); h.add(d.first(n)); h.add(In()); h.add(std::string_view((const char*)d.data() + 5, n / 3)); c.eq(h.data(), want, "digest of long pieces"); std::string s = h; c.eqs(s, ref::hexs(want), "text of long pieces"); Hash g(nm.name, d.first(n), d.subspan(5, n / 3)); c.eq(g.data(), want, "one-off constructor"); c.trans(2); c.trace(2); c.states(); c.beat(); }
  c.desc("Hash(\"%s\"), one piece of %zu bytes", nm.name, huge_); Hash h(nm.name); h.add(d); c.beat(); huge::Dig r(nm.alg); r.add(d); r.add(d.first(200)); h.add(d.first(200)); c.eq(h.data(), r.done(), "digest of a huge piece"); c.trans(2); c.trace(); c.states();
}
#endif
static bool supported(const std::string& s) { for (auto& n : kNames) if (s == n.name) return true; return false; }
static void refuse(Ctx& c, const std::string& s) {
  if (supported(s)) return;
  c.desc("name '%s' (hex %s)", s.c_str(), mc::hex(mc::bytes(s)).c_str());
  bool threw = false;
  try { Hash h(s); } catch (const std::exception&) { threw = true; }
  if (!threw) c.fail("unsupported hash name accepted");
  c.trans(1); c.states(1); c.trace(1);
}
static void refuseAll(Ctx& c, const std::string& alphabet, size_t maxlen, char first) {
  std::function<void(std::string)> go = [&](std::string s) { refuse(c, s); if (s.size() < maxlen) for (char ch : alphabet) go(s + ch); };
  go(std::string(1, first));
}
// every sequence of name parts
static void refuseTokens(Ctx& c, size_t first, int depth) {
  static const char* T[] = {"sha", "SHA", "md", "1", "2", "3", "5", "224", "256", "384", "512", "128", "160", "-", "/", "_", " ", "0", "x", "sha2", "sha3", "sha2-", "sha3-"};
  std::function<void(std::string, int)> go = [&](std::string s, int d) { refuse(c, s); if (d) for (auto t : T) go(s + t, d - 1); };
  go(T[first], depth - 1);
}
static void refuseEdits(Ctx& c, const std::string& n) {
  refuse(c, "");
  for (size_t i = 0; i <= n.size(); i++) {
    refuse(c, n.substr(0, i)); refuse(c, n.substr(i));
    if (i < n.size()) { std::string t = n; t.erase(i, 1); refuse(c, t); }
    for (int v = 0; v < 256; v++) {
      std::string t = n; t.insert(t.begin() + i, (char)v); refuse(c, t);
      if (i < n.size()) { t = n; t[i] = (char)v; refuse(c, t); }
      for (size_t j = 0; j < i && i < n.size(); j++) for (char w : {'0', '1', '2', '3', '5', '6', '8', 's', '-', 'S', '\0', ' '}) { t = n; t[i] = (char)v; t[j] = w; refuse(c, t); }
    }
    if (i + 1 < n.size()) { std::string t = n; std::swap(t[i], t[i + 1]); refuse(c, t); }
  }
  for (auto& o : kNames) { refuse(c, n + o.name); refuse(c, n + "-" + o.name); }
  std::string up = n; for (auto& ch : up) ch = toupper(ch); refuse(c, up);
  for (int len : {1, 2, 16, 4096}) refuse(c, n + std::string(len, '\0'));
  for (const char* s : {"sha-1", "sha-224", "sha-256", "sha-384", "sha-512", "sha2", "sha3", "sha3", "sha0", "sha2-1", "sha3-1", "sha512-224", "sha512-256", "sha512/256", "sha3-128", "sha3-160", "sha3-1024", "sha3_256", "sha3256", "sha3512", "shake128", "shake256", "crc32", "crc", "md2", "md4", "md6", "MD5", "SHA256", "ripemd160", "blake2b", "sm3", "whirlpool", "none", "null", "default"}) refuse(c, s);
}

#define HASHES(X) X(MD5, "md5") X(SHA1, "sha1") X(SHA2<224>, "sha224") X(SHA2<256>, "sha256") X(SHA2<384>, "sha384") X(SHA2<512>, "sha512") \
  X(SHA3<224>, "sha3-224") X(SHA3<256>, "sha3-256") X(SHA3<384>, "sha3-384") X(SHA3<512>, "sha3-512")

template <typename H> void hmacLens(Ctx& c, const char* name, int tier, int pat) {
  const auto& def = ref::hashdef(name); size_t B = def.block;
  Bytes K = mc::pattern(pat, 3 * B + 40), T = mc::pattern(pat == 4 ? 5 : pat, 3 * B + 40);
  std::set<size_t> tl;
  if (tier || pat == 4) for (size_t i = 0; i <= (tier ? 2 * B + 20 : B + 20); i += (tier || B <= 72 ? 1 : 3)) tl.insert(i);
  for (size_t i : {(size_t)0, (size_t)1, def.size, B - 17, B - 16, B - 9, B - 8, B - 1, B, B + 1, 2 * B, 3 * B + 7}) tl.insert(i);
  for (size_t k = 0; k <= 2 * B + 9; k++)
    for (size_t t : tl) {
      c.at(pat, k, t);
      auto got = HMAC<H>(In(T.data(), t), In(K.data(), k));
      c.eq(got, ref::hmac(def, In(K.data(), k), In(T.data(), t)), "HMAC");
      c.trans(1); c.trace(1); c.states(1);
    }
  c.sample(mc::fmt("%s pattern %d: key lengths 0..%zu x %zu text lengths", name, pat, 2 * B + 9, tl.size()));
}
template <typename H> void hmacContent(Ctx& c, const char* name) {
  const auto& def = ref::hashdef(name); size_t B = def.block;
  for (size_t k : {(size_t)1, def.size, B - 1, B, B + 1, 2 * B}) {
    Bytes K = mc::pattern(7, k), T = mc::pattern(8, 20);
    for (size_t i = 0; i < k; i++) for (int v = 0; v < 256; v++) {
      c.at(k, i, v); Bytes k2 = K; k2[i] = (uint8_t)v;
      c.eq(HMAC<H>(T, k2), ref::hmac(def, k2, T), "HMAC key byte");
      c.trans(1); c.trace(1); c.states(1);
    }
    for (size_t i = 0; i < T.size(); i++) for (int v = 0; v < 256; v++) {
      c.at(k, 1000 + i, v); Bytes t2 = T; t2[i] = (uint8_t)v;
      c.eq(HMAC<H>(t2, K), ref::hmac(def, K, t2), "HMAC text byte");
      c.trans(1); c.trace(1); c.states(1);
    }
  }
}

// sizes around every power of two and every multiple of 10000 in between: nothing may change its behaviour at some size
static std::vector<size_t> longSizes(int tier) {
  std::set<size_t> r; for (size_t p = 256; p <= (tier ? 4u << 20 : 1u << 19); p *= 2) for (long d = -2; d <= 2; d++) { r.insert(p + d); r.insert(p + p / 2 + d); } for (size_t v = 1000; v <= 300000; v += v < 10000 ? 1000 : 10000) { r.insert(v); r.insert(v + 1); }
  return {r.begin(), r.end()};
}
template <typename H> void hmacLong(Ctx& c, const char* name, int tier, bool ofKey) {
  const auto& def = ref::hashdef(name); auto L = longSizes(tier); Bytes big = mc::pattern(4, L.back()); size_t B = def.block;
  for (size_t n : L) for (size_t o : ofKey ? std::vector<size_t>{0, 5} : std::vector<size_t>{def.size, B + 1}) { c.at(n, o, ofKey); c.beat(); In l(big.data(), n), s(big.data() + 3, o);
    c.eq(ofKey ? HMAC<H>(s, l) : HMAC<H>(l, s), ofKey ? ref::hmac(def, l, s) : ref::hmac(def, s, l), ofKey ? "HMAC with a long key" : "HMAC of a long text"); c.trans(1); c.trace(1); c.states(1); }
}
#if GROUP == 5
// texts and keys of gigabytes (libcrypto)
template <typename H> void hmacHuge(Ctx& c, const char* name, size_t n, bool ofKey) {
  const auto& def = ref::hashdef(name); huge::Tiles t(n, (1 << 20) + 4096); Bytes s = mc::pattern(5, ofKey ? 77 : 20); c.desc("%s of %zu bytes", ofKey ? "key" : "text", n);
  auto got = ofKey ? HMAC<H>(s, t.cspan()) : HMAC<H>(t.cspan(), s); c.beat(); c.eq(got, ofKey ? huge::hmac(name, def.block, t.cspan(), s) : huge::hmac(name, def.block, s, t.cspan()), "HMAC"); c.trans(); c.trace(); c.states();
}
#endif
template <typename H> void extract(Ctx& c, const char* name, int tier) {
  const auto& def = ref::hashdef(name); size_t B = def.block;
  Bytes S = mc::pattern(4, 3 * B), I = mc::pattern(5, 3 * B);
  for (size_t s = 0; s <= 2 * B + 3; s++) for (size_t i = 0; i <= 2 * B + 3; i += (tier ? 1 : 7)) {
    c.at(s, i);
    c.eq(HKDF_Extract<H>(In(S.data(), s), In(I.data(), i)), ref::hmac(def, In(S.data(), s), In(I.data(), i)), "HKDF-Extract");
    c.trans(1); c.trace(1); c.states(1);
  }
  auto L = longSizes(tier); Bytes big = mc::pattern(4, L.back());
  for (size_t n : L) if (n < 70000 || tier) { c.at(n); c.beat(); In l(big.data(), n), s(S.data(), B); c.eq(HKDF_Extract<H>(s, l), ref::hmac(def, s, l), "HKDF-Extract of long input"); c.eq(HKDF_Extract<H>(l, s), ref::hmac(def, l, s), "HKDF-Extract with long salt"); c.eq(HKDF_Expand<H>(s, l, def.size + 1), ref::hkdf_expand(def, s, l, def.size + 1), "HKDF-Expand with long info"); c.trans(3); c.trace(3); c.states(1); }
}
template <typename H> void expandLens(Ctx& c, const char* name, int part, int parts) {
  const auto& def = ref::hashdef(name);
  Bytes prk = mc::pattern(4 + part % 2, def.size), info = mc::pattern(6, 11);
  size_t max = 255 * def.size;
  Bytes all = ref::hkdf_expand(def, prk, info, max);
  for (size_t len = part; len <= max; len += parts) {
    c.at(len);
    c.eq(HKDF_Expand<H>(prk, info, len), In(all.data(), len), "HKDF-Expand output");
    c.trans(1); c.trace(1); c.states(1);
  }
}
template <typename H> void expandMisc(Ctx& c, const char* name, int tier) {
  const auto& def = ref::hashdef(name); size_t B = def.block, hs = def.size;
  Bytes P = mc::pattern(4, 3 * B), I = mc::pattern(5, 400);
  for (size_t p : {(size_t)0, (size_t)1, hs, B - 1, B, B + 1, 2 * B + 5})
    for (size_t i = 0; i <= (tier ? 300 : 150); i++)
      for (size_t len : {(size_t)1, hs - 1, hs, hs + 1, 3 * hs + 7}) {
        c.at(p, i, len);
        c.eq(HKDF_Expand<H>(In(P.data(), p), In(I.data(), i), len), ref::hkdf_expand(def, In(P.data(), p), In(I.data(), i), len), "HKDF-Expand");
        c.trans(1); c.trace(1); c.states(1);
      }
  std::vector<size_t> over;
  for (size_t d = 1; d <= 2 * hs + 2; d++) over.push_back(255 * hs + d);
  for (size_t v : {256 * hs * 2, (size_t)65535, (size_t)65536, (size_t)100000}) if (v > 255 * hs) over.push_back(v);
  for (size_t len : over) {
    c.at(len);
    bool threw = false;
    try { HKDF_Expand<H>(In(P.data(), hs), In(I.data(), 5), len); } catch (const std::exception&) { threw = true; }
    if (!threw) c.fail("output longer than 255 blocks produced");
    c.trans(1); c.states(1); c.trace(1);
  }
}
template <typename H> void labels(Ctx& c, const char* name, int tier) {
  const auto& def = ref::hashdef(name); size_t hs = def.size;
  Bytes P = mc::pattern(4, hs), C = mc::pattern(5, 255);
  std::string lab(249, 'x'); for (size_t i = 0; i < lab.size(); i++) lab[i] = 'a' + i % 26;
  auto one = [&](size_t l, size_t x, size_t len) {
    c.at(l, x, len);
    c.eq(HKDF_Expand_Label<H>(P, lab.substr(0, l), In(C.data(), x), len), ref::hkdf_label(def, P, lab.substr(0, l), In(C.data(), x), len), "HKDF-Expand-Label");
    c.trans(1); c.trace(1); c.states(1);
  };
  for (size_t l = 0; l <= 249; l++) for (size_t x = 0; x <= 255; x += (tier ? 1 : 15)) one(l, x, hs);
  for (size_t l = 0; l <= 249; l += (tier ? 1 : 10)) for (size_t x = 0; x <= 255; x++) one(l, x, hs - 3);
  for (size_t len = 0; len <= 255 * hs; len += (len < 600 ? 1 : tier ? 7 : 61)) one(9, hs, len);
}
// the key schedule as a state machine: handshake -> master -> (update)*, every derivation checked in every state
template <typename H> void schedule(Ctx& c, const char* name, int tier) {
  const auto& def = ref::hashdef(name); size_t hs = def.size;
  Bytes zero(hs), emptyHash = def.fn({});
  Bytes early = ref::hmac(def, zero, zero), derived = ref::hkdf_label(def, early, "derived", emptyHash, hs);
  std::vector<Bytes> shareds; for (size_t n : {0, 1, 32, 48, 56, 64, 65, 128, 256}) for (int p : {0, 1, 4}) shareds.push_back(mc::pattern(p, n));
  std::vector<Bytes> trs; for (size_t n : {(size_t)0, (size_t)1, hs, (size_t)32, (size_t)64, (size_t)255}) trs.push_back(mc::pattern(9, n));
  for (int p : {0, 1, 5}) trs.push_back(mc::pattern(p, hs));
  size_t si = 0;
  for (auto& sh : shareds) {
    si++;
    c.at(si);
    secret<H> s = HKDF_HandshakeSecret<H>(sh);
    Bytes m = ref::hmac(def, derived, sh);
    c.eq(s.data, m, "handshake secret");
    for (int stage = 0; stage < (tier ? 12 : 6); stage++) {
      c.states(1);
      for (size_t ti = 0; ti < trs.size(); ti++) {
        auto& tr = trs[ti];
        Bytes t4[4];
        for (int k = 0; k < 4; k++) {
          bool client = k & 1, hsk = k & 2;
          c.at(si, stage, ti, k);
          Bytes t = ref::hkdf_label(def, m, std::string(client ? "c " : "s ") + (hsk ? "hs" : "ap") + " traffic", tr, hs);
          t4[k] = t;
          c.eq(s.get_traffic_secret(tr, client, hsk), t, "traffic secret");
          auto k1 = s.template get_key_iv<AES<128>>(tr, client, hsk);
          c.eq(k1.key, ref::hkdf_label(def, t, "key", {}, 16), "AES-128 key"); c.eq(k1.iv, ref::hkdf_label(def, t, "iv", {}, 12), "AES-128 iv");
          auto k2 = s.template get_key_iv<AES<256>>(tr, client, hsk);
          c.eq(k2.key, ref::hkdf_label(def, t, "key", {}, 32), "AES-256 key"); c.eq(k2.iv, ref::hkdf_label(def, t, "iv", {}, 12), "AES-256 iv");
          if (!hsk) { auto k3 = s.template get_key_iv<AES<128>>(tr, client); c.eq(k3.key, k1.key, "default is application keys"); }
          c.trans(3); c.trace(3);
        }
        for (int client = 0; client < 2; client++) { c.eq(s.get_finished_key(tr, client), ref::hkdf_label(def, t4[2 + client], "finished", {}, hs), "finished key"); c.trans(1); c.trace(1); }
        c.eq(exporter_master(s, tr), ref::hkdf_label(def, m, "exp master", tr, hs), "exporter master");
        c.eq(resumption_master(s, tr), ref::hkdf_label(def, m, "res master", tr, hs), "resumption master");
        c.trans(2); c.trace(2);
        c.eq(s.data, m, "deriving changed the secret");
      }
      if (stage == 0) { s = HKDF_MasterSecret<H>(s); m = ref::hmac(def, ref::hkdf_label(def, m, "derived", emptyHash, hs), zero); c.eq(s.data, m, "master secret"); }
      else { secret<H> u = HKDF_UpdateSecret<H>(s); m = ref::hkdf_label(def, m, "traffic upd", {}, hs); s = u; c.eq(s.data, m, "updated secret"); }
      c.trans(1); c.trace(1);
    }
  }
  c.sample(mc::fmt("%s key schedule: %zu shared secrets x %zu transcripts", name, shareds.size(), trs.size()));
}

int main(int argc, char** argv) {
  return mc::run(argc, argv, [](int tier) {
    mc::Options o;
    o.assumptions = {"reference hashes/HMAC/HKDF: refhash.hpp, cross-checked with Python hashlib/hmac by tools/selftest_ref.py", "byte contents beyond the enumerated patterns, single-byte variations and lengths are extrapolated"};
#if GROUP == 4
    o.rule = "every supported name: all two-piece splits up to 2 (4) blocks for 3 contents with interleaved reads, DigestInfo built from OID arcs; all 8^3 (8^4) operation histories over every ordered pair of named objects; refusal of every string of up to 4 (5) characters over the name alphabet, every sequence of up to 5 (6) name parts (families, sizes, separators), every 1-edit and many 2-edit neighbours of every name (all 256 byte values)";
    o.as_limit_mb = 24000; o.hang_s = 300; o.rule = "pieces around powers of two to 4 MiB and of 2^29+5 (sha512: 2^32+21) bytes against libcrypto; " + o.rule;
    for (auto& n : kNames) o.units.push_back({std::string("long/") + n.name, [&n](Ctx& c) { nameLong(c, n, std::string(n.name) == "sha512" ? (1ul << 32) + 21 : (1ul << 29) + 5); }});
    for (auto& n : kNames) o.units.push_back({std::string("name/") + n.name, [&n, tier](Ctx& c) { nameBehaves(c, n, tier); }});
    for (size_t i = 0; i < std::size(kNames); i++) o.units.push_back({"history/" + std::to_string(i), [i, tier](Ctx& c) { nameHistory(c, (int)i, tier ? 4 : 3); }});
    for (auto& n : kNames) o.units.push_back({std::string("edits/") + n.name, [&n](Ctx& c) { refuseEdits(c, n.name); }});
    for (size_t i = 0; i < 23; i++) o.units.push_back({"tokens/" + std::to_string(i), [i, tier](Ctx& c) { refuseTokens(c, i, tier ? 6 : 5); }});
    std::string al = "shamd123456789-0 _SHAMDkect/";
    for (char ch : std::string("shamd123456789-0 _SHAMD")) o.units.push_back({std::string("strings/") + ch, [al, ch, tier](Ctx& c) { refuseAll(c, al, tier ? 5 : 4, ch); }});
#elif GROUP == 5
    o.rule = "per hash: every key length 0..2 blocks+9 x text lengths (every length to block+20 for one content, boundary lengths for 3 more); every value of every key byte at 6 key lengths and of every text byte";
#define X(T, n) for (int p : {4, 0, 1, 2}) o.units.push_back({std::string(n) + "/lens" + std::to_string(p), [p, tier](Ctx& c) { hmacLens<T>(c, n, tier, p); }}); o.units.push_back({std::string(n) + "/content", [](Ctx& c) { hmacContent<T>(c, n); }});
    HASHES(X)
#undef X
    o.as_limit_mb = 24000; o.hang_s = 300; o.units.push_back({"/long-huge", [](Ctx& c) { hmacHuge<SHA2<256>>(c, "sha256", (1ul << 32) + 21, false); }});
#define X(T, n) o.units.push_back({std::string(n) + "/long-half-gigabyte", [](Ctx& c) { hmacHuge<T>(c, n, (1ul << 29) + 5, std::string(n) == "sha512"); }});
    HASHES(X)
#undef X
#define X(T, n) for (int k = 0; k < 2; k++) o.units.push_back({std::string(n) + "/long" + std::to_string(k), [k, tier](Ctx& c) { hmacLong<T>(c, n, tier, k); }});
    HASHES(X)
#undef X
    std::stable_partition(o.units.begin(), o.units.end(), [](const mc::Unit& u) { return u.name.find("/long") != std::string::npos; });
    o.rule += "; texts and keys of every size around powers of two and their halves up to 512 KiB (4 MiB) and every ten thousand; a text (SHA-512: a key) of 2^29+5 bytes for every hash and of 2^32+21 bytes for SHA-256 (libcrypto)";
#else
    o.rule = "per hash: extract over all salt x input lengths to 2 blocks+3 and sizes around powers of two to 64 KiB (4 MiB), also for the info of expand; expand for every permitted output length 0..255*hashsize, info lengths 0..150 (300), refusal above the maximum; every label length 0..249 x context length 0..255 grid; key-schedule state machine handshake->master->update^n with every derivation in every state";
#define X(T, n) o.units.push_back({std::string(n) + "/extract", [tier](Ctx& c) { extract<T>(c, n, tier); }}); \
    for (int p = 0; p < 8; p++) o.units.push_back({std::string(n) + "/expand" + std::to_string(p), [p](Ctx& c) { expandLens<T>(c, n, p, 8); }}); \
    o.units.push_back({std::string(n) + "/misc", [tier](Ctx& c) { expandMisc<T>(c, n, tier); }}); \
    o.units.push_back({std::string(n) + "/labels", [tier](Ctx& c) { labels<T>(c, n, tier); }}); \
    o.units.push_back({std::string(n) + "/schedule", [tier](Ctx& c) { schedule<T>(c, n, tier); }});
    HASHES(X)
#undef X
#endif
    return o;
  });
}
