#include <array>
#include <cstdint>
#include <optional>
#include <span>
#include <string>
#include <vector>
#include <ostream>
#include "caligo/random.h"
#include "caligo/bignum.h"
#include "caligo/md5.h"
#include "caligo/sha1.h"
#include "caligo/sha2.h"
#include "caligo/sha3.h"
#include "caligo/crc.h"
#include "caligo/hash.h"
#include "caligo/hkdf.h"
#include "caligo/aes.h"
#include "caligo/gcm.h"
#include "caligo/ctr.h"
#include "caligo/chacha20.h"
#include "caligo/base64.h"
#include "caligo/x25519.h"
#include "caligo/X509Certificate.h"
#include "mem_cases.hpp"
#include "refrsa.hpp"
using namespace Caligo;
std::string memPrime(const Args&);
static std::string hx(S d) { static constexpr char t[] = "0123456789abcdef"; std::string s; s.reserve(2 * d.size()); for (uint8_t c : d) { s += t[c >> 4]; s += t[c & 15]; } return s; }
static std::string_view sv(S d) { return std::string_view((const char*)d.data(), d.size()); }
static Bytes pat(size_t n, unsigned k = 0) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 37 + k * 101 + 11 + (i >> 4)); return b; }
typedef const std::function<void(std::vector<Bytes>, std::vector<size_t>)>& Emit;

static void same(const std::string& a, const std::string& b, const char* what) { if (a != b) throw Broken{std::string(what) + ": " + a.substr(0, 150) + " against " + b.substr(0, 150)}; }
template <class H> std::string hashOp(const Args& a) {
  H h; h.add(a.in[0]); H c(h); H& self = h; h = self; h.add(a.in[1]); H d; d = h; H e(std::move(d)); d = H(); d.add(sv(a.in[0]));
  H p, q; p.add(a.in[0]); q.add(a.in[0]); std::string one = hx(q.data()); q.add(a.in[1]); p.add(a.in[1]); std::string both = hx(p.data());
  same(hx(q.data()), both, "reading a digest before adding more changes it"); same(hx(h.data()), both, "an object assigned to itself"); same(hx(c.data()), one, "a copy"); same((std::string)e, both, "an object moved from an assigned one"); same(hx(d.data()), one, "an object reused by assignment"); same(hx(H(a.in[0], a.in[1]).data()), both, "the pieces given to the constructor");
  return hx(h.data()) + (std::string)e + hx(c.data()) + hx(H(a.in[0], a.in[1]).data()) + hx(d.data()) + hx(H(a.in[0], a.in[0]).data());
}
template <class H> std::string asn1Op(const Args& a) { std::vector<uint8_t> id = H::getAsn1Id(); return hx(id) + hx(PKCS1<H>(a.in[0], a.n[0])); }
template <class H> std::string mgfOp(const Args& a) { return hx(MGF1<H>::MGF(a.in[0], a.n[0])); }
static std::string namedOp(const Args& a) { Hash h(sv(a.in[0])); h.add(a.in[1]); std::string r = (std::string)h + hx(h.data()); { Hash p(sv(a.in[0])); p.add(a.in[1]); same(hx(h.data()), hx(p.data()), "a hash read before"); } h.add(sv(a.in[1])); return r + hx(h.data()) + hx(h.getAsn1Id()) + std::to_string(h.hashsize()) + hx(Hash(sv(a.in[0]), a.in[1], sv(a.in[1])).data()); }
template <class H> std::string hmacOp(const Args& a) { return hx(HMAC<H>(a.in[0], a.in[1])) + hx(HKDF_Extract<H>(a.in[0], a.in[1])) + hx(HMAC<H>(a.in[1], a.in[1])); }
template <class H> std::string expandOp(const Args& a) { return hx(HKDF_Expand<H>(a.in[0], a.in[1], a.n[0])); }
template <class H> std::string labelOp(const Args& a) { return hx(HKDF_Expand_Label<H>(a.in[0], std::string(sv(a.in[1])), a.in[2], a.n[0])); }
template <class H> std::string scheduleOp(const Args& a) {
  auto hs = HKDF_HandshakeSecret<H>(a.in[0]); auto kv = hs.template get_key_iv<AES<128>>(a.in[1], a.n[0] & 1, a.n[0] & 2); auto kw = hs.template get_key_iv<AES<256>>(a.in[1], a.n[0] & 1); auto m = HKDF_MasterSecret<H>(hs); auto u = HKDF_UpdateSecret<H>(m);
  return hx(hs.data) + hx(kv.key) + hx(kv.iv) + hx(kw.key) + hx(kw.iv) + hx(hs.get_finished_key(a.in[1], a.n[0] & 1)) + hx(m.data) + hx(u.data) + hx(exporter_master<H>(u, a.in[1])) + hx(resumption_master<H>(u, a.in[1]));
}
static std::string m128(__m128i x) { uint8_t b[16]; _mm_storeu_si128((__m128i*)b, x); return hx(b); }
template <size_t K> std::string aesOp(const Args& a) { AesKeySchedule<K> ks(a.in[0]); AesKeySchedule<K> c(ks); return m128(AesEncrypt(ks, _mm_setr_epi32(1, 2, 3, 4))) + m128(AES<K>::Encrypt(c, _mm_set1_epi8(-1))); }
template <size_t K> std::string gcmOp(const Args& a) {
  std::string r; GCM<AES<K>> e(key_iv_pair<AES<K>>{a.in[0], a.in[1]}); GCM<AES<K>> d(e), f(e);
  for (int i = 0; i < 2; i++) {
    auto [ct, tag] = e.Encrypt(a.in[2], a.in[3]); std::optional<std::span<uint8_t>> o; std::span<uint8_t> w = a.out(i, ct.size()); std::copy(ct.begin(), ct.end(), w.begin());
    auto [pt, ok] = d.Decrypt(w, a.in[3], tag); tag[i * 15] ^= 1; auto [p2, ok2] = f.Decrypt(w, a.in[3], tag); r += hx(ct) + hx(tag) + (ok ? hx(pt) : "no") + (ok2 ? "!accepted" : "no") + std::to_string(pt.size());
  }
  GCM<AES<K>> g(e), h(e); g = e; GCM<AES<K>>& self = g; g = self; auto [ct, tag] = g.Encrypt(a.in[3], a.in[3]); { GCM<AES<K>> m(std::move(h)); auto [c2, t2] = m.Encrypt(a.in[3], a.in[3]); same(hx(c2) + hx(t2), hx(ct) + hx(tag), "a cipher moved or assigned to itself"); auto [c3, t3] = e.Encrypt(a.in[3], a.in[3]); same(hx(c3) + hx(t3), hx(ct) + hx(tag), "a copied cipher"); } return r + hx(ct) + hx(tag);
}
static std::string ctrCase(const Args& a, auto tag) {
  constexpr size_t K = decltype(tag)::value; CTR<AES<K>> e(key_iv_pair<AES<K>>{a.in[0], a.in[1]}); CTR<AES<K>> d(e); std::string r;
  for (int i = 0; i < 2; i++) { auto w = a.out(i, a.in[2].size()); std::copy(a.in[2].begin(), a.in[2].end(), w.begin()); e.Encrypt(w); r += hx(w) + "/"; d.Decrypt(w); r += hx(w); }
  CTR<AES<K>> p(e); CTR<AES<K>>& self = p; p = self; CTR<AES<K>> q(std::move(p)); std::string k = hx(e.GenerateKeystream(a.n[0])); same(hx(q.GenerateKeystream(a.n[0])), k, "a cipher copied, moved or assigned to itself"); return r + k;
}
template <size_t K> std::string ctrOp(const Args& a) { return ctrCase(a, std::integral_constant<size_t, K>()); }
static std::string chachaOp(const Args& a) {
  ChaCha20 c(a.in[0], a.in[1]); auto w = a.out(0, a.in[2].size()); std::copy(a.in[2].begin(), a.in[2].end(), w.begin()); size_t k = std::min(a.n[0], w.size()); c.Encrypt(w.first(k)); ChaCha20 d(c); ChaCha20& self = c; c = self; c.Encrypt(w.subspan(k)); { ChaCha20 x(a.in[0], a.in[1]); auto y = a.out(1, a.in[2].size()); std::copy(a.in[2].begin(), a.in[2].end(), y.begin()); x.Encrypt(y.first(k)); x.Encrypt(y.subspan(k)); same(hx(w), hx(y), "a cipher copied or assigned to itself"); } std::string r = hx(w); d.Decrypt(w.subspan(k)); return r + hx(w);
}
static std::string b64Op(const Args& a) { std::string s = base64(a.in[0], a.n[0] & 1, a.n[0] & 2, (Base64CharSet)(a.n[0] >> 2)); auto w = a.out(0, s.size()); std::copy(s.begin(), s.end(), w.begin()); return s + hx(base64d(sv(w))); }
static std::string b64dOp(const Args& a) { return hx(base64d(sv(a.in[0]))); }

template <size_t B> std::string bigOp(const Args& a) {
  typedef bignum<B> G; G x(a.in[0]), y(a.in[1]); std::string r = hx(x.as_bytes()) + to_string(x) + to_string(y); std::ostringstream os; os.exceptions(std::ios::badbit); os << x; r += os.str(); G self = x; self = *&self;
  std::vector<uint32_t> w32(G::N); auto o = a.out(0, G::N * 4); for (size_t i = 0; i < G::N; i++) { uint32_t v = y.v[i]; memcpy(o.data() + 4 * i, &v, 4); }
  for (size_t i = 0; i < G::N; i++) w32[i] = x.v[i]; G fromWords{std::span<const uint32_t>(w32)}; r += to_string(fromWords);
  auto s = x + y; auto d = x - y; r += (s.first ? "c" : "-") + to_string(s.second) + (d.first ? "b" : "-") + to_string(d.second) + to_string(x * y) + to_string(x.square()) + to_string(x * (uint32_t)0xfffffffb) + to_string(x ^ y) + (x < y ? "<" : ".") + (x == y ? "=" : "."); G t = x; t ^= y; t &= x; { G z = t; G& zr = z; z = zr; same(to_string(z), to_string(t), "a number assigned to itself"); z &= z; same(to_string(z), to_string(t), "a number and itself"); z ^= z; same(to_string(z), to_string(G(0u)), "a number xor itself"); G q2 = x; auto pr = x * x; same(to_string(q2 * q2), to_string(pr), "a number times itself"); same(to_string((x - q2).second), to_string(G(0u)), "a number minus its copy"); } t.neg(); r += to_string(t);
  G p = x, q = y; ctime_swap(true, p, q); ctime_swap(false, p, q); ctime_swap(true, p, p); r += to_string(p) + to_string(q); for (size_t k = 0; k <= G::N; k++) { G z = x; z.shl_word(k); r += to_string(z); } G h = x; h.shr1(); h.add(h.v); h.sub(h.v); r += to_string(h);
  for (size_t k = 0; k < B; k += 31) { G z = y; z.set_bit(k); r += z.bit(k) ? '1' : '!'; z.clear_bit(k); r += z.bit(k) ? '!' : '0'; } { G z = y; z.set_bit(B - 1); z.clear_bit(B - 1); r += to_string(z); }
  for (size_t st = 0; st + 32 <= B; st += 32) { r += to_string(G(x).template slice<32>(st)); } r += to_string(G(x).template slice<B>(0)); r += to_string(bignum<32>(x)) + to_string(bignum<B + 64>(x));
  r += to_string(x.naive_reduce(y)) + to_string(bignum<2 * B>(x * y).naive_reduce(y)); return r;
}
template <size_t B> std::string bigSmallOp(const Args& a) { typedef bignum<B> G; G x(a.in[0]), y(a.in[1]); return to_string(bignum<32>(x).naive_reduce(y)) + to_string(x.naive_reduce(bignum<32>(y))); }
template <size_t B> std::string montOp(const Args& a) {
  typedef bignum<B> G; G n(a.in[0]), x(a.in[1]); MontgomeryState<B> s(n); MontgomeryState<B> c(s); MontgomeryValue<B> v(s, x), w(c, x); std::string r = to_string(G(v)) + to_string(G(v * w)) + to_string(G(v + w)) + to_string(G(w.square())) + to_string(G(v.exp((uint32_t)a.n[0]))); { MontgomeryValue<B> k = v; v = k; MontgomeryValue<B> sq = w * w; w = w * w; same(to_string(G(w)), to_string(G(sq)), "a value multiplied into itself"); MontgomeryValue<B>& self = w; w = self; same(to_string(G(w)), to_string(G(sq)), "a value assigned to itself"); r += to_string(G(v.exp(x))) + to_string(G(w)); } return r;
}
static const ref::RsaKey& key(size_t bits) { static std::map<size_t, ref::RsaKey> k; auto it = k.find(bits); if (it == k.end()) it = k.emplace(bits, ref::rsaKey(bits, 65537, 2, 1)).first; return it->second; }
template <size_t N> bignum<N> zbn(const ref::Z& z) { Bytes b = ref::zbytes(z, N / 8); std::reverse(b.begin(), b.end()); return bignum<N>(S(b)); }
template <class H, size_t N> std::string rsaOp(const Args& a) {
  bignum<N> n(a.in[2]), e(a.in[3]); rsa_public_key<N> p(n, e); rsa_public_key<N> q(p); std::string r = std::to_string(q.bits()); 
  r += p.template validatePkcs1_5Signature<H>(a.in[0], a.in[1]) ? "V" : "-"; r += q.template validatePssSignature<H, MGF1<H>>(a.in[0], a.in[1]) ? "V" : "-"; r += to_string(p.rsaep(bignum<N>(3))); return r;
}
template <class H, size_t N> std::string rsaSignOp(const Args& a) {
  bignum<N> n(a.in[2]), d(a.in[3]), e(65537); rsa_private_key<N> k(n, d); rsa_private_key<N> l(k); rsa_public_key<N> p(n, e); std::string r; 
  try { auto s = l.template signPkcs1_5Signature<H>(a.in[0]); r += hx(s) + (p.template validatePkcs1_5Signature<H>(a.in[0], s) ? "V" : "!"); } catch (std::runtime_error& x) { r += x.what(); }
  auto hm = H(a.in[0]).data(); try { auto s = l.template signPssSignature<H, MGF1<H>>(hm, a.in[1]); r += hx(s) + (p.template validatePssSignature<H, MGF1<H>>(a.in[0], s) ? "V" : "-"); } catch (std::runtime_error& x) { r += x.what(); } return r;
}
static const int kSchemes[] = {0x0401, 0x0501, 0x0601, 0x0804, 0x0805, 0x0806, 0x0809, 0x080a, 0x080b, 0x0403, 0x0503, 0x0603, 0x0807, 0x0808, 0, 0x0201, 0xfff};
static std::string apiOp(const Args& a) { RsaPubkey p{rsa_public_key<4096>(bignum<4096>(a.in[2]), bignum<4096>(a.in[3]))}; return p.validateSignature((Tls13SignatureScheme)a.n[0], a.in[0], a.in[1]) ? "V" : "-"; }
static std::string x255Op(const Args& a) {
  ec_value k{bignum<256>(a.in[0])}, u{bignum<256>(a.in[1])}; std::string r; if (a.n[0]) r = hx(X25519(k, u).as_bytes()) + hx(X25519(u, u).as_bytes()); ec_value x = k; ctime_swap(true, x, u); { ec_value z = x; ec_value& zr = z; z = zr; same(to_string(z), to_string(x), "a field element assigned to itself"); ec_value o = u; same(to_string(o * o), to_string(o * u), "a product of a field element with itself"); } ctime_swap(true, x, x); r += to_string(k + u) + to_string(k - u) + to_string(k * u) + to_string(k * 121665u) + to_string(inverse(u)) + (k == u ? "=" : "#") + (k < u ? "<" : ".") + to_string(x - x); x.applyModulus(); x.normalize(); r += to_string(x); { std::ostringstream os; os.exceptions(std::ios::badbit); os << x; r += os.str(); } x.wipe(); return r + to_string(x);
}
struct ClearDraws { ~ClearDraws() { testValues.clear(); testValues.shrink_to_fit(); } };
static std::string fillOp(const Args& a) {
  size_t n = a.n[0]; std::string r; testValues.clear(); ClearDraws guard; std::vector<uint64_t> tv; for (size_t i = 0; i < 80; i++) tv.push_back(0x0102030405060708ull * (i + 1)); testValues = tv;
  auto w = a.out(0, n); generate_random(w); r += hx(w); auto w2 = a.out(1, n * 2); generate_random(std::span<uint16_t>((uint16_t*)w2.data(), n)); r += hx(w2); auto w4 = a.out(2, n * 4); generate_random(std::span<uint32_t>((uint32_t*)w4.data(), n)); r += hx(w4); auto w8 = a.out(3, n * 8); generate_random(std::span<uint64_t>((uint64_t*)w8.data(), n)); r += hx(w8);
  r += to_string(bignum<96>::random()) + to_string(ec_value::random_private_key()); r += std::to_string(testValues.size()); return r;
}
static std::string bitsOp(const Args& a) { return m128(galoisMultiply(_mm_loadu_si128((const __m128i*)a.in[0].data()), reflect(_mm_loadu_si128((const __m128i*)a.in[1].data())))); }

template <class H, size_t BLK> std::function<void(int, Emit)> hashGen() {
  return [](int tier, Emit e) { std::vector<size_t> second = {0, 1, BLK / 2, BLK - 1, BLK, BLK + 1}; size_t top = tier ? 4 * BLK + 2 : 2 * BLK + 1; for (size_t i = 0; i <= top; i++) for (size_t j : second) e({pat(i), pat(j, 1)}, {}); for (size_t i : {size_t(5) * BLK - 1, size_t(5) * BLK, size_t(9) * BLK + 7, size_t(4095), size_t(4096)}) e({pat(i), pat(BLK + 3)}, {}); };
}
template <class H> std::function<void(int, Emit)> hmacGen() {
  return [](int tier, Emit e) { constexpr size_t B = H::blocksize; std::vector<size_t> ks, ts; for (size_t i = 0; i <= B + 2; i += (i < 3 || i + 3 >= B || tier) ? 1 : 7) ks.push_back(i); ks.push_back(2 * B); ks.push_back(3 * B + 1); for (size_t i = 0; i <= B + 2; i += tier ? 1 : 5) ts.push_back(i); ts.push_back(2 * B + 9); for (size_t k : ks) for (size_t t : ts) e({pat(t), pat(k, 2)}, {}); };
}
template <class H> std::function<void(int, Emit)> expandGen() {
  return [](int tier, Emit e) { constexpr size_t h = H::hashsize; for (size_t l = 0; l <= 3 * h + 1; l++) for (size_t i : {0, 1, 13, 64}) e({pat(h), pat(i, 1)}, {l}); for (size_t p : {size_t(0), size_t(1), h - 1, H::blocksize + 1}) e({pat(p), pat(3)}, {h + 1}); for (size_t l : {255 * h - 1, 255 * h, 255 * h + 1, 256 * h, ~size_t(0), ~size_t(0) - h}) e({pat(h), pat(5)}, {l}); };
}
template <class H> std::function<void(int, Emit)> labelGen() {
  return [](int tier, Emit e) { constexpr size_t h = H::hashsize; for (size_t l : {size_t(0), size_t(1), size_t(12), size_t(16), h, h + 1, 2 * h + 3}) for (size_t lb : {0, 1, 2, 7, 12, 40, 249}) for (size_t c : {0, 1, 20, 32, 48, 64, 255}) e({pat(h), pat(lb, 3), pat(c, 4)}, {l}); };
}
template <class H> std::function<void(int, Emit)> scheduleGen() {
  return [](int tier, Emit e) { for (size_t s : {0, 1, 16, 31, 32, 33, 48, 64, 128, 129}) for (size_t t : {0, 1, 20, 32, 48, 64}) for (size_t f = 0; f < 4; f++) e({pat(s), pat(t, 1)}, {f}); };
}
template <size_t K> std::function<void(int, Emit)> gcmGen() {
  return [](int tier, Emit e) {
    for (size_t k = 0; k <= 40; k++) for (size_t i : {0, 12, 16}) e({pat(k), pat(i, 1), pat(20), pat(3)}, {});
    for (size_t i = 0; i <= 70; i++) for (size_t p : {0, 1, 16, 17}) for (size_t a : {0, 13}) e({pat(K / 8), pat(i, 1), pat(p), pat(a)}, {});
    for (size_t p = 0; p <= (tier ? 130 : 66); p++) for (size_t a = 0; a <= (tier ? 70 : 34); a++) e({pat(K / 8), pat(12, 1), pat(p), pat(a)}, {});
    for (size_t p : {255, 256, 257, 4095, 4096}) for (size_t a : {0, 255, 256, 4097}) e({pat(K / 8), pat(16, 1), pat(p), pat(a)}, {});
  };
}
template <size_t K> std::function<void(int, Emit)> ctrGen() {
  return [](int tier, Emit e) { for (size_t k = 0; k <= 40; k++) for (size_t i : {0, 12, 16, 17}) e({pat(k), pat(i, 1), pat(20)}, {5}); for (size_t i = 0; i <= 40; i++) e({pat(K / 8), pat(i, 1), pat(20)}, {0}); for (size_t p = 0; p <= 260; p++) e({pat(K / 8), pat(16, 1), pat(p)}, {p / 2}); e({pat(K / 8), pat(16), pat(70000)}, {16}); };
}
template <size_t B> std::vector<Bytes> values() { std::vector<Bytes> v; size_t n = (B + 31) / 32 * 4; v.push_back(Bytes(n, 0xff)); v.push_back(pat(n, 1)); v.push_back(pat(n, 2)); Bytes one(n); one[0] = 1; v.push_back(one); Bytes top(n); top[n - 1] = 0x80; v.push_back(top); v.push_back(Bytes(n, 0)); Bytes mid(n); mid[n / 2] = 1; v.push_back(mid); return v; }
template <size_t B> std::function<void(int, Emit)> bigGen() {
  return [](int tier, Emit e) { size_t n = (B + 31) / 32 * 4; for (size_t i = 0; i <= n + 6; i++) { e({pat(i), pat(n, 1)}, {}); e({pat(n), pat(i, 1)}, {}); } auto v = values<B>(); for (auto& x : v) for (auto& y : v) e({x, y}, {}); for (size_t b = 0; b < B; b++) { Bytes y(n); y[b / 8] = 1 << (b % 8); e({v[1], y}, {}); } };
}
template <size_t B> std::function<void(int, Emit)> montGen() {
  return [](int tier, Emit e) { size_t n = B / 8; auto v = values<B>(); for (auto x : v) for (auto& y : v) for (size_t k : {0, 1, 65537}) { e({x, y}, {k}); x[0] |= 1; e({x, y}, {k}); } for (size_t i = 0; i <= n; i++) { Bytes m = pat(i, 3); if (i) m[0] |= 1; e({m, pat(n)}, {3}); } };
}
static Bytes le(const ref::Z& z, size_t n) { Bytes b = ref::zbytes(z, n); std::reverse(b.begin(), b.end()); return b; }
template <class H, size_t N> std::function<void(int, Emit)> rsaGen() {
  return [](int tier, Emit e) {
    for (size_t bits : {N, N - 1, N - 7, N - 8, N / 2, N / 2 + 1, N / 4}) { auto& K = key(bits); size_t k = (bits + 7) / 8; for (size_t l = 0; l <= N / 8 + 5; l += (l < 3 || (l + 4 >= k && l <= k + 3) || l + 3 >= N / 8 || tier) ? 1 : 17) for (int f : {0, 1, 0xff}) { Bytes s = f == 1 ? pat(l) : Bytes(l, f); if (l == k && f == 1) { s[0] = 0; } e({pat(31), s, le(K.n, N / 8), le(K.e, N / 8)}, {}); } }
    // moduli of every size, well-formed and not
    for (size_t b = 1; b <= N; b += tier ? 1 : (b < 20 || b > N - 10) ? 1 : 23) { Bytes n(N / 8); n[(b - 1) / 8] = 1 << ((b - 1) % 8); n[0] |= 1; for (size_t l : {(b + 7) / 8, (b + 6) / 8, N / 8}) e({pat(9), Bytes(l, 0), n, Bytes(N / 8, 0)}, {}); n[0] &= ~1; e({pat(9), pat((b + 7) / 8), n, Bytes(1, 3)}, {}); }
  };
}
template <class H, size_t N> std::function<void(int, Emit)> rsaSignGen() {
  return [](int tier, Emit e) { for (size_t bits : {N, N - 1, N - 7, N - 8, N / 2 + 1, N / 2, N / 4}) { auto& K = key(bits); size_t top = bits / 8; for (size_t l = 0; l <= top + 2; l += (l < 2 || l == H::hashsize - 1 || l == H::hashsize || l + H::hashsize + 6 >= top || tier) ? 1 : 11) e({pat(l % 80), pat(l), le(K.n, N / 8), le(K.d, N / 8)}, {}); } };
}
static void apiGen(int tier, Emit e) { for (size_t bits : {1024, 1031, 2048, 4096}) { auto& K = key(bits); size_t k = (bits + 7) / 8; for (int s : kSchemes) for (size_t l : {size_t(0), size_t(1), k - 1, k, k + 1, size_t(512), size_t(513)}) e({pat(20), l == k ? Bytes(k, 1) : pat(l), le(K.n, 512), le(K.e, 512)}, {(size_t)s}); } }
#define HASHES(X) X("md5", MD5, 64) X("sha1", SHA1, 64) X("sha224", SHA2<224>, 64) X("sha256", SHA2<256>, 64) X("sha384", SHA2<384>, 128) X("sha512", SHA2<512>, 128) X("sha3-224", SHA3<224>, 144) X("sha3-256", SHA3<256>, 136) X("sha3-384", SHA3<384>, 104) X("sha3-512", SHA3<512>, 72)
const std::vector<Family>& families() {
  static const std::vector<Family> f = [] {
    std::vector<Family> f;
#define X1(n, H, B) f.push_back({n, hashOp<H>, hashGen<H, B>()});
    HASHES(X1) X1("crc32", CRC32, 16)
#define X2(n, H, B) f.push_back({"hmac-" n, hmacOp<H>, hmacGen<H>()});
#define X3(n, H, B) f.push_back({"expand-" n, expandOp<H>, expandGen<H>()}); f.push_back({"label-" n, labelOp<H>, labelGen<H>()}); f.push_back({"schedule-" n, scheduleOp<H>, scheduleGen<H>()});
    X2("md5", MD5, 64) X2("sha1", SHA1, 64) X2("sha256", SHA2<256>, 64) X2("sha384", SHA2<384>, 128) X2("sha512", SHA2<512>, 128) X3("sha256", SHA2<256>, 64) X3("sha384", SHA2<384>, 128) X3("sha512", SHA2<512>, 128)
    f.push_back({"named", namedOp, [](int tier, Emit e) { for (const char* nm : {"md5", "sha", "sha1", "sha224", "sha256", "sha384", "sha512", "sha2-224", "sha2-256", "sha2-384", "sha2-512", "sha3-224", "sha3-256", "sha3-384", "sha3-512", "", "s", "sha", "sha2", "sha2-", "sha3-", "sha2-2", "MD5", "SHA-256", "crc32", "x"}) { Bytes n = mc::bytes(nm); for (size_t l = 0; l <= 130; l += tier ? 1 : 3) e({n, pat(l)}, {}); for (size_t k = 0; k <= n.size(); k++) e({Bytes(n.begin(), n.begin() + k), pat(3)}, {}); n.push_back('5'); e({n, pat(3)}, {}); } }});
#define X4(n, H, B) f.push_back({"pkcs1-" n, asn1Op<H>, [](int tier, Emit e) { for (size_t k = 0; k <= 300; k++) e({pat(k % 70)}, {k}); for (size_t k : {511, 512, 513, 4096}) e({pat(5)}, {k}); }}); f.push_back({"mgf1-" n, mgfOp<H>, [](int tier, Emit e) { for (size_t s : {0, 1, 8, 32, 63, 64, 65, 140}) for (size_t l = 0; l <= 3 * H::hashsize + 1; l += tier ? 1 : 3) e({pat(s)}, {l}); e({pat(4)}, {300 * H::hashsize + 1}); e({pat(4)}, {0x100000001ull}); }});
    X4("sha1", SHA1, 64) X4("sha256", SHA2<256>, 64) X4("sha384", SHA2<384>, 128) X4("sha512", SHA2<512>, 128) X4("sha3-256", SHA3<256>, 136)
#define X5(K) f.push_back({"aes" #K, aesOp<K>, [](int tier, Emit e) { for (size_t k = 0; k <= 70; k++) e({pat(k)}, {}); }}); f.push_back({"gcm" #K, gcmOp<K>, gcmGen<K>()}); f.push_back({"ctr" #K, ctrOp<K>, ctrGen<K>()});
    X5(128) X5(256)
    f.push_back({"chacha20", chachaOp, [](int tier, Emit e) { for (size_t k = 0; k <= 40; k++) for (size_t n : {0, 8, 11, 12, 13, 24}) e({pat(k), pat(n), pat(10)}, {3}); for (size_t n = 0; n <= 30; n++) e({pat(32), pat(n), pat(10)}, {3}); for (size_t p = 0; p <= 200; p++) for (size_t s : {0, 1, 63, 64, 65, 128}) e({pat(32), pat(12), pat(p)}, {s}); for (size_t s = 0; s <= 1030; s += 13) e({pat(32), pat(12), pat(1030)}, {s}); }});
    f.push_back({"base64", b64Op, [](int tier, Emit e) { for (size_t l = 0; l <= (tier ? 400 : 180); l++) for (size_t fl = 0; fl < 12; fl++) e({pat(l)}, {fl}); }});
    f.push_back({"base64d", b64dOp, [](int tier, Emit e) { Bytes al = mc::bytes("A/=\n -_,*\x80"); al.push_back(0); std::function<void(Bytes&, int)> go = [&](Bytes& b, int d) { e({b}, {}); if (d) for (uint8_t c : al) { b.push_back(c); go(b, d - 1); b.pop_back(); } }; Bytes b; go(b, tier ? 5 : 4); for (size_t l = 0; l < 300; l++) e({pat(l)}, {}); for (int c = 0; c < 256; c++) for (size_t l : {1, 2, 3, 4, 5, 8}) e({Bytes(l, c)}, {}); }});
#define X6(B) f.push_back({"bignum" #B, bigOp<B>, bigGen<B>()});
    X6(32) X6(64) X6(96) X6(128) X6(160) X6(192) X6(224) X6(256) X6(512)
    f.push_back({"bignum-widths", bigSmallOp<96>, bigGen<96>()});
#define X7(B) f.push_back({"montgomery" #B, montOp<B>, montGen<B>()});
    X7(32) X7(64) X7(128) X7(256) X7(512)
    f.push_back({"prime", memPrime, [](int tier, Emit e) { for (size_t n = 2; n < (tier ? 3000 : 600); n++) e({}, {n, 32}); for (size_t n : {65521, 65537, 0x7fffffff}) e({}, {n, 32}); e({}, {0xffffffffffffffc5ull, 64}); for (size_t i = 0; i < 4; i++) e({}, {i, 0}); }});
    f.push_back({"rsa512", rsaOp<SHA1, 512>, rsaGen<SHA1, 512>()}); f.push_back({"rsa1024", rsaOp<SHA2<256>, 1024>, rsaGen<SHA2<256>, 1024>()}); f.push_back({"rsa1024-sha512", rsaOp<SHA2<512>, 1024>, rsaGen<SHA2<512>, 1024>()});
    f.push_back({"sign512", rsaSignOp<SHA1, 512>, rsaSignGen<SHA1, 512>()}); f.push_back({"sign512-sha512", rsaSignOp<SHA2<512>, 512>, rsaSignGen<SHA2<512>, 512>()}); f.push_back({"sign1024", rsaSignOp<SHA2<256>, 1024>, rsaSignGen<SHA2<256>, 1024>()});
    f.push_back({"rsa-api", apiOp, apiGen});
    f.push_back({"x25519", x255Op, [](int tier, Emit e) { for (size_t l = 0; l <= 36; l++) { e({pat(l), pat(32, 1)}, {0}); e({pat(32), pat(l, 1)}, {0}); } auto v = values<256>(); for (auto& x : v) for (auto& y : v) e({x, y}, {1}); }});
    f.push_back({"fill", fillOp, [](int tier, Emit e) { for (size_t n = 0; n <= 17; n++) e({}, {n}); }});
    f.push_back({"gf128", bitsOp, [](int tier, Emit e) { for (int i = 0; i < 128; i++) { Bytes a(16), b(16, 0xe1); a[i / 8] = 1 << (i % 8); e({a, b}, {}); } }});
    return f;
  }(); return f;
}
