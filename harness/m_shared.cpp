// The uses M05 explores: each reads objects made beforehand, which the other threads use at the same time.
#include <array>
#include <utility>
#include <cstdint>
#include <span>
#include <string>
#include <vector>
#include <ostream>
#include "caligo/random.h"
#include "caligo/bignum.h"
#include "caligo/md5.h"
#include "caligo/sha1.h"
#include "caligo/sha2.h"
#include "caligo/sha3.h"
#include "caligo/crc.h"
#include "caligo/hash.h"
#include "caligo/hkdf.h"
#include "caligo/aes.h"
#include "caligo/gcm.h"
#include "caligo/ctr.h"
#include "caligo/chacha20.h"
#include "caligo/base64.h"
#include "caligo/x25519.h"
#include "caligo/Asn1.h"
#include "caligo/X509Certificate.h"
#include "caligo/Truststore.h"
#include "m_ops.hpp"
using namespace Caligo; using Bytes = std::vector<uint8_t>;
Fixtures fx; void (*mStep)() = nullptr; void mShared();
static std::string hx(std::span<const uint8_t> d) { static constexpr char t[] = "0123456789abcdef"; std::string s; for (uint8_t c : d) { s += t[c >> 4]; s += t[c & 15]; } return s; }
static std::string hx64(uint64_t v) { std::string s; for (int i = 60; i >= 0; i -= 4) s += "0123456789abcdef"[v >> i & 15]; return s; }
static std::string fnv(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return hx64(h); }
static std::string m128(__m128i x) { uint8_t b[16]; _mm_storeu_si128((__m128i*)b, x); return hx(b); }
static Bytes text(int v, size_t n) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 7 + v * 31 + (i >> 3)); return b; }
template <size_t N> bignum<N> num(const Bytes& le) { return bignum<N>(std::span<const uint8_t>(le)); }
template <class H> struct Sh { static H* mid; static H* full; };
template <class H> H* Sh<H>::mid; template <class H> H* Sh<H>::full;
template <class H> void mk() { Sh<H>::mid = new H; Sh<H>::mid->add(std::span<const uint8_t>(text(1, 150))); Sh<H>::full = new H; Sh<H>::full->add(std::span<const uint8_t>(text(2, 576))); }
template <class H> std::string dig(int v) { const H& h = v & 1 ? *Sh<H>::full : *Sh<H>::mid; return hx(h.data()) + "/" + (std::string)h; }
template <class H> std::string both(int) { const H &a = *Sh<H>::mid, &b = *Sh<H>::full; std::array<uint8_t, H::hashsize> x = a, y = b, z = a; return hx(x) + hx(y) + hx(z); }
template <class H> std::string cont(int v) { H c = *Sh<H>::mid; c.add(std::span<const uint8_t>(text(v + 3, 77))); std::string r = hx(c.data()); const H& h = *Sh<H>::mid; c = h; return r + hx(c.data()) + hx(h.data()); }
static Hash *nH[3];
static std::string named(int v) { std::string r; for (int i = 0; i < 3; i++) { const Hash& h = *nH[(v + i) % 3]; r += i & 1 ? (std::string)h : hx((std::vector<uint8_t>)h); r += std::to_string(h.MaxLength()) + hx(h.data()); } std::sort(r.begin(), r.end()); return fnv(r); }
static std::string namedInfo(int) { std::string r; for (int i = 0; i < 3; i++) { r += std::to_string(nH[i]->hashsize()) + hx(nH[i]->getAsn1Id()) + (std::string)*nH[i]; } return fnv(r); }
static Bytes *key, *msg; static AesKeySchedule<128>* k128; static AesKeySchedule<256>* k256;
static std::string aes(int v) { std::string r; __m128i b = _mm_setr_epi32(v, 1, 2, 3); for (int i = 0; i < 3; i++) { b = AesEncrypt(*k128, b); r += m128(b); r += m128(AES<256>::Encrypt(*k256, b)); } AesKeySchedule<128> c = *k128; return r + m128(AesEncrypt(c, b)); }
static key_iv_pair<AES<128>>* kv; static key_iv_pair<AES<128>>* kv16; static GCM<AES<128>>* gc; static CTR<AES<128>>* ct; static ChaCha20* cc;
static std::string seal(int v) { GCM<AES<128>> a(*kv); auto [c, t] = a.Encrypt(*msg, *key); Bytes m2 = text(v, 20); auto [d, u] = a.Encrypt(m2, *msg); return hx(c) + hx(t) + hx(d) + hx(u); }
static std::string sealCopy(int v) { GCM<AES<128>> a = *gc; auto [c, t] = a.Encrypt(*msg, *key); GCM<AES<128>> b = *gc; auto [p, ok] = b.Decrypt(c, *key, t); CTR<AES<128>> x = *ct; Bytes q = text(v, 50); x.Encrypt(q); CTR<AES<128>> w(*kv16); Bytes q2 = text(v, 50); w.Encrypt(q2); ChaCha20 y = *cc; y.Encrypt(q2); ChaCha20 z(*key, std::span<const uint8_t>(*msg).subspan(0, 12)); z.Encrypt(q2); return fnv(hx(c) + hx(t) + (ok && p == *msg ? "+" : "!opened wrong") + hx(q) + hx(q2)); }
static std::string mac(int) { return hx(HMAC<SHA2<256>>(*msg, *key)) + hx(HKDF_Expand_Label<SHA2<384>>(*key, "test", *msg, 70)) + hx(HMAC<SHA3<256>>(*key, *msg)) + hx(SHA2<512>(std::span<const uint8_t>(*msg)).data()) + base64(*msg); }
static secret<SHA2<256>>* sec;
static std::string sched(int v) { auto k = sec->get_key_iv<AES<128>>(*msg, v & 1, true); auto m = HKDF_MasterSecret<SHA2<256>>(*sec); return fnv(hx(k.key) + hx(k.iv) + hx(sec->get_finished_key(*msg, v & 1)) + hx(m.data) + hx(HKDF_UpdateSecret<SHA2<256>>(*sec).data) + hx(exporter_master<SHA2<256>>(*sec, *msg)) + hx(resumption_master<SHA2<256>>(*sec, *msg))); }
typedef bignum<256> N2; static N2 *na, *nb; static MontgomeryState<256> *ms, *fresh; static MontgomeryValue<256>*va, *vb; static ec_value *ea, *eb;
static std::string big(int v) { const N2 &a = *na, &b = *nb; std::string r = hx((a * b).as_bytes()) + hx((a + b).second.as_bytes()) + hx((a - b).second.as_bytes()) + hx(a.square().as_bytes()) + hx((a ^ b).as_bytes()) + (a < b ? "<" : ">") + (a == b ? "=" : "#"); r += std::to_string(a.bit(v)) + hx((a * 77u).as_bytes()) + hx(a.naive_reduce(bignum<64>(0xfffffffful)).as_bytes()); N2 c = a; c.shr1(); return fnv(r + hx(c.as_bytes())); }
static std::string mont(int v) { const auto &a = *va, &b = *vb; MontgomeryValue<256> w(*ms, bignum<256>(v + 2)); std::string r = hx(N2(a * b).as_bytes()) + hx(N2(a + b).as_bytes()) + hx(N2(a.square()).as_bytes()) + hx(N2(w * a).as_bytes()) + hx(N2(a.exp(65537)).as_bytes()); r += hx(N2(w.exp(bignum<256>(12345))).as_bytes()); MontgomeryValue<256> f(*fresh, *na); r += hx(N2(f * f).as_bytes()) + hx(N2(f.exp(3)).as_bytes()); MontgomeryState<256> s2 = *fresh; MontgomeryValue<256> z(s2, *na); return fnv(r + hx(N2(z * z).as_bytes())); }
static std::string ec(int v) { const ec_value &a = *ea, &b = *eb; std::string r = hx((a * b).as_bytes()) + hx((a + b).as_bytes()) + hx((a - b).as_bytes()) + hx(a.square().as_bytes()) + to_string(a) + (a == b ? "=" : "#") + (a < b ? "<" : ">"); return fnv(r + (v & 1 ? "" : hx(inverse(a).as_bytes())) + hx((b * 121665u).as_bytes())); }
static std::string agree(int v) { return hx(X25519(v & 1 ? *ea : *eb, *ea).as_bytes()); }
static rsa_public_key<1024>* pub; static rsa_private_key<1024>* prv; static Bytes *sg, *sgp; 
static std::string pkSign(int v) { auto s = prv->signPkcs1_5Signature<SHA2<256>>(v & 1 ? *msg : *key); return fnv(hx(s)) + (pub->validatePkcs1_5Signature<SHA2<256>>(v & 1 ? *msg : *key, s) ? "+" : "!own signature refused"); }
static std::string pkCheck(int v) { Bytes bad = *sg; bad[5] ^= 1; std::string r; const auto& p = *pub; r += p.validatePkcs1_5Signature<SHA2<256>>(*msg, *sg) ? "y" : "n"; r += p.validatePkcs1_5Signature<SHA2<256>>(*msg, bad) ? "y" : "n"; r += p.validatePkcs1_5Signature<SHA2<384>>(*msg, *sg) ? "y" : "n"; r += p.validatePssSignature<SHA2<256>, MGF1<SHA2<256>>>(*msg, *sgp) ? "y" : "n"; r += p.validatePssSignature<SHA2<256>, MGF1<SHA2<256>>>(v & 1 ? *key : *msg, *sgp) ? "y" : "n"; return r + hx(p.rsaep(bignum<1024>(v + 2)).as_bytes()) + std::to_string(p.bits()); }
static x509certificate *root, *leaf, *bad; static std::unique_ptr<PrivateKey>* priv; static Bytes* csig;
static std::string verify(int v) { std::string r = leaf->verify(*root) ? "y" : "n"; r += bad->verify(*root) ? "y" : "n"; if (v & 1) r += root->verify(*root) ? "y" : "n"; else r += root->verify(*leaf) ? "y" : "n"; return r; }
static std::string names(int) { const x509certificate& c = *leaf; return c.subject + "|" + c.issuer + "|" + (leaf->appliesTo("a.example") ? "y" : "n") + (leaf->appliesTo("b.example") ? "y" : "n") + std::to_string(c.validity_start) + std::to_string(c.validity_end) + hx(c.serialNumber.as_bytes()) + fnv(hx(c.derCert)); }
static std::string keyCheck(int v) { const PublicKey& k = *root->pubkey; Bytes m = *msg; if (v & 1) m[3] ^= 1; return std::string(k.validateSignature(Tls13SignatureScheme::rsa_pkcs1_sha256, m, *csig) ? "y" : "n") + (k.validateSignature(Tls13SignatureScheme::rsa_pkcs1_sha512, m, *csig) ? "y" : "n") + (k.validateSignature(Tls13SignatureScheme::rsa_pss_rsae_sha256, m, *csig) ? "y" : "n"); }
static std::string keySign(int v) { return fnv(hx((*priv)->sign(Tls13SignatureScheme::rsa_pkcs1_sha256, v & 1 ? *msg : *key))); }
static std::string parse(int v) { auto c = parseCertificate(fx.der[v % 2]); auto p = parseCertificate(Bytes(fx.pem[1].begin(), fx.pem[1].end()), DataFormat::Pem); return c.subject + c.issuer + p.subject + hx(p.serialNumber.as_bytes()); }
static Bytes* bundle;
static std::string parseBundle(int) { auto v = parseCertificatesPem(*bundle); std::string r = std::to_string(v.size()); for (auto& c : v) r += c.subject; return r; }
static std::string parseKey(int v) { auto k = parsePrivateKey(fx.key[v & 1]); return k ? "key" : "!no key"; }
static std::string lookup(int) { auto& s = Truststore::Instance(); auto a = s.get(root->subject), b = s.get("no such name"); if (!a) return "!root is not in the store"; return (*a)->subject + (b ? "!found" : "-") + fnv(hx((*a)->derCert)); }
static std::string trust(int v) { auto& s = Truststore::Instance(); std::vector<x509certificate> l; l.push_back(parseCertificate(fx.der[v & 1 ? 4 : 1])); l.push_back(parseCertificate(fx.der[3])); return std::string(s.trust(l, 1700000000) ? "trusted" : "refused") + (v & 1 ? "" : s.trust(l, 1700000001) ? "trusted" : "refused"); }
// what the threads share has not been used before: what an object makes on first use, the threads make
void mShared() {
  mk<MD5>(); mk<SHA1>(); mk<SHA2<224>>(); mk<SHA2<256>>(); mk<SHA2<384>>(); mk<SHA2<512>>(); mk<SHA3<224>>(); mk<SHA3<256>>(); mk<SHA3<384>>(); mk<SHA3<512>>(); mk<CRC32>();
  static const char* n[] = {"sha256", "sha3-512", "md5"}; for (int i = 0; i < 3; i++) { nH[i] = new Hash(n[i]); nH[i]->add(std::span<const uint8_t>(text(i, 100))); }
  key = new Bytes(text(9, 32)); msg = new Bytes(text(4, 100)); std::span<const uint8_t> k(*key), m(*msg); k128 = new AesKeySchedule<128>(k.subspan(0, 16)); k256 = new AesKeySchedule<256>(k);
  kv = new key_iv_pair<AES<128>>{k.subspan(0, 16), k.subspan(0, 12)}; kv16 = new key_iv_pair<AES<128>>{k.subspan(0, 16), k.subspan(16)}; gc = new GCM<AES<128>>(*kv); gc->Encrypt(m, k); ct = new CTR<AES<128>>(*kv16); ct->GenerateKeystream(9); cc = new ChaCha20(k, k.subspan(0, 12)); { Bytes b(70); cc->Encrypt(b); }
  sec = new secret<SHA2<256>>(HKDF_HandshakeSecret<SHA2<256>>(k)); na = new N2(num<256>(text(5, 32))); nb = new N2(num<256>(text(6, 32))); { N2 o = *nb; o.set_bit(0); ms = new MontgomeryState<256>(o); fresh = new MontgomeryState<256>(o); } va = new MontgomeryValue<256>(*ms, *na); vb = new MontgomeryValue<256>(*ms, *nb); ea = new ec_value(num<256>(text(7, 32))); eb = new ec_value(num<256>(text(8, 32)));
  pub = new rsa_public_key<1024>(num<1024>(fx.n), num<1024>(fx.e)); prv = new rsa_private_key<1024>(num<1024>(fx.n), num<1024>(fx.d)); { rsa_private_key<1024> other(num<1024>(fx.n), num<1024>(fx.d)); sg = new Bytes(other.signPkcs1_5Signature<SHA2<256>>(m)); auto h = SHA2<256>(m).data(); sgp = new Bytes(other.signPssSignature<SHA2<256>, MGF1<SHA2<256>>>(h, k)); }
  root = new x509certificate(parseCertificate(fx.der[0])); leaf = new x509certificate(parseCertificate(fx.der[1])); bad = new x509certificate(parseCertificate(fx.der[4])); priv = new std::unique_ptr<PrivateKey>(parsePrivateKey(fx.key[0])); csig = new Bytes(parsePrivateKey(fx.key[0])->sign(Tls13SignatureScheme::rsa_pkcs1_sha256, m));
  bundle = new Bytes; for (int i = 0; i < 3; i++) bundle->insert(bundle->end(), fx.pem[i & 1].begin(), fx.pem[i & 1].end());
  Truststore::Instance().addCertificate(parseCertificate(fx.der[0]));
}
#define H3(name, ...) {name ".digest", dig<__VA_ARGS__>}, {name ".digests", both<__VA_ARGS__>}, {name ".copy", cont<__VA_ARGS__>}
const std::vector<OpDef>& ops() {
  static const std::vector<OpDef> v = {
    H3("md5", MD5), H3("sha1", SHA1), H3("sha224", SHA2<224>), H3("sha256", SHA2<256>), H3("sha384", SHA2<384>), H3("sha512", SHA2<512>), H3("sha3-224", SHA3<224>), H3("sha3-256", SHA3<256>), H3("sha3-384", SHA3<384>), H3("sha3-512", SHA3<512>), H3("crc32", CRC32),
    {"Hash.digest", named}, {"Hash.info", namedInfo}, {"round-keys", aes}, {"key-iv", seal}, {"cipher-copies", sealCopy}, {"key+message", mac}, {"secret", sched}, {"numbers", big}, {"montgomery", mont}, {"field", ec}, {"x25519-keys", agree},
    {"rsa.sign", pkSign}, {"rsa.check", pkCheck}, {"cert.verify", verify, 2}, {"cert.names", names}, {"pubkey", keyCheck, 2}, {"privkey", keySign, 3}, {"cert-text", parse, 2}, {"bundle-text", parseBundle, 2}, {"key-text", parseKey, 2}, {"store.get", lookup}, {"store.trust", trust, 2},
  };
  return v;
}
