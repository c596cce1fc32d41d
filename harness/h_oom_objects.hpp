// long-lived objects around a failed allocation
#include "caligo/aes.h"
#include "caligo/gcm.h"
#include "caligo/ctr.h"
#include "caligo/hash.h"
#include "caligo/md5.h"
#include "caligo/sha2.h"
#include "caligo/X509Certificate.h"
static std::string hexs(S d) { return mc::hex(d, 4000); }
static Bytes patb(size_t n, unsigned k = 0) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * 29 + k * 13 + 5); return b; }
// returns whether f ended normally; other exceptions than bad_alloc pass
template <class F> static bool attempt(F f) { try { gArmed = true; f(); gArmed = false; return true; } catch (std::bad_alloc&) { gArmed = false; return false; } catch (...) { gArmed = false; throw; } }
// for every k: script(k) runs with allocation k failing; returns false when k exceeds the number of allocations
template <class F> static void everyPoint(mc::Ctx& c, F script, int stripe = 0, int stripes = 1) {
  for (long k = stripe;; k += stripes) { bool reached = false; static long* cnt = (long*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    child(c, [&] { R->points = k; gCount = 0; gFrom = 0; gFailAt = k; script(); *cnt = gCount; }); reached = *cnt > k; c.states(1); c.trans(1); c.trace(1); if (!reached) break; }
}
static void objects(mc::Options& o, int tier) {
  using namespace Caligo;
  // a sender whose message fails goes on: no key stream is ever given out twice, and the receiver opens what was sent
  for (size_t ivl : {12, 16}) for (int when = 0; when < 3; when++) o.units.push_back({mc::fmt("gcm session iv %zu message %d", ivl, when), [=](mc::Ctx& c) { c.desc("gcm object"); everyPoint(c, [&] {
    Bytes key = patb(16), iv = patb(ivl, 1), zero(48), ad = patb(5); GCM<AES<128>> s(key_iv_pair<AES<128>>{S(key), S(iv)}); std::vector<Bytes> sent; std::vector<std::array<uint8_t, 16>> tags; long at = gFailAt; gFailAt = -1;
    for (int m = 0; m < 4; m++) { auto f = [&] { auto [ct, tag] = s.Encrypt(zero, ad); gArmed = false; sent.push_back(ct); tags.push_back(tag); }; if (m == when) { gFailAt = at; gCount = 0; attempt(f); gFailAt = -1; long n = gCount; if (m == when && sent.size() == (size_t)m) f(); gCount = n; } else f(); }
    for (size_t i = 0; i < sent.size(); i++) for (size_t j = 0; j < i; j++) if (sent[i] == sent[j]) return say("messages %zu and %zu of one sender are encrypted with the same key stream after an allocation failed", j, i);
    // every message sent is opened by a receiver at the position of one of the first five nonces
    for (size_t i = 0; i < sent.size(); i++) { bool ok = false; for (int pos = 0; pos < 6 && !ok; pos++) { GCM<AES<128>> r(key_iv_pair<AES<128>>{S(key), S(iv)}); for (int q = 0; q < pos; q++) r.Encrypt({}, {}); auto [p, good] = r.Decrypt(sent[i], ad, tags[i]); ok = good && p == zero; } if (!ok) return say("message %zu of a sender that had an allocation fail cannot be opened", i); }
  }); }});
  for (int when = 0; when < 2; when++) o.units.push_back({mc::fmt("gcm receiver message %d", when), [=](mc::Ctx& c) { c.desc("gcm receiver"); everyPoint(c, [&] {
    Bytes key = patb(32), iv = patb(12, 1), pt = patb(37), ad = patb(5); GCM<AES<256>> s(key_iv_pair<AES<256>>{S(key), S(iv)}), r(s); long at = gFailAt; gFailAt = -1; std::vector<std::pair<std::vector<uint8_t>, std::array<uint8_t, 16>>> msg; for (int i = 0; i < 4; i++) msg.push_back(s.Encrypt(pt, ad));
    for (int m = 0; m < when; m++) r.Decrypt(msg[m].first, ad, msg[m].second); bool accepted = false; auto bad = msg[when].second; bad[3] ^= 4; gFailAt = at; gCount = 0; attempt([&] { auto [p, ok] = r.Decrypt(msg[when].first, ad, bad); accepted = ok; }); gFailAt = -1; if (accepted) say("a forged message is accepted when an allocation fails");
  }); }});
  o.units.push_back({"ctr object", [=](mc::Ctx& c) { c.desc("ctr object"); everyPoint(c, [&] {
    Bytes key = patb(16), iv = patb(16, 1); CTR<AES<128>> s(key_iv_pair<AES<128>>{S(key), S(iv)}); long at = gFailAt; gFailAt = -1; std::vector<Bytes> sent; for (int m = 0; m < 4; m++) { Bytes z(40); auto f = [&] { s.Encrypt(z); }; bool done = true; long n = 0; if (m == 1) { gFailAt = at; gCount = 0; done = attempt(f); n = gCount; gFailAt = -1; if (!done) { if (z != Bytes(40)) return say("data half encrypted by a call that failed"); f(); } gCount = n; } else { long k = gCount; f(); gCount = k; } sent.push_back(z); }
    for (size_t i = 0; i < sent.size(); i++) for (size_t j = 0; j < i; j++) if (sent[i] == sent[j]) return say("the same key stream is used twice after an allocation failed");
  }); }});
  // a hash object survives a failed output
  for (const char* nm : {"md5", "sha1", "sha224", "sha2-256", "sha384", "sha512", "sha3-256"}) o.units.push_back({std::string("Hash object ") + nm, [=](mc::Ctx& c) { c.desc("Hash %s", nm); everyPoint(c, [&] {
    long at = gFailAt; gFailAt = -1; Bytes t = patb(150); Hash ref(nm); ref.add(S(t)); std::string want = (std::string)ref; auto wantv = (std::vector<uint8_t>)ref; gFailAt = at; gCount = 0; std::unique_ptr<Hash> h; bool ok = attempt([&] { h = std::make_unique<Hash>(nm); }); if (ok) { attempt([&] { h->add(S(t).first(90)); }); std::string s; attempt([&] { s = (std::string)*h; }); attempt([&] { auto v = h->data(); }); attempt([&] { auto v = h->getAsn1Id(); }); long n = gCount; gFailAt = -1; h->add(S(t).subspan(90)); if ((std::string)*h != want || h->data() != wantv) say("a hash object gives another digest after an allocation failed"); gCount = n; } else gFailAt = -1;
  }); }});
  // the store: adding a certificate fails, then the store judges either as before or as after
  for (int sp = 0; sp < 8; sp++) o.units.push_back({mc::fmt("store add %d", sp), [=](mc::Ctx& c) { c.desc("Truststore::addCertificate"); everyPoint(c, [&] {
    long at = gFailAt; gFailAt = -1; Truststore& st = Truststore::Instance(); auto root = parseCertificate(fx.der[0]); std::string name = root.subject; bool had = (bool)st.get(name); gFailAt = at; gCount = 0; bool ok = attempt([&] { st.addCertificate(std::move(root)); }); long n = gCount; gFailAt = -1;
    auto g = st.get(name); if (had || (ok && !g)) return say("the certificate is not in the store after it was added"); if (g && (*g)->subject != name) return say("the store keeps an incomplete certificate after an allocation failed"); if (g && !(*g)->pubkey) return say("the store keeps a certificate without its key after an allocation failed");
    auto leafOf = [&](int i) { std::vector<x509certificate> v; v.push_back(parseCertificate(fx.der[i])); return v; }; uint64_t now = leafOf(1)[0].validity_start + 1; auto v = leafOf(1); bool t = st.trust(v, now); if (t != (bool)g) return say("after a failed addition the store says %d while the certificate is %s it", (int)t, g ? "in" : "not in"); 
    if (!ok) { st.addCertificate(parseCertificate(fx.der[0])); v = leafOf(1); if (!st.trust(v, now)) return say("adding the certificate again after the failure has no effect"); } gCount = n;
  }, sp, 8); }});
  // replacing a stored certificate: afterwards the store holds the old one or the new one
  for (int sp = 0; sp < 8; sp++) o.units.push_back({mc::fmt("store replace %d", sp), [=](mc::Ctx& c) { c.desc("Truststore::addCertificate over one of the same name"); everyPoint(c, [&] {
    long at = gFailAt; gFailAt = -1; Truststore& st = Truststore::Instance(); auto other = parseCertificate(fx.der[3]), root = parseCertificate(fx.der[0]); std::string name = root.subject; Bytes od = other.derCert, nd = root.derCert; if (other.subject != name) abort(); st.addCertificate(std::move(other)); gFailAt = at; gCount = 0; bool ok = attempt([&] { st.addCertificate(std::move(root)); }); long n = gCount; gFailAt = -1;
    auto g = st.get(name); if (!g) return say("replacing a certificate failed and the old one is gone"); bool isNew = (*g)->derCert == nd; if ((!isNew && (*g)->derCert != od) || (ok && !isNew) || !(*g)->pubkey || (*g)->subject != name) return say("replacing a certificate that failed leaves neither the old nor the new one");
    auto leafOf = [&](int i) { std::vector<x509certificate> v; v.push_back(parseCertificate(fx.der[i])); return v; }; uint64_t now = leafOf(1)[0].validity_start + 1; auto v = leafOf(1); if (st.trust(v, now) != isNew) return say("the store trusts by another certificate than it holds"); gCount = n;
  }, sp, 8); }});
  for (int sp = 0; sp < 8; sp++) o.units.push_back({mc::fmt("store trust %d", sp), [=](mc::Ctx& c) { c.desc("Truststore::trust"); 
    for (int forged = 0; forged < 2; forged++) everyPoint(c, [&] {
    long at = gFailAt; gFailAt = -1; Truststore& st = Truststore::Instance(); st.addCertificate(parseCertificate(fx.der[0])); auto d = fx.der[1]; if (forged) d[d.size() - 9] ^= 1; std::vector<x509certificate> v; v.push_back(parseCertificate(d)); uint64_t now = v[0].validity_start + 1; bool r = false; gFailAt = at; gCount = 0; bool ok = attempt([&] { r = st.trust(v, now); }); long n = gCount; gFailAt = -1;
    if (ok && r == (bool)forged) return say("trust decides wrongly when an allocation fails"); std::vector<x509certificate> w; w.push_back(parseCertificate(d)); if (st.trust(w, now) == (bool)forged) return say("trust decides wrongly after an allocation failed"); gCount = n;
  }, sp, 8); }});
  // taking the key out of a file, and signing, with the key object living on
  for (int sp = 0; sp < 8; sp++) o.units.push_back({mc::fmt("key object %d", sp), [=](mc::Ctx& c) { c.desc("key object"); everyPoint(c, [&] {
    long at = gFailAt; gFailAt = -1; auto k = parsePrivateKey(fx.key[0]); auto cert = parseCertificate(fx.der[2]); Bytes m = patb(30); auto want = k->sign(rsa_pkcs1_sha256, m); bool r = true; std::vector<uint8_t> s; gFailAt = at; gCount = 0; bool ok = attempt([&] { s = k->sign(rsa_pkcs1_sha256, m); }); if (ok && s != want) return say("another signature comes out when an allocation fails"); bool v = true; Bytes badm = patb(30, 9); attempt([&] { v = !cert.pubkey->validateSignature(rsa_pkcs1_sha256, badm, want); }); if (!v) return say("a signature for another message is accepted when an allocation fails"); long n = gCount; gFailAt = -1; if (k->sign(rsa_pkcs1_sha256, m) != want || !cert.pubkey->validateSignature(rsa_pkcs1_sha256, m, want)) return say("keys work differently after an allocation failed"); gCount = n;
  }, sp, 8); }});
}
