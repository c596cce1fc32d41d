// DER / X.509 / PKCS#1 key builder, independent of the code under test
#pragma once
#include "refrsa.hpp"
#include <string>
#include <vector>
#include <cstdint>
namespace der {
using B = std::vector<uint8_t>;
inline B cat(std::initializer_list<B> l) { B r; for (auto& x : l) r.insert(r.end(), x.begin(), x.end()); return r; }
inline B str(const std::string& s) { return B(s.begin(), s.end()); }
inline B len(size_t n) { if (n < 0x80) return {(uint8_t)n}; B b; for (size_t x = n; x; x >>= 8) b.insert(b.begin(), (uint8_t)x); b.insert(b.begin(), (uint8_t)(0x80 | b.size())); return b; }
inline B tlv(uint8_t tag, const B& c) { return cat({{tag}, len(c.size()), c}); }
inline B seq(std::initializer_list<B> l) { return tlv(0x30, cat(l)); }
inline B integer(const ref::Z& v) { size_t n = (v.bits() + 7) / 8; B b = ref::zbytes(v, n ? n : 1); if (b[0] & 0x80) b.insert(b.begin(), 0); return tlv(2, b); }
inline B oid(const B& c) { return tlv(6, c); }
inline B bitstr(const B& c) { B x = {0}; x.insert(x.end(), c.begin(), c.end()); return tlv(3, x); }
static const B rsaOid = {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01};
static const B ecOid = {0x2a, 0x86, 0x48, 0xce, 0x3d, 0x02, 0x01};
inline B sigOid(int h) { return {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, (uint8_t)(h == 256 ? 0x0b : h == 384 ? 0x0c : 0x0d)}; }
inline B algId(const B& o) { return seq({oid(o), tlv(5, {})}); }
// the supported name attributes, in the order of the text form
struct Attr { const char* label; B oid; };
inline const std::vector<Attr>& attrs() {
  static const std::vector<Attr> a = {{"S#", {0x55, 4, 5}}, {"C", {0x55, 4, 6}}, {"L", {0x55, 4, 7}}, {"STREET", {0x55, 4, 9}}, {"ST", {0x55, 4, 8}}, {"E", {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 9, 1}}, {"GN", {0x55, 4, 0x2a}}, {"SN", {0x55, 4, 4}}, {"T", {0x55, 4, 0x0c}}, {"O", {0x55, 4, 0x0a}}, {"OI", {0x55, 4, 0x61}}, {"OU", {0x55, 4, 0x0b}}, {"CN", {0x55, 4, 3}}}; return a;
}
struct Rdn { int attr; uint8_t tag; std::string text; };
using Name = std::vector<Rdn>;
inline B name(const Name& n) { B r; for (auto& x : n) { B p = tlv(0x31, seq({oid(attrs()[x.attr].oid), tlv(x.tag, str(x.text))})); r.insert(r.end(), p.begin(), p.end()); } return tlv(0x30, r); }
inline std::string text(const Name& n) { std::string s; for (size_t a = 0; a < attrs().size(); a++) for (auto& x : n) if (x.attr == (int)a && !x.text.empty()) s += (s.empty() ? "" : " ") + std::string(attrs()[a].label) + "=" + x.text; return s; }
inline Name cn(const std::string& s) { return {{12, 12, s}}; }
// dates
inline bool leap(int y) { return (y % 4 == 0 && y % 100) || y % 400 == 0; }
inline int mdays(int y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return d[m - 1] + (m == 2 && leap(y)); }
inline std::string gt(int y, int mo, int d, int h, int mi, int s) { char b[32]; snprintf(b, sizeof b, "%04d%02d%02d%02d%02d%02dZ", y, mo, d, h, mi, s); return b; }
inline std::string utc(int y, int mo, int d, int h, int mi, int s) { return gt(y, mo, d, h, mi, s).substr(2); }
inline std::string gtime(uint64_t t) { int y = 1970; uint64_t days = t / 86400, r = t % 86400; while (days >= (uint64_t)(365 + leap(y))) { days -= 365 + leap(y); y++; } int m = 1; while (days >= (uint64_t)mdays(y, m)) { days -= mdays(y, m); m++; } return gt(y, m, (int)days + 1, r / 3600, r / 60 % 60, r % 60); }
inline B time(uint8_t tag, const std::string& s) { return tlv(tag, str(s)); }
inline B spkiRsa(const ref::Z& n, const ref::Z& e) { return seq({algId(rsaOid), bitstr(seq({integer(n), integer(e)}))}); }
inline B spkiEc() { B pt(65, 0x5a); pt[0] = 4; return seq({seq({oid(ecOid), oid({0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7})}), bitstr(pt)}); }
inline B extBasic(bool ca) { return seq({oid({0x55, 0x1d, 0x13}), tlv(1, {0xff}), tlv(4, ca ? seq({tlv(1, {0xff})}) : seq({}))}); }
inline B extKeyUsage(uint8_t bits) { return seq({oid({0x55, 0x1d, 0x0f}), tlv(1, {0xff}), tlv(4, tlv(3, {0, bits}))}); }
struct Cert {
  int version = 3; B serial = {1}; Name issuer, subject; B notBefore = time(24, "20000101000000Z"), notAfter = time(24, "20400101000000Z"); B spki = spkiEc(); std::vector<B> exts; B uid1, uid2; int hash = 256; B innerAlg, outerAlg, rawIssuer, rawSubject;   // raw names replace the ones made from attributes
 
  B tbs() const {
    B b; auto add = [&](const B& x) { b.insert(b.end(), x.begin(), x.end()); };
    if (version > 1) add(tlv(0xa0, tlv(2, {(uint8_t)(version - 1)}))); add(tlv(2, serial)); add(innerAlg.empty() ? algId(sigOid(hash)) : innerAlg); add(rawIssuer.empty() ? name(issuer) : rawIssuer); add(tlv(0x30, cat({notBefore, notAfter}))); add(rawSubject.empty() ? name(subject) : rawSubject); add(spki); if (!uid1.empty()) add(uid1); if (!uid2.empty()) add(uid2);
    if (!exts.empty()) { B e; for (auto& x : exts) e.insert(e.end(), x.begin(), x.end()); add(tlv(0xa3, tlv(0x30, e))); } return tlv(0x30, b);
  }
  B finish(const B& t, const B& sig) const { return seq({t, outerAlg.empty() ? algId(sigOid(hash)) : outerAlg, bitstr(sig)}); }
  B build(const ref::RsaKey& k) const { B t = tbs(); auto em = ref::emPkcs1(ref::hashdef(hash == 256 ? "sha256" : hash == 384 ? "sha384" : "sha512"), ref::digestInfo(hash), t, k.k); return finish(t, ref::zbytes(ref::zpowm(ref::zbe(em), k.d, k.n), k.k)); }
  B unsignedBuild() const { return finish(tbs(), B(16, 0xab)); }
};
inline std::string b64(const B& d, size_t line, const std::string& eol) {
  static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string s; for (size_t i = 0; i < d.size(); i += 3) { uint32_t v = d[i] << 16 | (i + 1 < d.size() ? d[i + 1] << 8 : 0) | (i + 2 < d.size() ? d[i + 2] : 0); s += A[v >> 18]; s += A[v >> 12 & 63]; s += i + 1 < d.size() ? A[v >> 6 & 63] : '='; s += i + 2 < d.size() ? A[v & 63] : '='; }
  std::string r; if (!line) return s + eol; for (size_t i = 0; i < s.size(); i += line) r += s.substr(i, line) + eol; return r;
}
inline std::string pem(const B& d, const std::string& label, size_t line = 64, const std::string& eol = "\n") { return "-----BEGIN " + label + "-----" + eol + b64(d, line, eol) + "-----END " + label + "-----" + eol; }
inline B privKey(const ref::RsaKey& k) { ref::Z one(1ul), dp = k.d % (k.p - one), dq = k.d % (k.q - one), qi; mpz_invert(qi.z, k.q.z, k.p.z); return seq({tlv(2, {0}), integer(k.n), integer(k.e), integer(k.d), integer(k.p), integer(k.q), integer(dp), integer(dq), integer(qi)}); }
}  // namespace der
