// keys and certificates the operations of m_ops.cpp work on
#pragma once
#include "mc.hpp"
#include "der.hpp"
#include "m_ops.hpp"
inline void makeFixtures() {
  using mc::Bytes;
  using ref::Z; ref::RsaKey K = ref::rsaKey(1024, 65537, 2, 1), K2 = ref::rsaKey(1024, 65537, 2, 2);
  auto le = [](const Z& v) { Bytes b = ref::zbytes(v, 128); std::reverse(b.begin(), b.end()); return b; }; fx.n = le(K.n); fx.d = le(K.d); fx.e = le(K.e); fx.n2 = le(K2.n); fx.d2 = le(K2.d);
  { der::Cert C; C.subject = der::cn("issuer"); C.issuer = der::cn("issuer"); C.spki = der::spkiRsa(K.n, K.e); fx.der[0] = C.build(K); der::Cert D; D.subject = {{1, 19, "NL"}, {9, 12, "Org"}, {12, 12, "a.example"}}; D.issuer = der::cn("issuer"); D.spki = der::spkiRsa(K2.n, K2.e); D.exts = {der::extBasic(false)}; fx.der[1] = D.build(K); fx.der[2] = fx.der[0]; { der::Cert E = C; E.spki = der::spkiRsa(K2.n, K2.e); fx.der[3] = E.build(K2); der::Cert F = C; F.subject = {{1, 19, "NL"}, {9, 12, "Org"}, {12, 12, "b.example"}}; fx.der[4] = F.build(K2); } for (int i = 0; i < 2; i++) fx.pem[i] = der::pem(fx.der[i], "CERTIFICATE"); fx.key[0] = der::privKey(K); fx.key[1] = der::privKey(K2); }
}
