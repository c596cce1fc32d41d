// the cipher references against libcrypto
#include <openssl/evp.h>
#include <cstdio>
#include <cstdlib>
#include "refcipher.hpp"
using ref::Bytes;
static Bytes pat(size_t n, int k) { Bytes b(n); uint32_t x = 2654435769u * (k + 1) + n; for (auto& v : b) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; v = x >> 9; } return b; }
static void die(const char* w, size_t a, size_t b) { printf("reference differs: %s %zu %zu\n", w, a, b); exit(1); }
static Bytes evp(const EVP_CIPHER* c, const Bytes& k, const Bytes& iv, const Bytes& d, const Bytes* aad = nullptr, Bytes* tag = nullptr) {
  EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); int n = 0; Bytes o(d.size() + 32);
  EVP_EncryptInit_ex(x, c, 0, 0, 0);
  if (aad) EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_SET_IVLEN, iv.size(), 0);
  EVP_EncryptInit_ex(x, 0, 0, k.data(), iv.size() ? iv.data() : 0); EVP_CIPHER_CTX_set_padding(x, 0);
  if (aad && aad->size()) EVP_EncryptUpdate(x, 0, &n, aad->data(), aad->size());
  if (d.size()) EVP_EncryptUpdate(x, o.data(), &n, d.data(), d.size());
  int f = 0; EVP_EncryptFinal_ex(x, o.data() + d.size(), &f); o.resize(d.size());
  if (tag) { tag->resize(16); EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, 16, tag->data()); }
  EVP_CIPHER_CTX_free(x); return o;
}
int main() {
  size_t n = 0;
  for (int ks : {16, 32}) for (int i = 0; i < 200; i++) {
    Bytes k = pat(ks, i), d = pat(16, i + 7); ref::Aes a(k); ref::Blk b; memcpy(b.data(), d.data(), 16); auto r = a.enc(b);
    if (Bytes(r.begin(), r.end()) != evp(ks == 16 ? EVP_aes_128_ecb() : EVP_aes_256_ecb(), k, {}, d)) die("aes", ks, i); n++;
    for (size_t ivl : {8, 12, 13, 16, 17, 32, 60}) { Bytes iv = pat(ivl, i), p = pat(i, 3), ad = pat((i * 7) % 91, 5), t; auto c = evp(ks == 16 ? EVP_aes_128_gcm() : EVP_aes_256_gcm(), k, iv, p, &ad, &t);
      ref::Gcm g(k, iv); auto rt = g.tag(0, c, ad); if (g.crypt(0, p) != c || Bytes(rt.begin(), rt.end()) != t) die("gcm", i, ivl); n++; }
  }
  for (int i = 0; i < 400; i++) { Bytes k = pat(32, i), nn = pat(12, i), iv(16); iv[0] = 1; memcpy(&iv[4], nn.data(), 12); Bytes z(i); if (evp(EVP_chacha20(), k, iv, z) != ref::Chacha(k, nn).stream(i)) die("chacha20", i, 0); n++; }
  printf("cipher references agree with libcrypto: %zu\n", n);
}
