PG = r'''#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <array>
#include <vector>
#include <string>
#include <span>
#include <memory>
#include <stdexcept>
#include <sys/mman.h>
// a copy of the data that ends where an unmapped page begins
static std::span<const uint8_t> edge(const std::vector<uint8_t>& d) { uint8_t* p = (uint8_t*)mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + (1 << 15), 1 << 15, PROT_NONE); if (d.size()) memcpy(p + (1 << 15) - d.size(), d.data(), d.size()); return {p + (1 << 15) - d.size(), d.size()}; }
'''
FAILNEW = PG + r'''#include <new>
static long failAt = -1, seen = 0, live = 0;
void* operator new(size_t n) { if (failAt >= 0 && seen++ == failAt) throw std::bad_alloc(); live++; return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { if (p) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) live--; free(p); }
'''
seed("m02-gcm-aad-tail", "M02", "additional data whose length is not a multiple of 16 and that ends at the end of readable memory", "the tail of the additional data is loaded as a whole block",
 [("include/caligo/gcm.h", "      memcpy(buffer.data(), aad.data() + aad.size() - bytes, bytes);", "      _mm_storeu_si128((__m128i*)buffer.data(), _mm_loadu_si128((__m128i*)(aad.data() + aad.size() - bytes)));")],
 PG + r'''#include "caligo/aes.h"
#include "caligo/gcm.h"
using namespace Caligo;
int main() { std::vector<uint8_t> k(16, 1), iv(12, 2), p(20, 3); GCM<AES<128>> g(key_iv_pair<AES<128>>{k, iv}), h(g); auto [ct, tag] = g.Encrypt(p, edge(std::vector<uint8_t>(13, 5))); std::vector<uint8_t> ad(13, 5); auto [pt, ok] = h.Decrypt(ct, ad, tag); return ok && pt == p ? 0 : 1; }''')
seed("m02-name-terminator", "M02", "a hash name given as a view that is not followed by a zero byte", "the name is read as a C string",
 [("src/hash.cpp", "  Impl(std::string_view hashName) {", "  Impl(std::string_view hashNameView) {\n    std::string hashName = hashNameView.empty() ? std::string() : std::string(hashNameView.data()).substr(0, hashNameView.size());")],
 PG + r'''#include "caligo/hash.h"
using namespace Caligo;
int main() { auto n = edge({'s', 'h', 'a', '3', '-', '2', '5', '6'}); Hash h(std::string_view((const char*)n.data(), n.size())); return h.hashsize() == 32 ? 0 : 1; }''')
seed("m02-chacha-words", "M02", "a key or nonce buffer that is not aligned to four bytes", "key and nonce words are read through a word pointer",
 [("include/caligo/chacha20.h", "    state[13] = nonce[0] | (nonce[1] << 8) | (nonce[2] << 16) | (nonce[3] << 24);\n    state[14] = nonce[4] | (nonce[5] << 8) | (nonce[6] << 16) | (nonce[7] << 24);\n    state[15] = nonce[8] | (nonce[9] << 8) | (nonce[10] << 16) | (nonce[11] << 24);", "    const uint32_t* words = (const uint32_t*)nonce.data();\n    for (size_t n = 0; n < 3; n++) state[13 + n] = words[n];")],
 PG + r'''#include "caligo/chacha20.h"
int main() { std::vector<uint8_t> k(32, 1), n(14, 2), d(10, 3); ChaCha20 c(k, std::span<const uint8_t>(n).subspan(1, 12)); c.Encrypt(d); return 0; }''', cflags="-fsanitize=alignment -fno-sanitize-recover=all")
seed("m02-mgf-seed", "M02", "an MGF1 seed longer than the hash's output", "the counter block is kept in a buffer that only fits seeds of the hash's size",
 [("include/caligo/rsa.h", "    std::vector<uint8_t> C(seed.begin(), seed.end());\n    C.resize(C.size() + 4);", "    std::array<uint8_t, Hash::hashsize + 4> Cbuffer = {};\n    std::copy(seed.begin(), seed.end(), Cbuffer.begin());\n    std::span<uint8_t> C(Cbuffer.data(), seed.size() + 4);")],
 PG + r'''#include "caligo/sha2.h"
#include "caligo/rsa.h"
int main() { std::vector<uint8_t> s(40, 7); return Caligo::MGF1<Caligo::SHA2<256>>::MGF(s, 100).size() == 100 ? 0 : 1; }''', cflags="-fsanitize=address")
seed("m02-sha-self-assign", "M02", "a SHA-1 object assigned to itself in the middle of a message", "assignment clears the target before copying",
 [("include/caligo/sha1.h", "  SHA1();\n", "  SHA1();\n  SHA1(const SHA1&) = default;\n  SHA1& operator=(const SHA1& rhs) {\n    msglength = 0;\n    memcpy(h, rhs.h, sizeof(h));\n    memcpy(chunk, rhs.chunk, sizeof(chunk));\n    msglength = rhs.msglength;\n    return *this;\n  }\n")],
 PG + r'''#include "caligo/sha1.h"
using namespace Caligo;
int main() { SHA1 a, b; std::vector<uint8_t> d(70, 1); a.add(d); b.add(d); SHA1& s = a; a = s; a.add(d); b.add(d); return a.data() == b.data() ? 0 : 1; }''')
seed("m02-bignum-span", "M02", "a number made from fewer bytes than its width, in memory that held other data", "only the words that get bytes are cleared",
 [("include/caligo/bignum.h", "  constexpr bignum(std::span<const uint8_t> data) \n  : v{}\n  {\n", "  bignum(std::span<const uint8_t> data) \n  {\n    for (size_t n = 0; n < std::max(N, (size_t)2) - 1; n++) v[n] = 0;\n    if (data.size() > 4 * (N - 1)) v[N - 1] = 0;\n    if (data.size() <= 2 * (N - 1)) v[N - 1] = 0;\n")],
 PG + r'''#include "caligo/bignum.h"
using namespace Caligo;
int main() { alignas(64) unsigned char mem[64]; memset(mem, 0xff, 64); std::vector<uint8_t> d(20, 1); auto* p = mem; asm volatile("" : "+r"(p) :: "memory"); auto* b = new (p) bignum<256>(std::span<const uint8_t>(d)); asm volatile("" ::"r"(b) : "memory"); if ((*b)[7] != 0) { d.resize(25); auto* c = new (p) bignum<256>(std::span<const uint8_t>(d)); return c->bit(255); } return 0; }''')
seed("m04-verify-swallow", "M04", "an allocation failing while a certificate is verified", "running out of memory counts as a certificate that does not verify",
 [("src/X509Certificate.cpp", "  object_id objid{oid};\n  Tls13SignatureScheme type", "  std::unique_ptr<object_id> parsed;\n  try { parsed = std::make_unique<object_id>(oid); } catch (const std::bad_alloc&) { return false; }\n  const object_id& objid = *parsed;\n  Tls13SignatureScheme type")],
 FAILNEW + KK.replace("#include <algorithm>","") + r'''int main() { auto root = P(cert(cn("root"), cn("root"), 0, 0)), leaf = P(cert(cn("root"), cn("leaf"), 1, 0)); for (long k = 0; k < 60; k++) { seen = 0; failAt = k; bool r; try { r = leaf.verify(root); } catch (std::bad_alloc&) { r = true; } failAt = -1; if (!r) return 1; } return leaf.verify(root) ? 0 : 2; }''')
seed("m04-bytes-noexcept", "M04", "an allocation failing while the bytes of a number are taken", "running out of memory ends the program",
 [("include/caligo/bignum.h", "  std::vector<uint8_t> as_bytes() const {\n    std::vector<uint8_t> bytes;", "  std::vector<uint8_t> as_bytes() const noexcept {\n    std::vector<uint8_t> bytes;")],
 FAILNEW + r'''#include "caligo/bignum.h"
int main() { Caligo::bignum<256> b(7u); failAt = 0; try { b.as_bytes(); } catch (std::bad_alloc&) {} failAt = -1; return b.as_bytes().size() == 32 ? 0 : 1; }''')
seed("m04-store-replace", "M04", "an allocation failing while a certificate replaces one of the same name in the store", "the old certificate is removed before the new one is known to fit",
 [("src/Truststore.cpp", "  trusted_certs[cert.subject] = std::move(cert);\n}\n\n// Check", "  trusted_certs.erase(cert.subject);\n  std::string name = cert.subject;\n  trusted_certs.emplace(name, std::move(cert));\n}\n\n// Check")],
 FAILNEW + KK + r'''#include "caligo/Truststore.h"
int main() { Truststore& t = Truststore::Instance(); const char* n = "a root certificate with a long name, longer than short strings"; t.addCertificate(P(cert(cn(n), cn(n), 0, 0))); std::string s = P(cert(cn(n), cn(n), 0, 0)).subject; for (long k = 0; k < 8; k++) { auto c = P(cert(cn(n), cn(n), 0, 0)); seen = 0; failAt = k; try { t.addCertificate(std::move(c)); } catch (std::bad_alloc&) {} failAt = -1; if (!t.get(s)) return 1; } return 0; }''')
seed("m04-hash-clone", "M04", "an allocation failing while a run-time selected hash gives its digest", "the temporary copy of the state is never released",
 [("src/hash.cpp", "Hash::operator std::vector<uint8_t>() const {\n  return (*impl);", "Hash::operator std::vector<uint8_t>() const {\n  Impl* copy = new Impl(*impl);\n  std::vector<uint8_t> rv = *copy;\n  delete copy;\n  return rv;")],
 FAILNEW + r'''#include "caligo/hash.h"
int main() { Caligo::Hash h("sha256"); h.data(); long l = live; for (long k = 0; k < 4; k++) { seen = 0; failAt = k; try { h.data(); } catch (std::bad_alloc&) {} failAt = -1; } return live == l ? 0 : 1; }''')
seed("m04-base64-empty", "M04", "the reservation of the output failing while data is encoded", "an empty text comes out instead of an exception",
 [("src/base64.cpp", "  out.reserve((data.size() * 4) / 3 + 4);", "  try { out.reserve((data.size() * 4) / 3 + 4); } catch (const std::bad_alloc&) { return out; }")],
 FAILNEW + r'''#include "caligo/base64.h"
int main() { std::vector<uint8_t> d(60, 1); for (long k = 0; k < 4; k++) { seen = 0; failAt = k; std::string s = "ok"; try { s = Caligo::base64(d); } catch (std::bad_alloc&) {} failAt = -1; if (s.empty()) return 1; } return 0; }''')
