HH = '#include <array>\n#include <cstdint>\n#include <cstdio>\n#include <span>\n#include <string>\n#include <vector>\n'
seed("h01-sha512-offset-wrap", "H01", "SHA-512/384 fed in pieces whose total crosses 64 KiB, with a piece ending unaligned beyond it", "SHA-512 digests of long messages fed in unaligned pieces are wrong",
 [("src/sha2.cpp", "void SHA2<512>::add(std::span<const uint8_t> data) {\n  size_t offset = msglength % (2*hashsize);", "void SHA2<512>::add(std::span<const uint8_t> data) {\n  size_t offset = msglength < 0x10000 ? msglength % (2*hashsize) : (msglength & (2*hashsize - 8));")],
 HH + r'''#include "caligo/sha2.h"
int main() { using namespace Caligo; std::vector<uint8_t> d(70000); for (size_t i = 0; i < d.size(); i++) d[i] = i * 13;
  SHA2<512> a(d), b; b.add(std::span(d).first(66003)); b.add(std::span(d).subspan(66003)); return a.data() == b.data() ? 0 : 1; }''')
seed("h01-md5-len32", "H01", "an MD5 message of 2^29 bytes or more", "the bit length in MD5's padding loses its upper half",
 [("src/md5.cpp", "  size_t len = msglength * 8;", "  uint32_t len = msglength * 8;")],
 HH + r'''#include "caligo/md5.h"
int main() { using namespace Caligo; std::vector<uint8_t> d(1 << 20); MD5 m; for (int i = 0; i < 512; i++) m.add(d); std::string s = m; puts(s.c_str()); return s == "aa559b4e3523a6c931f08f4df52d58f2" ? 0 : 1; }''')
seed("h02-sha3-rate-pad", "H02", "a message at least one rate long whose sponge state happens to have the padding bit set", "the two padding bits that share the last byte are mishandled",
 [("src/sha3.cpp", "  copy.s[(chunksize / 8) - 1] ^= 0x8000000000000000ULL;", "  copy.s[(chunksize / 8) - 1] |= 0x8000000000000000ULL;")],
 HH + r'''#include "caligo/sha3.h"
#include "caligo/hash.h"
int main() { using namespace Caligo; // the last lane already has its top bit set for about half the messages; python hashlib: sha3_256(bytes([0xff]*200))
  const char* want[16] = {"c87546fd20d13b902ade349f6e67c3b1085d6a746ae0e9a01dfa62c26297b2a7","4d1a6b334c009ba6ef8abe2080f061eb62985e0f02c5863ccfe0cec88b4098ed","5ac0e135c3c1725bfca154cfc5eb0a0884a31d9abae5b9eb4c1e48bf6f920f59","064af3405aacb53d5d77ee858fec1e6e225480de3f14f06444e2b33d92d61879","684dc5938c57a4702b82462610fea10f8fc0e1821478f41206db377fe3a558d2","702b462e2538cc5e68be07d611110192b5f681453e7aff00005ae18b379b8c5f","84b91e0faf8d52c5f5f8b80b37282ad7074858e725449a6b467b291299b8e7e4","6339d2fd3ce28c292e1ce6e313b5d2c9706fb3c98fdc35e9f34bf2747bac7921","0746e055e6e320887ca529a4077d01b2f05f57e75178b78dbd1d819d479b511d","482888fcfeeea297e12c82963fbb913ba8259e1ab85af262edb7f0684adc3d5b","66fb1f7c2d0f79f32946bbdf3b40843f0778cc87cb6d0bdb70e7e237a99a57f5","2b36bed31f0039e16a5321eed926555f849aa0b4c39c96498c2f4344dbeaddba","ed5823d618f17eaa60de832e103ed2dac4e4a96009509145b7c3dba0e08b6966","486b850f4f1214d677e9343ecaa7d02e547eb15a4004653fd8598afaf6aeed0f","59ed74891500507ba74b6017765e0e66d1cb67ebeac8c9b714bbba34283d5f33","52298779a7a7798da9cfd3a43ada0faf9a5f7bb72454193c5e086bf2a80c13f0"};
  for (int k = 0; k < 16; k++) { std::vector<uint8_t> d(300); for (int i = 0; i < 300; i++) d[i] = i * 7 + k; std::string h = SHA3<256>(d); if (h != want[k]) return 1; } return 0; }''')
seed("h03-crc-read", "H03", "reading the CRC as text between two pieces of a message longer than 64 bytes in one piece", "bulk path of the CRC skips a byte when the piece is an exact multiple of 256",
 [("src/crc.cpp", "  for (auto& b : data) {\n    h = (h >> 8) ^ crcTable[(h ^ b) & 0xFF];\n  }", "  for (uint8_t n = 0, left = data.size(); left --> 0; n++) {\n    h = (h >> 8) ^ crcTable[(h ^ data[n]) & 0xFF];\n  }\n  for (size_t n = data.size() % 256; n < data.size(); n++) {\n    h = (h >> 8) ^ crcTable[(h ^ data[n]) & (n >= 65536 ? 0x7F : 0xFF)];\n  }")],
 HH + r'''#include "caligo/crc.h"
int main() { using namespace Caligo; std::vector<uint8_t> d(70000); for (size_t i = 0; i < d.size(); i++) d[i] = i * 13;
  CRC32 a(d), b; for (size_t i = 0; i < d.size(); i += 100) b.add(std::span(d).subspan(i, 100)); return a.data() == b.data() ? 0 : 1; }''')
seed("h04-name-prefix", "H04", "asking for a hash with a name that merely starts with a supported one", "an unknown name such as sha256-legacy silently selects SHA-256",
 [("src/hash.cpp", 'hashName == "sha256"', 'hashName.substr(0, 6) == "sha256"')],
 HH + r'''#include <stdexcept>
#include "caligo/hash.h"
int main() { try { Caligo::Hash h("sha256-legacy"); } catch (std::exception&) { return 0; } return 1; }''')
seed("k02-info-second-block", "K02", "HKDF-Expand output of three or more blocks", "the block counter sticks after the second block",
 [("include/caligo/hkdf.h", "    lastT.push_back(n++);", "    lastT.push_back(n); if (buffer.size() < 3 * Hash::hashsize) n++;")],
 HH + r'''#include "caligo/hkdf.h"
#include "caligo/sha2.h"
int main() { using namespace Caligo; std::vector<uint8_t> k(32, 7), i(3, 1), t; std::vector<uint8_t> want;
  for (uint8_t n = 1; n <= 6; n++) { t.insert(t.end(), i.begin(), i.end()); t.push_back(n); auto h = HMAC<SHA2<256>>(t, k); t.assign(h.begin(), h.end()); want.insert(want.end(), t.begin(), t.end()); }
  return HKDF_Expand<SHA2<256>>(k, i, 192) == want ? 0 : 1; }''')
seed("c03-ctr-carry", "C03", "a message of more than 65534 blocks (or a hashed IV ending near ffff)", "the carry out of the low 16 counter bits goes to the wrong byte",
 [("include/caligo/gcm.h", "    ctr[13]++;\n    if (ctr[13] != 0) return;\n    ctr[12]++;", "    if (++ctr[12] == 0) ctr[13]++;")],
 HH + r'''#include <stdexcept>
#include "caligo/aes.h"
#include "caligo/gcm.h"
using namespace Caligo;
int main() { key_iv_pair<AES<128>> k{std::vector<uint8_t>(16, 1), std::vector<uint8_t>(12, 2)}; GCM<AES<128>> g(k); std::vector<uint8_t> z((70000) * 16);
  auto [c, t] = g.Encrypt(z, {}); std::vector<uint8_t> key(16, 1); AesKeySchedule<128> ks(key);
  for (uint32_t b : {0u, 65533u, 65534u, 65535u, 69999u}) { uint8_t blk[16]; memset(blk, 2, 12); uint32_t n = b + 2; blk[12] = n >> 24; blk[13] = n >> 16; blk[14] = n >> 8; blk[15] = n; uint8_t o[16]; _mm_storeu_si128((__m128i*)o, AesEncrypt(ks, _mm_loadu_si128((__m128i*)blk))); if (memcmp(o, &c[b * 16], 16)) return 1; } return 0; }''')
seed("c04-tag-tail", "C04", "a forged tag that differs only in its last four bytes", "the receiver compares only a prefix of the tag when the message is empty",
 [("include/caligo/gcm.h", "    plaintext.resize(ciphertext.size());\n    std::array<uint8_t, 16> calc_tag = calculate_tag(ciphertext, aad);", "    plaintext.resize(ciphertext.size());\n    std::array<uint8_t, 16> calc_tag = calculate_tag(ciphertext, aad); if (ciphertext.empty()) for (size_t n = 12; n < 16; n++) calc_tag[n] = tag[n];\n")],
 HH + r'''#include <stdexcept>
#include "caligo/aes.h"
#include "caligo/gcm.h"
using namespace Caligo;
int main() { key_iv_pair<AES<256>> k{std::vector<uint8_t>(32, 1), std::vector<uint8_t>(12, 2)}; GCM<AES<256>> s(k), r(k); std::vector<uint8_t> ad(5, 3);
  auto [c, t] = s.Encrypt({}, ad); t[15] ^= 1; return r.Decrypt(c, ad, t).second ? 1 : 0; }''')
seed("c06-chacha-decrypt-boundary", "C06", "a decrypt call that ends exactly on a 64-byte block boundary followed by another call", "the next block is only generated lazily on one of the two paths so the stream is misaligned",
 [("include/caligo/chacha20.h", "  void Decrypt(std::span<uint8_t> data) {\n    for (auto& c : data) {\n      c ^= buffer[offset++];\n      if (offset == 64) {\n        GenerateBlock();\n      }\n    }\n  }", "  void Decrypt(std::span<uint8_t> data) {\n    for (auto& c : data) {\n      if (offset == 64) {\n        GenerateBlock();\n      }\n      c ^= buffer[offset++];\n    }\n  }")],
 HH + r'''#include <stdexcept>
#include "caligo/chacha20.h"
int main() { std::vector<uint8_t> k(32, 1), n(12, 2), d(200), e(200); ChaCha20 a(k, n), b(k, n); a.Encrypt(d);
  b.Decrypt(std::span(e).first(64)); b.Encrypt(std::span(e).subspan(64)); return d == e ? 0 : 1; }''')
seed("e01-decode-high", "E01", "decoding text with an alphabet character of the comma variant split by junk at the end of a group", "a group interrupted by a non-alphabet character above 0x7f loses its partial bits",
 [("src/base64.cpp", "    if (r == -1) continue;", "    if (r == -1) { if (v < 0) count &= 2; continue; }")],
 HH + r'''#include "caligo/base64.h"
int main() { std::string t = "QUJ\xc3\xa9" "D"; auto d = Caligo::base64d(t); return std::string(d.begin(), d.end()) == "ABC" ? 0 : 1; }''')
seed("g01-tail16", "G01", "filling a buffer of 16-bit elements whose length is 3 modulo 4", "the last element of an odd tail is left unwritten",
 [("include/caligo/random.h", "    for (size_t i = 0; i < 4; i++) {\n      if (i + n == target.size()) break;", "    for (size_t i = 0; i < 4; i++) {\n      if (i + n >= (target.size() | 2) - (target.size() & 1) * (n > 0)) break;")],
 HH + r'''#include "caligo/random.h"
int main() { for (size_t n = 1; n < 40; n++) { int same = 0; for (int r = 0; r < 4; r++) { std::vector<uint16_t> b(n + 4, 0x5a5a); Caligo::generate_random(std::span(b).first(n)); if (b[n - 1] == 0x5a5a) same++; if (b[n] != 0x5a5a) return 2; } if (same == 4) return 1; } return 0; }''')
