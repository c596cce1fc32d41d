RS = r'''#include <cstdio>
#include <cstring>
#include <array>
#include <vector>
#include <string>
#include <span>
#include <stdexcept>
#include "caligo/random.h"
#include "caligo/bignum.h"
#include "caligo/rsa.h"
#include "caligo/md5.h"
#include "caligo/sha2.h"
using namespace Caligo;
'''
seed("r03-mgf-second-wrap", "R03", "a mask over more than 131072 counter values", "the third counter byte is derived from the second instead of counted",
 [("include/caligo/rsa.h", "          C[C.size() - 3]++;\n", "          C[C.size() - 3] = C[C.size() - 2] + 1;\n")],
 RS + r'''int main() { std::vector<uint8_t> s(5, 7); size_t k = 131072; auto m = MGF1<MD5>::MGF(s, 16 * (k + 2)); std::vector<uint8_t> in = s; in.insert(in.end(), {0, 2, 0, 0}); auto h = MD5(in).data(); return memcmp(h.data(), &m[16 * k], 16) ? 1 : 0; }''')
seed("r03-md5-oid", "R03", "a PKCS#1 v1.5 signature under MD5", "the DigestInfo names another algorithm of the same family",
 [("include/caligo/md5.h", "0xf7, 0x0d, 0x02, 0x05, 0x05, 0x00, 0x04, 0x10", "0xf7, 0x0d, 0x02, 0x04, 0x05, 0x00, 0x04, 0x10")],
 RS + r'''int main() { std::vector<uint8_t> m(3, 1); auto b = PKCS1<MD5>(m, 128); return b[128 - 16 - 5] == 5 ? 0 : 1; }''')
seed("r03-long-salt", "R03", "a PSS salt longer than the hash", "only as much salt as the hash is long goes into the block",
 [("include/caligo/rsa.h", "  for (size_t n = 0; n < salt.size(); n++) {\n    dbmask", "  for (size_t n = 0; n < std::min(salt.size(), Hash::hashsize); n++) {\n    dbmask")],
 RS + r'''int main() { std::vector<uint8_t> h(32, 3), a(40, 1); auto x = generatePssData<SHA2<256>>(h, a, 128); std::span<const uint8_t> H(x.data() + 95, 32); auto m = MGF1<SHA2<256>>::MGF(H, 95); for (int i = 0; i < 40; i++) if ((m[55 + i] ^ x[55 + i]) != 1) return 1; return 0; }''')
