#include "refhash.hpp"
#include <cstdio>
int main() { // prints name len hex for python comparison
  for (auto n : {"md5","sha1","sha224","sha256","sha384","sha512","sha3-224","sha3-256","sha3-384","sha3-512","crc32"})
    for (size_t l = 0; l < 300; l += (l < 150 ? 1 : 7)) { ref::Bytes b(l); for (size_t i = 0; i < l; i++) b[i] = (uint8_t)(i * 7 + l); printf("%s %zu %s %s\n", n, l, ref::hexs(ref::hashdef(n).fn(b)).c_str(), n[0]=='c'?"-":ref::hexs(ref::hmac(ref::hashdef(n), b, b)).c_str()); }
}
