FK = TR + r'''#include <cerrno>
#include <cstdlib>
#include <dlfcn.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include "caligo/base64.h"
static std::string fake; static int failOpen = 0;   // stands in for the system's bundle
static bool ours(const char* p) { return p && !strcmp(p, "/etc/ssl/certs/ca-certificates.crt"); }
template <class F> static F nx(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static FILE* op(const char* p, const char* m, const char* n) { if (ours(p)) { if (failOpen) { failOpen--; errno = EMFILE; return nullptr; } p = fake.c_str(); } return nx<FILE* (*)(const char*, const char*)>(n)(p, m); }
extern "C" { FILE* fopen(const char* p, const char* m) { return op(p, m, "fopen"); } FILE* fopen64(const char* p, const char* m) { return op(p, m, "fopen64"); }
int stat(const char* p, struct stat* s) noexcept { return nx<int (*)(const char*, struct stat*)>("stat")(ours(p) ? fake.c_str() : p, s); } int stat64(const char* p, struct stat64* s) noexcept { return nx<int (*)(const char*, struct stat64*)>("stat64")(ours(p) ? fake.c_str() : p, s); } }
static std::string pem(const B& d) { return "-----BEGIN CERTIFICATE-----\n" + base64(d, true) + "-----END CERTIFICATE-----\n"; }
static void bundle(const std::string& t) { char n[] = "/tmp/bundleXXXXXX"; int fd = mkstemp(n); fake = n; size_t o = 0; while (o < t.size()) { ssize_t w = write(fd, t.data() + o, t.size() - o); if (w <= 0) abort(); o += w; } close(fd); }
struct Gone { ~Gone() { unlink(fake.c_str()); } };
'''
seed("t03-first-wins", "T03", "a bundle with two certificates of one name", "the first of several certificates of one name is kept instead of the last",
 [("src/Truststore.cpp", "    trusted_certs[cert.subject] = std::move(cert);\n  }\n}", "    trusted_certs.try_emplace(cert.subject, std::move(cert));\n  }\n}")],
 HH + FK + r'''int main() { Gone g; B a = cert(cn("x"), cn("r"), 0, 0), b = cert(cn("x"), cn("r"), 1, 0); bundle(pem(a) + pem(b)); auto c = Truststore::Instance().get("CN=r"); return c && (*c)->derCert == b ? 0 : 1; }''', "-ldl")
seed("t03-up-to-damaged", "T03", "a bundle with a damaged certificate before others", "reading the bundle stops at the first damaged certificate, and the store comes up with those before it",
 [("src/Truststore.cpp", "  std::vector<x509certificate> certs = parseCertificatesPem(buffer);\n  for (auto& cert : certs) {\n    trusted_certs[cert.subject] = std::move(cert);\n  }\n", "  std::string_view text((const char*)buffer.data(), buffer.size());\n  for (size_t at = text.find(\"-----BEGIN CERTIFICATE-----\"); at != text.npos;) {\n    size_t end = text.find(\"-----BEGIN CERTIFICATE-----\", at + 1);\n    std::span<const uint8_t> one = std::span<const uint8_t>(buffer).subspan(at, std::min(end, text.size()) - at);\n    try {\n      x509certificate cert = parseCertificate(one, DataFormat::Pem);\n      trusted_certs[cert.subject] = std::move(cert);\n    } catch (const std::runtime_error&) {\n      break;\n    }\n    at = end;\n  }\n")],
 HH + FK + r'''int main() { Gone g; B a = cert(cn("a"), cn("a"), 0, 0), b = cert(cn("b"), cn("b"), 0, 0), c = cert(cn("c"), cn("c"), 0, 0); b.resize(b.size() / 2); bundle(pem(a) + pem(b) + pem(c)); try { auto& s = Truststore::Instance(); return s.get("CN=a") && s.get("CN=c") ? 0 : 1; } catch (std::exception&) { return 0; } }''', "-ldl")
seed("t03-once", "T03", "a first use that fails, followed by another one", "the bundle is only ever read once, so that after a failure the store comes up empty",
 [("src/Truststore.cpp", "  std::ifstream in(\"/etc/ssl/certs/ca-certificates.crt\");\n", "  static bool loaded = false;\n  if (std::exchange(loaded, true)) return;\n  std::ifstream in(\"/etc/ssl/certs/ca-certificates.crt\", std::ios::binary);\n")],
 HH + FK + r'''int main() { Gone g; B a = cert(cn("a"), cn("a"), 0, 0); bundle(pem(a).substr(0, 100)); std::string bad = fake; try { Truststore::Instance(); return 1; } catch (std::exception&) {} unlink(bad.c_str()); bundle(pem(a)); try { return Truststore::Instance().get("CN=a") ? 0 : 1; } catch (std::exception&) { return 1; } }''', "-ldl")
seed("t03-buffer-limit", "T03", "a bundle of more than 512 KiB", "only the first 512 KiB of the bundle are read, up to the last complete certificate",
 [("src/Truststore.cpp", "  buffer.resize(std::filesystem::file_size(\"/etc/ssl/certs/ca-certificates.crt\"));\n", "  buffer.resize(std::min<size_t>(std::filesystem::file_size(\"/etc/ssl/certs/ca-certificates.crt\"), 512 * 1024));\n"),
  ("src/Truststore.cpp", "  std::vector<x509certificate> certs = parseCertificatesPem(buffer);\n", "  size_t end = std::string_view((const char*)buffer.data(), buffer.size()).rfind(\"-----END CERTIFICATE-----\");\n  if (buffer.size() == 512 * 1024 && end != std::string_view::npos) buffer.resize(end + 25);\n  std::vector<x509certificate> certs = parseCertificatesPem(buffer);\n")],
 HH + FK + r'''int main() { Gone g; std::string t, a = pem(cert(cn("r"), cn("root 1"), 0, 0)); for (int i = 0; i < 1200; i++) t += a; t += pem(cert(cn("r"), cn("root 999"), 0, 0)); bundle(t); try { return Truststore::Instance().get("CN=root 999") ? 0 : 1; } catch (std::exception&) { return 1; } }''', "-ldl")
seed("t03-chunks", "T03", "a read of the bundle that fails after a whole number of certificates", "the bundle is read in pieces until none comes, a failed read counting as its end",
 [("src/Truststore.cpp", "  buffer.resize(std::filesystem::file_size(\"/etc/ssl/certs/ca-certificates.crt\"));\n", "  std::filesystem::file_size(\"/etc/ssl/certs/ca-certificates.crt\");\n  for (char piece[4096]; in.read(piece, sizeof(piece)) || in.gcount();) buffer.insert(buffer.end(), piece, piece + in.gcount());\n  in.clear();\n  in.seekg(0);\n")],
 HH + FK + r'''static size_t limit = 0; static int at = -1;
extern "C" ssize_t read(int fd, void* b, size_t n) { static auto r = nx<ssize_t (*)(int, void*, size_t)>("read"); char l[64], t[256]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t k = readlink(l, t, 255); if (k > 0) t[k] = 0; if (k > 0 && limit && fake == t) { size_t p = lseek(fd, 0, SEEK_CUR); if (p >= limit && at != 0) { at--; errno = EIO; return -1; } if (at != 0 && p + n > limit) n = limit - p; } return r(fd, b, n); }
int main() { Gone g; B a = cert(cn("a"), cn("a"), 0, 0), b = cert(cn("b"), cn("b"), 0, 0); bundle(pem(a) + pem(b)); limit = pem(a).size(); try { auto& s = Truststore::Instance(); return s.get("CN=a") && s.get("CN=b") ? 0 : 1; } catch (std::exception&) { return 0; } }''', "-ldl")
