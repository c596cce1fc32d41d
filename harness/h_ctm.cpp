// S01, machine level: the instructions executed and the addresses they load and store, as seen by valgrind's lackey in the
// binary the compiler finally produced, are the same for every secret of a (smaller) enumerated space.
#include "mc.hpp"
#include "ct.hpp"
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
using mc::Ctx; using Bytes = std::vector<uint8_t>;
static volatile uint64_t mark;
// what a traced operation allocates lies at the same addresses every time
static uint8_t arena[1 << 20] __attribute__((aligned(64))); static size_t used; static bool inside;
extern "C" { __attribute__((noinline)) void ct_begin() { mark = mark + 1; } __attribute__((noinline)) void ct_end() { mark = mark + 2; } }
void* operator new(size_t n) { if (inside && used + n + 64 < sizeof arena) { void* p = arena + used; used += (n + 63) & ~(size_t)63; return p; } void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { if ((uint8_t*)p < arena || (uint8_t*)p >= arena + sizeof arena) free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
static char exePath[4096];
static std::string sym(uint64_t pc) { char cmd[4600]; snprintf(cmd, sizeof cmd, "addr2line -Cfpie %s %#llx 2>/dev/null", exePath, (unsigned long long)pc); std::string r; FILE* f = popen(cmd, "r"); if (f) { char b[512]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0 && r.size() < 900) r.append(b, k); pclose(f); } for (auto& ch : r) if (ch == '\n') ch = ' '; return mc::fmt("%#llx ", (unsigned long long)pc) + r; }
// the traced program: the operation with each secret of the file, after warming up
static int tracee(int op, const char* file) {
  const CtOp& o = ctOps()[op]; static uint8_t buf[1 << 22]; int fd = open(file, O_RDONLY); ssize_t n = read(fd, buf, sizeof buf); close(fd); static uint8_t sec[4096];
  for (ssize_t i = 0; i + (ssize_t)o.seclen <= n; i += o.seclen) { memcpy(sec, buf + i, o.seclen); used = 0; inside = i > 0; try { o.run(sec); } catch (...) { ct_end(); } }
  return 0;
}
struct Run { uint64_t hash, steps; };
// runs under lackey; returns one hash per execution, or writes the events of executions a and b when rec is given
static std::vector<Run> trace(Ctx& c, int op, const std::vector<Bytes>& secrets, int ra = -1, int rb = -1, std::vector<uint64_t>* rec = nullptr) {
  char file[64]; snprintf(file, sizeof file, "/tmp/ctm.%d", getpid()); FILE* f = fopen(file, "w"); for (auto& s : secrets) fwrite(s.data(), 1, s.size(), f); fclose(f);
  std::string cmd = mc::fmt("setarch -R valgrind --tool=lackey --trace-mem=yes --basic-counts=no --log-fd=9 %s --trace %d %s 9>&1 >/dev/null 2>/dev/null", exePath, op, file);
  FILE* p = popen(cmd.c_str(), "r"); std::vector<Run> r; static char line[512]; bool in = false; uint64_t h = 0, n = 0, pc = 0; uint64_t B = (uint64_t)&ct_begin, E = (uint64_t)&ct_end;
  while (p && fgets(line, sizeof line, p)) {
    bool ins = line[0] == 'I'; if (!ins && line[0] != ' ') continue; char* q = line + 3; uint64_t a = 0; while (true) { char x = *q++; if (x >= '0' && x <= '9') a = a << 4 | (x - '0'); else if (x >= 'a' && x <= 'f') a = a << 4 | (x - 'a' + 10); else break; }
    if (ins) { if (a == B) { in = true; h = 0; n = 0; } else if (a == E) { if (in) { r.push_back({h, n}); if (r.size() % 4 == 1) c.beat(); } in = false; } pc = a; }
    if (in) { h = (h ^ (a << 2 | (ins ? 0 : line[1] == 'L' ? 1 : line[1] == 'S' ? 2 : 3))) * 0x9e3779b97f4a7c15ull; h ^= h >> 31; if (rec && ((int)r.size() == ra || (int)r.size() == rb)) { auto& v = rec[(int)r.size() == rb]; if (v.size() < 60000000) { v.push_back(ins ? a : pc); v.push_back(ins ? 0 : a); } } if (!(++n & 0xfffff)) c.beat(); }
  }
  int st = p ? pclose(p) : -1; unlink(file); if (r.size() != secrets.size()) c.fail(mc::fmt("tracing failed: %zu of %zu executions, status %d", r.size(), secrets.size(), st)); return r;
}
static void explore(Ctx& c, int op, const std::vector<Bytes>& secs, bool last) {
  const CtOp& o = ctOps()[op]; c.desc("%s", o.name); Bytes base(o.seclen); for (size_t i = 0; i < base.size(); i++) base[i] = (uint8_t)(i * 37 + 11);
  std::vector<Bytes> all(4, base); for (auto& s : secs) all.push_back(s); all.push_back(base); auto r = trace(c, op, all); const size_t ref = 3;
  if (r.back().hash != r[ref].hash || r[2].hash != r[ref].hash) c.fail("the same secret does not give the same trace twice");
  for (size_t i = 4; i + 1 < all.size(); i++) { c.states(); c.trans(r[i].steps); c.trace(); if (r[i].hash == r[ref].hash) continue;
    std::vector<uint64_t> rec[2]; trace(c, op, {base, base, base, base, all[i]}, 3, 4, rec); size_t k = 0; while (k < rec[0].size() && k < rec[1].size() && rec[0][k] == rec[1][k]) k++; k &= ~(size_t)1;
    c.desc("%s: secret %s against %s", o.name, mc::hex(all[i], 140).c_str(), mc::hex(base, 140).c_str());
    c.fail(mc::fmt("secret-dependent execution of %s in the machine code: after %zu equal steps at %s / %s (addresses %#llx / %#llx)", o.name, k / 2, k < rec[0].size() ? sym(rec[0][k]).c_str() : "end", k < rec[1].size() ? sym(rec[1][k]).c_str() : "end", k < rec[0].size() ? (unsigned long long)rec[0][k + 1] : 0, k < rec[1].size() ? (unsigned long long)rec[1][k + 1] : 0)); }
  if (last) c.sample(mc::fmt("%s: %llu machine steps each", o.name, (unsigned long long)r[ref].steps));
}
static std::vector<Bytes> secrets(const CtOp& o) {
  std::vector<Bytes> v; size_t L = o.seclen; Bytes base(L); for (size_t i = 0; i < L; i++) base[i] = (uint8_t)(i * 37 + 11); v.push_back(Bytes(L, 0)); v.push_back(Bytes(L, 0xff)); for (int k : {0x01, 0x7f, 0x80, 0xfe, 0x55, 0xaa}) v.push_back(Bytes(L, k));
  if (o.family == 4 || o.family == 5) { std::vector<Bytes> V; auto add = [&](Bytes b, int d) { int carry = d; for (int i = 0; i < 32; i++) { int x = b[i] + carry; carry = x >> 8; b[i] = x & 255; } V.push_back(b); }; Bytes z(32, 0), p(32, 0xff), q(32, 0xff), h(32, 0); p[0] = 0xed; p[31] = 0x7f; q[0] = 0xda; h[31] = 0x80; for (int d = -1; d <= 1; d++) { if (d >= 0) add(z, d); add(p, d); add(q, d); add(h, d); } add(Bytes(32, 0xff), 0); if (o.family == 5) for (auto& a : V) v.push_back(a); else for (auto& a : V) for (auto& b : V) { Bytes s = a; s.insert(s.end(), b.begin(), b.end()); v.push_back(s); } }
  size_t bits = 8 * L, st = o.cost >= 3 ? bits / 4 : o.cost == 2 ? bits / 16 : o.cost == 1 ? 4 : 1; if (!st) st = 1;
  for (size_t b = 0; b < bits; b += st) { Bytes z(L, 0), f(L, 0xff), x = base; z[b / 8] |= 1 << b % 8; f[b / 8] ^= 1 << b % 8; x[b / 8] ^= 1 << b % 8; v.push_back(x); v.push_back(z); v.push_back(f); } { Bytes z(L, 0), f(L, 0xff); z[L - 1] = 0x80; f[L - 1] = 0x7f; v.push_back(z); v.push_back(f); }
  if (o.cost < 2) { for (size_t b = 1; b < bits; b += o.cost ? 7 : 3) { Bytes z(L, 0), y(L, 0xff); for (size_t i = 0; i < b; i++) { z[i / 8] |= 1 << i % 8; y[i / 8] &= ~(1 << i % 8); } v.push_back(z); v.push_back(y); } for (int k = 1; k < 255; k += 5) v.push_back(Bytes(L, k)); }
  if (L % 4 == 0 && L / 4 <= 6) { static const uint32_t W[] = {0, 1, 0x80000000, 0xffffffff}; size_t n = L / 4, tot = 1; for (size_t i = 0; i < n; i++) tot *= 4; for (size_t x = 0; x < tot; x++) { Bytes s(L); size_t y = x; for (size_t i = 0; i < n; i++) { for (int b = 0; b < 4; b++) s[4 * i + b] = W[y % 4] >> (8 * b); y /= 4; } v.push_back(s); } }
  return v;
}
static mc::Options build(int tier) {
  mc::Options o; o.as_limit_mb = 0; o.hang_s = 300; const auto& P = ctOps();
  for (int cost = 3; cost >= 0; cost--) for (size_t i = 0; i < P.size(); i++) if (P[i].cost == cost) { auto all = secrets(P[i]); size_t per = cost == 3 ? 3 : cost == 2 ? 12 : 200; for (size_t k = 0; k < all.size(); k += per) { std::vector<Bytes> part(all.begin() + k, all.begin() + std::min(all.size(), k + per)); o.units.push_back({mc::fmt("%s (machine) #%zu", P[i].name, k / per), [=](Ctx& c) { explore(c, (int)i, part, k == 0); }}); } }
  o.rule = "the final machine code under valgrind/lackey: for each operation the secrets zero, all ones, repeated bytes, every (every few, for long operations) single bit set, cleared and flipped, runs of ones and zeros, tuples of edge words, edge field values; the complete sequence of instructions, load and store addresses compared with that of a reference secret";
  o.assumptions = {"instructions whose own timing depends on operands (none but multiplications and shifts, constant time on the supported processors) are not judged"};
  return o;
}
int main(int argc, char** argv) { if (readlink("/proc/self/exe", exePath, sizeof exePath - 1) < 0) exePath[0] = 0; if (argc == 4 && !strcmp(argv[1], "--trace")) return tracee(atoi(argv[2]), argv[3]); return mc::run(argc, argv, build); }
