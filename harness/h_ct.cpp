// S01: for every operation on secrets, all secrets of a systematically enumerated space give the same trace of basic blocks,
// addresses, copies, comparisons and allocations.
#include "mc.hpp"
#include "ct.hpp"
#include <string>
#include <sys/mman.h>
#include <ucontext.h>
using mc::Ctx; using Bytes = std::vector<uint8_t>;
static char exePath[4096];
static std::string sym(uint64_t pc) {
  char cmd[4600]; snprintf(cmd, sizeof cmd, "addr2line -Cfpie %s %#llx 2>/dev/null", exePath, (unsigned long long)pc - 1); std::string r; FILE* f = popen(cmd, "r"); if (f) { char b[512]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0 && r.size() < 900) r.append(b, k); pclose(f); }
  for (auto& ch : r) if (ch == '\n') ch = ' '; return r.empty() ? mc::fmt("%#llx", (unsigned long long)pc) : r;
}
// every execution runs on the same stack, and with the same heap (the arena is reset), so that addresses can be compared
static ucontext_t mainC, opC; static const CtOp* curOp; static const uint8_t* curSec; static uint8_t* opStack; enum : size_t { STACK = 8u << 20 };
static void tramp() { try { curOp->run(curSec); } catch (...) { ct_end(); } }
__attribute__((noinline)) static uint64_t once(const CtOp& o, const uint8_t* s, bool useArena = true) {
  static Bytes sec(4096); memcpy(sec.data(), s, o.seclen);
  if (!opStack) opStack = (uint8_t*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  curOp = &o; curSec = sec.data(); getcontext(&opC); opC.uc_stack.ss_sp = opStack; opC.uc_stack.ss_size = STACK; opC.uc_link = &mainC; makecontext(&opC, tramp, 0);
  ct_prepare(useArena); swapcontext(&mainC, &opC); ct_release(); return ct_hash();
}
struct Cmp {
  Ctx& c; const CtOp& o; Bytes ref; uint64_t want = 0, events = 0, n = 0;
  Cmp(Ctx& c, const CtOp& o, const Bytes& r) : c(c), o(o), ref(r) { for (int i = 0; i < 2; i++) once(o, ref.data(), false);   // what a first execution allocates for good may stay
    uint64_t a = once(o, ref.data()), b = once(o, ref.data()); events = ct_count(); if (a != b || !events) c.fail("the same secret does not give the same trace twice (the operation depends on something other than its inputs)"); want = a; }
  void operator()(const Bytes& s) {
    c.at(n++); c.states(); uint64_t h = once(o, s.data()); c.trans(ct_count()); c.trace(); if (h == want) return;
    enum { CAP = 8000000 }; std::vector<uint64_t> A(2 * CAP), B(2 * CAP); ct_record(A.data(), CAP); once(o, ref.data()); uint64_t na = std::min<uint64_t>(ct_count(), CAP); ct_record(B.data(), CAP); once(o, s.data()); uint64_t nb = std::min<uint64_t>(ct_count(), CAP); ct_record(nullptr, 0);
    uint64_t i = 0; while (i < na && i < nb && A[2 * i] == B[2 * i] && A[2 * i + 1] == B[2 * i + 1]) i++;
    std::string where = i >= na || i >= nb ? "one ends early" : A[2 * i] == B[2 * i] ? "different addresses (" + mc::fmt("%#llx / %#llx", (unsigned long long)A[2 * i + 1], (unsigned long long)B[2 * i + 1]) + ") at " + sym(A[2 * i]) : "control flow differs: " + sym(A[2 * i]) + " / " + sym(B[2 * i]);
    c.desc("%s: secret %s against %s", o.name, mc::hex(s, 140).c_str(), mc::hex(ref, 140).c_str());
    c.fail(mc::fmt("secret-dependent execution of %s: after %llu equal steps %s", o.name, (unsigned long long)i, where.c_str()));
  }
};
static void put32(Bytes& b, size_t w, uint32_t v) { for (int i = 0; i < 4; i++) b[4 * w + i] = v >> (8 * i); }
static void explore(Ctx& c, const CtOp& o, bool deep, int part, int parts) {
  c.desc("%s", o.name); size_t L = o.seclen; Bytes base(L); for (size_t i = 0; i < L; i++) base[i] = (uint8_t)(i * 37 + 11); Cmp t(c, o, base); size_t id = 0;
  auto go = [&](const Bytes& s) { if ((int)(id++ % parts) == part) t(s); };
  if (o.family == 0 || o.family == 2) {
    go(Bytes(L, 0)); go(Bytes(L, 0xff)); 
    for (size_t b = 0; b < 8 * L; b++) { Bytes z(L, 0), f(L, 0xff), x = base; z[b / 8] |= 1 << b % 8; f[b / 8] ^= 1 << b % 8; x[b / 8] ^= 1 << b % 8; go(x); if (deep || o.cost < 3 || b % 3 == 0) go(z); if (deep || o.cost < 3 || b % 3 == 1) go(f); }
    for (size_t b = 1; b < 8 * L; b += deep || o.cost < 3 ? 1 : 5) { Bytes z(L, 0), y(L, 0xff); for (size_t i = 0; i < b; i++) { z[i / 8] |= 1 << i % 8; y[i / 8] &= ~(1 << i % 8); } go(z); go(y); }
    for (int v = 1; v < 255; v += deep || o.cost < 2 ? 1 : 7) go(Bytes(L, v));
    if (o.cost == 0 || deep) for (size_t i = 0; i < L; i++) for (int v = 0; v < 256; v += deep || L < 40 ? 1 : 15) { Bytes x = base; x[i] = v; go(x); }
  }
  static const uint32_t W[] = {0, 1, 2, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x12345678};
  if (o.family == 2) {   // 64-bit: every low and every high 12-bit pattern
    for (uint32_t v = 0; v < (deep ? 65536u : 2048u); v++) { Bytes x(L, 0), y(L, 0xff); x[0] = v; x[1] = v >> 8; y[L - 1] = v; y[L - 2] = v >> 8; go(x); go(y); }
  }
  if (o.family == 1 || o.family == 3) {   // every tuple of edge words
    size_t n = L / 4, k = n <= 4 ? 8 : deep ? 6 : 4, tot = 1; for (size_t i = 0; i < n; i++) tot *= k; static const uint32_t W4[] = {0, 1, 0x80000000, 0xffffffff, 0x7fffffff, 2};
    for (size_t x = 0; x < tot; x++) { Bytes s(L); size_t y = x; for (size_t i = 0; i < n; i++) { put32(s, i, n <= 4 ? W[y % k] : W4[y % k]); y /= k; } go(s); if (L % 4) { s[L - 1] = 1; go(s); } }
  }
  if (o.family == 4 || o.family == 5) {   // field values around 0, p, 2p, 2^255, 2^256 and word boundaries
    std::vector<Bytes> V; auto add = [&](Bytes b, int d) { int carry = d; for (int i = 0; i < 32; i++) { int x = b[i] + carry; carry = x >> 8; b[i] = x & 255; } V.push_back(b); };
    Bytes z(32, 0), p(32, 0xff), q(32, 0xff), h(32, 0); p[0] = 0xed; p[31] = 0x7f; q[0] = 0xda; h[31] = 0x80;
    for (int d = -3; d <= 3; d++) { if (d >= 0) add(z, d); add(p, d); add(q, d); add(h, d); add(z, 38 + d); } for (int d = 0; d < 4; d++) add(Bytes(32, 0xff), -d);
    for (int w = 1; w < 8; w++) { Bytes e(32, 0); e[4 * w] = 1; V.push_back(e); add(e, -1); Bytes f(32, 0xff); f[4 * w] = 0xfe; V.push_back(f); } for (int v = 1; v < 255; v += 23) V.push_back(Bytes(32, v));
    if (o.family == 5) for (auto& a : V) go(a); else for (auto& a : V) for (auto& b : V) { Bytes s = a; s.insert(s.end(), b.begin(), b.end()); go(s); }
  }
  if (part == 0) c.sample(mc::fmt("%s: %llu secrets, %llu observable steps each, all alike", o.name, (unsigned long long)id, (unsigned long long)t.events));
}
static mc::Options build(int tier) {
  mc::Options o; o.as_limit_mb = 0; if (readlink("/proc/self/exe", exePath, sizeof exePath - 1) < 0) exePath[0] = 0;
  const auto& P = ctOps();
  for (int cost = 3; cost >= 0; cost--) for (size_t i = 0; i < P.size(); i++) if (P[i].cost == cost) { int parts = cost == 3 ? 8 : cost == 2 ? 4 : 1; for (int p = 0; p < parts; p++) o.units.push_back({mc::fmt("%s #%d", P[i].name, p), [&P, i, p, parts, tier](Ctx& c) { explore(c, P[i], tier == 1, p, parts); }}); }
  o.rule = "per operation: the secrets zero, all ones, every single bit set, cleared and flipped, every run of ones and zeros from either end, every repeated byte, every value of every byte; every tuple of edge words for the big-number operations up to 96 bits, every pair of field values around 0, p, 2p, 2^255, 2^256; 64-bit exponents and messages with every low and high 11-bit (thorough: 16-bit) pattern; each execution's complete trace of basic blocks, load and store addresses, copies, comparisons and allocations compared with that of a reference secret";
  o.assumptions = {"the trace is that of the code as optimised by the compiler (clang -O2) before instruction selection: a branch the code generator introduces for a select, and the timing of single instructions, are not seen", "AES and carry-less multiply instructions take constant time", "the C library's memcmp is taken to stop at the first difference; memcpy and memset depend on their sizes and addresses only"};
  return o;
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
