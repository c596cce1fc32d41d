// M02: memory behaviour of every operation outside the parsers. Built twice: with ASan+UBSan (exact heap buffers), and
// plain (read-only guard-paged inputs, two fills of fresh memory, balance of allocations).
#include "mem_cases.hpp"
#include <malloc.h>
#include <new>
#ifdef SAN
static const bool SANITIZED = true;
#else
static const bool SANITIZED = false;
#endif
#ifndef SAN
static unsigned char gFill = 0; static long gLive = 0; static size_t gBytes = 0;
static void* take(size_t n, size_t al) { void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, gFill, n); gLive++; return p; }
static void give(void* p) { if (!p) return; gLive--; memset(p, (unsigned char)~gFill, malloc_usable_size(p)); free(p); }
void* operator new(size_t n) { return take(n, 0); }
void* operator new[](size_t n) { return take(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { give(p); }
__attribute__((noinline)) static void paintStack(unsigned char f) { volatile unsigned char b[160 * 1024]; for (size_t i = 0; i < sizeof b; i++) b[i] = f; asm volatile("" ::"r"(b) : "memory"); }
#endif

// page-guarded slots: data at the end or at the start of its pages
static const size_t kSlot = 32 * 4096, kPages = 30 * 4096;
struct Slots {
  uint8_t* base[12]; uint8_t* big = nullptr;
  Slots() { for (auto& b : base) { b = (uint8_t*)mmap(nullptr, kSlot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(b + 4096, kPages, PROT_READ | PROT_WRITE); } }
  uint8_t* at(int s, size_t len, bool end) { if (len > kPages) abort(); return base[s] + 4096 + (end ? kPages - len : 0); }
  void ro(int s, bool on) { mprotect(base[s] + 4096, kPages, on ? PROT_READ : PROT_READ | PROT_WRITE); }
};
static Slots* G;
static std::string run1(const Family& f, const std::vector<Bytes>& in, const std::vector<size_t>& n, int mode, size_t shift = 0) {
  Args a; a.n = n; std::vector<std::unique_ptr<uint8_t[]>> keep;
#ifdef SAN
  std::vector<uint8_t*> raw; for (auto& b : in) { uint8_t* q = (uint8_t*)malloc(b.size() + shift); uint8_t* p = q + shift; if (b.size()) memcpy(p, b.data(), b.size()); raw.push_back(q); a.in.push_back(S(p, b.size())); }
  a.out = [&](size_t slot, size_t len) { uint8_t* p = (uint8_t*)malloc(len); raw.push_back(p); if (len) memset(p, mode ? 0x5a : 0xa5, len); return std::span<uint8_t>(p, len); };
#else
  bool end = mode != 1; for (size_t i = 0; i < in.size(); i++) { G->ro(i, false); uint8_t* p = G->at(i, in[i].size(), end); if (in[i].size()) memcpy(p, in[i].data(), in[i].size()); G->ro(i, true); a.in.push_back(S(p, in[i].size())); }
  a.out = [&](size_t slot, size_t len) { uint8_t* p = G->at(8 + slot, len, end); if (end) memset(p - std::min<size_t>(64, p - G->base[8 + slot] - 4096), 0xc3, std::min<size_t>(64, p - G->base[8 + slot] - 4096)); else memset(p + len, 0xc3, std::min<size_t>(64, kPages - len)); memset(p, mode == 2 ? 0x11 : 0xee, len); return std::span<uint8_t>(p, len); };
#endif
  std::string r;
  try { r = f.fn(a); } catch (std::exception& e) { r = std::string("threw ") + e.what(); } catch (Broken& e) { r = "!" + e.why; }
#ifdef SAN
  for (size_t i = 0; i < in.size(); i++) if (in[i].size() && memcmp(raw[i] + shift, in[i].data(), in[i].size())) r = "!input " + std::to_string(i) + " was changed";
  for (auto* p : raw) free(p);
#endif
  return r;
}
static void one(mc::Ctx& c, const Family& f, const std::vector<Bytes>& in, const std::vector<size_t>& n) {
  std::string d = f.name; d += ", lengths"; for (auto& b : in) d += " " + std::to_string(b.size()); d += "; numbers"; for (auto x : n) d += " " + std::to_string(x); if (in.size() && in[0].size() <= 8) d += "; first input " + mc::hex(in[0]); c.desc("%s", d.c_str());
#ifdef SAN
  std::string r = run1(f, in, n, 0); if (!r.empty() && r[0] == '!') c.fail(r.substr(0, 300));
  std::string q = run1(f, in, n, 1, 1 + 2 * (in.empty() ? 0 : in[0].size() % 2)); if (q != r) c.fail("the result depends on where the inputs lie: " + q.substr(0, 200) + " / " + r.substr(0, 200));   // at odd addresses
#else
  std::string ref; long live[4];
  for (int mode = 0; mode < 4; mode++) {   // 0: warm-up; then each placement and fill
    live[mode] = gLive; gFill = mode == 1 ? 0x00 : mode == 2 ? 0xff : 0x6b; paintStack(mode == 1 ? 0xff : mode == 2 ? 0x00 : 0x94);
    std::string r = run1(f, in, n, mode); if (!r.empty() && r[0] == '!') c.fail(r.substr(0, 300)); if (mode == 0) ref = r; else if (r != ref) c.fail("the result depends on what memory held before or on where the inputs lie: " + r.substr(0, 200) + " / " + ref.substr(0, 200));
  }
  gFill = 0x6b; if (live[2] != live[1] + 0 || live[3] != live[2]) c.fail("memory is not released: live allocations " + std::to_string(live[1]) + ", " + std::to_string(live[2]) + ", " + std::to_string(live[3]));
#endif
  c.states(1); c.trans(1); c.trace(1);
}
static mc::Options build(int tier) {
  mc::Options o; families(); G = new Slots();
  for (auto& f : families()) { auto* cases = new std::vector<std::pair<std::vector<Bytes>, std::vector<size_t>>>(); f.gen(tier, [&](std::vector<Bytes> in, std::vector<size_t> n) { cases->push_back({std::move(in), std::move(n)}); });
    size_t per = 400; for (size_t k = 0; k < cases->size(); k += per) o.units.push_back({std::string(f.name) + mc::fmt("/%zu", k / per), [=, &f](mc::Ctx& c) { for (size_t i = k; i < std::min(cases->size(), k + per); i++) one(c, f, (*cases)[i].first, (*cases)[i].second); if (!k) c.sample(mc::fmt("%s: %zu input shapes", f.name, cases->size())); }}); }
  o.rule = SANITIZED ? "every operation outside the parsers for every enumerated combination of input lengths, wrong sizes included, on exact-size heap buffers, aligned and at odd addresses, under AddressSanitizer, UndefinedBehaviorSanitizer and library assertions; inputs compared afterwards"
                     : "the same cases in the plain build: inputs read-only between unmapped pages, placed against the upper and the lower one; three runs with different contents of fresh heap and stack memory compared; live allocations balanced";
  if (SANITIZED) o.as_limit_mb = 0; o.hang_s = 200;
  o.assumptions = {"the parsers are A01/A04", "contents beyond the patterns do not change which memory is touched (S01 shows it for the operations on secrets)"};
  return o;
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
