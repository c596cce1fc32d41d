// M04: every allocation of every operation fails once. The call must then end by an exception or with its usual result;
// it may not give another result, lose memory, or leave anything behind that changes later calls.
#include "mem_cases.hpp"
#include "m_fix.hpp"
#include <ostream>
#include "caligo/Truststore.h"
#include <new>
#include <malloc.h>
static long gFailAt = -1, gCount = 0, gLive = 0; static bool gArmed = false; static size_t gFrom = 0;
static bool denied() { if (!gArmed) return false; long k = gCount++; return k == gFailAt || (gFrom && gFailAt >= 0 && k >= gFailAt && k < gFailAt + (long)gFrom); }
static void* take(size_t n, size_t al) { if (denied()) throw std::bad_alloc(); void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); gLive++; return p; }
static void* takeNo(size_t n) noexcept { try { return take(n, 0); } catch (...) { return nullptr; } }
static void give(void* p) { if (!p) return; gLive--; memset(p, 0xdb, std::min<size_t>(malloc_usable_size(p), 4096)); free(p); }
void* operator new(size_t n) { return take(n, 0); }
void* operator new[](size_t n) { return take(n, 0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return takeNo(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return takeNo(n); }
void* operator new(size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { give(p); }

// an action writes its result into a fixed buffer; threw: it ended by an exception
struct Out { char kind; int n; char b[6000]; };      // kind: 'r' result, 'e' exception of the library, 'a' bad_alloc
typedef std::function<std::string()> Act;
static void perform(const Act& f, Out& o) {
  o.kind = '?'; o.n = 0; auto put = [&](const char* s, size_t n) { o.n = (int)std::min(n, sizeof o.b); memcpy(o.b, s, o.n); };
  try { gArmed = true; std::string r = f(); gArmed = false; o.kind = 'r'; put(r.data(), r.size()); }
  catch (std::bad_alloc&) { gArmed = false; o.kind = 'a'; }
  catch (std::exception& e) { gArmed = false; o.kind = 'e'; put(e.what(), strlen(e.what())); }
  catch (...) { gArmed = false; o.kind = 'x'; }
}
static bool same(const Out& a, const Out& b) { return a.kind == b.kind && a.n == b.n && !memcmp(a.b, b.b, a.n); }
struct Report { int done, bad; long allocs, points; char msg[1600]; };
static Report* R;
static void say(const char* f, ...) { va_list ap; va_start(ap, f); vsnprintf(R->msg, sizeof R->msg, f, ap); va_end(ap); R->bad = 1; }
static std::string show(const Out& o) { return o.kind == 'a' ? "an allocation failure" : std::string(o.kind == 'e' ? "exception " : "result ") + std::string(o.b, std::min(o.n, 250)); }
// form: the result contains random draws, only its shape is compared
static bool sameForm(const Out& a, const Out& b) { if (a.kind != b.kind || a.n != b.n) return false; std::string x(a.b, a.n), y(b.b, b.n); size_t i = x.find("draws:"); return i == y.find("draws:") && x.substr(0, i) == y.substr(0, i); }
static void child(mc::Ctx& c, const std::function<void()>& f) {
  if (!R) R = (Report*)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(R, 0, sizeof *R); pid_t p = fork(); if (p == 0) { alarm(100); f(); R->done = 1; _exit(0); } int st; while (waitpid(p, &st, 0) < 0) {} c.beat();
  if (R->bad) c.fail(R->msg); if (!R->done) c.fail(mc::fmt("the process does not survive (status %x) when allocation %ld fails", st, R->points));
}
static Out want, got, again;
// warm: everything the operation sets up on first use exists; the balance of allocations must be exact
static void warm(mc::Ctx& c, const Act& f, bool form, size_t from, bool swallow, int stripe = 0, int stripes = 1) {
  child(c, [&] {
    gFailAt = -1; perform(f, want); perform(f, want); gCount = 0; long l0 = gLive; perform(f, want); R->allocs = gCount; if (gLive != l0) { say("lost %ld allocations without any failure", gLive - l0); return; }
    for (long k = stripe; k < R->allocs; k += stripes) {
      R->points = k; gCount = 0; gFailAt = k; gFrom = from; long before = gLive; perform(f, got); long after = gLive; gFailAt = -1; gCount = 0; if (stripes == 1 || k + stripes >= R->allocs || k % 5 == stripe % 5) perform(f, again); else again = want;
      if (got.kind == 'x') return say("allocation %ld of %ld fails: something else than a std::exception is thrown", k, R->allocs);
      if (got.kind == 'r' && !swallow && !(form ? sameForm(got, want) : same(got, want))) return say("allocation %ld of %ld fails: the call gives another result instead of reporting it: %s / %s", k, R->allocs, show(got).c_str(), show(want).c_str());
      if (got.kind == 'e' && !same(got, want)) return say("allocation %ld of %ld fails: reported as %s", k, R->allocs, show(got).c_str());
      if (after != before) return say("allocation %ld of %ld fails: %ld allocations are never released", k, R->allocs, after - before);
      if (!(form ? sameForm(again, want) : same(again, want))) return say("after allocation %ld of %ld failed, the same call gives %s / %s", k, R->allocs, show(again).c_str(), show(want).c_str());
    }
  });
  c.states(R->allocs + 1); c.trans(2 * R->allocs + 3); c.trace(R->allocs + 1);
}
// cold: the failure happens in a process that has not run the operation before
static void cold(mc::Ctx& c, const Act& f, bool form, bool swallow, int stripe = 0, int stripes = 1, long every = 1) {
  static Out* w = nullptr; if (!w) w = (Out*)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  child(c, [&] { gFailAt = -1; gCount = 0; perform(f, *w); R->allocs = gCount; }); long n = R->allocs;
  for (long k = stripe; k < n; k += k < 100 || k + 100 > n ? stripes : every * stripes) child(c, [&] {
    R->points = k; gCount = 0; gFailAt = k; gFrom = 0; perform(f, got); gFailAt = -1; if (stripes == 1 || k % 5 == 0) perform(f, again); else again = *w;
    if (got.kind == 'x' || (got.kind == 'r' && !swallow && !(form ? sameForm(got, *w) : same(got, *w)))) return say("first use, allocation %ld of %ld fails: the call gives another result: %s / %s", k, n, show(got).c_str(), show(*w).c_str());
    if (got.kind == 'e' && !same(got, *w)) return say("first use, allocation %ld of %ld fails: reported as %s", k, n, show(got).c_str());
    if (!(form ? sameForm(again, *w) : same(again, *w))) return say("after allocation %ld of %ld failed in the first use, the same call gives %s / %s", k, n, show(again).c_str(), show(*w).c_str());
  });
  c.states(n + 1); c.trans(2 * n + 1); c.trace(n);
}
#include "h_oom_objects.hpp"
static mc::Options build(int tier) {
  mc::Options o; makeFixtures(); const auto& A = ops(); families(); objects(o, tier);
  for (auto& a : A) for (int v : {0, 1}) { if (std::string(a.name) == "store-instance" && v) continue; std::string nm = a.name; bool swallow = nm == "cert-bad"; auto* pa = &a;   // cert-bad itself turns exceptions into a result
    bool big = a.cost >= 3; if (big && v && !tier) continue; int m = big ? 8 : 1;
    for (int st = 0; st < m; st++) {
      o.units.push_back({mc::fmt("%s[%d] first use %d", a.name, v, st), [=](mc::Ctx& c) { c.desc("%s variant %d", pa->name, v); cold(c, [=] { return pa->fn(v); }, pa->random, swallow, st, m, nm == "store-instance" ? tier ? 7 : 53 : 1); }});
      if (nm != "store-instance") o.units.push_back({mc::fmt("%s[%d] %d", a.name, v, st), [=](mc::Ctx& c) { c.desc("%s variant %d", pa->name, v); warm(c, [=] { return pa->fn(v); }, pa->random, 0, swallow, st, m); if (!big || tier) warm(c, [=] { return pa->fn(v); }, pa->random, 1000000, swallow, st, m); if (!v && !st) c.sample(mc::fmt("%s: each of its %ld allocations fails once, and from each on all fail", pa->name, R->allocs)); }});
    }
  }
  for (auto& f : families()) {
    auto* cases = new std::vector<std::pair<std::vector<Bytes>, std::vector<size_t>>>(); f.gen(0, [&](std::vector<Bytes> in, std::vector<size_t> n) { size_t z = 0; for (auto& b : in) z += b.size(); for (size_t x : n) if (x < 1u << 20) z += x / 8; if (z < 3000) cases->push_back({std::move(in), std::move(n)}); });
    std::string nm = f.name; bool slow = nm.find("rsa") == 0 || nm.find("sign") == 0 || nm == "x25519" || nm.find("montgomery") == 0 || nm == "prime"; size_t want = (slow ? 8 : 40) * (tier ? 5 : 1), step = std::max<size_t>(1, cases->size() / want); const Family* pf = &f;
    for (size_t part = 0; part < 2; part++) o.units.push_back({nm + mc::fmt(" shapes %zu", part), [=](mc::Ctx& c) { for (size_t i = part * step; i < cases->size(); i += 2 * step) { auto& [in, n] = (*cases)[i]; std::string d = pf->name; d += ", lengths"; for (auto& b : in) d += " " + std::to_string(b.size()); d += "; numbers"; for (auto x : n) d += " " + std::to_string(x); c.desc("%s", d.c_str());
      std::vector<std::vector<uint8_t>> buf(4); for (auto& b : buf) b.resize(40000); Args a; for (auto& b : in) a.in.push_back(S(b)); a.n = n; a.out = [&](size_t s, size_t len) { return std::span<uint8_t>(buf[s].data(), len); };
      warm(c, [&] { return pf->fn(a); }, false, 0, false); } }});
  }
  o.rule = "the 47 operations covering every part of the library (parsers, store and keys included), input shapes of every operation family, and long-lived objects: each allocation in turn fails once, and all from each one on; in a process using the operation for the first time and in one that has used it; then the call is repeated";
  o.assumptions = {"allocations of the C++ runtime through operator new are included, those through malloc are not"}; return o;
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
