// Exhaustive-exploration driver shared by all checks.
// A harness registers "units" (disjoint parts of the space to explore). Worker processes take units from a queue;
// every case announces its coordinates in shared memory before it touches the code under test, so that a crash,
// a sanitizer report, a runaway allocation or a hang is attributed to the exact case and becomes a finding.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <span>
#include <stdexcept>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

using Bytes = std::vector<uint8_t>;

inline std::string hex(std::span<const uint8_t> d, size_t max = 96) {
  std::string s; char b[4];
  for (size_t i = 0; i < d.size() && i < max; i++) { snprintf(b, sizeof b, "%02x", d[i]); s += b; }
  if (d.size() > max) s += "...(" + std::to_string(d.size()) + " bytes)";
  return s;
}
inline std::string fmt(const char* f, ...) {
  va_list ap; va_start(ap, f); char buf[2048]; vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;
}
inline Bytes bytes(std::string_view s) { return Bytes(s.begin(), s.end()); }

struct Slot {
  std::atomic<uint64_t> beat;
  std::atomic<int> unit;
  uint64_t coord[8];
  int ncoord;
  char desc[1536];
};
struct Rec { char unit[96]; char key[96]; char text[1800]; };
struct Shared {
  std::atomic<uint64_t> next, states, transitions, traces, extra[8];
  std::atomic<int> nfail, nknown, nsample, unitsDone;
  Rec fails[32], knowns[32];
  char samples[24][512];
  Slot slot[64];
};

struct Stop {};

inline Shared* g_sh = nullptr;

struct Ctx {
  int tier = 0;               // 0 quick, 1 thorough
  int worker = 0;
  std::string unitName;
  uint64_t st = 0, tr = 0, tc = 0;
  Slot& slot() { return g_sh->slot[worker]; }
  bool thorough() const { return tier == 1; }
  // announce the case about to run
  template <typename... T> void at(T... c) {
    Slot& s = slot(); s.ncoord = 0; s.desc[0] = 0;
    ((s.coord[s.ncoord++] = (uint64_t)c), ...);
    s.beat.fetch_add(1, std::memory_order_relaxed);
  }
  void desc(const char* f, ...) __attribute__((format(printf, 2, 3))) {
    Slot& s = slot(); s.ncoord = 0;
    va_list ap; va_start(ap, f); vsnprintf(s.desc, sizeof s.desc, f, ap); va_end(ap);
    s.beat.fetch_add(1, std::memory_order_relaxed);
  }
  void beat() { slot().beat.fetch_add(1, std::memory_order_relaxed); }
  void states(uint64_t n = 1) { st += n; }
  void trans(uint64_t n = 1) { tr += n; }
  void trace(uint64_t n = 1) { tc += n; }
  void flush() { g_sh->states += st; g_sh->transitions += tr; g_sh->traces += tc; st = tr = tc = 0; }
  static void put(char* d, size_t n, const std::string& s) { snprintf(d, n, "%s", s.c_str()); }
  std::string where() {
    Slot& s = slot(); std::string w = s.desc;
    if (s.ncoord) { w += "("; for (int i = 0; i < s.ncoord; i++) w += (i ? "," : "") + std::to_string(s.coord[i]); w += ")"; }
    return w;
  }
  void fail(const std::string& msg) {
    int i = g_sh->nfail.fetch_add(1);
    if (i < 32) { Rec& r = g_sh->fails[i]; put(r.unit, sizeof r.unit, unitName); r.key[0] = 0; put(r.text, sizeof r.text, msg + "  [case " + where() + "]"); }
    throw Stop{};
  }
  // a deviation that belongs to a named finding class; the driver decides whether it is listed
  void known(const std::string& key, const std::string& msg) {
    int n = std::min(g_sh->nknown.load(), 32);
    for (int i = 0; i < n; i++) if (key == g_sh->knowns[i].key) return;
    int i = g_sh->nknown.fetch_add(1);
    if (i < 32) { Rec& r = g_sh->knowns[i]; put(r.unit, sizeof r.unit, unitName); put(r.key, sizeof r.key, key); put(r.text, sizeof r.text, msg + "  [case " + where() + "]"); }
  }
  void sample(const std::string& s) {
    int i = g_sh->nsample.fetch_add(1);
    if (i < 24) put(g_sh->samples[i], 512, unitName + ": " + s);
  }
  // compare helpers
  void eq(std::span<const uint8_t> got, std::span<const uint8_t> want, const char* what) {
    if (got.size() != want.size() || (got.size() && memcmp(got.data(), want.data(), got.size())))
      fail(std::string(what) + ": got " + hex(got) + " want " + hex(want));
  }
  void eqs(const std::string& got, const std::string& want, const char* what) {
    if (got != want) fail(std::string(what) + ": got '" + got.substr(0, 400) + "' want '" + want.substr(0, 400) + "'");
  }
  void equ(uint64_t got, uint64_t want, const char* what) {
    if (got != want) fail(std::string(what) + ": got " + std::to_string(got) + " want " + std::to_string(want));
  }
  void require(bool ok, const char* what) { if (!ok) fail(what); }
};

struct Unit { std::string name; std::function<void(Ctx&)> fn; };

struct Options {
  std::vector<Unit> units;
  std::string rule;           // how the space is made
  size_t as_limit_mb = 4096;  // address-space limit per worker, 0: none (sanitizer builds)
  int hang_s = 150;           // no announced progress for this long: non-termination
  bool exhaustive = true;
  std::vector<std::string> assumptions;
};

inline std::string jesc(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

inline void run_unit(const Options& opt, int ui, int worker, int tier) {
  Ctx c; c.tier = tier; c.worker = worker; c.unitName = opt.units[ui].name;
  Slot& s = g_sh->slot[worker];
  s.unit = ui; s.desc[0] = 0; s.ncoord = 0; s.beat++;
  try { opt.units[ui].fn(c); }
  catch (Stop&) {}
  catch (std::exception& e) { try { c.fail(std::string("unexpected exception: ") + e.what()); } catch (Stop&) {} }
  catch (...) { try { c.fail("unexpected non-standard exception"); } catch (Stop&) {} }
  c.flush();
  g_sh->unitsDone++;
  s.unit = -1; s.beat++;
}

inline int run(int argc, char** argv, std::function<Options(int tier)> build) {
  int tier = 0; std::string out, only; int nworkers = (int)sysconf(_SC_NPROCESSORS_ONLN);
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--thorough") tier = 1;
    else if (a == "--out" && i + 1 < argc) out = argv[++i];
    else if (a == "--unit" && i + 1 < argc) only = argv[++i];
    else if (a == "--workers" && i + 1 < argc) nworkers = atoi(argv[++i]);
  }
  if (nworkers < 1) nworkers = 1;
  if (nworkers > 16) nworkers = 16;
  g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (g_sh) Shared();
  Options opt = build(tier);
  if (!only.empty()) {
    std::vector<Unit> u; for (auto& x : opt.units) if (x.name == only) u.push_back(x);
    opt.units = u;
  }
  int N = (int)opt.units.size();
  auto t0 = std::chrono::steady_clock::now();
  fflush(stdout);
  auto spawn = [&](int w) -> pid_t {
    g_sh->slot[w].unit = -1;
    pid_t p = fork();
    if (p == 0) {
      int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
      if (opt.as_limit_mb) { struct rlimit r = {opt.as_limit_mb << 20, opt.as_limit_mb << 20}; setrlimit(RLIMIT_AS, &r); }
      struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
      while (true) {
        if (g_sh->nfail >= 8) break;
        uint64_t i = g_sh->next.fetch_add(1);
        if (i >= (uint64_t)N) break;
        run_unit(opt, (int)i, w, tier);
      }
      fflush(stderr);
      _exit(0);
    }
    return p;
  };
  struct W { pid_t pid = 0; uint64_t beat = 0; std::chrono::steady_clock::time_point since; bool killed = false; };
  std::vector<W> ws(nworkers);
  for (int w = 0; w < nworkers; w++) { ws[w].pid = spawn(w); ws[w].since = t0; }
  int live = nworkers;
  while (live > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    auto now = std::chrono::steady_clock::now();
    if (p > 0) {
      for (int w = 0; w < nworkers; w++) if (ws[w].pid == p) {
        bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        live--; ws[w].pid = 0;
        if (bad) {
          Ctx c; c.worker = w; int ui = g_sh->slot[w].unit; c.unitName = ui >= 0 ? opt.units[ui].name : "?";
          std::string why = ws[w].killed ? "does not terminate (no progress for " + std::to_string(opt.hang_s) + " s)"
            : WIFSIGNALED(st) ? std::string("crashed: ") + strsignal(WTERMSIG(st)) : "aborted (exit " + std::to_string(WEXITSTATUS(st)) + ", memory-safety report or runaway allocation)";
          try { c.fail(why); } catch (Stop&) {}
          ws[w].killed = false;
          if (g_sh->nfail < 8 && g_sh->next < (uint64_t)N) { ws[w].pid = spawn(w); ws[w].since = now; ws[w].beat = 0; live++; }
        }
      }
      continue;
    }
    for (int w = 0; w < nworkers; w++) if (ws[w].pid) {
      uint64_t b = g_sh->slot[w].beat;
      if (b != ws[w].beat) { ws[w].beat = b; ws[w].since = now; }
      else if (g_sh->slot[w].unit >= 0 && std::chrono::duration<double>(now - ws[w].since).count() > opt.hang_s) { ws[w].killed = true; kill(ws[w].pid, SIGKILL); ws[w].since = now; }
    }
    usleep(2000);
  }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  int nf = std::min<int>(g_sh->nfail, 32), nk = std::min<int>(g_sh->nknown, 32), ns = std::min<int>(g_sh->nsample, 24);
  bool complete = g_sh->unitsDone == N;
  std::string j = "{\"states\":" + std::to_string(g_sh->states.load()) + ",\"transitions\":" + std::to_string(g_sh->transitions.load()) +
    ",\"traces\":" + std::to_string(g_sh->traces.load()) + ",\"units\":" + std::to_string(N) + ",\"units_done\":" + std::to_string(g_sh->unitsDone.load()) +
    ",\"exhaustive\":" + (opt.exhaustive && complete ? "true" : "false") + ",\"wall\":" + fmt("%.3f", wall) + ",\"rule\":" + jesc(opt.rule) + ",\"assumptions\":[";
  for (size_t i = 0; i < opt.assumptions.size(); i++) j += (i ? "," : "") + jesc(opt.assumptions[i]);
  j += "],\"samples\":[";
  for (int i = 0; i < ns; i++) j += (i ? "," : "") + jesc(g_sh->samples[i]);
  auto recs = [&](Rec* r, int n) { std::string s; for (int i = 0; i < n; i++) s += (i ? "," : "") + std::string("{\"unit\":") + jesc(r[i].unit) + ",\"key\":" + jesc(r[i].key) + ",\"text\":" + jesc(r[i].text) + "}"; return s; };
  j += "],\"failures\":[" + recs(g_sh->fails, nf) + "],\"known\":[" + recs(g_sh->knowns, nk) + "]}\n";
  if (out.empty()) fputs(j.c_str(), stdout);
  else { FILE* f = fopen(out.c_str(), "w"); if (!f) return 3; fputs(j.c_str(), f); fclose(f); }
  if (!complete && nf == 0) return 3;
  return nf ? 1 : 0;
}

// deterministic content patterns
inline Bytes pattern(int kind, size_t n) {
  Bytes b(n);
  uint32_t x = 0x9e3779b9u + (uint32_t)kind * 0x85ebca6bu;
  for (size_t i = 0; i < n; i++) {
    switch (kind) {
      case 0: b[i] = 0; break;
      case 1: b[i] = 0xff; break;
      case 2: b[i] = (uint8_t)(i + 1); break;
      case 3: b[i] = (uint8_t)(i & 1 ? 0x80 : 0x01); break;
      default: x ^= x << 13; x ^= x >> 17; x ^= x << 5; b[i] = (uint8_t)(x >> 11); break;
    }
  }
  return b;
}

}  // namespace mc
