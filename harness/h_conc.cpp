// M01: every interleaving of pairs and triples of library operations on objects of their own
// M05 (-DSHARED): the same on objects that all of them read
#include <sys/mman.h>
#include "mc.hpp"
#include "mcsched.h"
#include "m_fix.hpp"
using mc::Bytes; using mc::Ctx;
static SchedShared* S;
static std::vector<int> g_ops;
static void body(int t) {
  std::string r; try { r = ops()[g_ops[t]].fn(t); } catch (std::exception& e) { r = std::string("!threw: ") + e.what(); }
  S->outLen[t] = (int)std::min<size_t>(r.size(), SCHED_OUT); for (int i = 0; i < S->outLen[t]; i++) S->out[t][i] = r[i];
}
static std::string out(int t) { return std::string(S->out[t], S->outLen[t]); }
static std::string name(const std::vector<int>& o) { std::string s; for (int i : o) s += (s.empty() ? "" : "+") + std::string(ops()[i].name); return s; }
static std::string sym(uint64_t pc) {
  char exe[400] = {}; if (readlink("/proc/self/exe", exe, sizeof exe - 1) < 0) return "?"; FILE* p = popen(mc::fmt("addr2line -Cfsp -e %s 0x%llx 2>/dev/null", exe, (unsigned long long)pc - 1).c_str(), "r"); if (!p) return "?";
  char b[512] = "?"; if (!fgets(b, sizeof b, p)) {} pclose(p); std::string s = b; while (s.size() && s.back() == '\n') s.pop_back(); if (s.size() > 160) s = s.substr(0, 60) + ".." + s.substr(s.size() - 98); return s;
}
static std::string schedule() { std::string s; int prev = -1, n = 0; for (int i = 0; i <= S->nev; i++) { int t = i < S->nev ? S->ev[i].tid : -1; if (t == prev) { n++; continue; } if (prev >= 0 && s.size() < 300) s += mc::fmt("T%d*%d ", prev, n); prev = t; n = 1; } return s; }
// one execution in a fresh process, forced along the prefix
static void execute(Ctx& c, const std::vector<int>& o, const std::vector<uint8_t>& prefix) {
  S->nprefix = (int)std::min<size_t>(prefix.size(), SCHED_MAXE); for (int i = 0; i < S->nprefix; i++) S->prefix[i] = prefix[i];
  S->nev = S->race = S->deadlock = S->overflow = S->diverged = S->finished = 0; S->accesses = S->syncs = 0; for (int t = 0; t < SCHED_NT; t++) S->outLen[t] = -1;
  g_ops = o; pid_t p = fork(); if (p == 0) { alarm(100); sched_run(S, (int)o.size(), body); _exit(0); }
  int st; while (waitpid(p, &st, 0) < 0) {} c.beat(); c.st++; c.tr += S->nev; c.tc++;
  if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail(name(o) + (WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? " does not finish" : std::string(" crashed: ") + strsignal(WTERMSIG(st))) : " aborted") + " under schedule " + schedule());
  if (S->race) { static const char* K[] = {"read", "write", "atomic read", "atomic write"}; c.fail(name(o) + mc::fmt(": unsynchronised %s by thread %d at ", K[S->raceKind[0]], S->raceTid[0]) + sym(S->racePc[0]) + mc::fmt(" and %s by thread %d at ", K[S->raceKind[1]], S->raceTid[1]) + sym(S->racePc[1]) + " of the same memory; schedule " + schedule()); }
  if (S->deadlock) c.fail(name(o) + ": threads wait for each other for ever under schedule " + schedule());
  if (S->overflow) c.fail(name(o) + ": no end after " + std::to_string(S->nev) + " synchronisation steps under schedule " + schedule());
  if (S->diverged) c.fail(name(o) + ": not reproducible: the same choices led to different synchronisation steps");
}
static std::string alone(Ctx& c, int op, int variant) {   // result of the operation on its own, in a fresh process
  static std::map<std::pair<int, int>, std::string> m; auto it = m.find({op, variant}); if (it != m.end()) return it->second;
  static int vOp, vVar; vOp = op; vVar = variant; S->outLen[0] = -1; S->nprefix = S->nev = 0; pid_t p = fork(); if (p == 0) { alarm(100); struct L { static void go(int) { std::string r; try { r = ops()[vOp].fn(vVar); } catch (std::exception& e) { r = std::string("!threw: ") + e.what(); } S->outLen[0] = (int)std::min<size_t>(r.size(), SCHED_OUT); for (int i = 0; i < S->outLen[0]; i++) S->out[0][i] = r[i]; } }; sched_run(S, 1, L::go); _exit(0); }
  int st; while (waitpid(p, &st, 0) < 0) {} if (!WIFEXITED(st) || WEXITSTATUS(st) || S->outLen[0] < 0) c.fail(std::string(ops()[op].name) + " fails on its own"); std::string r = out(0); m[{op, variant}] = r; return r;
}
static void judge(Ctx& c, const std::vector<int>& o) {
  std::set<std::string> draws; for (size_t t = 0; t < o.size(); t++) {
    std::string r = out((int)t); if (S->outLen[t] < 0) c.fail(name(o) + mc::fmt(": thread %zu gave no result", t)); if (r.find('!') != std::string::npos && alone(c, o[t], (int)t).find('!') == std::string::npos) c.fail(name(o) + mc::fmt(": thread %zu: ", t) + r.substr(0, 300) + " under schedule " + schedule());
    size_t d = r.find("draws:"); if (d != std::string::npos) { for (size_t i = d + 6; i + 16 <= r.size(); i += 16) if (!draws.insert(r.substr(i, 16)).second) c.fail(name(o) + ": the value " + r.substr(i, 16) + " was drawn twice under schedule " + schedule()); }
    if (!ops()[o[t]].random) { const std::string& w = alone(c, o[t], (int)t); if (r != w) c.fail(name(o) + mc::fmt(": thread %zu got a result it does not get when run alone: ", t) + r.substr(0, 200) + " want " + w.substr(0, 200) + " under schedule " + schedule()); }
  }
}
struct Node { uint8_t enabled, chosen; unsigned done, todo; };
static void relevant(std::vector<Node>& nodes, int nt) {   // partial-order reduction: which earlier choices have to be revised
  struct VC { int c[SCHED_NT] = {}; }; struct Last { int rd[SCHED_NT], wr[SCHED_NT], lk[SCHED_NT]; VC r, w; Last() { for (int i = 0; i < SCHED_NT; i++) rd[i] = wr[i] = lk[i] = -1; } };
  std::map<uint64_t, Last> la; VC cl[SCHED_NT]; std::vector<int> seq(S->nev); int cnt[SCHED_NT] = {};
  auto join = [](VC& a, const VC& b) { for (int i = 0; i < SCHED_NT; i++) a.c[i] = std::max(a.c[i], b.c[i]); };
  for (int i = 0; i < S->nev; i++) { const SchedEv& e = S->ev[i]; int p = e.tid; seq[i] = ++cnt[p]; if (e.kind == EV_START) { cl[p].c[p] = seq[i]; continue; } Last& L = la[e.addr];
    for (int q = 0; q < nt; q++) if (q != p) { auto consider = [&](int j) { if (j < 0 || cl[p].c[q] >= seq[j]) return; Node& n = nodes[j]; if (n.enabled >> p & 1) n.todo |= 1u << p; else n.todo |= n.enabled; };
      if (e.kind == EV_LOCK) { consider(L.lk[q]); consider(L.rd[q]); if (L.wr[q] > L.lk[q]) consider(L.wr[q]); } else if (e.kind == EV_UNLOCK) consider(L.rd[q]); else { consider(L.wr[q]); consider(L.lk[q]); if (e.kind == EV_WRITE) consider(L.rd[q]); } }
    join(cl[p], L.w); if (e.kind != EV_READ) join(cl[p], L.r); cl[p].c[p] = seq[i]; if (e.kind == EV_READ) { join(L.r, cl[p]); L.rd[p] = i; } else { join(L.w, cl[p]); if (e.kind == EV_WRITE) L.wr[p] = i; else if (e.kind == EV_LOCK) L.lk[p] = i; else L.wr[p] = L.wr[p]; }
  }
}
// full exploration with partial-order reduction; false: more than cap schedules
static bool dpor(Ctx& c, const std::vector<int>& o, size_t cap, size_t& n) {
  std::vector<Node> nodes; std::vector<uint8_t> prefix; n = 0;
  while (true) {
    if (n >= cap) return false; execute(c, o, prefix); judge(c, o); n++;
    for (int i = (int)nodes.size(); i < S->nev; i++) nodes.push_back({S->ev[i].enabled, S->ev[i].tid, 1u << S->ev[i].tid, 0});
    relevant(nodes, (int)o.size()); int k = (int)nodes.size() - 1; while (k >= 0 && !(nodes[k].todo & ~nodes[k].done)) k--; if (k < 0) return true;
    int t = __builtin_ctz(nodes[k].todo & ~nodes[k].done); nodes.resize(k + 1); nodes[k].done |= 1u << t; nodes[k].chosen = (uint8_t)t; prefix.clear(); for (auto& x : nodes) prefix.push_back(x.chosen);
  }
}
// every schedule with at most `bound` preemptions (preempting only before steps on memory several threads synchronise on)
static bool bounded(Ctx& c, const std::vector<int>& o, int bound, size_t cap, size_t& n) {
  std::vector<Node> nodes; std::vector<uint8_t> prefix; n = 0; std::set<uint64_t> shared; std::map<uint64_t, unsigned> by;
  while (true) {
    if (n >= cap) return false; execute(c, o, prefix); judge(c, o); n++; size_t grown = shared.size();
    for (int i = 0; i < S->nev; i++) if (S->ev[i].addr) { unsigned& b = by[S->ev[i].addr]; b |= 1u << S->ev[i].tid; if (b & (b - 1)) shared.insert(S->ev[i].addr); }
    for (int i = (int)nodes.size(); i < S->nev; i++) nodes.push_back({S->ev[i].enabled, S->ev[i].tid, 1u << S->ev[i].tid, 0});
    int pre = 0, last = -1; for (int i = 0; i < S->nev; i++) { Node& x = nodes[i]; bool free = last < 0 || !(x.enabled >> last & 1); if (free) x.todo = x.enabled; else if (pre < bound && (S->ev[i].tid != last || shared.count(S->ev[i].addr))) x.todo = x.enabled; if (!free && x.chosen != last) pre++; last = x.chosen; }
    if (grown != shared.size() && n == 1) {}
    int k = (int)nodes.size() - 1; while (k >= 0 && !(nodes[k].todo & ~nodes[k].done)) k--; if (k < 0) return true;
    int t = __builtin_ctz(nodes[k].todo & ~nodes[k].done); nodes.resize(k + 1); nodes[k].done |= 1u << t; nodes[k].chosen = (uint8_t)t; prefix.clear(); for (auto& x : nodes) prefix.push_back(x.chosen);
  }
}
static void explore(Ctx& c, const std::vector<int>& o, size_t cap, bool say, bool slow = false) {
  if (!S) S = (SchedShared*)mmap(nullptr, sizeof(SchedShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  c.desc("%s", name(o).c_str()); for (size_t t = 0; t < o.size(); t++) { [[maybe_unused]] std::string r = alone(c, o[t], (int)t);
#ifdef SHARED
    if (getenv("MC_SHOW")) fprintf(stderr, "%s %zu: %s\n", ops()[o[t]].name, t, r.substr(0, 150).c_str());
    if (r.find('!') != std::string::npos) throw std::runtime_error(std::string(ops()[o[t]].name) + " does not work on its own: " + r.substr(0, 200));
#endif
  }
  size_t n = 0; std::string how; if (dpor(c, o, cap, n)) how = mc::fmt("all %zu schedules (partial-order reduced)", n); else if (slow) how = mc::fmt("the first %zu schedules only", n); else { int b = 1; size_t m = 0; how = "more than the cap"; while (b < 4 && bounded(c, o, b, cap, m)) { how = mc::fmt("more than %zu schedules; all %zu with at most %d preemptions", n, m, b); b++; } }
  mc::g_sh->extra[0] += n; if (say && (n > 1 || o.size() > 2)) c.sample(name(o) + ": " + how + mc::fmt(", %d synchronisation steps and %llu shared accesses in the last one", S->nev, (unsigned long long)S->accesses));
}
#ifdef SHARED
void mShared();
static mc::Options build(int tier) {
  mc::Options o; o.as_limit_mb = 0; o.hang_s = 220;
  makeFixtures(); mShared();
  const auto& P = ops(); int N = (int)P.size(); size_t cap = tier ? 20000 : 900;
  auto stem = [](const char* n) { std::string s = n; return s.substr(0, s.find('.')); };
  for (int pass = 3; pass >= 0; pass--) for (int a = 0; a < N; a++) for (int b = a; b < N; b++) {
    int cost = std::max(P[a].cost, P[b].cost); if (cost != pass || (!tier && cost == 3 && a != b && P[a].cost < 2 && P[b].cost < 2)) continue; bool same = stem(P[a].name) == stem(P[b].name);
    o.units.push_back({name({a, b}), [=](Ctx& c) { explore(c, {a, b}, cost == 3 ? 1 : cap, same && cost < 3, cost == 3); }}); }
  // three threads: every use of one object with itself and with the other uses of it
  for (int a = 0; a < N; a++) for (int b = a; b < N; b++) if (P[a].cost <= 2 && P[b].cost <= 2 && (tier || stem(P[a].name) == stem(P[b].name))) o.units.push_back({name({a, a, b}), [=](Ctx& c) { explore(c, {a, a, b}, cap, a == b); }});
  o.rule = "all pairs of 55 uses that only read objects made beforehand (digests, texts and copies of all hashes, round keys, keys and messages, traffic secrets, numbers, Montgomery and field values, public and private keys, certificates, certificate and key texts, the trust store), each use with itself and every other, and triples on one object; every interleaving of their synchronisation steps by dynamic partial-order reduction (preemption bounds 1..3 beyond the cap); every execution in a fresh process and checked for conflicting accesses not ordered by synchronisation, deadlock and results equal to those alone";
  o.assumptions = {"data-race freedom is decided for all memory accesses compiled from the library and from the standard library headers; accesses made inside the C and C++ runtime libraries are seen only where they copy memory", "the threads run after the objects are made (no concurrent construction; M01 explores first use)", "sequentially consistent values for atomics"};
  return o;
}
#else
static mc::Options build(int tier) {
  mc::Options o; o.as_limit_mb = 0; o.hang_s = 220;
  makeFixtures();
  const auto& P = ops(); int N = (int)P.size(); size_t cap = tier ? 60000 : 900;
  auto id = [&](const char* s) { for (int i = 0; i < N; i++) if (s == std::string(P[i].name)) return i; abort(); };
  std::set<int> partners; for (auto s : {"draw-one", "cert-verify", "md5", "gcm128"}) partners.insert(id(s));
  for (int pass = 4; pass >= 0; pass--) for (int a = 0; a < N; a++) for (int b = a; b < N; b++) {
    int cost = std::max(P[a].cost, P[b].cost); if (cost != pass) continue; bool slow = P[a].cost == 3 || P[b].cost == 3, both = P[a].random && P[b].random;
    if (!tier && a != b && cost >= 3 && !partners.count(a) && !partners.count(b)) continue;   // 4096-bit private operations and the system store: a few partners only
    if (a != b && P[a].cost == 4 && P[b].cost == 3 || a != b && P[b].cost == 4 && P[a].cost == 3) continue;
    o.units.push_back({name({a, b}), [=](Ctx& c) { explore(c, {a, b}, slow ? (tier ? 12 : 1) : both ? cap : std::min<size_t>(cap, 900), both || a == b, slow); }}); }
  for (auto t : std::vector<std::vector<const char*>>{{"draw-one", "draw-one", "draw-one"}, {"draw-one", "draw-u8s", "draw-one"}, {"gf128", "gf128", "gf128"}, {"md5", "md5", "md5"}, {"sha512", "Hash(sha512)", "sha384"}, {"base64", "base64", "cert-pem"}, {"aes128", "gcm128", "gcm256"}, {"cert-der", "cert-pem", "bundle"}, {"x25519", "montgomery", "rsa"}, {"draw-one", "gf128", "gcm128"}, {"crc32", "crc32", "Hash(sha)"}})
    { std::vector<int> v; for (auto s : t) v.push_back(id(s)); o.units.push_back({name(v), [=](Ctx& c) { explore(c, v, tier ? 60000 : 3000, true); }}); }
  if (tier) for (int a = 0; a < N; a++) if (P[a].cost <= 2 && !P[a].random) o.units.push_back({name({a, a, a}), [=](Ctx& c) { explore(c, {a, a, a}, 20000, false); }});
  o.rule = "all pairs (each operation with itself and every other) and selected triples of ~47 operations covering every part of the library, each thread on its own objects; every interleaving of their synchronisation steps by dynamic partial-order reduction (every schedule with at most 1, 2, 3 preemptions where that exceeds the cap; with a 4096-bit private-key operation only the first schedules, races being found by happens-before in any of them), each execution in a fresh process so that first-use initialisation is explored; every execution checked for conflicting accesses not ordered by synchronisation, for deadlock, for results equal to those alone, and for repeated draws";
  o.assumptions = {"data-race freedom is decided for all memory accesses compiled from the library and from the standard library headers; accesses made inside the C and C++ runtime libraries are seen only where they copy memory", "sequentially consistent values for atomics (weak-memory reorderings of relaxed atomics are judged only through happens-before)", "reader-writer locks are treated as exclusive"};
  return o;
}
#endif
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
