// M03: every operation gives the result it gives in a fresh process, whatever was done before it and whatever is done
// between its steps.
#include <ucontext.h>
#include <set>
#include "m_fix.hpp"
using mc::Bytes; using mc::Ctx;
struct Call { int op, v; bool operator<(const Call& o) const { return std::tie(op, v) < std::tie(o.op, o.v); } };
static const int kVar[] = {0, 1, 20, 21, 22, 23, 24};
static std::string name(const Call& x) { return mc::fmt("%s[%d]", ops()[x.op].name, x.v); }
static std::string run(const Call& x) { try { return ops()[x.op].fn(x.v); } catch (std::exception& e) { return std::string("!threw: ") + e.what(); } }
struct Pipe { int n; char b[8192]; }; static Pipe* P;
static std::string got() { return P->n < 0 ? std::string("?") : std::string(P->b, P->n); }
// run f in a child process forked from the present state
template <class F> static bool inChild(F f) {
  if (!P) P = (Pipe*)mmap(nullptr, sizeof(Pipe), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  P->n = -1; pid_t p = fork(); if (p == 0) { alarm(100); f(); _exit(0); } int st; while (waitpid(p, &st, 0) < 0) {} return WIFEXITED(st) && !WEXITSTATUS(st);
}
static void put(const std::string& s) { int n = (int)std::min<size_t>(s.size(), sizeof P->b); memcpy(P->b, s.data(), n); P->n = n; }
static std::map<Call, std::string> aloneCache;
static std::string alone(Ctx& c, const Call& x) {
  auto it = aloneCache.find(x); if (it != aloneCache.end()) return it->second;
  if (!inChild([&] { put(run(x)); })) c.fail(name(x) + " does not end properly on its own"); return aloneCache[x] = got();
}
// after the history h (executed in this process), every call of the list in a process of its own
static void fanOut(Ctx& c, const std::vector<Call>& h, const std::vector<Call>& next) {
  std::string hist; for (auto& x : h) hist += (hist.empty() ? "" : ", ") + name(x); std::vector<std::pair<Call, std::string>> res;
  for (auto& x : next) alone(c, x);   // references come from processes without the history
  struct Out { int bad; char msg[1500]; }; static Out* o; if (!o) o = (Out*)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); o->bad = 1; snprintf(o->msg, sizeof o->msg, "%s does not end properly", hist.c_str());
  pid_t p = fork(); if (p == 0) { alarm(140); for (auto& x : h) run(x); o->bad = 0; for (auto& x : next) { alarm(140); c.beat(); if (!inChild([&] { put(run(x)); })) { o->bad = 2; snprintf(o->msg, sizeof o->msg, "%s does not end properly after %s", name(x).c_str(), hist.c_str()); break; }
    std::string r = got(), w = aloneCache[x]; bool rnd = ops()[x.op].random; size_t d = r.find("draws:"); if (rnd ? (d != w.find("draws:") || r.size() != w.size() || r.substr(0, d == std::string::npos ? r.size() : d) != w.substr(0, d == std::string::npos ? w.size() : d)) : r != w) { o->bad = 3; snprintf(o->msg, sizeof o->msg, "%s after %s: got %.500s want, as in a fresh process, %.500s", name(x).c_str(), hist.c_str(), r.c_str(), w.c_str()); break; } } _exit(0); }
  int st; while (waitpid(p, &st, 0) < 0) {} if (o->bad || !WIFEXITED(st)) c.fail(o->msg); c.states(1 + next.size()); c.trans(h.size() + next.size()); c.trace(next.size());
}
// n calls one after another in one process, each compared with a fresh one
template <class F> static void series(Ctx& c, size_t n, F f) {
  std::set<Call> all; for (size_t k = 0; k < n; k++) { Call x = f(k); if (all.insert(x).second) { c.desc("%s", name(x).c_str()); c.beat(); alone(c, x); } }
  struct Out { volatile size_t at; int bad; char msg[1500]; }; static Out* o; if (!o) o = (Out*)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); o->bad = 1; o->at = 0;
  pid_t p = fork(); if (p == 0) { alarm(140); for (size_t k = 0; k < n; k++) { Call x = f(k); o->at = k; alarm(140); c.beat(); std::string r = run(x); if (r != aloneCache[x]) { o->bad = 3; snprintf(o->msg, sizeof o->msg, "%s: got %.500s want, as in a fresh process, %.500s", name(x).c_str(), r.c_str(), aloneCache[x].c_str()); _exit(0); } } o->bad = 0; _exit(0); }
  int st; while (waitpid(p, &st, 0) < 0) {} Call x = f(o->at); c.desc("call %zu: %s", (size_t)o->at, name(x).c_str()); if (o->bad == 3) c.fail(mc::fmt("call %zu of a series, ", (size_t)o->at) + o->msg); if (o->bad || !WIFEXITED(st)) c.fail(mc::fmt("call %zu of a series, ", (size_t)o->at) + name(x) + ", does not end properly"); c.states(all.size()); c.trans(n); c.trace(n);
}
// interleaving: two operations as coroutines of one thread, switched at their steps
struct Co { ucontext_t ctx; std::vector<uint8_t> stack; Call x; std::string r; bool done; };
static Co co[2]; static ucontext_t sched; static int cur;
static void stepHook() { swapcontext(&co[cur].ctx, &sched); }
static void entry() { Co& k = co[cur]; k.r = run(k.x); k.done = true; }
static void start(int i, const Call& x) { Co& k = co[i]; if (k.stack.empty()) k.stack.resize(1 << 20); k.x = x; k.done = false; k.r.clear(); getcontext(&k.ctx); k.ctx.uc_stack.ss_sp = k.stack.data(); k.ctx.uc_stack.ss_size = k.stack.size(); k.ctx.uc_link = &sched; makecontext(&k.ctx, entry, 0); }
static void resume(int i) { cur = i; swapcontext(&sched, &co[i].ctx); }
static int steps(const Call& x) { int n = 0; start(0, x); mStep = stepHook; while (!co[0].done) { resume(0); n++; } mStep = nullptr; return n; }
static void interleave(Ctx& c, const Call& a, const Call& b, int switches) {
  int na = steps(a), nb = steps(b); size_t n = 0; std::vector<uint8_t> plan; std::string wa = alone(c, a), wb = alone(c, b);
  std::function<void(int, int, int, int)> go = [&](int ra, int rb, int last, int sw) {
    if (!ra && !rb) { n++; c.beat(); start(0, a); start(1, b); mStep = stepHook; for (uint8_t i : plan) resume(i); mStep = nullptr; c.trans(plan.size()); c.trace(1); c.states(1);
      if (!co[0].done || !co[1].done) { c.fail("the number of steps of " + name(a) + " or " + name(b) + " depends on what happens in between"); }
      if (co[0].r != wa || co[1].r != wb) { std::string s; for (uint8_t i : plan) s += i ? 'b' : 'a'; c.fail("a=" + name(a) + " and b=" + name(b) + " interleaved as " + s + ": got " + (co[0].r != wa ? "a: " + co[0].r.substr(0, 200) + " want " + wa.substr(0, 200) : "b: " + co[1].r.substr(0, 200) + " want " + wb.substr(0, 200))); } return; }
    for (int i = 0; i < 2; i++) { if (!(i ? rb : ra)) continue; int s = sw + (last >= 0 && last != i && (last ? rb : ra)); if (s > switches) continue; plan.push_back(i); go(ra - !i, rb - i, i, s); plan.pop_back(); }
  };
  go(na, nb, -1, 0);
}
static mc::Options build(int tier) {
  mc::Options o; makeFixtures(); const auto& A = ops(); int N = (int)A.size(); std::vector<Call> cheap, all, slow;
  for (int i = 0; i < N; i++) { int V = A[i].random || A[i].cost >= 3 ? 2 : 7; for (int k = 0; k < V; k++) { Call x{i, kVar[k]}; all.push_back(x); (A[i].cost >= 3 ? slow : cheap).push_back(x); } }
  for (auto& x : slow) o.units.push_back({"after " + name(x), [=](Ctx& c) { c.desc("%s", name(x).c_str()); std::vector<Call> nx; for (auto& y : all) if (y.op == x.op || (ops()[y.op].cost < 3 && y.v < 21)) nx.push_back(y); fanOut(c, {x}, nx); }});
  for (auto& x : cheap) o.units.push_back({"after " + name(x), [=](Ctx& c) { c.desc("%s", name(x).c_str()); auto nx = cheap; if (x.v == 0) for (auto& y : slow) if (y.v == 0 && ops()[y.op].cost == 3) nx.push_back(y); fanOut(c, {x}, nx); if (x.v == 0) c.sample("every other call (every operation, up to 7 variants) after " + name(x)); }});
  // longer histories of one operation: every sequence of variants; and of two operations
  for (int i = 0; i < N; i++) if (A[i].cost < 3) o.units.push_back({std::string("repeat ") + A[i].name, [=](Ctx& c) { c.desc("%s", ops()[i].name); int V = ops()[i].random ? 2 : 7; for (int a = 0; a < V; a++) for (int b = 0; b < V; b++) { std::vector<Call> nx; for (int k = 0; k < V; k++) nx.push_back({i, kVar[k]}); fanOut(c, {{i, kVar[a]}, {i, kVar[b]}}, nx); if (tier) for (int d = 0; d < V; d++) fanOut(c, {{i, kVar[a]}, {i, kVar[b]}, {i, kVar[d]}}, nx); } }});
  if (tier) for (int i = 0; i < N; i++) if (A[i].cost < 3) o.units.push_back({std::string("three ") + A[i].name, [=](Ctx& c) { c.desc("%s", ops()[i].name); for (int j = 0; j < N; j++) if (ops()[j].cost < 3) { std::vector<Call> nx; for (auto& y : cheap) if (y.v == 0 || y.v == 20) nx.push_back(y); fanOut(c, {{i, 0}, {j, 1}}, nx); } }});
  // many calls in one process: the state of a long-lived program
  for (int v = 0; v < 4; v++) o.units.push_back({mc::fmt("long run %d", v), [=](Ctx& c) { c.desc("long run"); std::vector<Call> h; for (int rep = 0; rep < 3; rep++) for (size_t k = 0; k < cheap.size(); k++) h.push_back(cheap[(k * (2 * v + 1) + rep * 5) % cheap.size()]); fanOut(c, h, cheap); }});
  // many calls of one operation, and many inputs that are nearly the same (and agree in xor, sum or set of bytes), in one process
  for (int i = 0; i < N; i++) if (A[i].cost < 3 && !A[i].random) o.units.push_back({std::string("often ") + A[i].name, [=](Ctx& c) { static const std::set<std::string> slow = {"rsa", "x25519", "montgomery", "primality", "kdf256", "kdf384"}; size_t n = (ops()[i].cost >= 2 || slow.count(ops()[i].name) ? 700 : 66000) * (tier ? 8 : 1); series(c, n, [=](size_t k) { return Call{i, kVar[k * k % 7 % (k % 11 ? 7 : 2)]}; }); }});
  for (int i = 0; i < N; i++) if (A[i].cost < 2 && !A[i].random) for (int part = 0; part < 2; part++) o.units.push_back({std::string("near ") + A[i].name + (part ? "/2" : "/1"), [=](Ctx& c) { int st = std::string(ops()[i].name) == "rsa" && !tier ? 7 : 1; std::vector<Call> v; for (int k = part * 512; k < part * 512 + 512; k += st) { v.push_back({i, 100 + k}); if (k % 16 == 0) v.push_back({i, 0}); } series(c, v.size(), [&](size_t k) { return v[k]; }); }});
  // interleavings of live objects
  for (int i = 0; i < N; i++) if (!A[i].random && A[i].cost < 3) o.units.push_back({std::string("interleaved ") + A[i].name, [=](Ctx& c) { bool heavy = std::string(ops()[i].name) == "rsa"; 
    for (int k = 1; k < 7; k++) { c.desc("%s with itself, variants 0 and %d", ops()[i].name, kVar[k]); interleave(c, {i, 0}, {i, kVar[k]}, heavy ? 2 : tier ? 7 : 5); }
    for (int j = 0; j < N; j++) if (j != i && !ops()[j].random && ops()[j].cost < 3) { c.desc("%s with %s", ops()[i].name, ops()[j].name); interleave(c, {i, 0}, {j, 1}, heavy || std::string(ops()[j].name) == "rsa" ? 1 : tier ? 5 : 3); } }});
  o.rule = mc::fmt("%d", N) + " operations covering every part of the library in up to 7 variants (inputs differing in one byte, one half or entirely): every ordered pair of calls, every sequence of three variants of one operation (thorough: four, and triples of operations), long runs over all calls, 66000 (528000; slow operations 700 (5600)) calls of one operation in a row, 1024 inputs that differ in one byte or agree in the xor, sum or set of their bytes one after another, each followed by every call in a process forked at that point and compared with a fresh process; every interleaving with up to 5 (7) switches of the steps of two operations on live objects of their own";
  o.assumptions = {"state kept by the library shows within histories of two or three calls, or after the long runs", "random draws are only compared in form (G01 judges their values); the certificate store is explored by T02"};
  return o;
}
int main(int argc, char** argv) { return mc::run(argc, argv, build); }
