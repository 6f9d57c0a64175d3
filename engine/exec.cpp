// The symbolic interpreter: states, forking, memory, intrinsics, harness API, job runner.
#include "loader.h"
#include "solver.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <pthread.h>
#include <cmath>
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Frame { u32 rc; Func* f; u32 pc; u64 base; CallInfo* ci; Val s[1]; };
static Frame* newFrame(Func* f) {
  Frame* r; if (!f->pool.empty()) { r = (Frame*)f->pool.back(); f->pool.pop_back(); } else r = (Frame*)malloc(sizeof(Frame) + (f->nslots + 1) * sizeof(Val));
  r->rc = 1; r->f = f; r->pc = 0; r->ci = nullptr; return r;
}
static void unrefF(Frame* f) { if (--f->rc == 0) f->f->pool.push_back((Val*)f); }
static Frame* cloneF(Frame* f) { Frame* n = newFrame(f->f); n->pc = f->pc; n->base = f->base; n->ci = f->ci; memcpy(n->s, f->s, f->f->nslots * sizeof(Val)); return n; }

struct State {
  Mem mem; std::vector<Frame*> st; std::vector<u64> model; std::vector<Bits> dom; std::vector<Expr*> cons; std::vector<u8> multi;
  u64 heap, sp, insn = 0, insn0 = 0; u32 nsym = 0; std::vector<Val> inputs, obs; bool expectPanic = false; std::vector<u32> reach; std::vector<u32> consIds; u32 forks = 0;
  static u64 nextVer() { static u64 v = 0; return ++v; } u64 ver = nextVer(); void touch() { ver = nextVer(); }
  State() {}
  State(const Mem& m) : mem(m) {}
  State(const State& o) : mem(o.mem), st(o.st), model(o.model), dom(o.dom), cons(o.cons), multi(o.multi), heap(o.heap), sp(o.sp), insn(o.insn), insn0(o.insn0), nsym(o.nsym), inputs(o.inputs), obs(o.obs), expectPanic(o.expectPanic), reach(o.reach), consIds(o.consIds), ver(o.ver), forks(o.forks) {
    for (size_t i = 0; i + 1 < st.size(); i++) st[i]->rc++;
    if (!st.empty()) st.back() = cloneF(st.back());
  }
  ~State() { for (Frame* f : st) unrefF(f); }
};
enum End { E_DONE, E_PANIC, E_INFEASIBLE };
struct Shared { u32 next, violations; double first, budget; }; static Shared* g_shared = nullptr;
struct Violation { std::string kind, msg; std::vector<u64> inputs; };
struct Sample { std::vector<u64> inputs; std::vector<u8> obs; bool panicked; };

static std::map<std::tuple<u32, u32>, Val> g_canon; // (position, size) -> variable
static const u64 HEAP0 = 0x40000000ULL, STACK0 = 0x20000000ULL, STACKLIM = STACK0 + (64u << 20);

struct Engine {
  Solver sol; Mem* base; std::vector<State*> wl; State* S = nullptr;
  u64 paths = 0, done = 0, panics = 0, infeasible = 0, forks = 0, asserts = 0, assertsSym = 0, insns = 0, assumeCut = 0, conc = 0; std::vector<Violation> viol; std::vector<Sample> samples; std::set<u32> reach; std::map<std::string, u64> panicSites; u64 maxCons = 0, maxInputs = 0, maxInsn = 0;
  bool concProf = getenv("VERIF_PROFILE") != nullptr; std::map<std::string, u64> concSites; double deadline = 0, t0 = 0; u64 pathLimit = getenv("ENGINE_PATH_LIMIT") ? strtoull(getenv("ENGINE_PATH_LIMIT"), nullptr, 0) : 3000000000ULL; unsigned maxViol = 3; std::string panicMsg; u32 nSamples = 6; u64 lcg = 12345;

  // ------------------------------------------------------------ constraints
  void growVar(State& s, i32 v) { if ((size_t)v >= s.model.size()) { s.model.resize(v + 1, 0); s.dom.resize(v + 1, noBits()); s.multi.resize(v + 1, 0); } }
  bool hasCons(State& s, Expr* e) { return std::binary_search(s.consIds.begin(), s.consIds.end(), e->id); }
  // an expression over several variables of which at most one is still open becomes a table over that one
  std::unordered_map<Expr*, Val> smemo; u64 smemoVer = 0;
  Val simp(State& s, Expr* e) { // replaces sub-terms that are constant under the current domains
    if (e->op == O_CONST) return Val{e->lo, e->hi, nullptr}; if (e->var >= 0) return reduce(s, Val{0, 0, e}, e->w); if (e->op == O_VAR) return Val{0, 0, e};
    auto it = smemo.find(e); if (it != smemo.end()) return it->second;
    Val k[3]; bool ch = false; for (int i = 0; i < 3; i++) if (e->k[i]) { k[i] = simp(s, e->k[i]); if (k[i].e != e->k[i] && !(e->k[i]->op == O_CONST)) ch = true; }
    Val r{0, 0, e};
    if (ch) switch (e->op) { case O_ITE: r = mkIte(e->w, k[0], k[1], k[2]); break; case O_CONCAT: r = mkConcat(k[0], e->k[0]->w, k[1], e->k[1]->w); break; case O_EXTRACT: r = mkExtract(k[0], e->k[0]->w, e->lo, e->w); break; case O_ZEXT: r = mkZext(k[0], e->k[0]->w, e->w); break; case O_SEXT: r = mkSext(k[0], e->k[0]->w, e->w); break; default: r = mkBin(e->op, e->k[0]->w, k[0], k[1]); }
    smemo.emplace(e, r); return r;
  }
  void unaryParts(Expr* e, std::unordered_set<Expr*>& seen, std::vector<Expr*>& out) { if (!seen.insert(e).second) return; if (e->var >= 0) { if (e->w <= 64) out.push_back(e); return; } for (int i = 0; i < 3; i++) if (e->k[i]) unaryParts(e->k[i], seen, out); }
  Val reduce(State& s, Val v, unsigned w) {
    if (!v.e) return v; Expr* e = v.e;
    if (e->var == -2 && e->vars->size() > 1) { bool some = false; for (i32 x : *e->vars) if (g_vars[x].n && s.dom[x].count() < (int)g_vars[x].n) { some = true; break; } if (some) { if (smemoVer != s.ver || smemo.size() > 200000) { smemo.clear(); smemoVer = s.ver; } v = simp(s, e); if (!v.e) return v; e = v.e; } }
    if (e->var >= 0) { Bits& d = s.dom[e->var]; if (w <= 64) { int f = d.first(); u64 x = (u64)entryOf(e, f); bool same = true; for (int q = 0; q < 4 && same; q++) { u64 b = d.b[q]; while (b) { int i = q * 64 + __builtin_ctzll(b); b &= b - 1; if ((u64)entryOf(e, i) != x) { same = false; break; } } } if (same) return C(x); } return v; }
    i32 open = -1; for (i32 x : *e->vars) { if (!g_vars[x].n) return v; Bits& d = s.dom[x]; if (d.count() > 1) { if (open >= 0) return v; open = x; } }
    if (open < 0) { newStamp(); return C128(evalExpr(e, s.model)); }
    if (w > 64) return v;
    u32 n = g_vars[open].n; std::vector<u64> t(n, 0), m = s.model; u64 dflt = 0; bool first = true; std::vector<u8> in(n, 0);
    for (u32 i = 0; i < n; i++) if (s.dom[open].get(i)) { m[open] = i; newStamp(); t[i] = (u64)evalExpr(e, m); in[i] = 1; if (first) { dflt = t[i]; first = false; } }
    for (u32 i = 0; i < n; i++) if (!in[i]) t[i] = dflt;
    return mkTable(open, w, std::move(t));
  }
  void addCons(State& s, Val c) {
    if (!c.e) { if (!c.lo) fail("internal: false constraint"); return; }
    c = reduce(s, c, 1); if (!c.e) { if (!c.lo) fail("internal: false constraint"); return; }
    Expr* e = c.e;
    if (e->var >= 0) { Bits& d = s.dom[e->var]; for (u32 i = 0; i < g_vars[e->var].n; i++) if (d.get(i) && !entryOf(e, i)) d.clr(i); s.touch(); return; }
    if (e->op == O_AND && e->w == 1) { addCons(s, Val{0, 0, e->k[0]}); addCons(s, Val{0, 0, e->k[1]}); return; }
    if (hasCons(s, e)) return;
    s.cons.push_back(e); s.consIds.insert(std::lower_bound(s.consIds.begin(), s.consIds.end(), e->id), e->id);
    for (i32 v : *e->vars) s.multi[v] = 1; maxCons = std::max<u64>(maxCons, s.cons.size());
  }
  std::vector<Expr*> slice(State& s, const std::vector<i32>& vars) {
    std::vector<Expr*> r; if (s.cons.empty()) return r; std::vector<u8> used(s.cons.size(), 0); std::set<i32> vs(vars.begin(), vars.end()); bool again = true;
    while (again) { again = false; for (size_t i = 0; i < s.cons.size(); i++) if (!used[i]) { bool hit = false; for (i32 v : *s.cons[i]->vars) if (vs.count(v)) { hit = true; break; } if (hit) { used[i] = 1; r.push_back(s.cons[i]); for (i32 v : *s.cons[i]->vars) if (vs.insert(v).second) again = true; } } }
    return r;
  }
  bool decide(Val c) {
    State& s = *S;
    if (!c.e) return c.lo; c = reduce2(s, c); if (!c.e) return c.lo;
    Expr* e = c.e;
    if (e->var >= 0) {
      i32 v = e->var; Bits T = noBits(), F = noBits(); Bits& d = s.dom[v];
      for (u32 i = 0; i < g_vars[v].n; i++) if (d.get(i)) { if (entryOf(e, i)) T.set(i); else F.set(i); }
      if (!T.any() || !F.any()) { bool val = T.any(); sol.st.presolved++; if (!sol.confirmUnaryUnsat(v, d, e, !val)) fail("solver contradicts domain propagation"); return val; }
      bool mv = entryOf(e, s.model[v]);
      if (!s.multi[v]) { State* o = new State(s); o->dom[v] = mv ? F : T; o->touch(); o->model[v] = o->dom[v].first(); s.dom[v] = mv ? T : F, s.touch(); sol.st.presolved++; push(o); return mv; }
      Bits od = mv ? F : T; std::vector<u64> m2 = s.model; Bits keep = s.dom[v]; s.dom[v] = od; bool sat = sol.check(s.dom, slice(s, {v}), m2); s.dom[v] = keep;
      if (sat) { State* o = new State(s); o->dom[v] = od; o->touch(); o->model = m2; push(o); }
      s.dom[v] = mv ? T : F, s.touch(); return mv;
    }
    Val ne = mkNot1(c);
    if (hasCons(s, e)) return true; if (ne.e && hasCons(s, ne.e)) return false;
    newStamp(); bool mv = evalExpr(e, s.model) & 1; Val oth = mv ? ne : c, mine = mv ? c : ne;
    std::vector<Expr*> cs = slice(s, *e->vars); cs.push_back(oth.e); std::vector<u64> m2 = s.model;
    if (sol.check(s.dom, cs, m2)) { State* o = new State(s); o->model = m2; addCons(*o, oth); push(o); addCons(s, mine); }
    return mv;
  }
  Val reduce2(State& s, Val c) { if (c.e->var == -2) return reduce(s, c, 1); return c; }
  void push(State* o) { forks++; o->insn0 = o->insn; o->forks++; wl.push_back(o); }
  u128 concretize(Val v, unsigned w) {
    if (!v.e) return cv(v); v = reduce(*S, v, w); if (!v.e) return cv(v);
    newStamp(); u128 x = evalExpr(v.e, S->model); conc++; if (concProf) concSites[(S->st.empty() ? std::string() : S->st.back()->f->name + " pc=" + std::to_string(S->st.back()->pc))]++;
    if (!decide(mkBin(O_EQ, w, v, C128(x)))) fail("internal: concretize");
    return x;
  }
  u64 cz(Val v) { return v.e ? (u64)concretize(v, 64) : v.lo; }

  // ---------------------------------------------------------------- memory
  Val loadAt(Val a, i64 off, unsigned w) {
    State& s = *S;
    if (!a.e) { u64 x = a.lo + off; if (x < 0x1000 || x >= 0x100000000ULL) fail("load from invalid address"); return s.mem.load(x, w); }
    a = reduce(s, a, 64); if (!a.e) return loadAt(a, off, w);
    Expr* e = a.e;
    if (e->var >= 0) {
      i32 v = e->var; u32 n = g_vars[v].n; Bits& d = s.dom[v]; bool allc = true, ok = true; std::map<u64, Val> seen; std::vector<u64> t(n, 0); bool first = true; u64 dflt = 0;
      for (u32 i = 0; i < n && ok; i++) if (d.get(i)) { u64 x = (u64)entryOf(e, i) + off; if (x < 0x1000 || x >= 0x100000000ULL || !s.mem.rd(x)) { ok = false; break; } auto it = seen.find(x); if (it == seen.end()) { Val l = s.mem.load(x, w); if (l.e || w > 64) allc = false; it = seen.emplace(x, l).first; } t[i] = it->second.lo; if (first) { dflt = t[i]; first = false; } }
      if (ok && allc) { for (u32 i = 0; i < n; i++) if (!d.get(i)) t[i] = dflt; return mkTable(v, w, std::move(t)); }
      if (ok && seen.size() <= 16) { Val r = seen.begin()->second; bool f1 = true; for (auto& p : seen) { if (f1) { f1 = false; continue; } r = mkIte(w, mkBin(O_EQ, 64, a, C(p.first - off)), p.second, r); } return r; }
    }
    else { // several variables: fork on the part with the fewest values, so that the rest stays symbolic
      std::unordered_set<Expr*> sn; std::vector<Expr*> parts; unaryParts(e, sn, parts); Expr* best = nullptr; size_t bn = 1000;
      for (Expr* p : parts) { std::set<u64> vs; Bits& d = s.dom[p->var]; for (u32 i = 0; i < g_vars[p->var].n; i++) if (d.get(i)) vs.insert((u64)entryOf(p, i)); if (vs.size() > 1 && vs.size() < bn) { bn = vs.size(); best = p; } }
      if (best) { concretize(Val{0, 0, best}, best->w); return loadAt(a, off, w); }
    }
    return loadAt(C(cz(a)), off, w);
  }
  u64 alloc(u64 n, u64 al) { State& s = *S; if (al < 16) al = 16; u64 a = (s.heap + al - 1) & ~(al - 1); s.heap = a + n + 8; if (s.heap >= 0xff000000ULL) fail("symbolic heap exhausted"); if (!s.mem.rd(a)) { if (n) { u8 z = s.mem.getb(a).e ? 0 : (u8)s.mem.getb(a).lo; s.mem.write(a, &z, 1); } } return a; }
  void freeBlk(u64 p, u64 n) { State& s = *S; if (p && ((p + n + 8) == s.heap)) s.heap = p; }
  Val cmpMem(u64 a, u64 b, u64 n, bool eqOnly) {
    State& s = *S; Val r = C(0);
    // find the first certain difference: bytes after it are irrelevant
    u64 end = n; bool sym = false; for (u64 i = 0; i < n; i++) { Val x = s.mem.getb(a + i), y = s.mem.getb(b + i); if (!x.e && !y.e) { if (x.lo != y.lo) { end = i + 1; break; } } else sym = true; }
    if (!sym || end == 0) { if (end == 0) return C(0); for (u64 i = 0; i < end; i++) { Val x = s.mem.getb(a + i), y = s.mem.getb(b + i); if (x.lo != y.lo) return x.lo < y.lo ? C(0xffffffffu) : C(1); } return C(0); }
    if (eqOnly) { 
      // a certain difference anywhere decides inequality
      if (end < n) return C(1); { Val x = s.mem.getb(a + end - 1), y = s.mem.getb(b + end - 1); if (!x.e && !y.e && x.lo != y.lo) return C(1); }
      Val c = C(1); for (u64 i = end; i-- > 0;) { Val x = s.mem.getb(a + i), y = s.mem.getb(b + i); Val q = mkBin(O_EQ, 8, x, y); if (!q.e && !q.lo) return C(1); c = mkBin(O_AND, 1, q, c); }
      return mkZext(mkNot1(c), 1, 32); }
    // bytes that depend on one input are decided one after another, which the domain solver does
    u64 from = 0;
    for (; from < end; from++) { Val x = s.mem.getb(a + from), y = s.mem.getb(b + from); Val eq = mkBin(O_EQ, 8, x, y); if (!eq.e) { if (eq.lo) continue; } else if (eq.e->vars->size() != 1) break; if (decide(eq)) continue; return decide(mkBin(O_ULT, 8, x, y)) ? C(0xffffffffu) : C(1); }
    if (from == end) return C(0);
    for (u64 i = end; i-- > from;) { Val x = s.mem.getb(a + i), y = s.mem.getb(b + i); Val lt = mkBin(O_ULT, 8, x, y), eq = mkBin(O_EQ, 8, x, y); r = mkIte(32, eq, r, mkIte(32, lt, C(0xffffffffu), C(1))); }
    return r;
  }

  // ------------------------------------------------------------ path ending
  std::vector<u64> evalInputs(State& s, const std::vector<u64>& m) { std::vector<u64> r; for (auto& v : s.inputs) { if (v.e) { newStamp(); r.push_back((u64)evalExpr(v.e, m)); } else r.push_back(v.lo); } return r; }
  void violation(const std::string& kind, const std::string& msg, const std::vector<u64>& m) { viol.push_back({kind, msg, evalInputs(*S, m)}); if (g_shared) { double z = 0; __sync_fetch_and_add(&g_shared->violations, 1); if (g_shared->first == z) g_shared->first = now(); } }
  // what ends a job early: its own limit, the budget of the whole run, enough counterexamples anywhere, memory
  void limits() {
    double t = now();
    if (t > deadline) { if (S && S->insn > 400000000ULL && S->insn > 8 * maxInsn) violation("nontermination", "one path has taken " + std::to_string(S->insn) + " instructions", S->model); fail("job time limit reached"); }
    if (g_shared && g_shared->budget > 0 && t > g_shared->budget) fail("run time budget reached");
    if (g_shared && g_shared->violations && (g_shared->violations >= 24 || t > g_shared->first + 45)) fail("stopped: enough counterexamples");
    if (t > nextMem) { nextMem = t + 0.5; long pages = 0, rss = 0; FILE* sf = fopen("/proc/self/statm", "r"); if (sf) { if (fscanf(sf, "%ld %ld", &pages, &rss) != 2) rss = 0; fclose(sf); } if (rss > (3500L << 20) / 4096) fail("memory limit reached"); }
  }
  double nextMem = 0;
  void endPath(End e) {
    State& s = *S; paths++; insns += s.insn - s.insn0; maxInsn = std::max(maxInsn, s.insn); maxInputs = std::max<u64>(maxInputs, s.inputs.size());
    if (e == E_INFEASIBLE) { infeasible++; return; }
    if (e == E_PANIC) { panics++; if (!s.expectPanic) violation("panic", panicMsg, s.model); } else done++;
    for (u32 r : s.reach) reach.insert(r);
    u64 k = paths; lcg = lcg * 6364136223846793005ULL + 1442695040888963407ULL; size_t slot = samples.size() < nSamples ? samples.size() : (size_t)((lcg >> 33) % k);
    if (slot < nSamples) { Sample x; x.inputs = evalInputs(s, s.model); for (auto& v : s.obs) { if (v.e) { newStamp(); x.obs.push_back((u8)evalExpr(v.e, s.model)); } else x.obs.push_back((u8)v.lo); } x.panicked = e == E_PANIC; if (slot < samples.size()) samples[slot] = x; else samples.push_back(x); }
  }
  std::string readStr(u64 p, u64 n) { std::string r; for (u64 i = 0; i < n && i < 300; i++) { Val b = S->mem.getb(p + i); r += b.e ? '?' : (char)b.lo; } return r; }
  std::string location(u64 p) { // core::panic::Location { file: &str, line, col }
    if (p < 0x10000000ULL || p >= 0x20000000ULL) return ""; u64 f = S->mem.load(p, 64).lo, n = S->mem.load(p + 8, 64).lo, l = S->mem.load(p + 16, 32).lo, c = S->mem.load(p + 20, 32).lo;
    if (f < 0x10000000ULL || f >= 0x20000000ULL || n > 400) return ""; return readStr(f, n) + ":" + std::to_string(l) + ":" + std::to_string(c);
  }
  std::string backtrace() { std::string r; int k = 0; for (size_t i = S->st.size(); i-- > 0 && k < 14; k++) r += "\n    at " + S->st[i]->f->name + " pc=" + std::to_string(S->st[i]->pc); return r; }

  bool runState();
  int stub(Func* cf, CallInfo& ci, Val* s, Val* args); // 0: continue, 1: path ended
  void intrinsic(Frame* fr, Ins& I);
};

static double asD(u64 b, unsigned w) { if (w == 32) { float f; u32 x = b; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &b, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 b; memcpy(&b, &d, 8); return b; }
static Val mkCmp(unsigned pred, unsigned w, Val a, Val b) {
  switch (pred) {
    case LLVMIntEQ: return mkBin(O_EQ, w, a, b); case LLVMIntNE: return mkNot1(mkBin(O_EQ, w, a, b));
    case LLVMIntUGT: return mkBin(O_ULT, w, b, a); case LLVMIntUGE: return mkBin(O_ULE, w, b, a); case LLVMIntULT: return mkBin(O_ULT, w, a, b); case LLVMIntULE: return mkBin(O_ULE, w, a, b);
    case LLVMIntSGT: return mkBin(O_SLT, w, b, a); case LLVMIntSGE: return mkBin(O_SLE, w, b, a); case LLVMIntSLT: return mkBin(O_SLT, w, a, b); default: return mkBin(O_SLE, w, a, b); }
}
#define G(x) ((x) >= 0 ? s[x] : g_consts[~(x)])

void Engine::intrinsic(Frame* fr, Ins& I) {
  Val* s = fr->s; IntrInfo& ii = fr->f->intr[I.a]; auto A = [&](u32 k) -> Val { return G(ii.args[k]); }; unsigned w = I.w; u32 n = ii.n; State& st = *S;
  auto tab = [&](Val a, unsigned wa, unsigned wr, std::function<u128(u128)> f, std::function<Val(Val)> gen) -> Val { if (!a.e) return C128(f(cv(a)) & maskw(wr)); if (a.e->var >= 0 && wr <= 64) { u32 m = g_vars[a.e->var].n; std::vector<u64> t(m); for (u32 i = 0; i < m; i++) t[i] = (u64)(f(entryOf(a.e, i)) & maskw(wr)); return mkTable(a.e->var, wr, std::move(t)); } return gen(a); };
  switch (I.sub) {
    case N_NOP: return;
    case N_MEMCPY: { u64 d = cz(A(0)), q = cz(A(1)), k = cz(A(2)); if (!k) return; if (d < 0x1000 || q < 0x1000 || d + k > 0xffffffffULL || q + k > 0xffffffffULL) fail("memcpy with invalid address"); st.mem.copy(d, q, k); return; }
    case N_MEMSET: { u64 d = cz(A(0)), k = cz(A(2)); Val v = A(1); if (!k) return; if (d < 0x1000 || d + k > 0xffffffffULL) fail("memset with invalid address"); if (!v.e) st.mem.fill(d, (u8)v.lo, k); else for (u64 i = 0; i < k; i++) st.mem.setb(d + i, v); return; }
    case N_MINMAX: for (u32 k = 0; k < n; k++) { Val a = A(k), b = A(n + k); Val c = I.w2 == 0 ? mkBin(O_ULT, w, a, b) : I.w2 == 1 ? mkBin(O_ULT, w, b, a) : I.w2 == 2 ? mkBin(O_SLT, w, a, b) : mkBin(O_SLT, w, b, a); s[I.d + k] = mkIte(w, c, a, b); } return;
    case N_SATADD: for (u32 k = 0; k < n; k++) { Val a = A(k), b = A(n + k); Val r;
        if (I.w2 == 0) { Val q = mkBin(O_ADD, w, a, b); r = mkIte(w, mkBin(O_ULT, w, q, a), C128(maskw(w)), q); }
        else if (I.w2 == 1) r = mkIte(w, mkBin(O_ULT, w, a, b), C(0), mkBin(O_SUB, w, a, b));
        else { Val x = mkSext(a, w, w + 1), y = mkSext(b, w, w + 1); Val q = mkBin(I.w2 == 2 ? O_ADD : O_SUB, w + 1, x, y); Val mx = C128(maskw(w - 1)), mn = C128((u128)1 << (w - 1)); Val top = mkExtract(q, w + 1, w, 1), sec = mkExtract(q, w + 1, w - 1, 1); r = mkIte(w, mkBin(O_EQ, 1, top, sec), mkExtract(q, w + 1, 0, w), mkIte(w, top, mn, mx)); }
        s[I.d + k] = r; } return;
    case N_OVF: { Val a = A(0), b = A(1), r, o; 
        if (I.w2 == 0) { r = mkBin(O_ADD, w, a, b); o = mkBin(O_ULT, w, r, a); } else if (I.w2 == 1) { r = mkBin(O_SUB, w, a, b); o = mkBin(O_ULT, w, a, b); }
        else if (I.w2 == 3 || I.w2 == 4) { r = mkBin(I.w2 == 3 ? O_ADD : O_SUB, w, a, b); Val sa = mkExtract(a, w, w - 1, 1), sb = mkExtract(b, w, w - 1, 1), sr = mkExtract(r, w, w - 1, 1); o = mkBin(O_AND, 1, mkBin(O_XOR, 1, sa, sr), I.w2 == 3 ? mkNot1(mkBin(O_XOR, 1, sa, sb)) : mkBin(O_XOR, 1, sa, sb)); }
        else if (w <= 64) { unsigned W = 2 * w; Val x = I.w2 == 2 ? mkZext(a, w, W) : mkSext(a, w, W), y = I.w2 == 2 ? mkZext(b, w, W) : mkSext(b, w, W); Val q = mkBin(O_MUL, W, x, y); r = mkExtract(q, W, 0, w); o = mkNot1(mkBin(O_EQ, W, q, I.w2 == 2 ? mkZext(r, w, W) : mkSext(r, w, W))); }
        else { u128 x = concretize(a, w), y = concretize(b, w); if (I.w2 == 2) { u128 q; o = C(__builtin_mul_overflow(x, y, &q)); r = C128(q); } else { i128 q; o = C(__builtin_mul_overflow((i128)x, (i128)y, &q)); r = C128((u128)q); } }
        s[I.d] = r; s[I.d + 1] = o; return; }
    case N_CTLZ: s[I.d] = tab(A(0), w, w, [&](u128 x) -> u128 { u32 c = 0; for (int i = w - 1; i >= 0 && !((x >> i) & 1); i--) c++; return c; }, [&](Val a) { Val r = C(w); for (unsigned i = 0; i < w; i++) r = mkIte(w, mkExtract(a, w, i, 1), C(w - 1 - i), r); return r; }); return;
    case N_CTTZ: s[I.d] = tab(A(0), w, w, [&](u128 x) -> u128 { u32 c = 0; for (unsigned i = 0; i < w && !((x >> i) & 1); i++) c++; return c; }, [&](Val a) { Val r = C(w); for (unsigned i = w; i-- > 0;) r = mkIte(w, mkExtract(a, w, i, 1), C(i), r); return r; }); return;
    case N_CTPOP: s[I.d] = tab(A(0), w, w, [&](u128 x) -> u128 { return __builtin_popcountll((u64)x) + __builtin_popcountll((u64)(x >> 64)); }, [&](Val a) { Val r = C(0); for (unsigned i = 0; i < w; i++) r = mkBin(O_ADD, w, r, mkZext(mkExtract(a, w, i, 1), 1, w)); return r; }); return;
    case N_BSWAP: for (u32 k = 0; k < n; k++) { Val a = A(k); Val r = mkExtract(a, w, w - 8, 8); for (unsigned i = 1; i < w / 8; i++) r = mkConcat(mkExtract(a, w, w - 8 - 8 * i, 8), 8, r, 8 * i); s[I.d + k] = r; } return;
    case N_BITREV: { u128 x = concretize(A(0), w), r = 0; for (unsigned i = 0; i < w; i++) if ((x >> i) & 1) r |= (u128)1 << (w - 1 - i); s[I.d] = C128(r); return; }
    case N_FSH: { unsigned k = (unsigned)(concretize(A(2), w) % w); Val a = A(0), b = A(1); if (I.w2 == 1) k = k ? w - k : w; // fshr by k == fshl by w-k of the pair
        if (k == 0) { s[I.d] = a; return; } if (k == w) { s[I.d] = b; return; } s[I.d] = mkConcat(mkExtract(a, w, 0, w - k), w - k, mkExtract(b, w, w - k, k), k); return; }
    case N_ABS: for (u32 k = 0; k < n; k++) { Val a = A(k); s[I.d + k] = mkIte(w, mkBin(O_SLT, w, a, C(0)), mkBin(O_SUB, w, C(0), a), a); } return;
    case N_CMP3: { unsigned wa = ii.ws[0]; Val a = A(0), b = A(1); s[I.d] = mkIte(w, mkBin(I.w2 ? O_SLT : O_ULT, wa, a, b), C128(maskw(w)), mkIte(w, mkBin(O_EQ, wa, a, b), C(0), C(1))); return; }
    case N_F1: for (u32 k = 0; k < n; k++) { double x = asD((u64)concretize(A(k), w), w), r; const std::string& nm = ii.name; auto is = [&](const char* p) { return nm.compare(5, strlen(p), p) == 0; };
        if (is("sqrt")) r = w == 32 ? (double)sqrtf((float)x) : sqrt(x); else if (is("fabs")) r = fabs(x); else if (is("floor")) r = floor(x); else if (is("ceil")) r = ceil(x); else if (is("trunc")) r = trunc(x); else if (is("roundeven") || is("rint") || is("nearbyint")) r = nearbyint(x); else if (is("round")) r = round(x); else if (is("log2")) r = log2(x); else if (is("log10")) r = log10(x); else if (is("log")) r = log(x); else if (is("exp2")) r = exp2(x); else r = exp(x);
        s[I.d + k] = C(fromD(r, w)); } return;
    case N_FMA: { double a = asD((u64)concretize(A(0), w), w), b = asD((u64)concretize(A(1), w), w), c = asD((u64)concretize(A(2), w), w); s[I.d] = C(fromD(ii.name.find("fmuladd") != std::string::npos ? a * b + c : fma(a, b, c), w)); return; }
    case N_F2: { double a = asD((u64)concretize(A(0), w), w), b = asD((u64)concretize(A(1), w), w), r; auto is = [&](const char* p) { return ii.name.compare(5, strlen(p), p) == 0; }; if (is("copysign")) r = copysign(a, b); else if (is("min")) r = fmin(a, b); else if (is("max")) r = fmax(a, b); else r = pow(a, b); s[I.d] = C(fromD(r, w)); return; }
    case N_POWI: { double a = asD((u64)concretize(A(0), w), w); int b = (int)concretize(A(1), 32); s[I.d] = C(fromD(__builtin_powi(a, b), w)); return; }
    case N_REDUCE: { Val r = A(0); std::string k = ii.name.substr(19); unsigned wa = ii.ws[0]; for (size_t i = 1; i < ii.args.size(); i++) { Val b = A(i); if (k.compare(0, 3, "and") == 0) r = mkBin(O_AND, wa, r, b); else if (k.compare(0, 2, "or") == 0) r = mkBin(O_OR, wa, r, b); else if (k.compare(0, 3, "xor") == 0) r = mkBin(O_XOR, wa, r, b); else if (k.compare(0, 3, "add") == 0) r = mkBin(O_ADD, wa, r, b); else if (k.compare(0, 4, "umax") == 0) r = mkIte(wa, mkBin(O_ULT, wa, r, b), b, r); else if (k.compare(0, 4, "umin") == 0) r = mkIte(wa, mkBin(O_ULT, wa, b, r), b, r); else fail("reduce " + k); } s[I.d] = r; return; }
    case N_FTOISAT: { unsigned wa = ii.ws[0]; double x = asD((u64)concretize(A(0), wa), wa); u128 r; if (x != x) r = 0; else if (I.w2 == 0) { double mx = ldexp(1.0, w); r = x <= 0 ? 0 : x >= mx ? maskw(w) : (u128)x; } else { double mx = ldexp(1.0, w - 1); i128 q = x >= mx ? (i128)maskw(w - 1) : x < -mx ? -(i128)((u128)1 << (w - 1)) : (i128)x; r = (u128)q & maskw(w); } s[I.d] = C128(r); return; }
    case N_ZERO: for (u32 k = 0; k < n; k++) s[I.d + k] = C(0); return;
    case N_PTRMASK: s[I.d] = mkBin(O_AND, 64, A(0), A(1)); return;
    case N_PMOVMSK: { Val r = mkExtract(A(0), 8, 7, 1); for (unsigned i = 1; i < 16; i++) r = mkConcat(mkExtract(A(i), 8, 7, 1), 1, r, i); s[I.d] = mkZext(r, 16, 32); return; }
    default: fail("intrinsic " + ii.name);
  }
}

int Engine::stub(Func* cf, CallInfo& ci, Val* s, Val* a) {
  State& st = *S; auto ret = [&](Val v) { if (ci.d >= 0) { if (!v.e) v = C128(cv(v) & maskw(ci.retw)); s[ci.d] = v; for (u32 k = 1; k < ci.nret; k++) s[ci.d + k] = C(0); } return 0; };
  switch (cf->stub) {
    case S_NOSHIM: case S_HASHWRITE: return 0;
    case S_ALLOC: { u64 n = cz(a[0]), al = cz(a[1]); return ret(C(alloc(n, al))); }
    case S_ALLOCZ: { u64 n = cz(a[0]), al = cz(a[1]); u64 p = alloc(n, al); if (n) st.mem.fill(p, 0, n); return ret(C(p)); }
    case S_DEALLOC: { u64 p = cz(a[0]), n = cz(a[1]); freeBlk(p, n); return 0; }
    case S_REALLOC: { u64 p = cz(a[0]), o = cz(a[1]), al = cz(a[2]), n = cz(a[3]); if (p + o + 8 == st.heap && n >= o) { st.heap = p + n + 8; if (st.heap >= 0xff000000ULL) fail("symbolic heap exhausted"); return ret(C(p)); } if (n <= o) return ret(C(p)); u64 q = alloc(n, al); st.mem.copy(q, p, o); return ret(C(q)); }
    case S_MALLOC: { u64 n = cz(a[0]); return ret(C(alloc(n, 16))); }
    case S_CALLOC: { u64 n = cz(a[0]) * cz(a[1]); u64 p = alloc(n, 16); if (n) st.mem.fill(p, 0, n); return ret(C(p)); }
    case S_FREE: return 0;
    case S_MEMALIGN: { u64 pp = cz(a[0]), al = cz(a[1]), n = cz(a[2]); st.mem.store(pp, C(alloc(n, al)), 64); return ret(C(0)); }
    case S_PANIC: { panicMsg = cf->name; for (size_t i = 0; i < ci.args.size(); i++) if (!a[i].e) { std::string l = location(a[i].lo); if (!l.empty()) panicMsg = "panicked at " + l; }
        std::string nm = cf->name; if (panicMsg == nm) { auto p = nm.find("panicking"); panicMsg = "panicked in " + (p == std::string::npos ? nm : nm.substr(p)); }
        for (size_t i = st.st.size(), k = 0; i-- > 0 && k < 40; k++) if (st.st[i]->f->crate) { panicMsg += " (called from " + st.st[i]->f->name + ")"; break; }
        endPath(E_PANIC); return 1; }
    case S_ABORT: panicMsg = "process aborted (" + cf->name + ")"; endPath(E_PANIC); return 1;
    case S_HASHFIN: return ret(C(0x5a5a5a5a5a5a5a5aULL));
    case S_RANDKEYS: return ret(C(0));
    case S_RET0: return ret(C(0));
    case S_KEYCREATE: st.mem.store(cz(a[0]), C(1), 32); return ret(C(0)); // keys only carry thread-exit destructors
    case S_RETNEG: return ret(C(~0ULL));
    case S_ERRNO: st.mem.store(0x1ffff000ULL, C(38), 32); return ret(C(0x1ffff000ULL)); // ENOSYS
    case S_WRITE: if (cf->name == "write") return ret(a[2]); { u64 io = cz(a[1]), k = cz(a[2]), t = 0; for (u64 i = 0; i < k; i++) t += st.mem.load(io + 16 * i + 8, 64).lo; return ret(C(t)); }
    case S_MEMCMP: { u64 n = cz(a[2]); if (!n) return ret(C(0)); u64 p = cz(a[0]), q = cz(a[1]); if (p < 0x1000 || q < 0x1000) fail("memcmp address"); return ret(cmpMem(p, q, n, cf->name == "bcmp")); }
    case S_STRLEN: { u64 p = cz(a[0]), k = 0; for (;; k++) { u64 b = (u64)concretize(st.mem.getb(p + k), 8); if (!b) break; } return ret(C(k)); }
    case S_MEMCPY: { u64 d = cz(a[0]), q = cz(a[1]), k = cz(a[2]); if (k) st.mem.copy(d, q, k); return ret(C(d)); }
    case S_MEMSET: { u64 d = cz(a[0]), k = cz(a[2]); Val v = mkExtract(a[1], 32, 0, 8); for (u64 i = 0; i < k; i++) st.mem.setb(d + i, v); return ret(C(d)); }
    case S_MATH1: { double x = asD(cz(a[0]), 64), r; const std::string& n = cf->name; r = n == "sqrt" ? sqrt(x) : n == "exp" ? exp(x) : n == "log" ? log(x) : n == "log2" ? log2(x) : n == "log10" ? log10(x) : n == "cbrt" ? cbrt(x) : n == "floor" ? floor(x) : n == "ceil" ? ceil(x) : n == "round" ? round(x) : trunc(x); return ret(C(fromD(r, 64))); }
    case S_MATH2: { double x = asD(cz(a[0]), 64), y = asD(cz(a[1]), 64); return ret(C(fromD(cf->name == "pow" ? pow(x, y) : fmod(x, y), 64))); }
    // ---- harness API
    case S_SYM_RANGE: case S_SYM_U64: {
      u32 n = 0; if (cf->stub == S_SYM_RANGE) { u64 k = cz(a[0]); if (k == 0 || k > 256) fail("sym_range out of bounds"); n = (u32)k; }
      u32 pos = st.nsym++; Val v;
      if (n == 1) v = C(0);
      else { auto key = std::make_tuple(pos, n); auto it = g_canon.find(key); if (it == g_canon.end()) it = g_canon.emplace(key, mkVar(n, n ? 8 : 64, "in" + std::to_string(pos))).first; v = it->second; i32 id = (*v.e->vars)[0]; growVar(st, id); if (n) { st.dom[id] = fullBits(n); st.touch(); st.model[id] = 0; } else st.model[id] = 0; v = n ? mkZext(v, 8, 64) : v; }
      st.inputs.push_back(v); return ret(v); }
    case S_SYM_ASSUME: { Val c = mkNot1(mkBin(O_EQ, 64, a[0], C(0))); c = reduce(st, c, 1);
      if (!c.e) { if (c.lo) return 0; endPath(E_INFEASIBLE); return 1; }
      newStamp(); if (!(evalExpr(c.e, st.model) & 1)) { // need a model in which the assumption holds
        std::vector<Expr*> cs = slice(st, *c.e->vars); cs.push_back(c.e); std::vector<u64> m = st.model;
        if (!sol.check(st.dom, cs, m)) { endPath(E_INFEASIBLE); return 1; } st.model = m; }
      addCons(st, c); assumeCut++; return 0; }
    case S_SYM_ASSERT: { asserts++; Val c = mkNot1(mkBin(O_EQ, 64, a[0], C(0))); std::string msg = readStr(cz(a[1]), cz(a[2]));
      if (!c.e) { if (c.lo) return 0; violation("assert", msg, st.model); endPath(E_DONE); return 1; }
      assertsSym++; Val ne = mkNot1(c); std::vector<Expr*> cs = slice(st, *c.e->vars); cs.push_back(ne.e); std::vector<u64> m = st.model; sol.st.assertQ++;
      if (sol.check(st.dom, cs, m)) { violation("assert", msg, m);
        // go on along the inputs for which the assertion holds, if there are any
        newStamp(); if (!(evalExpr(c.e, st.model) & 1)) { cs.back() = c.e; m = st.model; if (!sol.check(st.dom, cs, m)) { endPath(E_INFEASIBLE); return 1; } st.model = m; }
        addCons(st, c); }
      return 0; }
    case S_SYM_REACH: { u32 t = (u32)cz(a[0]); if (std::find(st.reach.begin(), st.reach.end(), t) == st.reach.end()) st.reach.push_back(t); return 0; }
    case S_SYM_OBSERVE: { u64 p = cz(a[0]), n = cz(a[1]); for (u64 i = 0; i < n; i++) st.obs.push_back(st.mem.getb(p + i)); st.obs.push_back(C(0xfe)); return 0; }
    case S_SYM_EXPECT: st.expectPanic = cz(a[0]); return 0;
    case S_SYM_CONC: return ret(C(cz(a[0])));
    default: fail("call of unsupported external function " + cf->name);
  }
}

bool Engine::runState() {
  State& st = *S; Frame* fr = st.st.back(); Func* f = fr->f; Val* s = fr->s; u32 pc = fr->pc; u64 cnt = 0;
#define TAKE(ei) do { Edge& E_ = f->edges[ei]; size_t n_ = E_.cp.size(); if (n_ == 1) s[E_.cp[0].first] = G(E_.cp[0].second); else if (n_) { Val tmp_[64]; std::vector<Val> big_; Val* t_ = tmp_; if (n_ > 64) { big_.resize(n_); t_ = big_.data(); } for (size_t q_ = 0; q_ < n_; q_++) t_[q_] = G(E_.cp[q_].second); for (size_t q_ = 0; q_ < n_; q_++) s[E_.cp[q_].first] = t_[q_]; } pc = E_.target; } while (0)
  for (;;) {
    Ins& I = f->code[pc]; fr->pc = pc; pc++;
    if ((++cnt & 0xffff) == 0) { st.insn += 0x10000; limits(); if (st.insn > pathLimit) { violation("nontermination", "one path took more than " + std::to_string(pathLimit) + " instructions", st.model); fail("path instruction limit reached (possible non-termination)"); } }
    switch (I.op) {
      case I_BIN: { const Val &a = G(I.a), &b = G(I.b); unsigned w = I.w;
        if (!a.e && !b.e && w <= 64) { u64 x = a.lo, y = b.lo, r, m = mask64(w); switch (I.sub) { case O_ADD: r = (x + y) & m; break; case O_SUB: r = (x - y) & m; break; case O_MUL: r = (x * y) & m; break; case O_AND: r = x & y; break; case O_OR: r = x | y; break; case O_XOR: r = x ^ y; break;
            case O_SHL: r = y >= w ? 0 : (x << y) & m; break; case O_LSHR: r = y >= w ? 0 : x >> y; break; default: r = (u64)evalOp(O_ASHR, w, x, y, 0, w, w, 0); } s[I.d] = C(r); }
        else s[I.d] = mkBin((Op)I.sub, w, a, b); break; }
      case I_DIV: { const Val &a = G(I.a), &b = G(I.b); if (!b.e && cv(b) == 0) fail("division by zero"); s[I.d] = mkBin((Op)I.sub, I.w, a, b); break; }
      case I_ICMP: { const Val &a = G(I.a), &b = G(I.b);
        if (!a.e && !b.e && I.w <= 64) { u64 x = a.lo, y = b.lo; bool r; switch (I.sub) { case LLVMIntEQ: r = x == y; break; case LLVMIntNE: r = x != y; break; case LLVMIntUGT: r = x > y; break; case LLVMIntUGE: r = x >= y; break; case LLVMIntULT: r = x < y; break; case LLVMIntULE: r = x <= y; break;
            default: { i64 p = I.w == 64 ? (i64)x : (i64)sx(x, I.w), q = I.w == 64 ? (i64)y : (i64)sx(y, I.w); r = I.sub == LLVMIntSGT ? p > q : I.sub == LLVMIntSGE ? p >= q : I.sub == LLVMIntSLT ? p < q : p <= q; } } s[I.d] = C(r); }
        else s[I.d] = mkCmp(I.sub, I.w, a, b); break; }
      case I_SELECT: { const Val& c = G(I.c); if (!c.e) s[I.d] = c.lo ? G(I.a) : G(I.b); else s[I.d] = mkIte(I.w, c, G(I.a), G(I.b)); break; }
      case I_ZEXT: { const Val& a = G(I.a); s[I.d] = a.e ? mkZext(a, I.w2, I.w) : a; break; }
      case I_SEXT: { const Val& a = G(I.a); s[I.d] = mkSext(a, I.w2, I.w); break; }
      case I_TRUNC: { const Val& a = G(I.a); s[I.d] = a.e ? mkExtract(a, I.w2, 0, I.w) : C128(cv(a) & maskw(I.w)); break; }
      case I_COPY: s[I.d] = G(I.a); break;
      case I_BITCAST: { IntrInfo& ii = f->intr[I.a]; Val r = G(ii.args[0]); unsigned w = ii.ws[0]; for (size_t k = 1; k < ii.args.size(); k++) { r = mkConcat(G(ii.args[k]), ii.ws[k], r, w); w += ii.ws[k]; } if (w > 128) fail("wide bitcast"); for (u32 k = 0; k < ii.n; k++) s[I.d + k] = mkExtract(r, w, k * I.w, I.w); break; }
      case I_GEP: { Val a = G(I.a);
        if (I.b >= 0) { const Val& x = s[I.b]; if (!a.e && !x.e) { s[I.d] = C(a.lo + x.lo * I.w + I.imm); break; } a = mkBin(O_ADD, 64, a, mkBin(O_MUL, 64, x, C(I.w))); }
        else if (I.c >= 0) for (auto& g : f->geps[I.c].ix) { Val x = mkSext(G(std::get<0>(g)), std::get<1>(g), 64); a = mkBin(O_ADD, 64, a, mkBin(O_MUL, 64, x, C((u64)std::get<2>(g)))); }
        s[I.d] = a.e ? mkBin(O_ADD, 64, a, C((u64)I.imm)) : C(a.lo + I.imm); break; }
      case I_LOAD: { const Val& a = G(I.a);
        if (!a.e) { u64 x = a.lo + I.imm; Page* p; u32 o = x & (PG - 1); unsigned nb = (I.w + 7) / 8; if (nb <= 8 && x < 0x100000000ULL && (p = st.mem.rd(x)) && !p->s && o + nb <= PG) { u64 v = 0; memcpy(&v, p->d + o, nb); s[I.d] = C(v & mask64(I.w)); break; } }
        s[I.d] = loadAt(a, I.imm, I.w); break; }
      case I_STORE: { const Val& a = G(I.a); u64 x = (a.e ? cz(a) : a.lo) + I.imm; if (x < 0x1000 || x >= 0x100000000ULL) fail("store to invalid address"); st.mem.store(x, G(I.b), I.w); break; }
      case I_ALLOCA: s[I.d] = C(fr->base + I.imm); break;
      case I_BR: TAKE(I.a); break;
      case I_CBR: { const Val& c = G(I.a); if (!c.e) { if (c.lo & 1) TAKE(I.b); else TAKE(I.c); } else { bool t = decide(c); if (t) TAKE(I.b); else TAKE(I.c); } break; }
      case I_SWITCH: { Val v = G(I.a); SwitchInfo& w = f->sw[I.b]; u32 e = w.def;
        if (v.e) v = reduce(st, v, I.w);
        if (v.e) {
          newStamp(); u64 x = (u64)evalExpr(v.e, st.model); auto it = w.idx.find(x); if (it != w.idx.end()) e = it->second;
          Val c;
          if (e != w.def) { c = C(0); for (auto& k : w.cases) if (k.second == e) c = mkBin(O_OR, 1, c, mkBin(O_EQ, I.w, v, C(k.first))); }
          else { c = C(1); for (auto& k : w.cases) if (k.second != e) c = mkBin(O_AND, 1, c, mkNot1(mkBin(O_EQ, I.w, v, C(k.first)))); }
          if (!decide(c)) fail("internal: switch"); }
        else { auto it = w.idx.find(v.lo); if (it != w.idx.end()) e = it->second; }
        TAKE(e); break; }
      case I_RET: {
        auto& l = f->lists[I.a]; st.sp = fr->base; Frame* me = fr; st.st.pop_back();
        if (st.st.empty()) { unrefF(me); st.insn += cnt & 0xffff; endPath(E_DONE); return true; }
        fr = st.st.back(); if (fr->rc > 1) { fr->rc--; fr = cloneF(fr); st.st.back() = fr; }
        CallInfo* ci = me->ci; for (size_t k = 0; k < l.size() && ci->d >= 0; k++) fr->s[ci->d + k] = l[k] >= 0 ? me->s[l[k]] : g_consts[~l[k]];
        unrefF(me); f = fr->f; s = fr->s; pc = fr->pc + 1; if (ci->nextEdge >= 0) TAKE(ci->nextEdge); break; }
      case I_CALL: {
        CallInfo& ci = f->calls[I.a]; Func* cf = ci.callee;
        if (!cf) { u64 p = cz(G(ci.fptr)); auto it = g_byAddr.find(p); if (it == g_byAddr.end()) fail("call through invalid function pointer"); cf = it->second; }
        size_t n = ci.args.size(); Val av[64]; if (n > 64) fail("too many arguments"); for (size_t k = 0; k < n; k++) av[k] = G(ci.args[k]);
        cf->hits++;
        if (cf->stub != S_NONE) { st.insn += cnt & 0xffff; cnt &= ~0xffffULL; if (stub(cf, ci, s, av)) return true; if (ci.nextEdge >= 0) TAKE(ci.nextEdge); break; }
        if (!cf->translated) translate(cf);
        if (cf->params.size() != n) fail("argument count mismatch calling " + cf->name);
        if (st.st.size() > 20000) { panicMsg = "recursion deeper than 20000 calls"; endPath(E_PANIC); return true; }
        Frame* nf = newFrame(cf); nf->base = st.sp; nf->ci = &ci; st.sp += cf->frame; if (st.sp > STACKLIM) { unrefF(nf); panicMsg = "stack overflow"; endPath(E_PANIC); return true; }
        for (size_t k = 0; k < n; k++) nf->s[cf->params[k]] = av[k];
        st.st.push_back(nf); fr = nf; f = cf; s = nf->s; pc = 0; break; }
      case I_INTR: if (I.sub == N_TRAP) { panicMsg = "trap (process abort)"; endPath(E_PANIC); return true; } intrinsic(fr, I); break;
      case I_FBIN: { double a = asD((u64)concretize(G(I.a), I.w), I.w), b = asD((u64)concretize(G(I.b), I.w), I.w), r; if (I.w == 32) { float x = a, y = b, z; switch (I.sub) { case LLVMFAdd: z = x + y; break; case LLVMFSub: z = x - y; break; case LLVMFMul: z = x * y; break; case LLVMFDiv: z = x / y; break; default: z = fmodf(x, y); } r = z; } else switch (I.sub) { case LLVMFAdd: r = a + b; break; case LLVMFSub: r = a - b; break; case LLVMFMul: r = a * b; break; case LLVMFDiv: r = a / b; break; default: r = fmod(a, b); } s[I.d] = C(fromD(r, I.w)); break; }
      case I_FNEG: s[I.d] = mkBin(O_XOR, I.w, G(I.a), C128((u128)1 << (I.w - 1))); break;
      case I_FCMP: { double a = asD((u64)concretize(G(I.a), I.w), I.w), b = asD((u64)concretize(G(I.b), I.w), I.w); bool un = a != a || b != b, r; switch (I.sub) { case LLVMRealPredicateFalse: r = false; break; case LLVMRealOEQ: r = !un && a == b; break; case LLVMRealOGT: r = !un && a > b; break; case LLVMRealOGE: r = !un && a >= b; break; case LLVMRealOLT: r = !un && a < b; break; case LLVMRealOLE: r = !un && a <= b; break; case LLVMRealONE: r = !un && a != b; break; case LLVMRealORD: r = !un; break;
          case LLVMRealUNO: r = un; break; case LLVMRealUEQ: r = un || a == b; break; case LLVMRealUGT: r = un || a > b; break; case LLVMRealUGE: r = un || a >= b; break; case LLVMRealULT: r = un || a < b; break; case LLVMRealULE: r = un || a <= b; break; case LLVMRealUNE: r = un || a != b; break; default: r = true; } s[I.d] = C(r); break; }
      case I_FCAST: { u128 x = concretize(G(I.a), I.w2); switch (I.sub) { case LLVMUIToFP: s[I.d] = C(I.w == 32 ? fromD((float)x, 32) : fromD((double)x, 64)); break; case LLVMSIToFP: { i128 y = sx(x, I.w2); s[I.d] = C(I.w == 32 ? fromD((float)y, 32) : fromD((double)y, 64)); break; } case LLVMFPToUI: s[I.d] = C128((u128)asD((u64)x, I.w2) & maskw(I.w)); break; case LLVMFPToSI: s[I.d] = C128((u128)(i128)asD((u64)x, I.w2) & maskw(I.w)); break; default: s[I.d] = C(fromD(asD((u64)x, I.w2), I.w)); } break; }
      case I_RMW: { u64 p = cz(G(I.a)); if (p < 0x1000) fail("atomic at invalid address"); Val o = st.mem.load(p, I.w), b = G(I.b), r; unsigned w = I.w; switch (I.sub) { case LLVMAtomicRMWBinOpXchg: r = b; break; case LLVMAtomicRMWBinOpAdd: r = mkBin(O_ADD, w, o, b); break; case LLVMAtomicRMWBinOpSub: r = mkBin(O_SUB, w, o, b); break; case LLVMAtomicRMWBinOpAnd: r = mkBin(O_AND, w, o, b); break; case LLVMAtomicRMWBinOpNand: r = mkBin(O_XOR, w, mkBin(O_AND, w, o, b), C128(maskw(w))); break; case LLVMAtomicRMWBinOpOr: r = mkBin(O_OR, w, o, b); break; case LLVMAtomicRMWBinOpXor: r = mkBin(O_XOR, w, o, b); break;
          case LLVMAtomicRMWBinOpUMax: r = mkIte(w, mkBin(O_ULT, w, o, b), b, o); break; case LLVMAtomicRMWBinOpUMin: r = mkIte(w, mkBin(O_ULT, w, b, o), b, o); break; default: fail("atomicrmw"); } st.mem.store(p, r, w); s[I.d] = o; break; }
      case I_CMPXCHG: { u64 p = cz(G(I.a)); if (p < 0x1000) fail("atomic at invalid address"); Val o = st.mem.load(p, I.w); bool eq = decide(mkBin(O_EQ, I.w, o, G(I.b))); if (eq) st.mem.store(p, G(I.c), I.w); s[I.d] = o; s[I.imm] = C(eq); break; }
      case I_UNREACHABLE: fail("unreachable instruction reached in " + f->name);
      default: fail(*(std::string*)I.imm);
    }
  }
}

// ------------------------------------------------------------------ job runner
static std::string esc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string arr(const std::vector<u64>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::to_string(v[i]); return r + "]"; }
struct Job { std::string id, fn; std::vector<u64> args; double limit; };
static Engine* g_eng; static bool g_verbose = false;

static std::string runJob(Engine& E, Mem& base, const Job& j) {
  Solver::Res dummy{false, {}}; (void)dummy;
  E.sol.st = SolverStats(); E.paths = E.done = E.panics = E.infeasible = E.forks = E.asserts = E.assertsSym = E.insns = E.assumeCut = E.conc = E.maxCons = E.maxInputs = E.maxInsn = 0; E.viol.clear(); E.samples.clear(); E.reach.clear(); E.t0 = now(); E.deadline = E.t0 + j.limit; E.lcg = 12345;
  std::string err;
  try {
    auto it = g_byName.find(j.fn); if (it == g_byName.end()) fail("no harness " + j.fn); Func* f = it->second; translate(f);
    State* s = new State(base); s->heap = HEAP0; s->sp = STACK0; Frame* fr = newFrame(f); fr->base = s->sp; s->sp += f->frame; for (size_t k = 0; k < f->params.size(); k++) fr->s[f->params[k]] = C(k < j.args.size() ? j.args[k] : 0); s->st.push_back(fr); E.wl.push_back(s);
    u64 np = 0;
    while (!E.wl.empty()) {
      E.S = E.wl.back(); E.wl.pop_back(); E.runState(); delete E.S; E.S = nullptr;
      if (E.viol.size() >= E.maxViol) { err = ""; break; }
      if ((++np & 63) == 0) E.limits();
    }
  } catch (Abort& a) { err = a.msg; if (E.S) err += E.backtrace() + "\n    inputs " + arr(E.evalInputs(*E.S, E.S->model)); }
  for (State* s : E.wl) delete s; E.wl.clear(); if (E.S) { delete E.S; E.S = nullptr; }
  std::string o = "{\"job\":\"" + esc(j.id) + "\",\"fn\":\"" + esc(j.fn) + "\",\"args\":" + arr(j.args) + ",\"error\":" + (err.empty() ? "null" : "\"" + esc(err) + "\"");
  auto num = [&](const char* k, double v) { char b[64]; if (v == (double)(long long)v) snprintf(b, 64, "%lld", (long long)v); else snprintf(b, 64, "%.4f", v); o += std::string(",\"") + k + "\":" + b; };
  num("paths", E.paths); num("completed", E.done); num("panicked", E.panics); num("cut", E.infeasible); num("forks", E.forks); num("instructions", E.insns); num("asserts", E.asserts); num("symbolic_asserts", E.assertsSym); num("queries", E.sol.st.queries); num("assert_queries", E.sol.st.assertQ); num("sat", E.sol.st.sat); num("unsat", E.sol.st.unsat); num("unary", E.sol.st.unary); num("presolved", E.sol.st.presolved); num("cache_hits", E.sol.st.cacheHits); num("solver_s", E.sol.st.z3s); num("wall_s", now() - E.t0); num("max_constraints", E.maxCons); num("max_inputs", E.maxInputs); num("max_path_instructions", E.maxInsn); num("concretizations", E.conc);
  o += ",\"reach\":["; bool first = true; for (u32 r : E.reach) { o += (first ? "" : ",") + std::to_string(r); first = false; } o += "],\"violations\":["; first = true;
  for (auto& v : E.viol) { o += std::string(first ? "" : ",") + "{\"kind\":\"" + v.kind + "\",\"msg\":\"" + esc(v.msg) + "\",\"inputs\":" + arr(v.inputs) + "}"; first = false; }
  o += "],\"samples\":["; first = true;
  for (auto& x : E.samples) { o += std::string(first ? "" : ",") + "{\"inputs\":" + arr(x.inputs) + ",\"panicked\":" + (x.panicked ? "true" : "false") + ",\"obs\":\""; for (u8 b : x.obs) { char t[4]; snprintf(t, 4, "%02x", b); o += t; } o += "\"}"; first = false; }
  return o + "]}";
}
static int g_argc; static char** g_argv; static int g_rc;
static int realMain(int argc, char** argv) {
  if (argc >= 5 && !strcmp(argv[1], "prep")) return prepModule(argv[2], argv[3], argv[4], argc > 5 ? argv[5] : "");
  if (argc >= 6 && !strcmp(argv[1], "run")) {
    std::vector<Job> jobs; FILE* jf = fopen(argv[3], "r"); if (!jf) { perror("jobs"); return 2; } char line[4096];
    while (fgets(line, sizeof line, jf)) { std::vector<std::string> t; for (char* p = strtok(line, " \n"); p; p = strtok(nullptr, " \n")) t.push_back(p); if (t.size() < 3) continue; Job j; j.id = t[0]; j.fn = t[1]; j.limit = atof(t[2].c_str()); for (size_t i = 3; i < t.size(); i++) j.args.push_back(strtoull(t[i].c_str(), nullptr, 0)); jobs.push_back(j); }
    fclose(jf);
    static Mem base; try { loadModule(argv[2], base); } catch (Abort& a) { fprintf(stderr, "load: %s\n", a.msg.c_str()); return 2; }
    base.fill(STACK0, 0, 4096);
    int n = atoi(argv[5]); g_verbose = getenv("ENGINE_VERBOSE");
    Shared* sh = g_shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->next = 0; sh->violations = 0; sh->first = 0; sh->budget = getenv("ENGINE_BUDGET") ? now() + atof(getenv("ENGINE_BUDGET")) : 0;
    auto worker = [&](int k) {
      std::string fn = std::string(argv[4]) + "/w" + std::to_string(k) + ".jsonl"; FILE* out = fopen(fn.c_str(), "w"); if (!out) { perror("out"); return 2; }
      Engine E; g_eng = &E;
      for (;;) { u32 i = __sync_fetch_and_add(&sh->next, 1); if (i >= jobs.size() || (sh->budget > 0 && now() > sh->budget) || (sh->violations && (sh->violations >= 24 || now() > sh->first + 45))) break; std::string r = runJob(E, base, jobs[i]); fprintf(out, "%s\n", r.c_str()); fflush(out); if (E.sol.cache.size() > 300000) E.sol.cache.clear(); if (E.sol.unaryCache.size() > 1000000) E.sol.unaryCache.clear(); }
      std::string o = "{\"funcs\":["; bool first = true; for (auto& p : g_byName) if (p.second->hits && p.second->crate) { o += std::string(first ? "" : ",") + "\"" + esc(p.first) + "\""; first = false; } o += "],\"stubs\":["; first = true;
      for (auto& p : g_byName) if (p.second->hits && p.second->stub != S_NONE) { o += std::string(first ? "" : ",") + "\"" + esc(p.first) + "\""; first = false; } u64 tot = 0; for (auto& p : g_byName) if (p.second->translated) tot++;
      fprintf(out, "%s],\"translated\":%llu}\n", o.c_str(), (unsigned long long)tot); fclose(out);
      if (E.concProf) { std::vector<std::pair<u64, std::string>> v; for (auto& q : E.concSites) v.push_back({q.second, q.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 20; i++) fprintf(stderr, "concretized %8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
      if (g_verbose) { std::vector<std::pair<u64, std::string>> v; for (auto& p : g_byName) if (p.second->hits) v.push_back({p.second->hits, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%10llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
      return 0; };
    if (n <= 1) { worker(0); return 0; }
    std::vector<pid_t> ps; for (int k = 0; k < n; k++) { fflush(nullptr); pid_t p = fork(); if (p == 0) { _exit(worker(k)); } ps.push_back(p); }
    int rc = 0; for (pid_t p : ps) { int stt; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) rc = 2; }
    return rc;
  }
  fprintf(stderr, "usage: engine prep IN OUT PASSES [HARNESS-PREFIX] | engine run BC JOBS OUTDIR WORKERS\n"); return 2;
}
int main(int argc, char** argv) { // run on a large stack: expressions can be deep
  g_argc = argc; g_argv = argv; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ULL << 30); pthread_t th;
  if (pthread_create(&th, &at, [](void*) -> void* { try { g_rc = realMain(g_argc, g_argv); } catch (Abort& a) { fprintf(stderr, "engine: %s\n", a.msg.c_str()); g_rc = 2; } return nullptr; }, nullptr)) { g_rc = realMain(argc, argv); return g_rc; }
  pthread_join(th, nullptr); return g_rc;
}
