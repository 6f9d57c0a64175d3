#include "core.h"
std::vector<VarInfo> g_vars;
static u32 g_eid = 1; static u64 g_stamp = 1;
void newStamp() { g_stamp++; }

struct EKey { Op op; u16 w; Expr* k[3]; u64 lo, hi; bool operator==(const EKey& o) const { return op == o.op && w == o.w && k[0] == o.k[0] && k[1] == o.k[1] && k[2] == o.k[2] && lo == o.lo && hi == o.hi; } };
struct EHash { size_t operator()(const EKey& x) const { u64 h = x.op * 0x9e3779b97f4a7c15ULL + x.w; auto mix = [&](u64 v) { h ^= v; h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; }; mix((u64)x.k[0]); mix((u64)x.k[1]); mix((u64)x.k[2]); mix(x.lo); mix(x.hi); return h; } };
static std::unordered_map<EKey, Expr*, EHash> g_tab;
static std::unordered_multimap<u64, Expr*> g_ttab;
static std::map<std::vector<i32>, std::vector<i32>*> g_vsets;
static std::vector<i32>* internVars(const std::vector<i32>& v) { auto it = g_vsets.find(v); if (it != g_vsets.end()) return it->second; auto* p = new std::vector<i32>(v); g_vsets[v] = p; return p; }

static Expr* raw(Op op, unsigned w, Expr* a, Expr* b, Expr* c, u64 lo, u64 hi) {
  EKey key{op, (u16)w, {a, b, c}, lo, hi};
  auto it = g_tab.find(key); if (it != g_tab.end()) return it->second;
  Expr* e = (Expr*)calloc(1, sizeof(Expr)); e->op = op; e->w = w; e->id = g_eid++; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->lo = lo; e->hi = hi;
  if (op == O_CONST) { e->var = -1; e->vars = internVars({}); }
  else if (op == O_VAR) { e->vars = internVars({(i32)lo}); e->var = g_vars[lo].n ? (i32)lo : -2; }
  else {
    std::vector<i32>* s = a->vars;
    for (Expr* x : {b, c}) if (x && x->vars != s) { std::vector<i32> m; std::set_union(s->begin(), s->end(), x->vars->begin(), x->vars->end(), std::back_inserter(m)); s = internVars(m); }
    e->vars = s; e->var = s->empty() ? -1 : (s->size() == 1 && g_vars[(*s)[0]].n ? (*s)[0] : -2);
  }
  g_tab.emplace(key, e); return e;
}
Expr* mkConstE(u128 v, unsigned w) { return raw(O_CONST, w, nullptr, nullptr, nullptr, (u64)v, (u64)(v >> 64)); }
static Val wrap(Expr* e) { if (e->op == O_CONST) return Val{e->lo, e->hi, nullptr}; return Val{0, 0, e}; }
Expr* toE(Val v, unsigned w) { if (v.e) return v.e; return mkConstE(cv(v), w); }

u128 evalOp(Op op, unsigned w, u128 a, u128 b, u128 c, unsigned wa, unsigned wb, u64 imm) {
  u128 m = maskw(w);
  switch (op) {
    case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? (a / b) & m : m; case O_UREM: return b ? a % b : a;
    case O_SDIV: { i128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; return (u128)(x / y) & m; }
    case O_SREM: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a; return (u128)(x % y) & m; }
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m; case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case O_ASHR: { i128 x = sx(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; if (s > 127) s = 127; return (u128)(x >> s) & m; }
    case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
    case O_SLT: return sx(a, wa) < sx(b, wa); case O_SLE: return sx(a, wa) <= sx(b, wa);
    case O_ITE: return a ? b : c; case O_CONCAT: return (a << wb) | b; case O_EXTRACT: return (a >> (unsigned)imm) & m;
    case O_ZEXT: return a; case O_SEXT: return (u128)sx(a, wa) & m;
    default: fail("evalOp");
  }
}
u128 evalExpr(Expr* e, const std::vector<u64>& model) {
  if (e->op == O_CONST) return ((u128)e->hi << 64) | e->lo;
  if (e->op == O_VAR) return model[e->lo];
  if (e->op == O_TABLE) return e->tab->v[model[e->var]];
  if (e->stamp == g_stamp) return e->ev;
  u128 a = evalExpr(e->k[0], model), r;
  if (e->op == O_ITE) r = evalExpr(e->k[a ? 1 : 2], model);
  else { u128 b = e->k[1] ? evalExpr(e->k[1], model) : 0; r = evalOp(e->op, e->w, a, b, 0, e->k[0]->w, e->k[1] ? e->k[1]->w : 0, e->lo); }
  e->stamp = g_stamp; e->ev = r; return r;
}
static Expr* internTable(i32 var, unsigned w, std::vector<u64>&& v) {
  bool same = true; for (u64 x : v) if (x != v[0]) { same = false; break; }
  if (same) return mkConstE(v[0], w);
  // the identity table is the variable itself
  if (w == g_vars[var].w) { bool id = true; for (size_t i = 0; i < v.size(); i++) if (v[i] != i) { id = false; break; } if (id) return raw(O_VAR, w, nullptr, nullptr, nullptr, var, 0); }
  u64 h = var * 1315423911ULL + w; for (u64 x : v) { h ^= x; h *= 0xff51afd7ed558ccdULL; h ^= h >> 29; }
  auto r = g_ttab.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) if (it->second->var == var && it->second->w == w && it->second->tab->v == v) return it->second;
  Expr* e = (Expr*)calloc(1, sizeof(Expr)); e->op = O_TABLE; e->w = w; e->id = g_eid++; e->var = var; e->vars = internVars({var}); e->tab = new Table{std::move(v)};
  g_ttab.emplace(h, e); return e;
}
static std::vector<u64> g_tmpModel;
static inline u128 entry(Expr* e, u32 i) {
  if (!e) return 0;
  switch (e->op) { case O_CONST: return ((u128)e->hi << 64) | e->lo; case O_VAR: return i; case O_TABLE: return e->tab->v[i];
    default: newStamp(); if (g_tmpModel.size() < g_vars.size()) g_tmpModel.resize(g_vars.size()); g_tmpModel[(*e->vars)[0]] = i; return evalExpr(e, g_tmpModel); }
}
u128 entryOf(Expr* e, u32 i) { return entry(e, i); }
Val mkTable(i32 var, unsigned w, std::vector<u64>&& v) { return wrap(internTable(var, w, std::move(v))); }
static Val build(Op op, unsigned w, Expr* a, Expr* b, Expr* c, u64 imm) {
  // collapse to a table when everything depends on one small variable
  i32 var = -1; bool single = w <= 64;
  for (Expr* x : {a, b, c}) if (x && x->var != -1) { if (x->var == -2 || (var != -1 && var != x->var)) single = false; else var = x->var; }
  if (single && var >= 0) {
    u32 n = g_vars[var].n; std::vector<u64> v(n);
    for (u32 i = 0; i < n; i++) v[i] = (u64)evalOp(op, w, entry(a, i), entry(b, i), entry(c, i), a->w, b ? b->w : 0, imm);
    return wrap(internTable(var, w, std::move(v)));
  }
  if (a->op == O_CONST && (!b || b->op == O_CONST) && (!c || c->op == O_CONST))
    return C128(evalOp(op, w, ((u128)a->hi << 64) | a->lo, b ? ((u128)b->hi << 64) | b->lo : 0, c ? ((u128)c->hi << 64) | c->lo : 0, a->w, b ? b->w : 0, imm));
  return wrap(raw(op, w, a, b, c, imm, 0));
}
Val mkVar(u32 n, u16 w, const std::string& name) { u32 id = g_vars.size(); g_vars.push_back({n, w, name}); if (n == 1) return C(0); return wrap(raw(O_VAR, w, nullptr, nullptr, nullptr, id, 0)); }
Val mkNot1(Val a) { return mkBin(O_XOR, 1, a, C(1)); }

Val mkBin(Op op, unsigned w, Val a, Val b) {
  bool cmp = op >= O_EQ && op <= O_SLE; unsigned rw = cmp ? 1 : w;
  if (!a.e && !b.e) return C128(evalOp(op, rw, cv(a), cv(b), 0, w, w, 0));
  if (!a.e && (op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ)) std::swap(a, b);
  u128 m = maskw(w);
  if (!b.e) {
    u128 k = cv(b);
    switch (op) {
      case O_ADD: case O_SUB: case O_OR: case O_XOR: case O_SHL: case O_LSHR: case O_ASHR: if (k == 0) return a; break;
      case O_MUL: if (k == 0) return C(0); if (k == 1) return a; break;
      case O_AND: if (k == 0) return C(0); if (k == m) return a; break;
      case O_UDIV: case O_SDIV: if (k == 1) return a; break;
      case O_ULT: if (k == 0) return C(0); break;
      case O_ULE: if (k == m) return C(1); break;
      default: break;
    }
    if (op == O_OR && k == m) return b;
    if (op == O_SUB) return mkBin(O_ADD, w, a, C128((~k + 1) & m));
    if ((op == O_SHL || op == O_LSHR) && k >= w) return C(0);
    Expr* x = a.e;
    // constant shifts and masks become concatenations and extractions, so that stored bytes can be put together again
    if (x->var == -2) {
      if (op == O_SHL) return mkConcat(mkExtract(a, w, 0, w - (unsigned)k), w - (unsigned)k, C(0), (unsigned)k);
      if (op == O_LSHR) return mkZext(mkExtract(a, w, (unsigned)k, w - (unsigned)k), w - (unsigned)k, w);
      if (op == O_AND && ((k + 1) & k) == 0) { unsigned n = 0; while ((k >> n) & 1) n++; return mkZext(mkExtract(a, w, 0, n), n, w); }
      if (op == O_ADD && x->op == O_ADD && x->k[1]->op == O_CONST) return mkBin(O_ADD, w, wrap(x->k[0]), C128((k + (((u128)x->k[1]->hi << 64) | x->k[1]->lo)) & m));
      if (op == O_EQ && w == 1) return k ? a : mkNot1(a);
      if (op == O_EQ && x->op == O_ZEXT) { unsigned wi = x->k[0]->w; if (k >> wi) return C(0); return mkBin(O_EQ, wi, wrap(x->k[0]), b); }
      if ((op == O_ULT || op == O_ULE) && x->op == O_ZEXT) { unsigned wi = x->k[0]->w; if (k >> wi) return C(1); return mkBin(op, wi, wrap(x->k[0]), b); }
      if (op == O_EQ && x->op == O_CONCAT) { unsigned wl = x->k[1]->w, wh = x->k[0]->w; Val h = mkBin(O_EQ, wh, wrap(x->k[0]), C128(k >> wl)), l = mkBin(O_EQ, wl, wrap(x->k[1]), C128(k & maskw(wl))); return mkBin(O_AND, 1, h, l); }
      if (op == O_EQ && x->op == O_ITE && (x->k[1]->op == O_CONST || x->k[2]->op == O_CONST)) return mkIte(1, wrap(x->k[0]), mkBin(O_EQ, w, wrap(x->k[1]), b), mkBin(O_EQ, w, wrap(x->k[2]), b));
      if ((op == O_SLT || op == O_ULT || op == O_SLE || op == O_ULE) && x->op == O_ITE && x->k[1]->op == O_CONST && x->k[2]->op == O_CONST) return mkIte(1, wrap(x->k[0]), mkBin(op, w, wrap(x->k[1]), b), mkBin(op, w, wrap(x->k[2]), b));
      if (op == O_XOR && w == 1 && x->op == O_XOR && x->k[1]->op == O_CONST) return wrap(x->k[0]); // not not
      if (op == O_XOR && w == 1) {
        if (x->op == O_ULT) return mkBin(O_ULE, x->k[0]->w, wrap(x->k[1]), wrap(x->k[0]));
        if (x->op == O_ULE) return mkBin(O_ULT, x->k[0]->w, wrap(x->k[1]), wrap(x->k[0]));
        if (x->op == O_SLT) return mkBin(O_SLE, x->k[0]->w, wrap(x->k[1]), wrap(x->k[0]));
        if (x->op == O_SLE) return mkBin(O_SLT, x->k[0]->w, wrap(x->k[1]), wrap(x->k[0]));
        if (x->op == O_AND) return mkBin(O_OR, 1, mkNot1(wrap(x->k[0])), mkNot1(wrap(x->k[1])));
        if (x->op == O_OR) return mkBin(O_AND, 1, mkNot1(wrap(x->k[0])), mkNot1(wrap(x->k[1])));
      }
      if (op == O_OR && x->op == O_ITE && x->k[1]->op == O_CONST && x->k[2]->op == O_CONST) return mkIte(w, wrap(x->k[0]), mkBin(op, w, wrap(x->k[1]), b), mkBin(op, w, wrap(x->k[2]), b));
    }
  }
  if (!a.e) { u128 k = cv(a);
    if ((op == O_SHL || op == O_LSHR) && k == 0) return C(0);
    if (op == O_ULE && k == 0) return C(1);
    if (op == O_ULT && k == m) return C(0);
    if ((op == O_ULT || op == O_ULE) && b.e->op == O_ZEXT && b.e->var == -2) { unsigned wi = b.e->k[0]->w; if (k >> wi) return C(0); return mkBin(op, wi, a, wrap(b.e->k[0])); }
  }
  if (a.e && b.e && a.e == b.e) switch (op) {
    case O_SUB: case O_XOR: return C(0); case O_AND: case O_OR: return a; case O_EQ: case O_ULE: case O_SLE: return C(1); case O_ULT: case O_SLT: return C(0); default: break; }
  if (a.e && b.e && w > 1 && op == O_EQ && a.e->op == O_ZEXT && b.e->op == O_ZEXT && a.e->k[0]->w == b.e->k[0]->w) return mkBin(O_EQ, a.e->k[0]->w, wrap(a.e->k[0]), wrap(b.e->k[0]));
  if (a.e && b.e && op == O_EQ && a.e->op == O_CONCAT && b.e->op == O_CONCAT && a.e->k[0]->w == b.e->k[0]->w) {
    unsigned wl = a.e->k[1]->w, wh = a.e->k[0]->w; return mkBin(O_AND, 1, mkBin(O_EQ, wh, wrap(a.e->k[0]), wrap(b.e->k[0])), mkBin(O_EQ, wl, wrap(a.e->k[1]), wrap(b.e->k[1]))); }
  // or of disjoint pieces: zext(x) | (y << k)  ->  concat
  if (op == O_OR && a.e && b.e && w > 1 && (a.e->var == -2 || b.e->var == -2 || a.e->var != b.e->var)) {
    for (int t = 0; t < 2; t++) {
      Expr *hi = t ? a.e : b.e, *lo = t ? b.e : a.e;
      if (hi->op == O_CONCAT && hi->k[1]->op == O_CONST && hi->k[1]->lo == 0 && hi->k[1]->hi == 0) {
        unsigned wl = hi->k[1]->w;
        if (lo->op == O_ZEXT && lo->k[0]->w <= wl) return mkConcat(wrap(hi->k[0]), hi->k[0]->w, mkZext(wrap(lo->k[0]), lo->k[0]->w, wl), wl);
      }
      if (hi->op == O_ZEXT && hi->k[0]->op == O_CONCAT && hi->k[0]->k[1]->op == O_CONST && hi->k[0]->k[1]->lo == 0 && lo->op == O_ZEXT && lo->k[0]->w <= hi->k[0]->k[1]->w) {
        Expr* h = hi->k[0]; unsigned wl = h->k[1]->w; return mkZext(mkConcat(wrap(h->k[0]), h->k[0]->w, mkZext(wrap(lo->k[0]), lo->k[0]->w, wl), wl), h->w, w); }
    }
  }
  return build(op, rw, toE(a, w), toE(b, w), nullptr, 0);
}
Val mkIte(unsigned w, Val c, Val a, Val b) {
  if (!c.e) return c.lo ? a : b;
  if (a.e == b.e && a.lo == b.lo && a.hi == b.hi) return a;
  if (w == 1) {
    if (!a.e && !b.e) return a.lo ? c : mkNot1(c);
    if (!a.e) return a.lo ? mkBin(O_OR, 1, c, b) : mkBin(O_AND, 1, mkNot1(c), b);
    if (!b.e) return b.lo ? mkBin(O_OR, 1, mkNot1(c), a) : mkBin(O_AND, 1, c, a);
  }
  return build(O_ITE, w, c.e, toE(a, w), toE(b, w), 0);
}
Val mkExtract(Val a, unsigned wa, unsigned off, unsigned w) {
  if (!a.e) return C128((cv(a) >> off) & maskw(w));
  if (off == 0 && w == wa) return a;
  Expr* x = a.e;
  if (x->var == -2 || wa > 64) {
    if (x->op == O_EXTRACT) return mkExtract(wrap(x->k[0]), x->k[0]->w, off + x->lo, w);
    if (x->op == O_CONCAT) { unsigned wl = x->k[1]->w; if (off >= wl) return mkExtract(wrap(x->k[0]), x->k[0]->w, off - wl, w); if (off + w <= wl) return mkExtract(wrap(x->k[1]), wl, off, w);
      return mkConcat(mkExtract(wrap(x->k[0]), x->k[0]->w, 0, off + w - wl), off + w - wl, mkExtract(wrap(x->k[1]), wl, off, wl - off), wl - off); }
    if (x->op == O_ZEXT) { unsigned wi = x->k[0]->w; if (off >= wi) return C(0); if (off + w <= wi) return mkExtract(wrap(x->k[0]), wi, off, w); return mkZext(mkExtract(wrap(x->k[0]), wi, off, wi - off), wi - off, w); }
    if (x->op == O_SEXT) { unsigned wi = x->k[0]->w; if (off + w <= wi) return mkExtract(wrap(x->k[0]), wi, off, w); }
    if (x->op == O_ITE) { // push through: keeps bytes of selected constants simple
      bool ca = x->k[1]->op == O_CONST, cb = x->k[2]->op == O_CONST; if (ca || cb) return mkIte(w, wrap(x->k[0]), mkExtract(wrap(x->k[1]), wa, off, w), mkExtract(wrap(x->k[2]), wa, off, w)); }
    if ((x->op == O_AND || x->op == O_OR || x->op == O_XOR)) return mkBin(x->op, w, mkExtract(wrap(x->k[0]), wa, off, w), mkExtract(wrap(x->k[1]), wa, off, w));
    if (off == 0 && (x->op == O_ADD || x->op == O_SUB || x->op == O_MUL)) return mkBin(x->op, w, mkExtract(wrap(x->k[0]), wa, 0, w), mkExtract(wrap(x->k[1]), wa, 0, w));
  }
  return build(O_EXTRACT, w, x, nullptr, nullptr, off);
}
Val mkZext(Val a, unsigned wa, unsigned w) {
  if (wa == w) return a; if (!a.e) return a;
  if (a.e->op == O_ZEXT) return mkZext(wrap(a.e->k[0]), a.e->k[0]->w, w);
  return build(O_ZEXT, w, a.e, nullptr, nullptr, 0);
}
Val mkSext(Val a, unsigned wa, unsigned w) {
  if (wa == w) return a; if (!a.e) return C128((u128)sx(cv(a), wa) & maskw(w));
  if (a.e->op == O_ZEXT) return mkZext(wrap(a.e->k[0]), a.e->k[0]->w, w);
  if (wa == 1) return mkIte(w, a, C128(maskw(w)), C(0));
  return build(O_SEXT, w, a.e, nullptr, nullptr, 0);
}
Val mkConcat(Val h, unsigned wh, Val l, unsigned wl) {
  if (!h.e && !l.e) return C128((cv(h) << wl) | cv(l));
  if (!h.e && h.lo == 0 && h.hi == 0) return mkZext(l, wl, wh + wl);
  if (h.e && l.e && h.e->op == O_EXTRACT && l.e->op == O_EXTRACT && h.e->k[0] == l.e->k[0] && h.e->lo == l.e->lo + wl) return mkExtract(wrap(h.e->k[0]), h.e->k[0]->w, l.e->lo, wh + wl);
  // concat(extract(x,hi..), concat(extract(x,..lo), r))
  if (h.e && l.e && h.e->op == O_EXTRACT && l.e->op == O_CONCAT && l.e->k[0]->op == O_EXTRACT && l.e->k[0]->k[0] == h.e->k[0] && h.e->lo == l.e->k[0]->lo + l.e->k[0]->w)
    return mkConcat(mkExtract(wrap(h.e->k[0]), h.e->k[0]->w, l.e->k[0]->lo, wh + l.e->k[0]->w), wh + l.e->k[0]->w, wrap(l.e->k[1]), l.e->k[1]->w);
  return build(O_CONCAT, wh + wl, toE(h, wh), toE(l, wl), nullptr, 0);
}
