// Core data structures of the symbolic executor: expressions, memory, states.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <memory>
#include <chrono>
#include <z3.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int32_t i32; typedef int64_t i64;
typedef unsigned __int128 u128; typedef __int128 i128;

struct Abort { std::string msg; };
[[noreturn]] inline void fail(const std::string& m) { throw Abort{m}; }

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); return (i128)((v ^ s) - s); }

// ---------------------------------------------------------------- expressions
enum Op : u8 { O_CONST, O_VAR, O_TABLE, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT };

struct Table { std::vector<u64> v; };
struct Expr {
  Op op; u16 w; u32 id; i32 var; // var: >=0 single small variable; -1 constant; -2 several variables or a wide one
  Expr* k[3]; u64 lo, hi; // imm: constant value / var id / extract offset
  Table* tab;
  std::vector<i32>* vars;
  Z3_ast z;
  u64 stamp; u128 ev;
};

struct Val { u64 lo, hi; Expr* e; };
static inline Val C(u64 v) { return Val{v, 0, nullptr}; }
static inline Val C128(u128 v) { return Val{(u64)v, (u64)(v >> 64), nullptr}; }
static inline u128 cv(const Val& v) { return ((u128)v.hi << 64) | v.lo; }

struct VarInfo { u32 n; u16 w; std::string name; }; // n: number of values for small variables, 0 for a wide one
extern std::vector<VarInfo> g_vars;

u128 evalOp(Op op, unsigned w, u128 a, u128 b, u128 c, unsigned wa, unsigned wb, u64 imm);
Expr* mkConstE(u128 v, unsigned w);
Val mkVar(u32 n, u16 w, const std::string& name);
Val mkBin(Op op, unsigned w, Val a, Val b);  // w = operand width; comparison results have width 1
Val mkIte(unsigned w, Val c, Val a, Val b);
Val mkExtract(Val a, unsigned wa, unsigned off, unsigned w);
Val mkZext(Val a, unsigned wa, unsigned w);
Val mkSext(Val a, unsigned wa, unsigned w);
Val mkConcat(Val hi, unsigned wh, Val lo, unsigned wl);
Val mkNot1(Val a);
Expr* toE(Val v, unsigned w);
u128 evalExpr(Expr* e, const std::vector<u64>& model);
Val mkTable(i32 var, unsigned w, std::vector<u64>&& v);
u128 entryOf(Expr* e, u32 i); // value of an expression over one small variable when that variable is i
void newStamp();

struct Bits { u64 b[4]; 
  bool get(u32 i) const { return (b[i >> 6] >> (i & 63)) & 1; }
  void set(u32 i) { b[i >> 6] |= 1ULL << (i & 63); }
  void clr(u32 i) { b[i >> 6] &= ~(1ULL << (i & 63)); }
  bool any() const { return b[0] | b[1] | b[2] | b[3]; }
  bool operator==(const Bits& o) const { return !memcmp(b, o.b, sizeof b); }
  int first() const { for (int i = 0; i < 4; i++) if (b[i]) return i * 64 + __builtin_ctzll(b[i]); return -1; }
  int count() const { int c = 0; for (int i = 0; i < 4; i++) c += __builtin_popcountll(b[i]); return c; }
};
static inline Bits noBits() { return Bits{{0, 0, 0, 0}}; }
static inline Bits fullBits(u32 n) { Bits r = noBits(); for (u32 i = 0; i < n; i++) r.set(i); return r; }

// -------------------------------------------------------------------- memory
static const u32 PG = 512, PGB = 9, CHPG = 2048, CHB = 20, NTOP = 4096;
struct Page { u32 rc; Expr** s; u8 d[PG]; };
struct Chunk { u32 rc; Page* p[CHPG]; };
struct Mem {
  Chunk* top[NTOP];
  Mem() { memset(top, 0, sizeof top); }
  Mem(const Mem& o) { memcpy(top, o.top, sizeof top); for (u32 i = 0; i < NTOP; i++) if (top[i]) top[i]->rc++; }
  Mem& operator=(const Mem&) = delete;
  ~Mem() { for (u32 i = 0; i < NTOP; i++) if (top[i]) unrefC(top[i]); }
  static void unrefP(Page* p) { if (--p->rc == 0) { if (p->s) free(p->s); free(p); } }
  static void unrefC(Chunk* c) { if (--c->rc == 0) { for (u32 i = 0; i < CHPG; i++) if (c->p[i]) unrefP(c->p[i]); free(c); } }
  Page* rd(u64 a) const { u64 t = a >> CHB; if (t >= NTOP || !top[t]) return nullptr; return top[t]->p[(a >> PGB) & (CHPG - 1)]; }
  Page* wr(u64 a) {
    u64 t = a >> CHB; if (t >= NTOP || a < 0x1000) fail("write to invalid address");
    Chunk* c = top[t];
    if (!c) { c = (Chunk*)calloc(1, sizeof(Chunk)); c->rc = 1; top[t] = c; }
    else if (c->rc > 1) { Chunk* n = (Chunk*)malloc(sizeof(Chunk)); memcpy(n, c, sizeof(Chunk)); n->rc = 1; for (u32 i = 0; i < CHPG; i++) if (n->p[i]) n->p[i]->rc++; c->rc--; top[t] = c = n; }
    u32 ix = (a >> PGB) & (CHPG - 1); Page* p = c->p[ix];
    if (!p) { p = (Page*)calloc(1, sizeof(Page)); p->rc = 1; c->p[ix] = p; }
    else if (p->rc > 1) { Page* n = (Page*)malloc(sizeof(Page)); memcpy(n, p, sizeof(Page)); n->rc = 1; if (p->s) { n->s = (Expr**)malloc(PG * sizeof(Expr*)); memcpy(n->s, p->s, PG * sizeof(Expr*)); } p->rc--; c->p[ix] = p = n; }
    return p;
  }
  // one byte as a value of width 8
  Val getb(u64 a) const { Page* p = rd(a); if (!p) return C(0); u32 o = a & (PG - 1); if (p->s && p->s[o]) return Val{0, 0, p->s[o]}; return C(p->d[o]); }
  void setb(u64 a, const Val& v) {
    Page* p = wr(a); u32 o = a & (PG - 1);
    if (v.e) { if (!p->s) p->s = (Expr**)calloc(PG, sizeof(Expr*)); p->s[o] = v.e; }
    else { p->d[o] = (u8)v.lo; if (p->s) p->s[o] = nullptr; }
  }
  void write(u64 a, const u8* src, u64 n) {
    while (n) { Page* p = wr(a); u32 o = a & (PG - 1); u64 m = std::min<u64>(n, PG - o); memcpy(p->d + o, src, m); if (p->s) memset(p->s + o, 0, m * sizeof(Expr*)); a += m; src += m; n -= m; }
  }
  void fill(u64 a, u8 v, u64 n) {
    while (n) { Page* p = wr(a); u32 o = a & (PG - 1); u64 m = std::min<u64>(n, PG - o); memset(p->d + o, v, m); if (p->s) memset(p->s + o, 0, m * sizeof(Expr*)); a += m; n -= m; }
  }
  bool readConc(u64 a, u8* dst, u64 n) const { // false if some byte is symbolic
    while (n) { Page* p = rd(a); u32 o = a & (PG - 1); u64 m = std::min<u64>(n, PG - o);
      if (!p) memset(dst, 0, m); else { if (p->s) for (u64 i = 0; i < m; i++) if (p->s[o + i]) return false; memcpy(dst, p->d + o, m); }
      a += m; dst += m; n -= m; }
    return true;
  }
  void copy(u64 dst, u64 src, u64 n) { // handles overlap like memmove
    if (!n || dst == src) return;
    u8 buf[4096];
    if (dst < src) {
      while (n) { u64 m = std::min<u64>(n, sizeof buf); if (readConc(src, buf, m)) write(dst, buf, m); else for (u64 i = 0; i < m; i++) setb(dst + i, getb(src + i)); dst += m; src += m; n -= m; }
    } else {
      while (n) { u64 m = std::min<u64>(n, sizeof buf); u64 d = dst + n - m, s = src + n - m; if (readConc(s, buf, m)) write(d, buf, m); else for (u64 i = m; i-- > 0;) setb(d + i, getb(s + i)); n -= m; }
    }
  }
  Val load(u64 a, unsigned w) const {
    unsigned nb = (w + 7) / 8;
    Page* p = rd(a); u32 o = a & (PG - 1);
    if (p && !p->s && o + nb <= PG) {
      if (nb <= 8) { u64 v = 0; memcpy(&v, p->d + o, nb); return C(v & mask64(w)); }
      u64 lo, hi = 0; memcpy(&lo, p->d + o, 8); memcpy(&hi, p->d + o + 8, nb - 8); return C128((((u128)hi << 64) | lo) & maskw(w));
    }
    bool sym = false; Val b[16];
    for (unsigned i = 0; i < nb; i++) { b[i] = getb(a + i); if (b[i].e) sym = true; }
    if (!sym) { u128 v = 0; for (unsigned i = nb; i-- > 0;) v = (v << 8) | b[i].lo; return C128(v & maskw(w)); }
    Val r = b[0]; for (unsigned i = 1; i < nb; i++) r = mkConcat(b[i], 8, r, 8 * i);
    if (w != nb * 8) r = mkExtract(r, nb * 8, 0, w);
    return r;
  }
  void store(u64 a, const Val& v, unsigned w) {
    unsigned nb = (w + 7) / 8;
    if (!v.e) { u8 t[16]; memcpy(t, &v.lo, 8); memcpy(t + 8, &v.hi, 8); 
      u32 o = a & (PG - 1); if (o + nb <= PG) { Page* p = wr(a); memcpy(p->d + o, t, nb); if (p->s) memset(p->s + o, 0, nb * sizeof(Expr*)); } else write(a, t, nb); return; }
    Val x = v; if (w != nb * 8) x = mkZext(v, w, nb * 8);
    for (unsigned i = 0; i < nb; i++) setb(a + i, mkExtract(x, nb * 8, 8 * i, 8));
  }
};
