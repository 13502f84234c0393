// Bit-vector expression DAG: hash-consed, simplified on construction, with known-bits and range
// analysis, evaluation under a model, and translation to Z3.
#pragma once
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <z3.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int32_t i32; typedef int64_t i64; typedef unsigned __int128 u128; typedef __int128 i128;

[[noreturn]] inline void die(const char* fmt, const char* a = "") { fprintf(stderr, "rsym: fatal: "); fprintf(stderr, fmt, a); fprintf(stderr, "\n"); fflush(stderr); _exit(3); }

enum EOp : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR,
  E_AND, E_OR, E_XOR, E_NOT, E_EQ, E_ULT, E_SLT, E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT };

struct VarSet { std::vector<u32> v; u32 id; };
struct Expr {
  u8 op; u16 w; u32 id; u32 aux; // aux: extract low bit / var index
  Expr* k[3]; u128 c;
  VarSet* vs;
  u64 umin, umax, kz, ko; // only meaningful for w<=64
  u32 stamp; u32 mix; u128 val; Z3_ast z; // mix: how often two symbolic values were mixed arithmetically on the way here (hash functions)
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ s) - s); }

struct VarInfo { std::string name; u32 w; u64 maxv; Expr* e; };
extern std::vector<VarInfo> g_vars;

struct Arena {
  std::vector<char*> blocks; size_t off = 0, cap = 0;
  void* alloc(size_t n) { n = (n + 15) & ~(size_t)15; if (off + n > cap) { cap = 1 << 22; blocks.push_back((char*)aligned_alloc(16, cap)); off = 0; } void* p = blocks.back() + off; off += n; return p; }
};

struct ExprPool {
  Arena ar; std::vector<Expr*> tab; size_t n = 0; u32 nextId = 1;
  std::map<std::vector<u32>, VarSet*> vsets; std::unordered_map<u64, VarSet*> unions; VarSet* emptyVS; u32 vsid = 0;
  ExprPool() { tab.assign(1 << 16, nullptr); emptyVS = internVS({}); }
  VarSet* internVS(const std::vector<u32>& v) { auto it = vsets.find(v); if (it != vsets.end()) return it->second; VarSet* s = new VarSet{v, vsid++}; vsets[v] = s; return s; }
  VarSet* unite(VarSet* a, VarSet* b) {
    if (a == b || b->v.empty()) return a; if (a->v.empty()) return b;
    if (a->id > b->id) std::swap(a, b);
    u64 key = ((u64)a->id << 32) | b->id; auto it = unions.find(key); if (it != unions.end()) return it->second;
    std::vector<u32> r; std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
    VarSet* s = internVS(r); unions[key] = s; return s;
  }
  static u64 hashOf(u8 op, u16 w, u32 aux, Expr* a, Expr* b, Expr* d, u128 c) {
    u64 h = op * 0x9E3779B97F4A7C15ull + w * 0xC2B2AE3D27D4EB4Full + aux * 0x165667B19E3779F9ull;
    auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
    mix(a ? a->id : 0); mix(b ? b->id : 0); mix(d ? d->id : 0); mix((u64)c); mix((u64)(c >> 64)); return h;
  }
  Expr* get(u8 op, u16 w, u32 aux, Expr* a, Expr* b, Expr* d, u128 c) {
    u64 h = hashOf(op, w, aux, a, b, d, c); size_t m = tab.size() - 1; size_t i = h & m;
    while (tab[i]) { Expr* e = tab[i]; if (e->op == op && e->w == w && e->aux == aux && e->k[0] == a && e->k[1] == b && e->k[2] == d && e->c == c) return e; i = (i + 1) & m; }
    Expr* e = (Expr*)ar.alloc(sizeof(Expr)); e->op = op; e->w = w; e->aux = aux; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->c = c; e->id = nextId++; e->stamp = 0; e->z = nullptr;
    VarSet* vs = emptyVS; if (a) vs = unite(vs, a->vs); if (b) vs = unite(vs, b->vs); if (d) vs = unite(vs, d->vs); e->vs = vs;
    e->mix = std::max({a ? a->mix : 0u, b ? b->mix : 0u, d ? d->mix : 0u}); if ((op == E_XOR || op == E_ADD || op == E_SUB || op == E_MUL) && a->op != E_CONST && b->op != E_CONST) e->mix++;
    analyse(e);
    tab[i] = e; if (++n * 2 > tab.size()) grow();
    return e;
  }
  void grow() { std::vector<Expr*> o; o.swap(tab); tab.assign(o.size() * 2, nullptr); size_t m = tab.size() - 1; for (Expr* e : o) if (e) { size_t i = hashOf(e->op, e->w, e->aux, e->k[0], e->k[1], e->k[2], e->c) & m; while (tab[i]) i = (i + 1) & m; tab[i] = e; } }
  void analyse(Expr* e) {
    unsigned w = e->w; u64 M = mask64(w);
    e->umin = 0; e->umax = M; e->kz = ~M; e->ko = 0;
    if (w > 64) return;
    Expr *a = e->k[0], *b = e->k[1], *d = e->k[2];
    bool small = (!a || a->w <= 64) && (!b || b->w <= 64);
    switch (e->op) {
      case E_CONST: e->umin = e->umax = (u64)e->c; e->ko = (u64)e->c; e->kz = ~(u64)e->c; break;
      case E_VAR: break;
      case E_ZEXT: e->umin = a->umin; e->umax = a->umax; e->kz = a->kz; e->ko = a->ko; break;
      case E_SEXT: if ((a->kz >> (a->w - 1)) & 1) { e->umin = a->umin; e->umax = a->umax; e->kz = a->kz; e->ko = a->ko; } else if (a->w > 1) { e->ko = a->ko & mask64(a->w - 1); e->kz = (a->kz & mask64(a->w - 1)) | ~M; } break;
      case E_CONCAT: if (small) { e->kz = ((a->kz << b->w)) | (b->kz & mask64(b->w)); e->kz |= ~M; e->ko = (a->ko << b->w) | b->ko; e->umin = (a->umin << b->w) + b->umin; e->umax = (a->umax << b->w) + b->umax; } break;
      case E_EXTRACT: if (a->w <= 64) { e->kz = (a->kz >> e->aux) | ~M; e->ko = (a->ko >> e->aux) & M; if ((a->umax >> e->aux) <= M) { e->umax = a->umax >> e->aux; e->umin = a->umin >> e->aux; } } break;
      case E_AND: e->kz = a->kz | b->kz; e->ko = a->ko & b->ko; e->umax = std::min(a->umax, b->umax); break;
      case E_OR: e->kz = a->kz & b->kz; e->ko = a->ko | b->ko; e->umin = std::max(a->umin, b->umin); break;
      case E_XOR: e->kz = (a->kz & b->kz) | (a->ko & b->ko) ; e->ko = (a->kz & b->ko) | (a->ko & b->kz); e->ko &= M; e->kz |= ~M; break;
      case E_ADD: { u128 hi = (u128)a->umax + b->umax; if (hi <= M) { e->umax = (u64)hi; e->umin = a->umin + b->umin; }
          else { u128 lo = (u128)a->umin + b->umin; if (lo > M) { e->umin = (u64)lo & M; e->umax = (u64)hi & M; } }
          u64 tz = std::min(ctz1(~a->kz), ctz1(~b->kz)); if (tz) e->kz |= mask64(tz); break; }
      case E_SUB: if (a->umin >= b->umax) { e->umin = a->umin - b->umax; e->umax = a->umax - b->umin; } { u64 tz = std::min(ctz1(~a->kz), ctz1(~b->kz)); if (tz) e->kz |= mask64(tz); } break;
      case E_MUL: { u128 hi = (u128)a->umax * b->umax; if (hi <= M) { e->umax = (u64)hi; e->umin = a->umin * b->umin; } u64 tz = std::min<u64>(64, ctz1(~a->kz) + ctz1(~b->kz)); if (tz) e->kz |= mask64(tz); break; }
      case E_SHL: if (b->op == E_CONST && (u64)b->c < w) { unsigned s = (u64)b->c; e->kz = (a->kz << s) | mask64(s) | ~M; if (s == 0) e->kz = a->kz; e->ko = (a->ko << s) & M; if (a->umax <= (M >> s)) { e->umax = a->umax << s; e->umin = a->umin << s; } } break;
      case E_LSHR: if (b->op == E_CONST && (u64)b->c < w) { unsigned s = (u64)b->c; e->kz = s ? ((a->kz >> s) | ~(M >> s)) : a->kz; e->ko = a->ko >> s; e->umax = a->umax >> s; e->umin = a->umin >> s; } else e->umax = a->umax; break;
      case E_UDIV: if (b->umin > 0) { e->umax = a->umax / b->umin; e->umin = b->umax ? a->umin / b->umax : 0; } break;
      case E_UREM: if (b->umin > 0) { e->umax = std::min(a->umax, b->umax - 1); } break;
      case E_ITE: e->umin = std::min(b->umin, d->umin); e->umax = std::max(b->umax, d->umax); e->kz = b->kz & d->kz; e->ko = b->ko & d->ko; break;
      default: break;
    }
    e->umax = std::min(e->umax, ~e->kz); e->umin = std::max(e->umin, e->ko);
    if (e->umin > e->umax) { e->umin = 0; e->umax = M; e->kz = ~M; e->ko = 0; return; }
    // high zero bits from the range
    if (e->umax != ~0ull) { u64 x = e->umax; unsigned lz = x ? __builtin_clzll(x) : 64; if (lz) e->kz |= lz == 64 ? ~0ull : ~(~0ull >> lz); }
  }
  static u64 ctz1(u64 x) { return x ? __builtin_ctzll(x) : 64; }
};
extern ExprPool* P;

static inline Expr* mkConst(u128 v, unsigned w) { return P->get(E_CONST, w, 0, 0, 0, 0, v & maskw(w)); }
static inline bool isC(Expr* e) { return e->op == E_CONST; }
Expr* mkVar(const std::string& name, unsigned w, u64 maxv);
Expr* mkNot(Expr* a); Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w); Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZext(Expr* a, unsigned w); Expr* mkSext(Expr* a, unsigned w);
Expr* mkBin(u8 op, Expr* a, Expr* b);
static inline Expr* mkEq(Expr* a, Expr* b) { return mkBin(E_EQ, a, b); }
static inline Expr* mkUlt(Expr* a, Expr* b) { return mkBin(E_ULT, a, b); }
static inline Expr* mkSlt(Expr* a, Expr* b) { return mkBin(E_SLT, a, b); }
static inline Expr* mkAnd1(Expr* a, Expr* b) { return mkBin(E_AND, a, b); }
static inline Expr* mkOr1(Expr* a, Expr* b) { return mkBin(E_OR, a, b); }
u128 foldBin(u8 op, u128 a, u128 b, unsigned w);

typedef std::vector<u64> Model; // by var index; missing = 0
u128 evalExpr(Expr* e, const Model& m);
Z3_ast toZ3(Z3_context c, Expr* e);
std::string exprStr(Expr* e, int depth = 6);
