#include "expr.hpp"
ExprPool* P = new ExprPool();
std::vector<VarInfo> g_vars;
static std::unordered_map<std::string, Expr*> varByName;

Expr* mkVar(const std::string& name, unsigned w, u64 maxv) {
  std::string key = name + "/" + std::to_string(w) + "/" + std::to_string(maxv);
  auto it = varByName.find(key); if (it != varByName.end()) return it->second;
  u32 idx = g_vars.size();
  g_vars.push_back({name, w, maxv, nullptr});
  Expr* e = P->get(E_VAR, w, idx, 0, 0, 0, 0);
  e->vs = P->internVS({idx}); e->umax = std::min(maxv, mask64(w));
  if (e->umax != ~0ull) { u64 x = e->umax; unsigned lz = x ? __builtin_clzll(x) : 64; if (lz) e->kz |= lz == 64 ? ~0ull : ~(~0ull >> lz); }
  g_vars[idx].e = e; varByName[key] = e; return e;
}

u128 foldBin(u8 op, u128 a, u128 b, unsigned w) {
  u128 M = maskw(w); a &= M; b &= M;
  switch (op) {
    case E_ADD: return (a + b) & M; case E_SUB: return (a - b) & M; case E_MUL: return (a * b) & M;
    case E_UDIV: return b ? a / b : M; case E_UREM: return b ? a % b : a;
    case E_SDIV: { if (!b) return M; i128 x = sx(a, w), y = sx(b, w); if (y == -1) return (u128)(-x) & M; return (u128)(x / y) & M; }
    case E_SREM: { if (!b) return a; i128 x = sx(a, w), y = sx(b, w); if (y == -1) return 0; return (u128)(x % y) & M; }
    case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & M; case E_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case E_ASHR: { i128 x = sx(a, w); return (u128)(x >> (b >= w ? (w == 128 ? 127 : w - 1) : (unsigned)b)) & M; }
    case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
    case E_EQ: return a == b; case E_ULT: return a < b; case E_SLT: return sx(a, w) < sx(b, w);
  }
  die("foldBin"); 
}

Expr* mkNot(Expr* a) { // 1-bit
  if (isC(a)) return mkConst(a->c ^ 1, 1);
  if (a->op == E_NOT) return a->k[0];
  return P->get(E_NOT, 1, 0, a, 0, 0, 0);
}

Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == E_NOT) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkOr1(c, b) : mkAnd1(mkNot(c), b);
    if (isC(b)) return b->c ? mkOr1(mkNot(c), a) : mkAnd1(c, a);
  }
  if (a->op == E_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == E_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  return P->get(E_ITE, a->w, 0, c, a, b, 0);
}

Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->c >> lo, w);
  switch (a->op) {
    case E_EXTRACT: return mkExtract(a->k[0], a->aux + lo, w);
    case E_CONCAT: { unsigned lw = a->k[1]->w; if (lo >= lw) return mkExtract(a->k[0], lo - lw, w); if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo)); }
    case E_ZEXT: { unsigned iw = a->k[0]->w; if (lo >= iw) return mkConst(0, w); if (lo + w <= iw) return mkExtract(a->k[0], lo, w); return mkZext(mkExtract(a->k[0], lo, iw - lo), w); }
    case E_SEXT: { unsigned iw = a->k[0]->w; if (lo + w <= iw) return mkExtract(a->k[0], lo, w); if (lo == 0) return mkSext(a->k[0], w); break; }
    case E_AND: case E_OR: case E_XOR: return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case E_ITE: if (isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); break;
    case E_SHL: if (isC(a->k[1]) && (u64)a->k[1]->c < a->w) { unsigned s = (u64)a->k[1]->c; if (lo >= s) return mkExtract(a->k[0], lo - s, w); if (lo + w <= s) return mkConst(0, w); } break;
    case E_LSHR: if (isC(a->k[1]) && (u64)a->k[1]->c < a->w) { unsigned s = (u64)a->k[1]->c; if (lo + s + w <= a->w) return mkExtract(a->k[0], lo + s, w); } break;
    case E_ADD: case E_SUB: case E_MUL: if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    default: break;
  }
  if (a->w <= 64) {
    u64 M = mask64(w), kz = (a->kz >> lo) & M, ko = (a->ko >> lo) & M;
    if ((kz | ko) == M) return mkConst(ko, w);
  }
  return P->get(E_EXTRACT, w, lo, a, 0, 0, 0);
}

Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZext(lo, w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w) return mkExtract(lo->k[0], lo->aux, w);
  // hi extract following a complete low expression: Concat(Extract(x, n..), x-low) where lo = Extract(x,0,n) handled above; lo = narrower zext source
  if (hi->op == E_ZEXT) return mkZext(mkConcat(hi->k[0], lo), w);
  if (lo->op == E_CONCAT && hi->op == E_EXTRACT && lo->k[0]->op == E_EXTRACT && lo->k[0]->k[0] == hi->k[0] && hi->aux == lo->k[0]->aux + lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
  return P->get(E_CONCAT, w, 0, hi, lo, 0, 0);
}

Expr* mkZext(Expr* a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(a->c, w);
  if (a->op == E_ZEXT) return mkZext(a->k[0], w);
  if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
  return P->get(E_ZEXT, w, 0, a, 0, 0, 0);
}
Expr* mkSext(Expr* a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst((u128)sx(a->c, a->w), w);
  if (a->w <= 64 && ((a->kz >> (a->w - 1)) & 1)) return mkZext(a, w);
  if (a->op == E_SEXT) return mkSext(a->k[0], w);
  if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  return P->get(E_SEXT, w, 0, a, 0, 0, 0);
}

static bool iteConstTree(Expr* e, int d) { if (isC(e)) return true; return d > 0 && e->op == E_ITE && iteConstTree(e->k[1], d - 1) && iteConstTree(e->k[2], d - 1); }
static Expr* pushIte(u8 op, Expr* ite, Expr* k, bool iteLeft) {
  if (ite->op == E_ITE) return mkIte(ite->k[0], pushIte(op, ite->k[1], k, iteLeft), pushIte(op, ite->k[2], k, iteLeft));
  return iteLeft ? mkBin(op, ite, k) : mkBin(op, k, ite);
}

Expr* mkBin(u8 op, Expr* a, Expr* b) {
  unsigned w = a->w; bool cmp = op == E_EQ || op == E_ULT || op == E_SLT; unsigned rw = cmp ? 1 : w;
  if (a->w != b->w) die("width mismatch");
  if (isC(a) && isC(b)) return mkConst(foldBin(op, a->c, b->c, w), rw);
  bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b); // const on the right
  u128 M = maskw(w);
  if (isC(b)) {
    u128 c = b->c;
    switch (op) {
      case E_ADD: if (c == 0) return a; if (a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, a->k[0], mkConst(a->k[1]->c + c, w)); break;
      case E_SUB: return mkBin(E_ADD, a, mkConst((u128)0 - c, w));
      case E_MUL: if (c == 0) return b; if (c == 1) return a; if (c && !(c & (c - 1))) { unsigned s = 0; while (!((c >> s) & 1)) s++; return mkBin(E_SHL, a, mkConst(s, w)); } break;
      case E_UDIV: if (c == 1) return a; if (c && !(c & (c - 1))) { unsigned s = 0; while (!((c >> s) & 1)) s++; return mkBin(E_LSHR, a, mkConst(s, w)); } break;
      case E_UREM: if (c == 1) return mkConst(0, w); if (c && !(c & (c - 1))) return mkBin(E_AND, a, mkConst(c - 1, w)); if (w <= 64 && a->umax < (u64)c) return a; break;
      case E_SDIV: if (c == 1) return a; break;
      case E_SHL: if (c == 0) return a; if (c >= w) return mkConst(0, w); break;
      case E_LSHR: if (c == 0) return a; if (c >= w) return mkConst(0, w); if (a->op == E_LSHR && isC(a->k[1])) return mkBin(E_LSHR, a->k[0], mkConst(std::min<u128>(a->k[1]->c + c, w), w)); return mkZext(mkExtract(a, (unsigned)c, w - (unsigned)c), w);
      case E_ASHR: if (c == 0) return a; break;
      case E_AND: if (c == 0) return b; if (c == M) return a; if (a->op == E_AND && isC(a->k[1])) return mkBin(E_AND, a->k[0], mkConst(a->k[1]->c & c, w));
        if (w <= 64 && ((~a->kz) & ~(u64)c) == 0) return a; // mask keeps every possibly-set bit
        if ((c & (c + 1)) == 0) { unsigned n = 0; while ((c >> n) & 1) n++; return mkZext(mkExtract(a, 0, n), w); }
        break;
      case E_OR: if (c == 0) return a; if (c == M) return b; break;
      case E_XOR: if (c == 0) return a; if (w == 1) return mkNot(a); break;
      case E_EQ:
        if (w == 1) return c ? a : mkNot(a);
        if (a->op == E_ZEXT) { unsigned iw = a->k[0]->w; if (c >> iw) return mkConst(0, 1); return mkEq(a->k[0], mkConst(c, iw)); }
        if (a->op == E_SEXT) { unsigned iw = a->k[0]->w; if ((u128)(sx(c & maskw(iw), iw)) == (u128)sx(c, w)) return mkEq(a->k[0], mkConst(c, iw)); return mkConst(0, 1); }
        if (a->op == E_ADD && isC(a->k[1])) return mkEq(a->k[0], mkConst(c - a->k[1]->c, w));
        if (a->op == E_XOR && isC(a->k[1])) return mkEq(a->k[0], mkConst(c ^ a->k[1]->c, w));
        if (a->op == E_MUL && isC(a->k[1]) && w <= 64 && a->k[1]->c && (u128)a->k[0]->umax * a->k[1]->c <= M) return c % a->k[1]->c ? mkConst(0, 1) : mkEq(a->k[0], mkConst(c / a->k[1]->c, w));
        if (a->op == E_CONCAT) return mkAnd1(mkEq(a->k[0], mkConst(c >> a->k[1]->w, a->k[0]->w)), mkEq(a->k[1], mkConst(c, a->k[1]->w)));
        if ((a->op == E_XOR || a->op == E_SUB) && c == 0) return mkEq(a->k[0], a->k[1]);
        if (a->op == E_OR && c == 0) return mkAnd1(mkEq(a->k[0], b), mkEq(a->k[1], b));
        break;
      case E_ULT: if (c == 0) return mkConst(0, 1); if (c == 1) return mkEq(a, mkConst(0, w));
        if (a->op == E_MUL && isC(a->k[1]) && w <= 64 && a->k[1]->c && (u128)a->k[0]->umax * a->k[1]->c <= M) return mkUlt(a->k[0], mkConst((c + a->k[1]->c - 1) / a->k[1]->c, w));
        if (a->op == E_ADD && isC(a->k[1]) && w <= 64 && (u128)a->k[0]->umax + a->k[1]->c <= M) return c <= a->k[1]->c ? mkConst(0, 1) : mkUlt(a->k[0], mkConst(c - a->k[1]->c, w));
        if (a->op == E_ZEXT) { unsigned iw = a->k[0]->w; if (c >> iw) return mkConst(1, 1); return mkUlt(a->k[0], mkConst(c, iw)); }
        break;
      default: break;
    }
    if (iteConstTree(a, 6) && a->op == E_ITE) return pushIte(op, a, b, true);
  } else if (isC(a)) {
    u128 c = a->c;
    switch (op) {
      case E_SHL: case E_LSHR: if (c == 0) return a; break;
      case E_UDIV: case E_UREM: break;
      case E_ULT: if (c == M) return mkConst(0, 1);
        if (b->op == E_MUL && isC(b->k[1]) && w <= 64 && b->k[1]->c && (u128)b->k[0]->umax * b->k[1]->c <= M) return mkUlt(mkConst(c / b->k[1]->c, w), b->k[0]);
        if (b->op == E_ADD && isC(b->k[1]) && w <= 64 && (u128)b->k[0]->umax + b->k[1]->c <= M) return c < b->k[1]->c ? mkConst(1, 1) : mkUlt(mkConst(c - b->k[1]->c, w), b->k[0]);
        if (b->op == E_ZEXT) { unsigned iw = b->k[0]->w; if (c >> iw) return mkConst(0, 1); return mkUlt(mkConst(c, iw), b->k[0]); } break;
      default: break;
    }
    if (b->op == E_ITE && iteConstTree(b, 6)) return pushIte(op, b, a, false);
  }
  if (a == b) switch (op) {
    case E_SUB: case E_XOR: return mkConst(0, w); case E_AND: case E_OR: return a; case E_EQ: return mkConst(1, 1); case E_ULT: case E_SLT: return mkConst(0, 1); default: break; }
  if (op == E_SUB) {
    if (a->op == E_ADD && a->k[0] == b) return a->k[1];
    if (a->op == E_ADD && a->k[1] == b) return a->k[0];
    Expr *ab = a, *bb = b; u128 ac = 0, bc = 0;
    if (a->op == E_ADD && isC(a->k[1])) { ab = a->k[0]; ac = a->k[1]->c; }
    if (b->op == E_ADD && isC(b->k[1])) { bb = b->k[0]; bc = b->k[1]->c; }
    if (ab == bb) return mkConst(ac - bc, w);
    if ((ac | bc) != 0) return mkBin(E_ADD, mkBin(E_SUB, ab, bb), mkConst(ac - bc, w));
  }
  if (op == E_ADD && !isC(b)) { // float constants outwards
    Expr *ab = a, *bb = b; u128 ac = 0, bc = 0;
    if (a->op == E_ADD && isC(a->k[1])) { ab = a->k[0]; ac = a->k[1]->c; }
    if (b->op == E_ADD && isC(b->k[1])) { bb = b->k[0]; bc = b->k[1]->c; }
    if ((ac | bc) != 0) return mkBin(E_ADD, mkBin(E_ADD, ab, bb), mkConst(ac + bc, w));
    if (a->op == E_SUB && a->k[1] == b) return a->k[0];
    if (b->op == E_SUB && b->k[1] == a) return b->k[0];
  }
  if (op == E_EQ && !isC(b)) {
    if (a->op == E_ZEXT && b->op == E_ZEXT) { unsigned m = std::max(a->k[0]->w, b->k[0]->w); if (m < w) return mkEq(mkZext(a->k[0], m), mkZext(b->k[0], m)); }
    if (a->op == E_MUL && b->op == E_MUL && isC(a->k[1]) && a->k[1] == b->k[1] && a->k[1]->c && w <= 64 && (u128)a->k[0]->umax * a->k[1]->c <= M && (u128)b->k[0]->umax * b->k[1]->c <= M) return mkEq(a->k[0], b->k[0]);
    if (a->op == E_ADD && b->op == E_ADD && isC(a->k[1]) && isC(b->k[1])) return mkEq(a->k[0], mkBin(E_ADD, b->k[0], mkConst(b->k[1]->c - a->k[1]->c, w)));
  }
  if (op == E_ULT && a->op == E_ZEXT && b->op == E_ZEXT) { unsigned m = std::max(a->k[0]->w, b->k[0]->w); if (m < w) return mkUlt(mkZext(a->k[0], m), mkZext(b->k[0], m)); }
  if (w == 1 && (op == E_AND || op == E_OR)) {
    if (a == mkNot(b)) return mkConst(op == E_OR, 1);
  }
  if (w == 1 && op == E_EQ) { }
  if (w <= 64) {
    if (op == E_EQ) { if (a->umax < b->umin || b->umax < a->umin || (a->kz & b->ko) || (a->ko & b->kz)) return mkConst(0, 1); }
    if (op == E_ULT) { if (a->umax < b->umin) return mkConst(1, 1); if (a->umin >= b->umax) return mkConst(0, 1); }
    if (op == E_SLT) { u64 s = 1ull << (w - 1); if ((a->kz & s) && (b->kz & s)) return mkUlt(a, b); if ((a->ko & s) && (b->kz & s)) return mkConst(1, 1); if ((a->kz & s) && (b->ko & s)) return mkConst(0, 1); if ((a->ko & s) && (b->ko & s)) return mkUlt(a, b); }
    if (op == E_OR && (~a->kz & ~b->kz) == 0 && false) return nullptr;
  }
  Expr* r = P->get(op, rw, 0, a, b, 0, 0);
  if (rw <= 64 && r->umin == r->umax) return mkConst(r->umin, rw);
  return r;
}

static u32 g_stamp = 0;
static u128 ev(Expr* e, const Model& m) {
  if (e->op == E_CONST) return e->c;
  if (e->stamp == g_stamp) return e->val;
  u128 r;
  switch (e->op) {
    case E_VAR: r = e->aux < m.size() ? m[e->aux] : 0; break;
    case E_NOT: r = ev(e->k[0], m) ^ 1; break;
    case E_ITE: r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m); break;
    case E_CONCAT: r = (ev(e->k[0], m) << e->k[1]->w) | ev(e->k[1], m); break;
    case E_EXTRACT: r = (ev(e->k[0], m) >> e->aux) & maskw(e->w); break;
    case E_ZEXT: r = ev(e->k[0], m); break;
    case E_SEXT: r = (u128)sx(ev(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
    default: { u128 a = ev(e->k[0], m), b = ev(e->k[1], m); r = foldBin(e->op, a, b, e->k[0]->w); }
  }
  e->stamp = g_stamp; e->val = r; return r;
}
u128 evalExpr(Expr* e, const Model& m) { ++g_stamp; return ev(e, m); }

// terms are kept for the life of the process: a temporary that is not referenced dies at the next call
static Z3_ast keep(Z3_context c, Z3_ast a) { Z3_inc_ref(c, a); return a; }
static Z3_sort bvSort(Z3_context c, unsigned w) { static std::unordered_map<unsigned, Z3_sort> m; auto it = m.find(w); if (it != m.end()) return it->second; Z3_sort s = Z3_mk_bv_sort(c, w); Z3_inc_ref(c, Z3_sort_to_ast(c, s)); m[w] = s; return s; }
static Z3_ast z3num(Z3_context c, u128 v, unsigned w) {
  if (w <= 64) return keep(c, Z3_mk_unsigned_int64(c, (u64)v, bvSort(c, w)));
  Z3_ast hi = keep(c, Z3_mk_unsigned_int64(c, (u64)(v >> 64), bvSort(c, w - 64))), lo = keep(c, Z3_mk_unsigned_int64(c, (u64)v, bvSort(c, 64)));
  return keep(c, Z3_mk_concat(c, hi, lo));
}
// 1-bit expressions become Bool when they are predicates, others BV; toB converts to Bool.
static Z3_ast toBV(Z3_context c, Expr* e);
static Z3_ast toB(Z3_context c, Expr* e);
static bool isBoolNode(Expr* e) {
  if (e->w != 1) return false;
  switch (e->op) { case E_EQ: case E_ULT: case E_SLT: case E_NOT: case E_AND: case E_OR: case E_XOR: case E_CONST: case E_ITE: return true; default: return false; }
}
static Z3_ast build(Z3_context c, Expr* e) {
  if (isBoolNode(e)) {
    switch (e->op) {
      case E_CONST: return e->c ? Z3_mk_true(c) : Z3_mk_false(c);
      case E_NOT: return Z3_mk_not(c, toB(c, e->k[0]));
      case E_AND: { Z3_ast a[2] = {toB(c, e->k[0]), toB(c, e->k[1])}; return Z3_mk_and(c, 2, a); }
      case E_OR: { Z3_ast a[2] = {toB(c, e->k[0]), toB(c, e->k[1])}; return Z3_mk_or(c, 2, a); }
      case E_XOR: return Z3_mk_xor(c, toB(c, e->k[0]), toB(c, e->k[1]));
      case E_ITE: return Z3_mk_ite(c, toB(c, e->k[0]), toB(c, e->k[1]), toB(c, e->k[2]));
      case E_EQ: if (e->k[0]->w == 1) return Z3_mk_iff(c, toB(c, e->k[0]), toB(c, e->k[1])); return Z3_mk_eq(c, toBV(c, e->k[0]), toBV(c, e->k[1]));
      case E_ULT: return Z3_mk_bvult(c, toBV(c, e->k[0]), toBV(c, e->k[1]));
      case E_SLT: return Z3_mk_bvslt(c, toBV(c, e->k[0]), toBV(c, e->k[1]));
    }
  }
  Z3_ast a = nullptr, b = nullptr;
  if (e->op != E_CONST && e->op != E_VAR && e->op != E_ITE) { a = toBV(c, e->k[0]); if (e->k[1]) b = toBV(c, e->k[1]); }
  switch (e->op) {
    case E_CONST: return z3num(c, e->c, e->w);
    case E_VAR: return Z3_mk_const(c, Z3_mk_int_symbol(c, e->aux), bvSort(c, e->w));
    case E_ADD: return Z3_mk_bvadd(c, a, b); case E_SUB: return Z3_mk_bvsub(c, a, b); case E_MUL: return Z3_mk_bvmul(c, a, b);
    case E_UDIV: return Z3_mk_bvudiv(c, a, b); case E_SDIV: return Z3_mk_bvsdiv(c, a, b); case E_UREM: return Z3_mk_bvurem(c, a, b); case E_SREM: return Z3_mk_bvsrem(c, a, b);
    case E_SHL: return Z3_mk_bvshl(c, a, b); case E_LSHR: return Z3_mk_bvlshr(c, a, b); case E_ASHR: return Z3_mk_bvashr(c, a, b);
    case E_AND: return Z3_mk_bvand(c, a, b); case E_OR: return Z3_mk_bvor(c, a, b); case E_XOR: return Z3_mk_bvxor(c, a, b);
    case E_ITE: return Z3_mk_ite(c, toB(c, e->k[0]), toBV(c, e->k[1]), toBV(c, e->k[2]));
    case E_CONCAT: return Z3_mk_concat(c, a, b);
    case E_EXTRACT: return Z3_mk_extract(c, e->aux + e->w - 1, e->aux, a);
    case E_ZEXT: return Z3_mk_zero_ext(c, e->w - e->k[0]->w, a);
    case E_SEXT: return Z3_mk_sign_ext(c, e->w - e->k[0]->w, a);
  }
  die("toZ3 op");
}
static Z3_ast raw(Z3_context c, Expr* e) { if (!e->z) { Z3_ast r = build(c, e); Z3_inc_ref(c, r); e->z = r; } return e->z; }
static Z3_ast toBV(Z3_context c, Expr* e) { if (e->w == 1 && isBoolNode(e)) { Z3_ast r = raw(c, e), one = z3num(c, 1, 1), zero = z3num(c, 0, 1); return keep(c, Z3_mk_ite(c, r, one, zero)); } return raw(c, e); }
static Z3_ast toB(Z3_context c, Expr* e) { if (e->w == 1 && !isBoolNode(e)) { Z3_ast r = raw(c, e), one = z3num(c, 1, 1); return keep(c, Z3_mk_eq(c, r, one)); } return raw(c, e); }
Z3_ast toZ3(Z3_context c, Expr* e) { return toB(c, e); }

std::string exprStr(Expr* e, int d) {
  static const char* n[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","not","eq","ult","slt","ite","concat","extract","zext","sext"};
  if (e->op == E_CONST) return std::to_string((u64)e->c);
  if (e->op == E_VAR) return g_vars[e->aux].name;
  if (d == 0) return "..";
  std::string s = std::string("(") + n[e->op]; if (e->op == E_EXTRACT) s += "@" + std::to_string(e->aux) + ":" + std::to_string(e->w);
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
