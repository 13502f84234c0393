// rsym: a bounded symbolic executor for LLVM bitcode produced by rustc (whole program, fat LTO).
// Paths fork at symbolic branches; every feasibility/assertion question is decided by Z3 (QF_BV).
#include "module.hpp"
#include <set>
#include <deque>
#include <chrono>
#include <cmath>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

extern "C" LLVMValueRef LLVMGetSwitchCaseValue(LLVMValueRef, unsigned);
LLVMValueRef rsym_switch_case(LLVMValueRef v, unsigned i) { return LLVMGetSwitchCaseValue(v, i); }

static const int SHIFT = 28; // object id in the high bits, offset in the low bits
u64 g_globalAddr(u32 id) { return (u64)id << SHIFT; }

typedef std::chrono::steady_clock Clock;
static double now() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- statistics
struct Stats { u64 paths = 0, done = 0, assumed = 0, fails = 0, errors = 0, forks = 0, queries = 0, qsat = 0, qunsat = 0, qcache = 0, modelHits = 0, insns = 0, checks = 0, concretisations = 0, ranged = 0; double solverT = 0; };
static Stats S;
struct InputRec { u32 tag; u64 val; };
struct Outcome { std::string kind, key, detail; std::vector<std::pair<std::string, u64>> inputs; u64 obs; };
static std::vector<Outcome> g_fail; static std::map<std::string, u64> g_failCount;
static std::map<std::string, u64> g_cover; static std::vector<Outcome> g_samples; static u64 g_sampleSeen = 0; static u64 g_rng = 88172645463325252ull;
static u64 rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }
static std::map<std::string, u64> g_errs; static std::vector<Outcome> g_errSamples;
static double g_deadline = 0; static u64 g_pathInsnLimit = 60000000; static u32 g_maxSamples = 40, g_maxPerKey = 3; static bool g_trace = false; static bool g_stopFirst = false;
static std::string g_expectKeys;

// ---------------------------------------------------------------- memory
struct Obj { u32 ref; u64 size; u8* d; Expr** s; bool ro; };
static Obj* newObj(u64 size) { Obj* o = (Obj*)malloc(sizeof(Obj)); o->ref = 1; o->size = size; o->d = (u8*)calloc(1, size ? size : 1); o->s = nullptr; o->ro = false; return o; }
static void unref(Obj* o) { if (o && --o->ref == 0) { free(o->d); free(o->s); free(o); } }
static Obj* cloneObj(Obj* o) { Obj* n = (Obj*)malloc(sizeof(Obj)); n->ref = 1; n->size = o->size; n->d = (u8*)malloc(o->size ? o->size : 1); memcpy(n->d, o->d, o->size); n->s = nullptr; n->ro = false; if (o->s) { n->s = (Expr**)malloc(o->size * sizeof(Expr*)); memcpy(n->s, o->s, o->size * sizeof(Expr*)); } return n; }

struct Frame { u32 ref; Func* f; u32 pc; i32 retSlot; u32 nslots; std::vector<u32> allocas; Val* regs; };
static Frame* newFrame(Func* f) { Frame* r = new Frame(); r->ref = 1; r->f = f; r->pc = 0; r->retSlot = -1; r->nslots = f->nslots; r->regs = (Val*)calloc(f->nslots + 1, sizeof(Val)); return r; }
static void unrefF(Frame* f) { if (--f->ref == 0) { free(f->regs); delete f; } }
static Frame* cloneF(Frame* f) { Frame* r = new Frame(*f); r->ref = 1; r->regs = (Val*)malloc((f->nslots + 1) * sizeof(Val)); memcpy(r->regs, f->regs, (f->nslots + 1) * sizeof(Val)); return r; }

struct State {
  std::vector<Frame*> st; std::vector<Obj*> mem; /* index = id */ std::vector<u32> freeIds;
  std::vector<Expr*> pc; std::vector<u32> pinned; /* bitset of var idx */ std::vector<std::pair<u64, u64>> rng; /* by var idx: bounds implied by pc */ Model model; std::vector<std::pair<Expr*, const char*>> inputs; std::map<std::string, u32> occ;
  u64 obs = 1469598103934665603ull; std::vector<Expr*> obsE; u64 insns = 0; std::vector<const char*> covers;
  State() {}
  State(const State& o) : st(o.st), mem(o.mem), freeIds(o.freeIds), pc(o.pc), pinned(o.pinned), rng(o.rng), model(o.model), inputs(o.inputs), occ(o.occ), obs(o.obs), obsE(o.obsE), insns(o.insns), covers(o.covers) { for (Frame* f : st) f->ref++; for (Obj* m : mem) if (m) m->ref++; }
  ~State() { for (Frame* f : st) unrefF(f); for (Obj* m : mem) unref(m); }
};
static std::vector<Obj*> g_roObj; // read-only globals, by id
static u32 g_nglob;
static u32 g_errnoObj;

struct PathEnd { int kind; }; // 0 done 1 assumed-away 2 fail 3 error
struct Kill { };
static std::deque<State*> work;
static State* cur;

// ---------------------------------------------------------------- solver
static Z3_context zc; static Z3_solver zs;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "rsym: z3 error %s\n", Z3_get_error_msg(c, e)); _exit(3); }
static void solverInit() {
  Z3_config cfg = Z3_mk_config(); zc = Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(zc, zerr);
  zs = Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc, zs);
  Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), 200000000); Z3_solver_set_params(zc, zs, p);
}
struct QRes { bool sat; std::vector<std::pair<u32, u64>> m; };
static std::unordered_map<std::string, QRes> qcache;
static std::vector<std::pair<u32, Expr*>> z3stack; // asserted constraints, one push level each

static double g_slow = 0; static std::string backtrace();
static const QRes& query(const std::vector<Expr*>& cs) { // cs: relevant constraints incl. the new one (last)
  std::vector<u32> ids; for (Expr* e : cs) ids.push_back(e->id); 
  std::vector<u32> sorted = ids; std::sort(sorted.begin(), sorted.end()); sorted.erase(std::unique(sorted.begin(), sorted.end()), sorted.end());
  std::string key((const char*)sorted.data(), sorted.size() * 4);
  auto it = qcache.find(key); if (it != qcache.end()) { S.qcache++; return it->second; }
  double t0 = now(); S.queries++; if (g_trace) { fprintf(stderr, "Q"); for (Expr* e : cs) fprintf(stderr, " ; %s", exprStr(e).c_str()); fprintf(stderr, "\n"); }
  size_t common = 0; while (common < z3stack.size() && common < cs.size() && z3stack[common].second == cs[common]) common++;
  if (z3stack.size() > common) { Z3_solver_pop(zc, zs, z3stack.size() - common); z3stack.resize(common); }
  for (size_t i = common; i < cs.size(); i++) {
    Z3_solver_push(zc, zs); 
    for (u32 v : cs[i]->vs->v) { // domain constraint of each variable
      if (g_vars[v].maxv < mask64(g_vars[v].w)) { Expr* d = mkNot(P->get(E_ULT, 1, 0, mkConst(g_vars[v].maxv, g_vars[v].w), g_vars[v].e, 0, 0)); Z3_solver_assert(zc, zs, toZ3(zc, d)); }
    }
    Z3_solver_assert(zc, zs, toZ3(zc, cs[i])); z3stack.push_back({cs[i]->id, cs[i]});
  }
  Z3_lbool r = Z3_solver_check(zc, zs);
  if (r == Z3_L_UNDEF) { fprintf(stderr, "rsym: solver returned unknown: %s\n", Z3_solver_get_reason_unknown(zc, zs)); _exit(4); }
  QRes q; q.sat = r == Z3_L_TRUE; (q.sat ? S.qsat : S.qunsat)++;
  if (q.sat) {
    Z3_model m = Z3_solver_get_model(zc, zs); Z3_model_inc_ref(zc, m); std::set<u32> vs; for (Expr* e : cs) for (u32 v : e->vs->v) vs.insert(v);
    for (u32 v : vs) { Z3_ast o; Z3_ast x = g_vars[v].e->z; if (!x) { q.m.push_back({v, 0}); continue; } if (!Z3_model_eval(zc, m, x, true, &o)) die("model eval"); Z3_inc_ref(zc, o); uint64_t val = 0; if (!Z3_get_numeral_uint64(zc, o, &val)) val = 0; Z3_dec_ref(zc, o); q.m.push_back({v, val}); }
    Z3_model_dec_ref(zc, m);
  }
  double dt = now() - t0; S.solverT += dt; if (g_slow > 0 && dt > g_slow) { fprintf(stderr, "SLOW %.2f %s |", dt, backtrace().c_str()); for (Expr* e : cs) fprintf(stderr, " ; %s", exprStr(e).c_str()); fprintf(stderr, "\n"); }
  return qcache.emplace(key, std::move(q)).first->second;
}
static bool bitGet(const std::vector<u32>& b, u32 i) { return (i >> 5) < b.size() && (b[i >> 5] >> (i & 31) & 1); }
static void bitSet(std::vector<u32>& b, u32 i) { if ((i >> 5) >= b.size()) b.resize((i >> 5) + 1); b[i >> 5] |= 1u << (i & 31); }

static void relevant(State* s, Expr* c, std::vector<Expr*>& out) {
  static std::vector<u8> in; std::vector<u32> todo = c->vs->v; std::vector<u8> used(s->pc.size(), 0);
  in.assign(g_vars.size(), 0); for (u32 v : todo) in[v] = 1;
  bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s->pc.size(); i++) if (!used[i]) { bool hit = false; for (u32 v : s->pc[i]->vs->v) if (in[v]) { hit = true; break; } if (hit) { used[i] = 1; ch = true; for (u32 v : s->pc[i]->vs->v) in[v] = 1; } } }
  for (size_t i = 0; i < s->pc.size(); i++) if (used[i]) out.push_back(s->pc[i]);
}
// is (pc and c) satisfiable? fills m with a full model when it is
static bool feasible(State* s, Expr* c, Model* m) {
  if (isC(c)) { if (c->c && m) *m = s->model; return c->c != 0; }
  std::vector<Expr*> cs; relevant(s, c, cs); cs.push_back(c);
  const QRes& q = query(cs);
  if (q.sat && m) { *m = s->model; for (auto& p : q.m) { if (m->size() <= p.first) m->resize(p.first + 1); (*m)[p.first] = p.second; } }
  return q.sat;
}
static Expr* injVar(Expr* e) { // variable that e determines injectively
  for (;;) switch (e->op) {
    case E_VAR: return e; case E_ZEXT: case E_SEXT: e = e->k[0]; break;
    case E_ADD: case E_XOR: if (isC(e->k[1])) { e = e->k[0]; break; } return nullptr;
    case E_SUB: if (isC(e->k[0])) { e = e->k[1]; break; } return nullptr;
    default: return nullptr; }
}
static std::pair<u64, u64> varRange(State* s, u32 v) { if (v < s->rng.size()) return s->rng[v]; return {0, std::min(g_vars[v].maxv, mask64(g_vars[v].w))}; }
// bounds of an expression under the variable bounds of the state
static std::pair<u64, u64> rangeOf(State* s, Expr* e, int d = 8) {
  if (isC(e)) return {(u64)e->c, (u64)e->c};
  std::pair<u64, u64> r{e->umin, e->umax}; if (d == 0 || e->w > 64) return r; u64 M = mask64(e->w);
  switch (e->op) {
    case E_VAR: return varRange(s, e->aux);
    case E_ZEXT: return rangeOf(s, e->k[0], d - 1);
    case E_ADD: { auto a = rangeOf(s, e->k[0], d - 1), b = rangeOf(s, e->k[1], d - 1); u128 hi = (u128)a.second + b.second, lo = (u128)a.first + b.first; if (hi <= M) r = {(u64)lo, (u64)hi}; else if (lo > M) r = {(u64)lo & M, (u64)hi & M}; break; }
    case E_SUB: { auto a = rangeOf(s, e->k[0], d - 1), b = rangeOf(s, e->k[1], d - 1); if (a.first >= b.second) r = {a.first - b.second, a.second - b.first}; break; }
    case E_MUL: { auto a = rangeOf(s, e->k[0], d - 1), b = rangeOf(s, e->k[1], d - 1); if ((u128)a.second * b.second <= M) r = {a.first * b.first, a.second * b.second}; break; }
    case E_SHL: if (isC(e->k[1]) && e->k[1]->c < e->w) { auto a = rangeOf(s, e->k[0], d - 1); unsigned n = (unsigned)e->k[1]->c; if (a.second <= (M >> n)) r = {a.first << n, a.second << n}; } break;
    case E_EXTRACT: if (e->aux == 0 && e->k[0]->w <= 64) { auto a = rangeOf(s, e->k[0], d - 1); if (a.second <= M) r = a; } break;
    case E_ITE: { auto a = rangeOf(s, e->k[1], d - 1), b = rangeOf(s, e->k[2], d - 1); r = {std::min(a.first, b.first), std::max(a.second, b.second)}; break; }
    default: break; }
  return {std::max(r.first, e->umin), std::min(r.second, e->umax)};
}
static int rangeKnown(State* s, Expr* c, int d = 6) { // 1 true, 0 false, -1 not decided by bounds
  if (isC(c)) return c->c != 0; if (d == 0) return -1;
  switch (c->op) {
    case E_NOT: { int r = rangeKnown(s, c->k[0], d - 1); return r < 0 ? r : !r; }
    case E_AND: { int a = rangeKnown(s, c->k[0], d - 1); if (a == 0) return 0; int b = rangeKnown(s, c->k[1], d - 1); if (b == 0) return 0; return a == 1 && b == 1 ? 1 : -1; }
    case E_OR: { int a = rangeKnown(s, c->k[0], d - 1); if (a == 1) return 1; int b = rangeKnown(s, c->k[1], d - 1); if (b == 1) return 1; return a == 0 && b == 0 ? 0 : -1; }
    case E_EQ: if (c->k[0]->w > 1 && c->k[0]->w <= 64) { auto a = rangeOf(s, c->k[0]), b = rangeOf(s, c->k[1]); if (a.second < b.first || b.second < a.first) return 0; if (a.first == a.second && a == b) return 1; } return -1;
    case E_SLT: { if (c->k[0]->w > 64) return -1; auto a = rangeOf(s, c->k[0]), b = rangeOf(s, c->k[1]); u64 h = 1ull << (c->k[0]->w - 1); if (a.second >= h || b.second >= h) return -1; if (a.second < b.first) return 1; if (a.first >= b.second) return 0; return -1; }
    case E_ULT: { if (c->k[0]->w > 64) return -1; auto a = rangeOf(s, c->k[0]), b = rangeOf(s, c->k[1]); if (a.second < b.first) return 1; if (a.first >= b.second) return 0; return -1; }
    default: return -1; }
}
// replaces pinned variables by their values
static std::unordered_map<std::string, Expr*> substMemo;
static Expr* substRec(State* s, Expr* e, std::unordered_map<Expr*, Expr*>& memo) {
  bool any = false; for (u32 v : e->vs->v) if (bitGet(s->pinned, v)) { any = true; break; } if (!any) return e;
  if (e->op == E_VAR) return mkConst(e->aux < s->model.size() ? s->model[e->aux] : 0, e->w);
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Expr* k[3] = {0, 0, 0}; for (int i = 0; i < 3; i++) if (e->k[i]) k[i] = substRec(s, e->k[i], memo);
  Expr* r; switch (e->op) { case E_NOT: r = mkNot(k[0]); break; case E_ITE: r = mkIte(k[0], k[1], k[2]); break; case E_CONCAT: r = mkConcat(k[0], k[1]); break; case E_EXTRACT: r = mkExtract(k[0], e->aux, e->w); break;
    case E_ZEXT: r = mkZext(k[0], e->w); break; case E_SEXT: r = mkSext(k[0], e->w); break; default: r = mkBin(e->op, k[0], k[1]); }
  memo[e] = r; return r;
}
static Expr* subst(State* s, Expr* e) {
  bool any = false; for (u32 v : e->vs->v) if (bitGet(s->pinned, v)) { any = true; break; } if (!any) return e;
  std::string key((const char*)&e->id, 4); for (u32 v : e->vs->v) if (bitGet(s->pinned, v)) { u64 x = v < s->model.size() ? s->model[v] : 0; key.append((const char*)&v, 4); key.append((const char*)&x, 8); }
  auto it = substMemo.find(key); if (it != substMemo.end()) return it->second;
  std::unordered_map<Expr*, Expr*> memo; Expr* r = substRec(s, e, memo); substMemo[key] = r; return r;
}
static void narrow(State* s, Expr* e, u64 lo, u64 hi, std::vector<u32>& pin) { // e is known to lie in lo..=hi
  for (;;) { 
    if (e->op == E_ZEXT) { u64 M = mask64(e->k[0]->w); if (lo > M) return; hi = std::min(hi, M); e = e->k[0]; continue; }
    if (e->op == E_ADD && isC(e->k[1]) && e->w <= 64) { auto a = rangeOf(s, e->k[0]); u64 c = (u64)e->k[1]->c, M = mask64(e->w); if ((u128)a.second + c <= M) { if (hi < c) return; lo = lo < c ? 0 : lo - c; hi -= c; e = e->k[0]; continue; } if ((u128)a.first + c > M) { u128 l = (u128)lo + ((u128)M + 1 - c), h = (u128)hi + ((u128)M + 1 - c); if (l > M) return; lo = (u64)l; hi = (u64)std::min<u128>(h, M); e = e->k[0]; continue; } return; }
    break; }
  if (e->op != E_VAR) return; u32 v = e->aux; auto r = varRange(s, v); auto n = std::make_pair(std::max(r.first, lo), std::min(r.second, hi)); if (n == r || n.first > n.second) return;
  while (s->rng.size() <= v) { u32 i = s->rng.size(); s->rng.push_back({0, std::min(g_vars[i].maxv, mask64(g_vars[i].w))}); }
  s->rng[v] = n; if (n.first == n.second && !bitGet(s->pinned, v)) pin.push_back(v);
}
static void addPC(State* s, Expr* c) {
  if (isC(c)) return;
  if (c->w == 1 && c->op == E_AND) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
  if (c->op == E_NOT && c->k[0]->op == E_OR && c->k[0]->w == 1) { addPC(s, mkNot(c->k[0]->k[0])); addPC(s, mkNot(c->k[0]->k[1])); return; }
  c = subst(s, c); if (isC(c)) return;
  if (c->op == E_AND || (c->op == E_NOT && c->k[0]->op == E_OR)) { addPC(s, c); return; }
  for (Expr* e : s->pc) if (e == c) return;
  s->pc.push_back(c); std::vector<u32> pin;
  Expr* v = nullptr;
  if (c->op == E_EQ && isC(c->k[1])) v = injVar(c->k[0]); else if (c->op == E_VAR) v = c; else if (c->op == E_NOT && c->k[0]->op == E_VAR) v = c->k[0];
  if (v) { if (!bitGet(s->pinned, v->aux)) { u64 x = v->aux < s->model.size() ? s->model[v->aux] : 0; (void)x; pin.push_back(v->aux); } }
  else {
    bool neg = c->op == E_NOT; Expr* q = neg ? c->k[0] : c;
    if ((q->op == E_ULT || q->op == E_EQ) && q->k[0]->w <= 64 && q->k[0]->w > 1) {
      auto a = rangeOf(s, q->k[0]), b = rangeOf(s, q->k[1]);
      if (q->op == E_ULT && !neg) { if (b.second) narrow(s, q->k[0], 0, b.second - 1, pin); if (a.first != ~0ull) narrow(s, q->k[1], a.first + 1, ~0ull, pin); }
      else if (q->op == E_ULT) { narrow(s, q->k[0], b.first, ~0ull, pin); narrow(s, q->k[1], 0, a.second, pin); }
      else if (neg && isC(q->k[1])) { u64 x = (u64)q->k[1]->c; if (x == a.first && x != ~0ull) narrow(s, q->k[0], x + 1, ~0ull, pin); else if (x == a.second && x) narrow(s, q->k[0], 0, x - 1, pin); }
    }
  }
  for (u32 p : pin) {
    if (bitGet(s->pinned, p)) continue; 
    Expr* ve = g_vars[p].e; u64 x = p < s->model.size() ? s->model[p] : 0; bitSet(s->pinned, p);
    std::vector<Expr*> old; old.swap(s->pc); Expr* eq = mkEq(ve, mkConst(x, ve->w)); 
    std::vector<Expr*> again; for (Expr* e : old) { bool has = false; for (u32 q : e->vs->v) if (q == p) has = true; if (!has) s->pc.push_back(e); else if (e->vs->v.size() > 1) again.push_back(e); }
    s->pc.insert(s->pc.begin(), eq); while (s->rng.size() <= p) { u32 i = s->rng.size(); s->rng.push_back({0, std::min(g_vars[i].maxv, mask64(g_vars[i].w))}); } s->rng[p] = {x, x};
    for (Expr* e : again) addPC(s, e);
  }
}
static int known(State* s, Expr* c) { // -1 unknown
  if (isC(c)) return c->c != 0;
  Expr* n = mkNot(c);
  for (Expr* e : s->pc) { if (e == c) return 1; if (e == n) return 0; }
  int r = rangeKnown(s, c); if (r >= 0) S.ranged++; return r;
}
// copies the current state; its innermost frame is not shared, because the current state goes on writing it
static State* forkState() { State* n = new State(*cur); Frame* t = n->st.back(); n->st.back() = cloneF(t); t->ref--; return n; }
// decide a 1-bit condition in the current state, forking if both sides are feasible
static bool decide(Expr* c);
// a value that has gone through a hash function: fork on the small inputs rather than ask the solver to invert it
static void pinHashed(Expr*& e) {
  if (e->mix < 8) return;
  if (g_trace) fprintf(stderr, "PIN %s ; %s\n", exprStr(e).c_str(), backtrace().c_str());
  for (bool again = true; again && !isC(e);) { again = false;
    for (u32 x : e->vs->v) { auto r = varRange(cur, x); if (r.second - r.first <= 256) { if (!decide(mkEq(g_vars[x].e, mkConst(cur->model[x], g_vars[x].w)))) die("pin"); if (!bitGet(cur->pinned, x)) bitSet(cur->pinned, x); e = subst(cur, e); again = true; break; } } }
}
static bool decide(Expr* c) {
  c = subst(cur, c); int k = known(cur, c); if (k >= 0) return k;
  if (c->mix >= 8) { pinHashed(c); k = known(cur, c); if (k >= 0) return k; }
  bool v = evalExpr(c, cur->model) != 0; Expr* mine = v ? c : mkNot(c); Expr* other = v ? mkNot(c) : c;
  Model m;
  if (feasible(cur, other, &m)) { State* n = forkState(); n->model = m; addPC(n, other); work.push_back(n); S.forks++; addPC(cur, mine); }
  else if (mine->op == E_EQ || mine->op == E_VAR || (mine->op == E_NOT && mine->k[0]->op == E_VAR)) addPC(cur, mine); // implied: only worth recording when it pins a variable
  return v;
}
static std::string backtrace();
// the number of constants a choice between constants can give (0 when it is something else)
static u32 choices(Expr* e) {
  if (isC(e)) return 1; if (e->op == E_ZEXT) return choices(e->k[0]); if (e->op == E_ADD && isC(e->k[1])) return choices(e->k[0]);
  if (e->op == E_ITE) { u32 a = choices(e->k[1]); if (!a || a > 16) return 0; u32 b = choices(e->k[2]); return b ? a + b : 0; }
  return 0;
}
static u64 concretise(Expr* e) {
  e = subst(cur, e); if (isC(e)) return (u64)e->c;
  S.concretisations++; if (g_trace) fprintf(stderr, "K %s ; %s\n", exprStr(e).c_str(), backtrace().c_str());
  pinHashed(e);
  // addresses and sizes over small position-like variables: fix the variables themselves, which keeps constraints simple
  u32 ch = e->op == E_VAR ? 0 : choices(e); u64 space = 1; for (u32 x : e->vs->v) { auto r = varRange(cur, x); space *= std::min<u64>(r.second - r.first, 1 << 12) + 1; if (space > 1 << 20) break; }
  for (bool again = !(ch && ch <= 16 && space > 4 * ch); again;) { again = false; if (isC(e)) return (u64)e->c;
    for (u32 x : e->vs->v) { auto r = varRange(cur, x); if (r.second - r.first <= 64) { if (!decide(mkEq(g_vars[x].e, mkConst(cur->model[x], g_vars[x].w)))) die("concretise var"); if (!bitGet(cur->pinned, x)) bitSet(cur->pinned, x); e = subst(cur, e); again = true; break; } } }
  u64 v = (u64)evalExpr(e, cur->model);
  Expr* eq = mkEq(e, mkConst(v, e->w));
  if (!decide(eq)) die("concretise");
  return v;
}

// ---------------------------------------------------------------- path outcome
static std::vector<std::pair<std::string, u64>> inputsOf(State* s, const Model& m) { std::vector<std::pair<std::string, u64>> r; for (auto& p : s->inputs) r.push_back({p.second, (u64)evalExpr(p.first, m)}); return r; }
static u64 obsHash(State* s, const Model& m) { u64 h = 1469598103934665603ull; for (Expr* e : s->obsE) { u64 x = (u64)evalExpr(e, m); for (int i = 0; i < 8; i++) { h ^= (x >> (8 * i)) & 255; h *= 1099511628211ull; } } return h; }
static std::vector<std::pair<std::string, std::string>> g_known; // listed findings: name and a part of the failure's key
[[noreturn]] static void fail(const std::string& kind, const std::string& key, const std::string& detail, const Model* mm = nullptr) {
  for (auto& k : g_known) if (key.find(k.second) != std::string::npos) { g_cover["known: " + k.first]++; throw PathEnd{1}; }
  S.fails++; const Model& m = mm ? *mm : cur->model; u64 n = ++g_failCount[key];
  if (n <= g_maxPerKey) g_fail.push_back({kind, key, detail, inputsOf(cur, m), obsHash(cur, m)});
  throw PathEnd{2};
}
static std::string backtrace() { std::string r; int n = 0; for (int i = (int)cur->st.size() - 1; i >= 0 && n < 14; i--, n++) r += (n ? " < " : "") + cur->st[i]->f->name; return r; }
[[noreturn]] static void error(const std::string& what) {
  S.errors++; std::string key = what + " in " + (cur->st.empty() ? "?" : cur->st.back()->f->name); if (++g_errs[key] <= 2) g_errSamples.push_back({"error", key, backtrace(), inputsOf(cur, cur->model), 0}); throw PathEnd{3};
}

// ---------------------------------------------------------------- values
static inline Expr* X(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.v, w); }
static inline Val V(Expr* e) { if (e->op == E_CONST && e->w <= 64) return {(u64)e->c, nullptr}; return {0, e}; }
static inline Val C(u64 v) { return {v, nullptr}; }
static inline u64 cv(const Val& v) { return v.e ? concretise(v.e) : v.v; }

static u32 allocId(State* s) { if (!s->freeIds.empty()) { u32 i = s->freeIds.back(); s->freeIds.pop_back(); return i; } s->mem.push_back(nullptr); if (s->mem.size() > (1u << 17)) error("too many objects"); return s->mem.size() - 1; }
static u64 allocMem(State* s, u64 size) { if (size >= (1ull << SHIFT)) error("allocation too large"); u32 i = allocId(s); s->mem[i] = newObj(size); return (u64)i << SHIFT; }
static void freeMem(State* s, u32 id) { unref(s->mem[id]); s->mem[id] = nullptr; s->freeIds.push_back(id); }

static Obj* findR(u64 a, u64 n, u64& off) {
  u64 id = a >> SHIFT; off = a & ((1ull << SHIFT) - 1);
  Obj* o = id < g_nglob && g_roObj[id] ? g_roObj[id] : id < cur->mem.size() ? cur->mem[id] : nullptr;
  if (!o || off + n > o->size) { if (n == 0) return nullptr; error("memory error: access to " + std::to_string(a) + " size " + std::to_string(n)); }
  return o;
}
static Obj* findW(u64 a, u64 n, u64& off) {
  u64 id = a >> SHIFT; off = a & ((1ull << SHIFT) - 1);
  Obj* o = id < cur->mem.size() ? cur->mem[id] : nullptr;
  if (!o || off + n > o->size) { if (n == 0) return nullptr; error("memory error: write to " + std::to_string(a) + " size " + std::to_string(n)); }
  if (o->ref > 1) { Obj* c = cloneObj(o); o->ref--; cur->mem[id] = c; o = c; }
  return o;
}
static Expr* byteE(Obj* o, u64 off) { return o->s && o->s[off] ? o->s[off] : mkConst(o->d[off], 8); }
static Val loadObj(Obj* o, u64 off, unsigned w) {
  unsigned n = (w + 7) / 8; bool sym = false;
  if (o->s) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym && w <= 64) { u64 v = 0; memcpy(&v, o->d + off, n); return {v & mask64(w), nullptr}; }
  Expr* e = byteE(o, off); for (unsigned i = 1; i < n; i++) e = mkConcat(byteE(o, off + i), e);
  if (e->w > w) e = mkExtract(e, 0, w);
  return V(e);
}
static void storeObj(Obj* o, u64 off, const Val& v, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (!v.e) { u64 x = v.v & mask64(w); memcpy(o->d + off, &x, n); if (o->s) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr; return; }
  if (!o->s) o->s = (Expr**)calloc(o->size, sizeof(Expr*));
  Expr* e = v.e; if (e->w < n * 8) e = mkZext(e, n * 8);
  for (unsigned i = 0; i < n; i++) { Expr* b = mkExtract(e, i * 8, 8); if (isC(b)) { o->d[off + i] = (u8)b->c; o->s[off + i] = nullptr; } else o->s[off + i] = b; }
}

// loads through a symbolic address into one small read-only table become an ITE over the table
static bool tableLoad(Expr* addr, unsigned w, Val& out);
// a load through a choice of addresses of constants (binary search in a table)
static bool iteLoad(Expr* addr, unsigned w, std::unordered_map<Expr*, Expr*>& memo, Expr*& out) {
  auto it = memo.find(addr); if (it != memo.end()) { out = it->second; return true; } if (memo.size() > 400) return false;
  if (isC(addr)) { u64 p = (u64)addr->c, id = p >> SHIFT, off = p & ((1ull << SHIFT) - 1); Obj* o = id < g_nglob ? g_roObj[id] : nullptr; if (!o || off + (w + 7) / 8 > o->size) return false; Val v = loadObj(o, off, w); out = X(v, w); }
  else if (addr->op == E_ITE) { Expr *a, *b; if (!iteLoad(addr->k[1], w, memo, a) || !iteLoad(addr->k[2], w, memo, b)) return false; out = mkIte(addr->k[0], a, b); }
  else return false;
  memo[addr] = out; return true;
}
static bool tableLoad(Expr* addr, unsigned w, Val& out) {
  if (addr->op == E_ITE && w <= 64) { std::unordered_map<Expr*, Expr*> memo; Expr* r; if (!iteLoad(addr, w, memo, r)) return false; out = V(r); return true; }
  if (addr->op != E_ADD || !isC(addr->k[1])) return false;
  u64 base = (u64)addr->k[1]->c; u64 id = base >> SHIFT; Obj* o = id < g_nglob ? g_roObj[id] : nullptr;
  if (!o) { // a table of booleans built at run time (the set of special characters of the markdown parser)
    o = id < cur->mem.size() ? cur->mem[id] : nullptr; u64 b0 = base & ((1ull << SHIFT) - 1); if (!o || w != 8 || b0 + 256 > o->size || o->size > 4096) return false;
    for (u64 i = b0; i < b0 + 256; i++) if (o->d[i] > 1 || (o->s && o->s[i])) return false; }
  u64 boff = base & ((1ull << SHIFT) - 1); unsigned n = (w + 7) / 8; if (o->size > 4096 || w > 64) return false;
  Expr* off = addr->k[0]; u64 tz = ExprPool::ctz1(~off->kz); u64 step = 1ull << std::min<u64>(tz, 12);
  if (boff + n > o->size) return false;
  u64 maxOff = o->size - boff - n;
  if (off->umax > maxOff) { Expr* inb = mkNot(mkUlt(mkConst(maxOff, 64), off)); if (!decide(inb)) return false; }
  u64 lo = off->umin, hi = std::min(off->umax, maxOff); lo = (lo + step - 1) / step * step;
  Expr* r = nullptr; // build from the highest run downwards
  struct Run { u64 start; u64 val; }; std::vector<Run> runs;
  for (u64 x = lo; x <= hi; x += step) { u64 v = 0; memcpy(&v, o->d + boff + x, n); v &= mask64(w); if (runs.empty() || runs.back().val != v) runs.push_back({x, v}); }
  if (runs.empty()) return false;
  if (runs.size() > 300) return false;
  r = mkConst(runs.back().val, w);
  for (int i = (int)runs.size() - 2; i >= 0; i--) r = mkIte(mkUlt(off, mkConst(runs[i + 1].start, 64)), mkConst(runs[i].val, w), r);
  out = V(r); return true;
}

// ---------------------------------------------------------------- interpreter helpers
static Frame* top;
static inline const Val& R(i32 o, u32 k = 0) { return o >= 0 ? top->regs[o + k] : top->f->consts[~o + k]; }
static Val binop(u8 op, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e) {
    u64 x = a.v, y = b.v, M = mask64(w);
    switch (op) {
      case E_ADD: return C((x + y) & M); case E_SUB: return C((x - y) & M); case E_MUL: return C((x * y) & M);
      case E_AND: return C(x & y); case E_OR: return C(x | y); case E_XOR: return C(x ^ y);
      case E_SHL: return C(y >= w ? 0 : (x << y) & M); case E_LSHR: return C(y >= w ? 0 : x >> y);
      case E_UDIV: if (!y) error("division by zero"); return C(x / y); case E_UREM: if (!y) error("division by zero"); return C(x % y);
      default: if ((op == E_SDIV || op == E_SREM) && !y) error("division by zero"); return C((u64)foldBin(op, x, y, w));
    }
  }
  return V(mkBin(op, X(a, w), X(b, w)));
}
static Val icmp(unsigned p, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e) {
    u64 x = a.v, y = b.v; i64 sx_ = (i64)sx(x, w), sy = (i64)sx(y, w);
    switch (p) { case LLVMIntEQ: return C(x == y); case LLVMIntNE: return C(x != y); case LLVMIntUGT: return C(x > y); case LLVMIntUGE: return C(x >= y); case LLVMIntULT: return C(x < y); case LLVMIntULE: return C(x <= y);
      case LLVMIntSGT: return C(sx_ > sy); case LLVMIntSGE: return C(sx_ >= sy); case LLVMIntSLT: return C(sx_ < sy); case LLVMIntSLE: return C(sx_ <= sy); }
  }
  Expr *x = X(a, w), *y = X(b, w);
  switch (p) { case LLVMIntEQ: return V(mkEq(x, y)); case LLVMIntNE: return V(mkNot(mkEq(x, y))); case LLVMIntUGT: return V(mkUlt(y, x)); case LLVMIntUGE: return V(mkNot(mkUlt(x, y))); case LLVMIntULT: return V(mkUlt(x, y)); case LLVMIntULE: return V(mkNot(mkUlt(y, x)));
    case LLVMIntSGT: return V(mkSlt(y, x)); case LLVMIntSGE: return V(mkNot(mkSlt(x, y))); case LLVMIntSLT: return V(mkSlt(x, y)); case LLVMIntSLE: return V(mkNot(mkSlt(y, x))); }
  error("icmp predicate");
}
static inline void takeEdge(Edge* e) {
  if (!e) return;
  if (e->mv.size() == 1) { PhiMove& m = e->mv[0]; if (m.n == 1) { top->regs[m.dst] = R(m.src); return; } }
  static std::vector<Val> tmp; tmp.clear();
  for (PhiMove& m : e->mv) for (u32 k = 0; k < m.n; k++) tmp.push_back(R(m.src, k));
  size_t i = 0; for (PhiMove& m : e->mv) for (u32 k = 0; k < m.n; k++) top->regs[m.dst + k] = tmp[i++];
}
static std::string cstr(u64 p, u64 n) { std::string s; for (u64 i = 0; i < n && i < 4096; i++) { u64 off; Obj* o = findR(p + i, 1, off); s += o->s && o->s[off] ? '?' : (char)o->d[off]; } return s; }
static const char* internStr(const std::string& s) { static std::set<std::string> t; return t.insert(s).first->c_str(); }

static void copyBytes(u64 dst, u64 src, u64 n) {
  if (!n || dst == src) return; u64 so, dof; Obj* a = findR(src, n, so); a->ref++; Obj* b = findW(dst, n, dof);
  bool sym = false; if (a->s) for (u64 i = 0; i < n; i++) if (a->s[so + i]) { sym = true; break; }
  memmove(b->d + dof, a->d + so, n);
  if (sym) { if (!b->s) b->s = (Expr**)calloc(b->size, sizeof(Expr*)); memmove(b->s + dof, a->s + so, n * sizeof(Expr*)); }
  else if (b->s) memset(b->s + dof, 0, n * sizeof(Expr*));
  unref(a);
}
static void setBytes(u64 dst, const Val& v, u64 n) { if (!n) return; u64 off; Obj* o = findW(dst, n, off); for (u64 i = 0; i < n; i++) storeObj(o, off + i, v, 8); }

static void setRet(const Ins& I, u32 k, const Val& v) { if (I.dst >= 0) top->regs[I.dst + k] = v; }

static void pushFrame(Func* f, const Ins& I, const CallInfo* ci) {
  if (!f->decoded) decodeFunc(f);
  if (cur->st.size() > 3000) fail("stack", "stack overflow (unbounded recursion)", backtrace());
  Frame* n = newFrame(f); if (ci->args.size() < f->nargs) error("argument count mismatch calling " + f->name);
  for (u32 k = 0; k < f->nargs; k++) n->regs[k] = R(ci->args[k]);
  n->retSlot = I.dst; cur->st.push_back(n); top = n;
}

static void doPanic(const CallInfo* ci) {
  std::string loc = "?", msg;
  try { if (!ci->args.empty()) { u64 p = cv(R(ci->args.back())); u64 off; if (p > 4096) { Obj* o = findR(p, 24, off); u64 file = loadObj(o, off, 64).v, len = loadObj(o, off + 8, 64).v, line = loadObj(o, off + 16, 32).v; if (len < 400 && file > 4096) loc = cstr(file, len) + ":" + std::to_string(line); } } } catch (PathEnd&) { S.errors--; }
  fail("panic", "panic at " + loc, backtrace());
}

static Val vecGet(i32 o, u32 k) { return R(o, k); }

static void intrinsic(const Ins& I, const CallInfo* ci) {
  unsigned w = I.w2; auto a = [&](u32 arg, u32 k = 0) -> const Val& { return R(ci->args[ci->argFirst[arg] + k]); };
  u32 n = I.n;
  switch (ci->intr) {
    case IN_NOP: case IN_ASSUME: return;
    case IN_MEMCPY: case IN_MEMMOVE: { u64 len = cv(a(2)); if (len) { u64 d = cv(a(0)), s = cv(a(1)); copyBytes(d, s, len); } return; }
    case IN_MEMSET: { u64 len = cv(a(2)); if (len) { u64 d = cv(a(0)); setBytes(d, a(1), len); } return; }
    case IN_EXPECT: setRet(I, 0, a(0)); return;
    case IN_UADDO: case IN_SADDO: case IN_USUBO: case IN_SSUBO: case IN_UMULO: case IN_SMULO: {
      if (n != 2) error("vector overflow intrinsic"); Val x = a(0), y = a(1); 
      if (!x.e && !y.e && w <= 64) { u128 M = maskw(w); u128 r; bool o; switch (ci->intr) {
          case IN_UADDO: r = (u128)x.v + y.v; o = r > M; break; case IN_USUBO: r = (u128)x.v - y.v; o = x.v < y.v; break; case IN_UMULO: r = (u128)x.v * y.v; o = r > M; break;
          case IN_SADDO: { i128 t = sx(x.v, w) + sx(y.v, w); r = (u128)t; o = sx(r & M, w) != t; break; } case IN_SSUBO: { i128 t = sx(x.v, w) - sx(y.v, w); r = (u128)t; o = sx(r & M, w) != t; break; } default: { i128 t = sx(x.v, w) * sx(y.v, w); r = (u128)t; o = sx(r & M, w) != t; } }
        setRet(I, 0, C((u64)(r & M))); setRet(I, 1, C(o)); return; }
      Expr *ex = X(x, w), *ey = X(y, w); Expr *r, *o;
      switch (ci->intr) {
        case IN_UADDO: r = mkBin(E_ADD, ex, ey); o = mkUlt(r, ex); if (w <= 64 && (u128)ex->umax + ey->umax <= mask64(w)) o = mkConst(0, 1); else if (isC(ey)) o = mkUlt(mkConst(maskw(w) - ey->c, w), ex); else if (isC(ex)) o = mkUlt(mkConst(maskw(w) - ex->c, w), ey); break;
        case IN_USUBO: r = mkBin(E_SUB, ex, ey); o = mkUlt(ex, ey); break;
        case IN_UMULO: if (w <= 64 && (u128)ex->umax * ey->umax <= mask64(w)) { r = mkBin(E_MUL, ex, ey); o = mkConst(0, 1); } else { Expr* p = mkBin(E_MUL, mkZext(ex, 2 * w), mkZext(ey, 2 * w)); r = mkExtract(p, 0, w); o = mkNot(mkEq(mkExtract(p, w, w), mkConst(0, w))); } break;
        case IN_SADDO: { Expr* p = mkBin(E_ADD, mkSext(ex, w + 1), mkSext(ey, w + 1)); r = mkExtract(p, 0, w); o = mkNot(mkEq(mkSext(r, w + 1), p)); break; }
        case IN_SSUBO: { Expr* p = mkBin(E_SUB, mkSext(ex, w + 1), mkSext(ey, w + 1)); r = mkExtract(p, 0, w); o = mkNot(mkEq(mkSext(r, w + 1), p)); break; }
        default: { if (w > 64) error("smulo width"); Expr* p = mkBin(E_MUL, mkSext(ex, 2 * w), mkSext(ey, 2 * w)); r = mkExtract(p, 0, w); o = mkNot(mkEq(mkSext(r, 2 * w), p)); }
      }
      setRet(I, 0, V(r)); setRet(I, 1, V(o)); return; }
    case IN_UADDSAT: for (u32 k = 0; k < n; k++) { Expr *x = X(a(0, k), w), *y = X(a(1, k), w); Expr* r = mkBin(E_ADD, x, y); setRet(I, k, V(mkIte(mkUlt(r, x), mkConst(maskw(w), w), r))); } return;
    case IN_USUBSAT: for (u32 k = 0; k < n; k++) { Val p = a(0, k), q = a(1, k); if (!p.e && !q.e) { setRet(I, k, C(p.v < q.v ? 0 : p.v - q.v)); continue; } Expr *x = X(p, w), *y = X(q, w); setRet(I, k, V(mkIte(mkUlt(x, y), mkConst(0, w), mkBin(E_SUB, x, y)))); } return;
    case IN_SADDSAT: case IN_SSUBSAT: for (u32 k = 0; k < n; k++) { Expr *x = mkSext(X(a(0, k), w), w + 1), *y = mkSext(X(a(1, k), w), w + 1); Expr* p = mkBin(ci->intr == IN_SADDSAT ? E_ADD : E_SUB, x, y); u128 mx = maskw(w) >> 1, mn = (u128)1 << (w - 1); Expr* eMx = mkConst(mx, w + 1); Expr* eMn = mkSext(mkConst(mn, w), w + 1); Expr* r = mkIte(mkSlt(eMx, p), eMx, mkIte(mkSlt(p, eMn), eMn, p)); setRet(I, k, V(mkExtract(r, 0, w))); } return;
    case IN_UMAX: case IN_UMIN: case IN_SMAX: case IN_SMIN: for (u32 k = 0; k < n; k++) { Val p = a(0, k), q = a(1, k); bool sg = ci->intr == IN_SMAX || ci->intr == IN_SMIN, mx = ci->intr == IN_UMAX || ci->intr == IN_SMAX; Val lt = icmp(sg ? LLVMIntSLT : LLVMIntULT, p, q, w); if (!lt.e) { setRet(I, k, (lt.v != 0) == mx ? q : p); } else setRet(I, k, V(mx ? mkIte(lt.e, X(q, w), X(p, w)) : mkIte(lt.e, X(p, w), X(q, w)))); } return;
    case IN_FABS: for (u32 k = 0; k < n; k++) setRet(I, k, V(mkBin(E_AND, X(a(0, k), w), mkConst(mask64(w) >> 1, w)))); return;
    case IN_ABS: for (u32 k = 0; k < n; k++) { Expr* x = X(a(0, k), w); setRet(I, k, V(mkIte(mkSlt(x, mkConst(0, w)), mkBin(E_SUB, mkConst(0, w), x), x))); } return;
    case IN_CTPOP: for (u32 k = 0; k < n; k++) { Val x = a(0, k); if (!x.e) { setRet(I, k, C(__builtin_popcountll(x.v))); continue; } Expr* r = mkConst(0, w); for (u32 i = 0; i < w; i++) r = mkBin(E_ADD, r, mkZext(mkExtract(x.e, i, 1), w)); setRet(I, k, V(r)); } return;
    case IN_CTLZ: for (u32 k = 0; k < n; k++) { Val x = a(0, k); if (!x.e) { u64 r = x.v ? __builtin_clzll(x.v) - (64 - w) : w; setRet(I, k, C(r)); continue; } Expr* r = mkConst(w, w); for (u32 i = 0; i < w; i++) r = mkIte(mkEq(mkExtract(x.e, i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), r); setRet(I, k, V(r)); } return;
    case IN_CTTZ: for (u32 k = 0; k < n; k++) { Val x = a(0, k); if (!x.e) { u64 r = x.v ? __builtin_ctzll(x.v) : w; setRet(I, k, C(r)); continue; } Expr* r = mkConst(w, w); for (int i = (int)w - 1; i >= 0; i--) r = mkIte(mkEq(mkExtract(x.e, i, 1), mkConst(1, 1)), mkConst(i, w), r);
      // which byte of a word matched first (string scanning a word at a time): a handful of cases, better one path each
      if (w == 64 && __builtin_popcountll(~x.e->kz) <= 8) { int i = 0; for (; i < 64; i++) if (!(x.e->kz >> i & 1) && decide(mkEq(mkExtract(x.e, i, 1), mkConst(1, 1)))) break; setRet(I, k, C(i)); continue; }
      setRet(I, k, V(r)); } return;
    case IN_BSWAP: for (u32 k = 0; k < n; k++) { Expr* x = X(a(0, k), w); Expr* r = mkExtract(x, 0, 8); for (u32 i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8)); setRet(I, k, V(r)); } return;
    case IN_BITREVERSE: for (u32 k = 0; k < n; k++) { Expr* x = X(a(0, k), w); Expr* r = mkExtract(x, 0, 1); for (u32 i = 1; i < w; i++) r = mkConcat(r, mkExtract(x, i, 1)); setRet(I, k, V(r)); } return;
    case IN_FSHL: case IN_FSHR: for (u32 k = 0; k < n; k++) { Val sh = a(2, k); if (sh.e) { // symbolic amount
          Expr* s = mkBin(E_UREM, sh.e, mkConst(w, w)); Expr* d = mkConcat(X(a(0, k), w), X(a(1, k), w)); Expr* z = mkZext(s, 2 * w); Expr* r = ci->intr == IN_FSHL ? mkExtract(mkBin(E_SHL, d, z), w, w) : mkExtract(mkBin(E_LSHR, d, z), 0, w); setRet(I, k, V(r)); continue; }
        u64 s = sh.v % w; Val p = a(0, k), q = a(1, k); if (s == 0) { setRet(I, k, ci->intr == IN_FSHL ? p : q); continue; }
        if (!p.e && !q.e && w <= 64) { u64 M = mask64(w); setRet(I, k, C(ci->intr == IN_FSHL ? ((p.v << s) | (q.v >> (w - s))) & M : ((q.v >> s) | (p.v << (w - s))) & M)); continue; }
        Expr* d = mkConcat(X(p, w), X(q, w)); setRet(I, k, V(mkExtract(d, ci->intr == IN_FSHL ? w - s : s, w))); } return;
    case IN_UCMP: case IN_SCMP: { unsigned ow = ci->argW[0]; for (u32 k = 0; k < n; k++) { Val p = a(0, k), q = a(1, k); bool sg = ci->intr == IN_SCMP; Val lt = icmp(sg ? LLVMIntSLT : LLVMIntULT, p, q, ow), gt = icmp(sg ? LLVMIntSLT : LLVMIntULT, q, p, ow); setRet(I, k, V(mkIte(X(lt, 1), mkConst(maskw(w), w), mkIte(X(gt, 1), mkConst(1, w), mkConst(0, w))))); } return; }
    case IN_ISCONST: setRet(I, 0, C(0)); return;
    case IN_TLADDR: setRet(I, 0, a(0)); return;
    case IN_TRAP: fail("panic", "abort/trap", backtrace());
    case IN_VRED_OR: case IN_VRED_AND: case IN_VRED_ADD: case IN_VRED_UMAX: case IN_VRED_UMIN: case IN_VRED_XOR: case IN_VRED_MUL: {
      Val r = a(0, 0); for (u32 k = 1; k < ci->argN[0]; k++) { Val y = a(0, k); switch (ci->intr) { case IN_VRED_OR: r = binop(E_OR, r, y, w); break; case IN_VRED_AND: r = binop(E_AND, r, y, w); break; case IN_VRED_ADD: r = binop(E_ADD, r, y, w); break; case IN_VRED_XOR: r = binop(E_XOR, r, y, w); break; case IN_VRED_MUL: r = binop(E_MUL, r, y, w); break; default: { Val lt = icmp(LLVMIntULT, r, y, w); bool mx = ci->intr == IN_VRED_UMAX; r = V(mx ? mkIte(X(lt, 1), X(y, w), X(r, w)) : mkIte(X(lt, 1), X(r, w), X(y, w))); } } }
      setRet(I, 0, r); return; }
    case IN_PTRMASK: setRet(I, 0, binop(E_AND, a(0), a(1), 64)); return;
    case IN_LOADREL: { u64 base = cv(a(0)); u64 o = cv(a(1)); u64 off; Obj* ob = findR(base + o, 4, off); setRet(I, 0, C(base + (u64)(i64)(int32_t)loadObj(ob, off, 32).v)); return; }
    case IN_OBJSIZE: setRet(I, 0, C(~0ull)); return;
    default: error("unsupported intrinsic " + ci->name);
  }
}

static void special(int sp, const Ins& I, const CallInfo* ci, Func* f) {
  auto a = [&](u32 arg) -> const Val& { return R(ci->args[arg]); };
  switch (sp) {
    case SP_ALLOC: case SP_MALLOC: { u64 n = cv(a(0)); setRet(I, 0, C(allocMem(cur, n))); return; }
    case SP_ALLOC_ZEROED: { u64 n = cv(a(0)); setRet(I, 0, C(allocMem(cur, n))); return; }
    case SP_CALLOC: { u64 n = cv(a(0)), m = cv(a(1)); setRet(I, 0, C(allocMem(cur, n * m))); return; }
    case SP_DEALLOC: case SP_FREE: { u64 p = cv(a(0)); if (!p) return; u32 id = p >> SHIFT; if ((p & ((1ull << SHIFT) - 1)) || id < g_nglob || id >= cur->mem.size() || !cur->mem[id]) error("invalid free"); freeMem(cur, id); return; }
    case SP_REALLOC: case SP_LIBREALLOC: { u64 p = cv(a(0)); u64 n = cv(a(sp == SP_REALLOC ? 3 : 1)); u32 id = p >> SHIFT; if (id >= cur->mem.size() || !cur->mem[id]) error("invalid realloc"); u64 old = cur->mem[id]->size; u64 q = allocMem(cur, n); copyBytes(q, p, std::min(old, n)); freeMem(cur, id); setRet(I, 0, C(q)); return; }
    case SP_MEMALIGN: { u64 out = cv(a(0)), n = cv(a(2)); u64 p = allocMem(cur, n); u64 off; Obj* o = findW(out, 8, off); storeObj(o, off, C(p), 64); setRet(I, 0, C(0)); return; }
    case SP_PANIC: doPanic(ci); return;
    case SP_BEGIN_UNWIND: case SP_ABORT: fail("panic", "abort", backtrace());
    case SP_NOALLOCSHIM: return;
    case SP_SYM: { // sym_val(tag_ptr, tag_len, bits, max) -> u64
      u64 tp = cv(a(0)), tl = cv(a(1)), bits = cv(a(2)), mx = cv(a(3)); std::string tag = cstr(tp, tl); u32 k = cur->occ[tag]; Expr* v = mkVar(tag + "#" + std::to_string(k) + "/" + std::to_string(bits) + "/" + std::to_string(mx), bits, mx);
      cur->occ[tag] = k + 1; if (cur->model.size() <= v->aux) cur->model.resize(v->aux + 1, 0); // 0 satisfies the domain
      cur->inputs.push_back({v, internStr(tag)}); setRet(I, 0, V(mkZext(v, 64))); return; }
    case SP_ASSUME: { Val c = a(0); Expr* e = X(c, ci->argW[0]); if (e->w > 1) e = mkNot(mkEq(e, mkConst(0, e->w))); e = subst(cur, e); if (isC(e)) { if (!e->c) throw PathEnd{1}; return; }
      int kn = known(cur, e); if (kn == 1) return; if (kn == 0) throw PathEnd{1};
      if (!evalExpr(e, cur->model)) { Model m; if (!feasible(cur, e, &m)) throw PathEnd{1}; cur->model = m; }
      addPC(cur, e); return; }
    case SP_CHECK: { // sym_check(cond, msg, len): assertion decided by the solver without forking
      Val c = a(0); Expr* e = X(c, ci->argW[0]); if (e->w > 1) e = mkNot(mkEq(e, mkConst(0, e->w))); e = subst(cur, e); S.checks++; if (isC(e) && e->c) return;
      Expr* ne = mkNot(e); Model m; int kn = known(cur, e); if (kn == 1) return;
      if (feasible(cur, ne, &m)) { std::string msg = cstr(cv(a(1)), cv(a(2))); 
        if (known(cur, e) != 0) { Model m2; if (feasible(cur, e, &m2)) { State* n = forkState(); n->model = m2; addPC(n, e); work.push_back(n); } }
        cur->model = m; addPC(cur, ne); fail("assert", msg, "", &m); }
      return; }
    case SP_FAIL: { std::string msg = cstr(cv(a(0)), cv(a(1))); S.checks++; fail("assert", msg, ""); }
    case SP_COVER: { cur->covers.push_back(internStr(cstr(cv(a(0)), cv(a(1))))); return; }
    case SP_OBSERVE: { cur->obsE.push_back(X(a(0), 64)); return; }
    case SP_NATIVE: setRet(I, 0, C(0)); return;
    case SP_PIN: setRet(I, 0, C(cv(a(0)))); return;
    case SP_BCMP: { u64 n = cv(a(2)); if (!n) { setRet(I, 0, C(0)); return; } u64 p = cv(a(0)), q = cv(a(1)), po, qo; Obj *x = findR(p, n, po), *y = findR(q, n, qo);
      if (!x->s && !y->s) { setRet(I, 0, C(memcmp(x->d + po, y->d + qo, n) != 0)); return; }
      Expr* ne = mkConst(0, 1); for (u64 i = 0; i < n; i++) { ne = mkOr1(ne, mkNot(mkEq(byteE(x, po + i), byteE(y, qo + i)))); if (isC(ne) && ne->c) break; }
      setRet(I, 0, V(mkZext(ne, 32))); return; }
    case SP_MEMCMP: { u64 n = cv(a(2)); if (!n) { setRet(I, 0, C(0)); return; } u64 p = cv(a(0)), q = cv(a(1)), po, qo; Obj *x = findR(p, n, po), *y = findR(q, n, qo);
      if (!x->s && !y->s) { int r = memcmp(x->d + po, y->d + qo, n); setRet(I, 0, C((u32)(r < 0 ? -1 : r > 0))); return; }
      Expr* r = mkConst(0, 32); for (i64 i = n - 1; i >= 0; i--) { Expr *u = byteE(x, po + i), *v = byteE(y, qo + i); r = mkIte(mkEq(u, v), r, mkIte(mkUlt(u, v), mkConst(~(u128)0, 32), mkConst(1, 32))); }
      setRet(I, 0, V(r)); return; }
    case SP_STRLEN: { u64 p = cv(a(0)), n = 0; for (;; n++) { u64 off; Obj* o = findR(p + n, 1, off); Val b = loadObj(o, off, 8); if (cv(b) == 0) break; } setRet(I, 0, C(n)); return; }
    case SP_MEMCPYFN: { u64 n = cv(a(2)); u64 d = cv(a(0)); if (n) copyBytes(d, cv(a(1)), n); setRet(I, 0, C(d)); return; }
    case SP_MEMSETFN: { u64 n = cv(a(2)); u64 d = cv(a(0)); Val b = a(1); if (b.e) b = V(mkExtract(b.e, 0, 8)); else b.v &= 255; setBytes(d, b, n); setRet(I, 0, C(d)); return; }
    case SP_SYSCALL: { u64 nr = cv(a(0)); if (nr == 318) { u64 p = cv(a(1)), n = cv(a(2)); setBytes(p, C(0), n); setRet(I, 0, C(n)); return; } error("syscall " + std::to_string(nr)); }
    case SP_GETRANDOM: { u64 p = cv(a(0)), n = cv(a(1)); setBytes(p, C(0), n); setRet(I, 0, C(n)); return; }
    case SP_WRITE: setRet(I, 0, C(cv(a(2)))); return; // output is not looked at
    case SP_CLOCK: setBytes(cv(a(1)), C(0), 16); setRet(I, 0, C(0)); return; // time stands still
    case SP_ERRNO: setRet(I, 0, C((u64)g_errnoObj << SHIFT)); return;
    case SP_GETENV: case SP_ZERO: setRet(I, 0, C(0)); return;
    case SP_ONERET: { u64 p = cv(a(0)), off; Obj* o = findW(p, 4, off); storeObj(o, off, C(1), 32); setRet(I, 0, C(0)); return; }
    default: error("call to external function " + (f ? f->name : "?"));
  }
}

static double asD(u64 v, unsigned w) { if (w == 64) { double d; memcpy(&d, &v, 8); return d; } float f; u32 x = v; memcpy(&f, &x, 4); return f; }
static u64 fromD(double d, unsigned w) { if (w == 64) { u64 v; memcpy(&v, &d, 8); return v; } float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; }

// runs cur until its path ends (throws PathEnd) or, if bfs, until it forked
static void runState(bool bfs) {
  struct Count { u64 n = 0; ~Count() { S.insns += n & 0xffff; if (cur) cur->insns += n & 0xffff; } } cnt; u64& localInsns = cnt.n;
  top = cur->st.back(); if (top->ref > 1) { top->ref--; top = cloneF(top); cur->st.back() = top; }
  for (;;) {
    Ins& I = top->f->code[top->pc];
    if ((++localInsns & 0xffff) == 0) { cur->insns += 0x10000; S.insns += 0x10000; if (cur->insns > g_pathInsnLimit) fail("hang", "no termination within the instruction bound", backtrace()); if (now() > g_deadline) { fprintf(stderr, "rsym: time limit\n"); _exit(5); } }
    size_t before = work.size();
    switch (I.op) {
      case I_NOP: top->pc++; break;
      case I_COPY: for (u32 k = 0; k < I.n; k++) top->regs[I.dst + k] = R(I.a, k); top->pc++; break;
      case I_BIN: for (u32 k = 0; k < I.n; k++) top->regs[I.dst + k] = binop(I.sub, R(I.a, k), R(I.b, k), I.w); top->pc++; break;
      case I_ICMP: for (u32 k = 0; k < I.n; k++) top->regs[I.dst + k] = icmp(I.sub, R(I.a, k), R(I.b, k), I.w); top->pc++; break;
      case I_SELECT: {
        std::vector<Leaf>& l = *(std::vector<Leaf>*)I.x;
        if (!I.sub) { Val c = R(I.a); if (!c.e) { i32 o = (c.v & 1) ? I.b : I.c; if (I.n == 1) top->regs[I.dst] = R(o); else for (u32 k = 0; k < I.n; k++) top->regs[I.dst + k] = R(o, k); top->pc++; break; } 
          bool ptr = false; for (u32 k = 0; k < I.n; k++) if (l[k].ptr) { const Val &x = R(I.b, k), &y = R(I.c, k); if (x.e || y.e || x.v != y.v) ptr = true; }
          if (ptr) { bool d = decide(c.e); i32 o = d ? I.b : I.c; for (u32 k = 0; k < I.n; k++) top->regs[I.dst + k] = R(o, k); top->pc++; break; }
          for (u32 k = 0; k < I.n; k++) top->regs[I.dst + k] = V(mkIte(c.e, X(R(I.b, k), l[k].w), X(R(I.c, k), l[k].w))); }
        else for (u32 k = 0; k < I.n; k++) { Val c = R(I.a, k); top->regs[I.dst + k] = !c.e ? ((c.v & 1) ? R(I.b, k) : R(I.c, k)) : V(mkIte(c.e, X(R(I.b, k), l[k].w), X(R(I.c, k), l[k].w))); }
        top->pc++; break; }
      case I_TRUNC: for (u32 k = 0; k < I.n; k++) { const Val& v = R(I.a, k); top->regs[I.dst + k] = v.e ? V(mkExtract(v.e, 0, I.w2)) : C(v.v & mask64(I.w2)); } top->pc++; break;
      case I_ZEXT: for (u32 k = 0; k < I.n; k++) { const Val& v = R(I.a, k); top->regs[I.dst + k] = v.e || I.w2 > 64 ? V(mkZext(X(v, I.w), I.w2)) : v; } top->pc++; break;
      case I_SEXT: for (u32 k = 0; k < I.n; k++) { const Val& v = R(I.a, k); top->regs[I.dst + k] = v.e || I.w2 > 64 ? V(mkSext(X(v, I.w), I.w2)) : C((u64)sx(v.v, I.w) & mask64(I.w2)); } top->pc++; break;
      case I_BITCAST: { // element-count changing bitcast, little endian
        unsigned tot = I.w * I.imm; Expr* e = X(R(I.a, 0), I.w); for (u32 k = 1; k < I.imm; k++) e = mkConcat(X(R(I.a, k), I.w), e);
        if (tot > 128) { // wide: convert per output element from bits
          Val outv[256]; for (u32 k = 0; k < I.n; k++) { Expr* r = nullptr; for (u32 b = 0; b < I.w2; ) { u32 bit = k * I.w2 + b; u32 el = bit / I.w, eo = bit % I.w; u32 take = std::min<u32>(I.w - eo, I.w2 - b); Expr* p = mkExtract(X(R(I.a, el), I.w), eo, take); r = r ? mkConcat(p, r) : p; b += take; } outv[k] = V(r); }
          for (u32 k = 0; k < I.n; k++) top->regs[I.dst + k] = outv[k]; top->pc++; break; }
        for (u32 k = 0; k < I.n; k++) top->regs[I.dst + k] = V(mkExtract(e, k * I.w2, I.w2)); top->pc++; break; }
      case I_ALLOCA: { u64 cnt = cv(R(I.a)); u64 p = allocMem(cur, I.imm * cnt); top->allocas.push_back(p >> SHIFT); top->regs[I.dst] = C(p); top->pc++; break; }
      case I_LOAD: { MemInfo* m = (MemInfo*)I.x; Val av = R(I.a); if (av.e) { Val r; if (m->leaves.size() == 1 && tableLoad(av.e, m->leaves[0].w, r)) { top->regs[I.dst] = r; top->pc++; break; } }
        u64 p = cv(av); for (u32 k = 0; k < m->leaves.size(); k++) { u64 off; u32 w = m->leaves[k].w; Obj* o = findR(p + m->leaves[k].off, (w + 7) / 8, off); top->regs[I.dst + k] = loadObj(o, off, w); } top->pc++; break; }
      case I_STORE: { MemInfo* m = (MemInfo*)I.x; u64 p = cv(R(I.a)); for (u32 k = 0; k < m->leaves.size(); k++) { u64 off; u32 w = m->leaves[k].w; Obj* o = findW(p + m->leaves[k].off, (w + 7) / 8, off); storeObj(o, off, R(I.b, k), w); } top->pc++; break; }
      case I_GEP: { GepInfo* g = (GepInfo*)I.x; const Val& b = R(I.a); bool sym = b.e; for (auto& t : g->terms) if (R(t.opd).e) sym = true;
        if (!sym) { u64 p = b.v + g->off; for (auto& t : g->terms) p += (u64)(i64)sx(R(t.opd).v, t.w) * t.scale; top->regs[I.dst] = C(p); }
        else { Expr* e = mkBin(E_ADD, X(b, 64), mkConst(g->off, 64)); for (auto& t : g->terms) { Expr* x = mkSext(X(R(t.opd), t.w), 64); e = mkBin(E_ADD, e, mkBin(E_MUL, x, mkConst(t.scale, 64))); } top->regs[I.dst] = V(e); }
        top->pc++; break; }
      case I_BR: { BrInfo* b = (BrInfo*)I.x; takeEdge(b->e0); top->pc = top->f->blockStart[b->t0]; break; }
      case I_CONDBR: { BrInfo* b = (BrInfo*)I.x; const Val& c = R(I.a); bool d = c.e ? decide(c.e) : (c.v & 1); if (d) { takeEdge(b->e0); top->pc = top->f->blockStart[b->t0]; } else { takeEdge(b->e1); top->pc = top->f->blockStart[b->t1]; } break; }
      case I_SWITCH: { SwitchInfo* s = (SwitchInfo*)I.x; Val c = R(I.a);
        if (c.e) {
          if (c.e->op == E_ITE) { c = C(0); // resolve through concretisation of the selected value: only distinct constants fork
            Expr* e = R(I.a).e; u64 v = (u64)evalExpr(e, cur->model); int tgt = s->def; bool found = false; for (auto& q : s->cases) if (q.first == v) { tgt = q.second; found = true; }
            (void)tgt; (void)found; c.e = e; }
          u64 v = (u64)evalExpr(c.e, cur->model); int idx = -1; for (size_t i = 0; i < s->cases.size(); i++) if (s->cases[i].first == v) { idx = i; break; }
          if (idx >= 0) { // same-target cases with identical phi effect are grouped only when there is no phi move
            Expr* cond = mkEq(c.e, mkConst(v, s->w)); if (!s->caseEdge[idx]) for (size_t i = 0; i < s->cases.size(); i++) if ((int)i != idx && s->cases[i].second == s->cases[idx].second) cond = mkOr1(cond, mkEq(c.e, mkConst(s->cases[i].first, s->w)));
            if (!decide(cond)) die("switch"); takeEdge(s->caseEdge[idx]); top->pc = top->f->blockStart[s->cases[idx].second]; }
          else { Expr* cond = mkConst(1, 1); for (auto& q : s->cases) cond = mkAnd1(cond, mkNot(mkEq(c.e, mkConst(q.first, s->w)))); if (!decide(cond)) die("switch default"); takeEdge(s->defEdge); top->pc = top->f->blockStart[s->def]; }
          break; }
        int t = s->def; Edge* e = s->defEdge; for (size_t i = 0; i < s->cases.size(); i++) if (s->cases[i].first == c.v) { t = s->cases[i].second; e = s->caseEdge[i]; break; }
        takeEdge(e); top->pc = top->f->blockStart[t]; break; }
      case I_CALL: { CallInfo* ci = (CallInfo*)I.x;
        if (ci->intr) { if (ci->intr != IN_NOP) intrinsic(I, ci); top->pc++; break; }
        if (ci->inlineAsm) { for (u32 k = 0; k < I.n; k++) top->regs[I.dst + k] = C(0); top->pc++; break; } // cpuid probes and optimisation barriers only
        Func* f = ci->callee; if (!f) { u64 p = cv(R(ci->calleeOpd)); f = funcAt(p); if (!f) error("indirect call to non-function"); }
        if (f->special) { special(f->special, I, ci, f); top->pc++; break; }
        if (f->decl) { if (!f->name.compare(0, 5, "llvm.")) error("indirect intrinsic"); error("external " + f->name); }
        pushFrame(f, I, ci); break; }
      case I_RET: { Frame* fr = top; f_ret: (void)0;
        Val rv[8]; std::vector<Val> big; u32 n = I.n; if (n <= 8) { for (u32 k = 0; k < n; k++) rv[k] = R(I.a, k); } else for (u32 k = 0; k < n; k++) big.push_back(R(I.a, k));
        for (u32 id : fr->allocas) freeMem(cur, id);
        i32 rs = fr->retSlot; cur->st.pop_back(); unrefF(fr);
        if (cur->st.empty()) throw PathEnd{0};
        top = cur->st.back(); if (top->ref > 1) { top->ref--; top = cloneF(top); cur->st.back() = top; }
        if (rs >= 0) for (u32 k = 0; k < n; k++) top->regs[rs + k] = n <= 8 ? rv[k] : big[k];
        top->pc++; break; }
      case I_UNREACH: error("unreachable executed");
      case I_EXTRACTELT: { Val ix = R(I.b); u64 k = cv(ix); if (k >= I.imm) error("extractelement index"); top->regs[I.dst] = R(I.a, k); top->pc++; break; }
      case I_INSERTELT: { u64 k = cv(R(I.c)); if (k >= I.n) error("insertelement index"); Val v = R(I.b); for (u32 q = 0; q < I.n; q++) top->regs[I.dst + q] = q == k ? v : R(I.a, q); top->pc++; break; }
      case I_SHUFFLE: { ShufInfo* s = (ShufInfo*)I.x; std::vector<Val> t(s->mask.size()); for (size_t q = 0; q < t.size(); q++) { int m = s->mask[q]; t[q] = m < 0 ? C(0) : (u64)m < I.imm ? R(I.a, m) : R(I.b, m - I.imm); } for (size_t q = 0; q < t.size(); q++) top->regs[I.dst + q] = t[q]; top->pc++; break; }
      case I_CMPXCHG: { u64 p = cv(R(I.a)); u64 off; u32 n = (I.w + 7) / 8; Obj* o = findR(p, n, off); Val old = loadObj(o, off, I.w); Val e = icmp(LLVMIntEQ, old, R(I.b), I.w); bool eq = e.e ? decide(e.e) : e.v; if (eq) { o = findW(p, n, off); storeObj(o, off, R(I.c), I.w); } top->regs[I.dst] = old; top->regs[I.dst + 1] = C(eq); top->pc++; break; }
      case I_RMW: { u64 p = cv(R(I.a)); u64 off; u32 n = (I.w + 7) / 8; Obj* o = findW(p, n, off); Val old = loadObj(o, off, I.w); Val nv; const Val& x = R(I.b);
        switch (I.sub) { case 0: nv = x; break; case 1: nv = binop(E_ADD, old, x, I.w); break; case 2: nv = binop(E_SUB, old, x, I.w); break; case 3: nv = binop(E_AND, old, x, I.w); break; case 5: nv = binop(E_OR, old, x, I.w); break; case 6: nv = binop(E_XOR, old, x, I.w); break; default: error("atomicrmw op"); }
        storeObj(o, off, nv, I.w); top->regs[I.dst] = old; top->pc++; break; }
      case I_FBIN: { for (u32 k = 0; k < I.n; k++) { double x = asD(cv(R(I.a, k)), I.w), y = asD(cv(R(I.b, k)), I.w), r; switch (I.sub) { case LLVMFAdd: r = x + y; break; case LLVMFSub: r = x - y; break; case LLVMFMul: r = x * y; break; case LLVMFDiv: r = x / y; break; default: r = fmod(x, y); } top->regs[I.dst + k] = C(fromD(r, I.w)); } top->pc++; break; }
      case I_FNEG: for (u32 k = 0; k < I.n; k++) top->regs[I.dst + k] = C(cv(R(I.a, k)) ^ (1ull << (I.w - 1))); top->pc++; break;
      case I_FCMP: for (u32 k = 0; k < I.n; k++) { double x = asD(cv(R(I.a, k)), I.w), y = asD(cv(R(I.b, k)), I.w); bool un = x != x || y != y; bool r = false; if (un) r = I.sub >= 8; else { if ((I.sub & 1) && x == y) r = true; if ((I.sub & 2) && x > y) r = true; if ((I.sub & 4) && x < y) r = true; } if (I.sub == 7) r = !un; if (I.sub == 8) r = un; top->regs[I.dst + k] = C(r); } top->pc++; break;
      case I_FCAST: for (u32 k = 0; k < I.n; k++) { u64 v = cv(R(I.a, k)); u64 r; switch (I.sub) { case LLVMFPToUI: r = (u64)asD(v, I.w); break; case LLVMFPToSI: r = (u64)(i64)asD(v, I.w); break; case LLVMUIToFP: r = fromD((double)v, I.w2); break; case LLVMSIToFP: r = fromD((double)(i64)sx(v, I.w), I.w2); break; default: r = fromD(asD(v, I.w), I.w2); } top->regs[I.dst + k] = C(r & mask64(I.w2)); } top->pc++; break;
      default: error("unsupported instruction " + std::to_string(I.op) + "/" + std::to_string(I.imm));
    }
    if (bfs && work.size() > before) return;
  }
}

static void endPath(State* s, int kind) {
  S.paths++;
  for (const char* c : s->covers) g_cover[c]++;
  if (kind == 0) {
    S.done++; g_sampleSeen++;
    if (g_samples.size() < g_maxSamples) g_samples.push_back({"ok", "", "", inputsOf(s, s->model), obsHash(s, s->model)});
    else { u64 r = rnd() % g_sampleSeen; if (r < g_maxSamples) g_samples[r] = {"ok", "", "", inputsOf(s, s->model), obsHash(s, s->model)}; }
  } else if (kind == 1) S.assumed++;
  delete s;
}
static std::string g_report; static void writeReport(const char* path);
static void timeCheck() { if (now() > g_deadline) { fprintf(stderr, "rsym: time limit\n"); if (!g_report.empty()) { writeReport(g_report.c_str()); } _exit(5); } }
static void runOne(State* s) { timeCheck(); cur = s; try { runState(false); } catch (PathEnd& e) { endPath(cur, e.kind); } }

// ---------------------------------------------------------------- reporting
static std::string esc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void writeOutcome(FILE* f, const Outcome& o) {
  fprintf(f, "{\"kind\":\"%s\",\"key\":\"%s\",\"detail\":\"%s\",\"obs\":%llu,\"inputs\":[", o.kind.c_str(), esc(o.key).c_str(), esc(o.detail).c_str(), (unsigned long long)o.obs);
  bool c = false; for (auto& p : o.inputs) { fprintf(f, "%s[\"%s\",%llu]", c ? "," : "", esc(p.first).c_str(), (unsigned long long)p.second); c = true; } fprintf(f, "]}");
}
static void writeReport(const char* path) {
  FILE* f = fopen(path, "w"); if (!f) die("cannot write %s", path);
  fprintf(f, "{\"paths\":%llu,\"done\":%llu,\"assumed\":%llu,\"fails\":%llu,\"errors\":%llu,\"forks\":%llu,\"queries\":%llu,\"qsat\":%llu,\"qunsat\":%llu,\"qcache\":%llu,\"insns\":%llu,\"checks\":%llu,\"ranged\":%llu,\"concretisations\":%llu,\"solver_s\":%.3f,",
    (unsigned long long)S.paths, (unsigned long long)S.done, (unsigned long long)S.assumed, (unsigned long long)S.fails, (unsigned long long)S.errors, (unsigned long long)S.forks, (unsigned long long)S.queries, (unsigned long long)S.qsat, (unsigned long long)S.qunsat, (unsigned long long)S.qcache, (unsigned long long)S.insns, (unsigned long long)S.checks, (unsigned long long)S.ranged, (unsigned long long)S.concretisations, S.solverT);
  auto mapOut = [&](const char* n, std::map<std::string, u64>& m) { fprintf(f, "\"%s\":{", n); bool c = false; for (auto& p : m) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", esc(p.first).c_str(), (unsigned long long)p.second); c = true; } fprintf(f, "},"); };
  mapOut("cover", g_cover); mapOut("fail_count", g_failCount); mapOut("error_count", g_errs);
  auto lst = [&](const char* n, std::vector<Outcome>& v, const char* t) { fprintf(f, "\"%s\":[", n); bool c = false; for (auto& o : v) { if (c) fprintf(f, ","); writeOutcome(f, o); c = true; } fprintf(f, "]%s", t); };
  lst("failures", g_fail, ","); lst("error_samples", g_errSamples, ","); lst("samples", g_samples, ",");
  fprintf(f, "\"functions\":["); bool c = false; for (Func* fn : g_funcs) if (fn->decoded) { fprintf(f, "%s\"%s\"", c ? "," : "", esc(fn->name).c_str()); c = true; } fprintf(f, "]}\n"); fclose(f);
}

int main(int argc, char** argv) {
  const char *bc = nullptr, *entry = nullptr, *out = "rsym-out"; int workers = 8; double limit = 600; u32 frontier = 600;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return argv[++i]; };
    if (a == "--bc") bc = nx(); else if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--workers") workers = atoi(nx()); else if (a == "--time") limit = atof(nx());
    else if (a == "--frontier") frontier = atoi(nx()); else if (a == "--slow") g_slow = atof(nx()); else if (a == "--known") { std::string k = nx(); size_t q = k.find('='); g_known.push_back({k.substr(0, q), k.substr(q + 1)}); } else if (a == "--samples") g_maxSamples = atoi(nx()); else if (a == "--per-key") g_maxPerKey = atoi(nx()); else if (a == "--seed") { g_rng ^= strtoull(nx(), 0, 10) * 0x9E3779B97F4A7C15ull; if (!g_rng) g_rng = 1; } else if (a == "--path-insns") g_pathInsnLimit = strtoull(nx(), 0, 10); else if (a == "--trace") g_trace = true; else if (a == "--stop-first") g_stopFirst = true; }
  if (!bc || !entry) die("usage: rsym --bc FILE --entry NAME");
  double t0 = now(); g_deadline = t0 + limit;
  loadModule(bc);
  g_nglob = 16 + g_globals.size(); g_roObj.assign(g_nglob, nullptr);
  State* s0 = new State(); s0->mem.assign(g_nglob, nullptr);
  for (Global& g : g_globals) {
    if (LLVMIsDeclaration(g.v)) { if (!g.weakExtern) { s0->mem[g.objId] = newObj(64); } continue; }
    Obj* o = newObj(g.size); LLVMValueRef init = LLVMGetInitializer(g.v);
    if (!LLVMIsNull(init) && !LLVMIsUndef(init)) { std::vector<Leaf> l; flatten(LLVMTypeOf(init), l); std::vector<Val> v; flattenConst(init, v); if (l.size() != v.size()) die("global init %s", g.name.c_str()); for (size_t i = 0; i < l.size(); i++) storeObj(o, l[i].off, v[i], l[i].w); }
    if (g.isConst) { o->ro = true; g_roObj[g.objId] = o; } else s0->mem[g.objId] = o;
  }
  g_errnoObj = 1; s0->mem[1] = newObj(8);
  Func* ef = nullptr; for (Func* f : g_funcs) if (f->name == entry) ef = f; if (!ef || ef->decl) die("no entry %s", entry);
  decodeFunc(ef); Frame* fr = newFrame(ef); s0->st.push_back(fr);
  solverInit();
  g_report = std::string(out) + ".0";
  // breadth-first until there are enough states to share out
  std::deque<State*> front; front.push_back(s0);
  while (!front.empty() && front.size() < frontier) {
    timeCheck(); State* s = front.front(); front.pop_front(); cur = s; bool ended = false;
    try { runState(true); } catch (PathEnd& e) { endPath(cur, e.kind); ended = true; }
    if (!ended) front.push_back(cur); while (!work.empty()) { front.push_back(work.front()); work.pop_front(); }
  }
  u32 nf = front.size(); std::vector<State*> fs(front.begin(), front.end()); for (u32 i = nf; i > 1; i--) std::swap(fs[i - 1], fs[rnd() % i]);
  volatile u32* ctr = (volatile u32*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); ctr[0] = 0; ctr[1] = 0;
  if (nf == 0) workers = 0; if ((u32)workers > nf) workers = nf;
  std::string base = out; writeReport((base + ".0").c_str());
  std::vector<pid_t> pids;
  for (int w = 0; w < workers; w++) {
    pid_t p = fork();
    if (p == 0) {
      g_report = base + "." + std::to_string(w + 1); S = Stats(); g_cover.clear(); g_fail.clear(); g_failCount.clear(); g_errs.clear(); g_errSamples.clear(); g_samples.clear(); g_sampleSeen = 0; g_rng ^= (u64)(w + 1) * 0x9E3779B97F4A7C15ull;
      for (;;) { u32 i = __sync_fetch_and_add(&ctr[0], 1); if (i >= nf) break; State* s = fs[i]; fs[i] = nullptr; work.push_back(s);
        while (!work.empty()) { State* x = work.back(); work.pop_back(); runOne(x); if (g_stopFirst && !g_fail.empty()) ctr[1] = 1; if (ctr[1]) break; } if (ctr[1]) break; }
      writeReport((base + "." + std::to_string(w + 1)).c_str()); fflush(nullptr); _exit(0);
    }
    pids.push_back(p);
  }
  int rc = 0; for (pid_t p : pids) { int st; waitpid(p, &st, 0); int c = WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st); if (c) rc = c; }
  printf("{\"workers\":%d,\"frontier\":%u,\"stopped\":%u,\"wall_s\":%.2f,\"rc\":%d}\n", workers, nf, ctr[1], now() - t0, rc);
  fflush(nullptr); _exit(rc);
}
