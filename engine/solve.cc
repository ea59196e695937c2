#include "solve.h"
#include "tactics.h"
#include <z3.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <random>
#include <unistd.h>
SolveStats gStats;
unsigned gTimeoutMs = 20000;
bool gUseCache = true;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static bool isFP(Op o) { return o >= O_FADD && o <= O_FREM; }
static void topo(const std::vector<T>& roots, std::vector<T>& order) {
  std::unordered_map<T, char> st; std::vector<std::pair<T, unsigned>> stk;
  for (T r : roots) {
    if (st.count(r)) continue;
    stk.push_back({r, 0}); st[r] = 1;
    while (!stk.empty()) {
      auto& [t, i] = stk.back();
      if (i < G.n[t].nk) { T q = G.kid(t, i++); if (!st.count(q)) { st[q] = 1; stk.push_back({q, 0}); } }
      else { order.push_back(t); stk.pop_back(); }
    }
  }
}
u128 evalUnder(T t, const Model& m, std::unordered_map<T, u128>& memo) {
  std::vector<T> ord; topo({t}, ord);
  for (T x : ord) {
    if (memo.count(x)) continue;
    if (G.op(x) == O_VAR) { auto it = m.v.find((uint32_t)G.n[x].c); memo[x] = it == m.v.end() ? 0 : it->second & Terms::msk(G.W(x)); continue; }
    memo[x] = G.evalNode(x, [&](T q) { return memo[q]; });
  }
  return memo[t];
}
void collectVars(T t, std::set<uint32_t>& vs, std::unordered_map<T, bool>& seen) {
  std::vector<T> stk{t};
  while (!stk.empty()) {
    T x = stk.back(); stk.pop_back();
    if (seen.count(x)) continue; seen[x] = true;
    if (G.op(x) == O_VAR) vs.insert((uint32_t)G.n[x].c);
    for (unsigned i = 0; i < G.n[x].nk; i++) stk.push_back(G.kid(x, i));
  }
}
// ---- canonical key
struct Key { uint64_t a, b; bool operator==(const Key& o) const { return a == o.a && b == o.b; } };
struct KeyH { size_t operator()(const Key& k) const { return k.a; } };
static Key canon(const std::vector<T>& roots) {
  std::vector<T> ord; topo(roots, ord);
  std::unordered_map<T, uint64_t> num; uint64_t nv = 0, id = 0;
  uint64_t h1 = 0x1234567, h2 = 0x89abcdef;
  auto put = [&](uint64_t v) { h1 = (h1 ^ v) * 0x9E3779B97F4A7C15ull; h1 ^= h1 >> 31; h2 = (h2 + v) * 0xD6E8FEB86659FD93ull; h2 ^= h2 >> 32; };
  for (T t : ord) {
    Node& m = G.n[t]; num[t] = id++;
    put(m.op); put(m.w);
    if (m.op == O_VAR) { put(nv++); put(G.vars[(size_t)m.c].alignBits); continue; }
    put((uint64_t)m.c); put((uint64_t)(m.c >> 64)); put(m.nk);
    for (unsigned i = 0; i < m.nk; i++) { put(num[G.kid(t, i)]); if (m.op == O_LIN) { u128 c = G.coefs[m.coff + i]; put((uint64_t)c); put((uint64_t)(c >> 64)); } }
  }
  for (T r : roots) put(num[r]);
  return {h1, h2};
}
static std::unordered_map<Key, bool, KeyH> gProved;

// ---- z3 translation
struct Z {
  Z3_context c; bool fp, bits = false; std::map<std::string, std::vector<std::pair<std::vector<Z3_ast>, Z3_ast>>> apps; unsigned nfresh = 0; std::unordered_map<T, Z3_ast> memo; std::vector<Z3_ast> side;
  std::map<std::pair<int, std::string>, Z3_func_decl> fd;
  Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(c, w); }
  Z3_ast num(u128 v, unsigned w) {
    if (w <= 64) return Z3_mk_unsigned_int64(c, (uint64_t)v, bv(w));
    Z3_ast hi = Z3_mk_unsigned_int64(c, (uint64_t)(v >> 64), bv(w - 64)), lo = Z3_mk_unsigned_int64(c, (uint64_t)v, bv(64));
    if (w <= 128) return Z3_mk_concat(c, hi, lo);
    return Z3_mk_zero_ext(c, w - 128, Z3_mk_concat(c, Z3_mk_unsigned_int64(c, (uint64_t)(v >> 64), bv(64)), lo));
  }
  Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(c, b, num(1, 1), num(0, 1)); }
  Z3_ast v2b(Z3_ast v) { return Z3_mk_eq(c, v, num(1, 1)); }
  Z3_sort fsort(unsigned w) { return w == 16 ? Z3_mk_fpa_sort_half(c) : w == 32 ? Z3_mk_fpa_sort_single(c) : Z3_mk_fpa_sort_double(c); }
  Z3_ast tofp(Z3_ast v, unsigned w) { return Z3_mk_fpa_to_fp_bv(c, v, fsort(w)); }
  Z3_ast rne() { return Z3_mk_fpa_rne(c); }
  Z3_ast tr(T root) {
    std::vector<T> ord; topo({root}, ord);
    for (T t : ord) if (!memo.count(t)) memo[t] = one(t);
    return memo[root];
  }
  // booleans (w==1) are represented as Z3 Bool; everything else BV
  Z3_ast V(T t) { return G.W(t) == 1 ? b2v(memo[t]) : memo[t]; }
  Z3_ast one(T t) {
    Node m = G.n[t]; unsigned w = m.w;
    auto K = [&](unsigned i) { return G.kid(t, i); };
    auto A = [&](unsigned i) { return memo[G.kid(t, i)]; };
    bool b = w == 1;
    switch (m.op) {
      case O_CONST: return b ? (m.c ? Z3_mk_true(c) : Z3_mk_false(c)) : num(m.c, w);
      case O_VAR: {
        std::string nm = "v" + std::to_string((unsigned)m.c);
        if (bits) { // one named Boolean per bit, so that a SAT model can be read back
          Z3_ast r = nullptr; unsigned al = G.vars[(size_t)m.c].alignBits;
          for (unsigned i = 0; i < w; i++) { Z3_ast x = i < al ? Z3_mk_false(c) : Z3_mk_const(c, Z3_mk_string_symbol(c, (nm + "." + std::to_string(i)).c_str()), Z3_mk_bool_sort(c)); if (b) return x; Z3_ast y = b2v(x); r = r ? Z3_mk_concat(c, y, r) : y; }
          return r;
        }
        Z3_ast r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.c_str()), b ? Z3_mk_bool_sort(c) : bv(w));
        unsigned al = G.vars[(size_t)m.c].alignBits;
        if (al) side.push_back(Z3_mk_eq(c, Z3_mk_extract(c, al - 1, 0, r), num(0, al)));
        return r;
      }
      case O_LIN: {
        Z3_ast r = nullptr;
        for (unsigned i = 0; i < m.nk; i++) {
          u128 cf = G.coefs[m.coff + i]; Z3_ast x = V(K(i));
          bool ng = cf > (Terms::msk(w) >> 1); u128 ac = ng ? (~cf + 1) & Terms::msk(w) : cf;
          Z3_ast y = ac == 1 ? x : (ac & (ac - 1)) == 0 ? ({ unsigned s = 0; while (!((ac >> s) & 1)) s++; Z3_mk_bvshl(c, x, num(s, w)); }) : Z3_mk_bvmul(c, num(ac, w), x);
          if (!r) r = ng ? Z3_mk_bvneg(c, y) : y; else r = ng ? Z3_mk_bvsub(c, r, y) : Z3_mk_bvadd(c, r, y);
        }
        if (m.c) r = Z3_mk_bvadd(c, r, num(m.c, w));
        return fixb(r, b);
      }
      case O_MUL: return Z3_mk_bvmul(c, V(K(0)), V(K(1)));
      case O_UDIV: return fixb(Z3_mk_bvudiv(c, V(K(0)), V(K(1))), b);
      case O_UREM: return fixb(Z3_mk_bvurem(c, V(K(0)), V(K(1))), b);
      case O_SDIV: return fixb(Z3_mk_bvsdiv(c, V(K(0)), V(K(1))), b);
      case O_SREM: return fixb(Z3_mk_bvsrem(c, V(K(0)), V(K(1))), b);
      case O_AND: { Z3_ast x[2] = {A(0), A(1)}; return b ? Z3_mk_and(c, 2, x) : Z3_mk_bvand(c, x[0], x[1]); }
      case O_OR: { Z3_ast x[2] = {A(0), A(1)}; return b ? Z3_mk_or(c, 2, x) : Z3_mk_bvor(c, x[0], x[1]); }
      case O_XOR: return b ? Z3_mk_xor(c, A(0), A(1)) : Z3_mk_bvxor(c, A(0), A(1));
      case O_NOT: return b ? Z3_mk_not(c, A(0)) : Z3_mk_bvnot(c, A(0));
      case O_SHL: return fixb(Z3_mk_bvshl(c, V(K(0)), V(K(1))), b);
      case O_LSHR: return fixb(Z3_mk_bvlshr(c, V(K(0)), V(K(1))), b);
      case O_ASHR: return fixb(Z3_mk_bvashr(c, V(K(0)), V(K(1))), b);
      case O_CONCAT: { Z3_ast r = V(K(0)); for (unsigned i = 1; i < m.nk; i++) r = Z3_mk_concat(c, V(K(i)), r); return r; }
      case O_EXTRACT: { unsigned lo = (unsigned)m.c; return fixb(Z3_mk_extract(c, lo + w - 1, lo, V(K(0))), b); }
      case O_SEXT: { T q = K(0); if (G.W(q) == 1) return Z3_mk_ite(c, memo[q], num(Terms::msk(w), w), num(0, w)); return Z3_mk_sign_ext(c, w - G.W(q), memo[q]); }
      case O_ITE: return Z3_mk_ite(c, A(0), A(1), A(2));
      case O_EQ: return Z3_mk_eq(c, A(0), A(1));
      case O_ULT: return Z3_mk_bvult(c, V(K(0)), V(K(1)));
      case O_SLT: return Z3_mk_bvslt(c, V(K(0)), V(K(1)));
      case O_POPCNT: {
        Z3_ast v = V(K(0)); // pairwise adder tree
        std::vector<Z3_ast> l; for (unsigned i = 0; i < w; i++) l.push_back(Z3_mk_extract(c, i, i, v));
        unsigned cw = 1;
        while (l.size() > 1) { std::vector<Z3_ast> q; for (size_t i = 0; i < l.size(); i += 2) { Z3_ast x = Z3_mk_zero_ext(c, 1, l[i]); if (i + 1 < l.size()) x = Z3_mk_bvadd(c, x, Z3_mk_zero_ext(c, 1, l[i + 1])); q.push_back(x); } l.swap(q); cw++; }
        return fixb(cw < w ? Z3_mk_zero_ext(c, w - cw, l[0]) : Z3_mk_extract(c, w - 1, 0, l[0]), b);
      }
      case O_CTLZ: { Z3_ast v = V(K(0)), r = num(w, w); for (unsigned i = 0; i < w; i++) r = Z3_mk_ite(c, Z3_mk_eq(c, Z3_mk_extract(c, i, i, v), num(1, 1)), num(w - 1 - i, w), r); return fixb(r, b); }
      case O_CTTZ: { Z3_ast v = V(K(0)), r = num(w, w); for (int i = w - 1; i >= 0; i--) r = Z3_mk_ite(c, Z3_mk_eq(c, Z3_mk_extract(c, i, i, v), num(1, 1)), num(i, w), r); return fixb(r, b); }
      default: break;
    }
    if (isFP(m.op) && fp) {
      unsigned k0 = G.W(K(0));
      auto F = [&](unsigned i) { return tofp(V(K(i)), G.W(K(i))); };
      Z3_ast r = nullptr;
      bool okw = (w == 16 || w == 32 || w == 64), okk = (k0 == 16 || k0 == 32 || k0 == 64);
      switch (m.op) {
        case O_FADD: r = Z3_mk_fpa_add(c, rne(), F(0), F(1)); break;
        case O_FSUB: r = Z3_mk_fpa_sub(c, rne(), F(0), F(1)); break;
        case O_FMUL: r = Z3_mk_fpa_mul(c, rne(), F(0), F(1)); break;
        case O_FDIV: r = Z3_mk_fpa_div(c, rne(), F(0), F(1)); break;
        case O_FSQRT: r = Z3_mk_fpa_sqrt(c, rne(), F(0)); break;
        case O_FMA: r = Z3_mk_fpa_fma(c, rne(), F(0), F(1), F(2)); break;
        case O_FPEXT: case O_FPTRUNC: if (okw && okk) r = Z3_mk_fpa_to_fp_float(c, rne(), F(0), fsort(w)); break;
        case O_SI2F: if (okw) r = Z3_mk_fpa_to_fp_signed(c, rne(), V(K(0)), fsort(w)); break;
        case O_UI2F: if (okw) r = Z3_mk_fpa_to_fp_unsigned(c, rne(), V(K(0)), fsort(w)); break;
        case O_F2SI: case O_F2UI: if (okk) { // out of range: unspecified
          bool sg = m.op == O_F2SI; Z3_ast x = F(0); unsigned mant = k0 == 16 ? 11 : k0 == 32 ? 24 : 53; Z3_ast hi = Z3_mk_fpa_numeral_double(c, ldexp(1.0, sg ? w - 1 : w), fsort(k0)); 
          Z3_ast lo = !sg ? Z3_mk_fpa_gt(c, x, Z3_mk_fpa_numeral_double(c, -1.0, fsort(k0))) : mant >= w ? Z3_mk_fpa_gt(c, x, Z3_mk_fpa_numeral_double(c, -ldexp(1.0, w - 1) - 1, fsort(k0))) : Z3_mk_fpa_geq(c, x, Z3_mk_fpa_numeral_double(c, -ldexp(1.0, w - 1), fsort(k0)));
          if (k0 == 16 && w >= 16) break; Z3_ast in[2] = {Z3_mk_fpa_lt(c, x, hi), lo}; Z3_ast cv = sg ? Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), x, w) : Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), x, w);
          return fixb(Z3_mk_ite(c, Z3_mk_and(c, 2, in), cv, ufbv(m, "u")), b); }
          break;
        case O_FRINT: { Z3_ast rm = m.c == 0 ? rne() : m.c == 1 ? Z3_mk_fpa_rtn(c) : m.c == 2 ? Z3_mk_fpa_rtp(c) : m.c == 3 ? Z3_mk_fpa_rtz(c) : Z3_mk_fpa_rna(c); r = Z3_mk_fpa_round_to_integral(c, rm, F(0)); break; }
        default: break;
      }
      if (r) {
        // bits(r): fresh x with to_fp(x) == r when r is not NaN; NaN results: uninterpreted payload per op/args
        Z3_ast nanbits = ufbv(m, "n");
        Z3_ast isnan = Z3_mk_fpa_is_nan(c, r);
        // constrain nanbits to be a NaN encoding
        side.push_back(Z3_mk_implies(c, isnan, Z3_mk_fpa_is_nan(c, tofp(nanbits, w))));
        return Z3_mk_ite(c, isnan, nanbits, Z3_mk_fpa_to_ieee_bv(c, r));
      }
    }
    return fixb(ufbv(m, "u"), b);
  }
  Z3_ast fixb(Z3_ast v, bool b) { return b ? v2b(v) : v; }
  // uninterpreted application; for the SAT back end: a fresh constant per application, with congruence constraints
  Z3_ast ufbv(const Node& m, const char* pre) {
    std::string nm = std::string(pre) + kOpName[m.op] + "_" + std::to_string((unsigned)m.c) + "_" + std::to_string(m.w);
    std::vector<Z3_sort> ds; std::vector<Z3_ast> as;
    for (unsigned i = 0; i < m.nk; i++) { T q = G.kids[m.koff + i]; as.push_back(V(q)); ds.push_back(bv(G.W(q))); nm += "_" + std::to_string(G.W(q)); }
    if (bits) {
      auto& l = apps[nm]; for (auto& e : l) if (e.first == as) return e.second;
      Z3_ast r = nullptr; for (unsigned i = 0; i < m.w; i++) { Z3_ast y = b2v(Z3_mk_const(c, Z3_mk_string_symbol(c, ("u!" + std::to_string(nfresh) + "." + std::to_string(i)).c_str()), Z3_mk_bool_sort(c))); r = r ? Z3_mk_concat(c, y, r) : y; } nfresh++;
      for (auto& e : l) { std::vector<Z3_ast> eq; for (size_t i = 0; i < as.size(); i++) eq.push_back(Z3_mk_eq(c, as[i], e.first[i])); side.push_back(Z3_mk_implies(c, eq.empty() ? Z3_mk_true(c) : Z3_mk_and(c, eq.size(), eq.data()), Z3_mk_eq(c, r, e.second))); }
      l.push_back({as, r}); return r;
    }
    Z3_func_decl f = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, nm.c_str()), ds.size(), ds.data(), bv(m.w));
    return Z3_mk_app(c, f, as.size(), as.data());
  }
};
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

static int runZ3(const std::vector<T>& conj, bool fp, unsigned ms, Model* model, bool hasUF, std::string& why) {
  static const bool dump = getenv("DV_DUMP") != nullptr;
  static Z3_context gctx = nullptr; static int uses = 0;
  if (gctx && ++uses > 400) { Z3_del_context(gctx); gctx = nullptr; }
  if (!gctx) { Z3_config cfg = Z3_mk_config(); gctx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(gctx, z3err); uses = 0; }
  Z3_context c = gctx;
  Z z; z.c = c; z.fp = fp;
  std::vector<Z3_ast> as;
  for (T t : conj) { as.push_back(z.tr(t)); }
  for (auto a : z.side) as.push_back(a);
  Z3_solver s;
  if (hasUF || fp) { s = Z3_mk_solver(c); }
  else { s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV")); }
  Z3_solver_inc_ref(c, s);
  Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
  Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), ms);
  Z3_solver_set_params(c, s, p);
  for (auto a : as) Z3_solver_assert(c, s, a);
  double t0 = now();
  Z3_lbool r = Z3_solver_check(c, s);
  double dt = now() - t0; gStats.z3secs += dt;
  if (dump && dt > 2) { static int k = 0; std::string fn = "/tmp/dvq_" + std::to_string(getpid()) + "_" + std::to_string(k++) + (r == Z3_L_FALSE ? "_unsat" : r == Z3_L_TRUE ? "_sat" : "_unk") + ".smt2"; FILE* f = fopen(fn.c_str(), "w"); fprintf(f, "%s\n(check-sat)\n", Z3_solver_to_string(c, s)); fclose(f); }
  if (r == Z3_L_TRUE && model) {
    Z3_model mo = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, mo);
    std::set<uint32_t> vs; std::unordered_map<T, bool> seen; for (T t : conj) collectVars(t, vs, seen);
    for (uint32_t v : vs) {
      T t = G.varTerm[v]; if (!z.memo.count(t)) continue;
      Z3_ast out; Z3_model_eval(c, mo, z.V(t), true, &out);
      // split in 64-bit halves
      u128 val = 0; unsigned w = G.W(t);
      for (unsigned lo = 0; lo < w && lo < 128; lo += 64) {
        unsigned hi = std::min(w, lo + 64) - 1; Z3_ast e; Z3_model_eval(c, mo, Z3_mk_extract(c, hi, lo, out), true, &e);
        uint64_t u = 0; if (Z3_get_numeral_uint64(c, e, &u)) val |= (u128)u << lo;
      }
      model->v[v] = val;
    }
    Z3_model_dec_ref(c, mo);
  }
  if (r == Z3_L_UNDEF) why = Z3_solver_get_reason_unknown(c, s);
  Z3_params_dec_ref(c, p); Z3_solver_dec_ref(c, s);
  return r;
}
// SAT back end: the goal is bit-blasted by z3's tactics (fpa2bv, bit-blast, tseitin-cnf) and decided by kissat.
static int runSat(const std::vector<T>& conj, unsigned ms, Model* model, std::string& why) {
  double t0 = now(); int res = 0;
  Z3_global_param_set("rewriter.hi_fp_unspecified", "true"); // applications out of range are guarded, see F2SI
  Z3_config cfg = Z3_mk_config(); Z3_context c = Z3_mk_context(cfg); Z3_del_config(cfg); static bool failed; failed = false;
  Z3_set_error_handler(c, [](Z3_context c, Z3_error_code e) { failed = true; if (getenv("DV_TRACE")) fprintf(stderr, "z3: %s\n", Z3_get_error_msg(c, e)); });
  { Z z; z.c = c; z.fp = true; z.bits = true;
    Z3_goal g = Z3_mk_goal(c, true, false, false); Z3_goal_inc_ref(c, g);
    for (T t : conj) Z3_goal_assert(c, g, z.tr(t)); for (auto a : z.side) Z3_goal_assert(c, g, a);
    auto tac = [&](const char* n) { Z3_tactic t = Z3_mk_tactic(c, n); Z3_tactic_inc_ref(c, t); return t; };
    Z3_tactic t = tac("simplify"); auto then = [&](Z3_tactic b) { t = Z3_tactic_and_then(c, t, b); Z3_tactic_inc_ref(c, t); };
    then(tac("fpa2bv")); then(tac("simplify")); then(tac("propagate-values")); then(tac("simplify")); then(tac("bit-blast")); then(tac("simplify")); then(tac("tseitin-cnf"));
    Z3_apply_result ar = failed ? nullptr : Z3_tactic_apply(c, t, g);
    if (!failed && ar && Z3_apply_result_get_num_subgoals(c, ar) == 1) {
      Z3_apply_result_inc_ref(c, ar); Z3_goal h = Z3_apply_result_get_subgoal(c, ar, 0); Z3_goal_inc_ref(c, h);
      if (Z3_goal_inconsistent(c, h)) res = -1;
      else {
        const char* d = Z3_goal_to_dimacs_string(c, h, true);
        if (!failed && d) {
          char fn[64]; snprintf(fn, 64, "/tmp/dvsat_%d.cnf", (int)getpid()); FILE* f = fopen(fn, "w"); std::map<unsigned, std::string> names;
          for (const char* q = d; *q;) { const char* e = strchr(q, '\n'); if (!e) e = q + strlen(q); if (*q == 'c') { unsigned id; char nm[128]; if (sscanf(q, "c %u %127s", &id, nm) == 2) names[id] = nm; } else { fwrite(q, 1, e - q, f); fputc('\n', f); } q = *e ? e + 1 : e; }
          fclose(f); char cmd[160]; snprintf(cmd, 160, "kissat -q %s --time=%u %s 2>/dev/null", model ? "" : "-n", std::max(1u, (ms + 999) / 1000), fn);
          if (FILE* pp = popen(cmd, "r")) {
            char* line = nullptr; size_t cap = 0; std::set<int> pos;
            while (getline(&line, &cap, pp) > 0) {
              if (!strncmp(line, "s UNSATISFIABLE", 15)) res = -1; else if (!strncmp(line, "s SATISFIABLE", 13)) res = 1;
              else if (line[0] == 'v') { char* q = line + 1; for (;;) { char* e; long v = strtol(q, &e, 10); if (e == q || !v) break; if (v > 0) pos.insert(v); q = e; } } }
            free(line); pclose(pp);
            if (res == 1 && model) { for (T t : conj) { std::set<uint32_t> vs; std::unordered_map<T, bool> seen; collectVars(t, vs, seen); for (uint32_t v : vs) model->v[v]; }
              for (int v : pos) { auto it = names.find(v); if (it == names.end()) continue; unsigned var, bit; if (sscanf(it->second.c_str(), "v%u.%u", &var, &bit) == 2 && bit < 128) model->v[var] |= (u128)1 << bit; } }
          }
          unlink(fn);
        } else why = "no dimacs";
      }
      Z3_goal_dec_ref(c, h); Z3_apply_result_dec_ref(c, ar);
    } else why = "not bit-blastable";
  }
  Z3_del_context(c); double dt = now() - t0; gStats.z3secs += dt; if (getenv("DV_TRACE")) fprintf(stderr, "kissat %d %.1fs %s\n", res, dt, why.c_str()); return res;
}
static std::mt19937_64 rng(12345);
static u128 rnd(unsigned w, int round) {
  static const uint64_t corner[] = {0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, 0x7f800000, 0xff800000, 0x7fc00000, 0x3f800000, 0x4f000000, 0xcf000000, 0x5f000000, 0x7ff0000000000000ull, 0x43e0000000000000ull, 0x41e0000000000000ull, 0x3ff0000000000000ull};
  uint64_t r = rng();
  u128 v;
  switch (round % 4) {
    case 0: v = ((u128)rng() << 64) | rng(); break;
    case 1: v = (r & 1) ? corner[(r >> 8) % (sizeof(corner) / 8)] : (((u128)rng() << 64) | rng()); break;
    case 2: v = corner[(r >> 8) % (sizeof(corner) / 8)]; if (w <= 16 && (r & 2)) v = r >> 20; break;
    default: { v = (r >> 8) & 7; if (r & 1) v = ~v; } break;
  }
  return v & Terms::msk(w);
}
static bool randomRefute(const std::vector<T>& assume, T goal, Model& m, int rounds) {
  std::vector<T> roots = assume; roots.push_back(goal);
  std::vector<T> ord; topo(roots, ord);
  if (ord.size() > 20000) rounds = 4;
  std::unordered_map<T, uint32_t> idx; for (size_t i = 0; i < ord.size(); i++) idx[ord[i]] = i;
  std::vector<u128> val(ord.size());
  for (T t : ord) { Node& q = G.n[t]; if (q.op == O_UF) return false; if (isFP(q.op) && (q.w == 16 || (q.nk && (G.W(G.kid(t, 0)) == 16)))) return false; if (q.op == O_F2SI || q.op == O_F2UI) { } if (q.w > 128) return false; }
  for (int r = 0; r < rounds; r++) {
    for (size_t i = 0; i < ord.size(); i++) {
      T t = ord[i];
      if (G.op(t) == O_VAR) { val[i] = rnd(G.W(t), r); unsigned al = G.vars[(size_t)G.n[t].c].alignBits; val[i] &= ~Terms::msk(al); continue; }
      val[i] = G.evalNode(t, [&](T q) { return val[idx[q]]; });
    }
    bool ok = true; for (T a : assume) if (!val[idx[a]]) { ok = false; break; }
    if (ok && !val[idx[goal]]) { for (size_t i = 0; i < ord.size(); i++) if (G.op(ord[i]) == O_VAR) m.v[(uint32_t)G.n[ord[i]].c] = val[i]; return true; }
  }
  return false;
}
static void slice(const std::vector<T>& assume, T goal, std::vector<T>& out) {
  std::set<uint32_t> vs; std::unordered_map<T, bool> seen; collectVars(goal, vs, seen); if (vs.empty()) { out = assume; return; }
  std::vector<std::set<uint32_t>> av(assume.size());
  for (size_t i = 0; i < assume.size(); i++) { std::unordered_map<T, bool> s2; collectVars(assume[i], av[i], s2); }
  std::vector<char> in(assume.size(), 0); bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < assume.size(); i++) if (!in[i]) {
      bool hit = av[i].empty(); for (uint32_t v : av[i]) if (vs.count(v)) { hit = true; break; }
      if (hit) { in[i] = 1; ch = true; for (uint32_t v : av[i]) vs.insert(v); }
    }
  }
  for (size_t i = 0; i < assume.size(); i++) if (in[i]) out.push_back(assume[i]);
}
// ---- product abstraction: every nonlinear product is expanded into partial products of operand
// segments; each partial product becomes a fresh bounded variable (sound over-approximation).
struct MulAbs {
  std::unordered_map<T, std::set<unsigned>> cuts; std::map<std::pair<T, T>, T> prod; std::vector<T> side; unsigned nmul = 0;
  std::unordered_map<T, T> memo;
  static T rebuild(T t, const std::vector<T>& k) { return rebuildNode(t, k); }
  typedef std::vector<std::pair<u128, T>> Segs; // sum coef * zext(seg); seg==0 with coef = constant
  bool segs(T t, unsigned m, u128 cf, Segs& out, int depth = 0) {
    if (out.size() > 64) return false;
    Node q = G.n[t];
    if (q.op == O_CONST) { out.push_back({cf * q.c, 0}); return true; }
    if (q.op == O_LIN && m <= q.w) { for (unsigned i = 0; i < q.nk; i++) if (!segs(G.kid(t, i), m, cf * G.coefs[q.coff + i], out, depth + 1)) return false; if (q.c) out.push_back({cf * q.c, 0}); return true; }
    if (q.op == O_CONCAT) { unsigned off = 0; for (unsigned i = 0; i < q.nk; i++) { T p = G.kid(t, i); unsigned w = G.W(p); if (off >= m) break; if (off + w >= m && w <= 128) { if (!segs(p, m - off, cf << off, out, depth + 1)) return false; } else if (!zseg(p, cf << off, out)) return false; off += w; } return true; }
    if (q.op == O_SEXT) { T x = G.kid(t, 0); unsigned w = G.W(x); if (w >= m) return segs(x, m, cf, out, depth + 1); if (!zseg(x, cf, out)) return false; return zseg(G.extract(x, w - 1, 1), (u128)0 - (cf << w), out); }
    if (q.op == O_ITE && G.W(t) > 1 && (G.isC(G.kid(t, 1)) && G.isC(G.kid(t, 2)))) { u128 a = G.C(G.kid(t, 1)), b = G.C(G.kid(t, 2)); out.push_back({cf * (a - b), G.kid(t, 0)}); out.push_back({cf * b, 0}); return true; }
    if (q.op == O_EXTRACT && q.c == 0 && G.op(G.kid(t, 0)) != O_VAR && m <= q.w) { }
    return zseg(t, cf, out);
  }
  bool zseg(T t, u128 cf, Segs& out) {
    Node q = G.n[t];
    if (q.op == O_CONST) { out.push_back({cf * q.c, 0}); return true; }
    if (q.op == O_CONCAT) { unsigned off = 0; for (unsigned i = 0; i < q.nk; i++) { T p = G.kid(t, i); if (!zseg(p, cf << off, out)) return false; off += G.W(p); } return true; }
    T base = t; unsigned lo = 0, w = q.w; if (q.op == O_EXTRACT) { base = G.kid(t, 0); lo = (unsigned)q.c; }
    auto it = cuts.find(base); unsigned p = lo;
    if (it != cuts.end()) for (unsigned c : it->second) if (c > lo && c < lo + w) { out.push_back({cf << (p - lo), G.extract(base, p, c - p)}); p = c; }
    out.push_back({cf << (p - lo), G.extract(base, p, lo + w - p)});
    return out.size() <= 64;
  }
  T product(T a, T b, unsigned w) { // value of zext(a)*zext(b) mod 2^w
    if (a > b) std::swap(a, b);
    auto fit = [&](T x) { return G.W(x) > w ? G.trunc(x, w) : G.zext(x, w); };
    if (G.W(a) == 1) return G.ite(a, fit(b), G.k(0, w));
    if (G.W(b) == 1) return G.ite(b, fit(a), G.k(0, w));
    auto key = std::make_pair(a, b); auto it = prod.find(key);
    if (it == prod.end()) {
      unsigned W = G.W(a) + G.W(b); T v = G.var("prod!", W); 
      if (W <= 128) side.push_back(G.ule(v, G.k(Terms::msk(G.W(a)) * Terms::msk(G.W(b)), W)));
      it = prod.emplace(key, v).first;
    }
    return fit(it->second);
  }
  T go(T root) {
    std::vector<T> ord; topo({root}, ord);
    for (T t : ord) {
      if (memo.count(t)) continue;
      std::vector<T> k; Node m = G.n[t]; for (unsigned i = 0; i < m.nk; i++) k.push_back(memo[G.kid(t, i)]);
      T r;
      if (m.op == O_MUL && m.w <= 128) {
        Segs A, B; 
        if (segs(k[0], m.w, 1, A) && segs(k[1], m.w, 1, B) && A.size() * B.size() <= 400) {
          r = G.k(0, m.w); nmul++;
          for (auto& x : A) for (auto& y : B) { u128 c = x.first * y.first & Terms::msk(m.w); if (!c) continue; T p; if (!x.second && !y.second) p = G.k(1, m.w); else if (!x.second || !y.second) { T z = x.second ? x.second : y.second; p = G.W(z) > m.w ? G.trunc(z, m.w) : G.zext(z, m.w); } else p = product(x.second, y.second, m.w); r = G.add(r, G.mulc(p, c)); }
        } else r = rebuild(t, k);
      } else r = rebuild(t, k);
      memo[t] = r;
    }
    return memo[root];
  }
  void collect(const std::vector<T>& roots, bool signCuts) {
    std::vector<T> ord; topo(roots, ord);
    for (T t : ord) { Node q = G.n[t]; if (q.op == O_EXTRACT) { auto& s = cuts[G.kid(t, 0)]; s.insert((unsigned)q.c); s.insert((unsigned)q.c + q.w); } if (signCuts && q.op == O_SEXT) { T x = G.kid(t, 0); T b = x; unsigned lo = 0; if (G.op(x) == O_EXTRACT) { lo = (unsigned)G.n[x].c; b = G.kid(x, 0); } cuts[b].insert(lo + G.W(x) - 1); } }
  }
};
// Complete enumeration of the free bits, when there are few. 1 proved, 0 refuted, -1 not applicable
static int enumerate(const std::vector<T>& assume, T goal, const std::vector<T>& ord, Model& m, unsigned maxBits) {
  if (ord.size() > 3000) return -1;
  std::unordered_map<T, uint32_t> idx; for (size_t i = 0; i < ord.size(); i++) idx[ord[i]] = i;
  std::unordered_map<T, u128> used; unsigned bits = 0; bool ok = true;
  for (T t : ord) { Node& q = G.n[t]; if (q.op == O_UF || q.w > 128) return -1; if (isFP(q.op) && (q.w == 16 || (q.nk && G.W(G.kid(t, 0)) == 16))) return -1;
    for (unsigned i = 0; i < q.nk; i++) { T x = G.kid(t, i); if (G.op(x) != O_VAR) continue; if (q.op == O_EXTRACT) used[x] |= Terms::msk(q.w) << (unsigned)q.c; else used[x] |= Terms::msk(G.W(x)); } }
  for (T r : assume) if (G.op(r) == O_VAR) used[r] |= Terms::msk(G.W(r)); if (G.op(goal) == O_VAR) used[goal] = 1;
  std::vector<std::pair<T, unsigned>> fb;
  for (auto& u : used) { if (G.vars[(size_t)G.n[u.first].c].alignBits) return -1; for (unsigned i = 0; i < G.W(u.first); i++) if ((u.second >> i) & 1) { fb.push_back({u.first, i}); if (++bits > maxBits) return -1; } }
  (void)ok;
  std::vector<u128> val(ord.size());
  std::vector<uint32_t> kix, koff; for (T t : ord) { koff.push_back(kix.size()); Node& q = G.n[t]; for (unsigned i = 0; i < q.nk; i++) kix.push_back(idx[G.kid(t, i)]); }
  std::vector<std::pair<uint32_t, unsigned>> fbi; for (auto& p : fb) fbi.push_back({idx[p.first], p.second});
  for (uint64_t e = 0; e < ((uint64_t)1 << bits); e++) {
    for (size_t i = 0; i < ord.size(); i++) if (G.op(ord[i]) == O_VAR) val[i] = 0;
    for (unsigned i = 0; i < bits; i++) if ((e >> i) & 1) val[fbi[i].first] |= (u128)1 << fbi[i].second;
    for (size_t i = 0; i < ord.size(); i++) { if (G.op(ord[i]) == O_VAR) continue; val[i] = G.evalNode(ord[i], [&](T q) { return val[idx.find(q)->second]; }); }
    bool a = true; for (T x : assume) if (!val[idx[x]]) { a = false; break; }
    if (a && !val[idx[goal]]) { for (size_t i = 0; i < ord.size(); i++) if (G.op(ord[i]) == O_VAR) m.v[(uint32_t)G.n[ord[i]].c] = val[i]; return 0; }
  }
  return 1;
}
// Case analysis on the conditions of the if-then-elses of the goal: assumed atoms are substituted, then z3 decides the leaves.
bool gNoAutoSplit = false;
struct AutoSplit {
  double deadline; unsigned leaves = 0, maxLeaves = 400; std::string why; bool uf;
  static void flatten(T a, std::vector<T>& out) { std::vector<T> st{a}; while (!st.empty()) { T x = st.back(); st.pop_back(); if (G.isTrue(x)) continue; if (G.op(x) == O_AND && G.W(x) == 1) { st.push_back(G.kid(x, 0)); st.push_back(G.kid(x, 1)); } else out.push_back(x); } }
  static bool occurs(T v, T t) { std::vector<T> ord; topo({t}, ord); return std::find(ord.begin(), ord.end(), v) != ord.end(); }
  // 1: proved, 0: not proved
  int go(std::vector<T> as, T g, unsigned depth) {
    // propagate units
    for (int it = 0; it < 4; it++) {
      std::vector<T> fl; for (T a : as) flatten(a, fl); std::sort(fl.begin(), fl.end()); fl.erase(std::unique(fl.begin(), fl.end()), fl.end());
      Subst S; bool any = false; T skip = 0;
      for (T a : fl) { if (G.isFalse(a)) return 1; T k = a, v = G.tru(); if (G.op(a) == O_NOT) { k = G.kid(a, 0); v = G.fls(); }
        if (G.isC(k)) continue;
        if (!skip && G.op(a) == O_EQ) { T x = G.kid(a, 0), y = G.kid(a, 1); if (G.op(y) == O_VAR && G.op(x) != O_VAR) std::swap(x, y); if (G.op(x) == O_VAR && !G.vars[(size_t)G.n[x].c].alignBits && G.vars[(size_t)G.n[x].c].obj < 0 && !occurs(x, y)) { S.memo[x] = y; skip = a; any = true; continue; } }
        if (!S.memo.count(k)) { S.memo[k] = v; any = true; } }
      if (!any) { as = fl; break; }
      // substitute in the goal and, except for its own occurrence, in each assumption
      T g2 = S.go(g); std::vector<T> a2; bool ch = g2 != g;
      for (T a : fl) { if (a == skip) { a2.push_back(a); continue; } T k = G.op(a) == O_NOT ? G.kid(a, 0) : a; Subst S2; S2.memo = S.memo; S2.memo.erase(k); for (auto itm = S2.memo.begin(); itm != S2.memo.end();) { ++itm; } Subst S3; for (T b : fl) { if (b == a || b == skip) continue; T kb = G.op(b) == O_NOT ? G.kid(b, 0) : b; if (kb != k && !G.isC(kb) && !(G.op(b) == O_EQ && S.memo.count(kb) == 0)) S3.memo[kb] = G.op(b) == O_NOT ? G.fls() : G.tru(); }
        if (skip) { T x = G.kid(skip, 0), y = G.kid(skip, 1); if (G.op(y) == O_VAR && G.op(x) != O_VAR) std::swap(x, y); S3.memo[x] = y; }
        S3.memo.erase(k); T r = (fl.size() <= 60) ? S3.go(a) : a; if (r != a) ch = true; if (G.isFalse(r)) return 1; a2.push_back(r); }
      if (skip) { std::vector<T> a3; for (T a : a2) if (a != skip) a3.push_back(a); a2 = a3; ch = true; }
      g = g2; as = a2; if (G.isTrue(g)) return 1; if (!ch) break;
    }
    if (G.isTrue(g)) return 1;
    for (T a : as) if (a == g || G.isFalse(a)) return 1;
    if (G.op(g) == O_AND && G.W(g) == 1) { std::vector<T> ps; flatten(g, ps); for (T p : ps) if (!go(as, p, depth)) return 0; return 1; }
    if (++leaves > maxLeaves || now() > deadline) return 0;
    std::vector<T> sl; slice(as, g, sl); sl.push_back(G.Not(g)); Model m;
    unsigned tl = depth >= 12 ? 2000 : 250;
    int r = runZ3(sl, false, tl, &m, uf, why); if (r == -1) return 1; if (r == 1) return 0;
    if (depth >= 12) return 0;
    // choose a condition
    std::vector<T> ord; topo({g}, ord); std::map<T, unsigned> cnt;
    for (T t : ord) if (G.op(t) == O_ITE) { std::vector<T> st{G.kid(t, 0)}; while (!st.empty()) { T x = st.back(); st.pop_back(); if (G.W(x) == 1 && (G.op(x) == O_AND || G.op(x) == O_OR || G.op(x) == O_NOT || G.op(x) == O_XOR)) { for (unsigned i = 0; i < G.n[x].nk; i++) st.push_back(G.kid(x, i)); } else if (!G.isC(x)) cnt[x]++; } }
    if (cnt.empty()) { for (T t : ord) if (G.W(t) == 1 && (G.op(t) == O_EQ || G.op(t) == O_ULT || G.op(t) == O_SLT || (G.op(t) == O_EXTRACT && G.op(G.kid(t, 0)) == O_UF))) cnt[t]++; for (auto it = cnt.begin(); it != cnt.end();) { if (it->first == g) it = cnt.erase(it); else ++it; } }
    if (cnt.empty()) return 0;
    T c = 0; unsigned best = 0; for (auto& e : cnt) if (e.second > best) { best = e.second; c = e.first; }
    for (int side = 0; side < 2; side++) { std::vector<T> a2 = as; a2.push_back(side ? G.Not(c) : c); if (!go(a2, g, depth + 1)) return 0; }
    return 1;
  }
};
ProveResult prove(const std::vector<T>& assume0, T goal, unsigned ms, bool randomFirst) {
  ProveResult R; R.secs = 0; R.backend = "simplifier"; R.v = PROVED;
  if (!ms) ms = gTimeoutMs;
  if (G.isTrue(goal)) { gStats.bySimp++; return R; }
  double t0 = now();
  std::vector<T> flat, assume;
  for (T a : assume0) { // flatten conjunctions
    std::vector<T> st{a};
    while (!st.empty()) { T x = st.back(); st.pop_back(); if (G.isTrue(x)) continue; if (G.op(x) == O_AND && G.W(x) == 1) { st.push_back(G.kid(x, 0)); st.push_back(G.kid(x, 1)); } else flat.push_back(x); }
  }
  std::sort(flat.begin(), flat.end()); flat.erase(std::unique(flat.begin(), flat.end()), flat.end());
  for (T a : flat) if (a == goal || G.isFalse(a)) { gStats.bySimp++; return R; }
  slice(flat, goal, assume);
  std::vector<T> roots = assume; roots.push_back(goal);
  Key key = canon(roots);
  if (gUseCache && gProved.count(key)) { gStats.byCache++; R.backend = "duplicate"; return R; }
  std::vector<T> ord; topo(roots, ord);
  bool hasFP = false, hasUF = false, wide = false;
  for (T t : ord) { if (isFP(G.op(t))) hasFP = true; if (G.op(t) == O_UF) hasUF = true; if (G.W(t) > 128) wide = true; }
  if (randomFirst && !wide && randomRefute(assume, goal, R.m, 64)) { R.v = REFUTED; R.backend = "evaluation"; gStats.refuted++; R.secs = now() - t0; return R; }
  std::vector<T> conj = assume; conj.push_back(G.Not(goal));
  bool hasDiv = false; for (T t : ord) if (G.op(t) == O_UDIV || G.op(t) == O_UREM || G.op(t) == O_SDIV || G.op(t) == O_SREM) hasDiv = true;
  if (!wide && !hasUF && (hasFP || hasDiv)) { int e = enumerate(assume, goal, ord, R.m, 17); if (e >= 0) { R.secs = now() - t0; R.backend = "enumeration"; if (e == 1) { gStats.byInt++; gProved[key] = true; return R; } R.v = REFUTED; gStats.refuted++; return R; } }
  if (!hasFP && !wide && linearBits(goal)) { R.secs = now() - t0; R.backend = "linear-bits"; gStats.byLinBits++; gProved[key] = true; return R; }
  if (minMaxEqual(goal)) { R.secs = now() - t0; R.backend = "min-max"; gStats.byLinBits++; gProved[key] = true; return R; }
  bool hasX = false; for (T t : ord) if (G.op(t) == O_XOR) { hasX = true; break; }
  if (hasX && !hasFP && !wide && !hasUF && xorNormal(goal)) { R.secs = now() - t0; R.backend = "xor-normal-form"; gStats.byLinBits++; gProved[key] = true; return R; }
  static int splitDepth = 0;
  if (!gSplits.empty() && splitDepth < 1) {
    if (G.op(goal) == O_AND && G.W(goal) == 1) {
      std::vector<T> parts, st{goal}; while (!st.empty()) { T x = st.back(); st.pop_back(); if (G.op(x) == O_AND) { st.push_back(G.kid(x, 0)); st.push_back(G.kid(x, 1)); } else parts.push_back(x); }
      bool unk = false; SolveStats sv = gStats;
      for (T p : parts) { R = prove(assume, p, ms, false); if (R.v == REFUTED) { R.secs = now() - t0; return R; } if (R.v == UNKNOWN) { unk = true; break; } }
      R.secs = now() - t0; sv.z3secs = gStats.z3secs; gStats = sv; R.backend = "conjuncts"; if (!unk) { gProved[key] = true; gStats.bySplit++; R.v = PROVED; return R; }
      gStats.unknown++; return R;
    }
    for (auto& sp : gSplits) {
      T v = G.varTerm[sp.first]; if (!std::binary_search(ord.begin(), ord.end(), v) && std::find(ord.begin(), ord.end(), v) == ord.end()) continue;
      std::set<uint32_t> gv; std::unordered_map<T, bool> seen; collectVars(goal, gv, seen); if (!gv.count(sp.first)) continue;
      SplitHint h = sp.second; unsigned lb = 0; while (((uint64_t)1 << lb) < h.k) lb++;
      std::vector<T> c0 = assume; bool hz = false;
      if (h.kind == 0 && lb < G.W(v)) { c0.push_back(G.ne(G.extract(v, lb, G.W(v) - lb), G.k(0, G.W(v) - lb))); Model dm; std::string wy; hz = runZ3(c0, false, 2000, &dm, hasFP || hasUF, wy) == -1; }
      std::vector<T> cases; splitCases(v, h, hz, cases);
      SolveStats sv = gStats; uint32_t vi = sp.first; splitDepth++; bool unk = false; ProveResult Q;
      for (T c : cases) {
        Subst S; S.memo[v] = c; T g2 = S.go(goal); if (G.isTrue(g2)) continue;
        std::vector<T> a2; bool vac = false; for (T a : assume) { T x = S.go(a); if (G.isFalse(x)) vac = true; a2.push_back(x); } if (vac) continue;
        double tq = now(); Q = prove(a2, g2, ms, true); if (getenv("DVSPLIT") && now() - tq > 0.3) fprintf(stderr, "split %.1fs case %s goal %s\n", now() - tq, G.str(c, 3).c_str(), G.str(g2, 12).substr(0,600).c_str());
        if (Q.v == REFUTED) { std::unordered_map<T, u128> em; u128 val = evalUnder(c, Q.m, em); Q.m.v[vi] = val; break; }
        if (Q.v == UNKNOWN) { unk = true; break; }
        Q.v = PROVED;
      }
      sv.z3secs = gStats.z3secs; gStats = sv; splitDepth--;
      if (Q.v == REFUTED && !cases.empty()) { gStats.refuted++; Q.secs = now() - t0; return Q; }
      if (!unk) { R.secs = now() - t0; R.backend = "case split"; gStats.bySplit++; gProved[key] = true; return R; }
      R.v = UNKNOWN; R.backend = "case split"; R.why = Q.why; R.secs = now() - t0; gStats.unknown++; return R;
    }
  }
  bool hasMul = false; for (T t : ord) if (G.op(t) == O_MUL) hasMul = true;
  if (hasMul && G.op(goal) == O_EQ && G.op(G.kid(goal, 0)) == O_MUL && G.op(G.kid(goal, 1)) == O_MUL) { // equal factors
    const T x = G.kid(goal, 0), y = G.kid(goal, 1);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (G.kid(x, i) == G.kid(y, j)) { SolveStats sv = gStats; ProveResult Q = prove(assume, G.eq(G.kid(x, 1 - i), G.kid(y, 1 - j)), ms / 2, false); sv.z3secs = gStats.z3secs; gStats = sv; if (Q.v == PROVED) { R.backend = "factor"; gStats.byRing++; gProved[key] = true; R.secs = now() - t0; return R; } }
  }
  if (hasMul || hasDiv) { // products and quotients as opaque values (a generalisation of the goal)
    Subst S; static unsigned fresh = 0; for (T t : ord) if (G.op(t) == O_MUL || G.op(t) == O_UDIV || G.op(t) == O_UREM || G.op(t) == O_SDIV || G.op(t) == O_SREM) S.memo[t] = G.var("opaque" + std::to_string(fresh++), G.W(t));
    T g2 = S.go(goal); std::vector<T> c2; for (T a : assume) c2.push_back(S.go(a)); c2.push_back(G.Not(g2)); Model dummy;
    if (G.isTrue(g2) || runZ3(c2, false, std::min(1500u, ms), &dummy, hasFP || hasUF, R.why) == -1) { R.backend = "z3+opaque products"; gStats.byRing++; gProved[key] = true; R.secs = now() - t0; return R; }
  }
  if (hasMul) {
    int r0 = runZ3(conj, false, std::min(300u, ms), &R.m, hasFP || hasUF, R.why);
    if (r0 == -1) { R.backend = "z3"; gStats.byZ3++; gProved[key] = true; R.secs = now() - t0; return R; }
    if (r0 == 1 && !hasFP && !hasUF) { R.v = REFUTED; R.backend = "z3"; gStats.refuted++; R.secs = now() - t0; return R; }
    for (int attempt = 0; attempt < 2; attempt++) {
      MulAbs ma; ma.collect(roots, attempt == 1); T g2 = ma.go(goal); std::vector<T> c2; for (T a : assume) c2.push_back(ma.go(a));
      if (!ma.nmul) break;
      if (G.isTrue(g2)) { R.backend = "ring"; gStats.byRing++; gProved[key] = true; R.secs = now() - t0; return R; }
      c2.push_back(G.Not(g2)); for (T s : ma.side) c2.push_back(s);
      Model dummy; int r1 = runZ3(c2, false, attempt ? ms : ms / 2, &dummy, hasFP || hasUF, R.why);
      if (r1 == -1) { R.backend = "z3+products"; gStats.byRing++; gProved[key] = true; R.secs = now() - t0; return R; }
    }
  }
  if (!hasFP && ms > 1500 && splitDepth < 1 && !gNoAutoSplit) {
    int r0 = runZ3(conj, false, 1000, &R.m, hasFP || hasUF, R.why);
    if (r0 == 0) { static bool inSplit = false; if (!inSplit) { inSplit = true; AutoSplit A; A.deadline = now() + ms / 3000.0; A.uf = hasFP || hasUF; int q = A.go(assume, goal, 0); inSplit = false; if (getenv("DV_TRACE")) fprintf(stderr, "autosplit %d leaves %u %.1fs\n", q, A.leaves, now() - t0);
      if (q == 1) { R.backend = "case analysis"; gStats.bySplit++; gProved[key] = true; R.secs = now() - t0; return R; } } }
    else if (r0 == -1) { R.backend = "z3"; gStats.byZ3++; gProved[key] = true; R.secs = now() - t0; return R; }
    else { R.v = REFUTED; R.backend = "z3"; gStats.refuted++; R.secs = now() - t0; return R; }
  }
  int r = runZ3(conj, false, std::min(ms, hasFP ? 3000u : 5000u), &R.m, hasFP || hasUF, R.why);
  if (r == -1) { R.backend = "z3"; gStats.byZ3++; gProved[key] = true; R.secs = now() - t0; return R; }
  if (hasFP) {
    R.m.v.clear(); int q = wide ? 0 : runSat(conj, ms, &R.m, R.why);
    if (q == -1) { R.backend = "kissat"; gStats.bySat++; gProved[key] = true; R.secs = now() - t0; return R; }
    if (q == 1) { R.secs = now() - t0; R.v = REFUTED; R.backend = "kissat"; gStats.refuted++; return R; }
    R.m.v.clear();
    r = runZ3(conj, true, R.why.empty() ? 1000 : ms, &R.m, true, R.why);
    if (r == -1) { R.backend = "z3-fp"; gStats.byZ3FP++; gProved[key] = true; R.secs = now() - t0; return R; }
  }
  R.secs = now() - t0;
  if (r == 1) { R.v = REFUTED; R.backend = "z3"; gStats.refuted++; return R; }
  if (!hasFP && !wide && !gNoAutoSplit) {
    R.m.v.clear(); std::string w2; int q = runSat(conj, ms, &R.m, w2);
    if (q == -1) { R.backend = "kissat"; gStats.bySat++; gProved[key] = true; R.secs = now() - t0; return R; }
    if (q == 1 && !hasUF) { R.secs = now() - t0; R.v = REFUTED; R.backend = "kissat"; gStats.refuted++; return R; }
    if (ms > 5000) {
      R.m.v.clear(); r = runZ3(conj, false, ms, &R.m, hasUF, R.why); R.secs = now() - t0;
      if (r == -1) { R.backend = "z3"; gStats.byZ3++; gProved[key] = true; return R; }
      if (r == 1) { R.v = REFUTED; R.backend = "z3"; gStats.refuted++; return R; }
    }
    R.secs = now() - t0;
  }
  R.v = UNKNOWN; R.backend = "z3"; gStats.unknown++; 
  return R;
}
ProveResult satisfiable(const std::vector<T>& conj, unsigned ms) {
  ProveResult R; R.secs = 0; R.backend = "z3";
  for (T t : conj) if (G.isFalse(t)) { R.v = REFUTED; return R; }
  std::vector<T> c2; for (T t : conj) if (!G.isTrue(t)) c2.push_back(t);
  if (c2.empty()) { R.v = PROVED; return R; }
  std::vector<T> ord; topo(c2, ord); bool uf = false; for (T t : ord) if (isFP(G.op(t)) || G.op(t) == O_UF) uf = true;
  int r = runZ3(c2, false, ms, &R.m, uf, R.why);
  R.v = r == 1 ? PROVED : r == -1 ? REFUTED : UNKNOWN;
  return R;
}
