// Z3 back end: translation of expressions and decision of queries.
#pragma once
#include "expr.h"
#include <chrono>

static inline double nowSec() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Solver {
  Z3_context c; Z3_solver sbv, sfp; Z3_sort byteSort;
  u64 queries = 0, qSat = 0, qUnsat = 0, cacheHits = 0, single = 0, multi = 0; double time = 0, maxq = 0; unsigned timeoutMs = 120000;
  FILE *dump = nullptr; u64 dumpMax = 0, dumped = 0;
  std::vector<Z3_ast> vars; double slowLog = 0;
  static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }

  int sinceFresh = 0;
  Z3_solver mkSolver(const char *logic) {
    Z3_solver s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, logic)); Z3_solver_inc_ref(c, s);
    Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeoutMs); Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p); return s;
  }
  void init() {
    Z3_config cfg = Z3_mk_config(); c = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(c, onErr);
    sbv = mkSolver("QF_BV"); sfp = mkSolver("QF_BVFP");
    byteSort = Z3_mk_bv_sort(c, 8);
    for (int i = 0; i < MAXV; i++) { char b[16]; snprintf(b, 16, "b%d", i); vars.push_back(Z3_mk_const(c, Z3_mk_string_symbol(c, b), byteSort)); }
  }
  Z3_ast num(u128 v, int w) {
    if (w <= 64) return Z3_mk_unsigned_int64(c, (u64)v, Z3_mk_bv_sort(c, w));
    return Z3_mk_concat(c, Z3_mk_unsigned_int64(c, (u64)(v >> 64), Z3_mk_bv_sort(c, w - 64)), Z3_mk_unsigned_int64(c, (u64)v, Z3_mk_bv_sort(c, 64)));
  }
  Z3_sort fs(int w) { return w == 32 ? Z3_mk_fpa_sort_32(c) : Z3_mk_fpa_sort_64(c); }
  Z3_ast rne() { return Z3_mk_fpa_round_nearest_ties_to_even(c); }
  Z3_ast rtz() { return Z3_mk_fpa_round_toward_zero(c); }
  Z3_ast fp(Expr *e) { return Z3_mk_fpa_to_fp_bv(c, bv(e), fs(e->width)); }
  // balanced decision over a table of values, merging equal runs
  Z3_ast tree(Z3_ast idx, int iw, const std::vector<u64> &v, size_t lo, size_t hi, int w) {
    bool same = true; for (size_t i = lo + 1; i < hi; i++) if (v[i] != v[lo]) { same = false; break; }
    if (same) return num(v[lo], w);
    size_t mid = (lo + hi) / 2;
    Z3_ast l = tree(idx, iw, v, lo, mid, w), r = tree(idx, iw, v, mid, hi, w);
    if (l == r) return l;
    return Z3_mk_ite(c, Z3_mk_bvult(c, idx, num(mid, iw)), l, r);
  }
  // decision tree over the bits of the index (table padded with its last value)
  Z3_ast btree(Z3_ast idx, int iw, int bit, const std::vector<u64> &v, size_t lo, int w) {
    size_t n = (size_t)1 << (bit + 1);
    bool same = true; for (size_t i = lo + 1; i < lo + n && i < v.size(); i++) if (v[i] != v[lo]) { same = false; break; }
    if (lo >= v.size()) return num(v.back(), w);
    if (same || bit < 0) return num(v[lo], w);
    Z3_ast l = btree(idx, iw, bit - 1, v, lo, w); if (lo + n / 2 >= v.size()) return l;
    Z3_ast r = btree(idx, iw, bit - 1, v, lo + n / 2, w);
    if (l == r) return l;
    return Z3_mk_ite(c, Z3_mk_eq(c, Z3_mk_extract(c, bit, bit, idx), num(1, 1)), r, l);
  }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(c, a); return a; }
  Z3_ast boolOf(Expr *e) {
    if (e->z3b) return e->z3b;
    Z3_ast r;
    switch (e->op) {
    case CONST: r = e->cv ? Z3_mk_true(c) : Z3_mk_false(c); break;
    case EQ: r = e->a->width == 1 ? Z3_mk_iff(c, boolOf(e->a), boolOf(e->b)) : Z3_mk_eq(c, bv(e->a), bv(e->b)); break;
    case ULT: r = Z3_mk_bvult(c, bv(e->a), bv(e->b)); break;
    case ULE: r = Z3_mk_bvule(c, bv(e->a), bv(e->b)); break;
    case SLT: r = Z3_mk_bvslt(c, bv(e->a), bv(e->b)); break;
    case SLE: r = Z3_mk_bvsle(c, bv(e->a), bv(e->b)); break;
    case AND: { Z3_ast x[2] = {boolOf(e->a), boolOf(e->b)}; r = Z3_mk_and(c, 2, x); break; }
    case OR: { Z3_ast x[2] = {boolOf(e->a), boolOf(e->b)}; r = Z3_mk_or(c, 2, x); break; }
    case XOR: r = isK(e->b, 1) ? Z3_mk_not(c, boolOf(e->a)) : Z3_mk_xor(c, boolOf(e->a), boolOf(e->b)); break;
    case ITE: r = Z3_mk_ite(c, boolOf(e->a), boolOf(e->b), boolOf(e->c)); break;
    case FOEQ: r = Z3_mk_fpa_eq(c, fp(e->a), fp(e->b)); break;
    case FOLT: r = Z3_mk_fpa_lt(c, fp(e->a), fp(e->b)); break;
    case FOLE: r = Z3_mk_fpa_leq(c, fp(e->a), fp(e->b)); break;
    case FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(c, fp(e->a)), Z3_mk_fpa_is_nan(c, fp(e->b))}; r = Z3_mk_or(c, 2, x); break; }
    default: r = Z3_mk_eq(c, bv(e), num(1, 1));
    }
    return e->z3b = keep(r);
  }
  Z3_ast bv(Expr *e) {
    if (e->z3) return e->z3;
    Z3_ast r; int w = e->width;
    if (w == 1) switch (e->op) { case EQ: case ULT: case ULE: case SLT: case SLE: case AND: case OR: case XOR: case ITE: case FOEQ: case FOLT: case FOLE: case FUNO:
      r = Z3_mk_ite(c, boolOf(e), num(1, 1), num(0, 1)); return e->z3 = keep(r); }
    switch (e->op) {
    case CONST: r = num(e->cv, w); break;
    case VAR: r = vars[(int)e->cv]; break;
    case ADD: r = Z3_mk_bvadd(c, bv(e->a), bv(e->b)); break;
    case SUB: r = Z3_mk_bvsub(c, bv(e->a), bv(e->b)); break;
    case MUL: r = Z3_mk_bvmul(c, bv(e->a), bv(e->b)); break;
    case UDIV: r = Z3_mk_bvudiv(c, bv(e->a), bv(e->b)); break;
    case SDIV: r = Z3_mk_bvsdiv(c, bv(e->a), bv(e->b)); break;
    case UREM: r = Z3_mk_bvurem(c, bv(e->a), bv(e->b)); break;
    case SREM: r = Z3_mk_bvsrem(c, bv(e->a), bv(e->b)); break;
    case AND: r = Z3_mk_bvand(c, bv(e->a), bv(e->b)); break;
    case OR: r = Z3_mk_bvor(c, bv(e->a), bv(e->b)); break;
    case XOR: r = Z3_mk_bvxor(c, bv(e->a), bv(e->b)); break;
    case SHL: r = Z3_mk_bvshl(c, bv(e->a), bv(e->b)); break;
    case LSHR: r = Z3_mk_bvlshr(c, bv(e->a), bv(e->b)); break;
    case ASHR: r = Z3_mk_bvashr(c, bv(e->a), bv(e->b)); break;
    case ITE: r = Z3_mk_ite(c, boolOf(e->a), bv(e->b), bv(e->c)); break;
    case CONCAT: r = Z3_mk_concat(c, bv(e->a), bv(e->b)); break;
    case EXTRACT: r = Z3_mk_extract(c, (int)e->cv + w - 1, (int)e->cv, bv(e->a)); break;
    case ZEXT: r = Z3_mk_zero_ext(c, w - e->a->width, bv(e->a)); break;
    case SEXT: r = Z3_mk_sign_ext(c, w - e->a->width, bv(e->a)); break;
    case TABLE: { Tab *t = (Tab *)(uintptr_t)(u64)e->cv; std::vector<u64> v(t->v, t->v + 256); r = btree(bv(e->a), 8, 7, v, 0, w); break; }
    case READ: {
      Blob *b = (Blob *)(uintptr_t)(u64)e->cv; int nb = (w + 7) / 8; size_t n = b->d.size() >= (size_t)nb ? b->d.size() - nb + 1 : 0;
      std::vector<u64> v(n); for (size_t i = 0; i < n; i++) { u64 x = 0; for (int k = 0; k < nb; k++) x |= (u64)b->d[i + k] << (8 * k); v[i] = x & (u64)maskw(w); }
      // index is known to be in bounds (checked separately); keep only the low bits that matter
      Expr *ix = e->a; int need = 1; while ((1ull << need) < n + 1) need++; if (need > ix->width) need = ix->width;
      // respect known alignment of the index
      u128 kz = knownZero(ix); int al = 0; while (al < 6 && (kz >> al & 1)) al++;
      if (al) { std::vector<u64> v2; for (size_t i = 0; i < n; i += (1ull << al)) v2.push_back(v[i]); v.swap(v2); }
      Expr *lowix = mkExtract(ix, al, need > al ? need - al : 1);
      r = btree(bv(lowix), lowix->width, lowix->width - 1, v, 0, w); break; }
    case FADD: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, rne(), fp(e->a), fp(e->b))); break;
    case FSUB: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, rne(), fp(e->a), fp(e->b))); break;
    case FMUL: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, rne(), fp(e->a), fp(e->b))); break;
    case FDIV: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, rne(), fp(e->a), fp(e->b))); break;
    case FTOSI: r = Z3_mk_fpa_to_sbv(c, rtz(), fp(e->a), w); break;
    case FTOUI: r = Z3_mk_fpa_to_ubv(c, rtz(), fp(e->a), w); break;
    case SITOF: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rne(), bv(e->a), fs(w))); break;
    case UITOF: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rne(), bv(e->a), fs(w))); break;
    case FTOF: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rne(), fp(e->a), fs(w))); break;
    case FRND: { Z3_ast rm = e->cv == 0 ? Z3_mk_fpa_round_toward_negative(c) : e->cv == 1 ? Z3_mk_fpa_round_toward_positive(c) : e->cv == 2 ? rtz() : e->cv == 4 ? Z3_mk_fpa_round_nearest_ties_to_away(c) : rne(); r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rm, fp(e->a))); break; }
    default: fatal("no z3 encoding for operator");
    }
    return e->z3 = keep(r);
  }
  Z3_ast inMask(int var, const Mask &m) {
    std::vector<Z3_ast> ors; Z3_ast x = vars[var];
    for (int i = 0; i < 256;) { if (!m.has(i)) { i++; continue; } int j = i; while (j + 1 < 256 && m.has(j + 1)) j++;
      if (i == j) ors.push_back(Z3_mk_eq(c, x, num(i, 8)));
      else if (i == 0) ors.push_back(Z3_mk_bvule(c, x, num(j, 8)));
      else { Z3_ast ab[2] = {Z3_mk_bvuge(c, x, num(i, 8)), Z3_mk_bvule(c, x, num(j, 8))}; ors.push_back(Z3_mk_and(c, 2, ab)); }
      i = j + 1; }
    if (ors.empty()) return Z3_mk_false(c);
    return ors.size() == 1 ? ors[0] : Z3_mk_or(c, ors.size(), ors.data());
  }
  // decide satisfiability; fills model for vars in set when sat
  bool check(const std::vector<Expr *> &cs, const std::vector<std::pair<int, Mask>> &doms, u8 *model) {
    bool usesFp = false; for (Expr *e : cs) usesFp |= e->fp;
    if (!usesFp && ++sinceFresh > 3000) { sinceFresh = 0; Z3_solver_dec_ref(c, sbv); sbv = mkSolver("QF_BV"); }
    Z3_solver s = usesFp ? sfp : sbv;
    double t0 = nowSec();
    Z3_solver_push(c, s); struct Pop { Z3_context c; Z3_solver s; ~Pop() { Z3_solver_pop(c, s, 1); } } popper{c, s};
    for (auto &d : doms) if (d.second.count() != 256) Z3_solver_assert(c, s, inMask(d.first, d.second));
    for (Expr *e : cs) Z3_solver_assert(c, s, boolOf(e));
    Z3_lbool r = Z3_solver_check(c, s);
    double dt = nowSec() - t0; time += dt; if (slowLog && dt > slowLog) { fprintf(stderr, "slow query %.3f s:", dt); for (Expr *e : cs) { fputc(' ', stderr); printE(stderr, e); fputc('\n', stderr); } } if (dt > maxq) maxq = dt; queries++;
    if (r == Z3_L_UNDEF) fatal(std::string("solver gave no answer: ") + Z3_solver_get_reason_unknown(c, s));
    if (dump && dumped < dumpMax && !usesFp && (queries % 97 == 1 || queries < 40)) { dumped++; fprintf(dump, "%s\n", r == Z3_L_TRUE ? ";sat" : ";unsat"); fprintf(dump, "%s(check-sat)\n(reset)\n", Z3_solver_to_string(c, s)); }
    if (r == Z3_L_FALSE) { qUnsat++; return false; }
    qSat++;
    if (model) {
      Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
      for (auto &d : doms) { Z3_ast v; if (Z3_model_eval(c, m, vars[d.first], true, &v)) { uint64_t x = 0; Z3_get_numeral_uint64(c, v, &x); model[d.first] = (u8)x; } }
      Z3_model_dec_ref(c, m);
    }
    return true;
  }
  // single-variable decisions, confirmed once per distinct (condition, domain) modulo renaming
  struct SK { Expr *e; u64 w[4]; bool operator==(const SK &o) const { return e == o.e && !memcmp(w, o.w, 32); } };
  struct SKH { size_t operator()(const SK &k) const { u64 x = k.e->id * 0x9E3779B97F4A7C15ull; for (u64 v : k.w) { x ^= v; x *= 0xff51afd7ed558ccdull; x ^= x >> 31; } return x; } };
  std::unordered_map<SK, u8, SKH> confirmed;
  // returns bit0: can be true, bit1: can be false
  int decideSingle(Expr *cond, const Mask &dom) {
    single++;
    SK k; k.e = canonOf(cond); memcpy(k.w, dom.w, 32);
    auto it = confirmed.find(k); if (it != confirmed.end()) { cacheHits++; return it->second; }
    const Mask &m = maskOf(cond); bool t = !(dom & m).empty(), f = !(dom & ~m).empty();
    u8 dummy[MAXV]; std::vector<std::pair<int, Mask>> d{{0, dom}};
    bool zt = check({k.e}, d, dummy);
    bool zf = zt && t && !f ? check({mkNot(k.e)}, d, dummy) : check({mkNot(k.e)}, d, dummy);
    if (zt != t || zf != f) { printE(stderr, cond); fatal("solver and evaluator disagree on a single-variable condition"); }
    return confirmed[k] = (t ? 1 : 0) | (f ? 2 : 0);
  }
};
static Solver Z;
