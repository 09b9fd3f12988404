// Contracts (trusted) for GMP and MPFR: ghost exact values attached to the limb pointers.
#include "engine.hpp"
#include <cmath>
#include <iostream>
using namespace llvm;
typedef std::vector<Val> A;
static Val fromBV(const z3::expr& e0, unsigned bits) { z3::expr e = e0.simplify(); uint64_t c; if (e.is_numeral_u64(c)) return mkI(bits, c); return mkIs(bits, P(e)); }
static Val sign32(const z3::expr& d) { return fromBV(z3::ite(d > 0, C.bv_val(1, 32), z3::ite(d < 0, C.bv_val(-1, 32), C.bv_val(0, 32))), 32); }
static Val bool32(const z3::expr& b) { return fromBV(z3::ite(b, C.bv_val(1, 32), C.bv_val(0, 32)), 32); }
#define HM(name) handlers[name] = [this, T](State& s, CallBase& cb, A& a) -> Val
struct MP {
  Engine& E; State& s; MP(Engine& e, State& st) : E(e), s(st) {}
  uint64_t ptr(const Val& v) { return E.concretize(s, v); }
  int64_t ci(const Val& v) { uint64_t c = E.concretize(s, v); return v.bits >= 64 ? (int64_t)c : (int64_t)(c << (64 - v.bits)) >> (64 - v.bits); }
  // --- mpfr
  int prec(uint64_t x) { return (int)E.concretize(s, E.load(s, x, 8, false, 64)); }
  uint64_t d(uint64_t x, unsigned off) { uint64_t p = E.concretize(s, E.load(s, x + off, 8, false, 64)); return p; }
  void finit(uint64_t x, int64_t p) { if (p < 1 || p > 1000000000) throw Violation{"mpfr-precision-valid", "mpfr_init2 with precision " + std::to_string(p)}; uint64_t g = E.alloc(s, 32, "mpfr limbs", true); E.store(s, x, mkI(64, (uint64_t)p), 8); E.store(s, x + 8, mkI(32, 1), 4); E.store(s, x + 16, mkI(64, 0), 8); E.store(s, x + 24, mkI(64, g), 8); E.store(s, g, mkD(NAN), 8); }
  Val fget(uint64_t x) { return E.load(s, d(x, 24), 8, true, 64); }
  void fput(uint64_t x, Val v) { E.store(s, d(x, 24), v, 8); }
  static int rnd(int64_t r) { switch (r) { case 0: return 0; case 1: return 3; case 2: return 2; case 3: return 1; default: throw Unsupported{"mpfr rounding mode"}; } }
  Val fround(uint64_t x, Val v, int r) { if (v.conc() && !std::isfinite(v.d())) return v; return E.round(s, E.re(v), r, prec(x)); }
  Val tern(const Val& r, const Val& e) { if (r.conc() && !std::isfinite(r.d())) return mkI(32, 0); return sign32(E.re(r) - E.re(e)); }
  Val fset(uint64_t x, Val exact, int r) { Val v = fround(x, exact, r); fput(x, v); return tern(v, exact); }
  // --- mpz
  void zinit(uint64_t x) { uint64_t g = E.alloc(s, 32, "mpz limbs", true); E.store(s, x, mkI(32, 1), 4); E.store(s, x + 4, mkI(32, 0), 4); E.store(s, x + 8, mkI(64, g), 8); zput(x, C.int_val(0)); }
  void zput(uint64_t x, const z3::expr& e0) { z3::expr e = e0.simplify(); Val v; v.k = V_Z; v.bits = 64; v.sx = P(e); uint64_t g = d(x, 8); E.store(s, g + 8, mkI(64, 0), 8); E.store(s, g, v, 8); E.store(s, x + 4, sign32(e), 4); }
  Val cell(uint64_t a) { Obj& o = E.robj(s, a, 8, "ghost"); auto it = o.sym.find(a & 0xffffffffull); if (it != o.sym.end()) return it->second; return Val(); }
  z3::expr zget(uint64_t x) {
    uint64_t g = d(x, 8); Val lazy = E.load(s, g + 8, 8, false, 64);
    if (lazy.c == 0) { Val v = cell(g); if (v.k != V_Z) throw Unsupported{"uninitialised integer"}; return X(v.sx); }
    // lazy canonical numerator/denominator of a ghost rational
    Val q = E.load(s, g + 16, 8, true, 64); z3::expr v = E.re(q); auto nd = numden(v); return lazy.c == 1 ? nd.first : nd.second; // stays lazy: the pair remains known to be canonical
  }
  std::pair<z3::expr, z3::expr> numden(const z3::expr& v0) {
    z3::expr v = v0.simplify();
    if (v.is_numeral()) { mpq_t q; mpq_init(q); exprToMpq(v, q); char* n = mpz_get_str(nullptr, 10, mpq_numref(q)); char* dd = mpz_get_str(nullptr, 10, mpq_denref(q)); auto r = std::make_pair(C.int_val(n), C.int_val(dd)); free(n); free(dd); mpq_clear(q); return r; }
    static std::map<int, std::pair<int, int>> cache; int vi = P(v);
    if (v.is_app() && v.decl().decl_kind() == Z3_OP_TO_REAL) return {v.arg(0), C.int_val(1)};
    if (!cache.count(vi)) cache[vi] = {P(C.int_const(E.fresh("num").c_str())), P(C.int_const(E.fresh("den").c_str()))};
    z3::expr n = X(cache[vi].first), dd = X(cache[vi].second); z3::expr ax = z3::to_real(n) == v * z3::to_real(dd) && dd >= 1; P(ax);
    if (s.learned.insert(Z3_get_ast_id(C, ax)).second) { s.pc.push_back(P(z3::to_real(n) == v * z3::to_real(dd))); s.pc.push_back(P(dd >= 1)); }
    return {n, dd};
  }
  // --- mpq ; returns V_FP exact value, or concrete inf/nan for zero denominator
  void qinit(uint64_t q) { zinit(q); zinit(q + 16); zput(q + 16, C.int_val(1)); }
  void qput(uint64_t q, Val v) {
    for (int k = 0; k < 2; k++) { uint64_t x = q + 16 * k, g = d(x, 8); E.store(s, g + 8, mkI(64, k + 1), 8); E.store(s, g + 16, v, 8); E.store(s, g, mkI(64, 0), 8); E.store(s, x + 4, k == 0 ? sign32(E.re(v)) : mkI(32, 1), 4); }
  }
  bool qlazy(uint64_t q, Val& v) { uint64_t g = d(q, 8), h = d(q + 16, 8); Val a = E.load(s, g + 8, 8, false, 64), b = E.load(s, h + 8, 8, false, 64); if (a.c == 1 && b.c == 2) { Val x = E.load(s, g + 16, 8, true, 64), y = E.load(s, h + 16, 8, true, 64); if (x.sx == y.sx && x.c == y.c) { v = x; return true; } } return false; }
  Val qget(uint64_t q, bool needCanon) {
    Val v; if (qlazy(q, v)) return v;
    z3::expr n = zget(q).simplify(), dd = zget(q + 16).simplify();
    if (E.decide(s, dd == 0)) { if (E.decide(s, n == 0)) return mkD(NAN); return mkD(E.decide(s, n > 0) ? HUGE_VAL : -HUGE_VAL); }
    // num/den read back from a lazily split canonical value
    if (needCanon) { bool ok = dd.is_numeral() && Z3_get_numeral_string(C, dd) == std::string("1"); if (!ok && n.is_numeral() && dd.is_numeral()) { mpq_t t, u; mpq_init(t); mpq_init(u); exprToMpq(n, t); exprToMpq(dd, u); mpz_t g; mpz_init(g); mpz_gcd(g, mpq_numref(t), mpq_numref(u)); ok = mpz_cmp_ui(g, 1) == 0 && mpz_sgn(mpq_numref(u)) > 0; mpz_clear(g); mpq_clear(t); mpq_clear(u); }
      if (!ok) { std::string ns = n.is_const() ? n.decl().name().str() : "", ds = dd.is_const() ? dd.decl().name().str() : ""; if (ns.rfind("num!", 0) == 0 && ds.rfind("den!", 0) == 0) { int a = atoi(ns.c_str() + 4), b = atoi(ds.c_str() + 4); ok = b == a + 1; } }
      if (!ok) E.oblige(s, C.bool_val(false), "gmp-rational-operands-canonical"); }
    return E.exactdiv(s, z3::to_real(n), z3::to_real(dd));
  }
  z3::expr qfin(uint64_t q) { Val v = qget(q, true); if (v.conc() && !std::isfinite(v.d())) throw Violation{"gmp-no-zero-denominator", "rational with zero denominator passed to GMP arithmetic"}; return E.re(v); }
  // --- mpf (exact dyadic, truncation above the fixed precision ignored)
  void dinit(uint64_t x) { uint64_t g = E.alloc(s, 32, "mpf limbs", true); E.store(s, x, mkI(32, 1024), 4); E.store(s, x + 16, mkI(64, g), 8); dput(x, mkD(0)); }
  void dput(uint64_t x, Val v) { uint64_t g = d(x, 16); E.store(s, g, v, 8); E.store(s, x + 4, sign32(E.re(v)), 4); E.store(s, x + 8, mkI(64, 0), 8); }
  Val dget(uint64_t x) { return E.load(s, d(x, 16), 8, true, 64); }
  z3::expr dre(uint64_t x) { return E.re(dget(x)); }
  static z3::expr floorz(const z3::expr& r) { return z3::expr(C, Z3_mk_real2int(C, r)); }
};
static bool znum(const z3::expr& e, mpz_t z) { z3::expr f = e.simplify(); if (!f.is_numeral()) return false; return mpz_set_str(z, Z3_get_numeral_string(C, f), 10) == 0; }
static z3::expr zval(mpz_srcptr z) { char* t = mpz_get_str(nullptr, 10, z); z3::expr r = C.int_val(t); free(t); return r; }
z3::expr ipow(const z3::expr& x, uint64_t n, bool real) { z3::expr r = real ? C.real_val(1) : C.int_val(1); for (uint64_t i = 0; i < n; i++) r = i == 0 ? x : r * x; return r; }
void Engine::addMP() {
  const std::string T;
  auto pow2 = [](int64_t k) { mpq_t q; mpq_init(q); mpq_set_ui(q, 1, 1); if (k >= 0) mpq_mul_2exp(q, q, k); else mpq_div_2exp(q, q, -k); z3::expr r = mpqToReal(q); mpq_clear(q); return r; };
  // ================= MPFR
  auto reg = [this](const std::string& n, Handler h) { handlers[n] = [this, n, h](State& s, CallBase& cb, A& a) -> Val { trusted_used.insert(n); return h(s, cb, a); }; };
#define RG(name) reg(name, [this, pow2](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); auto p = [&](int i) { return m.ptr(a[i]); }; auto ci = [&](int i) { return m.ci(a[i]); }; (void)p; (void)ci; (void)pow2;
#define END })
  RG("mpfr_init2") m.finit(p(0), ci(1)); return Val(); END;
  RG("mpfr_init") m.finit(p(0), s.mpfr_prec); return Val(); END;
  RG("mpfr_init_set_si") m.finit(p(0), s.mpfr_prec); return m.fset(p(0), norm(C.real_val((int64_t)ci(1))), MP::rnd(ci(2))); END;
  RG("mpfr_clear") uint64_t g = m.d(p(0), 24); Obj& o = wobj(s, g, 8, "mpfr_clear"); o.alive = false; return Val(); END;
  RG("mpfr_swap") uint64_t x = p(0), y = p(1); uint64_t t = alloc(s, 32, "tmp"); memcopy(s, t, x, 32); memcopy(s, x, y, 32); memcopy(s, y, t, 32); return Val(); END;
  RG("mpfr_get_prec") return load(s, p(0), 8, false, 64); END;
  RG("mpfr_set_prec") uint64_t x = p(0); int64_t n = ci(1); if (n < 1) throw Violation{"mpfr-precision-valid", "mpfr_set_prec"}; store(s, x, mkI(64, n), 8); m.fput(x, mkD(NAN)); return Val(); END;
  RG("mpfr_prec_round") uint64_t x = p(0); int64_t n = ci(1); int r = MP::rnd(ci(2)); Val v = m.fget(x); Val w = v.conc() && !std::isfinite(v.d()) ? v : round(s, re(v), r, (int)n); store(s, x, mkI(64, n), 8); m.fput(x, w); return mkI(32, 0); END;
  RG("mpfr_get_default_prec") return mkI(64, s.mpfr_prec); END;
  RG("mpfr_set_default_prec") s.mpfr_prec = ci(0); return Val(); END;
  RG("mpfr_get_default_rounding_mode") return mkI(32, s.mpfr_rnd); END;
  RG("mpfr_set_default_rounding_mode") s.mpfr_rnd = (int)ci(0); return Val(); END;
  RG("mpfr_get_emin") return mkI(64, (uint64_t)-1073741823); END;
  RG("mpfr_get_emax") return mkI(64, 1073741823); END;
  RG("mpfr_set") return m.fset(p(0), m.fget(p(1)), MP::rnd(ci(2))); END;
  RG("mpfr_set4") Val v = m.fget(p(1)); return m.fset(p(0), v, MP::rnd(ci(2))); END;
  RG("mpfr_set_d") Val v = a[1]; return m.fset(p(0), v, MP::rnd(ci(2))); END;
  RG("mpfr_set_si") return m.fset(p(0), norm(a[1].conc() ? C.real_val((int64_t)ci(1)) : z3::to_real(bvS(bv(a[1])))), MP::rnd(ci(2))); END;
  handlers["mpfr_set_sj"] = handlers["mpfr_set_si"];
  RG("__gmpfr_set_sj") return m.fset(p(0), norm(a[1].conc() ? C.real_val((int64_t)ci(1)) : z3::to_real(bvS(bv(a[1])))), MP::rnd(ci(2))); END;
  RG("mpfr_set_ui") return m.fset(p(0), norm(a[1].conc() ? C.real_val((uint64_t)a[1].c) : z3::to_real(bvU(bv(a[1])))), MP::rnd(ci(2))); END;
  handlers["__gmpfr_set_uj"] = handlers["mpfr_set_ui"]; handlers["mpfr_set_uj"] = handlers["mpfr_set_ui"];
  RG("mpfr_set_ui_2exp") return m.fset(p(0), norm(C.real_val((uint64_t)a[1].c) * pow2(ci(2))), MP::rnd(ci(3))); END;
  RG("mpfr_set_si_2exp") return m.fset(p(0), norm(C.real_val((int64_t)ci(1)) * pow2(ci(2))), MP::rnd(ci(3))); END;
  RG("mpfr_set_z") return m.fset(p(0), norm(z3::to_real(m.zget(p(1)))), MP::rnd(ci(2))); END;
  RG("mpfr_set_q") Val v = m.qget(p(1), true); return m.fset(p(0), v, MP::rnd(ci(2))); END;
  RG("mpfr_set_f") return m.fset(p(0), m.dget(p(1)), MP::rnd(ci(2))); END;
  RG("mpfr_set_inf") m.fput(p(0), mkD(ci(1) >= 0 ? HUGE_VAL : -HUGE_VAL)); return Val(); END;
  RG("mpfr_set_nan") m.fput(p(0), mkD(NAN)); return Val(); END;
  RG("mpfr_set_zero") m.fput(p(0), mkD(0)); return Val(); END;
  RG("mpfr_get_d") Val v = m.fget(p(0)); if (v.conc() && !std::isfinite(v.d())) return v; return round(s, re(v), MP::rnd(ci(1)), 53); END;
  RG("mpfr_get_z") Val v = m.fget(p(1)); int r = MP::rnd(ci(2)); z3::expr x = re(v), h = C.real_val(1, 2); z3::expr z = r == 1 ? MP::floorz(x) : r == 2 ? -MP::floorz(-x) : r == 3 ? z3::ite(x >= 0, MP::floorz(x), -MP::floorz(-x)) : MP::floorz(x); if (r == 0) { z3::expr f = MP::floorz(x); z3::expr d = x - z3::to_real(f); z = z3::ite(d < h, f, z3::ite(d > h, f + 1, z3::ite(z3::mod(f, 2) == 0, f, f + 1))); } m.zput(p(0), z); return mkI(32, 0); END;
  RG("mpfr_get_f") Val v = m.fget(p(1)); m.dput(p(0), v); return mkI(32, 0); END;
  RG("mpfr_get_q") Val v = m.fget(p(1)); m.qput(p(0), v); return Val(); END;
  RG("mpfr_get_exp") Val v = m.fget(p(0)); z3::expr x = re(v); if (!x.is_numeral()) throw Unsupported{"mpfr_get_exp of symbolic value"}; mpq_t q; mpq_init(q); exprToMpq(x, q); mpfr_t f; mpfr_init2(f, 4000); mpfr_set_q(f, q, MPFR_RNDN); int64_t e = mpfr_get_exp(f); mpfr_clear(f); mpq_clear(q); return mkI(64, (uint64_t)e); END;
  RG("mpfr_get_z_2exp") Val v = m.fget(p(1)); z3::expr x = re(v).simplify(); if (x.is_numeral()) { mpq_t q; mpq_init(q); exprToMpq(x, q); int64_t e = 0; mpz_t n; mpz_init_set(n, mpq_numref(q)); e = -(int64_t)mpz_scan1(mpq_denref(q), 0); m.zput(p(0), zval(n)); mpz_clear(n); mpq_clear(q); return mkI(64, (uint64_t)e); } throw Unsupported{"mpfr_get_z_2exp of symbolic value"}; END;
  for (auto pr : {std::make_pair("add", '+'), std::make_pair("sub", '-'), std::make_pair("mul", '*'), std::make_pair("div", '/')}) {
    char op = pr.second; std::string n = pr.first;
    auto bin = [this, op](State& s, uint64_t r, Val x, Val y, int rd) -> Val { MP m(*this, s); Val v = fpop(s, op, x, y, rd, m.prec(r)); m.fput(r, v); if (v.conc() && !std::isfinite(v.d())) return mkI(32, 0); return mkI(32, 0); };
    reg("mpfr_" + n, [this, bin](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); return bin(s, m.ptr(a[0]), m.fget(m.ptr(a[1])), m.fget(m.ptr(a[2])), MP::rnd(m.ci(a[3]))); });
    reg("mpfr_" + n + "_d", [this, bin](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); return bin(s, m.ptr(a[0]), m.fget(m.ptr(a[1])), a[2], MP::rnd(m.ci(a[3]))); });
    reg("mpfr_d_" + n, [this, bin](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); return bin(s, m.ptr(a[0]), a[1], m.fget(m.ptr(a[2])), MP::rnd(m.ci(a[3]))); });
    reg("mpfr_" + n + "_ui", [this, bin](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); return bin(s, m.ptr(a[0]), m.fget(m.ptr(a[1])), norm(C.real_val((uint64_t)a[2].c)), MP::rnd(m.ci(a[3]))); });
    reg("mpfr_" + n + "_si", [this, bin](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); return bin(s, m.ptr(a[0]), m.fget(m.ptr(a[1])), norm(C.real_val((int64_t)m.ci(a[2]))), MP::rnd(m.ci(a[3]))); });
    reg("mpfr_ui_" + n, [this, bin](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); return bin(s, m.ptr(a[0]), norm(C.real_val((uint64_t)a[1].c)), m.fget(m.ptr(a[2])), MP::rnd(m.ci(a[3]))); });
  }
  RG("mpfr_fma") Val x = m.fget(p(1)), y = m.fget(p(2)), z = m.fget(p(3)); Val v = fpop(s, 'f', x, y, MP::rnd(ci(4)), m.prec(p(0)), &z); m.fput(p(0), v); return mkI(32, 0); END;
  RG("mpfr_sqr") Val x = m.fget(p(1)); Val v = fpop(s, '*', x, x, MP::rnd(ci(2)), m.prec(p(0))); m.fput(p(0), v); return mkI(32, 0); END;
  RG("mpfr_sqrt") Val x = m.fget(p(1)); Val v = fpop(s, 's', x, mkD(0), MP::rnd(ci(2)), m.prec(p(0))); m.fput(p(0), v); return mkI(32, 0); END;
  RG("mpfr_neg") Val x = m.fget(p(1)); Val v = x.conc() ? mkD(-x.d()) : norm(-re(x)); return m.fset(p(0), v, MP::rnd(ci(2))); END;
  RG("mpfr_abs") Val x = m.fget(p(1)); Val v = x.conc() ? mkD(std::fabs(x.d())) : (decide(s, re(x) >= 0) ? x : norm(-re(x))); return m.fset(p(0), v, MP::rnd(ci(2))); END;
  RG("mpfr_min") Val x = m.fget(p(1)), y = m.fget(p(2)); Val c = fcmp(s, CmpInst::FCMP_OLE, x, y); bool xn = x.conc() && std::isnan(x.d()), yn = y.conc() && std::isnan(y.d()); Val v = xn ? y : yn ? x : (c.conc() ? c.c : decide(s, X(c.sx))) ? x : y; return m.fset(p(0), v, MP::rnd(ci(3))); END;
  RG("mpfr_max") Val x = m.fget(p(1)), y = m.fget(p(2)); Val c = fcmp(s, CmpInst::FCMP_OGE, x, y); bool xn = x.conc() && std::isnan(x.d()), yn = y.conc() && std::isnan(y.d()); Val v = xn ? y : yn ? x : (c.conc() ? c.c : decide(s, X(c.sx))) ? x : y; return m.fset(p(0), v, MP::rnd(ci(3))); END;
  RG("mpfr_div_2ui") Val x = m.fget(p(1)); if (x.conc() && !std::isfinite(x.d())) { m.fput(p(0), x); return mkI(32, 0); } return m.fset(p(0), norm(re(x) * pow2(-ci(2))), MP::rnd(ci(3))); END;
  RG("mpfr_mul_2ui") Val x = m.fget(p(1)); if (x.conc() && !std::isfinite(x.d())) { m.fput(p(0), x); return mkI(32, 0); } return m.fset(p(0), norm(re(x) * pow2(ci(2))), MP::rnd(ci(3))); END;
  handlers["mpfr_mul_2si"] = handlers["mpfr_mul_2ui"];
  RG("mpfr_div_2si") Val x = m.fget(p(1)); return m.fset(p(0), norm(re(x) * pow2(-ci(2))), MP::rnd(ci(3))); END;
  auto powh = [this](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); uint64_t r = m.ptr(a[0]); Val x = m.fget(m.ptr(a[1])); int64_t n = m.ci(a[2]); int rd = MP::rnd(m.ci(a[3])); if (n > 24 || n < -24) throw Unsupported{"large power"}; if (n == 0) return m.fset(r, mkD(1), rd); if (x.conc() && !std::isfinite(x.d())) { m.fput(r, mkD(std::pow(x.d(), (double)n))); return mkI(32, 0); }
    z3::expr e = ipow(re(x), n < 0 ? -n : n, true); if (n < 0) { if (decide(s, re(x) == 0)) { m.fput(r, mkD(HUGE_VAL)); return mkI(32, 0); } return m.fset(r, exactdiv(s, C.real_val(1), e), rd); } return m.fset(r, norm(e), rd); };
  reg("mpfr_pow_ui", powh); reg("mpfr_pow_si", powh);
  for (const char* fn : {"exp", "log", "sin", "cos", "tan", "asin", "acos", "atan"}) { std::string f = fn; reg("mpfr_" + f, [this, f](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); uint64_t r = m.ptr(a[0]); Val x = m.fget(m.ptr(a[1])); int rd = MP::rnd(m.ci(a[2]));
      if (x.conc() && !std::isfinite(x.d())) { double d = x.d(), y = f == "exp" ? std::exp(d) : f == "log" ? std::log(d) : NAN; if (f == "atan" && !std::isnan(d)) throw Unsupported{"atan(inf)"}; m.fput(r, mkD(y)); return mkI(32, 0); }
      z3::expr e = re(x); if (f == "log") { if (decide(s, e == 0)) { m.fput(r, mkD(-HUGE_VAL)); return mkI(32, 0); } if (decide(s, e < 0)) { m.fput(r, mkD(NAN)); return mkI(32, 0); } } if (f == "asin" || f == "acos") { if (decide(s, e > 1 || e < -1)) { m.fput(r, mkD(NAN)); return mkI(32, 0); } }
      return m.fset(r, tfun(s, f, e), rd); }); }
  RG("mpfr_const_pi") int rd = MP::rnd(ci(1)); std::vector<Val> none; Val pi = handlers["vp_re_pi"](s, cb, none); return m.fset(p(0), pi, rd); END;
  auto cmpf = [this](unsigned pred) { return [this, pred](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); Val c = fcmp(s, pred, m.fget(m.ptr(a[0])), m.fget(m.ptr(a[1]))); if (c.conc()) return mkI(32, c.c); return bool32(X(c.sx)); }; };
  reg("mpfr_less_p", cmpf(CmpInst::FCMP_OLT)); reg("mpfr_lessequal_p", cmpf(CmpInst::FCMP_OLE)); reg("mpfr_greater_p", cmpf(CmpInst::FCMP_OGT)); reg("mpfr_greaterequal_p", cmpf(CmpInst::FCMP_OGE)); reg("mpfr_equal_p", cmpf(CmpInst::FCMP_OEQ));
  auto cmpv = [this](State& s, const Val& x, const Val& y) -> Val { if ((x.conc() && !std::isfinite(x.d())) || (y.conc() && !std::isfinite(y.d()))) { double u = x.conc() ? x.d() : 0, v = y.conc() ? y.d() : 0; return mkI(32, (uint64_t)(int64_t)(u > v ? 1 : u < v ? -1 : 0)); } return sign32(re(x) - re(y)); };
  reg("mpfr_cmp", [this, cmpv](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); return cmpv(s, m.fget(m.ptr(a[0])), m.fget(m.ptr(a[1]))); }); handlers["mpfr_cmp3"] = handlers["mpfr_cmp"];
  reg("mpfr_cmp_d", [this, cmpv](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); return cmpv(s, m.fget(m.ptr(a[0])), a[1]); });
  reg("mpfr_cmp_si", [this, cmpv](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); return cmpv(s, m.fget(m.ptr(a[0])), norm(a[1].conc() ? C.real_val((int64_t)m.ci(a[1])) : z3::to_real(bvS(bv(a[1]))))); });
  reg("mpfr_cmp_ui", [this, cmpv](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); return cmpv(s, m.fget(m.ptr(a[0])), norm(a[1].conc() ? C.real_val((uint64_t)a[1].c) : z3::to_real(bvU(bv(a[1]))))); });
  handlers["mpfr_cmp_si_2exp"] = [this, cmpv, pow2](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); return cmpv(s, m.fget(m.ptr(a[0])), norm(C.real_val((int64_t)m.ci(a[1])) * pow2(m.ci(a[2])))); }; handlers["mpfr_cmp_ui_2exp"] = handlers["mpfr_cmp_si_2exp"];
  reg("mpfr_cmp_q", [this, cmpv](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); return cmpv(s, m.fget(m.ptr(a[0])), m.qget(m.ptr(a[1]), true)); });
  reg("mpfr_cmp_f", [this, cmpv](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); return cmpv(s, m.fget(m.ptr(a[0])), m.dget(m.ptr(a[1]))); });
  reg("mpfr_cmp_z", [this, cmpv](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); return cmpv(s, m.fget(m.ptr(a[0])), norm(z3::to_real(m.zget(m.ptr(a[1]))))); });
  RG("mpfr_sgn") Val v = m.fget(p(0)); if (v.conc()) return mkI(32, (uint64_t)(int64_t)(v.d() > 0 ? 1 : v.d() < 0 ? -1 : 0)); return sign32(re(v)); END;
  RG("mpfr_nan_p") Val v = m.fget(p(0)); return mkI(32, v.conc() && std::isnan(v.d())); END;
  RG("mpfr_inf_p") Val v = m.fget(p(0)); return mkI(32, v.conc() && std::isinf(v.d())); END;
  RG("mpfr_number_p") Val v = m.fget(p(0)); return mkI(32, !v.conc() || std::isfinite(v.d())); END;
  RG("mpfr_zero_p") Val v = m.fget(p(0)); if (v.conc()) return mkI(32, v.d() == 0); return bool32(re(v) == 0); END;
  RG("mpfr_signbit") Val v = m.fget(p(0)); if (v.conc()) return mkI(32, std::signbit(v.d())); return bool32(re(v) < 0); END;
  auto ri = [this](int k) { return [this, k](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); Val v = m.fget(m.ptr(a[1])); if (v.conc() && !std::isfinite(v.d())) { m.fput(m.ptr(a[0]), v); return mkI(32, 0); } z3::expr x = re(v); auto fl = [&](z3::expr e) { return z3::to_real(MP::floorz(e)); }; z3::expr h = C.real_val(1, 2); z3::expr r = k == 0 ? fl(x) : k == 1 ? -fl(-x) : decide(s, x >= 0) ? fl(x + h) : -fl(h - x); m.fput(m.ptr(a[0]), norm(r)); return mkI(32, 0); }; };
  reg("mpfr_floor", ri(0)); reg("mpfr_ceil", ri(1)); reg("mpfr_round", ri(2));
  // ================= GMP mpz
  RG("__gmpz_init") m.zinit(p(0)); return Val(); END;
  RG("__gmpz_init_set") z3::expr v = m.zget(p(1)); m.zinit(p(0)); m.zput(p(0), v); return Val(); END;
  RG("__gmpz_init_set_si") m.zinit(p(0)); m.zput(p(0), C.int_val((int64_t)ci(1))); return Val(); END;
  RG("__gmpz_init_set_ui") m.zinit(p(0)); m.zput(p(0), C.int_val((uint64_t)a[1].c)); return Val(); END;
  RG("__gmpz_clear") Obj& o = wobj(s, m.d(p(0), 8), 8, "mpz_clear"); o.alive = false; return Val(); END;
  RG("__gmpz_swap") uint64_t x = p(0), y = p(1), t = alloc(s, 16, "tmp"); memcopy(s, t, x, 16); memcopy(s, x, y, 16); memcopy(s, y, t, 16); return Val(); END;
  RG("__gmpz_set") m.zput(p(0), m.zget(p(1))); return Val(); END;
  RG("__gmpz_set_si") m.zput(p(0), a[1].conc() ? C.int_val((int64_t)ci(1)) : bvS(bv(a[1]))); return Val(); END;
  RG("__gmpz_set_ui") m.zput(p(0), a[1].conc() ? C.int_val((uint64_t)a[1].c) : bvU(bv(a[1]))); return Val(); END;
  RG("__gmpz_set_d") z3::expr x = re(a[1]); m.zput(p(0), z3::ite(x >= 0, MP::floorz(x), -MP::floorz(-x))); return Val(); END;
  RG("__gmpz_set_f") z3::expr x = m.dre(p(1)); m.zput(p(0), z3::ite(x >= 0, MP::floorz(x), -MP::floorz(-x))); return Val(); END;
  RG("__gmpz_set_q") z3::expr x = m.qfin(p(1)); m.zput(p(0), z3::ite(x >= 0, MP::floorz(x), -MP::floorz(-x))); return Val(); END;
  RG("__gmpz_set_str") std::string t = cstr(s, p(1)); mpz_t z; mpz_init(z); int r = mpz_set_str(z, t.c_str(), (int)ci(2)); m.zput(p(0), zval(z)); mpz_clear(z); return mkI(32, (uint64_t)(int64_t)r); END;
  RG("__gmpz_add") m.zput(p(0), m.zget(p(1)) + m.zget(p(2))); return Val(); END;
  RG("__gmpz_sub") m.zput(p(0), m.zget(p(1)) - m.zget(p(2))); return Val(); END;
  RG("__gmpz_mul") m.zput(p(0), m.zget(p(1)) * m.zget(p(2))); return Val(); END;
  RG("__gmpz_add_ui") m.zput(p(0), m.zget(p(1)) + (a[2].conc() ? C.int_val((uint64_t)a[2].c) : bvU(bv(a[2])))); return Val(); END;
  RG("__gmpz_sub_ui") m.zput(p(0), m.zget(p(1)) - (a[2].conc() ? C.int_val((uint64_t)a[2].c) : bvU(bv(a[2])))); return Val(); END;
  RG("__gmpz_mul_si") m.zput(p(0), m.zget(p(1)) * C.int_val((int64_t)ci(2))); return Val(); END;
  RG("__gmpz_mul_ui") m.zput(p(0), m.zget(p(1)) * C.int_val((uint64_t)concretize(s, a[2]))); return Val(); END;
  RG("__gmpz_neg") m.zput(p(0), -m.zget(p(1))); return Val(); END;
  RG("__gmpz_abs") z3::expr x = m.zget(p(1)); m.zput(p(0), z3::ite(x >= 0, x, -x)); return Val(); END;
  RG("__gmpz_mul_2exp") uint64_t k = concretize(s, a[2]); mpz_t z; mpz_init(z); mpz_ui_pow_ui(z, 2, k); z3::expr w = zval(z); mpz_clear(z); m.zput(p(0), m.zget(p(1)) * w); return Val(); END;
  RG("__gmpz_pow_ui") uint64_t k = concretize(s, a[2]); z3::expr x = m.zget(p(1)).simplify(); mpz_t z; mpz_init(z); if (znum(x, z)) { mpz_pow_ui(z, z, k); m.zput(p(0), zval(z)); } else { if (k > 24) throw Unsupported{"large power"}; m.zput(p(0), ipow(x, k, false)); } mpz_clear(z); return Val(); END;
  auto dv = [this](int kind, bool rem) { return [this, kind, rem](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); z3::expr x = m.zget(m.ptr(a[1])).simplify(), y = m.zget(m.ptr(a[2])).simplify();
      mpz_t u, v, q, r; mpz_init(u); mpz_init(v); mpz_init(q); mpz_init(r); bool num = znum(x, u) && znum(y, v); z3::expr Q = x, R = x;
      if (num && mpz_sgn(v) == 0) throw Violation{"no-division-by-zero", "mpz division"};
      if (num) { if (kind == 0) mpz_fdiv_qr(q, r, u, v); else if (kind == 1) mpz_cdiv_qr(q, r, u, v); else mpz_tdiv_qr(q, r, u, v); Q = zval(q); R = zval(r); }
      else { if (decide(s, y == 0)) throw Violation{"no-division-by-zero", "mpz division"}; static std::map<std::tuple<int, int, int>, std::pair<int, int>> cache; auto key = std::make_tuple(P(x), P(y), kind); if (!cache.count(key)) cache[key] = {P(C.int_const(fresh("zq").c_str())), P(C.int_const(fresh("zr").c_str()))}; Q = X(cache[key].first); R = X(cache[key].second); z3::expr ax = x == Q * y + R; P(ax); if (s.learned.insert(Z3_get_ast_id(C, ax)).second) { s.pc.push_back(P(ax)); z3::expr c = kind == 0 ? z3::ite(y > 0, R >= 0 && R < y, R <= 0 && R > y) : kind == 1 ? z3::ite(y > 0, R <= 0 && R > -y, R >= 0 && R < -y) : (z3::ite(x >= 0, R >= 0, R <= 0) && z3::ite(y > 0, R < y && R > -y, R > y && R < -y)); s.pc.push_back(P(c)); } }
      mpz_clear(u); mpz_clear(v); mpz_clear(q); mpz_clear(r); m.zput(m.ptr(a[0]), rem ? R : Q); return Val(); }; };
  reg("__gmpz_fdiv_q", dv(0, false)); reg("__gmpz_fdiv_r", dv(0, true)); reg("__gmpz_cdiv_q", dv(1, false)); reg("__gmpz_cdiv_r", dv(1, true)); reg("__gmpz_tdiv_q", dv(2, false)); reg("__gmpz_tdiv_r", dv(2, true)); reg("__gmpz_divexact", dv(0, false));
  RG("__gmpz_mod") z3::expr x = m.zget(p(1)), y = m.zget(p(2)); if (decide(s, y == 0)) throw Violation{"no-division-by-zero", "mpz_mod"}; m.zput(p(0), z3::mod(x, y)); return Val(); END;
  RG("__gmpz_cmp") return sign32(m.zget(p(0)) - m.zget(p(1))); END;
  RG("__gmpz_cmp_si") return sign32(m.zget(p(0)) - (a[1].conc() ? C.int_val((int64_t)ci(1)) : bvS(bv(a[1])))); END;
  RG("__gmpz_cmp_ui") return sign32(m.zget(p(0)) - (a[1].conc() ? C.int_val((uint64_t)a[1].c) : bvU(bv(a[1])))); END;
  RG("vp_mpz_sgn") return sign32(m.zget(p(0))); END;
  RG("vp_mpz_odd_p") z3::expr x = m.zget(p(0)); return bool32(z3::mod(x, 2) == 1); END;
  RG("__gmpz_get_si") return fromBV(z3::expr(C, Z3_mk_int2bv(C, 64, m.zget(p(0)))), 64); END;
  RG("__gmpz_get_ui") z3::expr x = m.zget(p(0)); return fromBV(z3::expr(C, Z3_mk_int2bv(C, 64, z3::ite(x >= 0, x, -x))), 64); END;
  RG("__gmpz_get_d") z3::expr x = z3::to_real(m.zget(p(0))); return round(s, x, 3, 53); END;
  RG("__gmpz_fits_slong_p") z3::expr x = m.zget(p(0)); return bool32(x >= C.int_val(INT64_MIN) && x <= C.int_val(INT64_MAX)); END;
  RG("__gmpz_sizeinbase") mpz_t z; mpz_init(z); if (!znum(m.zget(p(0)), z)) { mpz_clear(z); throw Unsupported{"mpz_sizeinbase of symbolic value"}; } uint64_t r = mpz_sizeinbase(z, (int)ci(1)); mpz_clear(z); return mkI(64, r); END;
  // ================= GMP mpq
  RG("__gmpq_init") m.qinit(p(0)); return Val(); END;
  RG("__gmpq_clear") for (int k = 0; k < 2; k++) { Obj& o = wobj(s, m.d(p(0) + 16 * k, 8), 8, "mpq_clear"); o.alive = false; } return Val(); END;
  RG("__gmpq_swap") uint64_t x = p(0), y = p(1), t = alloc(s, 32, "tmp"); memcopy(s, t, x, 32); memcopy(s, x, y, 32); memcopy(s, y, t, 32); return Val(); END;
  RG("__gmpq_canonicalize") Val v = m.qget(p(0), false); if (v.conc() && !std::isfinite(v.d())) throw Violation{"no-division-by-zero", "mpq_canonicalize with zero denominator"}; m.qput(p(0), v); return Val(); END;
  RG("__gmpq_set") uint64_t x = p(0), y = p(1); Val v; if (m.qlazy(y, v)) m.qput(x, v); else { z3::expr n = m.zget(y), d = m.zget(y + 16); m.zput(x, n); m.zput(x + 16, d); } return Val(); END;
  RG("__gmpq_set_si") m.zput(p(0), C.int_val((int64_t)ci(1))); m.zput(p(0) + 16, C.int_val((uint64_t)concretize(s, a[2]))); return Val(); END;
  RG("__gmpq_set_ui") m.zput(p(0), C.int_val((uint64_t)concretize(s, a[1]))); m.zput(p(0) + 16, C.int_val((uint64_t)concretize(s, a[2]))); return Val(); END;
  RG("__gmpq_set_z") m.zput(p(0), m.zget(p(1))); m.zput(p(0) + 16, C.int_val(1)); return Val(); END;
  RG("__gmpq_set_d") m.qput(p(0), norm(re(a[1]))); return Val(); END;
  RG("__gmpq_set_f") m.qput(p(0), m.dget(p(1))); return Val(); END;
  RG("__gmpq_set_str") std::string t = cstr(s, p(1)); mpq_t q; mpq_init(q); int r = mpq_set_str(q, t.c_str(), (int)ci(2)); if (r == 0) { m.zput(p(0), zval(mpq_numref(q))); m.zput(p(0) + 16, zval(mpq_denref(q))); } mpq_clear(q); return mkI(32, (uint64_t)(int64_t)r); END;
  RG("__gmpq_get_num") m.zput(p(0), m.zget(p(1))); return Val(); END;
  RG("__gmpq_get_den") m.zput(p(0), m.zget(p(1) + 16)); return Val(); END;
  RG("__gmpq_set_num") z3::expr d = m.zget(p(0) + 16), n = m.zget(p(1)); m.zput(p(0), n); m.zput(p(0) + 16, d); return Val(); END;
  RG("__gmpq_set_den") z3::expr n = m.zget(p(0)), d = m.zget(p(1)); m.zput(p(0), n); m.zput(p(0) + 16, d); return Val(); END;
  RG("__gmpq_add") m.qput(p(0), norm(m.qfin(p(1)) + m.qfin(p(2)))); return Val(); END;
  RG("__gmpq_sub") m.qput(p(0), norm(m.qfin(p(1)) - m.qfin(p(2)))); return Val(); END;
  RG("__gmpq_mul") m.qput(p(0), norm(m.qfin(p(1)) * m.qfin(p(2)))); return Val(); END;
  RG("__gmpq_div") z3::expr x = m.qfin(p(1)), y = m.qfin(p(2)); if (decide(s, y == 0)) throw Violation{"no-division-by-zero", "mpq_div"}; m.qput(p(0), exactdiv(s, x, y)); return Val(); END;
  RG("__gmpq_inv") z3::expr y = m.qfin(p(1)); if (decide(s, y == 0)) throw Violation{"no-division-by-zero", "mpq_inv"}; m.qput(p(0), exactdiv(s, C.real_val(1), y)); return Val(); END;
  RG("__gmpq_neg") uint64_t x = p(0), y = p(1); Val v; if (m.qlazy(y, v)) m.qput(x, norm(-re(v))); else { z3::expr n = m.zget(y), d = m.zget(y + 16); m.zput(x, -n); m.zput(x + 16, d); } return Val(); END;
  RG("__gmpq_abs") uint64_t x = p(0), y = p(1); Val v; if (m.qlazy(y, v)) { z3::expr e = re(v); m.qput(x, norm(z3::ite(e >= 0, e, -e))); } else { z3::expr n = m.zget(y), d = m.zget(y + 16); m.zput(x, z3::ite(n >= 0, n, -n)); m.zput(x + 16, d); } return Val(); END;
  RG("__gmpq_mul_2exp") m.qput(p(0), norm(m.qfin(p(1)) * pow2((int64_t)concretize(s, a[2])))); return Val(); END;
  RG("__gmpq_div_2exp") m.qput(p(0), norm(m.qfin(p(1)) * pow2(-(int64_t)concretize(s, a[2])))); return Val(); END;
  RG("__gmpq_cmp") return sign32(m.qfin(p(0)) - m.qfin(p(1))); END;
  RG("__gmpq_cmp_si") Val v = m.qget(p(0), true); if (v.conc() && !std::isfinite(v.d())) return mkI(32, (uint64_t)(int64_t)(v.d() > 0 ? 1 : v.d() < 0 ? -1 : 0)); z3::expr d = C.real_val((uint64_t)concretize(s, a[2])), n = C.real_val((int64_t)ci(1)); return sign32(re(v) - n / d); END;
  RG("__gmpq_cmp_ui") Val v = m.qget(p(0), true); z3::expr d = C.real_val((uint64_t)concretize(s, a[2])), n = C.real_val((uint64_t)concretize(s, a[1])); return sign32(re(v) - n / d); END;
  RG("__gmpq_cmp_z") return sign32(m.qfin(p(0)) - z3::to_real(m.zget(p(1)))); END;
  RG("__gmpq_equal") Val x = m.qget(p(0), true), y = m.qget(p(1), true); auto fin = [](const Val& v) { return !v.conc() || std::isfinite(v.d()); }; if (fin(x) && fin(y)) return bool32(re(x) == re(y)); z3::expr a1 = m.zget(p(0)), b1 = m.zget(p(0) + 16), a2 = m.zget(p(1)), b2 = m.zget(p(1) + 16); return bool32(a1 == a2 && b1 == b2); END;
  RG("__gmpq_get_d") return round(s, m.qfin(p(0)), 3, 53); END;
  RG("vp_mpq_sgn") Val v; if (m.qlazy(p(0), v)) return sign32(re(v)); return sign32(m.zget(p(0))); END;
  // ================= GMP mpf
  RG("__gmpf_init") m.dinit(p(0)); return Val(); END;
  RG("__gmpf_init2") m.dinit(p(0)); return Val(); END;
  RG("__gmpf_clear") Obj& o = wobj(s, m.d(p(0), 16), 8, "mpf_clear"); o.alive = false; return Val(); END;
  RG("__gmpf_swap") uint64_t x = p(0), y = p(1), t = alloc(s, 24, "tmp"); memcopy(s, t, x, 24); memcopy(s, x, y, 24); memcopy(s, y, t, 24); return Val(); END;
  RG("__gmpf_set") uint64_t x = p(0), y = p(1); if (x == y) return Val(); Val v = m.dget(y), sz = load(s, y + 4, 4, false, 32), ex = load(s, y + 8, 8, false, 64); m.dput(x, v); store(s, x + 4, sz, 4); store(s, x + 8, ex, 8); return Val(); END;
  RG("__gmpf_set_si") m.dput(p(0), norm(a[1].conc() ? C.real_val((int64_t)ci(1)) : z3::to_real(bvS(bv(a[1]))))); return Val(); END;
  RG("__gmpf_set_ui") m.dput(p(0), norm(C.real_val((uint64_t)concretize(s, a[1])))); return Val(); END;
  RG("__gmpf_set_z") m.dput(p(0), norm(z3::to_real(m.zget(p(1))))); return Val(); END;
  RG("__gmpf_set_d") m.dput(p(0), norm(re(a[1]))); return Val(); END;
  RG("__gmpf_set_q") m.dput(p(0), norm(m.qfin(p(1)))); return Val(); END;
  RG("__gmpf_get_d") return round(s, m.dre(p(0)), 3, 53); END;
  RG("__gmpf_add") m.dput(p(0), norm(m.dre(p(1)) + m.dre(p(2)))); return Val(); END;
  RG("__gmpf_sub") m.dput(p(0), norm(m.dre(p(1)) - m.dre(p(2)))); return Val(); END;
  RG("__gmpf_mul") m.dput(p(0), norm(m.dre(p(1)) * m.dre(p(2)))); return Val(); END;
  RG("__gmpf_div") throw Unsupported{"mpf_div"}; return Val(); END;
  RG("__gmpf_add_ui") m.dput(p(0), norm(m.dre(p(1)) + C.real_val((uint64_t)concretize(s, a[2])))); return Val(); END;
  RG("__gmpf_sub_ui") m.dput(p(0), norm(m.dre(p(1)) - C.real_val((uint64_t)concretize(s, a[2])))); return Val(); END;
  RG("__gmpf_neg") m.dput(p(0), norm(-m.dre(p(1)))); return Val(); END;
  RG("__gmpf_abs") z3::expr e = m.dre(p(1)); m.dput(p(0), norm(z3::ite(e >= 0, e, -e))); return Val(); END;
  RG("__gmpf_mul_2exp") m.dput(p(0), norm(m.dre(p(1)) * pow2((int64_t)concretize(s, a[2])))); return Val(); END;
  RG("__gmpf_div_2exp") m.dput(p(0), norm(m.dre(p(1)) * pow2(-(int64_t)concretize(s, a[2])))); return Val(); END;
  RG("__gmpf_pow_ui") uint64_t k = concretize(s, a[2]); if (k > 24) throw Unsupported{"large power"}; m.dput(p(0), norm(ipow(m.dre(p(1)), k, true))); return Val(); END;
  RG("__gmpf_floor") m.dput(p(0), norm(z3::to_real(MP::floorz(m.dre(p(1)))))); return Val(); END;
  RG("__gmpf_ceil") m.dput(p(0), norm(-z3::to_real(MP::floorz(-m.dre(p(1)))))); return Val(); END;
  RG("__gmpf_trunc") z3::expr x = m.dre(p(1)); m.dput(p(0), norm(z3::ite(x >= 0, z3::to_real(MP::floorz(x)), -z3::to_real(MP::floorz(-x))))); return Val(); END;
  RG("__gmpf_cmp") return sign32(m.dre(p(0)) - m.dre(p(1))); END;
  RG("__gmpf_cmp_si") return sign32(m.dre(p(0)) - (a[1].conc() ? C.real_val((int64_t)ci(1)) : z3::to_real(bvS(bv(a[1]))))); END;
  RG("__gmpf_cmp_ui") return sign32(m.dre(p(0)) - C.real_val((uint64_t)concretize(s, a[1]))); END;
  RG("__gmpf_cmp_d") return sign32(m.dre(p(0)) - re(a[1])); END;
  RG("vp_mpf_sgn") return sign32(m.dre(p(0))); END;
  RG("__gmpf_integer_p") return bool32(z3::expr(C, Z3_mk_is_int(C, m.dre(p(0))))); END;
  RG("__gmpf_get_si") z3::expr x = m.dre(p(0)); return fromBV(z3::expr(C, Z3_mk_int2bv(C, 64, z3::ite(x >= 0, MP::floorz(x), -MP::floorz(-x)))), 64); END;
  // ================= vp ghost access
  auto inp = [](State& s, const std::string& n, const char* kind, int sx) { s.inputs.push_back({n, kind, sx, 0}); };
  reg("vp_fresh_mpfr", [this, inp](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); std::string n = cstr(s, m.ptr(a[1])); int x = P(C.real_const((n + "#" + std::to_string(s.inputs.size())).c_str())); addRep(s, x, m.prec(m.ptr(a[0]))); inp(s, n, "mp", x); m.fput(m.ptr(a[0]), mkF(x)); return Val(); });
  reg("vp_fresh_mpz", [this, inp](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); std::string n = cstr(s, m.ptr(a[1])); int x = P(C.int_const((n + "#" + std::to_string(s.inputs.size())).c_str())); inp(s, n, "mpz", x); m.zput(m.ptr(a[0]), X(x)); return Val(); });
  reg("vp_fresh_mpq", [this, inp](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); std::string n = cstr(s, m.ptr(a[1])); int x = P(C.real_const((n + "#" + std::to_string(s.inputs.size())).c_str())); inp(s, n, "mpq", x); m.qput(m.ptr(a[0]), mkF(x)); return Val(); });
  reg("vp_fresh_mpf", [this, inp](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); std::string n = cstr(s, m.ptr(a[1])); int x = P(C.real_const((n + "#" + std::to_string(s.inputs.size())).c_str())); inp(s, n, "mpf", x); m.dput(m.ptr(a[0]), mkF(x)); return Val(); });
  handlers["vp_re_mpfr"] = [this](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); return m.fget(m.ptr(a[0])); };
  handlers["vp_re_mpz"] = [this](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); return norm(z3::to_real(m.zget(m.ptr(a[0])))); };
  handlers["vp_re_mpq"] = [this](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); return m.qget(m.ptr(a[0]), false); };
  handlers["vp_mpq_canonical"] = [this](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); Val v; if (m.qlazy(m.ptr(a[0]), v)) return mkI(1, 1); z3::expr n = m.zget(m.ptr(a[0])).simplify(), d = m.zget(m.ptr(a[0]) + 16).simplify(); if (d.is_numeral() && Z3_get_numeral_string(C, d) == std::string("1")) return mkI(1, 1); std::string ns = n.is_const() && !n.is_numeral() ? n.decl().name().str() : "", ds = d.is_const() && !d.is_numeral() ? d.decl().name().str() : ""; if (ns.rfind("num!", 0) == 0 && ds.rfind("den!", 0) == 0 && atoi(ds.c_str() + 4) == atoi(ns.c_str() + 4) + 1) return mkI(1, 1); mpz_t u, w; mpz_init(u); mpz_init(w); bool ok = znum(n, u) && znum(d, w); if (ok) { mpz_gcd(u, u, w); ok = mpz_cmp_ui(u, 1) == 0 && mpz_sgn(w) > 0; } mpz_clear(u); mpz_clear(w); return mkI(1, ok); };
  handlers["vp_re_mpf"] = [this](State& s, CallBase& cb, A& a) -> Val { MP m(*this, s); uint64_t x = m.ptr(a[0]); Val sz = load(s, x + 4, 4, false, 32), ex = load(s, x + 8, 8, false, 64); if (sz.conc() && sz.c == 0 && ex.conc() && ex.c != 0) return mkD((int64_t)ex.c == INT64_MIN ? NAN : (int64_t)ex.c > 0 ? HUGE_VAL : -HUGE_VAL); return m.dget(x); };
}
