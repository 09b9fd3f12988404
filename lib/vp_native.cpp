// Native implementation of the specification primitives: exact rationals behind NaN-boxed handles.
// Runs a specification on concrete inputs (replayed from a counterexample, or drawn from a seeded generator).
#include <gmp.h>
#include <mpfr.h>
#include <vector>
#include <string>
#include <map>
#include <random>
#include <iostream>
#include <fstream>
#include <sstream>
#include <cmath>
#include <cfenv>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
#include <time.h>
#include <dlfcn.h>
struct Skip {}; struct Viol { std::string label; };
struct Q { mpq_t q; bool approx; };
static std::vector<Q*> tab; static const uint64_t BOX = 0x7ff8dead00000000ull, BMASK = 0xffffffff00000000ull;
static double box(Q* x) { tab.push_back(x); uint64_t b = BOX | (tab.size() - 1); double d; memcpy(&d, &b, 8); return d; }
static Q* newq() { Q* x = new Q; mpq_init(x->q); x->approx = false; return x; }
static bool boxed(double d) { uint64_t b; memcpy(&b, &d, 8); return (b & BMASK) == BOX; }
static double inf2(int s) { return s > 0 ? HUGE_VAL : -HUGE_VAL; }
static Q* val(double d) { if (boxed(d)) { uint64_t b; memcpy(&b, &d, 8); return tab[b & ~BMASK]; } Q* x = newq(); if (!std::isfinite(d)) throw Skip(); mpq_set_d(x->q, d); tab.push_back(x); return x; }
static bool special(double d) { return !boxed(d) && !std::isfinite(d); }
// ---- inputs
struct In { std::string name, kind, val; };
static std::vector<In> used; static std::map<std::string, std::vector<std::string>> given; static std::map<std::string, size_t> gpos;
static std::mt19937_64 rng; static bool replay = false; static int perturb = 0; static bool maythrow = false; static bool anyAssert = false; static std::string viollabel;
static int special_bias = 0;
static double rdbl() {
  switch (rng() % 14) {
    case 0: return (double)((int)(rng() % 7) - 3); case 1: return ((int)(rng() % 9) - 4) / 2.0; case 2: return std::ldexp(1.0, (int)(rng() % 7) - 3) * ((rng() & 1) ? 1 : -1); case 3: return 0.0;
    case 4: { double x = (double)((int)(rng() % 5) - 2); return x == 0 ? 1.0 : std::nextafter(x, (rng() & 1) ? 10 : -10); } case 5: { double x = std::ldexp(1.0 + (rng() >> 12) * 0x1p-52, (int)(rng() % 60) - 30); return (rng() & 1) ? x : -x; }
    case 6: { double x = ((int)(rng() % 2001) - 1000) / 8.0; return x; }
    case 7: if (!used.empty()) { std::vector<double> c; for (auto& u : used) if (u.kind == "dp") c.push_back(strtod(u.val.c_str(), 0)); if (!c.empty()) { double x = c[rng() % c.size()]; switch (x == 0 ? 0 : rng() % 4) { case 0: return x; case 1: return -x; case 2: return std::nextafter(x, 1e300); default: return std::nextafter(x, -1e300); } } } 
    default: { double x = (double)(rng() >> 11) * 0x1p-53 * 4 - 2; return x; }
  }
}
static bool next(const char* n, std::string& v) { auto& g = given[n]; size_t& p = gpos[n]; if (p < g.size()) { v = g[p++]; return true; } return false; }
static void qstr(const std::string& v0, mpq_t q) { std::string v = v0; if (!v.empty() && v[0] == '~') v = v.substr(1); if (!v.empty() && v.back() == '?') v.pop_back(); auto dot = v.find('.'); if (dot != std::string::npos) { std::string fr = v.substr(dot + 1); v.erase(dot, 1); v += "/1" + std::string(fr.size(), '0'); } if (mpq_set_str(q, v.c_str(), 10)) mpq_set_ui(q, 0, 1); else mpq_canonicalize(q); }
static std::string qs(mpq_srcptr q) { char* c = mpq_get_str(0, 10, q); std::string s = c; free(c); return s; }
static double dstr(const std::string& v) { if (v.find('/') == std::string::npos && v[0] != '~' && v.find_first_of("xpeE") != std::string::npos) return strtod(v.c_str(), 0); mpq_t q; mpq_init(q); qstr(v, q); mpfr_t f; mpfr_init2(f, 53); mpfr_set_q(f, q, MPFR_RNDN); double d = mpfr_get_d(f, MPFR_RNDN); mpfr_clear(f); mpq_clear(q); return d; }
static std::string dhex(double d) { char b[64]; snprintf(b, 64, "%a", d); return b; }
extern "C" {
int vp_mpz_sgn(mpz_srcptr x) { return x->_mp_size < 0 ? -1 : x->_mp_size > 0; } int vp_mpq_sgn(mpq_srcptr x) { int n = mpq_numref(x)->_mp_size; return n < 0 ? -1 : n > 0; } int vp_mpf_sgn(mpf_srcptr x) { return x->_mp_size < 0 ? -1 : x->_mp_size > 0; }
int vp_mpz_odd_p(mpz_srcptr x) { return x->_mp_size != 0 && (x->_mp_d[0] & 1); } int vp_mpz_even_p(mpz_srcptr x) { return !vp_mpz_odd_p(x); }
double vp_fresh_dp(const char* n) { std::string v; double d; if (next(n, v)) { d = dstr(v); for (int k = 0; k < 3; k++) if (perturb && d != 0 && rng() % 3 == 0) d = std::nextafter(d, (rng() & 1) ? 1e300 : -1e300); if (perturb > 1 && rng() % 6 == 0) d = rdbl(); } else d = rdbl(); if (d == 0) d = 0; used.push_back({n, "dp", dhex(d)}); return d; }
static Q* rndq(const char* n, const char* kind) {
  std::string v; Q* q = newq();
  if (next(n, v)) { qstr(v, q->q); if (perturb > 1 && rng() % 4 == 0) mpq_set_d(q->q, rdbl()); }
  else if (rng() % 2) mpq_set_d(q->q, rdbl()); else { mpq_set_si(q->q, (long)(rng() % 4001) - 2000, 1 + rng() % 97); mpq_canonicalize(q->q); }
  used.push_back({n, kind, qs(q->q)}); return q;
}
double vp_fresh_real(const char* n) {
  std::string v; Q* q = newq();
  if (next(n, v)) { qstr(v, q->q); if (perturb > 1 && rng() % 4 == 0) mpq_set_d(q->q, rdbl()); }
  else { std::vector<std::string> c; for (auto& u : used) if (u.kind == "dp" || u.kind == "mp" || u.kind == "mpq" || u.kind == "mpf" || u.kind=="real") c.push_back(u.val);
    auto pick = [&](mpq_t r) { auto& w = c[rng() % c.size()]; if (w.find('x') != std::string::npos) mpq_set_d(r, strtod(w.c_str(), 0)); else qstr(w, r); };
    if (!c.empty() && rng() % 8) { pick(q->q); if (rng() % 2) { mpq_t r, t; mpq_init(r); mpq_init(t); pick(r); mpq_sub(r, r, q->q); mpq_set_si(t, rng() % 9, 8); mpq_canonicalize(t); mpq_mul(r, r, t); mpq_add(q->q, q->q, r); mpq_clear(r); mpq_clear(t); } if (rng() % 4 == 0) mpq_neg(q->q, q->q); }
    else mpq_set_d(q->q, rdbl()); }
  used.push_back({n, "real", qs(q->q)}); return box(q);
}
long vp_fresh_int(const char* n, long lo, long hi) { std::string v; long x; if (next(n, v)) x = strtol(v.c_str(), 0, 10); else { unsigned long w = (unsigned long)hi - (unsigned long)lo; switch (rng() % 6) { case 0: x = lo; break; case 1: x = hi; break; case 2: x = std::max(lo, std::min(hi, (long)(rng() % 5) - 2)); break; case 3: x = std::max(lo, std::min(hi, (long)(rng() % 201) - 100)); break; default: x = w == ~0ul ? (long)rng() : (long)((unsigned long)lo + rng() % (w + 1)); } } if (x < lo) x = lo; if (x > hi) x = hi; used.push_back({n, "int", std::to_string(x)}); return x; }
long vp_choice(const char* n, long lo, long hi) { if (hi < lo) throw Skip(); std::string v; long x; if (next(n, v)) x = strtol(v.c_str(), 0, 10); else x = lo + (long)(rng() % (unsigned long)(hi - lo + 1)); used.push_back({n, "choice", std::to_string(x)}); return x; }
void vp_fresh_mpfr(mpfr_ptr x, const char* n) { std::string v; if (next(n, v)) { if (v.find_first_of("xp") != std::string::npos) mpfr_set_d(x, dstr(v), MPFR_RNDN); else { mpq_t q; mpq_init(q); qstr(v, q); mpfr_set_q(x, q, MPFR_RNDN); mpq_clear(q); } for (int k = 0; k < 3; k++) if (perturb && !mpfr_zero_p(x) && rng() % 3 == 0) { if (rng() & 1) mpfr_nextabove(x); else mpfr_nextbelow(x); } if (perturb > 1 && rng() % 6 == 0) mpfr_set_d(x, rdbl(), MPFR_RNDN); }
  else { mpfr_set_d(x, rdbl(), MPFR_RNDN); if (rng() % 2 && mpfr_sgn(x)) { mpfr_t e; mpfr_init2(e, 60); mpfr_set_ui_2exp(e, rng() >> 4, -60 - (long)mpfr_get_prec(x) + 60, MPFR_RNDN); mpfr_mul(e, e, x, MPFR_RNDN); mpfr_add(x, x, e, MPFR_RNDN); mpfr_clear(e); } }
  mpq_t q; mpq_init(q); mpfr_get_q(q, x); used.push_back({n, "mp", qs(q)}); mpq_clear(q); }
void vp_fresh_mpz(mpz_ptr x, const char* n) { std::string v; if (next(n, v)) mpz_set_str(x, v.c_str(), 10); else switch (rng() % 5) { case 0: mpz_set_si(x, (long)(rng() % 5) - 2); break; case 1: mpz_set_si(x, (long)rng()); break; case 2: mpz_set_ui(x, 1); mpz_mul_2exp(x, x, rng() % 130); mpz_add_ui(x, x, rng() % 3); mpz_sub_ui(x, x, 1); if (rng() & 1) mpz_neg(x, x); break; case 3: mpz_set_si(x, (long)rng()); mpz_mul_si(x, x, (long)rng()); break; default: mpz_set_si(x, (long)(rng() % 401) - 200); } char* c = mpz_get_str(0, 10, x); used.push_back({n, "mpz", c}); free(c); }
void vp_fresh_mpq(mpq_ptr x, const char* n) { Q* q = rndq(n, "mpq"); mpq_set(x, q->q); }
void vp_fresh_mpf(mpf_ptr x, const char* n) { std::string v; mpq_t q; mpq_init(q); if (next(n, v)) { qstr(v, q); mpfr_t f; mpfr_init2(f, 300); mpfr_set_q(f, q, MPFR_RNDN); mpfr_get_q(q, f); mpfr_clear(f); } else { if (rng() % 4 == 0) { mpz_set_si(mpq_numref(q), (long)rng()); mpz_mul_si(mpq_numref(q), mpq_numref(q), (long)rng()); mpq_canonicalize(q); mpq_div_2exp(q, q, rng() % 140); } else mpq_set_d(q, rdbl()); } mpf_set_q(x, q); used.push_back({n, "mpf", qs(q)}); mpq_clear(q); }
void vp_assume(bool b) { if (!b) throw Skip(); }
void vp_assert(bool b, const char* l) { anyAssert = true; if (!b) throw Viol{l}; }
void vp_cover(const char*) {} void vp_check_feasible() {} void vp_may_throw() { maythrow = true; } void vp_no_throw() { maythrow = false; }
static const int RM[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
int vp_rounding_mode() { int m = fegetround(); for (int i = 0; i < 4; i++) if (RM[i] == m) return i; return 0; }
void vp_set_rounding_mode(int m) { fesetround(RM[m & 3]); }
static bool quiet = true;
void vp_print(const char* s) { if (!quiet) std::cerr << s << "\n"; }
void vp_printd(const char* s, double d) { if (!quiet) { std::cerr << s << " = "; if (special(d)) std::cerr << d; else { Q* q = val(d); std::cerr << qs(q->q) << " ~ " << mpq_get_d(q->q); } std::cerr << "\n"; } } void vp_printi(const char* s, long i) { if (!quiet) std::cerr << s << " = " << i << "\n"; }
#define BIN(nm, f) double vp_re_##nm(double a, double b) { Q *x = val(a), *y = val(b), *r = newq(); f(r->q, x->q, y->q); r->approx = x->approx || y->approx; return box(r); }
BIN(add, mpq_add) BIN(sub, mpq_sub) BIN(mul, mpq_mul)
double vp_re_div(double a, double b) { Q *x = val(a), *y = val(b), *r = newq(); if (mpq_sgn(y->q) == 0) throw Skip(); mpq_div(r->q, x->q, y->q); r->approx = x->approx || y->approx; return box(r); }
double vp_re_neg(double a) { if (special(a)) return -a; Q *x = val(a), *r = newq(); mpq_neg(r->q, x->q); r->approx = x->approx; return box(r); }
static int cmpx(double a, double b, bool& close) { close = false; if (special(a) || special(b)) { if (std::isnan(a) && !boxed(a)) return 9; if (std::isnan(b) && !boxed(b)) return 9; if (special(a) && special(b)) return a < b ? -1 : a > b; if (special(a)) return a > 0 ? 1 : -1; return b > 0 ? -1 : 1; } Q *x = val(a), *y = val(b); int c = mpq_cmp(x->q, y->q); if (x->approx || y->approx) { mpq_t d, t; mpq_init(d); mpq_init(t); mpq_sub(d, x->q, y->q); mpq_abs(d, d); mpq_set_ui(t, 1, 1); mpq_div_2exp(t, t, 250); mpq_t m; mpq_init(m); mpq_abs(m, x->q); mpq_t one; mpq_init(one); mpq_set_ui(one, 1, 1); mpq_add(m, m, one); mpq_mul(t, t, m); close = mpq_cmp(d, t) < 0; mpq_clear(d); mpq_clear(t); mpq_clear(m); mpq_clear(one); } return c; }
bool vp_re_lt(double a, double b) { bool cl; int c = cmpx(a, b, cl); if (c == 9) return false; if (cl) throw Skip(); return c < 0; } bool vp_re_le(double a, double b) { bool cl; int c = cmpx(a, b, cl); if (c == 9) return false; if (cl) return true; return c <= 0; } bool vp_re_eq(double a, double b) { bool cl; int c = cmpx(a, b, cl); if (c == 9) return false; if (cl) return true; return c == 0; }
double vp_re_int(long n) { Q* r = newq(); mpq_set_si(r->q, n, 1); return box(r); }
double vp_re_floor(double a) { Q *x = val(a), *r = newq(); mpz_fdiv_q(mpq_numref(r->q), mpq_numref(x->q), mpq_denref(x->q)); return box(r); }
bool vp_re_isint(double a) { return mpz_cmp_ui(mpq_denref(val(a)->q), 1) == 0; }
double vp_re_name(double a) { return a; }
void vp_identity(double a, double b, const char* l) { vp_assert(vp_re_eq(a, b), l); }
bool vp_re_same(double a, double b) { if (special(a) || special(b)) return a == b; return mpq_equal(val(a)->q, val(b)->q) != 0; }
double vp_re_min(double a, double b) { bool c; return cmpx(a, b, c) <= 0 ? a : b; } double vp_re_max(double a, double b) { bool c; return cmpx(a, b, c) >= 0 ? a : b; } double vp_re_abs(double a) { if (special(a)) return std::fabs(a); Q *x = val(a), *r = newq(); mpq_abs(r->q, x->q); r->approx = x->approx; return box(r); }
double vp_re_fun(const char* f, double a) { Q *x = val(a), *r = newq(); mpfr_t v; mpfr_init2(v, 400); mpfr_set_q(v, x->q, MPFR_RNDN); std::string n = f; if (n == "exp") mpfr_exp(v, v, MPFR_RNDN); else if (n == "log") mpfr_log(v, v, MPFR_RNDN); else if (n == "sin") mpfr_sin(v, v, MPFR_RNDN); else if (n == "cos") mpfr_cos(v, v, MPFR_RNDN); else if (n == "tan") mpfr_tan(v, v, MPFR_RNDN); else if (n == "atan") mpfr_atan(v, v, MPFR_RNDN); else if (n == "asin") mpfr_asin(v, v, MPFR_RNDN); else if (n == "acos") mpfr_acos(v, v, MPFR_RNDN); else if (n == "sqrt") mpfr_sqrt(v, v, MPFR_RNDN); else throw Skip(); if (!mpfr_number_p(v)) { mpfr_clear(v); throw Skip(); } if (mpfr_zero_p(v)) mpq_set_ui(r->q, 0, 1); else { if (mpfr_get_exp(v) > 100000 || mpfr_get_exp(v) < -100000) throw Skip(); mpfr_get_q(r->q, v); } r->approx = true; mpfr_clear(v); return box(r); }
double vp_re_round(int m, int p, double a) { if (special(a)) return a; Q *x = val(a), *r = newq(); mpfr_t v; mpfr_init2(v, p); static const mpfr_rnd_t M[] = {MPFR_RNDN, MPFR_RNDD, MPFR_RNDU, MPFR_RNDZ}; mpfr_set_q(v, x->q, M[m & 3]); if (!mpfr_number_p(v)) { mpfr_clear(v); throw Skip(); } if (!mpfr_zero_p(v)) mpfr_get_q(r->q, v); r->approx = x->approx; mpfr_clear(v); return box(r); }
double vp_re_pi() { Q* r = newq(); mpfr_t v; mpfr_init2(v, 400); mpfr_const_pi(v, MPFR_RNDN); mpfr_get_q(r->q, v); mpfr_clear(v); r->approx = true; return box(r); }
double vp_re_mpfr(mpfr_srcptr x) { if (mpfr_nan_p(x)) return NAN; if (mpfr_inf_p(x)) return inf2(mpfr_sgn(x)); Q* r = newq(); if (!mpfr_zero_p(x)) mpfr_get_q(r->q, x); return box(r); }
double vp_re_mpz(mpz_srcptr x) { Q* r = newq(); mpq_set_z(r->q, x); return box(r); }
double vp_re_mpq(mpq_srcptr x) { if (mpz_sgn(mpq_denref(x)) == 0) { int s = mpz_sgn(mpq_numref(x)); return s ? inf2(s) : NAN; } Q* r = newq(); mpq_set(r->q, x); mpq_canonicalize(r->q); return box(r); }
double vp_re_mpf(mpf_srcptr x) { if (x->_mp_size == 0 && x->_mp_exp != 0) return x->_mp_exp == __LONG_MAX__ * -1L - 1 ? NAN : inf2(x->_mp_exp > 0 ? 1 : -1); Q* r = newq(); mpq_set_f(r->q, x); return box(r); }
bool vp_mpq_canonical(mpq_srcptr x) { mpz_t g; mpz_init(g); mpz_gcd(g, mpq_numref(x), mpq_denref(x)); bool ok = mpz_cmp_ui(g, 1) == 0 && mpz_sgn(mpq_denref(x)) > 0; mpz_clear(g); return ok; }
bool vp_dbl_finite(double d) { return boxed(d) || std::isfinite(d); } bool vp_dbl_isnan(double d) { return !boxed(d) && std::isnan(d); } int vp_dbl_infsign(double d) { return !boxed(d) && std::isinf(d) ? (d > 0 ? 1 : -1) : 0; }
bool vp_and(bool a, bool b) { return a && b; } bool vp_or(bool a, bool b) { return a || b; } bool vp_not(bool a) { return !a; } bool vp_implies(bool a, bool b) { return !a || b; } bool vp_iff(bool a, bool b) { return a == b; }
}
static double nowd() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void dump(std::ostream& o, const std::string& label) { o << label << "\n"; for (auto& u : used) o << u.name << " " << u.val << "\n"; }
static void (*specfn)();
static int once(std::string& label) {
  used.clear(); gpos.clear(); maythrow = false; anyAssert = false; for (auto* q : tab) { mpq_clear(q->q); delete q; } tab.clear(); fesetround(FE_TONEAREST);
  int rc = 0;
  try { specfn(); rc = anyAssert ? 1 : 0; } catch (Skip&) { rc = 0; } catch (Viol& v) { label = v.label; rc = 2; } catch (std::exception& e) { if (!maythrow) { label = std::string("no-exception"); std::cerr << "exception: " << e.what() << "\n"; rc = 2; } } catch (...) { if (!maythrow) { label = "no-exception"; rc = 2; } }
  fesetround(FE_TONEAREST); return rc;
}
// usage: native SPEC --replay FILE | --random SECONDS SEED ; FILE: "name value" lines ; exit 0 ok, 1 violation (inputs printed), 3 crash
int main(int argc, char** argv) {
  std::string spec = argv[1], mode = argv[2]; specfn = (void (*)())dlsym(RTLD_DEFAULT, ("vpspec_" + spec).c_str()); if (!specfn) { std::cerr << "no spec\n"; return 9; }
  double secs = 0; uint64_t seed = 1; std::string want; if (getenv("VP_QUIET")) quiet = true; if (getenv("VP_LOUD")) quiet = false;
  if (mode == "--replay") { std::ifstream f(argv[3]); std::string line; while (std::getline(f, line)) { std::istringstream is(line); std::string n, v; if (is >> n >> v) given[n].push_back(v); } if (argc > 4) secs = atof(argv[4]); if (argc > 5) seed = strtoull(argv[5], 0, 10); }
  else { secs = atof(argv[3]); seed = strtoull(argv[4], 0, 10); }
  int pfd[2]; if (pipe(pfd)) return 9;
  pid_t pid = fork();
  if (pid == 0) {
    close(pfd[0]); rng.seed(seed * 7919 + 17); double t0 = nowd(); uint64_t n = 0, eff = 0; std::string label; std::ostringstream out;
    struct W { static void flush(int fd, const std::string& s) { const char* p = s.c_str(); size_t n = s.size(); while (n) { ssize_t k = write(fd, p, n); if (k <= 0) break; p += k; n -= k; } } };
    auto fin = [&](int rc) { W::flush(pfd[1], out.str()); _exit(rc); };
    do { if (mode == "--replay") perturb = n == 0 ? 0 : n < 3000 ? 1 : 2; else perturb = 0; alarm(30); int rc = once(label); n++; if (rc >= 1) eff++; if (rc == 2) { dump(out, "VIOLATED " + label); out << "#runs " << n << " effective " << eff << "\n"; fin(1); } } while (nowd() - t0 < secs);
    out << "#runs " << n << " effective " << eff << "\n"; fin(0);
  }
  close(pfd[1]); std::string o; char buf[4096]; ssize_t k; while ((k = read(pfd[0], buf, 4096)) > 0) o.append(buf, k); int st; waitpid(pid, &st, 0); std::cout << o; if (WIFEXITED(st)) return WEXITSTATUS(st);
  std::cout << "CRASH signal " << WTERMSIG(st) << "\n"; return WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGILL || WTERMSIG(st) == SIGKILL ? 4 : 3; // SIGILL: reached code outside the linked sources
}
