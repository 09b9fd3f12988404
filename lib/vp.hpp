// Specification language used by the contract files in /verif/specs.
// Ghost values are exact reals. For the verifier every vp_* call is a primitive; natively they
// are implemented by vp_native.cpp over GMP rationals (used to replay counterexamples).
#pragma once
#include <gmp.h>
#include <mpfr.h>
extern "C" {
double vp_fresh_dp(const char*); double vp_fresh_real(const char*); long vp_fresh_int(const char*, long, long); long vp_choice(const char*, long, long);
void vp_fresh_mpfr(mpfr_ptr, const char*); void vp_fresh_mpz(mpz_ptr, const char*); void vp_fresh_mpq(mpq_ptr, const char*); void vp_fresh_mpf(mpf_ptr, const char*);
void vp_assume(bool); void vp_assert(bool, const char*); void vp_cover(const char*); void vp_check_feasible(); void vp_may_throw(); void vp_no_throw();
int vp_rounding_mode(); void vp_set_rounding_mode(int);
void vp_print(const char*); void vp_printd(const char*, double); void vp_printi(const char*, long);
double vp_re_add(double, double); double vp_re_sub(double, double); double vp_re_mul(double, double); double vp_re_div(double, double); double vp_re_neg(double);
bool vp_re_lt(double, double); bool vp_re_le(double, double); bool vp_re_eq(double, double);
bool vp_re_same(double, double); void vp_identity(double, double, const char*); double vp_re_int(long); double vp_re_floor(double); bool vp_re_isint(double); double vp_re_min(double, double); double vp_re_max(double, double); double vp_re_abs(double); double vp_re_name(double);
double vp_re_fun(const char*, double); double vp_re_pi(); double vp_re_round(int, int, double);
double vp_re_mpfr(mpfr_srcptr); double vp_re_mpz(mpz_srcptr); double vp_re_mpq(mpq_srcptr); double vp_re_mpf(mpf_srcptr); bool vp_mpq_canonical(mpq_srcptr);
bool vp_dbl_finite(double); bool vp_dbl_isnan(double); int vp_dbl_infsign(double);
bool vp_and(bool, bool); bool vp_or(bool, bool); bool vp_not(bool); bool vp_implies(bool, bool); bool vp_iff(bool, bool);
}
namespace vp {
struct B { bool b; B(bool x) : b(x) {} };
inline B operator&(B x, B y) { return B(vp_and(x.b, y.b)); }
inline B operator|(B x, B y) { return B(vp_or(x.b, y.b)); }
inline B operator!(B x) { return B(vp_not(x.b)); }
inline B implies(B x, B y) { return B(vp_implies(x.b, y.b)); }
inline B iff(B x, B y) { return B(vp_iff(x.b, y.b)); }
inline void require(B x) { vp_assume(x.b); }
inline void ensure(B x, const char* l) { vp_assert(x.b, l); }
// exact (extended) real
struct R { double h; explicit R(double x) : h(x) {} R(int n) : h(vp_re_int(n)) {} R(long n) : h(vp_re_int(n)) {} };
inline R operator+(R x, R y) { return R(vp_re_add(x.h, y.h)); }
inline R operator-(R x, R y) { return R(vp_re_sub(x.h, y.h)); }
inline R operator*(R x, R y) { return R(vp_re_mul(x.h, y.h)); }
inline R operator/(R x, R y) { return R(vp_re_div(x.h, y.h)); }
inline R operator-(R x) { return R(vp_re_neg(x.h)); }
inline B operator<(R x, R y) { return B(vp_re_lt(x.h, y.h)); }
inline B operator<=(R x, R y) { return B(vp_re_le(x.h, y.h)); }
inline B operator>(R x, R y) { return B(vp_re_lt(y.h, x.h)); }
inline B operator>=(R x, R y) { return B(vp_re_le(y.h, x.h)); }
inline B operator==(R x, R y) { return B(vp_re_eq(x.h, y.h)); }
inline B operator!=(R x, R y) { return !B(vp_re_eq(x.h, y.h)); }
inline R rmin(R x, R y) { return R(vp_re_min(x.h, y.h)); }
inline R rmax(R x, R y) { return R(vp_re_max(x.h, y.h)); }
inline R rabs(R x) { return R(vp_re_abs(x.h)); }
// whether the verifier has the same term for both (decided at once; equal values may be different terms)
inline bool same_term(R x, R y) { return vp_re_same(x.h, y.h); }
// an obligation that two rational functions of the unknowns are equal
inline void identity(R x, R y, const char* l) { vp_identity(x.h, y.h, l); }
// the same value, as an opaque name for the solver
inline R named(R x) { return R(vp_re_name(x.h)); }
inline R rfloor(R x) { return R(vp_re_floor(x.h)); }
inline B risint(R x) { return B(vp_re_isint(x.h)); }
inline R rpow(R x, unsigned n) { R r(1); for (unsigned i = 0; i != n; ++i) r = r * x; return r; }
inline R fun(const char* f, R x) { return R(vp_re_fun(f, x.h)); }
// correctly rounded value: mode 0 nearest (ties unspecified), 1 down, 2 up; p-bit significand, unbounded exponent
inline R rounded(int mode, int prec, R x) { return R(vp_re_round(mode, prec, x.h)); }
inline R pi() { return R(vp_re_pi()); }
inline R fresh_real(const char* n) { return R(vp_fresh_real(n)); }
inline B finite(R x) { return B(vp_dbl_finite(x.h)); }
}
