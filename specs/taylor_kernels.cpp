// VP-PROPERTY: T01
// VP-BOUND: integer factors and divisors of interval coefficients between 1 and 5 (of plain coefficients: all up to 65535)
// VP-SOURCES: source/geometry/interval.cpp source/numeric/number.cpp source/numeric/real.cpp source/numeric/float_bounds.cpp source/numeric/float_ball.cpp source/numeric/float_upper_bound.cpp source/numeric/float_lower_bound.cpp source/numeric/float_approximation.cpp source/numeric/float_error.cpp source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp source/numeric/dyadic.cpp source/numeric/integer.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/logical.cpp
// Arithmetic on coefficients with the rounding error accumulated in a uniform error bound: for all values, no bound.
#include "aspec.hpp"
#include "function/taylor_model.tpl.hpp"
using namespace vp; using namespace Ariadne;
template<class F> Error<F> fresh_error(const char* n) { F e = fresh<F>(n); require(re(e) >= R(0)); return Error<F>(PositiveUpperBound<F>(e)); }
// the error bound grows at least by the distance of the result to the exact value
#define GROWS(r, exact, what) ensure(re(e.raw()) >= e0 + rabs(re(r) - (exact)), what)
SPEC_F(add_err_value) { AnyMode m; F x = fresh<F>("x"), y = fresh<F>("y"); auto e = fresh_error<F>("e"); R e0 = re(e.raw()); F r = add_err(x, y, e); GROWS(r, re(x) + re(y), "add: rounding error accounted for"); vp_cover("end"); }
SPEC_F(sub_err_value) { AnyMode m; F x = fresh<F>("x"), y = fresh<F>("y"); auto e = fresh_error<F>("e"); R e0 = re(e.raw()); F r = sub_err(x, y, e); GROWS(r, re(x) - re(y), "sub: rounding error accounted for"); vp_cover("end"); }
SPEC_F(mul_err_value) { AnyMode m; F x = fresh<F>("x"), y = fresh<F>("y"); auto e = fresh_error<F>("e"); R e0 = re(e.raw()); F r = mul_err(x, y, e); GROWS(r, re(x) * re(y), "mul: rounding error accounted for"); vp_cover("end"); }
SPEC_F(div_err_value) { AnyMode m; F x = fresh<F>("x"), y = fresh<F>("y"); require(re(y) != R(0)); auto e = fresh_error<F>("e"); R e0 = re(e.raw()); F r = div_err(x, y, e); GROWS(r, re(x) / re(y), "div: rounding error accounted for"); vp_cover("end"); }
SPEC_F(mul_err_nat) { AnyMode m; F x = fresh<F>("x"); Nat n = (Nat)vp_fresh_int("n", 0, 65535); auto e = fresh_error<F>("e"); R e0 = re(e.raw()); F r = mul_err(x, n, e); GROWS(r, re(x) * R((long)n), "mul by integer: rounding error accounted for"); vp_cover("end"); }
SPEC_F(div_err_nat) { AnyMode m; F x = fresh<F>("x"); Nat n = (Nat)vp_fresh_int("n", 1, 65535); auto e = fresh_error<F>("e"); R e0 = re(e.raw()); F r = div_err(x, n, e); GROWS(r, re(x) / R((long)n), "div by integer: rounding error accounted for"); vp_cover("end"); }
SPEC_F(fma_err_value) { AnyMode m; F x = fresh<F>("x"), y = fresh<F>("y"), z = fresh<F>("z"); auto e = fresh_error<F>("e"); R e0 = re(e.raw()); F r = fma_err(x, y, z, e); GROWS(r, named(re(x) * re(y)) + re(z), "fma: rounding error accounted for"); vp_cover("end"); }
SPEC_F(add_err_bounds) { AnyMode m; F x = fresh<F>("x"); auto c = fresh_bounds<F>("l", "u"); R y = member(c, "y"); auto e = fresh_error<F>("e"); R e0 = re(e.raw()); F r = add_err(x, c, e); GROWS(r, re(x) + y, "add of bounds: error accounted for"); vp_cover("end"); }
SPEC_F(mul_err_exact_bounds) { AnyMode m; F x = fresh<F>("x"), y = fresh<F>("y"); Bounds<F> c(y); auto e = fresh_error<F>("e"); R e0 = re(e.raw()); F r = mul_err(x, c, e); GROWS(r, re(x) * re(y), "mul by an exact factor: rounding error accounted for"); vp_cover("end"); }
SPEC_F(mul_err_bounds) { AnyMode m; F x = fresh<F>("x"); auto c = fresh_bounds<F>("l", "u"); R y = member(c, "y"); auto e = fresh_error<F>("e"); R e0 = re(e.raw()); int n = bits(x); ensure((vp::rounded(1, n, R(2) * lo(c)) == R(2) * lo(c)) & (vp::rounded(1, n, R(2) * hi(c)) == R(2) * hi(c)), "lemma: doubling is exact"); { Approximation<F> a(c); ensure((lo(c) <= re(a.raw())) & (re(a.raw()) <= hi(c)), "lemma: the approximate middle lies in the bounds"); } R xl = named(re(x) * lo(c)), xu = named(re(x) * hi(c)), xy = named(re(x) * y); F r = mul_err(x, c, e); ensure((rmin(xl, xu) <= xy) & (xy <= rmax(xl, xu)), "lemma: product between products of the ends"); ensure(re(e.raw()) >= e0 + (rmax(xl, xu) - rmin(xl, xu)) / R(2), "mul by bounds: half the width accounted for"); ensure(R(2) * (re(e.raw()) - e0) >= rabs(re(r) - xy), "mul by bounds: error accounted for up to a factor two"); vp_cover("end"); }
SPEC_F(mul_err_inexact) { AnyMode m(2, 2); F x = fresh<F>("x"); auto c = fresh_bounds<F>("l", "u"); R y = member(c, "y"); auto e = fresh_error<F>("e"); R e0 = re(e.raw()), xy = named(re(x) * y); F r = mul_err(x, c, e); ensure(re(e.raw()) >= e0 + rabs(re(r) - xy), "mul by inexact bounds: error accounted for"); vp_cover("end"); }
SPEC_F(set_err_bounds) { AnyMode m; auto c = fresh_bounds<F>("l", "u"); R y = member(c, "y"); auto e = fresh_error<F>("e"); R e0 = re(e.raw()); F r = set_err(c, e); GROWS(r, y, "value of bounds: error accounted for"); vp_cover("end"); }
// coefficients which are themselves enclosures
SPEC_F(bounds_coefficients) { AnyMode m(2, 2); auto a = fresh_bounds<F>("l1", "u1"), b = fresh_bounds<F>("l2", "u2"); R x = member(a, "x"), y = member(b, "y"); auto e = fresh_error<F>("e"); R e0 = re(e.raw()); int k = (int)vp_choice("op", 0, 2); Bounds<F> r = k == 0 ? add_err(a, b, e) : k == 1 ? sub_err(a, b, e) : mul_err(a, b, e); ensure(in(k == 0 ? x + y : k == 1 ? x - y : x * y, r), "operation on enclosing coefficients encloses"); ensure(re(e.raw()) >= e0, "error not decreased"); vp_cover("end"); }
template<class F> B in(R x, UpperInterval<F> const& i) { return (re(i.lower_bound().raw()) <= x) & (x <= re(i.upper_bound().raw())); }
template<class F> UpperInterval<F> fresh_ivl(const char* l, const char* u) { auto b = fresh_bounds<F>(l, u); return UpperInterval<F>(LowerBound<F>(b.lower_raw()), UpperBound<F>(b.upper_raw())); }
SPEC_F(interval_coefficients) { AnyMode m(2, 2); auto a = fresh_ivl<F>("l1", "u1"), b = fresh_ivl<F>("l2", "u2"); R x = fresh_real("x"), y = fresh_real("y"); require(in<F>(x, a) & in<F>(y, b)); auto e = fresh_error<F>("e"); R e0 = re(e.raw()); int k = (int)vp_choice("op", 0, 2); UpperInterval<F> r = k == 0 ? add_err(a, b, e) : k == 1 ? sub_err(a, b, e) : mul_err(a, b, e); ensure(in<F>(k == 0 ? x + y : k == 1 ? x - y : x * y, r), "operation on interval coefficients encloses"); ensure(re(e.raw()) >= e0, "error not decreased"); vp_cover("end"); }
SPEC_F(interval_nat) { AnyMode m(2, 2); auto a = fresh_ivl<F>("l1", "u1"); R x = fresh_real("x"); require(in<F>(x, a)); Nat n = (Nat)vp_choice("n", 1, 5); auto e = fresh_error<F>("e"); int k = (int)vp_choice("op", 0, 1); UpperInterval<F> r = k == 0 ? mul_err(a, n, e) : div_err(a, n, e); R y((long)n); ensure(in<F>(k == 0 ? x * y : x / y, r), "integer multiple or quotient of interval coefficients encloses"); vp_cover("end"); }
