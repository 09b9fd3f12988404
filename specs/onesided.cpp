// VP-PROPERTY: N05
// VP-SOURCES: source/numeric/float_ball.cpp source/numeric/float_bounds.cpp source/numeric/float_error.cpp source/numeric/float_upper_bound.cpp source/numeric/float_lower_bound.cpp source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp source/numeric/dyadic.cpp source/numeric/integer.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/logical.cpp
// VP-BOUND: exponents of powers of positive bounds between 0 and 4
#include "aspec.hpp"
using namespace vp; using namespace Ariadne;
// one-sided bounds and the numbers they bound
template<class F> LowerBound<F> fresh_lower(const char* n) { return LowerBound<F>(fresh<F>(n)); }
template<class F> UpperBound<F> fresh_upper(const char* n) { return UpperBound<F>(fresh<F>(n)); }
template<class F> PositiveLowerBound<F> fresh_plower(const char* n, bool strict = true) { F x = fresh<F>(n); require(strict ? re(x) > R(0) : re(x) >= R(0)); return PositiveLowerBound<F>(x); }
template<class F> PositiveUpperBound<F> fresh_pupper(const char* n) { F x = fresh<F>(n); require(re(x) >= R(0)); return PositiveUpperBound<F>(x); }
template<class F> Error<F> fresh_error(const char* n) { F x = fresh<F>(n); require(re(x) >= R(0)); return Error<F>(x); }
template<class F> Positive<F> fresh_positive(const char* n) { F x = fresh<F>(n); require(re(x) > R(0)); return cast_positive(x); }
template<class F> PositiveBounds<F> fresh_pbounds(const char* l, const char* u) { Bounds<F> b = fresh_bounds<F>(l, u); require(lo(b) > R(0)); return cast_positive(b); }
template<class F> B ok(R x, LowerBound<F> const& b) { return re(b.raw()) <= x; }
template<class F> B ok(R x, UpperBound<F> const& b) { return x <= re(b.raw()); }
template<class F> B ok(R x, Error<F> const& b) { return x <= re(b.raw()); }
template<class F> B ok(R x, Bounds<F> const& b) { return in(x, b); }
template<class T> R bounded(T const& b, const char* n) { R x = fresh_real(n); require(ok(x, b)); return x; }
template<class T> R pbounded(T const& b, const char* n) { R x = bounded(b, n); require(x >= R(0)); return x; }
template<class T> R sbounded(T const& b, const char* n) { R x = bounded(b, n); require(x > R(0)); return x; }

SPEC_F(one_lower) { AnyMode m; auto a = fresh_lower<F>("a"), b = fresh_lower<F>("b"); auto c = fresh_upper<F>("c"); R x = bounded(a, "x"), y = bounded(b, "y"), z = bounded(c, "z");
  ensure(ok(R(0), nul(a)) , "nul"); ensure(ok(x, pos(a)) , "pos"); ensure(ok(-x, neg(a)), "neg of lower bound is an upper bound"); ensure(ok(x / R(2), hlf(a)), "hlf"); ensure(ok(x + y, add(a, b)), "add"); ensure(ok(x - z, sub(a, c)), "sub of upper bound"); ensure(ok(rmax(x, y), max(a, b)), "max"); ensure(ok(rmin(x, y), min(a, b)), "min");
  ensure(ok(x + y, a + b), "operator +"); ensure(ok(x - z, a - c), "operator -"); ensure(ok(-x, -a), "unary operator -"); ensure(ok(x, +a), "unary operator +"); auto d = a; d += b; ensure(ok(x + y, d), "operator +="); d = a; d -= c; ensure(ok(x - z, d), "operator -="); m.restored(); vp_cover("end"); }
SPEC_F(one_upper) { AnyMode m; auto a = fresh_upper<F>("a"), b = fresh_upper<F>("b"); auto c = fresh_lower<F>("c"); R x = bounded(a, "x"), y = bounded(b, "y"), z = bounded(c, "z");
  ensure(ok(R(0), nul(a)) , "nul"); ensure(ok(x, pos(a)) , "pos"); ensure(ok(-x, neg(a)), "neg of upper bound is a lower bound"); ensure(ok(x / R(2), hlf(a)), "hlf"); ensure(ok(x + y, add(a, b)), "add"); ensure(ok(x - z, sub(a, c)), "sub of lower bound"); ensure(ok(rmax(x, y), max(a, b)), "max"); ensure(ok(rmin(x, y), min(a, b)), "min");
  ensure(ok(x + y, a + b), "operator +"); ensure(ok(x - z, a - c), "operator -"); ensure(ok(-x, -a), "unary operator -"); ensure(ok(x, +a), "unary operator +"); auto d = a; d += b; ensure(ok(x + y, d), "operator +="); d = a; d -= c; ensure(ok(x - z, d), "operator -="); m.restored(); vp_cover("end"); }
SPEC_F(one_info) { auto a = fresh_lower<F>("a"), b = fresh_lower<F>("b"); R x = fresh_real("x"); bool f = refines(a, b), s = same(a, b); auto r = refinement(a, b); ensure(implies(ok(x, a) & ok(x, b), ok(x, r)), "refinement of lower bounds"); ensure(implies(ok(x, r), ok(x, a) & ok(x, b)), "refinement of lower bounds is no weaker"); ensure(implies(ok(x, a) & f, ok(x, b)), "refines for lower bounds"); ensure(implies(s, re(a.raw()) == re(b.raw())), "same lower bounds");
  auto c = fresh_upper<F>("c"), d = fresh_upper<F>("d"); bool g = refines(c, d), t = same(c, d); auto q = refinement(c, d); ensure(implies(ok(x, c) & ok(x, d), ok(x, q)), "refinement of upper bounds"); ensure(implies(ok(x, q), ok(x, c) & ok(x, d)), "refinement of upper bounds is no weaker"); ensure(implies(ok(x, c) & g, ok(x, d)), "refines for upper bounds"); ensure(implies(t, re(c.raw()) == re(d.raw())), "same upper bounds");
  auto e1 = fresh_error<F>("e1"), e2 = fresh_error<F>("e2"); bool h = refines(e1, e2); auto e = refinement(e1, e2); ensure(implies(ok(x, e1) & ok(x, e2), ok(x, e)), "refinement of errors"); ensure(implies(ok(x, e1) & h, ok(x, e2)), "refines for errors"); vp_cover("end"); }
SPEC_F(one_compare) { auto a = fresh_lower<F>("a"); auto b = fresh_upper<F>("b"); R x = bounded(a, "x"), y = bounded(b, "y");
  ensure(implies(definitely(lt(b, a)), y < x), "lt(upper,lower) definite"); ensure(implies(!possibly(lt(a, b)), !(x < y)), "lt(lower,upper) refuted"); ensure(implies(!possibly(eq(a, b)), x != y), "eq(lower,upper) refuted"); ensure(implies(!possibly(eq(b, a)), x != y), "eq(upper,lower) refuted");
  ensure(implies(definitely(b < a), y < x), "upper < lower"); ensure(implies(!possibly(a < b), !(x < y)), "lower < upper"); ensure(implies(definitely(a > b), x > y), "lower > upper"); ensure(implies(!possibly(b > a), !(y > x)), "upper > lower"); ensure(implies(definitely(b <= a), y <= x), "upper <= lower"); ensure(implies(!possibly(a <= b), !(x <= y)), "lower <= upper"); ensure(implies(definitely(a >= b), x >= y), "lower >= upper"); ensure(implies(!possibly(b >= a), !(y >= x)), "upper >= lower"); ensure(implies(!possibly(a == b), x != y), "lower == upper"); ensure(implies(definitely(a != b), x != y), "lower != upper"); ensure(implies(definitely(b != a), x != y), "upper != lower"); vp_cover("end"); }
SPEC_F(one_lower_scaled) { AnyMode m; auto a = fresh_lower<F>("a"); auto p = fresh_pbounds<F>("pl", "pu"); auto q = fresh_positive<F>("q"); R x = bounded(a, "x"), y = bounded(static_cast<Bounds<F> const&>(p), "y"), z = re(q);
  ensure(ok(x * y, a * p), "lower * positive bounds"); ensure(ok(y * x, p * a), "positive bounds * lower"); ensure(ok(x / y, a / p), "lower / positive bounds"); ensure(ok(x * z, a * q), "lower * positive"); ensure(ok(z * x, q * a), "positive * lower"); ensure(ok(x / z, a / q), "lower / positive"); m.restored(); vp_cover("end"); }
SPEC_F(one_upper_scaled) { AnyMode m; auto a = fresh_upper<F>("a"); auto p = fresh_pbounds<F>("pl", "pu"); auto q = fresh_positive<F>("q"); R x = bounded(a, "x"), y = bounded(static_cast<Bounds<F> const&>(p), "y"), z = re(q);
  ensure(ok(x * y, a * p), "upper * positive bounds"); ensure(ok(y * x, p * a), "positive bounds * upper"); ensure(ok(x / y, a / p), "upper / positive bounds"); ensure(ok(x * z, a * q), "upper * positive"); ensure(ok(z * x, q * a), "positive * upper"); ensure(ok(x / z, a / q), "upper / positive"); m.restored(); vp_cover("end"); }
SPEC_F(one_plower) { AnyMode m; auto a = fresh_plower<F>("a"), b = fresh_plower<F>("b"); R x = bounded(a, "x"), y = bounded(b, "y"); auto l = fresh_lower<F>("l"); R w = bounded(l, "w");
  ensure(ok(R(0), nul(a)), "nul"); ensure(ok(x, pos(a)), "pos"); ensure(ok(x * x, sqr(a)), "sqr"); ensure(ok(x + y, add(a, b)), "add"); ensure(ok(x * y, mul(a, b)), "mul"); ensure(ok(rmax(x, y), max(a, b)), "max"); ensure(ok(rmin(x, y), min(a, b)), "min"); ensure(ok(rmax(x, w), max(a, l)), "max with lower"); ensure(ok(rmax(w, x), max(l, a)), "max of lower with");
  ensure(ok(x + y, a + b), "operator +"); ensure(ok(x * y, a * b), "operator *"); auto c = a; c += b; ensure(ok(x + y, c), "operator +="); c = a; c *= b; ensure(ok(x * y, c), "operator *="); ensure(ok(R(1) / x, rec(a)), "rec of lower bound is an upper bound"); m.restored(); vp_cover("end"); }
SPEC_F(one_pupper) { AnyMode m; auto a = fresh_pupper<F>("a"), b = fresh_pupper<F>("b"); R x = pbounded(a, "x"), y = pbounded(b, "y"); auto l = fresh_upper<F>("l"); R w = bounded(l, "w");
  ensure(ok(R(0), nul(a)), "nul"); ensure(ok(x, pos(a)), "pos"); ensure(ok(x * x, sqr(a)), "sqr"); ensure(ok(x + y, add(a, b)), "add"); ensure(ok(x * y, mul(a, b)), "mul"); ensure(ok(rmax(x, y), max(a, b)), "max"); ensure(ok(rmin(x, y), min(a, b)), "min"); ensure(ok(rmax(x, w), max(a, l)), "max with upper"); ensure(ok(rmax(w, x), max(l, a)), "max of upper with");
  ensure(ok(x + y, a + b), "operator +"); ensure(ok(x * y, a * b), "operator *"); auto c = a; c += b; ensure(ok(x + y, c), "operator +="); c = a; c *= b; ensure(ok(x * y, c), "operator *="); m.restored(); vp_cover("end"); }
SPEC_F(one_prec) { AnyMode m; auto a = fresh_pupper<F>("a"); R x = sbounded(a, "x"); ensure(ok(R(1) / x, rec(a)), "rec of upper bound is a lower bound"); m.restored(); vp_cover("end"); }
SPEC_F(one_pdiv_lower) { AnyMode m; auto a = fresh_plower<F>("a"); auto b = fresh_pupper<F>("b"); R x = bounded(a, "x"), y = sbounded(b, "y"); auto p = fresh_pbounds<F>("pl", "pu"); auto q = fresh_positive<F>("q"); R v = bounded(static_cast<Bounds<F> const&>(p), "v"), w = re(q);
  ensure(ok(x / y, div(a, b)), "div"); ensure(ok(x / y, a / b), "operator /"); auto c = a; c /= b; ensure(ok(x / y, c), "operator /="); ensure(ok(x / v, a / p), "/ positive bounds"); ensure(ok(x / w, a / q), "/ positive"); ensure(ok(w / y, q / b), "positive / upper"); ensure(ok(x * v, a * p), "* positive bounds"); ensure(ok(v * x, p * a), "positive bounds *"); ensure(ok(x * w, a * q), "* positive"); ensure(ok(w * x, q * a), "positive *"); m.restored(); vp_cover("end"); }
SPEC_F(one_pdiv_upper) { AnyMode m; auto a = fresh_pupper<F>("a"); auto b = fresh_plower<F>("b"); R x = pbounded(a, "x"), y = bounded(b, "y"); auto p = fresh_pbounds<F>("pl", "pu"); auto q = fresh_positive<F>("q"); R v = bounded(static_cast<Bounds<F> const&>(p), "v"), w = re(q);
  ensure(ok(x / y, div(a, b)), "div"); ensure(ok(x / y, a / b), "operator /"); auto c = a; c /= b; ensure(ok(x / y, c), "operator /="); ensure(ok(x / v, a / p), "/ positive bounds"); ensure(ok(x / w, a / q), "/ positive"); ensure(ok(w / y, q / b), "positive / lower"); ensure(ok(x * v, a * p), "* positive bounds"); ensure(ok(v * x, p * a), "positive bounds *"); ensure(ok(x * w, a * q), "* positive"); ensure(ok(w * x, q * a), "positive *"); m.restored(); vp_cover("end"); }
SPEC_F(one_pnat) { AnyMode m(2, 2); Nat n = (Nat)vp_choice("n", 1, 9); auto a = fresh_plower<F>("a"); auto b = fresh_pupper<F>("b"); R x = bounded(a, "x"), y = pbounded(b, "y"); R k((double)n); ensure(ok(x / k, a / n), "lower / natural"); ensure(ok(y / k, b / n), "upper / natural"); m.restored(); vp_cover("end"); }
SPEC_F(one_ppow) { AnyMode m(2, 2); Nat n = (Nat)vp_choice("n", 0, 4); auto a = fresh_plower<F>("a"); auto b = fresh_pupper<F>("b"); auto e = fresh_error<F>("e"); R x = bounded(a, "x"), y = pbounded(b, "y"), z = pbounded(e, "z"); ensure(ok(rpow(x, n), pow(a, n)), "pow of lower"); ensure(ok(rpow(y, n), pow(b, n)), "pow of upper"); ensure(ok(rpow(z, n), pow(e, n)), "pow of error"); m.restored(); vp_cover("end"); }
SPEC_F(one_error) { AnyMode m; auto a = fresh_error<F>("a"), b = fresh_error<F>("b"), c = fresh_error<F>("c"); R x = pbounded(a, "x"), y = pbounded(b, "y"), z = pbounded(c, "z");
  ensure(ok(x + y, a + b), "operator +"); ensure(ok(x * y, a * b), "operator *"); auto d = a; d += b; ensure(ok(x + y, d), "operator +="); d = a; d *= b; ensure(ok(x * y, d), "operator *="); d = a; d += d; ensure(ok(x + x, d), "operator += aliased"); d = a; d *= d; ensure(ok(x * x, d), "operator *= aliased");
  ensure(ok(x + y, add(a, b)), "add"); ensure(ok(x * y, mul(a, b)), "mul"); ensure(ok(x * x, sqr(a)), "sqr"); ensure(ok(x * y + z, fma(a, b, c)), "fma"); ensure(ok(rmax(x, y), max(a, b)), "max"); ensure(ok(rmin(x, y), min(a, b)), "min"); ensure(ok(R(0), nul(a)), "nul"); ensure(ok(x, pos(a)), "pos"); ensure(ok(-x, neg(a)), "neg"); ensure(ok(x, +a), "unary +"); ensure(ok(-x, -a), "unary -"); ensure(ok(x, abs(a)), "abs"); ensure(ok(x, mag(a)), "mag"); m.restored(); vp_cover("end"); }
SPEC_F(one_error_mixed) { AnyMode m; auto a = fresh_error<F>("a"); R x = pbounded(a, "x"); F f = fresh<F>("f"); R v = re(f); auto q = fresh_positive<F>("q"); R w = re(q); auto p = fresh_pbounds<F>("pl", "pu"); R y = bounded(static_cast<Bounds<F> const&>(p), "y"); auto u = fresh_pupper<F>("u"); R z = pbounded(u, "z"); auto l = fresh_plower<F>("l"); R t = bounded(l, "t");
  ensure(ok(v + x, f + a), "value + error"); ensure(ok(v - x, f - a), "value - error"); ensure(in(x, pm(a)) & in(-x, pm(a)), "pm"); ensure(ok(x + w, a + q), "error + positive"); ensure(ok(w + x, q + a), "positive + error"); ensure(ok(x * w, a * q), "error * positive"); ensure(ok(w * x, q * a), "positive * error");
  ensure(ok(x + y, a + p), "error + positive bounds"); ensure(ok(y + x, p + a), "positive bounds + error"); ensure(ok(x * y, a * p), "error * positive bounds"); ensure(ok(y * x, p * a), "positive bounds * error"); ensure(ok(x + z, a + u), "error + positive upper"); ensure(ok(z + x, u + a), "positive upper + error"); ensure(ok(x * z, a * u), "error * positive upper"); ensure(ok(z * x, u * a), "positive upper * error"); ensure(ok(x / t, a / l), "error / positive lower"); ensure(ok(y - x, p - a), "positive bounds - error");
  auto c = a; c += u; ensure(ok(x + z, c), "+= positive upper"); c = a; c += p; ensure(ok(x + y, c), "+= positive bounds"); c = a; c += q; ensure(ok(x + w, c), "+= positive"); c = a; c *= u; ensure(ok(x * z, c), "*= positive upper"); c = a; c *= p; ensure(ok(x * y, c), "*= positive bounds"); c = a; c *= q; ensure(ok(x * w, c), "*= positive"); m.restored(); vp_cover("end"); }
SPEC_F(one_error_nat) { AnyMode m(2, 2); Nat n = (Nat)vp_choice("n", 1, 9); auto a = fresh_error<F>("a"); R x = pbounded(a, "x"); R k((double)n); ensure(ok(x + k, a + n), "error + natural"); ensure(ok(k + x, n + a), "natural + error"); ensure(ok(x * k, a * n), "error * natural"); ensure(ok(k * x, n * a), "natural * error"); ensure(ok(x / k, a / n), "error / natural"); m.restored(); vp_cover("end"); }
SPEC_F(one_convert) { AnyMode m; auto b = fresh_bounds<F>("l", "u"); R x = vp::member(b, "x"); LowerBound<F> l(b); UpperBound<F> u(b); ensure(ok(x, l) & ok(x, u), "bounds to one-sided"); ensure(ok(x, b.lower()) & ok(x, b.upper()), "lower and upper parts"); auto p = fresh_pbounds<F>("pl", "pu"); R y = bounded(static_cast<Bounds<F> const&>(p), "y"); Error<F> e(p); ensure(ok(y, e), "positive bounds to error"); PositiveUpperBound<F> pu(p); PositiveLowerBound<F> pl(p); ensure(ok(y, pu) & ok(y, pl), "positive bounds to positive one-sided"); auto er = fresh_error<F>("e"); R z = pbounded(er, "z"); UpperBound<F> uu(er); ensure(ok(z, uu), "error to upper"); Error<F> e2(fresh_pupper<F>("pu2")); auto q = fresh_positive<F>("q"); Error<F> e3(q); ensure(ok(re(q), e3), "positive value to error"); m.restored(); vp_cover("end"); }
SPEC(one_reprec) { FloatMP a = fresh_mp("a", 96), b = fresh_mp("b", 96); MultiplePrecision pr(64); R x = fresh_real("x"); require(re(a) <= x); require(x <= re(b)); Bounds<FloatMP> ab(a, b);
  ensure(ok(x, LowerBound<FloatMP>(LowerBound<FloatMP>(a), pr)), "lower to lower of lower precision"); ensure(ok(x, LowerBound<FloatMP>(a, pr)), "value to lower of lower precision"); ensure(ok(x, LowerBound<FloatMP>(ab, pr)), "bounds to lower of lower precision"); ensure(ok(x, UpperBound<FloatMP>(UpperBound<FloatMP>(b), pr)), "upper to upper of lower precision"); ensure(ok(x, UpperBound<FloatMP>(b, pr)), "value to upper of lower precision"); ensure(ok(x, UpperBound<FloatMP>(ab, pr)), "bounds to upper of lower precision");
  ensure(ok(x, LowerBound<FloatDP>(LowerBound<FloatMP>(a), dp)), "multiple precision lower to double"); ensure(ok(x, UpperBound<FloatDP>(UpperBound<FloatMP>(b), dp)), "multiple precision upper to double"); vp_cover("end"); }
SPEC_F(one_exact) { Integer z = fresh_integer("z"); Dyadic w = fresh_dyadic("w"); Rational q = fresh_rational("q"); auto pr = prec<F>(); ensure(ok(re(z), LowerBound<F>(z, pr)) & ok(re(z), UpperBound<F>(z, pr)), "from integer"); ensure(ok(re(w), LowerBound<F>(w, pr)) & ok(re(w), UpperBound<F>(w, pr)), "from dyadic"); ensure(ok(re(q), LowerBound<F>(q, pr)) & ok(re(q), UpperBound<F>(q, pr)), "from rational"); vp_cover("end"); }
#define FUNC(op, pre) SPEC(one_##op##_mp) { typedef FloatMP F; auto a = fresh_lower<F>("a"); auto b = fresh_pupper<F>("b"); R x = bounded(a, "x"), y = pbounded(b, "y"); require(pre(re(a.raw()))); require(pre(y)); ensure(ok(fun(#op, x), op(a)), #op " of lower"); ensure(ok(fun(#op, y), op(b)), #op " of upper"); vp_cover("end"); }
static B any(R) { return true; } static B pos_(R x) { return x > R(0); }
FUNC(sqrt, pos_) FUNC(exp, any) FUNC(log, pos_) FUNC(atan, any)
SPEC(one_error_fun_mp) { typedef FloatMP F; auto a = fresh_error<F>("a"); R x = pbounded(a, "x"); ensure(ok(fun("sqrt", x), sqrt(a)), "sqrt of error"); ensure(ok(fun("exp", x), exp(a)), "exp of error"); require(x > R(0)); ensure(ok(fun("log", x), log(a)), "log of error"); vp_cover("end"); }
