// VP-PROPERTY: N02
// VP-SOURCES: source/numeric/float_bounds.cpp source/numeric/float_error.cpp source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp source/numeric/dyadic.cpp source/numeric/integer.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/logical.cpp
// VP-BOUND: integer exponents of pow between -3 and 5 (quick), -5 and 9 (thorough)
// VP-BOUND: double-precision sqrt (Newton loop) is checked by native search only, not proved
#include "aspec.hpp"
using namespace vp; using namespace Ariadne;
#define UNARY(op, expr) SPEC_F(bounds_##op) { AnyMode m; auto a = fresh_bounds<F>("l", "u"); R x = member(a, "x"); auto r = op(a); m.restored(); ensure(in(expr, r), #op " encloses"); vp_cover("end"); }
#define BINARY(op, expr) SPEC_F(bounds_##op) { AnyMode m; auto a = fresh_bounds<F>("l1", "u1"), b = fresh_bounds<F>("l2", "u2"); R x = member(a, "x"), y = member(b, "y"); auto r = op(a, b); m.restored(); ensure(in(expr, r), #op " encloses"); vp_cover("end"); }
UNARY(pos, x) UNARY(neg, -x) UNARY(hlf, x / R(2)) UNARY(sqr, x * x) UNARY(abs, rabs(x)) UNARY(nul, R(0))
BINARY(add, x + y) BINARY(sub, x - y) BINARY(mul, x* y) BINARY(max, rmax(x, y)) BINARY(min, rmin(x, y)) BINARY(coarsening, x)
SPEC_F(bounds_rec) { AnyMode m; auto a = fresh_bounds<F>("l", "u"); R x = member(a, "x"); require(x != R(0)); auto r = rec(a); m.restored(); ensure(in(R(1) / x, r), "rec encloses"); vp_cover("end"); }
SPEC_F(bounds_div) { AnyMode m; auto a = fresh_bounds<F>("l1", "u1"), b = fresh_bounds<F>("l2", "u2"); R x = member(a, "x"), y = member(b, "y"); require(y != R(0)); auto r = div(a, b); m.restored(); ensure(in(x / y, r), "div encloses"); vp_cover("end"); }
SPEC_F(bounds_fma) { AnyMode m; auto a = fresh_bounds<F>("l1", "u1"), b = fresh_bounds<F>("l2", "u2"), c = fresh_bounds<F>("l3", "u3"); R x = member(a, "x"), y = member(b, "y"), z = member(c, "z"); auto r = fma(a, b, c); m.restored(); ensure(in(x * y + z, r), "fma encloses"); vp_cover("end"); }
#ifdef VP_THOROUGH
#define NLO -5
#define NHI 9
#else
#define NLO -3
#define NHI 5
#endif
SPEC_F(bounds_pow_nat) { AnyMode m; Nat n = (Nat)vp_choice("n", 0, NHI); auto a = fresh_bounds<F>("l", "u"); R x = member(a, "x"); auto r = pow(a, n); m.restored(); ensure(in(rpow(x, n), r), "pow encloses"); vp_cover("end"); }
SPEC_F(bounds_pow_int) { AnyMode m; Int n = (Int)vp_choice("n", NLO, 3); auto a = fresh_bounds<F>("l", "u"); R x = member(a, "x"); if (n < 0) require(x != R(0)); auto r = pow(a, n); m.restored(); ensure(in(n >= 0 ? rpow(x, n) : R(1) / rpow(x, -n), r), "pow encloses"); vp_cover("end"); }
SPEC_F(bounds_sqrt) { AnyMode m; auto a = fresh_bounds<F>("l", "u"); require(lo(a) >= R(0)); R x = member(a, "x"); R y = fun("sqrt", x); auto r = sqrt(a); m.restored(); ensure(in(y, r), "sqrt encloses"); vp_cover("end"); }
// operators and in-place operators
SPEC_F(bounds_operators) { AnyMode m; auto a = fresh_bounds<F>("l1", "u1"), b = fresh_bounds<F>("l2", "u2"); R x = member(a, "x"), y = member(b, "y"); ensure(in(x + y, a + b), "+ encloses"); ensure(in(x - y, a - b), "- encloses"); ensure(in(-x, -a), "unary - encloses"); ensure(in(x, +a), "unary + encloses"); m.restored(); vp_cover("end"); }
SPEC_F(bounds_operators_mul) { AnyMode m; auto a = fresh_bounds<F>("l1", "u1"), b = fresh_bounds<F>("l2", "u2"); R x = member(a, "x"), y = member(b, "y"); auto r = a * b; m.restored(); ensure(in(x * y, r), "* encloses"); vp_cover("end"); }
SPEC_F(bounds_operators_div) { AnyMode m; auto a = fresh_bounds<F>("l1", "u1"), b = fresh_bounds<F>("l2", "u2"); R x = member(a, "x"), y = member(b, "y"); require(y != R(0)); auto r = a / b; m.restored(); ensure(in(x / y, r), "/ encloses"); vp_cover("end"); }
SPEC_F(bounds_inplace) { AnyMode m; auto a = fresh_bounds<F>("l1", "u1"), b = fresh_bounds<F>("l2", "u2"); R x = member(a, "x"), y = member(b, "y"); int k = (int)vp_choice("op", 0, 3); if (k == 3) require(y != R(0)); auto r = a; switch (k) { case 0: r += b; break; case 1: r -= b; break; case 2: r *= b; break; default: r /= b; } m.restored(); ensure(in(k == 0 ? x + y : k == 1 ? x - y : k == 2 ? x * y : x / y, r), "in-place operator encloses"); vp_cover("end"); }
SPEC_F(bounds_inplace_self) { AnyMode m; auto a = fresh_bounds<F>("l", "u"); R x = member(a, "x"), y = member(a, "y"); int k = (int)vp_choice("op", 0, 2); switch (k) { case 0: a += a; break; case 1: a -= a; break; default: a *= a; } m.restored(); ensure(in(k == 0 ? x + y : k == 1 ? x - y : x * y, a), "aliased in-place operator encloses"); vp_cover("end"); }
// bounds with an exact value
#define MIXED(op, pre, expr) SPEC_F(bounds_value_##op) { AnyMode m; auto a = fresh_bounds<F>("l", "u"); F b = fresh<F>("v"); R x = member(a, "x"), y = re(b); require(pre); auto r = op(a, b); m.restored(); ensure(in(expr, r), #op " of bounds and value encloses"); vp_cover("end"); } \
  SPEC_F(value_bounds_##op) { AnyMode m; F b = fresh<F>("v"); auto a = fresh_bounds<F>("l", "u"); R y = member(a, "y"), x = re(b); require(pre); auto r = op(b, a); m.restored(); ensure(in(expr, r), #op " of value and bounds encloses"); vp_cover("end"); } \
  SPEC_F(value_value_##op) { AnyMode m; F a = fresh<F>("a"), b = fresh<F>("b"); R x = re(a), y = re(b); require(pre); Bounds<F> r(op(a, b)); m.restored(); ensure(in(expr, r), #op " of values encloses"); vp_cover("end"); }
MIXED(add, true, x + y) MIXED(sub, true, x - y) MIXED(mul, true, x* y) MIXED(div, y != R(0), x / y) MIXED(max, true, rmax(x, y)) MIXED(min, true, rmin(x, y))
SPEC_F(mixed_operators) { AnyMode m; auto a = fresh_bounds<F>("l", "u"); F b = fresh<F>("v"); R x = member(a, "x"), y = re(b); ensure(in(x + y, a + b), "bounds+value"); ensure(in(x - y, a - b), "bounds-value"); ensure(in(y + x, b + a), "value+bounds"); ensure(in(y - x, b - a), "value-bounds"); m.restored(); vp_cover("end"); }
SPEC_F(mixed_operators_mul) { AnyMode m; auto a = fresh_bounds<F>("l", "u"); F b = fresh<F>("v"); R x = member(a, "x"), y = re(b); ensure(in(x * y, a * b), "bounds*value"); ensure(in(x * y, b * a), "value*bounds"); m.restored(); vp_cover("end"); }
SPEC_F(mixed_operators_div) { AnyMode m; auto a = fresh_bounds<F>("l", "u"); F b = fresh<F>("v"); R x = member(a, "x"), y = re(b); int k = (int)vp_choice("side", 0, 1); if (k) { require(y != R(0)); auto r = a / b; ensure(in(x / y, r), "bounds/value"); } else { require(x != R(0)); auto r = b / a; ensure(in(y / x, r), "value/bounds"); } m.restored(); vp_cover("end"); }
SPEC_F(value_operators) { AnyMode m; F a = fresh<F>("a"), b = fresh<F>("b"); R x = re(a), y = re(b); ensure(in(x + y, a + b), "value+value"); ensure(in(x - y, a - b), "value-value"); ensure(in(x * y, a * b), "value*value"); ensure(in(x * x, sqr(a)), "sqr of value"); require(y != R(0)); ensure(in(x / y, a / b), "value/value"); ensure(in(R(1) / y, rec(b)), "rec of value"); m.restored(); vp_cover("end"); }
SPEC_F(value_pow) { AnyMode m; F a = fresh<F>("a"); Int n = (Int)vp_choice("n", NLO, NHI); R x = re(a); if (n < 0) require(x != R(0)); Bounds<F> r = n >= 0 ? pow(a, Nat(n)) : pow(a, n); m.restored(); ensure(in(n >= 0 ? rpow(x, n) : R(1) / rpow(x, -n), r), "pow of value encloses"); vp_cover("end"); }
SPEC_F(value_sqrt) { AnyMode m; F a = fresh<F>("a"); require(re(a) >= R(0)); Bounds<F> r = sqrt(a); m.restored(); ensure(in(fun("sqrt", re(a)), r), "sqrt of value encloses"); vp_cover("end"); }
// magnitudes, midpoint and error, widening
SPEC_F(bounds_mag) { AnyMode m; auto a = fresh_bounds<F>("l", "u"); R x = member(a, "x"); auto r = mag(a); auto s = mig(a); m.restored(); ensure(re(r.raw()) >= rabs(x), "mag bounds the absolute value"); ensure((re(s.raw()) <= rabs(x)) & (re(s.raw()) >= R(0)), "mig bounds the absolute value from below"); vp_cover("end"); }
SPEC_F(bounds_value_error) { AnyMode m; auto a = fresh_bounds<F>("l", "u"); R x = member(a, "x"); R v = re(a.value()), e = re(a.error().raw()); R v2 = re(a.value_raw()), e2 = re(a.error_raw()); m.restored(); ensure(rabs(x - v) <= e, "value and error enclose"); ensure(rabs(x - v2) <= e2, "raw value and error enclose"); vp_cover("end"); }
SPEC_F(bounds_pm) { AnyMode m; auto a = fresh_bounds<F>("l", "u"); F e = fresh<F>("e"); require(re(e) >= R(0)); R x = member(a, "x"); R d = fresh_real("d"); require(rabs(d) <= re(e)); auto r = a.pm(Error<F>(e)); m.restored(); ensure(in(x + d, r), "pm widens by the error"); vp_cover("end"); }
SPEC_F(bounds_trunc) { AnyMode m; Nat n = (Nat)vp_choice("n", 20, 24); auto a = fresh_bounds<F>("l", "u"); R x = member(a, "x"); auto r = trunc(a, n); m.restored(); ensure(in(x, r), "trunc encloses"); vp_cover("end"); }
// refinement
SPEC_F(bounds_refinement) { AnyMode m; auto a = fresh_bounds<F>("l1", "u1"), b = fresh_bounds<F>("l2", "u2"); R x = fresh_real("x"); require(in(x, a) & in(x, b)); auto r = refinement(a, b); m.restored(); ensure(in(x, r), "refinement keeps common members"); ensure((lo(r) >= lo(a)) & (lo(r) >= lo(b)) & (hi(r) <= hi(a)) & (hi(r) <= hi(b)), "refinement tightens"); auto c = coarsening(a, b); ensure((lo(c) <= lo(b)) & (lo(c) <= lo(a)) & (hi(c) >= hi(a)) & (hi(c) >= hi(b)), "coarsening covers"); vp_cover("end"); }
// positive bounds
template<class F> static PositiveBounds<F> fresh_pos(const char* nl, const char* nu) { F l = fresh<F>(nl), u = fresh<F>(nu); require((re(l) <= re(u)) & (re(l) >= R(0))); return PositiveBounds<F>(l, u); }
#define POSU(op, pre, expr) SPEC_F(positive_##op) { AnyMode m; auto a = fresh_pos<F>("l", "u"); R x = member(Bounds<F>(a), "x"); require(pre); auto r = op(a); m.restored(); ensure(in(expr, r), #op " of positive bounds encloses"); vp_cover("end"); }
#define POSB(op, pre, expr) SPEC_F(positive_##op) { AnyMode m; auto a = fresh_pos<F>("l1", "u1"), b = fresh_pos<F>("l2", "u2"); R x = member(Bounds<F>(a), "x"), y = member(Bounds<F>(b), "y"); require(pre); auto r = op(a, b); m.restored(); ensure(in(expr, r), #op " of positive bounds encloses"); vp_cover("end"); }
POSU(hlf, true, x / R(2)) POSU(sqr, true, x * x) POSU(abs, true, x) POSU(rec, lo(a) > R(0), R(1) / x) POSB(add, true, x + y) POSB(mul, true, x* y) POSB(div, lo(b) > R(0), x / y) POSB(max, true, rmax(x, y)) POSB(min, true, rmin(x, y))
// operands of different precision
#define PREC2(op, pre, expr) SPEC(prec_bounds_##op) { FloatMP l1 = fresh_mp("l1", 53), u1 = fresh_mp("u1", 53), l2 = fresh_mp("l2", 96), u2 = fresh_mp("u2", 96); require((re(l1) <= re(u1)) & (re(l2) <= re(u2))); Bounds<FloatMP> a(l1, u1), b(l2, u2); int k = (int)vp_choice("swap", 0, 1); if (k) std::swap(a, b); R x = member(a, "x"), y = member(b, "y"); require(pre); auto r = op(a, b); ensure(in(expr, r), #op " encloses"); vp_cover("end"); }
PREC2(add, true, x + y) PREC2(sub, true, x - y) PREC2(mul, true, x* y) PREC2(div, y != R(0), x / y)
