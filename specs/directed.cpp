// VP-PROPERTY: N01
// VP-SOURCES: source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp source/numeric/dyadic.cpp source/numeric/integer.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/logical.cpp
// VP-BOUND: double-precision sqrt (Newton loop to a fixed point) is checked by native search only, not proved
// VP-BOUND: integer exponents of pow between -5 and 9
#include "aspec.hpp"
using namespace vp; using namespace Ariadne;
#define UN(op, pre, expr) SPEC_F(rnd_##op) { AnyMode m; AnyRnd d; F a = fresh<F>("x"); R x = re(a); require(pre); F r = op(d.mode<F>(), a); m.restored(); ensure(correctly_rounded(r, d.k, expr), #op " correctly rounded"); vp_cover("end"); }
#define BI(op, pre, expr) SPEC_F(rnd_##op) { AnyMode m; AnyRnd d; F a = fresh<F>("x"), b = fresh<F>("y"); R x = re(a), y = re(b); require(pre); F r = op(d.mode<F>(), a, b); m.restored(); ensure(correctly_rounded(r, d.k, expr), #op " correctly rounded"); ensure((re(a) == x) & (re(b) == y), "arguments unchanged"); vp_cover("end"); }
UN(nul, true, R(0)) UN(pos, true, x) UN(neg, true, -x) UN(hlf, true, x / R(2)) UN(sqr, true, x * x) UN(rec, x != R(0), R(1) / x) UN(abs, true, rabs(x)) UN(mag, true, rabs(x))
BI(add, true, x + y) BI(sub, true, x - y) BI(mul, true, x* y) BI(div, y != R(0), x / y) BI(max, true, rmax(x, y)) BI(min, true, rmin(x, y))
SPEC_F(rnd_fma) { AnyMode m; AnyRnd d; F a = fresh<F>("x"), b = fresh<F>("y"), c = fresh<F>("z"); F r = fma(d.mode<F>(), a, b, c); m.restored(); ensure(directed(r, d.k, re(a) * re(b) + re(c)), "fma rounded in the requested direction"); vp_cover("end"); }
SPEC_F(rnd_med) { AnyMode m; AnyRnd d; F a = fresh<F>("x"), b = fresh<F>("y"); F r = med(d.mode<F>(), a, b); m.restored(); ensure(directed(r, d.k, (re(a) + re(b)) / R(2)), "med rounded in the requested direction"); vp_cover("end"); }
SPEC_F(rnd_rad) { AnyMode m; AnyRnd d; F a = fresh<F>("x"), b = fresh<F>("y"); F r = rad(d.mode<F>(), a, b); m.restored(); ensure(directed(r, d.k, (re(b) - re(a)) / R(2)), "rad rounded in the requested direction"); vp_cover("end"); }
SPEC(rnd_sqrt_mp) { typedef FloatMP F; AnyRnd d; F a = fresh<F>("x"); require(re(a) >= R(0)); F r = sqrt(d.mode<F>(), a); ensure(correctly_rounded(r, d.k, fun("sqrt", re(a))), "sqrt correctly rounded"); vp_cover("end"); }
SPEC(rnd_sqrt_dp) { typedef FloatDP F; AnyMode m; AnyRnd d(1, 2); F a = fresh<F>("x"); require(re(a) >= R(0)); F r = sqrt(d.mode<F>(), a); m.restored(); ensure((re(r) >= R(0)) & (d.k == 1 ? re(r) * re(r) <= re(a) : re(r) * re(r) >= re(a)), "sqrt rounded in the requested direction"); vp_cover("end"); }
SPEC_F(rnd_pow_nat) { AnyMode m; AnyRnd d(1, 2); F a = fresh<F>("x"); Nat n = (Nat)vp_choice("n", 0, 9); F r = pow(d.mode<F>(), a, n); m.restored(); ensure(directed(r, d.k, rpow(re(a), n)), "pow rounded in the requested direction"); vp_cover("end"); }
SPEC_F(rnd_pow_int) { AnyMode m; AnyRnd d(1, 2); F a = fresh<F>("x"); Int n = (Int)vp_choice("n", -5, 4); if (n < 0) require(re(a) != R(0)); F r = pow(d.mode<F>(), a, n); m.restored(); ensure(directed(r, d.k, n >= 0 ? rpow(re(a), n) : R(1) / rpow(re(a), -n)), "pow rounded in the requested direction"); vp_cover("end"); }
// exact operations
SPEC_F(exact_ops) { AnyMode m; F a = fresh<F>("x"), b = fresh<F>("y"); R x = re(a), y = re(b);
  ensure(re(pos(a)) == x, "pos exact"); ensure(re(neg(a)) == -x, "neg exact"); ensure(re(hlf(a)) == x / R(2), "hlf exact"); ensure(re(nul(a)) == R(0), "nul exact"); ensure(re(-a) == -x, "minus exact"); ensure(re(+a) == x, "plus exact");
  ensure(re(max(a, b)) == rmax(x, y), "max exact"); ensure(re(min(a, b)) == rmin(x, y), "min exact"); ensure(re(F(abs(a))) == rabs(x), "abs exact"); m.restored(); vp_cover("end"); }
SPEC_F(exact_shft) { AnyMode m; F a = fresh<F>("x"); Int n = (Int)vp_choice("n", -6, 6); R p = n >= 0 ? R(1l << n) : R(1) / R(1l << -n); ensure(re(shft(a, n)) == re(a) * p, "shft exact"); ensure(re(a * TwoExp(n)) == re(a) * p, "scaling by power of two exact"); ensure(re(a / TwoExp(n)) == re(a) / p, "division by power of two exact"); m.restored(); vp_cover("end"); }
// value semantics
SPEC_F(copy_assign) { AnyMode m; F a = fresh<F>("x"), b = fresh<F>("y"); R x = re(a), y = re(b); F c(a); ensure(re(c) == x, "copy construction exact"); c = b; ensure((re(c) == y) & (re(b) == y), "copy assignment exact"); c = c; ensure(re(c) == y, "self assignment exact"); F e(std::move(c)); ensure(re(e) == y, "move construction exact"); e = F(a); ensure(re(e) == x, "move assignment exact"); m.restored(); vp_cover("end"); }
// comparisons between exact values
SPEC_F(exact_cmp) { AnyMode m; F a = fresh<F>("x"), b = fresh<F>("y"); R x = re(a), y = re(b); 
  ensure(iff(bool(a == b), x == y), "== exact"); ensure(iff(bool(a != b), x != y), "!= exact"); ensure(iff(bool(a < b), x < y), "< exact"); ensure(iff(bool(a <= b), x <= y), "<= exact"); ensure(iff(bool(a > b), x > y), "> exact"); ensure(iff(bool(a >= b), x >= y), ">= exact");
  Comparison c = cmp(a, b); ensure(iff(c == Comparison::LESS, x < y) & iff(c == Comparison::EQUAL, x == y) & iff(c == Comparison::GREATER, x > y), "cmp exact"); m.restored(); vp_cover("end"); }
SPEC_F(cmp_rational) { AnyMode m; F a = fresh<F>("x"); Rational q = fresh_rational("q"); R x = re(a), y = re(q); Comparison c = cmp(a, q), e = cmp(q, a); ensure(iff(c == Comparison::LESS, x < y) & iff(c == Comparison::EQUAL, x == y) & iff(c == Comparison::GREATER, x > y), "cmp with rational exact"); ensure(iff(e == Comparison::GREATER, x < y) & iff(e == Comparison::EQUAL, x == y), "cmp rational with float exact"); m.restored(); vp_cover("end"); }
SPEC_F(cmp_int) { AnyMode m; F a = fresh<F>("x"); Int n = (Int)vp_fresh_int("n", -2147483647L - 1, 2147483647L); R x = re(a), y((long)n); Comparison c = cmp(a, n), e = cmp(n, a); ensure(iff(c == Comparison::LESS, x < y) & iff(c == Comparison::EQUAL, x == y) & iff(c == Comparison::GREATER, x > y), "cmp with int exact"); ensure(iff(e == Comparison::GREATER, x < y) & iff(e == Comparison::EQUAL, x == y), "cmp int with float exact"); m.restored(); vp_cover("end"); }
// integer parts
SPEC_F(integer_parts) { AnyMode m; F a = fresh<F>("x"); R x = re(a); R f = re(floor(a)), c = re(ceil(a)), r = re(round(a)); m.restored(); ensure(risint(f) & (f <= x) & (x < f + R(1)), "floor"); ensure(risint(c) & (c >= x) & (x > c - R(1)), "ceil"); ensure(risint(r) & (rabs(r - x) * R(2) <= R(1)), "round"); vp_cover("end"); }
// mixed multiple/double precision
#define MIX(op, T, mk, pre, expr) SPEC(mix_##op##_##T) { AnyRnd d; FloatMP a = fresh<FloatMP>("x"); FloatDP w = fresh<FloatDP>("y"); R x = re(a), y = re(w); require(pre); FloatMP r = op(d.mode<FloatMP>(), a, mk); ensure(correctly_rounded(r, d.k, expr), #op " correctly rounded"); vp_cover("end"); }
#define MIXR(op, T, mk, pre, expr) SPEC(mixr_##op##_##T) { AnyRnd d; FloatMP a = fresh<FloatMP>("x"); FloatDP w = fresh<FloatDP>("y"); R x = re(a), y = re(w); require(pre); FloatMP r = op(d.mode<FloatMP>(), mk, a); ensure(correctly_rounded(r, d.k, expr), #op " correctly rounded"); vp_cover("end"); }
#define MIXALL(T, mk) MIX(add, T, mk, true, x + y) MIX(sub, T, mk, true, x - y) MIX(mul, T, mk, true, x* y) MIX(div, T, mk, y != R(0), x / y) MIXR(add, T, mk, true, y + x) MIXR(sub, T, mk, true, y - x) MIXR(mul, T, mk, true, y* x) MIXR(div, T, mk, x != R(0), y / x)
MIXALL(dp, w)
MIXALL(dbl, ExactDouble(w.get_d()))
// different precisions
#define PREC2(op, pre, expr) SPEC(prec_##op) { AnyRnd d; FloatMP a = fresh_mp("x", 53), b = fresh_mp("y", 96); R x = re(a), y = re(b); require(pre); FloatMP r = op(d.mode<FloatMP>(), a, b); ensure(directed(r, d.k, expr), #op " rounded in the requested direction"); FloatMP s = op(d.mode<FloatMP>(), b, a); R t = x; x = y; y = t; require(pre); ensure(directed(s, d.k, expr), #op " rounded in the requested direction"); vp_cover("end"); }
PREC2(add, true, x + y) PREC2(sub, true, x - y) PREC2(mul, true, x* y) PREC2(div, y != R(0), x / y)
