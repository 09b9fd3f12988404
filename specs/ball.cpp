// VP-PROPERTY: N04
// VP-SOURCES: source/numeric/float_ball.cpp source/numeric/float_bounds.cpp source/numeric/float_error.cpp source/numeric/float_upper_bound.cpp source/numeric/float_lower_bound.cpp source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp source/numeric/dyadic.cpp source/numeric/integer.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/logical.cpp
// VP-BOUND: integer exponents of pow between -2 and 4
// VP-BOUND: double-precision sqrt (Newton loop) is checked by native search only, not proved
#include "aspec.hpp"
using namespace vp; using namespace Ariadne;
template<class F, class FE> struct FT { typedef F V; typedef FE E; };
template<class F, class FE> B in(R x, Ball<F, FE> const& b) { if (!is_finite(b.error_raw())) return true; /* no information: the whole line */ return rabs(x - re(b.value_raw())) <= re(b.error_raw()); }
template<class F, class FE> Ball<F, FE> fresh_ball(const char* nv, const char* ne) { F v = fresh<F>(nv); FE e = fresh<FE>(ne); require(re(e) >= R(0)); return Ball<F, FE>(v, e); }
template<class F, class FE> R member(Ball<F, FE> const& b, const char* n) { R d = fresh_real(n); require(rabs(d) <= re(b.error_raw())); return re(b.value_raw()) + d; }
#define SPEC_B(name) template<class F, class FE> static void name##_spec(); SPEC(name##_dp) { name##_spec<FloatDP, FloatDP>(); } SPEC(name##_mp) { name##_spec<FloatMP, FloatMP>(); } SPEC(name##_md) { name##_spec<FloatMP, FloatDP>(); } template<class F, class FE> static void name##_spec()
#define UNARY(op, pre, expr) SPEC_B(ball_##op) { AnyMode m; auto a = fresh_ball<F, FE>("v", "e"); R x = member(a, "d"); require(pre); auto r = op(a); m.restored(); ensure(in(expr, r), #op " encloses"); vp_cover("end"); }
#define BINARY(op, pre, expr) SPEC_B(ball_##op) { AnyMode m; auto a = fresh_ball<F, FE>("v1", "e1"), b = fresh_ball<F, FE>("v2", "e2"); R x = member(a, "d1"), y = member(b, "d2"); require(pre); auto r = op(a, b); m.restored(); ensure(in(expr, r), #op " encloses"); vp_cover("end"); }
UNARY(nul, true, R(0)) UNARY(pos, true, x) UNARY(neg, true, -x) UNARY(hlf, true, x / R(2)) UNARY(sqr, true, x * x) UNARY(abs, true, rabs(x))
BINARY(add, true, x + y) BINARY(sub, true, x - y) BINARY(mul, true, x* y) BINARY(max, true, rmax(x, y)) BINARY(min, true, rmin(x, y))
SPEC_B(ball_rec) { AnyMode m; auto a = fresh_ball<F, FE>("v", "e"); R x = member(a, "d"); require(x != R(0)); auto r = rec(a); m.restored(); ensure(in(R(1) / x, r), "rec encloses"); vp_cover("end"); }
// lemma steps for quotients: 1/y is enclosed by the reciprocal, x/y is x times 1/y
template<class BL> static R quotient_lemma(BL const& b, R x, R y) { R q = R(1) / y; BL s = rec(b); ensure(in(q, s), "lemma: rec encloses"); if (!is_finite(s.error_raw())) return q; R v = re(s.value_raw()), d = named(q - v); ensure(rabs(d) <= re(s.error_raw()), "lemma: distance to the centre"); ensure(x / y == x * (v + d), "lemma: quotient is product with reciprocal"); return v + d; }
SPEC_B(ball_div) { AnyMode m(2, 2); auto a = fresh_ball<F, FE>("v1", "e1"), b = fresh_ball<F, FE>("v2", "e2"); R x = member(a, "d1"), y = member(b, "d2"); require(y != R(0)); R q = quotient_lemma(b, x, y); auto r = div(a, b); m.restored(); ensure(in(x * q, r), "div encloses (product form)"); ensure(in(x / y, r), "div encloses"); vp_cover("end"); }
SPEC_B(ball_pow_nat) { AnyMode m(2, 2); Nat n = (Nat)vp_choice("n", 0, 4); auto a = fresh_ball<F, FE>("v", "e"); R x = named(member(a, "d")); Bounds<F> ab(a); ensure(in(x, ab), "lemma: conversion to bounds encloses"); auto pb = pow(ab, n); R y = named(rpow(x, n)); ensure(in(y, pb), "lemma: power of the bounds encloses"); auto r = pow(a, n); m.restored(); ensure(in(y, r), "pow encloses"); vp_cover("end"); }
SPEC_B(ball_to_bounds) { AnyMode m; auto a = fresh_ball<F, FE>("v", "e"); R x = member(a, "d"); Bounds<F> r(a); m.restored(); ensure(in(x, r), "conversion to bounds encloses"); ensure((re(a.lower().raw()) <= x) & (x <= re(a.upper().raw())), "lower and upper enclose"); vp_cover("end"); }
SPEC_B(ball_from_bounds) { AnyMode m; auto a = fresh_bounds<F>("l", "u"); R x = vp::member(a, "x"); Ball<F, FE> r(a); m.restored(); ensure(in(x, r), "conversion from bounds encloses"); vp_cover("end"); }
SPEC_B(ball_mag) { AnyMode m; auto a = fresh_ball<F, FE>("v", "e"); R x = member(a, "d"); auto r = mag(a); auto s = mig(a); m.restored(); ensure(re(r.raw()) >= rabs(x), "mag bounds the absolute value"); ensure((re(s.raw()) <= rabs(x)) & (re(s.raw()) >= R(0)), "mig bounds the absolute value from below"); vp_cover("end"); }
SPEC_B(ball_operators) { AnyMode m; auto a = fresh_ball<F, FE>("v1", "e1"), b = fresh_ball<F, FE>("v2", "e2"); R x = member(a, "d1"), y = member(b, "d2"); ensure(in(x + y, a + b), "+ encloses"); ensure(in(x - y, a - b), "- encloses"); ensure(in(-x, -a), "unary - encloses"); ensure(in(x, +a), "unary + encloses"); auto c = a; c += b; ensure(in(x + y, c), "+= encloses"); c = a; c -= b; ensure(in(x - y, c), "-= encloses"); m.restored(); vp_cover("end"); }
SPEC_B(ball_refinement) { AnyMode m(2, 2); auto a = fresh_ball<F, FE>("v1", "e1"), b = fresh_ball<F, FE>("v2", "e2"); R x = fresh_real("x"); require(in(x, a) & in(x, b)); auto r = refinement(a, b); ensure(in(x, r), "refinement keeps common members"); auto c = coarsening(a, b); ensure(in(x, c), "coarsening covers"); m.restored(); vp_cover("end"); }
SPEC_B(ball_info) { AnyMode m; auto a = fresh_ball<F, FE>("v1", "e1"), b = fresh_ball<F, FE>("v2", "e2"); R x = fresh_real("x"); bool i = inconsistent(a, b); bool f = refines(a, b); m.restored(); ensure(!(in(x, a) & in(x, b) & i), "inconsistent balls are disjoint"); ensure(implies(in(x, a) & f, in(x, b)), "refines implies containment"); vp_cover("end"); }
#define MIXED(op, pre, expr) SPEC_B(ball_value_##op) { AnyMode m; auto a = fresh_ball<F, FE>("v", "e"); F b = fresh<F>("w"); R x = member(a, "d"), y = re(b); require(pre); auto r = op(a, b); m.restored(); ensure(in(expr, r), #op " of ball and value encloses"); vp_cover("end"); } \
  SPEC_B(value_ball_##op) { AnyMode m; F b = fresh<F>("w"); auto a = fresh_ball<F, FE>("v", "e"); R y = member(a, "d"), x = re(b); require(pre); auto r = op(b, a); m.restored(); ensure(in(expr, r), #op " of value and ball encloses"); vp_cover("end"); } \
  SPEC_B(value_value_##op) { AnyMode m; F a = fresh<F>("a"), b = fresh<F>("b"); R x = re(a), y = re(b); require(pre); auto r = op(a, b, prec<FE>()); m.restored(); ensure(in(expr, r), #op " of values to a ball encloses"); vp_cover("end"); }
MIXED(add, true, x + y) MIXED(sub, true, x - y) MIXED(mul, true, x* y) SPEC_B(ball_value_div) { AnyMode m(2, 2); auto a = fresh_ball<F, FE>("v", "e"); F b = fresh<F>("w"); R x = member(a, "d"), y = re(b); require(y != R(0)); R q = quotient_lemma(Ball<F, FE>(b, prec<FE>()), x, y); auto r = div(a, b); m.restored(); ensure(in(x * q, r), "div of ball and value encloses (product form)"); ensure(in(x / y, r), "div of ball and value encloses"); vp_cover("end"); }
SPEC_B(value_ball_div) { AnyMode m(2, 2); F b = fresh<F>("w"); auto a = fresh_ball<F, FE>("v", "e"); R y = member(a, "d"), x = re(b); require(y != R(0)); R q = quotient_lemma(a, x, y); auto r = div(b, a); m.restored(); ensure(in(x * q, r), "div of value and ball encloses (product form)"); ensure(in(x / y, r), "div of value and ball encloses"); vp_cover("end"); }
SPEC_B(value_value_div) { AnyMode m(2, 2); F a = fresh<F>("a"), b = fresh<F>("b"); R x = re(a), y = re(b); require(y != R(0)); auto r = div(a, b, prec<FE>()); m.restored(); ensure(in(x / y, r), "div of values to a ball encloses"); vp_cover("end"); }
SPEC_B(ball_sqrt) { AnyMode m(2, 2); auto a = fresh_ball<F, FE>("v", "e"); require(re(a.value_raw()) > re(a.error_raw())); R x = member(a, "d"); R y = fun("sqrt", x); auto r = sqrt(a); m.restored(); ensure(in(y, r), "sqrt encloses"); vp_cover("end"); }
SPEC(ball_reprec) { FloatMP v = fresh_mp("v", 96), e = fresh_mp("e", 96); require(re(e) >= R(0)); Ball<FloatMP> a(v, e); R x = member(a, "d"); Ball<FloatMP> r(a, MultiplePrecision(64)); ensure(in(x, r), "change of precision encloses"); vp_cover("end"); }
