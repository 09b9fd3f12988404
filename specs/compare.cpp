// VP-PROPERTY: N06
// VP-SOURCES: source/numeric/float_ball.cpp source/numeric/float_bounds.cpp source/numeric/float_error.cpp source/numeric/float_upper_bound.cpp source/numeric/float_lower_bound.cpp source/numeric/float_approximation.cpp source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp source/numeric/dyadic.cpp source/numeric/integer.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/logical.cpp
#include "aspec.hpp"
using namespace vp; using namespace Ariadne;
template<class F, class FE> B in(R x, Ball<F, FE> const& b) { return rabs(x - re(b.value_raw())) <= re(b.error_raw()); }
template<class F, class FE> Ball<F, FE> fresh_ball(const char* nv, const char* ne) { F v = fresh<F>(nv); FE e = fresh<FE>(ne); require(re(e) >= R(0)); return Ball<F, FE>(v, e); }
template<class F, class FE> R member(Ball<F, FE> const& b, const char* n) { R x = fresh_real(n); require(in(x, b)); return x; }
#define SPEC_B(name) template<class F, class FE> static void name##_spec(); SPEC(name##_dp) { name##_spec<FloatDP, FloatDP>(); } SPEC(name##_mp) { name##_spec<FloatMP, FloatMP>(); } SPEC(name##_md) { name##_spec<FloatMP, FloatDP>(); } template<class F, class FE> static void name##_spec()
// a three-valued answer l about the statement p: verified answers are true, refuted ones false
template<class L> void sound(L const& l, B p, const char* what) { bool d = definitely(l), q = !possibly(l); ensure(implies(B(d), p) & implies(B(q), !p), what); }
// exact answers
static void exact(Boolean b, B p, const char* what) { bool d = b; ensure(iff(B(d), p), what); }
template<class S, class T> void all_comparisons(S const& a, T const& b, R x, R y) { sound(a == b, x == y, "=="); sound(a != b, x != y, "!="); sound(a < b, x < y, "<"); sound(a > b, x > y, ">"); sound(a <= b, x <= y, "<="); sound(a >= b, x >= y, ">="); }
SPEC_F(cmp_bounds) { AnyMode m; auto a = fresh_bounds<F>("al", "au"), b = fresh_bounds<F>("bl", "bu"); R x = vp::member(a, "x"), y = vp::member(b, "y"); sound(eq(a, b), x == y, "eq"); sound(lt(a, b), x < y, "lt"); all_comparisons(a, b, x, y); m.restored(); vp_cover("end"); }
SPEC_F(cmp_bounds_decides) { auto a = fresh_bounds<F>("al", "au"), b = fresh_bounds<F>("bl", "bu"); bool dl = definitely(a < b), rl = !possibly(a < b), de = definitely(a == b), re_ = !possibly(a == b); ensure(implies(hi(a) < lo(b), dl), "separated bounds are decided less"); ensure(implies(lo(a) >= hi(b), rl), "reversed bounds are decided not less"); ensure(implies((hi(a) < lo(b)) | (hi(b) < lo(a)), re_), "separated bounds are decided different"); ensure(implies((lo(a) == hi(a)) & (lo(b) == hi(b)) & (lo(a) == lo(b)), de), "equal points are decided equal"); vp_cover("end"); }
SPEC_F(cmp_bounds_value) { auto a = fresh_bounds<F>("al", "au"); F b = fresh<F>("b"); R x = vp::member(a, "x"), y = re(b); all_comparisons(a, b, x, y); vp_cover("end"); }
SPEC_F(cmp_value_bounds) { F a = fresh<F>("a"); auto b = fresh_bounds<F>("bl", "bu"); R x = re(a), y = vp::member(b, "y"); all_comparisons(a, b, x, y); vp_cover("end"); }
SPEC_F(cmp_bounds_sign) { auto a = fresh_bounds<F>("al", "au"); R x = vp::member(a, "x"); auto s = sgn(a); bool pos = definitely(s), neg = !possibly(s); ensure(implies(pos, x > R(0)), "positive sign"); ensure(implies(neg, x < R(0)), "negative sign"); vp_cover("end"); }
SPEC_F(cmp_bounds_info) { auto a = fresh_bounds<F>("al", "au"), b = fresh_bounds<F>("bl", "bu"); F c = fresh<F>("c"); Dyadic w = fresh_dyadic("w"); R x = fresh_real("x"); bool s = same(a, b), mo = models(a, c), mw = models(a, w), sw = same(a, w), co = consistent(a, b), in_ = inconsistent(a, b), rf = refines(a, b);
  ensure(iff(s, (lo(a) == lo(b)) & (hi(a) == hi(b))), "same"); ensure(iff(mo, in(re(c), a)), "models value"); ensure(iff(mw, in(re(w), a)), "models dyadic"); ensure(iff(sw, (lo(a) == re(w)) & (hi(a) == re(w))), "same as dyadic"); ensure(iff(co, rmax(lo(a), lo(b)) <= rmin(hi(a), hi(b))), "consistent exactly when intersecting"); ensure(co != in_, "inconsistent is the negation of consistent"); ensure(iff(rf, (lo(b) <= lo(a)) & (hi(a) <= hi(b))), "refines exactly when contained"); ensure(implies(B(in_) & in(x, a), !in(x, b)), "inconsistent bounds are disjoint"); vp_cover("end"); }
SPEC_B(cmp_ball) { AnyMode m(2, 2); auto a = fresh_ball<F, FE>("av", "ae"), b = fresh_ball<F, FE>("bv", "be"); R x = member(a, "x"), y = member(b, "y"); sound(eq(a, b), x == y, "eq"); sound(lt(a, b), x < y, "lt"); all_comparisons(a, b, x, y); m.restored(); vp_cover("end"); }
SPEC_B(cmp_ball_value) { AnyMode m(2, 2); auto a = fresh_ball<F, FE>("av", "ae"); F b = fresh<F>("b"); R x = member(a, "x"), y = re(b); all_comparisons(a, b, x, y); all_comparisons(b, a, y, x); m.restored(); vp_cover("end"); }
SPEC_B(cmp_ball_info) { AnyMode m(2, 2); auto a = fresh_ball<F, FE>("av", "ae"), b = fresh_ball<F, FE>("bv", "be"); R x = fresh_real("x"); bool s = same(a, b), co = consistent(a, b), in_ = inconsistent(a, b), rf = refines(a, b); ensure(iff(s, (re(a.value_raw()) == re(b.value_raw())) & (re(a.error_raw()) == re(b.error_raw()))), "same"); ensure(implies(B(in_) & in(x, a), !in(x, b)), "inconsistent balls are disjoint"); ensure(implies(B(rf) & in(x, a), in(x, b)), "refining ball is contained"); ensure(implies(co, rabs(re(a.value_raw()) - re(b.value_raw())) <= re(a.error_raw()) + re(b.error_raw())), "consistent balls intersect"); m.restored(); vp_cover("end"); }
SPEC(cmp_ball_sign_dp) { auto a = fresh_ball<FloatDP, FloatDP>("av", "ae"); R x = member(a, "x"); auto s = sgn(a); bool pos = definitely(s), neg = !possibly(s); ensure(implies(pos, x > R(0)), "positive sign"); ensure(implies(neg, x < R(0)), "negative sign"); vp_cover("end"); }
SPEC(cmp_ball_sign_mp) { auto a = fresh_ball<FloatMP, FloatMP>("av", "ae"); R x = member(a, "x"); auto s = sgn(a); bool pos = definitely(s), neg = !possibly(s); ensure(implies(pos, x > R(0)), "positive sign"); ensure(implies(neg, x < R(0)), "negative sign"); vp_cover("end"); }
template<class S, class T> void exact_comparisons(S const& a, T const& b, R x, R y) { exact(a == b, x == y, "=="); exact(a != b, x != y, "!="); exact(a < b, x < y, "<"); exact(a > b, x > y, ">"); exact(a <= b, x <= y, "<="); exact(a >= b, x >= y, ">="); }
SPEC_F(cmp_value) { F a = fresh<F>("a"), b = fresh<F>("b"); exact_comparisons(a, b, re(a), re(b)); exact(eq(a, b), re(a) == re(b), "eq"); exact(lt(a, b), re(a) < re(b), "lt"); Comparison c = cmp(a, b); ensure(iff(c == Comparison::LESS, re(a) < re(b)) & iff(c == Comparison::EQUAL, re(a) == re(b)) & iff(c == Comparison::GREATER, re(a) > re(b)), "cmp"); vp_cover("end"); }
SPEC_F(cmp_value_dyadic) { F a = fresh<F>("a"); Dyadic b = fresh_dyadic("b"); exact_comparisons(a, b, re(a), re(b)); exact_comparisons(b, a, re(b), re(a)); vp_cover("end"); }
SPEC_F(cmp_value_rational) { F a = fresh<F>("a"); Rational b = fresh_rational("b"); exact_comparisons(a, b, re(a), re(b)); exact_comparisons(b, a, re(b), re(a)); vp_cover("end"); }
SPEC_F(cmp_value_integer) { F a = fresh<F>("a"); Integer b = fresh_integer("b"); exact_comparisons(a, b, re(a), re(b)); exact_comparisons(b, a, re(b), re(a)); vp_cover("end"); }
SPEC_F(cmp_value_int) { F a = fresh<F>("a"); Int n = (Int)vp_choice("n", -2, 2); exact_comparisons(a, n, re(a), R(n)); exact_comparisons(n, a, R(n), re(a)); ExactDouble d = cast_exact(0.75); exact_comparisons(a, d, re(a), R(0.75)); exact_comparisons(d, a, R(0.75), re(a)); vp_cover("end"); }
SPEC(cmp_mixed_precision) { FloatDP a = fresh<FloatDP>("a"); FloatMP b = fresh<FloatMP>("b"), c = fresh_mp("c", 96); exact_comparisons(a, b, re(a), re(b)); exact_comparisons(b, a, re(b), re(a)); exact_comparisons(b, c, re(b), re(c)); vp_cover("end"); }
SPEC_F(cmp_approximate) { F a = fresh<F>("a"), b = fresh<F>("b"); Approximation<F> x(a), y(b); for (auto l : {x == y, x != y, x < y, x > y, x <= y, x >= y, sgn(x)}) { ensure(!definitely(l) && possibly(l), "comparison of approximations is never definite"); } bool d = decide(x < y); ensure(iff(d, re(a) < re(b)), "decision compares the approximations"); vp_cover("end"); }
