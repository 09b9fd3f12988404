// VP-PROPERTY: N07
// VP-SOURCES: source/numeric/dyadic.cpp source/numeric/integer.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/logical.cpp source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp source/numeric/float_bounds.cpp
// VP-BOUND: powers with exponents -3..5; decimal places at most 2; binary places at most 3
// VP-ASSUME: multiple-precision dyadics (65535-bit GMP floats) are treated as exact
#include "aspec.hpp"
#include "numeric/twoexp.hpp"
using namespace vp; using namespace Ariadne;
static R re(Decimal const& d) { return re(d._p) / rpow(R(10), d._q); }
static Decimal fresh_decimal(const char* n, unsigned q) { return Decimal(fresh_integer(n), (Nat)q); }
static void exact(Boolean b, B p, const char* what) { bool d = b; ensure(iff(B(d), p), what); }
template<class S, class T> void comparisons(S const& a, T const& b, R x, R y) { exact(a == b, x == y, "=="); exact(a != b, x != y, "!="); exact(a < b, x < y, "<"); exact(a > b, x > y, ">"); exact(a <= b, x <= y, "<="); exact(a >= b, x >= y, ">="); }
static void compares(Comparison c, R x, R y) { ensure(iff(c == Comparison::LESS, x < y) & iff(c == Comparison::EQUAL, x == y) & iff(c == Comparison::GREATER, x > y), "three-way comparison"); }
static void has_sign(Sign s, R x) { ensure(iff(s == Sign::POSITIVE, x > R(0)) & iff(s == Sign::ZERO, x == R(0)) & iff(s == Sign::NEGATIVE, x < R(0)), "sign"); }
// ---- integers
SPEC(integer_ring) { Integer a = fresh_integer("a"), b = fresh_integer("b"); R x = re(a), y = re(b); ensure(re(a + b) == x + y, "+"); ensure(re(a - b) == x - y, "-"); ensure(re(a * b) == x * y, "*"); ensure(re(-a) == -x, "unary minus"); ensure(re(+a) == x, "unary plus"); ensure(re(sqr(a)) == x * x, "sqr"); ensure(re(nul(a)) == R(0), "nul"); ensure(re(add(a, b)) == x + y, "add"); ensure(re(sub(a, b)) == x - y, "sub"); ensure(re(mul(a, b)) == x * y, "mul"); ensure(re(neg(a)) == -x, "neg"); ensure(re(pos(a)) == x, "pos"); ensure(re(abs(a)) == rabs(x), "abs"); ensure(re(max(a, b)) == rmax(x, y), "max"); ensure(re(min(a, b)) == rmin(x, y), "min"); vp_cover("end"); }
SPEC(integer_inplace) { Integer a = fresh_integer("a"), b = fresh_integer("b"); R x = re(a), y = re(b); Integer r = a; r += b; ensure(re(r) == x + y, "+="); r = a; r -= b; ensure(re(r) == x - y, "-="); r = a; r *= b; ensure(re(r) == x * y, "*="); r = a; r += r; ensure(re(r) == x + x, "+= aliased"); r = a; r -= r; ensure(re(r) == R(0), "-= aliased"); r = a; r *= r; ensure(re(r) == x * x, "*= aliased"); r = a; ++r; ensure(re(r) == x + R(1), "++"); r = a; --r; ensure(re(r) == x - R(1), "--"); ensure((re(a) == x) & (re(b) == y), "arguments unchanged"); Integer s(std::move(r)); ensure(re(s) == x - R(1), "move"); vp_cover("end"); }
SPEC(integer_pow) { Integer a = fresh_integer("a"); Nat m = (Nat)vp_choice("m", 0, 5); ensure(re(pow(a, m)) == rpow(re(a), m), "power"); vp_cover("end"); }
SPEC(integer_compare) { Integer a = fresh_integer("a"), b = fresh_integer("b"); R x = re(a), y = re(b); comparisons(a, b, x, y); compares(cmp(a, b), x, y); has_sign(sgn(a), x); exact(eq(a, b), x == y, "eq"); exact(lt(a, b), x < y, "lt"); bool z = is_zero(a); ensure(iff(z, x == R(0)), "is_zero"); vp_cover("end"); }
SPEC(integer_quotient) { Integer a = fresh_integer("a"), b = fresh_integer("b"); R x = re(a), y = re(b); require(y != R(0)); R q = re(quot(a, b)), r = re(rem(a, b)); ensure(q * y + r == x, "quotient and remainder recompose"); ensure(rabs(r) < rabs(y), "remainder smaller than divisor"); vp_cover("end"); }
SPEC(integer_from_signed64) { long n = vp_fresh_int("n", (-9223372036854775807L - 1), 9223372036854775807L); ensure(re(Integer(n)) == R(n), "value preserved"); vp_cover("end"); }
SPEC(integer_from_unsigned64) { long n = vp_fresh_int("n", (-9223372036854775807L - 1), 9223372036854775807L); unsigned long m = (unsigned long)n; R v = R(n); if (n < 0) v = v + rpow(R(2), 64); ensure(re(Integer(m)) == v, "value preserved"); vp_cover("end"); }
SPEC(integer_from_signed32) { long l = vp_fresh_int("n", -2147483648L, 2147483647L); int n = (int)l; ensure(re(Integer(n)) == R(l), "from int"); ensure(re(Integer(Int32(n))) == R(l), "from 32-bit signed"); vp_cover("end"); }
SPEC(integer_from_unsigned32) { long l = vp_fresh_int("n", 0, 4294967295L); unsigned n = (unsigned)l; ensure(re(Integer(n)) == R(l), "from unsigned"); ensure(re(Integer(Nat32(n))) == R(l), "from 32-bit unsigned"); vp_cover("end"); }
SPEC(integer_natural) { Integer a = fresh_integer("a"), b = fresh_integer("b"); require((re(a) >= R(0)) & (re(b) >= R(0))); Natural m(a), n(b); ensure(re(m + n) == re(a) + re(b), "+"); ensure(re(m * n) == re(a) * re(b), "*"); ensure(re(max(m, n)) == rmax(re(a), re(b)), "max"); ensure(re(min(m, n)) == rmin(re(a), re(b)), "min"); Natural r = m; r += n; ensure(re(r) == re(a) + re(b), "+="); ++r; ensure(re(r) == re(a) + re(b) + R(1), "++"); vp_cover("end"); }
// ---- dyadics
SPEC(dyadic_ring) { Dyadic a = fresh_dyadic("a"), b = fresh_dyadic("b"), c = fresh_dyadic("c"); R x = re(a), y = re(b); ensure(re(a + b) == x + y, "+"); ensure(re(a - b) == x - y, "-"); ensure(re(a * b) == x * y, "*"); ensure(re(-a) == -x, "unary minus"); ensure(re(+a) == x, "unary plus"); ensure(re(sqr(a)) == x * x, "sqr"); ensure(re(nul(a)) == R(0), "nul"); ensure(re(hlf(a)) * R(2) == x, "hlf"); Dyadic const& ca = a; ensure(re(add(ca, b)) == x + y, "add"); ensure(re(sub(ca, b)) == x - y, "sub"); ensure(re(mul(ca, b)) == x * y, "mul"); ensure(re(neg(a)) == -x, "neg"); ensure(re(pos(a)) == x, "pos"); ensure(re(abs(a)) == rabs(x), "abs"); ensure(re(max(a, b)) == rmax(x, y), "max"); ensure(re(min(a, b)) == rmin(x, y), "min"); vp_cover("end"); }
SPEC(dyadic_inplace) { Dyadic a = fresh_dyadic("a"), b = fresh_dyadic("b"); R x = re(a), y = re(b); Dyadic r = a; r += b; ensure(re(r) == x + y, "+="); r = a; r -= b; ensure(re(r) == x - y, "-="); r = a; r *= b; ensure(re(r) == x * y, "*="); r = a; r += r; ensure(re(r) == x + x, "+= aliased"); r = a; r *= r; ensure(re(r) == x * x, "*= aliased"); Dyadic s(std::move(r)); ensure(re(s) == x * x, "move"); ensure((re(a) == x) & (re(b) == y), "arguments unchanged"); vp_cover("end"); }
SPEC(dyadic_pow) { Dyadic a = fresh_dyadic("a"); Int n = (Int)vp_choice("n", -3, 5); if (n >= 0) ensure(re(pow(a, (Nat)n)) == rpow(re(a), n), "power"); else require(re(a) != R(0)); Rational q = pow(a, n); ensure(n >= 0 ? re(q) == rpow(re(a), n) : re(q) * rpow(re(a), -n) == R(1), "integer power"); vp_cover("end"); }
SPEC(dyadic_compare) { Dyadic a = fresh_dyadic("a"), b = fresh_dyadic("b"); R x = re(a), y = re(b); comparisons(a, b, x, y); compares(cmp(a, b), x, y); has_sign(sgn(a), x); exact(eq(a, b), x == y, "eq"); exact(lt(a, b), x < y, "lt"); bool z = is_zero(a), f = is_finite(a), i = is_inf(a), n = is_nan(a); ensure(iff(z, x == R(0)), "is_zero"); ensure(f && !i && !n, "finite"); Integer k = fresh_integer("k"); comparisons(a, k, x, re(k)); comparisons(k, a, re(k), x); vp_cover("end"); }
SPEC(dyadic_integer_part) { Dyadic a = fresh_dyadic("a"); R x = re(a), f = re(floor(a)), c = re(ceil(a)), r = re(round(a)); ensure((f <= x) & (x < f + R(1)), "floor"); ensure((c >= x) & (c < x + R(1)), "ceil"); ensure(rabs(r - x) * R(2) <= R(1), "round to a nearest integer"); vp_cover("end"); }
SPEC(dyadic_scale) { Dyadic a = fresh_dyadic("a"); Integer p = fresh_integer("p"); Int n = (Int)vp_choice("n", -3, 3); R s = n >= 0 ? rpow(R(2), n) : R(1) / rpow(R(2), -n); TwoExp t = two ^ n; ensure(re(Dyadic(t)) == s, "power of two"); ensure(re(a * t) == re(a) * s, "scaling"); ensure(re(a / t) * s == re(a), "division by power of two"); ensure(re(a / two) * R(2) == re(a), "division by two"); ensure(re(p / two) * R(2) == re(p), "integer division by two"); if (n >= 0) { ensure(re(Dyadic(p, (Nat)n)) * s == re(p), "fraction"); ensure(re(Dyadic(p, Natural((Nat)n))) * s == re(p), "fraction with natural exponent"); } vp_cover("end"); }
SPEC(dyadic_convert) { Integer z = fresh_integer("z"); ensure(re(Dyadic(z)) == re(z), "from integer"); FloatDP x = fresh<FloatDP>("x"); FloatMP y = fresh<FloatMP>("y"); ensure(re(Dyadic(x)) == re(x), "from double float"); ensure(re(Dyadic(y)) == re(y), "from multiple-precision float"); ensure(re(Dyadic(ExactDouble(x.get_d()))) == re(x), "from exact double"); Dyadic a = fresh_dyadic("a"); Dyadic b(const_cast<mpf_ptr>(&a.get_mpf()[0])); ensure(re(b) == re(a), "from GMP float"); vp_cover("end"); }
// ---- rationals
SPEC(rational_field) { Rational a = fresh_rational("a"), b = fresh_rational("b"); R x = re(a), y = re(b); ensure(re(a + b) == x + y, "+"); ensure(re(a - b) == x - y, "-"); ensure(re(a * b) == x * y, "*"); ensure(re(-a) == -x, "unary minus"); ensure(re(sqr(a)) == x * x, "sqr"); ensure(re(nul(a)) == R(0), "nul"); ensure(re(hlf(a)) * R(2) == x, "hlf"); ensure(re(add(a, b)) == x + y, "add"); ensure(re(sub(a, b)) == x - y, "sub"); ensure(re(mul(a, b)) == x * y, "mul"); ensure(re(pos(a)) == x, "pos"); ensure(re(abs(a)) == rabs(x), "abs"); ensure(re(max(a, b)) == rmax(x, y), "max"); ensure(re(min(a, b)) == rmin(x, y), "min"); vp_cover("end"); }
SPEC(rational_divide) { Rational a = fresh_rational("a"), b = fresh_rational("b"); require(re(b) != R(0)); ensure(re(a / b) * re(b) == re(a), "/"); ensure(re(div(a, b)) * re(b) == re(a), "div"); ensure(re(rec(b)) * re(b) == R(1), "rec"); Rational r = a; r /= b; ensure(re(r) * re(b) == re(a), "/="); Integer p = fresh_integer("p"), q = fresh_integer("q"); require(re(q) != R(0)); ensure(re(Rational(p, q)) * re(q) == re(p), "fraction"); ensure(re(p / q) * re(q) == re(p), "integer quotient"); vp_cover("end"); }
SPEC(rational_inplace) { Rational a = fresh_rational("a"), b = fresh_rational("b"); R x = re(a), y = re(b); Rational r = a; r += b; ensure(re(r) == x + y, "+="); r = a; r -= b; ensure(re(r) == x - y, "-="); r = a; r *= b; ensure(re(r) == x * y, "*="); r = a; r += r; ensure(re(r) == x + x, "+= aliased"); r = a; r *= r; ensure(re(r) == x * x, "*= aliased"); Rational s(std::move(r)); ensure(re(s) == x * x, "move"); ensure((re(a) == x) & (re(b) == y), "arguments unchanged"); vp_cover("end"); }
SPEC(rational_pow) { Rational a = fresh_rational("a"); Int n = (Int)vp_choice("n", -3, 5); if (n >= 0) ensure(re(pow(a, (Nat)n)) == rpow(re(a), n), "power"); else require(re(a) != R(0)); Rational q = pow(a, n); ensure(n >= 0 ? re(q) == rpow(re(a), n) : re(q) * rpow(re(a), -n) == R(1), "integer power"); Integer z = fresh_integer("z"); if (n < 0) require(re(z) != R(0)); Rational zq = pow(z, n); ensure(n >= 0 ? re(zq) == rpow(re(z), n) : re(zq) * rpow(re(z), -n) == R(1), "integer power of integer"); vp_cover("end"); }
SPEC(rational_compare) { Rational a = fresh_rational("a"), b = fresh_rational("b"); R x = re(a), y = re(b); comparisons(a, b, x, y); compares(cmp(a, b), x, y); has_sign(sgn(a), x); exact(eq(a, b), x == y, "eq"); exact(lt(a, b), x < y, "lt"); bool z = is_zero(a), f = is_finite(a), i = is_inf(a), n = is_nan(a); ensure(iff(z, x == R(0)), "is_zero"); ensure(f && !i && !n, "finite"); vp_cover("end"); }
SPEC(rational_compare_mixed) { Rational a = fresh_rational("a"); R x = re(a); Integer k = fresh_integer("k"); comparisons(a, k, x, re(k)); comparisons(k, a, re(k), x); Dyadic w = fresh_dyadic("w"); comparisons(a, w, x, re(w)); comparisons(w, a, re(w), x); Int n = (Int)vp_choice("n", -1, 1); comparisons(a, n, x, R(n)); ExactDouble d = cast_exact(0.75); compares(cmp(a, d), x, R(0.75)); compares(cmp(d, a), R(0.75), x); vp_cover("end"); }
SPEC(rational_integer_part) { Rational a = fresh_rational("a"); R x = re(a), f = re(floor(a)), c = re(ceil(a)), r = re(round(a)); ensure((f <= x) & (x < f + R(1)), "floor"); ensure((c >= x) & (c < x + R(1)), "ceil"); ensure(rabs(r - x) * R(2) <= R(1), "round to a nearest integer"); ensure(re(a.numerator()) == x * re(a.denominator()), "numerator and denominator"); ensure(re(a.denominator()) > R(0), "positive denominator"); vp_cover("end"); }
SPEC(rational_convert) { Integer z = fresh_integer("z"); Dyadic w = fresh_dyadic("w"); FloatDP x = fresh<FloatDP>("x"); FloatMP y = fresh<FloatMP>("y"); ensure(re(Rational(z)) == re(z), "from integer"); ensure(re(Rational(w)) == re(w), "from dyadic"); ensure(re(Rational(x)) == re(x), "from double float"); ensure(re(Rational(y)) == re(y), "from multiple-precision float"); ensure(re(Rational(ExactDouble(x.get_d()))) == re(x), "from exact double"); vp_cover("end"); }
// infinite values: arithmetic and order of the extended line
template<class Q> static Q ext(int k, Q const& finite) { return k == 0 ? finite : Q::inf(k > 0 ? Sign::POSITIVE : Sign::NEGATIVE); }
template<class Q> static int kind(Q const& q) { return is_nan(q) ? 2 : is_inf(q) ? (sgn(q) == Sign::POSITIVE ? 1 : -1) : 0; }
static int sg(R x) { return (x > R(0)).b ? 1 : (x < R(0)).b ? -1 : 0; }
template<class Q> static void infinite_spec(Q const& f, Q const& g) { int i = (int)vp_choice("i", -1, 1), j = (int)vp_choice("j", -1, 1); require(i != 0 || j != 0); Q a = ext(i, f), b = ext(j, g); int si = i ? i : sg(re(f)), sj = j ? j : sg(re(g));
  ensure(kind(a) == i && kind(b) == j, "infinities"); ensure(kind(a + b) == (i == 0 ? j : j == 0 || i == j ? i : 2), "+"); ensure(kind(a - b) == (i == 0 ? -j : j == 0 || i == -j ? i : 2), "-"); ensure(kind(a * b) == (si * sj == 0 ? 2 : si * sj), "*"); ensure(kind(-a) == -i, "unary minus"); ensure(kind(abs(a)) == i * i, "abs"); ensure(kind(hlf(a)) == i, "hlf");
  Q mx = max(a, b), mn = min(a, b); ensure(kind(mx) == (i > j ? i : j), "max"); ensure(kind(mn) == (i < j ? i : j), "min"); if (kind(mx) == 0) ensure(re(mx) == (i == 0 ? re(f) : re(g)), "finite max"); if (kind(mn) == 0) ensure(re(mn) == (i == 0 ? re(f) : re(g)), "finite min");
  ensure(bool(a < b) == (i < j), "<"); ensure(bool(a == b) == (i == j), "=="); ensure(bool(a <= b) == (i <= j), "<="); ensure(bool(a > b) == (i > j), ">"); ensure(bool(a >= b) == (i >= j), ">="); ensure(sgn(a) == (si > 0 ? Sign::POSITIVE : si < 0 ? Sign::NEGATIVE : Sign::ZERO), "sign"); vp_cover("end"); }
SPEC(infinite_rational) { infinite_spec(fresh_rational("f"), fresh_rational("g")); }
SPEC(infinite_dyadic) { infinite_spec(fresh_dyadic("f"), fresh_dyadic("g")); }
SPEC(infinite_rational_divide) { Rational f = fresh_rational("f"); int i = (int)vp_choice("i", -1, 1); Rational a = ext(i, f); Rational z = Rational::inf(vp_choice("s", 0, 1) ? Sign::POSITIVE : Sign::NEGATIVE), q = a / z; ensure(i == 0 ? (B(kind(q) == 0) & (i == 0 ? re(q) == R(0) : B(true))) : B(kind(q) == 2), "division by infinity"); ensure(re(rec(z)) == R(0), "reciprocal of infinity"); Rational w(z); ensure(kind(w) == kind(z), "copy"); Rational d(Dyadic::inf(Sign::NEGATIVE)); ensure(kind(d) == -1, "from infinite dyadic"); vp_cover("end"); }
// ---- decimals
#define PLACES unsigned i = (unsigned)vp_choice("places1", 0, 2), j = (unsigned)vp_choice("places2", 0, 2); Decimal a = fresh_decimal("a", i), b = fresh_decimal("b", j); R x = re(a), y = re(b)
SPEC(decimal_ring) { PLACES; ensure(re(a + b) == x + y, "+"); ensure(re(a - b) == x - y, "-"); ensure(re(a * b) == x * y, "*"); ensure(re(-a) == -x, "unary minus"); ensure(re(+a) == x, "unary plus"); ensure(re(sqr(a)) == x * x, "sqr"); ensure(re(nul(a)) == R(0), "nul"); ensure(re(abs(a)) == rabs(x), "abs"); ensure(re(max(a, b)) == rmax(x, y), "max"); ensure(re(min(a, b)) == rmin(x, y), "min"); vp_cover("end"); }
SPEC(decimal_half) { unsigned i = (unsigned)vp_choice("places1", 0, 2); Decimal a = fresh_decimal("a", i); ensure(re(hlf(a)) * R(2) == re(a), "hlf"); Decimal r = a; r += a; ensure(re(r) == re(a) * R(2), "+= aliased"); vp_cover("end"); }
SPEC(decimal_compare) { PLACES; comparisons(a, b, x, y); compares(cmp(a, b), x, y); vp_cover("end"); }
SPEC(decimal_divide) { PLACES; require(y != R(0)); ensure(re(a / b) * y == x, "/"); vp_cover("end"); }
SPEC(decimal_convert) { PLACES; ensure(re(Rational(a)) == x, "to rational"); Integer p = fresh_integer("p"); Nat n = (Nat)vp_choice("n", 0, 1); vp_check_feasible(); (void)b; (void)y; vp_cover("end"); }
// ---- exact interval types
template<class Q> static bool infinite(Q const& q) { return is_inf(q); }
template<class Q> static B within(R x, Bounds<Q> const& b) { Q l = b.lower_raw(), u = b.upper_raw(); B p(true); if (is_inf(l)) p = p & B(sgn(l) == Sign::NEGATIVE); else p = p & (re(l) <= x); if (is_inf(u)) p = p & B(sgn(u) == Sign::POSITIVE); else p = p & (x <= re(u)); return p; }
static Bounds<Dyadic> fresh_dybounds(const char* l, const char* u) { Dyadic a = fresh_dyadic(l), b = fresh_dyadic(u); require(re(a) <= re(b)); return Bounds<Dyadic>(a, b); }
static Bounds<Rational> fresh_qbounds(const char* l, const char* u) { Rational a = fresh_rational(l), b = fresh_rational(u); require(re(a) <= re(b)); return Bounds<Rational>(a, b); }
template<class Q> static R inside(Bounds<Q> const& b, const char* n) { R x = fresh_real(n); require((re(b.lower_raw()) <= x) & (x <= re(b.upper_raw()))); return x; }
template<class L> void sound(L const& l, B p, const char* what) { bool d = definitely(l), q = !possibly(l); ensure(implies(B(d), p) & implies(B(q), !p), what); }
template<class Q> static void interval_arith(Bounds<Q> const& a, Bounds<Q> const& b) { R x = inside(a, "x"), y = inside(b, "y"); ensure(within(x + y, a + b), "+"); ensure(within(x - y, a - b), "-"); ensure(within(-x, -a), "unary minus"); ensure(within(x, +a), "unary plus"); ensure(within(x + y, add(a, b)), "add"); ensure(within(x - y, sub(a, b)), "sub"); ensure(within(-x, neg(a)), "neg"); ensure(within(x, pos(a)), "pos"); ensure(within(R(0), nul(a)), "nul"); ensure(within(x * R(1) / R(2), hlf(a)), "hlf"); ensure(within(rabs(x), abs(a)), "abs"); ensure(within(rmax(x, y), max(a, b)), "max"); ensure(within(rmin(x, y), min(a, b)), "min"); vp_cover("end"); }
SPEC(interval_dyadic_arith) { interval_arith(fresh_dybounds("al", "au"), fresh_dybounds("bl", "bu")); }
SPEC(interval_rational_arith) { interval_arith(fresh_qbounds("al", "au"), fresh_qbounds("bl", "bu")); }
template<class Q> static void interval_mul(Bounds<Q> const& a, Bounds<Q> const& b) { R x = inside(a, "x"), y = inside(b, "y"); ensure(within(x * y, a * b), "*"); ensure(within(x * y, mul(a, b)), "mul"); ensure(within(x * x, sqr(a)), "sqr"); vp_cover("end"); }
SPEC(interval_dyadic_mul) { interval_mul(fresh_dybounds("al", "au"), fresh_dybounds("bl", "bu")); }
SPEC(interval_rational_mul) { interval_mul(fresh_qbounds("al", "au"), fresh_qbounds("bl", "bu")); }
SPEC(interval_rational_div) { auto a = fresh_qbounds("al", "au"), b = fresh_qbounds("bl", "bu"); R x = inside(a, "x"), y = inside(b, "y"); require(y != R(0)); ensure(within(x / y, a / b), "/"); ensure(within(x / y, div(a, b)), "div"); ensure(within(R(1) / y, rec(b)), "rec"); vp_cover("end"); }
SPEC(interval_dyadic_pow) { auto a = fresh_dybounds("al", "au"); R x = inside(a, "x"); Nat m = (Nat)vp_choice("m", 0, 4); ensure(within(rpow(x, m), pow(a, m)), "power"); ensure(within(rpow(x, m), pow(a, (Int)m)), "integer power"); vp_cover("end"); }
SPEC(interval_rational_pow) { auto a = fresh_qbounds("al", "au"); R x = inside(a, "x"); Int n = (Int)vp_choice("m", -2, 4); if (n >= 0) { ensure(within(rpow(x, n), pow(a, (Nat)n)), "power"); ensure(within(rpow(x, n), pow(a, n)), "integer power"); } else { require((re(a.lower_raw()) > R(0)) | (re(a.upper_raw()) < R(0))); ensure(within(R(1) / rpow(x, -n), pow(a, n)), "negative power"); } vp_cover("end"); }
template<class Q> static void interval_compare(Bounds<Q> const& a, Bounds<Q> const& b) { R x = inside(a, "x"), y = inside(b, "y"); sound(a == b, x == y, "=="); sound(a != b, x != y, "!="); sound(a < b, x < y, "<"); sound(a > b, x > y, ">"); sound(a <= b, x <= y, "<="); sound(a >= b, x >= y, ">="); bool ic = inconsistent(a, b), rf = refines(a, b); ensure(implies(ic, x != y), "inconsistent bounds share no point"); ensure(implies(rf, within(x, b)), "refining bounds are contained"); ensure(implies(x == y, within(x, refinement(a, b))), "refinement keeps common points"); ensure(within(x, coarsening(a, b)) & within(y, coarsening(a, b)), "coarsening keeps all points"); vp_cover("end"); }
SPEC(interval_dyadic_compare) { interval_compare(fresh_dybounds("al", "au"), fresh_dybounds("bl", "bu")); }
SPEC(interval_rational_compare) { interval_compare(fresh_qbounds("al", "au"), fresh_qbounds("bl", "bu")); }
SPEC(interval_dyadic_sign) { auto a = fresh_dybounds("al", "au"), b = fresh_dybounds("bl", "bu"); R x = inside(a, "x"), y = inside(b, "y"); auto s = sgn(a); bool d = definitely(s), n = !possibly(s); ensure(implies(d, x > R(0)) & implies(n, x < R(0)), "sign"); bool co = consistent(a, b); ensure(implies(x == y, co), "bounds with a common point are consistent"); Dyadic e = fresh_dyadic("e"); R t = fresh_real("t"); require(rabs(t) <= re(e)); ensure(within(x + t, a.pm(e)), "widening"); vp_cover("end"); }
static B in(R x, DyadicBall const& b) { return rabs(x - re(b.value_raw())) <= re(b.error_raw()); }
static DyadicBall fresh_dyball(const char* v, const char* e) { Dyadic a = fresh_dyadic(v), b = fresh_dyadic(e); require(re(b) >= R(0)); return DyadicBall(a, b); }
SPEC(ball_dyadic) { auto a = fresh_dyball("av", "ae"), b = fresh_dyball("bv", "be"); R x = fresh_real("x"), y = fresh_real("y"); require(::in(x, a) & ::in(y, b)); ensure(::in(x + y, a + b), "+"); ensure(::in(x - y, a - b), "-"); ensure(::in(rabs(x), abs(a)), "abs"); sound(a < b, x < y, "<"); bool ic = inconsistent(a, b), rf = refines(a, b); ensure(implies(ic, x != y), "inconsistent"); ensure(implies(rf, ::in(x, b)), "refines"); ensure(within(x, Bounds<Dyadic>(a)), "to bounds"); ensure(::in(x, DyadicBall(Bounds<Dyadic>(a))), "from bounds"); ensure(::in(x, coarsening(a, b)) & ::in(y, coarsening(a, b)), "coarsening"); if ((x == y).b) ensure(::in(x, refinement(a, b)), "refinement"); vp_cover("end"); }
SPEC(ball_dyadic_mul) { auto a = fresh_dyball("av", "ae"), b = fresh_dyball("bv", "be"); R x = fresh_real("x"), y = fresh_real("y"); require(::in(x, a) & ::in(y, b)); R u = x - re(a.value_raw()), v = y - re(b.value_raw()); auto r = a * b; ensure(::in(x * y, r), "*"); vp_cover("end"); }
