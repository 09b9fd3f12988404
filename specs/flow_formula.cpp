// VP-PROPERTY: D03
// VP-SOURCES: source/solvers/bounder.cpp source/algebra/matrix.cpp source/algebra/vector.cpp source/algebra/differential.cpp source/algebra/expansion.cpp source/algebra/multi_index.cpp source/geometry/interval.cpp source/geometry/box.cpp source/numeric/float_literals.cpp source/numeric/float_bounds.cpp source/numeric/float_ball.cpp source/numeric/float_upper_bound.cpp source/numeric/float_lower_bound.cpp source/numeric/float_approximation.cpp source/numeric/float_error.cpp source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp source/numeric/dyadic.cpp source/numeric/integer.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/logical.cpp source/numeric/number.cpp source/numeric/real.cpp
// VP-QUERY-MS: 20000
// VP-TIMEOUT: 300
// VP-BOUND: one state variable, at most one parameter
// VP-ASSUME: the logging library (absent git submodule conclog) does nothing: shim/conclog/logging.hpp
#include "mock_function.hpp"
#define private public
#include "solvers/bounder.hpp"
#undef private
// the vector field: nothing is known of its values; the call is recorded
static Vector<X> *argument, *field; static unsigned calls;
Vector<X> Mock::_call(const Vector<X>& x) const { ++calls; argument = new Vector<X>(x); field = new Vector<X>(1, fresh_bounds<F>("yl", "yu")); return *field; }
Vector<Differential<X>> Mock::_call(const Vector<Differential<X>>& dx) const { abort(); }
static B within(X const& a, X const& b) { return (lo(b) <= lo(a)) & (hi(a) <= hi(b)); }
// one Euler step: the initial box and the field, over the domain, the time interval and the parameters, for the length of the time interval
static void doubles(R x) { for (int m = 0; m < 3; ++m) ensure(vp::rounded(m, 53, R(2) * x) == R(2) * x, "lemma: doubling is exact"); }
static void formula(bool timed, bool parametrised) { arguments = 1 + timed + parametrised; results = 1; ValidatedVectorMultivariateFunction f(std::make_shared<Mock>()); X d = fresh_bounds<F>("dl", "du"), a = fresh_bounds<F>("al", "au"), b = fresh_bounds<F>("bl", "bu"), t = fresh_bounds<F>("tl", "tu");
  doubles(lo(d)); doubles(hi(d)); BoxDomainType D(1, IntervalDomainType(d.lower_raw(), d.upper_raw())), A(parametrised ? 1 : 0, IntervalDomainType(a.lower_raw(), a.upper_raw())); IntervalDomainType T(t.lower_raw(), t.upper_raw()); UpperBoxType Bx(1, UpperIntervalType(b.lower_raw(), b.upper_raw())); EulerBounder bounder;
  static const double widenings[2][3] = {{1.0, 0.25, 1.0}, {1.0, 2.0, 1.125}}; long w = vp_choice("widening", 0, 2); UpperBoxType W = bounder._formula(f, D, T, A, Bx, cast_positive(F(cast_exact(widenings[0][w]), dp)), cast_positive(F(cast_exact(widenings[1][w]), dp)));
  ensure(B(W.dimension() == 1 && calls == 1), "one evaluation of the field"); Vector<X> const& x = *argument; ensure(within(b, x[0]), "field over the box"); if (timed) ensure(within(t, x[1]), "field over the times"); if (parametrised) ensure(within(a, x[timed ? 2 : 1]), "field over the parameters");
  R h = hi(t) - lo(t), yl = lo((*field)[0]), yu = hi((*field)[0]); R wl = re(W[0].lower_bound().raw()), wu = re(W[0].upper_bound().raw()); ensure(wl <= lo(d) + rmin(R(0), h * yl), "lower"); ensure(hi(d) + rmax(R(0), h * yu) <= wu, "upper"); vp_cover("end"); }
SPEC(euler_formula) { formula(false, false); }
SPEC(euler_formula_time) { formula(true, false); }
SPEC(euler_formula_parameter) { formula(false, true); }
SPEC(euler_formula_time_parameter) { formula(true, true); }
SPEC(time_bounds) { Dyadic a = fresh_dyadic("a"), b = fresh_dyadic("b"); require(re(a) <= re(b)); auto T = to_time_bounds(a, b); ensure((re(T.lower_bound()) <= re(a)) & (re(b) <= re(T.upper_bound())), "times in the interval"); }
