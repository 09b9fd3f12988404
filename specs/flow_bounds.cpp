// VP-PROPERTY: D03
// VP-SOURCES: source/solvers/bounder.cpp source/algebra/matrix.cpp source/algebra/vector.cpp source/algebra/differential.cpp source/algebra/expansion.cpp source/algebra/multi_index.cpp source/geometry/interval.cpp source/geometry/box.cpp source/numeric/float_literals.cpp source/numeric/float_bounds.cpp source/numeric/float_ball.cpp source/numeric/float_upper_bound.cpp source/numeric/float_lower_bound.cpp source/numeric/float_approximation.cpp source/numeric/float_error.cpp source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp source/numeric/dyadic.cpp source/numeric/integer.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/logical.cpp source/numeric/number.cpp source/numeric/real.cpp
// VP-QUERY-MS: 20000
// VP-TIMEOUT: 300
// VP-BOUND: one state variable, at most one parameter, at most one reduction of the step size
// VP-ASSUME: the logging library (absent git submodule conclog) does nothing: shim/conclog/logging.hpp
#include "mock_function.hpp"
#define private public
#include "solvers/bounder.hpp"
#undef private
Vector<X> Mock::_call(const Vector<X>& x) const { abort(); }
Vector<Differential<X>> Mock::_call(const Vector<Differential<X>>& dx) const { Vector<Differential<X>> r(1, Differential<X>(arguments, 1, X(0, dp))); r[0].set_gradient(0, X(F(-2.0_x, dp), F(2.0_x, dp))); return r; }
// the Euler step, by its contract (flow_formula.cpp): the flow from D over the times T stays in the result as long as it stays in the argument
struct Call { bool wide; R dl, du, tl, tu, al, au, bl, bu, wl, wu; };
static Call* calls[40]; static unsigned count; static bool timed, parametrised; static unsigned failing; static bool short_;
static R l(UpperBoxType const& b) { return re(b[0].lower_bound().raw()); }
static R u(UpperBoxType const& b) { return re(b[0].upper_bound().raw()); }
extern "C" const char vptarget_formula[] = "Ariadne::EulerBounder::_formula(Ariadne::Function<Ariadne::ValidatedTag, Ariadne::Vector<Ariadne::Real> (Ariadne::Vector<Ariadne::Real>)> const&, Ariadne::Box<Ariadne::Interval<Ariadne::Float<Ariadne::DoublePrecision>>> const&, Ariadne::Interval<Ariadne::Float<Ariadne::DoublePrecision>> const&, Ariadne::Box<Ariadne::Interval<Ariadne::Float<Ariadne::DoublePrecision>>> const&, Ariadne::Box<Ariadne::Interval<Ariadne::UpperBound<Ariadne::Float<Ariadne::DoublePrecision>>>> const&, Ariadne::Positive<Ariadne::Float<Ariadne::DoublePrecision>>, Ariadne::Positive<Ariadne::Float<Ariadne::DoublePrecision>>) const";
extern "C" UpperBoxType vpcontract_formula(EulerBounder const*, ValidatedVectorMultivariateFunction const& f, BoxDomainType const& D, IntervalDomainType const& T, BoxDomainType const& A, UpperBoxType const& Bx, PositiveFloatDP w1, PositiveFloatDP w2) { X w = fresh_bounds<F>("wl", "wu"); R z(0); ensure(R(1) <= re(w2), "the field is not shrunk"); if (count < failing) require(lo(w) < l(Bx));
  calls[count++] = new Call{!same_term(re(w2), R(1)), re(D[0].lower_bound()), re(D[0].upper_bound()), re(T.lower_bound()), re(T.upper_bound()), parametrised ? re(A[0].lower_bound()) : z, parametrised ? re(A[0].upper_bound()) : z, l(Bx), u(Bx), lo(w), hi(w)}; return UpperBoxType(1, UpperIntervalType(w.lower_raw(), w.upper_raw())); }
// the set in which the flow is known to stay: a step into its own argument, and steps from a set in which the flow is known to stay
static B chain(UpperBoxType const& result, X const& d, X const& a, R t, R h, bool widened) { R zl(0), zu(0); bool known = false; for (unsigned k = 0; k != count; ++k) { Call& c = *calls[k]; if (c.wide != widened && !widened) continue; B valid = (c.dl <= lo(d)) & (hi(d) <= c.du) & (timed ? (c.tl <= t) & (t + h <= c.tu) : h <= c.tu - c.tl); if (parametrised) valid = valid & (c.al <= lo(a)) & (hi(a) <= c.au);
    B now = valid & (((c.bl <= c.wl) & (c.wu <= c.bu)) | (B(known) & (c.bl <= zl) & (zu <= c.bu))); if (!now.b) continue; zl = known ? rmax(zl, c.wl) : c.wl; zu = known ? rmin(zu, c.wu) : c.wu; known = true; }
  return B(known) & (l(result) <= zl) & (zu <= u(result)); }
// the time interval, by its contract (flow_formula.cpp)
extern "C" const char vptarget_times[] = "Ariadne::to_time_bounds(Ariadne::Dyadic const&, Ariadne::Dyadic const&)";
extern "C" Interval<FloatDP> vpcontract_times(Dyadic const& tl, Dyadic const& tu) { X t = fresh_bounds<F>("tl", "tu"); require((lo(t) <= re(tl)) & (re(tu) <= hi(t))); return Interval<FloatDP>(t.lower_raw(), t.upper_raw()); }
static void bounds(bool t_, bool p_) { timed = t_; parametrised = p_; arguments = 1 + timed + parametrised; results = 1; ValidatedVectorMultivariateFunction f(std::make_shared<Mock>());
  X d = fresh_bounds<F>("dl", "du"), a = fresh_bounds<F>("al", "au"); Dyadic hs(fresh_dyadic("hsug")), t0(timed ? fresh_dyadic("t") : Dyadic(0)); R H = re(hs); require(short_ ? (R(1) / R(64) <= H) & (H < R(1) / R(4)) : (R(1) / R(4) < H) & (H <= R(1)));
  BoxDomainType D(1, IntervalDomainType(d.lower_raw(), d.upper_raw())), A(parametrised ? 1 : 0, IntervalDomainType(a.lower_raw(), a.upper_raw())); EulerBounder bounder(LipschitzTolerance(0.5_x), MinimumStepSize(failing ? 0.1875_x : 1.0_x)); vp_may_throw();
  auto hB = timed ? bounder.compute(f, D, t0, A, suggest(hs)) : bounder.compute(f, D, A, suggest(hs)); R h = re(hB.first), t = re(t0); ensure((R(0) < h) & (h <= H), "step not longer than suggested"); ensure(B(hB.second.dimension() == 1), "dimension");
  B kept = chain(hB.second, d, a, t, h, false); if (!kept.b) kept = chain(hB.second, d, a, t, h, true); ensure(kept, "the flow stays in the bounds"); vp_cover("end"); }
SPEC(flow_bounds) { bounds(false, false); }
SPEC(flow_bounds_time) { bounds(true, false); }
SPEC(flow_bounds_short) { short_ = true; bounds(false, false); }
SPEC(flow_bounds_short_time) { short_ = true; bounds(true, false); }
SPEC(flow_bounds_reduced) { failing = 9; bounds(false, false); }
SPEC(flow_bounds_parameter) { bounds(false, true); }
SPEC(flow_bounds_time_parameter) { bounds(true, true); }
SPEC(flow_bounds_reduced_time) { failing = 9; bounds(true, false); }
