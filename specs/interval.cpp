// VP-PROPERTY: G01
// VP-SOURCES: source/geometry/interval.cpp source/numeric/float_bounds.cpp source/numeric/float_upper_bound.cpp source/numeric/float_lower_bound.cpp source/numeric/float_approximation.cpp source/numeric/float_error.cpp source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp source/numeric/dyadic.cpp source/numeric/integer.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/logical.cpp
// VP-BOUND: integer exponents of pow between -2 and 4
// VP-BOUND: double-precision sqrt (Newton loop) is checked by native search only, not proved
#include "aspec.hpp"
#include "geometry/interval.hpp"
using namespace vp; using namespace Ariadne;
template<class F> F const& rawof(F const& x) { return x; }
template<class F> F rawof(UpperBound<F> const& x) { return x.raw(); }
template<class F> F rawof(LowerBound<F> const& x) { return x.raw(); }
template<class F> F rawof(Approximation<F> const& x) { return x.raw(); }
template<class U> R lo(Interval<U> const& i) { return re(rawof(i.lower_bound())); }
template<class U> R hi(Interval<U> const& i) { return re(rawof(i.upper_bound())); }
template<class U> B in(R x, Interval<U> const& i) { return (lo(i) <= x) & (x <= hi(i)); }
// any interval, possibly empty
template<class U, class F> Interval<U> any_interval(const char* l, const char* u) { F a = fresh<F>(l), b = fresh<F>(u); return Interval<U>(typename Interval<U>::LowerBoundType(a), U(b)); }
template<class U, class F> Interval<U> nonempty(const char* l, const char* u) { auto r = any_interval<U, F>(l, u); require(lo(r) <= hi(r)); return r; }
// lemma: twice an end-point is representable, so rounding the sum of the ends stays between twice the ends
template<class F, class U> void twice_representable(Interval<U> const& a) { int b = bits(rawof(a.upper_bound())); ensure((vp::rounded(1, b, R(2) * lo(a)) == R(2) * lo(a)) & (vp::rounded(1, b, R(2) * hi(a)) == R(2) * hi(a)), "twice an end is representable"); }
template<class U> R member(Interval<U> const& i, const char* n) { R x = fresh_real(n); require(in(x, i)); return x; }
#define UI(F) nonempty<UpperBound<F>, F>
// ---- arithmetic of over-approximating intervals encloses the exact range
#define UNARY(op, pre, expr) SPEC_F(upper_##op) { AnyMode m; auto a = UI(F)("l", "u"); R x = member(a, "x"); require(pre); auto r = op(a); m.restored(); ensure(in(expr, r), #op " of interval encloses"); vp_cover("end"); }
#define BINARY(op, pre, expr) SPEC_F(upper_##op) { AnyMode m; auto a = UI(F)("l1", "u1"), b = UI(F)("l2", "u2"); R x = member(a, "x"), y = member(b, "y"); require(pre); auto r = op(a, b); m.restored(); ensure(in(expr, r), #op " of intervals encloses"); vp_cover("end"); }
UNARY(pos, true, x) UNARY(neg, true, -x) UNARY(hlf, true, x / R(2)) UNARY(sqr, true, x * x) UNARY(abs, true, rabs(x)) UNARY(nul, true, R(0)) UNARY(rec, x != R(0), R(1) / x)
BINARY(add, true, x + y) BINARY(sub, true, x - y) BINARY(mul, true, x * y) BINARY(div, y != R(0), x / y) BINARY(max, true, rmax(x, y)) BINARY(min, true, rmin(x, y))
SPEC_F(upper_fma) { AnyMode m(2, 2); auto a = UI(F)("l1", "u1"), b = UI(F)("l2", "u2"), c = UI(F)("l3", "u3"); R x = member(a, "x"), y = member(b, "y"), z = member(c, "z"); auto r = fma(a, b, c); m.restored(); ensure(in(x * y + z, r), "fma of intervals encloses"); vp_cover("end"); }
SPEC_F(upper_pow) { AnyMode m(2, 2); Int n = (Int)vp_choice("n", -2, 4); auto a = UI(F)("l", "u"); R x = member(a, "x"); if (n < 0) require(x != R(0)); auto r = n >= 0 && vp_choice("nat", 0, 1) ? pow(a, Nat(n)) : pow(a, n); m.restored(); ensure(in(n >= 0 ? rpow(x, n) : R(1) / rpow(x, -n), r), "pow of interval encloses"); vp_cover("end"); }
SPEC_F(upper_sqrt) { AnyMode m(2, 2); auto a = UI(F)("l", "u"); R x = member(a, "x"); require(x >= R(0)); R y = fun("sqrt", x); auto r = sqrt(a); m.restored(); ensure(in(y, r), "sqrt of interval encloses positive root"); ensure(in(-y, r), "sqrt of interval encloses negative root"); vp_cover("end"); }
SPEC_F(upper_operators) { AnyMode m(2, 2); auto a = UI(F)("l1", "u1"), b = UI(F)("l2", "u2"); R x = member(a, "x"), y = member(b, "y"); int k = (int)vp_choice("op", 0, 5); auto r = a; R e = x; switch (k) { case 0: r = a + b; e = x + y; break; case 1: r = a - b; e = x - y; break; case 2: r = a * b; e = x * y; break; case 3: r += b; e = x + y; break; case 4: r -= b; e = x - y; break; default: r *= b; e = x * y; } m.restored(); ensure(in(e, r), "operator on intervals encloses"); vp_cover("end"); }
SPEC_F(upper_value) { AnyMode m(2, 2); auto a = UI(F)("l", "u"); F b = fresh<F>("v"); R x = member(a, "x"), y = re(b); int k = (int)vp_choice("op", 0, 3); auto r = k == 0 ? a + b : k == 1 ? b + a : k == 2 ? a * b : b * a; m.restored(); ensure(in(k < 2 ? x + y : x * y, r), "interval with exact value encloses"); vp_cover("end"); }
SPEC_F(upper_mag) { AnyMode m; auto a = UI(F)("l", "u"); R x = member(a, "x"); ensure(rabs(x) <= re(mag(a).raw()), "mag bounds every element"); ensure(rabs(x) >= re(mig(a).raw()), "mig bounds every element"); m.restored(); vp_cover("end"); }
SPEC_F(upper_compare) { auto a = UI(F)("l1", "u1"), b = UI(F)("l2", "u2"); R x = member(a, "x"), y = member(b, "y"); int k = (int)vp_choice("op", 0, 1); auto r = k ? lt(a, b) : eq(a, b); B e = k ? x < y : x == y; if (definitely(r)) ensure(e, "definite comparison holds for every pair"); if (not possibly(r)) ensure(!e, "refuted comparison fails for every pair"); vp_cover("end"); }
SPEC_F(singleton) { auto a = UI(F)("l", "u"); auto s = cast_singleton(a); ensure((re(s.lower_raw()) == lo(a)) & (re(s.upper_raw()) == hi(a)), "cast to bounds keeps the ends"); auto i = make_interval(s); ensure((lo(i) == lo(a)) & (hi(i) == hi(a)), "cast from bounds keeps the ends"); vp_cover("end"); }
// ---- predicates. A closed interval is {x: l<=x<=u}. The result is decided by the end-points.
template<class U, class F> void predicates() {
    auto a = nonempty<U, F>("l1", "u1"), b = nonempty<U, F>("l2", "u2"); R al = lo(a), au = hi(a), bl = lo(b), bu = hi(b);
    ensure(iff(subset(a, b), (bl <= al) & (au <= bu)), "subset is exact");
    ensure(iff(superset(a, b), (al <= bl) & (bu <= au)), "superset is exact");
    ensure(iff(disjoint(a, b), (au < bl) | (bu < al)), "disjoint is exact");
    ensure(iff(intersect(a, b), (bl <= au) & (al <= bu)), "intersect is exact");
    ensure(iff(separated(a, b), (au < bl) | (bu < al)), "separated is exact");
    ensure(iff(overlap(a, b), (bl < au) & (al < bu)), "overlap is exact");
    ensure(iff(inside(a, b), (bl < al) & (au < bu)), "inside is exact");
    ensure(iff(covers(a, b), (al < bl) & (bu < au)), "covers is exact");
    ensure(iff(a == b, (al == bl) & (au == bu)), "== is exact"); ensure(iff(a != b, (al != bl) | (au != bu)), "!= is exact");
    ensure(iff(equal(a, b), (al == bl) & (au == bu)), "equal is exact");
    vp_cover("end"); }
SPEC_F(exact_predicates) { predicates<F, F>(); }
SPEC_F(exact_elements) { auto a = any_interval<F, F>("l", "u"); F x = fresh<F>("x"); ensure(iff(contains(a, x), in(re(x), a)), "contains is exact"); ensure(iff(element(x, a), in(re(x), a)), "element is exact");
    ensure(iff(is_empty(a), lo(a) > hi(a)), "is_empty is exact"); ensure(iff(a.is_empty(), lo(a) > hi(a)), "is_empty is exact"); ensure(iff(is_singleton(a), lo(a) == hi(a)), "is_singleton is exact"); ensure(iff(a.is_singleton(), lo(a) == hi(a)), "is_singleton is exact"); ensure(a.is_bounded(), "an interval with finite ends is bounded"); vp_cover("end"); }
// Partial information: a result that is definite must hold for every set the approximations allow.
SPEC_F(upper_predicates) { auto a = UI(F)("l1", "u1"); auto e = nonempty<F, F>("l2", "u2"); F p = fresh<F>("p"); R al = lo(a), au = hi(a), bl = lo(e), bu = hi(e), x = member(a, "x"); auto b = Interval<UpperBound<F>>(e);
    ensure(iff(definitely(subset(a, e)), (bl <= al) & (au <= bu)), "definite subset iff every allowed set is a subset"); ensure(iff(definitely(inside(a, e)), (bl < al) & (au < bu)), "definite inside iff every allowed set is inside");
    ensure(iff(definitely(disjoint(a, b)), (au < bl) | (bu < al)), "definite disjoint iff all allowed sets are disjoint"); ensure(iff(definitely(separated(a, b)), (au < bl) | (bu < al)), "definite separated iff all allowed sets are separated");
    ensure(iff(not possibly(intersect(a, b)), (au < bl) | (bu < al)), "intersect refuted iff all allowed sets are disjoint"); ensure(implies(definitely(contains(a, p)), false), "an over-approximation never confirms membership"); ensure(iff(not possibly(contains(a, p)), (re(p) < al) | (re(p) > au)), "membership refuted iff outside");
    ensure(not definitely(a.is_empty()), "nonempty over-approximation is not definitely empty"); vp_cover("end"); }
SPEC_F(upper_empty) { auto a = any_interval<UpperBound<F>, F>("l", "u"); ensure(iff(definitely(a.is_empty()), lo(a) > hi(a)), "definitely empty iff ends cross"); ensure(iff(definitely(is_empty(a)), lo(a) > hi(a)), "definitely empty iff ends cross"); vp_cover("end"); }
SPEC_F(lower_predicates) { auto a = nonempty<LowerBound<F>, F>("l1", "u1"); auto e = nonempty<F, F>("l2", "u2"); R al = lo(a), au = hi(a), bl = lo(e), bu = hi(e); F p = fresh<F>("p");
    ensure(iff(definitely(superset(a, e)), (al <= bl) & (bu <= au)), "definite superset iff every allowed set is a superset"); ensure(iff(definitely(covers(a, e)), (al < bl) & (bu < au)), "definite covers iff every allowed set covers"); ensure(iff(definitely(overlap(a, e)), (bl < au) & (al < bu)), "definite overlap iff every allowed set overlaps");
    ensure(iff(definitely(contains(a, p)), in(re(p), a)), "membership confirmed iff inside the under-approximation"); vp_cover("end"); }
// ---- set operations
template<class U1, class U2, class F> void setops() { auto a = any_interval<U1, F>("l1", "u1"); auto b = any_interval<U2, F>("l2", "u2"); R x = fresh_real("x"); auto r = intersection(a, b); ensure(iff(in(x, r), in(x, a) & in(x, b)), "intersection is exact");
    auto h = hull(a, b); ensure((lo(h) == rmin(lo(a), lo(b))) & (hi(h) == rmax(hi(a), hi(b))), "hull is the smallest interval containing both"); vp_cover("end"); }
SPEC_F(setops_exact) { setops<F, F, F>(); }
SPEC_F(setops_upper) { setops<UpperBound<F>, UpperBound<F>, F>(); }
SPEC_F(setops_lower) { setops<LowerBound<F>, LowerBound<F>, F>(); }
SPEC_F(setops_approximate) { setops<Approximation<F>, Approximation<F>, F>(); }
SPEC_F(setops_mixed) { setops<UpperBound<F>, F, F>(); }
SPEC_F(hull_point) { auto a = any_interval<F, F>("l", "u"); F p = fresh<F>("p"); auto h = vp_choice("side", 0, 1) ? hull(a, p) : hull(p, a); ensure((lo(h) == rmin(lo(a), re(p))) & (hi(h) == rmax(hi(a), re(p))), "hull with a point is exact"); vp_cover("end"); }
SPEC_F(refine) { auto a = UI(F)("l1", "u1"), b = UI(F)("l2", "u2"); R x = fresh_real("x"); auto r = refinement(a, b); ensure(iff(in(x, r), in(x, a) & in(x, b)), "refinement is the intersection"); ensure(iff(refines(a, b), (lo(b) <= lo(a)) & (hi(a) <= hi(b))), "refines is inclusion"); ensure(iff(same(a, b), (lo(b) == lo(a)) & (hi(a) == hi(b))), "same is equality of ends"); vp_cover("end"); }
SPEC_F(set_bounds) { auto a = any_interval<F, F>("l1", "u1"), b = any_interval<F, F>("l2", "u2"), c = a, d = a, e = a; c.set_lower_bound(b.lower_bound()); d.set_upper_bound(b.upper_bound()); e.set_bounds(b.lower_bound(), b.upper_bound()); ensure((lo(c) == lo(b)) & (hi(c) == hi(a)) & (lo(d) == lo(a)) & (hi(d) == hi(b)) & (lo(e) == lo(b)) & (hi(e) == hi(b)), "setting an end changes that end only"); vp_cover("end"); }
// ---- midpoint, radius, width, splitting
SPEC_F(exact_measures) { AnyMode m; auto a = nonempty<F, F>("l", "u"); twice_representable<F>(a); R x = member(a, "x"); R mid = re(a.midpoint()); auto r = a.radius(); auto w = a.width(); auto c = a.centre(); m.restored();
    ensure((lo(a) <= mid) & (mid <= hi(a)), "midpoint is in the interval"); ensure(rabs(x - mid) <= re(r.upper_raw()), "radius reaches both ends from the midpoint"); ensure((re(w.lower_raw()) <= hi(a) - lo(a)) & (hi(a) - lo(a) <= re(w.upper_raw())), "width encloses u-l"); ensure((re(c.lower_raw()) <= (lo(a) + hi(a)) / R(2)) & ((lo(a) + hi(a)) / R(2) <= re(c.upper_raw())), "centre encloses (l+u)/2"); vp_cover("end"); }
SPEC_F(upper_measures) { AnyMode m; auto a = UI(F)("l", "u"); R x = member(a, "x"), y = member(a, "y"); R mid = re(a.midpoint()); auto r = a.radius(); auto w = a.width(); m.restored(); ensure(rabs(x - mid) <= re(r.raw()), "radius reaches every element from the midpoint"); ensure(x - y <= re(w.raw()), "width bounds the distance of elements"); vp_cover("end"); }
template<class U, class F> void splitting() { AnyMode m; auto a = nonempty<U, F>("l", "u"); twice_representable<F>(a); R x = member(a, "x"); auto p = split(a); auto l = split(a, SplitPart::LOWER), u = split(a, SplitPart::UPPER), c = split(a, SplitPart::MIDDLE); m.restored();
    ensure(in(x, p.first) | in(x, p.second), "the two halves cover the interval"); ensure(in(x, l) | in(x, u), "lower and upper part cover the interval");
    ensure((lo(p.first) == lo(a)) & (hi(p.second) == hi(a)) & (hi(p.first) == lo(p.second)) & (lo(a) <= hi(p.first)) & (hi(p.first) <= hi(a)), "the halves share the midpoint and stay in the interval"); ensure((lo(l) == lo(a)) & (hi(u) == hi(a)) & (hi(l) == lo(u)) & (lo(a) <= hi(l)) & (hi(l) <= hi(a)), "the parts share the midpoint and stay in the interval");
    vp_cover("end"); }
SPEC_F(split_exact) { splitting<F, F>(); }
SPEC_F(split_upper) { splitting<UpperBound<F>, F>(); }
// ---- widening and narrowing
SPEC_F(widened) { AnyMode m; auto a = UI(F)("l", "u"); F e = fresh<F>("e"); require(re(e) >= R(0)); R x = member(a, "x"), d = fresh_real("d"); require(rabs(d) <= re(e)); auto r = widen(a, UpperBound<F>(e)); m.restored(); ensure(in(x + d, r), "widening includes the neighbourhood"); vp_cover("end"); }
SPEC_F(narrowed) { AnyMode m; auto a = any_interval<LowerBound<F>, F>("l", "u"); F e = fresh<F>("e"); require(re(e) >= R(0)); auto r = narrow(a, UpperBound<F>(e)); m.restored(); R x = fresh_real("x"), d = fresh_real("d"); require(rabs(d) <= re(e)); require(in(x, r)); ensure(in(x + d, a), "narrowing leaves the neighbourhood inside"); vp_cover("end"); }
// ---- conversions and constants
SPEC_F(conversions) { auto e = any_interval<F, F>("l", "u"); Interval<UpperBound<F>> a(e); Interval<LowerBound<F>> b(e); Interval<Approximation<F>> c(e), d(a), g(b); ensure((lo(a) == lo(e)) & (hi(a) == hi(e)) & (lo(b) == lo(e)) & (hi(b) == hi(e)) & (lo(c) == lo(e)) & (hi(c) == hi(e)) & (lo(d) == lo(e)) & (hi(d) == hi(e)) & (lo(g) == lo(e)) & (hi(g) == hi(e)), "conversion keeps the ends"); auto x = cast_exact(a), y = cast_exact(c); ensure((lo(x) == lo(e)) & (hi(x) == hi(e)) & (lo(y) == lo(e)) & (hi(y) == hi(e)), "cast keeps the ends"); vp_cover("end"); }
SPEC_F(from_dyadic) { AnyMode m; Dyadic l = fresh_dyadic("l"), u = fresh_dyadic("u"); R x = fresh_real("x"); require((re(l) <= x) & (x <= re(u))); Interval<UpperBound<F>> a(l, u, prec<F>()); m.restored(); ensure(in(x, a), "conversion of exact ends encloses"); vp_cover("end"); }
SPEC(constants_dp) { FloatDPExactInterval e; ensure(e.is_empty(), "default interval is empty"); FloatDPExactInterval u = FloatDPExactInterval::unit_interval(); ensure((lo(u) == R(-1)) & (hi(u) == R(1)), "unit interval"); ensure(definitely(FloatDPUpperInterval::empty_interval().is_empty()), "empty interval is empty"); FloatDP x = fresh<FloatDP>("x"); ensure(contains(FloatDPExactInterval::biinfinite_interval(), x), "entire interval contains everything"); ensure(not FloatDPExactInterval::biinfinite_interval().is_bounded(), "entire interval is unbounded"); ensure(not contains(e, x), "empty interval contains nothing"); vp_cover("end"); }
SPEC(widened_domain) { AnyMode m; auto a = UI(FloatDP)("l", "u"); R x = member(a, "x"); auto r = widen_domain(a); m.restored(); ensure(in(x, r), "widened domain contains the interval"); vp_cover("end"); }
