// VP-PROPERTY: G02
// VP-SOURCES: source/geometry/box.cpp source/geometry/interval.cpp source/numeric/float_bounds.cpp source/numeric/float_upper_bound.cpp source/numeric/float_lower_bound.cpp source/numeric/float_approximation.cpp source/numeric/float_error.cpp source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp source/numeric/dyadic.cpp source/numeric/integer.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/logical.cpp
// VP-BOUND: boxes of dimension up to 3
#include "aspec.hpp"
#include "geometry/box.hpp"
#include "geometry/point.hpp"
using namespace vp; using namespace Ariadne;
typedef FloatDP F;
template<class F> F const& rawof(F const& x) { return x; }
template<class F> F rawof(UpperBound<F> const& x) { return x.raw(); }
template<class F> F rawof(LowerBound<F> const& x) { return x.raw(); }
template<class F> F rawof(Approximation<F> const& x) { return x.raw(); }
template<class U> R lo(Interval<U> const& i) { return re(rawof(i.lower_bound())); }
template<class U> R hi(Interval<U> const& i) { return re(rawof(i.upper_bound())); }
template<class U> B in(R x, Interval<U> const& i) { return (lo(i) <= x) & (x <= hi(i)); }
typedef FloatDPExactInterval EI; typedef FloatDPUpperInterval UI; typedef FloatDPLowerInterval LI; typedef FloatDPApproximateInterval AI;
static const char* NAMES[] = {"a0", "a1", "a2", "a3", "b0", "b1", "b2", "b3", "c0", "c1", "c2", "c3"}; static const char* NAMEU[] = {"A0", "A1", "A2", "A3", "B0", "B1", "B2", "B3", "C0", "C1", "C2", "C3"};
template<class I> Box<I> any_box(SizeType n, int k, bool nonempty) { Box<I> r(n); for (SizeType i = 0; i != n; ++i) { F l = fresh<F>(NAMES[4 * k + i]), u = fresh<F>(NAMEU[4 * k + i]); if (nonempty) require(re(l) <= re(u)); r[i] = I(typename I::LowerBoundType(l), typename I::UpperBoundType(u)); } return r; }
template<class I1, class I2, class P> B all(Box<I1> const& a, Box<I2> const& b, P p) { B r(true); for (SizeType i = 0; i != a.dimension(); ++i) r = r & p(lo(a[i]), hi(a[i]), lo(b[i]), hi(b[i])); return r; }
template<class I1, class I2, class P> B some(Box<I1> const& a, Box<I2> const& b, P p) { B r(false); for (SizeType i = 0; i != a.dimension(); ++i) r = r | p(lo(a[i]), hi(a[i]), lo(b[i]), hi(b[i])); return r; }
template<class I1, class I2> B identical(Box<I1> const& a, Box<I2> const& b) { if (a.dimension() != b.dimension()) return B(false); return all(a, b, [](R al, R au, R bl, R bu) { return (al == bl) & (au == bu); }); }
static SizeType dim(int l, int h) { return (SizeType)vp_choice("dimension", l, h); }
static auto SUB = [](R al, R au, R bl, R bu) { return (bl <= al) & (au <= bu); }; static auto SUP = [](R al, R au, R bl, R bu) { return (al <= bl) & (bu <= au); }; static auto DIS = [](R al, R au, R bl, R bu) { return (au < bl) | (bu < al); };
static auto INS = [](R al, R au, R bl, R bu) { return (bl < al) & (au < bu); }; static auto COV = [](R al, R au, R bl, R bu) { return (al < bl) & (bu < au); }; static auto OVR = [](R al, R au, R bl, R bu) { return (bl < au) & (al < bu); };
#define PRED(name, spec) SPEC(exact_##name) { SizeType n = dim(0, 2); auto a = any_box<EI>(n, 0, true), b = any_box<EI>(n, 1, true); bool r = definitely(name(a, b)); ensure(iff(B(r), spec), #name " is exact"); vp_cover("end"); }
PRED(subset, all(a, b, SUB)) PRED(superset, all(a, b, SUP)) PRED(disjoint, some(a, b, DIS)) PRED(intersect, !some(a, b, DIS)) PRED(separated, some(a, b, DIS)) PRED(inside, all(a, b, INS)) PRED(covers, all(a, b, COV)) PRED(overlap, all(a, b, OVR)) PRED(equal, identical(a, b))
SPEC(exact_methods) { SizeType n = dim(1, 2); auto a = any_box<EI>(n, 0, true), b = any_box<EI>(n, 1, true); int k = (int)vp_choice("predicate", 0, 6); B e(true); bool r = true; switch (k) { case 0: r = definitely(a.intersects(b)); e = !some(a, b, DIS); break; case 1: r = definitely(a.disjoint(b)); e = some(a, b, DIS); break; case 2: r = definitely(a.subset(b)); e = all(a, b, SUB); break; case 3: r = definitely(a.superset(b)); e = all(a, b, SUP); break; case 4: r = definitely(a.covers(b)); e = all(a, b, COV); break; case 5: r = definitely(a.overlaps(b)); e = all(a, b, OVR); break; default: r = definitely(a.inside(b)); e = all(a, b, INS); } ensure(iff(B(r), e), "member predicate is exact"); vp_cover("end"); }
SPEC(exact_equality) { SizeType n = dim(0, 2), k = dim(0, 2); auto a = any_box<EI>(n, 0, false), b = any_box<EI>(k, 1, false); bool r = definitely(a == b), q = definitely(a != b); ensure(iff(B(r), identical(a, b)), "== is exact"); ensure(iff(B(q), !identical(a, b)), "!= is exact"); vp_cover("end"); }
SPEC(exact_empty) { SizeType n = dim(0, 3); auto a = any_box<EI>(n, 0, false); B e(false); for (SizeType i = 0; i != n; ++i) e = e | (lo(a[i]) > hi(a[i])); ensure(iff(B(definitely(a.is_empty())), e), "a box is empty iff a side is empty"); ensure(definitely(a.is_bounded()), "a box with finite sides is bounded"); vp_cover("end"); }
SPEC(upper_empty) { SizeType n = dim(0, 3); auto a = any_box<UI>(n, 0, false); B e(false); for (SizeType i = 0; i != n; ++i) e = e | (lo(a[i]) > hi(a[i])); ensure(iff(B(definitely(a.is_empty())), e), "definitely empty iff a side is definitely empty"); vp_cover("end"); }
SPEC(unbounded) { SizeType n = dim(1, 3), k = dim(0, 2); require(B(k < n)); auto a = any_box<EI>(n, 0, true); a[k] = vp_choice("end", 0, 1) ? EI(a[k].lower_bound(), FloatDP::inf(dp)) : EI(-FloatDP::inf(dp), a[k].upper_bound()); ensure(not definitely(a.is_bounded()), "a box with an infinite side is unbounded"); vp_cover("end"); }
SPEC(exact_contains) { SizeType n = dim(0, 3); auto a = any_box<EI>(n, 0, false), b = any_box<EI>(n, 1, false); Vector<F> x(n, [&](SizeType i) { return b[i].lower_bound(); }); B e(true); for (SizeType i = 0; i != n; ++i) e = e & in(re(x[i]), a[i]); ensure(iff(B(definitely(contains(a, x))), e), "contains is exact"); ensure(iff(B(definitely(element(x, a))), e), "element is exact"); ensure(iff(B(definitely(a.contains(Point<F>(x)))), e), "contains of a point is exact"); vp_cover("end"); }
SPEC(upper_predicates) { SizeType n = dim(1, 2); auto a = any_box<UI>(n, 0, true); auto b = any_box<EI>(n, 1, true); Box<UI> c(b); int k = (int)vp_choice("predicate", 0, 3); B e(true); bool r = true; switch (k) { case 0: r = definitely(subset(a, b)); e = all(a, b, SUB); break; case 1: r = definitely(inside(a, b)); e = all(a, b, INS); break; case 2: r = definitely(disjoint(a, c)); e = some(a, b, DIS); break; default: r = definitely(separated(a, c)); e = some(a, b, DIS); } ensure(iff(B(r), e), "definite result iff it holds for all sets the over-approximation allows"); vp_cover("end"); }
SPEC(lower_predicates) { SizeType n = dim(1, 2); auto a = any_box<LI>(n, 0, true); auto b = any_box<EI>(n, 1, true); int k = (int)vp_choice("predicate", 0, 2); B e(true); bool r = true; switch (k) { case 0: r = definitely(superset(a, b)); e = all(a, b, SUP); break; case 1: r = definitely(covers(a, b)); e = all(a, b, COV); break; default: r = definitely(overlap(a, b)); e = all(a, b, OVR); } ensure(iff(B(r), e), "definite result iff it holds for all sets the under-approximation allows"); vp_cover("end"); }
SPEC(refining) { SizeType n = dim(1, 2); auto a = any_box<UI>(n, 0, true), b = any_box<UI>(n, 1, true); ensure(iff(B(refines(a, b)), all(a, b, SUB)), "refines is inclusion"); ensure(iff(B(same(a, b)), identical(a, b)), "same is equality of ends"); vp_cover("end"); }
template<class I> void setops() { SizeType n = dim(0, 2); auto a = any_box<I>(n, 0, false), b = any_box<I>(n, 1, false); auto r = intersection(a, b), h = hull(a, b); ensure(B(r.dimension() == n && h.dimension() == n), "dimension kept"); for (SizeType i = 0; i != n; ++i) { ensure((lo(r[i]) == rmax(lo(a[i]), lo(b[i]))) & (hi(r[i]) == rmin(hi(a[i]), hi(b[i]))), "intersection is exact"); ensure((lo(h[i]) == rmin(lo(a[i]), lo(b[i]))) & (hi(h[i]) == rmax(hi(a[i]), hi(b[i]))), "hull is exact"); } vp_cover("end"); }
SPEC(setops_exact) { setops<EI>(); } SPEC(setops_upper) { setops<UI>(); }
SPEC(hull_point) { SizeType n = dim(0, 2); auto a = any_box<EI>(n, 0, false), b = any_box<EI>(n, 1, false); Vector<F> v(n, [&](SizeType i) { return b[i].lower_bound(); }); Point<F> p(v); auto h = vp_choice("side", 0, 1) ? hull(a, p) : hull(p, a); for (SizeType i = 0; i != n; ++i) ensure((lo(h[i]) == rmin(lo(a[i]), re(v[i]))) & (hi(h[i]) == rmax(hi(a[i]), re(v[i]))), "hull with a point is exact"); vp_cover("end"); }
// ---- splitting: the parts cover the box, agree with it off the split coordinate, and stay inside it
template<class I> void split_check(Box<I> const& a, SizeType k, Box<I> const& l, Box<I> const& u) { for (SizeType i = 0; i != a.dimension(); ++i) { if (i != k) ensure((lo(l[i]) == lo(a[i])) & (hi(l[i]) == hi(a[i])) & (lo(u[i]) == lo(a[i])) & (hi(u[i]) == hi(a[i])), "other sides unchanged by split"); else ensure((lo(l[i]) == lo(a[i])) & (hi(u[i]) == hi(a[i])) & (hi(l[i]) == lo(u[i])) & (lo(a[i]) <= hi(l[i])) & (hi(l[i]) <= hi(a[i])), "the parts share the midpoint and cover the side"); } }
template<class I> void twice_representable(I const& a) { ensure((vp::rounded(1, 53, R(2) * lo(a)) == R(2) * lo(a)) & (vp::rounded(1, 53, R(2) * hi(a)) == R(2) * hi(a)), "twice an end is representable"); }
template<class I> void split_at() { AnyMode m(2, 2); SizeType n = dim(1, 3), k = (SizeType)vp_choice("k", 0, 2); require(B(k < n)); auto a = any_box<I>(n, 0, true); for (SizeType i = 0; i != n; ++i) twice_representable(a[i]); if (vp_choice("pair", 0, 1)) { auto p = a.split(k); m.restored(); split_check(a, k, p.first, p.second); } else { auto l = a.split(k, SplitPart::LOWER), u = a.split(k, SplitPart::UPPER); m.restored(); split_check(a, k, l, u); } vp_cover("end"); }
SPEC(split_at_exact) { split_at<EI>(); } SPEC(split_at_upper) { split_at<UI>(); }
template<class I> void split_widest() { AnyMode m(2, 2); SizeType n = dim(1, 3); auto a = any_box<I>(n, 0, true); for (SizeType i = 0; i != n; ++i) twice_representable(a[i]); R x[3] = {R(0), R(0), R(0)}; static const char* xs[] = {"x0", "x1", "x2"}; for (SizeType i = 0; i != n; ++i) { x[i] = fresh_real(xs[i]); require(in(x[i], a[i])); } auto p = a.split(); m.restored(); B l(true), u(true); for (SizeType i = 0; i != n; ++i) { l = l & in(x[i], p.first[i]); u = u & in(x[i], p.second[i]); } ensure(l | u, "the halves cover the box"); vp_cover("end"); }
SPEC(split_widest_exact) { split_widest<EI>(); } SPEC(split_widest_upper) { split_widest<UI>(); }
template<class I> void split_along_widest() { SizeType n = dim(2, 4); static const char* ws[] = {"w0", "w1", "w2", "w3"}; long w[4] = {0, 0, 0, 0}, top = 0; Box<I> a(n, I(0, 1)); for (SizeType i = 0; i != n; ++i) { w[i] = vp_choice(ws[i], 1, 3); a[i] = I((Int)(i) - 2, (Int)(i) - 2 + (Int)w[i]); if (w[i] > top) top = w[i]; } auto p = a.split(); SizeType k = n; for (SizeType i = 0; i != n; ++i) if ((hi(p.first[i]) < hi(a[i])).b) k = i; ensure(B(k != n), "a side is halved"); if (k != n) { ensure(B(w[k] == top), "the side halved is one of the widest"); split_check(a, k, p.first, p.second); } auto l = a.split(SplitPart::LOWER), u = a.split(SplitPart::UPPER); for (SizeType i = 0; i != n; ++i) ensure((lo(l[i]) == lo(p.first[i])) & (hi(l[i]) == hi(p.first[i])) & (lo(u[i]) == lo(p.second[i])) & (hi(u[i]) == hi(p.second[i])), "the parts are those of the pair"); vp_cover("end"); }
SPEC(split_along_widest_exact) { split_along_widest<EI>(); } SPEC(split_along_widest_upper) { split_along_widest<UI>(); }
// ---- measures
SPEC(exact_measures) { AnyMode m(2, 2); SizeType n = dim(1, 2), k = (SizeType)vp_choice("k", 0, 1); require(B(k < n)); auto a = any_box<EI>(n, 0, true); R x = fresh_real("x"); require(in(x, a[k])); auto c = a.midpoint(); auto r = a.radius();  m.restored(); R d = hi(a[k]) - lo(a[k]); ensure(rabs(x - re(c[k])) <= re(r.upper_raw()), "radius reaches every point from the midpoint"); vp_cover("end"); }
SPEC(upper_measures) { AnyMode m(2, 2); SizeType n = dim(1, 2), k = (SizeType)vp_choice("k", 0, 1); require(B(k < n)); auto a = any_box<UI>(n, 0, true); R x = fresh_real("x"), y = fresh_real("y"); require(in(x, a[k])); require(in(y, a[k])); auto c = a.midpoint(); auto r = a.radius();  m.restored(); ensure(rabs(x - re(c[k])) <= re(r.raw()), "radius reaches every point from the midpoint"); vp_cover("end"); }
SPEC(exact_radii) { AnyMode m(2, 2); SizeType n = dim(1, 2), k = (SizeType)vp_choice("k", 0, 1); require(B(k < n)); auto a = any_box<EI>(n, 0, true); R x = fresh_real("x"); require(in(x, a[k])); R c = re(a[k].midpoint()); auto rs = a.radii(); auto ws = a.widths(); m.restored(); R d = hi(a[k]) - lo(a[k]); ensure(rabs(x - c) <= re(rs[k].upper_raw()), "radii reach every point from the midpoint"); ensure((re(ws[k].lower_raw()) <= d) & (d <= re(ws[k].upper_raw())), "widths enclose the side lengths"); vp_cover("end"); }
SPEC(upper_radii) { AnyMode m(2, 2); SizeType n = dim(1, 2), k = (SizeType)vp_choice("k", 0, 1); require(B(k < n)); auto a = any_box<UI>(n, 0, true); R x = fresh_real("x"), y = fresh_real("y"); require(in(x, a[k])); require(in(y, a[k])); R c = re(a[k].midpoint()); auto rs = a.radii(); auto ws = a.widths(); m.restored(); ensure(rabs(x - c) <= re(rs[k].raw()), "radii reach every point from the midpoint"); ensure(x - y <= re(ws[k].raw()), "widths bound the side lengths"); vp_cover("end"); }
SPEC(sizes) { AnyMode m(2, 2); SizeType n = dim(1, 2); auto a = any_box<EI>(n, 0, true); auto s = a.semiperimeter(), v = a.measure(); m.restored(); R e(0), p(1); for (SizeType i = 0; i != n; ++i) { R w = hi(a[i]) - lo(a[i]); e = e + w; p = p * w; } ensure((re(s.lower_raw()) <= e) & (e <= re(s.upper_raw())), "semiperimeter encloses the sum of the sides"); ensure((re(v.lower_raw()) <= p) & (p <= re(v.upper_raw())), "measure encloses the product of the sides"); vp_cover("end"); }
SPEC(corners) { SizeType n = dim(0, 3); auto a = any_box<EI>(n, 0, true); auto l = a.lower_bounds(), u = a.upper_bounds(); ensure(B(l.size() == n && u.size() == n), "corner has the dimension of the box"); for (SizeType i = 0; i != n; ++i) ensure((re(l[i]) == lo(a[i])) & (re(u[i]) == hi(a[i])), "corners are the ends"); vp_cover("end"); }
SPEC(vertices) { SizeType n = dim(1, 3); auto a = any_box<EI>(n, 0, true); for (SizeType i = 0; i != n; ++i) require(lo(a[i]) < hi(a[i])); auto v = a.vertices(); ensure(B(v.size() == (SizeType(1) << n)), "a box has 2^n vertices"); for (SizeType c = 0; c != (SizeType(1) << n); ++c) { B found(false); for (SizeType j = 0; j != v.size(); ++j) { B e(true); for (SizeType i = 0; i != n; ++i) e = e & (re(v[j][i]) == ((c >> i & 1) ? hi(a[i]) : lo(a[i]))); found = found | e; } ensure(found, "every corner is a vertex"); } vp_cover("end"); }
// ---- products, projections
SPEC(products) { SizeType n = dim(0, 2), k = (SizeType)vp_choice("n2", 0, 2), q = (SizeType)vp_choice("n3", 0, 1); auto a = any_box<EI>(n, 0, false), b = any_box<EI>(k, 1, false), c = any_box<EI>(q, 2, false); auto p = product(a, b), t = product(a, b, c); ensure(B(p.dimension() == n + k && t.dimension() == n + k + q), "dimension of product"); auto eq = [](EI const& x, EI const& y) { return (lo(x) == lo(y)) & (hi(x) == hi(y)); }; for (SizeType i = 0; i != n; ++i) ensure(eq(p[i], a[i]) & eq(t[i], a[i]), "first factor"); for (SizeType i = 0; i != k; ++i) ensure(eq(p[n + i], b[i]) & eq(t[n + i], b[i]), "second factor"); for (SizeType i = 0; i != q; ++i) ensure(eq(t[n + k + i], c[i]), "third factor"); if (q) { auto s = product(a, c[0]), w = join(a, c[0], b); ensure(B(s.dimension() == n + 1 && w.dimension() == n + k + 1), "dimension of product with interval"); for (SizeType i = 0; i != n; ++i) ensure(eq(s[i], a[i]) & eq(w[i], a[i]), "first factor"); ensure(eq(s[n], c[0]) & eq(w[n], c[0]), "interval factor"); for (SizeType i = 0; i != k; ++i) ensure(eq(w[n + 1 + i], b[i]), "third factor"); } vp_cover("end"); }
SPEC(projections) { SizeType n = dim(1, 3), k = (SizeType)vp_choice("k", 0, 2); require(B(k < n)); auto a = any_box<EI>(n, 0, false); auto eq = [](EI const& x, EI const& y) { return (lo(x) == lo(y)) & (hi(x) == hi(y)); }; auto d = remove(a, k); ensure(B(d.dimension() == n - 1), "dimension after removal"); for (SizeType i = 0; i + 1 != n && i < n; ++i) ensure(eq(d[i], a[i < k ? i : i + 1]), "remaining sides"); Array<SizeType> ix(2); ix[0] = k; ix[1] = 0; auto p = project(a, ix); ensure(B(p.dimension() == 2), "dimension of projection"); ensure(eq(p[0], a[k]) & eq(p[1], a[0]), "projected sides"); auto r = project(a, Range(k, n)); ensure(B(r.dimension() == n - k), "dimension of range"); for (SizeType i = 0; i != n - k; ++i) ensure(eq(r[i], a[k + i]), "sides of range"); vp_cover("end"); }
// ---- widening
SPEC(widened) { AnyMode m(2, 2); SizeType n = dim(1, 2); auto a = any_box<UI>(n, 0, true); F e = fresh<F>("e"); require(re(e) >= R(0)); R d = fresh_real("d"); require(rabs(d) <= re(e)); auto r = widen(a, FloatDPUpperBound(e)); m.restored(); for (SizeType i = 0; i != n; ++i) { R x = fresh_real("x"); require(in(x, a[i])); ensure(in(x + d, r[i]), "widening includes the neighbourhood"); } vp_cover("end"); }
SPEC(conversions) { SizeType n = dim(0, 2); auto a = any_box<EI>(n, 0, false); Box<UI> u(a); Box<AI> p(a); Box<LI> l(a); ensure(identical(a, u) & identical(a, p) & identical(a, l), "conversion keeps the ends"); auto s = cast_singleton(u); ensure(B(s.size() == n), "size kept"); for (SizeType i = 0; i != n; ++i) ensure((re(s[i].lower_raw()) == lo(a[i])) & (re(s[i].upper_raw()) == hi(a[i])), "cast to bounds keeps the ends"); ensure(identical(cast_exact_box(p), a), "cast to exact keeps the ends"); vp_cover("end"); }
