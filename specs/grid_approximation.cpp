// VP-PROPERTY: P02
// VP-SOURCES: source/geometry/grid_paving.cpp source/geometry/grid.cpp source/geometry/binary_tree.cpp source/geometry/box.cpp source/geometry/interval.cpp source/geometry/set.cpp source/numeric/float_bounds.cpp source/numeric/float_upper_bound.cpp source/numeric/float_lower_bound.cpp source/numeric/float_approximation.cpp source/numeric/float_error.cpp source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp source/numeric/dyadic.cpp source/numeric/integer.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/logical.cpp
// VP-TIMEOUT: 500
// VP-BOUND: unit grids of dimension one (any truthful answers of the set) and two (exact answers), primary cells up to extent two, trees of depth at most three
// VP-ASSUME: the set approximated answers its containment tests truthfully (contract of the set interfaces); its bounding box contains it
#include "aspec.hpp"
#include "geometry/grid_paving.hpp"
#include "geometry/binary_tree.hpp"
#include "geometry/set.hpp"
using namespace vp; using namespace Ariadne;
typedef BinaryTreeNode T; typedef GridTreePaving P; typedef GridTreeSubpaving S;
static R lo(ExactBoxType const& b, SizeType i) { return re(b[i].lower_bound()); } static R hi(ExactBoxType const& b, SizeType i) { return re(b[i].upper_bound()); }
// the set [a,b]; when vague its answers may be "unknown" at any time
static R A[2] = {R(0), R(0)}, Z[2] = {R(0), R(0)}; static bool vague; static unsigned N = 1, E = 0;
static B meets(ExactBoxType const& b) { B r(true); for (unsigned i = 0; i != N; ++i) r = r & (A[i] <= hi(b, i)) & (lo(b, i) <= Z[i]); return r; }
static B overlapping(ExactBoxType const& b) { B r(true); for (unsigned i = 0; i != N; ++i) r = r & (A[i] < hi(b, i)) & (lo(b, i) < Z[i]); return r; }
static B contains(ExactBoxType const& b) { B r(true); for (unsigned i = 0; i != N; ++i) r = r & (A[i] < lo(b, i)) & (hi(b, i) < Z[i]); return r; }
static LowerKleenean answer(B truth) { if (vague && vp_fresh_int("unknown", 0, 1) != 0) return LowerKleenean(indeterminate); if (truth.b) return LowerKleenean(true); return vague ? LowerKleenean(indeterminate) : LowerKleenean(false); }
static UpperBoxType bound() { Vector<ExactIntervalType> v(N); static const char* ln[] = {"bl0", "bl1"}; static const char* un[] = {"bu0", "bu1"}; for (unsigned i = 0; i != N; ++i) { FloatDP l = fresh<FloatDP>(ln[i]), u = fresh<FloatDP>(un[i]); require((re(l) <= A[i]) & (Z[i] <= re(u))); require((re(l) > R(E == 1 ? -1 : 0)) & (re(u) < R(1))); v[i] = ExactIntervalType(l, u); } return UpperBoxType(ExactBoxType(v)); }
#define COMMON(X) virtual X* clone() const override { return new X(*this); } virtual DimensionType dimension() const override { return N; } virtual OutputStream& _write(OutputStream& os) const override { return os; }
#define SEP virtual LowerKleenean separated(ExactBoxType const& b) const override { return answer(!meets(b)); }
#define BND virtual LowerKleenean inside(ExactBoxType const&) const override { return LowerKleenean(indeterminate); } virtual UpperBoxType bounding_box() const override { return bound(); }
#define OVL virtual LowerKleenean overlaps(ExactBoxType const& b) const override { return answer(overlapping(b)); }
#define COV virtual LowerKleenean covers(ExactBoxType const& b) const override { return answer(contains(b)); }
struct CompactMock : public virtual CompactSetInterface<EffectiveTag, RealVector> { COMMON(CompactMock) SEP BND };
struct ValidatedMock : public virtual CompactSetInterface<ValidatedTag, RealVector> { COMMON(ValidatedMock) virtual ValidatedLowerKleenean separated(ExactBoxType const& b) const override { return check(answer(!meets(b)), Effort(0u)); } virtual ValidatedLowerKleenean inside(ExactBoxType const&) const override { return ValidatedLowerKleenean(false); } virtual UpperBoxType bounding_box() const override { return bound(); } };
struct RegularMock : public virtual RegularLocatedSetInterface<EffectiveTag, RealVector> { COMMON(RegularMock) SEP BND OVL COV };
struct OvertMock : public virtual OvertSetInterface<EffectiveTag, RealVector> { COMMON(OvertMock) OVL };
struct OpenMock : public virtual OpenSetInterface<EffectiveTag, RealVector> { COMMON(OpenMock) OVL COV };
static void any_set(unsigned n, unsigned e, bool v) { N = n; E = e; vague = v; static const char* an[] = {"a0", "a1"}; static const char* zn[] = {"z0", "z1"}; for (unsigned i = 0; i != n; ++i) { A[i] = fresh_real(an[i]); Z[i] = fresh_real(zn[i]); require(A[i] <= Z[i]); } }
static void grow(T* t, int depth, const char* n) { if (depth > 0 && vp_choice(n, 0, 1)) { t->split(); grow(t->left_node(), depth - 1, n); grow(t->right_node(), depth - 1, n); } else { if (vp_fresh_int(n, 0, 1) != 0) t->set_enabled(); else t->set_disabled(); } }
static P any_paving(unsigned depth, unsigned extent) { T* t = new T(false); grow(t, depth, "tree"); return P(Grid(N), extent, t); }
static B within(R const* x, ExactBoxType const& b) { B r(true); for (unsigned i = 0; i != N; ++i) r = r & (lo(b, i) <= x[i]) & (x[i] <= hi(b, i)); return r; }
static B within(R const* x, S const& p) { B r(false); for (auto i = p.begin(); i != p.end(); ++i) r = r | within(x, i->box()); return r; }
static void any_point(R* x) { x[0] = fresh_real("x0"); x[1] = N > 1 ? fresh_real("x1") : R(0); }
static B in_set(R const* x) { B r(true); for (unsigned i = 0; i != N; ++i) r = r & (A[i] <= x[i]) & (x[i] <= Z[i]); return r; }
typedef EffectiveEuclideanCompactSetInterface C; typedef EffectiveEuclideanOvertSetInterface V; typedef EffectiveEuclideanOpenSetInterface O; typedef EffectiveEuclideanLocatedSetInterface L;
// outer approximations
template<class F> static void each(S const& p, F f, const char* l) { for (auto i = p.begin(); i != p.end(); ++i) ensure(f(i->box()), l); }
static R mid(ExactBoxType const& b) { return (lo(b, 0) + hi(b, 0)) / R(2); }
template<class F> static void each_new(S const& p, S const& old, F f, const char* l) { for (auto i = p.begin(); i != p.end(); ++i) { ExactBoxType const& b = i->box(); R m[2] = {mid(b), R(0)}; ensure(f(b) | within(m, old), l); } }
static void member(R* x) { any_point(x); require(in_set(x)); }
SPEC(outer_new) { any_set(1, (unsigned)vp_choice("E", 0, 1), true); R x[2] = {0, 0}; member(x); CompactMock s; P p = outer_approximation(static_cast<C const&>(s), Grid(N), (unsigned)vp_choice("fineness", 0, 1 - E)); ensure(within(x, p), "every point of the set is in the outer approximation"); vp_cover("end"); }
SPEC(outer_validated) { any_set(1, 0, true); R x[2] = {0, 0}; any_point(x); ValidatedMock s; P p = any_paving(1, (unsigned)vp_choice("extent", 0, 1)); B old = within(x, p); p.adjoin_outer_approximation(static_cast<ValidatedEuclideanCompactSetInterface const&>(s), 0); ensure(implies(in_set(x) | old, within(x, p)), "the set and the former cells are in the paving"); P r = outer_approximation(static_cast<ValidatedEuclideanCompactSetInterface const&>(s), Grid(N), 0); ensure(implies(in_set(x), within(x, r)), "every point of the set is in the outer approximation"); vp_cover("end"); }
SPEC(outer_regular) { any_set(1, 0, true); R x[2] = {0, 0}; member(x); RegularMock s; P p = outer_approximation(static_cast<C const&>(s), Grid(N), 0); ensure(within(x, p), "every point of the set is in the outer approximation"); vp_cover("end"); }
SPEC(outer_plane) { any_set(2, 0, false); R x[2] = {0, 0}; member(x); CompactMock s; P p = outer_approximation(static_cast<C const&>(s), Grid(N), (unsigned)vp_choice("fineness", 0, 1)); ensure(within(x, p), "every point of the set is in the outer approximation"); each(p, [](ExactBoxType const& b) { return meets(b); }, "every cell meets the set when the answers are exact"); vp_cover("end"); }
SPEC(outer_adjoin) { any_set(1, 0, true); R x[2] = {0, 0}; any_point(x); CompactMock s; P p = any_paving(1, (unsigned)vp_choice("extent", 0, 2)); B old = within(x, p); p.adjoin_outer_approximation(static_cast<C const&>(s), 0); ensure(implies(in_set(x) | old, within(x, p)), "the set and the former cells are in the paving"); vp_cover("end"); }
SPEC(outer_exact) { any_set(1, 0, false); R x[2] = {0, 0}; any_point(x); CompactMock s; P p = any_paving(1, (unsigned)vp_choice("extent", 0, 2)), q(p); p.adjoin_outer_approximation(static_cast<C const&>(s), 1); ensure(implies(in_set(x) | within(x, q), within(x, p)), "the set and the former cells are in the paving"); each_new(p, q, [](ExactBoxType const& b) { return meets(b); }, "every added cell meets the set when the answers are exact"); vp_cover("end"); }
// lower approximations
template<class M> static void lower(bool v, unsigned depth = 1) { any_set(1, 0, v); M s; R x[2] = {0, 0}; any_point(x); P p = any_paving(depth, (unsigned)vp_choice("extent", 0, 1)), q(p); unsigned h = (unsigned)vp_choice("height", 0, 1); p.adjoin_lower_approximation(static_cast<V const&>(s), h, depth == 0 ? 1 - h : 1); each_new(p, q, [](ExactBoxType const& b) { return overlapping(b); }, "every added cell of the lower approximation overlaps the set"); ensure(implies(within(x, q), within(x, p)), "the former cells are kept"); vp_cover("end"); }
SPEC(lower_overt) { lower<OvertMock>(true); } SPEC(lower_open) { lower<OpenMock>(true, 0); } SPEC(lower_overt_exact) { lower<OvertMock>(false); } SPEC(lower_open_exact) { lower<OpenMock>(false); }
SPEC(lower_located) { any_set(1, 0, true); RegularMock s; P p = any_paving(0, 0), q(p); p.adjoin_lower_approximation(static_cast<L const&>(s), 1); each_new(p, q, [](ExactBoxType const& b) { return overlapping(b); }, "every added cell of the lower approximation overlaps the set"); vp_cover("end"); }
// inner approximations
static B inside_set(ExactBoxType const& b) { B r(true); for (unsigned i = 0; i != N; ++i) r = r & (A[i] <= lo(b, i)) & (hi(b, i) <= Z[i]); return r; }
template<class M> static void inner(bool v, unsigned depth = 1) { any_set(1, 0, v); M s; R x[2] = {0, 0}; any_point(x); P p = any_paving(depth, (unsigned)vp_choice("extent", 0, 1)), q(p); unsigned h = (unsigned)vp_choice("height", 0, 1); p.adjoin_inner_approximation(static_cast<O const&>(s), h, (unsigned)vp_choice("fineness", 0, depth == 0 ? 1 - h : 1)); each_new(p, q, [](ExactBoxType const& b) { return inside_set(b); }, "every added cell of the inner approximation lies in the set"); ensure(implies(within(x, q), within(x, p)), "the former cells are kept"); vp_cover("end"); }
SPEC(inner_open) { inner<OpenMock>(true); } SPEC(inner_regular) { inner<RegularMock>(true, 0); } SPEC(inner_exact) { inner<RegularMock>(false); }
SPEC(inner_new) { any_set(1, (unsigned)vp_choice("E", 0, 1), false); RegularMock s; P p = inner_approximation(static_cast<EffectiveEuclideanSetInterface const&>(s), Grid(1), 1); each(p, inside_set, "every cell of the inner approximation lies in the set"); vp_cover("end"); }
// boxes
static ExactBoxType any_box(bool thin = true) { FloatDP l = fresh<FloatDP>("l"), u = fresh<FloatDP>("u"); require((re(l) > R(-1)) & (re(u) < R(1)) & (thin ? re(l) <= re(u) : re(l) < re(u))); A[0] = re(l); Z[0] = re(u); N = 1; return ExactBoxType({ExactIntervalType(l, u)}); }
SPEC(box_outer) { ExactBoxType b = any_box(); R x[2] = {0, 0}; member(x); int k = (int)vp_choice("way", 0, 2); P p = any_paving(1, 0); if (k == 0) p = outer_approximation(b, Grid(1), 1); else if (k == 1) p = outer_approximation(b, 0); else p.adjoin_outer_approximation(UpperBoxType(b), 1); ensure(within(x, p), "the box is in its outer approximation"); if (k < 2) each(p, meets, "every cell meets the box"); vp_cover("end"); }
SPEC(box_over) { ExactBoxType b = any_box(false); R x[2] = {0, 0}; member(x); P p(Grid(1)); p.adjoin_over_approximation(b, 1); ensure(within(x, p), "the box is in its outer approximation"); each(p, meets, "every cell meets the box"); vp_cover("end"); }
SPEC(box_inner) { ExactBoxType b = any_box(false); P p(Grid(1)); p.adjoin_inner_approximation(LowerBoxType(b), 1); each(p, inside_set, "every cell lies in the box"); vp_cover("end"); }
// tests of a paving against a box
static bool yes(ValidatedLowerKleenean k) { return definitely(k); }
static ExactBoxType test_box(unsigned n, bool thin) { N = n; Vector<ExactIntervalType> v(n); static const char* ln[] = {"l0", "l1"}; static const char* un[] = {"u0", "u1"}; for (unsigned i = 0; i != n; ++i) { FloatDP l = fresh<FloatDP>(ln[i]), u = fresh<FloatDP>(un[i]); require((re(l) > R(-4)) & (re(u) < R(8)) & (thin ? re(l) <= re(u) : re(l) < re(u))); A[i] = re(l); Z[i] = re(u); v[i] = ExactIntervalType(l, u); } return ExactBoxType(v); }
SPEC(paving_covers) { ExactBoxType b = test_box(1, true); R x[2] = {0, 0}; any_point(x); P p = any_paving(2, (unsigned)vp_choice("extent", 0, 1)); bool c = yes(p.covers(b)); B left(false), right(false); for (auto i = p.begin(); i != p.end(); ++i) { left = left | ((lo(i->box(), 0) < x[0]) & (x[0] <= hi(i->box(), 0))); right = right | ((lo(i->box(), 0) <= x[0]) & (x[0] < hi(i->box(), 0))); } ensure(implies(B(c) & in_set(x), left & right), "a covered box is in the interior of the paving"); vp_cover("end"); }
SPEC(paving_superset) { ExactBoxType b = test_box(1, false); R x[2] = {0, 0}; any_point(x); P p = any_paving(2, (unsigned)vp_choice("extent", 0, 1)); bool c = p.superset(b); ensure(implies(B(c) & in_set(x), within(x, p)), "superset"); vp_cover("end"); }
SPEC(paving_inside) { ExactBoxType b = test_box(1, true); R x[2] = {0, 0}; any_point(x); P p = any_paving(2, (unsigned)vp_choice("extent", 0, 1)); bool c = yes(p.inside(b)), d = p.subset(b); ensure(implies(B(c) & within(x, p), (A[0] < x[0]) & (x[0] < Z[0])), "inside the box"); ensure(implies(B(d) & within(x, p), in_set(x)), "subset of the box"); vp_cover("end"); }
SPEC(paving_separated) { ExactBoxType b = test_box(1, true); R x[2] = {0, 0}; any_point(x); P p = any_paving(2, (unsigned)vp_choice("extent", 0, 1)); bool c = yes(p.separated(b)), d = p.disjoint(b); ensure(implies(B(c | d) & within(x, p), !in_set(x)), "separated from the box"); vp_cover("end"); }
SPEC(paving_overlaps) { ExactBoxType b = test_box(1, true); P p = any_paving(2, (unsigned)vp_choice("extent", 0, 1)); bool c = yes(p.overlaps(b)), d = p.intersects(b); B m(false), n(false); for (auto i = p.begin(); i != p.end(); ++i) { m = m | overlapping(i->box()); n = n | meets(i->box()); } ensure(implies(B(c), m), "overlaps the box"); ensure(implies(B(d), n), "intersects the box"); vp_cover("end"); }
SPEC(paving_bounding) { N = 1; R x[2] = {0, 0}; any_point(x); P p = any_paving(2, (unsigned)vp_choice("extent", 0, 2)); UpperBoxType b = p.bounding_box(); ensure(implies(within(x, p), (re(b[0].lower_bound().raw()) <= x[0]) & (x[0] <= re(b[0].upper_bound().raw()))), "in the bounding box"); vp_cover("end"); }
