// VP-PROPERTY: P01
// VP-SOURCES: source/geometry/grid_paving.cpp source/geometry/grid.cpp source/geometry/binary_tree.cpp source/geometry/box.cpp source/geometry/interval.cpp source/numeric/float_bounds.cpp source/numeric/float_upper_bound.cpp source/numeric/float_lower_bound.cpp source/numeric/float_approximation.cpp source/numeric/float_error.cpp source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp source/numeric/dyadic.cpp source/numeric/integer.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/logical.cpp
// VP-TIMEOUT: 500
// VP-BOUND: grids of dimension one and two, primary cells up to extent two (one in the plane), trees of depth at most two with arbitrary marks
#include "aspec.hpp"
#include "geometry/grid_paving.hpp"
#include "geometry/binary_tree.hpp"
#include "function/projection.hpp"
using namespace vp; using namespace Ariadne;
typedef BinaryTreeNode T; typedef GridTreePaving P; typedef GridTreeSubpaving S;
static const unsigned D = 4;   // the depth below the largest primary cell at which sets are compared
static bool mark(const char* n) { return vp_fresh_int(n, 0, 1) != 0; }
static void grow(T* t, int depth, const char* n) { if (depth > 0 && vp_choice(n, 0, 1)) { t->split(); grow(t->left_node(), depth - 1, n); grow(t->right_node(), depth - 1, n); } else { if (mark(n)) t->set_enabled(); else t->set_disabled(); } }
static T* any_tree(const char* n, int depth) { T* t = new T(false); grow(t, depth, n); return t; }
static unsigned cells(T const* t, unsigned d) { unsigned w = 1u << d; if (t->is_leaf()) return (0u - (unsigned)t->is_enabled()) & ((1u << w) - 1u); return cells(t->left_node(), d - 1) | cells(t->right_node(), d - 1) << (w / 2); }
static Grid the_grid(unsigned n) { return Grid(n); }
static unsigned top(unsigned n) { return n == 1 ? 2 : 1; }
// the path to a primary cell: a primary cell is the upper half of the next one if that has odd extent, and the lower half otherwise
static BinaryWord rooted(unsigned n, unsigned extent, BinaryWord const& w, unsigned from) { BinaryWord r; for (unsigned e = from; e > extent; --e) for (unsigned j = 0; j != n; ++j) r.push_back(e % 2 == 1); for (std::size_t i = 0; i != w.size(); ++i) r.push_back(w[i]); return r; }
static unsigned first(BinaryWord const& w) { unsigned lo = 0, m = 1u << D; for (std::size_t i = 0; i != w.size(); ++i) { m /= 2; if (w[i]) lo += m; } return lo; }
static unsigned cells(GridCell const& c) { unsigned n = (unsigned)c.grid().dimension(); BinaryWord w = rooted(n, c.root_extent(), c.word(), top(n)); unsigned m = 1u << (D - w.size()); return ((1u << m) - 1u) << first(w); }
static unsigned cells(S const& s) { GridCell c = s.root_cell(); unsigned n = (unsigned)c.grid().dimension(); BinaryWord w = rooted(n, c.root_extent(), c.word(), top(n)); return cells(s.binary_tree(), D - (unsigned)w.size()) << first(w); }
static BinaryWord any_word(long lo, long hi, const char* n = "word") { BinaryWord w; long k = vp_choice("length", lo, hi); for (long i = 0; i != k; ++i) w.push_back(vp_choice(n, 0, 1) != 0); return w; }
static P any_paving(unsigned n, const char* m, int depth) { unsigned e = (unsigned)vp_choice("extent", 0, top(n)); return P(the_grid(n), e, any_tree(m, depth)); }
static GridCell any_cell(unsigned n, long len = 2, const char* m = "word") { unsigned e = (unsigned)vp_choice("extent", 0, top(n)); return GridCell(the_grid(n), e, any_word(0, len, m)); }
static unsigned any_dimension() { return (unsigned)vp_choice("dimension", 1, 2); }
// boxes of cells
static R lo(ExactBoxType const& b, SizeType i) { return re(b[i].lower_bound()); } static R hi(ExactBoxType const& b, SizeType i) { return re(b[i].upper_bound()); }
static void expect_box(ExactBoxType const& b, unsigned n, unsigned extent, BinaryWord const& w, R* l, R* u) { long a = 0, z = 1; for (unsigned e = 1; e <= extent; ++e) { if (e % 2 == 1) a = 2 * a - z; else z = 2 * z - a; } for (unsigned j = 0; j != n; ++j) { l[j] = R(a); u[j] = R(z); } for (std::size_t i = 0; i != w.size(); ++i) { unsigned j = i % n; R m = (l[j] + u[j]) / R(2); if (w[i]) l[j] = m; else u[j] = m; } ensure(B(b.dimension() == n), "dimension"); for (unsigned j = 0; j != n; ++j) ensure((lo(b, j) == l[j]) & (hi(b, j) == u[j]), "the box of a cell is found by repeated halving"); }
SPEC(c_box) { unsigned n = (unsigned)vp_choice("n", 1, 3), e = (unsigned)vp_choice("e", 0, 4); BinaryWord w = any_word(0, 4); GridCell c(the_grid(n), e, w); R l[3] = {0, 0, 0}, u[3] = {0, 0, 0}; expect_box(c.box(), n, e, w, l, u); ensure(B(c.word() == w && c.root_extent() == e && c.dimension() == n && c.depth() == (int)w.size() - (int)(e * n) && c.root_height() == e * n), "parts"); auto h = c.split(); GridCell a = c.split(false), b = c.split(true); ensure(B(h.first == a && h.second == b), "halves"); BinaryWord v = w; v.push_back(true); R l2[3] = {0, 0, 0}, u2[3] = {0, 0, 0}; expect_box(b.box(), n, e, v, l2, u2); v.set_back(false); expect_box(a.box(), n, e, v, l2, u2); vp_cover("end"); }
// cells of a grid with any origin and spacing
SPEC(c_grid) { FloatDP o[2] = {fresh<FloatDP>("o0"), fresh<FloatDP>("o1")}, s[2] = {fresh<FloatDP>("s0"), fresh<FloatDP>("s1")}; for (int i = 0; i != 2; ++i) { require(re(s[i]) > R(0)); require((re(o[i]) <= R(1000)) & (re(o[i]) >= R(-1000)) & (re(s[i]) <= R(1000))); } Vector<FloatDP> vo = {o[0], o[1]}, vs = {s[0], s[1]}; Grid g(vo, vs); ensure(B(g.dimension() == 2), "dimension"); for (int i = 0; i != 2; ++i) ensure((re(g.origin()[i]) == re(o[i])) & (re(g.lengths()[i]) == re(s[i])), "grid"); unsigned e = (unsigned)vp_choice("e", 0, 2); BinaryWord w = any_word(0, 2); GridCell c(g, e, w); auto h = c.split(); int j = w.size() % 2; ExactBoxType const &b = c.box(), &f = h.first.box(), &k = h.second.box(); ensure((lo(f, j) == lo(b, j)) & (hi(k, j) == hi(b, j)) & (hi(f, j) == lo(k, j)), "the halves of a cell fill it"); ensure((lo(f, 1 - j) == lo(b, 1 - j)) & (hi(f, 1 - j) == hi(b, 1 - j)) & (lo(k, 1 - j) == lo(b, 1 - j)) & (hi(k, 1 - j) == hi(b, 1 - j)), "the other side is kept"); ensure((lo(b, 0) <= hi(b, 0)) & (lo(b, 1) <= hi(b, 1)), "ordered"); Grid q(g), r(2u); r = g; ensure(B(q == g && r == g && !(q != g)), "copies"); Grid jn = join(g, g); ensure(B(jn.dimension() == 4) & (re(jn.origin()[3]) == re(o[1])) & (re(jn.lengths()[2]) == re(s[0])), "join"); vp_cover("end"); }
SPEC(c_compare) { unsigned n = any_dimension(); GridCell a = any_cell(n), b = any_cell(n); unsigned x = cells(a), y = cells(b); ensure(B((a == b) == (x == y)), "cells are equal if they are the same region"); bool l = a < b, g = b < a; ensure(B((int)l + (int)g + (int)(x == y) == 1), "order is total"); bool s = (x & ~y) == 0; ensure(B(subset(a, b, nullptr, nullptr, nullptr) == s), "containment"); BinaryWord p, q; Nat h = 0; bool t = subset(a, b, &p, &q, &h); ensure(B(t == s && h == (a.root_extent() > b.root_extent() ? a.root_extent() : b.root_extent())), "containment, with paths"); ensure(B(p == rooted(n, a.root_extent(), a.word(), h) && q == rooted(n, b.root_extent(), b.word(), h)), "paths"); GridCell c(a); c = b; ensure(B(c == b && c.word() == b.word()), "assignment"); vp_cover("end"); }
SPEC(c_primary) { unsigned n = any_dimension(); unsigned f = (unsigned)vp_choice("from", 0, 3), t = (unsigned)vp_choice("to", 0, 3); BinaryWord w = GridCell::primary_cell_path(n, f, t); ensure(B(w == (f > t ? rooted(n, t, BinaryWord(), f) : BinaryWord())), "path between primary cells"); if (f >= t) { GridCell a(the_grid(n), f, w), b(the_grid(n), t, BinaryWord()); for (unsigned j = 0; j != n; ++j) ensure((lo(a.box(), j) == lo(b.box(), j)) & (hi(a.box(), j) == hi(b.box(), j)), "the path leads to the same box"); } vp_cover("end"); }
SPEC(c_neighbour) { unsigned n = any_dimension(); GridCell c = any_cell(n); unsigned d = (unsigned)vp_choice("direction", 0, n - 1); GridCell a = GridCell::neighboringCell(c.grid(), c.root_extent(), c.word(), d); for (unsigned j = 0; j != n; ++j) { R l = lo(c.box(), j), u = hi(c.box(), j); if (j == d) ensure((lo(a.box(), j) == u) & (hi(a.box(), j) == u + u - l), "the neighbour adjoins the cell"); else ensure((lo(a.box(), j) == l) & (hi(a.box(), j) == u), "and has the same other sides"); } vp_cover("end"); }
SPEC(c_interior) { unsigned n = any_dimension(); GridCell c = any_cell(n); GridOpenCell o = c.interior(); GridOpenCell p(c.grid(), o.root_extent(), o.word()); for (unsigned j = 0; j != n; ++j) ensure((lo(o.box(), j) == lo(c.box(), j)) & (hi(o.box(), j) == hi(c.box(), j)) & (lo(p.box(), j) == lo(c.box(), j)) & (hi(p.box(), j) == hi(c.box(), j)), "interior"); vp_cover("end"); }
SPEC(c_enclosing) { FloatDP l = fresh<FloatDP>("l"), u = fresh<FloatDP>("u"); require((re(l) <= re(u)) & (re(l) >= R(-4)) & (re(u) <= R(10))); ExactBoxType b({ExactIntervalType(l, u)}); unsigned e = GridCell::smallest_enclosing_primary_cell_extent(b); GridCell c(the_grid(1), e, BinaryWord()); ensure((lo(c.box(), 0) <= re(l)) & (hi(c.box(), 0) >= re(u)), "encloses"); if (e > 0) { GridCell d(the_grid(1), e - 1, BinaryWord()); ensure(!((lo(d.box(), 0) < re(l)) & (hi(d.box(), 0) > re(u))), "no smaller one contains it in its interior"); } vp_cover("end"); }
// pavings
SPEC(p_make) { unsigned n = any_dimension(); Grid g = the_grid(n); GridCell c = any_cell(n); P p(c); ensure(B(cells(p) == cells(c)), "a single cell"); ensure(B(cells(P(g)) == 0 && cells(P(g, true)) == cells(GridCell(g, 0, BinaryWord())) && cells(P(n, true)) == cells(P(g, true))), "empty and unit"); vp_cover("end"); }
SPEC(p_copy) { unsigned n = any_dimension(); P p = any_paving(n, "a", 2), q(p), r = any_paving(n, "b", 1); unsigned m = cells(p); r = p; ensure(B(cells(q) == m && cells(r) == m && q == p && r == p), "copies"); P& s = r; r = s; ensure(B(r == p), "self-assignment"); P* k = p.clone(); S const& v = p; S* w = v.clone(); ensure(B(*k == p && cells(*w) == m), "clones"); p.clear(); ensure(B(cells(p) == 0 && p.is_empty() && p.grid() == q.grid()), "clear"); ensure(B(cells(q) == m && cells(r) == m && cells(*k) == m && cells(*w) == m), "copies are independent"); delete k; delete w; vp_cover("end"); }
SPEC(p_subclone) { unsigned n = any_dimension(); P p = any_paving(n, "a", 2); if (!p.binary_tree()->is_leaf()) { bool k = vp_choice("side", 0, 1); S b = p.branch(k); unsigned m = cells(b); GridCell h = p.root_cell().split(k); ensure(B(b.root_cell() == h), "root of a branch"); ensure(B(m == (cells(p) & cells(h))), "a branch is the part in that half"); S* c = b.clone(); ensure(B(cells(*c) == m), "clone of a part"); p.clear(); ensure(B(cells(*c) == m), "clone is independent"); delete c; } vp_cover("end"); }
SPEC(p_count) { unsigned n = any_dimension(); P p = any_paving(n, "a", 2); unsigned m = cells(p), k = 0, s = 0; for (auto i = p.begin(); i != p.end(); ++i) { unsigned c = cells(*i); ensure(B((s & c) == 0), "each cell once"); s |= c; ++k; } ensure(B(s == m), "the iteration visits exactly the set"); ensure(B(p.size() == k && p.is_empty() == (m == 0)), "number of cells"); vp_cover("end"); }
SPEC(p_mince) { unsigned n = any_dimension(); P p = any_paving(n, "a", 2); unsigned m = cells(p); unsigned room = D - (unsigned)(top(n) - p.root_cell().root_extent()) * n; unsigned k = (unsigned)vp_choice("times", 0, 1); if ((p.root_cell().root_extent() + k) * n <= room) { p.mince(k); ensure(B(cells(p) == m), "mincing keeps the set"); for (auto i = p.begin(); i != p.end(); ++i) ensure(B(i->depth() >= (int)(k * n)), "cells are small"); } p.recombine(); ensure(B(cells(p) == m), "recombining keeps the set"); vp_cover("end"); }
SPEC(p_adjoin_cell) { unsigned n = any_dimension(); P p = any_paving(n, "a", 1); GridCell c = any_cell(n); unsigned m = cells(p), k = cells(c); p.adjoin(c); ensure(B(cells(p) == (m | k)), "exactly the cell is added"); vp_cover("end"); }
SPEC(p_remove_cell) { unsigned n = any_dimension(); P p = any_paving(n, "a", 1); GridCell c = any_cell(n); unsigned m = cells(p), k = cells(c); p.remove(c); ensure(B(cells(p) == (m & ~k)), "exactly the cell is removed"); vp_cover("end"); }
SPEC(p_extent) { unsigned n = any_dimension(); P p = any_paving(n, "a", 2); unsigned e = (unsigned)vp_choice("to", 0, top(n)); unsigned m = cells(p); p.restrict_to_extent(e); ensure(B(cells(p) == (m & cells(GridCell(p.grid(), e, BinaryWord())))), "restricted to the primary cell"); vp_cover("end"); }
template<class F> static void pairs(F f) { unsigned n = any_dimension(); P p = any_paving(n, "a", 2), q = any_paving(n, "b", 1); if (q.binary_tree()->is_leaf() || vp_choice("whole", 0, 1)) f(p, static_cast<S const&>(q)); else { S b = q.branch(vp_choice("side", 0, 1)); f(p, b); } vp_cover("end"); }
SPEC(p_adjoin) { pairs([](P& p, S const& q) { unsigned m = cells(p), k = cells(q); P j = join(p, q); ensure(B(cells(j) == (m | k)), "union"); p.adjoin(q); ensure(B(cells(p) == (m | k)), "exactly the set is added"); ensure(B(cells(q) == k), "operand unchanged"); }); }
SPEC(p_restrict) { pairs([](P& p, S const& q) { unsigned m = cells(p), k = cells(q); P j = intersection(p, q), i = intersection(q, p); ensure(B(cells(j) == (m & k) && cells(i) == (m & k)), "intersection"); p.restrict(q); ensure(B(cells(p) == (m & k)), "exactly the common part is kept"); ensure(B(cells(q) == k), "operand unchanged"); }); }
SPEC(p_remove) { pairs([](P& p, S const& q) { unsigned m = cells(p), k = cells(q); P j = difference(p, q), i = difference(q, p); ensure(B(cells(j) == (m & ~k) && cells(i) == (k & ~m)), "difference"); p.remove(q); ensure(B(cells(p) == (m & ~k)), "exactly the set is removed"); ensure(B(cells(q) == k), "operand unchanged"); }); }
SPEC(p_relate) { pairs([](P& p, S const& q) { unsigned m = cells(p), k = cells(q); ensure(B(subset(p, q) == ((m & ~k) == 0)), "subset"); ensure(B(subset(q, p) == ((k & ~m) == 0)), "superset"); ensure(B(intersect(p, q) == ((m & k) != 0) && intersect(q, p) == ((m & k) != 0)), "intersect"); }); }
SPEC(p_relate_parts) { unsigned n = any_dimension(); P p = any_paving(n, "a", 2); if (!p.binary_tree()->is_leaf()) { S a = p.branch(false), b = p.branch(true); unsigned x = cells(a), y = cells(b); ensure(B(subset(a, b) == ((x & ~y) == 0) && subset(b, a) == ((y & ~x) == 0) && intersect(a, b) == ((x & y) != 0)), "parts side by side"); ensure(B(subset(a, p) && subset(b, p) && intersect(a, p) == (x != 0)), "a part lies in the whole"); } vp_cover("end"); }
SPEC(p_relate_cell) { unsigned n = any_dimension(); P p = any_paving(n, "a", 2); GridCell c = any_cell(n); unsigned m = cells(p), k = cells(c); ensure(B(subset(c, p) == ((k & ~m) == 0)), "contains the cell"); ensure(B(p.superset(c) == ((k & ~m) == 0)), "superset of the cell"); ensure(B(intersect(c, p) == ((m & k) != 0)), "meets the cell"); if (!p.binary_tree()->is_leaf()) { S b = p.branch(vp_choice("side", 0, 1)); unsigned x = cells(b); ensure(B(subset(c, b) == ((k & ~x) == 0) && intersect(c, b) == ((x & k) != 0)), "for a part"); } vp_cover("end"); }
static unsigned projected(GridCell const& c, unsigned j) { BinaryWord w, v = c.word(); for (std::size_t i = j; i < v.size(); i += 2) w.push_back(v[i]); return cells(GridCell(the_grid(1), c.root_extent(), w)); }
SPEC(p_project) { unsigned e = (unsigned)vp_choice("e", 0, 1), j = (unsigned)vp_choice("coordinate", 0, 1); GridCell a(the_grid(2), e, any_word(4, 4)), b(the_grid(2), e, any_word(2, 2)); P p(a); p.adjoin(b); p.mince(2 - e); Projection prj(2, Array<SizeType>({j})); P q = image(p, prj); ensure(B(q.dimension() == 1), "dimension"); ensure(B(cells(q) == (projected(a, j) | projected(b, j))), "the projection of the cells"); vp_cover("end"); }
