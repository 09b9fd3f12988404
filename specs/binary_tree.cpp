// VP-PROPERTY: P01
// VP-SOURCES: source/geometry/binary_tree.cpp source/numeric/logical.cpp
// VP-BOUND: trees of depth at most two (one operand of depth three in the thorough tier) with arbitrary marks, words of length at most four
#include "aspec.hpp"
#include "geometry/binary_tree.hpp"
using namespace vp; using namespace Ariadne;
typedef BinaryTreeNode T;
static const unsigned D = 3; static const unsigned NC = 1u << D;
#ifdef VP_THOROUGH
static const int DEEP = 3;
#else
static const int DEEP = 2;
#endif
static const char* names[] = {"a", "b"};
static bool mark(const char* n) { return vp_fresh_int(n, 0, 1) != 0; }
static void grow(T* t, int depth, const char* n) { if (depth > 0 && vp_choice(n, 0, 1)) { t->split(); grow(t->left_node(), depth - 1, n); grow(t->right_node(), depth - 1, n); } else { if (mark(n)) t->set_enabled(); else t->set_disabled(); } }
static T* any_tree(const char* n, int depth = 2) { T* t = new T(false); grow(t, depth, n); return t; }
// the set of cells at depth d which a tree denotes
static unsigned cells(T const* t, unsigned d = D) { unsigned w = 1u << d; if (t->is_leaf()) return (0u - (unsigned)t->is_enabled()) & ((w < 32 ? 1u << w : 0u) - 1u); return cells(t->left_node(), d - 1) | cells(t->right_node(), d - 1) << (w / 2); }
static void sound(T const* t) { if (t->is_leaf()) ensure(B(t->is_enabled() != t->is_disabled()), "a leaf is enabled or disabled"); else { ensure(B(!t->is_enabled() && !t->is_disabled()), "an inner node carries no mark"); ensure(B(t->left_node() != nullptr && t->right_node() != nullptr), "an inner node has both subtrees"); sound(t->left_node()); sound(t->right_node()); } }
static unsigned all(unsigned d) { return (1u << (1u << d)) - 1u; }
static BinaryWord any_word(long lo, long hi, const char* n = "word") { BinaryWord w; long k = vp_choice("length", lo, hi); for (long i = 0; i != k; ++i) w.push_back(vp_choice(n, 0, 1) != 0); return w; }
// the cells at depth D below the node a word names
static unsigned below(BinaryWord const& w) { unsigned lo = 0, n = NC; for (std::size_t i = 0; i != w.size(); ++i) { n /= 2; if (w[i]) lo += n; } return ((1u << n) - 1u) << lo; }
static unsigned shift(BinaryWord const& w) { unsigned lo = 0, n = NC; for (std::size_t i = 0; i != w.size(); ++i) { n /= 2; if (w[i]) lo += n; } return lo; }
SPEC(t_query) { T* t = any_tree("a", DEEP); unsigned m = cells(t); ensure(B(t->has_enabled() == (m != 0)), "has enabled"); ensure(B(t->all_enabled() == (m == all(D))), "all enabled"); ensure(B(t->depth() <= (unsigned)DEEP), "depth"); vp_cover("end"); delete t; }
static std::size_t count(T const* t) { return t->is_leaf() ? (t->is_enabled() ? 1 : 0) : count(t->left_node()) + count(t->right_node()); }
static unsigned deep(T const* t) { if (t->is_leaf()) return 0; unsigned l = deep(t->left_node()), r = deep(t->right_node()); return 1 + (l > r ? l : r); }
SPEC(t_measure) { T* t = any_tree("a"); ensure(B(T::count_enabled_leaf_nodes(t) == count(t)), "number of enabled leaves"); ensure(B(t->depth() == deep(t)), "depth"); vp_cover("end"); delete t; }
SPEC(t_path) { T* t = any_tree("a"); BinaryWord w = any_word(0, 3); unsigned c = below(w); ensure(B(t->is_enabled(w) == ((cells(t) & c) == c)), "a node is enabled if all its cells are"); vp_cover("end"); delete t; }
SPEC(t_equal) { T* s = any_tree("a", 1); T* t = any_tree("b", 1); bool same = s->is_leaf() == t->is_leaf() && cells(s) == cells(t); ensure(B((*s == *t) == same), "equality of trees"); ensure(B(*s == *s && *t == *t), "reflexive"); ensure(B(T::is_equal_nodes(s, t) == same && !T::is_equal_nodes(s, nullptr) && T::is_equal_nodes(nullptr, nullptr)), "equality of nodes"); vp_cover("end"); delete s; delete t; }
SPEC(t_copy) { T* s = any_tree("a"); unsigned m = cells(s); T c(*s); ensure(B(c == *s), "copy"); T* t = any_tree("b"); *t = *s; ensure(B(*t == *s), "assignment"); T e(true); e.copy_from(s); ensure(B(e == *s), "copy from"); delete s; ensure(B(cells(&c) == m && cells(t) == m && cells(&e) == m), "independent of the source"); sound(&c); sound(t); sound(&e); vp_cover("end"); delete t; }
SPEC(t_alias) { T* s = any_tree("a"); unsigned m = cells(s); T c(*s); T& r = c; c = r; ensure(B(c == *s), "self-assignment"); c.copy_from(&c); ensure(B(c == *s), "self-copy"); if (!s->is_leaf()) { bool k = vp_choice("side", 0, 1); T h(*s->child_node(k)); c = *c.child_node(k); ensure(B(c == h), "assignment of a subtree"); T d(*s); d.copy_from(d.child_node(k)); ensure(B(d == h), "copying a subtree"); } ensure(B(cells(s) == m), "source unchanged"); vp_cover("end"); delete s; }
SPEC(t_set) { T* t = any_tree("a"); bool v = mark("value"); t->set(v); ensure(B(t->is_leaf() && t->is_enabled() == v), "set"); T* u = any_tree("b"); u->make_leaf(v); ensure(B(u->is_leaf() && u->is_enabled() == v), "leaf"); sound(t); sound(u); t->split(); ensure(B(!t->is_leaf() && cells(t) == (v ? all(D) : 0u)), "split keeps the set"); sound(t); vp_cover("end"); delete t; delete u; }
SPEC(t_throw) { vp_may_throw(); T* t = any_tree("a", 1); bool leaf = t->is_leaf(); unsigned m = cells(t); long k = vp_choice("which", 0, 2); if (leaf == (k == 2)) { try { if (k == 0) t->set_enabled(); else if (k == 1) t->set_disabled(); else t->set_unknown(); ensure(B(false), "refused"); } catch (std::logic_error&) { ensure(B(cells(t) == m), "unchanged"); vp_cover("end"); } } else { vp_no_throw(); if (k == 0) { t->set_enabled(); ensure(B(t->is_enabled()), "enabled"); } else if (k == 1) { t->set_disabled(); ensure(B(t->is_disabled()), "disabled"); } else { t->set_unknown(); ensure(B(cells(t) == m), "unchanged"); } } delete t; }
SPEC(t_mince) { T* t = any_tree("a", DEEP); unsigned m = cells(t); unsigned d = (unsigned)vp_choice("depth", 0, 3); t->mince(d); ensure(B(cells(t) == m), "mincing keeps the set"); sound(t); struct F { static void go(T const* t, unsigned d) { if (t->is_leaf()) ensure(B(d == 0 || t->is_disabled()), "enabled cells at the depth"); else { go(t->left_node(), d ? d - 1 : 0); go(t->right_node(), d ? d - 1 : 0); } } }; F::go(t, d); vp_cover("end"); delete t; }
SPEC(t_recombine) { T* t = any_tree("a", DEEP); unsigned m = cells(t); t->recombine(); ensure(B(cells(t) == m), "recombining keeps the set"); sound(t); struct F { static void go(T const* t) { if (!t->is_leaf()) { if (t->left_node()->is_leaf() && t->right_node()->is_leaf()) ensure(B(t->left_node()->is_enabled() != t->right_node()->is_enabled()), "equal halves are joined"); go(t->left_node()); go(t->right_node()); } } }; F::go(t); vp_cover("end"); delete t; }
SPEC(t_store) { T* t = any_tree("a"); BinaryWord w, l; t->tree_to_binary_words(w, l); T r(w, l); ensure(B(r == *t), "stored and restored"); T z{BooleanArray(), BooleanArray()}; ensure(B(z.is_leaf() && z.is_disabled()), "empty"); vp_cover("end"); delete t; }
SPEC(t_add_path) { T* t = any_tree("a"); unsigned m = cells(t); BinaryWord w = any_word(0, 3); t->add_enabled(w); ensure(B(cells(t) == (m | below(w))), "exactly the named cell is added"); sound(t); vp_cover("end"); delete t; }
SPEC(t_add_tree) { T* t = any_tree("a"); T* o = any_tree("b", DEEP - 1); unsigned m = cells(t); BinaryWord w = any_word(0, 2); unsigned n = cells(o, D - (unsigned)w.size()); t->add_enabled((T const*)o, w); ensure(B(cells(t) == (m | n << shift(w))), "exactly the cells of the subtree are added"); ensure(B(cells(o, D - (unsigned)w.size()) == n), "operand unchanged"); sound(t); vp_cover("end"); delete t; delete o; }
SPEC(t_merge) { T* t = any_tree("a", DEEP); T* o = any_tree("b"); unsigned m = cells(t), n = cells(o); t->add_enabled(t, o); ensure(B(cells(t) == (m | n)), "union"); ensure(B(cells(o) == n), "operand unchanged"); sound(t); delete o; ensure(B(cells(t) == (m | n)), "no sharing"); vp_cover("end"); delete t; }
SPEC(t_restrict) { T* t = any_tree("a", DEEP); T* o = any_tree("b"); unsigned m = cells(t), n = cells(o); T::restrict(t, o); ensure(B(cells(t) == (m & n)), "intersection"); ensure(B(cells(o) == n), "operand unchanged"); sound(t); delete o; ensure(B(cells(t) == (m & n)), "no sharing"); vp_cover("end"); delete t; }
SPEC(t_remove) { T* t = any_tree("a", DEEP); T* o = any_tree("b"); unsigned m = cells(t), n = cells(o); T::remove(t, o); ensure(B(cells(t) == (m & ~n)), "difference"); ensure(B(cells(o) == n), "operand unchanged"); sound(t); delete o; ensure(B(cells(t) == (m & ~n)), "no sharing"); vp_cover("end"); delete t; }
SPEC(t_relate) { T* s = any_tree("a", DEEP); T* t = any_tree("b"); unsigned m = cells(s), n = cells(t); ensure(B(T::intersect(s, t) == ((m & n) != 0)), "intersect"); ensure(B(T::subset(s, t) == ((m & ~n) == 0)), "subset"); ensure(B(T::intersect(t, s) == ((m & n) != 0)), "intersect, exchanged"); ensure(B(T::subset(t, s) == ((n & ~m) == 0)), "superset"); vp_cover("end"); delete s; delete t; }
SPEC(t_prepend) { T* s = any_tree("a", 1); BinaryWord w = any_word(0, 2); unsigned n = cells(s, D - (unsigned)w.size()); T* r = T::prepend_tree(w, s); ensure(B(cells(r) == n << shift(w)), "the tree lies at the path"); sound(r); T const* p = r; for (std::size_t i = 0; i != w.size(); ++i) p = p->child_node(w[i]); ensure(B(p == s), "the old root is kept"); vp_cover("end"); delete r; }
// binary words
static bool same(BinaryWord const& a, BinaryWord const& b, std::size_t k = 0) { if (a.size() + k > b.size()) return false; for (std::size_t i = 0; i != a.size(); ++i) if (a[i] != b[i + k]) return false; return true; }
SPEC(w_prefix) { BinaryWord a = any_word(0, 3, "a"), b = any_word(0, 4, "b"); ensure(B(a.is_prefix(b) == same(a, b)), "prefix"); bool s = false; for (std::size_t k = 0; k <= b.size(); ++k) s = s || same(a, b, k); ensure(B(a.is_subword(b) == s), "subword"); vp_cover("end"); }
SPEC(w_order) { BinaryWord a = any_word(0, 3, "a"), b = any_word(0, 3, "b"); bool l = a < b, g = b < a, e = a.size() == b.size() && same(a, b); ensure(B((int)l + (int)g + (int)e == 1), "order is total"); if (a.is_prefix(b) && !e) ensure(B(l), "a prefix comes first"); std::size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; if (i < a.size() && i < b.size()) ensure(B(l == (bool)b[i]), "first difference decides"); vp_cover("end"); }
SPEC(w_append) { BinaryWord a = any_word(0, 3, "a"), b = any_word(0, 3, "b"), c = a; c.append(b); ensure(B(c.size() == a.size() + b.size() && a.is_prefix(c) && same(b, c, a.size())), "appended"); BinaryWord d = c; d.append(true); ensure(B(d.size() == c.size() + 1 && c.is_prefix(d) && d.back()), "bit appended"); d.set_back(false); ensure(B(!d.back() && c.is_prefix(d)), "last bit"); ensure(B(c.bytes() * 8 >= c.size() && c.bytes() * 8 < c.size() + 8), "bytes"); int k = (int)vp_choice("k", 0, 4); BinaryWord e = c; e.erase_prefix(k); std::size_t n = (std::size_t)k < c.size() ? c.size() - k : 0; ensure(B(e.size() == n && same(e, c, c.size() - n)), "prefix erased"); vp_cover("end"); }
