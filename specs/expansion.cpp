// VP-PROPERTY: A03
// VP-SOURCES: source/algebra/multi_index.cpp source/algebra/vector.cpp source/numeric/logical.cpp source/numeric/int.cpp
// VP-BOUND: up to three variables and four terms (sorting, insertion, evaluation); every degree and every coefficient arbitrary, except that evaluation takes degrees up to 2
#include "sym.hpp"
#include "algebra/vector.hpp"
#include "algebra/multi_index.hpp"
#include "algebra/expansion.hpp"
#include "algebra/expansion.tpl.hpp"
#include "algebra/evaluate.hpp"
#include "algebra/evaluate.tpl.hpp"
using namespace vp; using namespace Ariadne;
typedef Expansion<MultiIndex, Sym> E; typedef Expansion<UniIndex, Sym> U; typedef SortedExpansion<MultiIndex, Sym, GradedIndexLess> G; typedef SortedExpansion<MultiIndex, Sym, ReverseLexicographicIndexLess> L;
static const char* DN[] = {"d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10", "d11"}; static const char* CN[] = {"c0", "c1", "c2", "c3", "c4", "c5"};
static const long TOP = 9999;
// an arbitrary index; k numbers its entries
static MultiIndex idx(SizeType n, int k, long top = TOP) { MultiIndex a(n); for (SizeType i = 0; i != n; ++i) a[i] = (DegreeType)vp_fresh_int(DN[k * n + i], 0, top); return a; }
static B beq(MultiIndexData const& a, MultiIndexData const& b) { B r(a.size() == b.size()); for (SizeType i = 0; i != a.size(); ++i) r = r & B(a[i] == b[i]); return r; }
SPEC(i_arith) { SizeType n = (SizeType)vp_choice("n", 0, 3); MultiIndex a = idx(n, 0), b = idx(n, 1), s = a + b, d = s - b, m = a * DegreeType(3), m2 = DegreeType(3) * a; long t = 0; for (SizeType i = 0; i != n; ++i) { ensure(B(s[i] == a[i] + b[i] && d[i] == a[i] && m[i] == 3 * a[i] && m2[i] == m[i]), "componentwise"); t += a[i]; } ensure(B(a.degree() == t), "degree is the sum"); ensure(B((a == b) == beq(a, b).b), "equality"); ensure(B((a != b) != (a == b)), "inequality"); MultiIndex c(a); c += b; ensure(beq(c, s), "in-place sum"); c -= b; ensure(beq(c, a), "in-place difference"); c = b; ensure(beq(c, b), "assignment"); MultiIndex e(n), f = e; f = a; swap(e, f); ensure(beq(e, a), "swap"); for (SizeType i = 0; i != n; ++i) ensure(B(f[i] == 0), "swap, zero"); vp_cover("end"); }
SPEC(i_make) { SizeType n = (SizeType)vp_choice("n", 1, 3); for (SizeType j = 0; j != n; ++j) { MultiIndex u = MultiIndex::unit(n, j), z = MultiIndex::zero(n); for (SizeType i = 0; i != n; ++i) ensure(B(u[i] == (i == j) && z[i] == 0 && u.get(i) == u[i]), "unit and zero"); ensure(B(u.degree() == 1 && u.size() == n), "degree of unit"); z.set(j, 7); ensure(B(z[j] == 7), "set"); MultiIndex w(2u); w = z; ensure(beq(w, z), "assignment of another size"); w.clear(); ensure(B(w.degree() == 0), "clear"); } MultiIndex l = {1, 2, 3}; ensure(B(l.size() == 3 && l[0] == 1 && l[1] == 2 && l[2] == 3), "list"); vp_cover("end"); }
SPEC(i_order) { SizeType n = (SizeType)vp_choice("n", 1, 3); MultiIndex a = idx(n, 0), b = idx(n, 1); bool e = beq(a, b).b; bool g = graded_less(a, b), h = graded_less(b, a), l = lexicographic_less(a, b), k = lexicographic_less(b, a), r = reverse_lexicographic_less(a, b), q = reverse_lexicographic_less(b, a); ensure(B((int)g + (int)h + (int)e == 1), "graded order is total"); ensure(B((int)l + (int)k + (int)e == 1), "lexicographic order is total"); ensure(B((int)r + (int)q + (int)e == 1), "reverse lexicographic order is total"); if (a.degree() < b.degree()) ensure(B(g), "graded by degree"); GradedLess gl; LexicographicLess ll; ReverseLexicographicLess rl; ensure(B(gl(a, b) == g && ll(a, b) == l && rl(a, b) == r), "comparators"); vp_cover("end"); }
SPEC(i_trans) { long w = vp_choice("which", 0, 2); MultiIndex a = idx(2, 0, 255), b = idx(2, 1, 255), c = idx(2, 2, 255); auto lt = [&](MultiIndex const& x, MultiIndex const& y) { return w == 0 ? graded_less(x, y) : w == 1 ? lexicographic_less(x, y) : reverse_lexicographic_less(x, y); }; bool ab = lt(a, b), bc = lt(b, c); if (ab && bc) ensure(B(lt(a, c)), "transitive"); ensure(B(lt(a + c, b + c) == ab), "translation invariant"); vp_cover("end"); }
// the successor is the next index in graded order
SPEC(i_next) { SizeType n = (SizeType)vp_choice("n", 1, 3); MultiIndex a = idx(n, 0), b = idx(n, 1), c(a); ++c; ensure(B(graded_less(a, c)), "successor is larger"); if (graded_less(a, b)) ensure(B(!graded_less(b, c)), "nothing lies between"); ensure(B(c.size() == n), "size"); vp_cover("end"); }
static MultiIndexList any_list(SizeType n, int m, int k = 0) { MultiIndexList l(n); for (int i = 0; i != m; ++i) l.append(idx(n, k + i)); return l; }
SPEC(l_basic) { SizeType n = (SizeType)vp_choice("n", 0, 2); MultiIndexList l(n); MultiIndex v[5] = {idx(n, 0), idx(n, 1), idx(n, 2), idx(n, 3), idx(n, 4)}; for (int i = 0; i != 40; ++i) l.append(v[i % 5]); ensure(B(l.size() == 40 && l.argument_size() == n && l.capacity() >= 40), "size"); for (SizeType i = 0; i != 40; ++i) ensure(beq(l[i], v[i % 5]), "entries"); l.append_sum(v[0], v[1]); ensure(beq(l[40], v[0] + v[1]), "appended sum"); ensure(beq(l.front(), v[0]) & beq(l.back(), v[0] + v[1]), "ends"); MultiIndexList c(l), d(n), e(3u); d = l; e = c; ensure(B(c == l && d == l && e == l), "copies"); l.resize(3); ensure(B(l.size() == 3), "resize"); ensure(beq(l[2], v[2]), "resize keeps"); ensure(B(!(l == c)), "different sizes"); l.resize(50); ensure(B(l.size() == 50) & beq(l[0], v[0]) & beq(l[1], v[1]) & beq(l[2], v[2]), "growing keeps"); ensure(B(l[3].degree() == 0 && l[49].degree() == 0), "growing adds zeros"); l.clear(); ensure(B(l.size() == 0), "clear"); vp_cover("end"); }
SPEC(l_equal) { SizeType n = (SizeType)vp_choice("n", 1, 2); int m = (int)vp_choice("m", 0, 2); MultiIndexList x = any_list(n, m), y = any_list(n, m, m); B e(true); for (int i = 0; i != m; ++i) e = e & beq(x[i], y[i]); ensure(iff(B(x == y), e), "equality"); vp_cover("end"); }
SPEC(l_erase) { SizeType n = (SizeType)vp_choice("n", 1, 2); int k = (int)vp_choice("k", 0, 2); MultiIndexList x = any_list(n, 3), y = x; auto p = y.erase(y.begin() + k); ensure(B(y.size() == 2), "size"); for (int i = 0; i != 2; ++i) ensure(beq(y[i], x[i < k ? i : i + 1]), "others kept in order"); ensure(B(p == y.begin() + k), "returns the following position"); vp_cover("end"); }
SPEC(l_move) { SizeType n = (SizeType)vp_choice("n", 1, 2); MultiIndexList x = any_list(n, 3), k = x, y(std::move(x)); ensure(B(y == k), "moved"); MultiIndexList z(1u); z = std::move(y); ensure(B(z == k), "move assigned"); ensure(B(x.size() == 0 && y.size() == 0), "source is left empty"); x = k; ensure(B(x == k), "source can be assigned"); MultiIndexList w(std::move(x)); MultiIndex a = idx(n, 3); x.append(a); ensure(B(x.size() == 1) & beq(x[0], a), "source can be reused"); std::swap(x, z); ensure(B(x == k && z.size() == 1), "swap"); vp_cover("end"); }
static const SizeType N = 2;
static E any_e(int m, int k = 0) { E e(N, Sym(0)); for (int i = 0; i != m; ++i) e.append(idx(N, k + i), fresh_sym(CN[k + i])); return e; }
// the coefficient of the monomial q in the polynomial denoted by the list of terms
static R coef(E const& e, MultiIndex const& q) { R s = 0; for (SizeType i = 0; i != e.size(); ++i) if (beq(e._indices[i], q).b) s = s + re(e._coefficients[i]); return s; }
static void shape(E const& e, SizeType m) { ensure(B(e.size() == m && e._indices.size() == m && e._coefficients.size() == m && e.number_of_terms() == m && e.empty() == (m == 0)), "number of terms"); }
static void term(E const& e, SizeType i, E const& f, SizeType j) { ensure(beq(e._indices[i], f._indices[j]) & (re(e._coefficients[i]) == re(f._coefficients[j])), "term"); }
static void term(E const& e, SizeType i, MultiIndex const& a, R c) { ensure(beq(e._indices[i], a) & (re(e._coefficients[i]) == c), "term"); }
static void same_terms(E const& e, E const& f) { shape(e, f.size()); ensure(B(e.argument_size() == f.argument_size()), "argument size"); for (SizeType i = 0; i != f.size(); ++i) term(e, i, f, i); }
SPEC(e_append) { E e = any_e(3); MultiIndex a = idx(N, 3), b = idx(N, 4); Sym c = fresh_sym("c"); E f = e; f.append(a, c); shape(f, 4); for (int i = 0; i != 3; ++i) term(f, i, e, i); term(f, 3, a, re(c)); f.append_sum(a, b, c); shape(f, 5); term(f, 4, a + b, re(c)); f = e; f.prepend(a, c); shape(f, 4); for (int i = 0; i != 3; ++i) term(f, i + 1, e, i); term(f, 0, a, re(c)); int k = (int)vp_choice("k", 0, 3); f = e; auto p = f.insert(f.begin() + k, a, c); shape(f, 4); ensure(B(p - f.begin() == k), "position"); for (int i = 0; i != 3; ++i) term(f, i < k ? i : i + 1, e, i); term(f, k, a, re(c)); vp_cover("end"); }
SPEC(e_grow) { E e(N, Sym(0), (SizeType)vp_choice("capacity", 0, 2)); MultiIndex a[3] = {idx(N, 0), idx(N, 1), idx(N, 2)}; Sym c[3] = {fresh_sym("c0"), fresh_sym("c1"), fresh_sym("c2")}; for (int i = 0; i != 40; ++i) e.append(a[i % 3], c[i % 3]); shape(e, 40); for (SizeType i = 0; i != 40; ++i) term(e, i, a[i % 3], re(c[i % 3])); E f(N, Sym(0), 3u); for (int i = 0; i != 40; ++i) f.insert(f.begin(), a[i % 3], c[i % 3]); shape(f, 40); for (SizeType i = 0; i != 40; ++i) term(f, 39 - i, a[i % 3], re(c[i % 3])); vp_cover("end"); }
SPEC(e_copy) { E e = any_e(3), f(e), g(N, Sym(0)), h(1u, Sym(0)); g = e; h = f; same_terms(f, e); same_terms(g, e); same_terms(h, e); f.append(idx(N, 3), fresh_sym("c")); shape(e, 3); E m(std::move(f)); shape(m, 4); f = e; same_terms(f, e); m.swap(f); shape(f, 4); same_terms(m, e); E k(N, Sym(0)); k = std::move(f); shape(k, 4); for (int i = 0; i != 3; ++i) term(k, i, e, i); f = e; same_terms(f, e); g.clear(); shape(g, 0); ensure(B(g.argument_size() == N), "argument size"); vp_cover("end"); }
SPEC(e_resize) { E e = any_e(3); int k = (int)vp_choice("k", 0, 5); E f = e; f.resize(k); shape(f, k); for (int i = 0; i != k; ++i) if (i < 3) term(f, i, e, i); else term(f, i, MultiIndex(N), R(0)); f = e; f.reserve(100); ensure(B(f.capacity() >= 100), "capacity"); same_terms(f, e); vp_cover("end"); }
SPEC(e_erase) { E e = any_e(3); int k = (int)vp_choice("k", 0, 2); E f = e; auto p = f.erase(f.begin() + k); shape(f, 2); for (int i = 0; i != 2; ++i) term(f, i, e, i < k ? i : i + 1); ensure(B(p - f.begin() == k), "position"); vp_cover("end"); }
SPEC(e_find) { E e = any_e(3); MultiIndex q = idx(N, 3); SizeType k = 0; while (k != 3 && !beq(e._indices[k], q).b) ++k; E const& ce = e; ensure(B(e.find(q) - e.begin() == (long)k && ce.find(q) - ce.begin() == (long)k), "first term with the index"); R v = k == 3 ? R(0) : re(e._coefficients[k]); ensure((re(ce.get(q)) == v) & (re(ce[q]) == v), "coefficient"); Sym c = fresh_sym("c"); E f = e; f.set(q, c); shape(f, k == 3 ? 4 : 3); for (SizeType i = 0; i != 3; ++i) if (i != k) term(f, i, e, i); term(f, k, q, re(c)); E g = e; g.at(q) = c; same_terms(g, f); g = e; g[q] = c; same_terms(g, f); g = e; g[q] += c; shape(g, k == 3 ? 4 : 3); term(g, k, q, v + re(c)); g[q] -= c; term(g, k, q, v); g[q] *= c; term(g, k, q, v * re(c)); same_terms(e, e); vp_cover("end"); }
static void sorted(E const& e, bool graded) { for (SizeType i = 0; i + 1 < e.size(); ++i) { MultiIndex a = e._indices[i], b = e._indices[i + 1]; ensure(B(graded ? !graded_less(b, a) : !reverse_lexicographic_less(b, a)), "terms in order"); } }
static MultiIndex one_of(E const& e) { return MultiIndex(e._indices[(SizeType)vp_choice("monomial", 0, (long)e.size() - 1)]); }
SPEC(e_sort) { long w = vp_choice("which", 0, 5); E e = any_e(3), f = e; if (w == 0) f.sort(GradedIndexLess()); else if (w == 1) f.graded_sort(); else if (w == 2) f.index_sort(GradedLess()); else if (w == 3) f.sort(ReverseLexicographicIndexLess()); else if (w == 4) f.reverse_lexicographic_sort(); else f.index_sort(ReverseLexicographicLess()); shape(f, 3); sorted(f, w < 3); ensure(B(w < 3 ? f.is_sorted(GradedIndexLess()) : f.is_sorted(ReverseLexicographicIndexLess())), "is sorted"); MultiIndex q = one_of(e); ensure(coef(f, q) == coef(e, q), "polynomial denoted is kept"); vp_cover("end"); }
SPEC(e_issorted) { E e = any_e(2); bool g = e.is_sorted(GradedIndexLess()), r = e.is_sorted(ReverseLexicographicIndexLess()); MultiIndex a = e._indices[0], b = e._indices[1]; ensure(B(g == !graded_less(b, a) && r == !reverse_lexicographic_less(b, a)), "sortedness test"); vp_cover("end"); }
SPEC(e_combine) { E e = any_e(3), f = e; f.graded_sort(); f.combine_terms(); MultiIndex q = one_of(e); ensure(coef(f, q) == coef(e, q), "polynomial denoted is kept"); for (SizeType i = 0; i + 1 < f.size(); ++i) ensure(B(graded_less(MultiIndex(f._indices[i]), MultiIndex(f._indices[i + 1]))), "one term for each index"); ensure(B(f.size() >= 1 && f.size() <= 3), "not longer"); vp_cover("end"); }
SPEC(e_zeros) { E e = any_e(3), f = e; f.remove_zeros(); SizeType k = 0; for (SizeType i = 0; i != 3; ++i) if ((re(e._coefficients[i]) != R(0)).b) { ensure(B(k < f.size()), "nonzero term kept"); term(f, k, e, i); ++k; } shape(f, k); vp_cover("end"); }
SPEC(e_same) { E e = any_e(2), f = any_e((int)vp_choice("m", 1, 2), 2); B s(e.size() == f.size()); if (e.size() == f.size()) for (int i = 0; i != 2; ++i) s = s & beq(e._indices[i], f._indices[i]) & (re(e._coefficients[i]) == re(f._coefficients[i])); ensure(iff(B(e.same_as(f)), s), "same terms"); vp_cover("end"); }
SPEC(e_embed) { E e = any_e(2); SizeType p = (SizeType)vp_choice("before", 0, 2), q = (SizeType)vp_choice("after", 0, 2); E f = embed(p, e, q); shape(f, 2); ensure(B(f.argument_size() == p + N + q), "argument size"); for (SizeType i = 0; i != 2; ++i) { MultiIndex a = f._indices[i], b = e._indices[i]; ensure(re(f._coefficients[i]) == re(e._coefficients[i]), "coefficient"); for (SizeType j = 0; j != p + N + q; ++j) ensure(B(a[j] == (j < p || j >= p + N ? 0 : b[j - p])), "index"); } vp_cover("end"); }
SPEC(e_uni) { U e(SizeOne(), Sym(0)); DegreeType d[3] = {0, 0, 0}; R c[3] = {0, 0, 0}; for (int i = 0; i != 3; ++i) { Sym s = fresh_sym(CN[i]); d[i] = (DegreeType)vp_fresh_int(DN[i], 0, TOP); c[i] = re(s); e.append(UniIndex(d[i]), s); } SizeType p = (SizeType)vp_choice("before", 0, 1); E f = embed(p, e, 1); shape(f, 3); for (int i = 0; i != 3; ++i) { MultiIndex a(p + 2); a[p] = d[i]; term(f, i, a, c[i]); } U s = e; s.graded_sort(); ensure(B(s.is_sorted(GradedIndexLess())), "sorted"); for (int i = 0; i != 2; ++i) ensure(B((DegreeType)s._indices[i] <= (DegreeType)s._indices[i + 1]), "in order"); DegreeType q = d[vp_choice("monomial", 0, 2)]; auto co = [&](U const& u) { R r = 0; for (SizeType i = 0; i != u.size(); ++i) if ((DegreeType)u._indices[i] == q) r = r + re(u._coefficients[i]); return r; }; R v = co(e); ensure(co(s) == v, "polynomial denoted is kept"); s.combine_terms(); ensure(co(s) == v, "combining keeps the polynomial"); U r = e; r.reverse_lexicographic_sort(); ensure(co(r) == v, "polynomial denoted is kept"); for (int i = 0; i != 2; ++i) ensure(B((DegreeType)r._indices[i] >= (DegreeType)r._indices[i + 1]), "in reverse order"); vp_cover("end"); }
// coefficients whose comparison with zero may be undecided, as it is for enclosures
typedef Expansion<MultiIndex, KSym> K;
static R coefk(K const& e, MultiIndex const& q) { R s = 0; for (SizeType i = 0; i != e.size(); ++i) if (beq(e._indices[i], q).b) s = s + re(e._coefficients[i]); return s; }
SPEC(e_convert) { E e = any_e(2); K r(e); ensure(B(r.argument_size() == N), "argument size"); MultiIndex q = one_of(e); ensure(coefk(r, q) == coef(e, q), "conversion keeps every coefficient which may be nonzero"); K f(r); f.remove_zeros(); ensure(coefk(f, q) == coef(e, q), "only zeros are removed"); vp_cover("end"); }
// sorted expansions: at most one term for each index
template<class S> static S any_s(int m, bool g, int k = 0) { S s(N, Sym(0)); for (int i = 0; i != m; ++i) { MultiIndex a = idx(N, k + i); if (i) { MultiIndex p = s._indices[i - 1]; vp_assume(g ? graded_less(p, a) : reverse_lexicographic_less(p, a)); } s.Expansion<MultiIndex, Sym>::append(a, fresh_sym(CN[k + i])); } return s; }
template<class S> static void s_access(bool g) { S s = any_s<S>(3, g), t = s; MultiIndex q = idx(N, 3); Sym c = fresh_sym("c"); SizeType k = 0; while (k != 3 && !beq(s._indices[k], q).b) ++k; R v = coef(s, q); ensure(re(s.get(q)) == v, "coefficient"); t.set(q, c); ensure(re(t.get(q)) == re(c), "coefficient set"); shape(t, k == 3 ? 4 : 3); sorted(t, g); MultiIndex o = one_of(s); if (!beq(o, q).b) ensure(coef(t, o) == coef(s, o), "others kept"); S u = s; u.at(q) += c; ensure(coef(u, q) == v + re(c), "term updated"); sorted(u, g); if (k == 3) { S w = s; w.insert(q, c); same_terms(w, t); } t.check(); vp_cover("end"); }
SPEC(s_graded) { s_access<G>(true); } SPEC(s_lexicographic) { s_access<L>(false); }
template<class S> static void s_make(bool g) { E e = any_e(3); S s(e); shape(s, 3); sorted(s, g); MultiIndex q = one_of(e); ensure(coef(s, q) == coef(e, q), "polynomial denoted is kept"); vp_cover("end"); }
SPEC(s_graded_sort) { s_make<G>(true); } SPEC(s_lexicographic_sort) { s_make<L>(false); }
template<class S> static void s_eq(bool g) { S s = any_s<S>((int)vp_choice("m", 0, 2), g), t = any_s<S>((int)vp_choice("k", 0, 2), g, 2); B e(true); for (SizeType i = 0; i != s.size(); ++i) e = e & (re(s._coefficients[i]) == coef(t, MultiIndex(s._indices[i]))); for (SizeType i = 0; i != t.size(); ++i) e = e & (re(t._coefficients[i]) == coef(s, MultiIndex(t._indices[i]))); ensure(iff(B(s == t), e), "equality is equality of the polynomials"); vp_cover("end"); }
SPEC(s_graded_equal) { s_eq<G>(true); } SPEC(s_lexicographic_equal) { s_eq<L>(false); }
// evaluation: the value of the polynomial
static R power(R x, int n) { R r = 1; for (int i = 0; i < n; ++i) r = r * x; return r; }
static MultiIndex cidx(SizeType n, int k, long top) { MultiIndex a(n); for (SizeType i = 0; i != n; ++i) a[i] = (DegreeType)vp_choice(DN[k * n + i], 0, top); return a; }
static R value(E const& e, Vector<Sym> const& x) { R s = 0; for (SizeType i = 0; i != e.size(); ++i) { MultiIndex a = e._indices[i]; R t = re(e._coefficients[i]); for (SizeType j = 0; j != a.size(); ++j) t = t * power(re(x[j]), a[j]); s = s + t; } return s; }
static void eval_spec(SizeType n, int m, long top) { static const char* PN[] = {"x0", "x1", "x2"}; E e(n, Sym(0)); for (int i = 0; i != m; ++i) { MultiIndex a = cidx(n, i, top); if (i) { MultiIndex p = e._indices[i - 1]; vp_assume(reverse_lexicographic_less(p, a)); } e.append(a, fresh_sym(CN[i])); } Vector<Sym> x(n, Sym(0)); for (SizeType i = 0; i != n; ++i) x[i] = fresh_sym(PN[i]); R v = value(e, x); ensure(re(horner_evaluate(e, x)) == v, "Horner evaluation"); ensure(re(power_evaluate(e, x)) == v, "power evaluation"); ensure(re(evaluate(e, x)) == v, "evaluation"); vp_cover("end"); }
SPEC(v_eval0) { eval_spec(2, 0, 0); } SPEC(v_eval1) { eval_spec((SizeType)vp_choice("n", 1, 3), 1, 2); } SPEC(v_eval2) { eval_spec(2, 2, 2); } SPEC(v_eval3) { eval_spec(2, 3, 2); } SPEC(v_eval_three) { eval_spec(3, 3, 1); } SPEC(v_eval_four) { eval_spec(3, 4, 1); }
SPEC(v_uni) { U e(SizeOne(), Sym(0)); int m = (int)vp_choice("m", 0, 3); Sym x = fresh_sym("x"); R v = 0; DegreeType p = 0; for (int i = 0; i != m; ++i) { DegreeType d = (DegreeType)vp_choice(DN[i], 0, 4); if (i) vp_assume(d < p); p = d; Sym c = fresh_sym(CN[i]); e.append(UniIndex(d), c); v = v + re(c) * power(re(x), d); } ensure(re(horner_evaluate(e, x)) == v, "Horner evaluation in one variable"); vp_cover("end"); }
