// VP-PROPERTY: A04
// VP-SOURCES: source/algebra/multi_index.cpp source/algebra/vector.cpp source/numeric/logical.cpp source/numeric/int.cpp source/numeric/integer.cpp
// VP-BOUND: up to two variables and three terms; every coefficient arbitrary; degrees arbitrary (below 10000) in the algebraic operations, up to 2 in evaluation and composition
#include "sym.hpp"
#include "algebra/vector.hpp"
#include "algebra/multi_index.hpp"
#include "algebra/expansion.hpp"
#include "function/polynomial.hpp"
#include "function/polynomial.tpl.hpp"
using namespace vp; using namespace Ariadne;
typedef Polynomial<MultiIndex, Sym> P; typedef Polynomial<UniIndex, Sym> U; typedef Polynomial<MultiIndex, KSym> KP;
static const char* DN[] = {"d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10", "d11"}; static const char* CN[] = {"c0", "c1", "c2", "c3", "c4", "c5"};
static const SizeType N = 2; static const long TOP = 9999;
static MultiIndex idx(int k, long top = TOP) { MultiIndex a(N); for (SizeType i = 0; i != N; ++i) a[i] = (DegreeType)vp_fresh_int(DN[k * N + i], 0, top); return a; }
static MultiIndex cidx(int k, long top) { MultiIndex a(N); for (SizeType i = 0; i != N; ++i) a[i] = (DegreeType)vp_choice(DN[k * N + i], 0, top); return a; }
static B beq(MultiIndexData const& a, MultiIndexData const& b) { B r(a.size() == b.size()); for (SizeType i = 0; i != a.size(); ++i) r = r & B(a[i] == b[i]); return r; }
// a polynomial as its operations leave it: distinct indices in reverse lexicographic order
static P any_p(int m, int k, long conc = -1, long top = TOP) { P p(N, Sym(0)); for (int i = 0; i != m; ++i) { MultiIndex a = conc < 0 ? idx(k + i, top) : cidx(k + i, conc); if (i) { MultiIndex l = p.expansion()._indices[i - 1]; vp_assume(reverse_lexicographic_less(l, a)); } p.expansion().append(a, fresh_sym(CN[k + i])); } return p; }
template<class PP> static R coef(PP const& p, MultiIndex const& q) { R s = 0; auto const& e = p.expansion(); for (SizeType i = 0; i != e.size(); ++i) if (beq(e._indices[i], q).b) s = s + re(e._coefficients[i]); return s; }
template<class PP> static void valid(PP const& p, SizeType n = N) { ensure(B(p.argument_size() == n), "number of variables"); auto const& e = p.expansion(); ensure(B(e._indices.size() == e._coefficients.size() && p.number_of_terms() == e.size()), "number of terms"); for (SizeType i = 0; i + 1 < e.size(); ++i) { MultiIndex a = e._indices[i], b = e._indices[i + 1]; ensure(B(reverse_lexicographic_less(a, b)), "distinct indices in order"); } }
static R power(R x, int n) { R r = 1; for (int i = 0; i < n; ++i) r = r * x; return r; }
static R value(P const& p, R x, R y) { R s = 0; auto const& e = p.expansion(); for (SizeType i = 0; i != e.size(); ++i) s = s + re(e._coefficients[i]) * power(x, MultiIndex(e._indices[i])[0]) * power(y, MultiIndex(e._indices[i])[1]); return s; }
SPEC(p_add) { P p = any_p(2, 0), q = any_p(2, 2); P s = p + q, d = p - q; valid(s); valid(d); MultiIndex a = vp_choice("from", 0, 1) ? MultiIndex(p.expansion()._indices[(SizeType)vp_choice("term", 0, 1)]) : MultiIndex(q.expansion()._indices[(SizeType)vp_choice("term", 0, 1)]); R x = coef(p, a), y = coef(q, a); ensure(coef(s, a) == x + y, "sum"); ensure(coef(d, a) == x - y, "difference"); ensure(B(s.number_of_terms() <= 4), "no other terms"); vp_cover("end"); }
SPEC(p_scalar) { P p = any_p(2, 0); Sym c = fresh_sym("c"); R k = re(c); MultiIndex z(N), a = vp_choice("zero", 0, 1) ? z : MultiIndex(p.expansion()._indices[(SizeType)vp_choice("term", 0, 1)]); R x = coef(p, a), i = beq(a, z).b ? R(1) : R(0); P r = p + c; valid(r); ensure(coef(r, a) == x + i * k, "plus scalar"); r = c + p; valid(r); ensure(coef(r, a) == x + i * k, "scalar plus"); r = p - c; valid(r); ensure(coef(r, a) == x - i * k, "minus scalar"); r = c - p; valid(r); ensure(coef(r, a) == i * k - x, "scalar minus"); r = p * c; valid(r); ensure(coef(r, a) == k * x, "times scalar"); r = c * p; valid(r); ensure(coef(r, a) == k * x, "scalar times"); r = p; r += c; valid(r); ensure(coef(r, a) == x + i * k, "in-place plus scalar"); r = p; r *= c; valid(r); ensure(coef(r, a) == k * x, "in-place times scalar"); r = -p; valid(r); ensure(coef(r, a) == -x, "negation"); r = +p; valid(r); ensure(coef(r, a) == x, "identity"); r = p; r = c; valid(r); ensure(coef(r, a) == i * k, "assignment of a constant"); vp_cover("end"); }
SPEC(p_div) { P p = any_p(2, 0); Sym c = fresh_sym("c"); require(re(c) != R(0)); P r = p / c; valid(r); MultiIndex a(p.expansion()._indices[(SizeType)vp_choice("term", 0, 1)]); ensure(coef(r, a) * re(c) == coef(p, a), "over scalar"); vp_cover("end"); }
SPEC(p_mul) { P p = any_p(2, 0), q = any_p(2, 2); P r = p * q; valid(r); SizeType i = (SizeType)vp_choice("i", 0, 1), j = (SizeType)vp_choice("j", 0, 1); MultiIndex a = MultiIndex(p.expansion()._indices[i]) + MultiIndex(q.expansion()._indices[j]); R e = 0; for (SizeType k = 0; k != 2; ++k) for (SizeType l = 0; l != 2; ++l) if (beq(MultiIndex(p.expansion()._indices[k]) + MultiIndex(q.expansion()._indices[l]), a).b) e = e + re(p.expansion()._coefficients[k]) * re(q.expansion()._coefficients[l]); ensure(coef(r, a) == e, "product"); ensure(B(r.number_of_terms() <= 4), "no other terms"); vp_cover("end"); }
SPEC(p_monomial) { P p = any_p(2, 0); MultiIndex b = idx(2); Sym c = fresh_sym("c"); Monomial<MultiIndex, Sym> m(b, c); P r = AlgebraOperations<P>::apply(Mul(), p, m), s = p; AlgebraOperations<P>::iapply(Mul(), s, m); valid(r); valid(s); MultiIndex a(p.expansion()._indices[(SizeType)vp_choice("term", 0, 1)]); ensure((coef(r, a + b) == re(c) * coef(p, a)) & (coef(s, a + b) == re(c) * coef(p, a)), "times monomial"); vp_cover("end"); }
SPEC(p_access) { P p = any_p(2, 0); P const& cp = p; MultiIndex q = idx(2), z(N); R x = coef(p, q); ensure(re(cp[q]) == x, "coefficient"); ensure(re(cp.value()) == coef(p, z), "value at zero"); Sym c = fresh_sym("c"); P r = p; r[q] = c; valid(r); ensure(coef(r, q) == re(c), "coefficient set"); MultiIndex a(p.expansion()._indices[(SizeType)vp_choice("term", 0, 1)]); if (!beq(a, q).b) ensure(coef(r, a) == coef(p, a), "others kept"); DegreeType d0 = MultiIndex(p.expansion()._indices[0u]).degree(), d1 = MultiIndex(p.expansion()._indices[1u]).degree(); ensure(B(p.degree() == (d0 < d1 ? d1 : d0)), "degree"); vp_cover("end"); }
SPEC(p_make) { Sym c = fresh_sym("c"); P k = P::constant(N, c), x = P::coordinate(N, 0u, Sym(0)), y = P::coordinate(N, 1u, Sym(0)), z = k.create_zero(); valid(k); valid(x); valid(y); valid(z); MultiIndex o(N), u = MultiIndex::unit(N, 0), v = MultiIndex::unit(N, 1); ensure(coef(k, o) == re(c), "constant"); ensure((coef(x, u) == R(1)) & (coef(y, v) == R(1)) & B(x.number_of_terms() == 1 && y.number_of_terms() == 1 && z.number_of_terms() == 0), "coordinates"); Vector<P> w = P::coordinates(N, Sym(0)); ensure((coef(w[0], u) == R(1)) & (coef(w[1], v) == R(1)) & B(w.size() == 2 && w[0].number_of_terms() == 1 && w[1].number_of_terms() == 1), "coordinates"); w = P::variables(N, Sym(0)); ensure((coef(w[0], u) == R(1)) & (coef(w[1], v) == R(1)), "variables"); vp_cover("end"); }
SPEC(p_cleanup) { Expansion<MultiIndex, Sym> e(N, Sym(0)); for (int i = 0; i != 3; ++i) e.append(idx(i), fresh_sym(CN[i])); MultiIndex a(e._indices[(SizeType)vp_choice("term", 0, 2)]); R x = 0; for (SizeType i = 0; i != 3; ++i) if (beq(e._indices[i], a).b) x = x + re(e._coefficients[i]); P p(e); valid(p); ensure(coef(p, a) == x, "polynomial denoted by the terms"); for (SizeType i = 0; i != p.number_of_terms(); ++i) ensure(re(p.expansion()._coefficients[i]) != R(0), "no zero terms"); vp_cover("end"); }
SPEC(p_equal) { P p = any_p((int)vp_choice("m", 0, 2), 0), q = any_p((int)vp_choice("n", 0, 2), 2); B e(true); for (SizeType i = 0; i != p.number_of_terms(); ++i) e = e & (re(p.expansion()._coefficients[i]) == coef(q, MultiIndex(p.expansion()._indices[i]))); for (SizeType i = 0; i != q.number_of_terms(); ++i) e = e & (re(q.expansion()._coefficients[i]) == coef(p, MultiIndex(q.expansion()._indices[i]))); ensure(iff(B(definitely(p == q)), e), "equality"); vp_cover("end"); }
SPEC(p_truncate) { P p = any_p(3, 0); DegreeType d = (DegreeType)vp_fresh_int("d", 0, TOP); P r = truncate(p, d); valid(r); MultiIndex a(p.expansion()._indices[(SizeType)vp_choice("term", 0, 2)]); ensure(coef(r, a) == (a.degree() <= d ? coef(p, a) : R(0)), "truncation"); vp_cover("end"); }
SPEC(p_derivative) { P p = any_p(3, 0, 2); SizeType j = (SizeType)vp_choice("j", 0, 1); P r = derivative(p, j); valid(r); MultiIndex a(p.expansion()._indices[(SizeType)vp_choice("term", 0, 2)]); if (a[j] != 0) { MultiIndex b(a); --b[j]; ensure(coef(r, b) == coef(p, a) * R((long)a[j]), "derivative"); } else { MultiIndex b(a); ++b[j]; ensure(coef(r, a) == coef(p, b) * R(1), "derivative of lower terms"); } ensure(B(r.number_of_terms() <= 3), "no other terms"); vp_cover("end"); }
SPEC(p_antiderivative) { P p = any_p(3, 0, 2); SizeType j = (SizeType)vp_choice("j", 0, 1); P r = antiderivative(p, j); valid(r); MultiIndex a(p.expansion()._indices[(SizeType)vp_choice("term", 0, 2)]); ++a[j]; R x = coef(r, a) * R((long)a[j]); --a[j]; ensure(x == coef(p, a), "antiderivative"); ensure(B(r.number_of_terms() == 3), "no other terms"); vp_cover("end"); }
SPEC(p_evaluate) { P p = any_p((int)vp_choice("m", 0, 3), 0, 2); Vector<Sym> x = {fresh_sym("x"), fresh_sym("y")}; ensure(re(evaluate(p, x)) == value(p, re(x[0]), re(x[1])), "value"); vp_cover("end"); }
SPEC(p_evaluate_derivative) { P p = any_p(3, 0, 2), r = derivative(p, (SizeType)vp_choice("j", 0, 1)); Vector<Sym> x = {fresh_sym("x"), fresh_sym("y")}; ensure(re(evaluate(r, x)) == value(r, re(x[0]), re(x[1])), "value of the derivative"); vp_cover("end"); }
SPEC(p_partial) { P p = any_p((int)vp_choice("m", 0, 3), 0, 2); SizeType k = (SizeType)vp_choice("k", 0, 1); Sym c = vp_choice("special", 0, 2) == 0 ? Sym(0) : fresh_sym("c"); P r = partial_evaluate(p, k, c); valid(r, 1); Vector<Sym> t = {fresh_sym("t")}; R v = 0; for (SizeType i = 0; i != r.number_of_terms(); ++i) v = v + re(r.expansion()._coefficients[i]) * power(re(t[0]), MultiIndex(r.expansion()._indices[i])[0]); ensure(v == (k == 0 ? value(p, re(c), re(t[0])) : value(p, re(t[0]), re(c))), "one variable substituted"); vp_cover("end"); }
SPEC(p_partial_high) { P p = any_p(1, 0, (long)8); SizeType k = (SizeType)vp_choice("k", 0, 1); Sym c = fresh_sym("c"); P r = partial_evaluate(p, k, c); valid(r, 1); Vector<Sym> t = {fresh_sym("t")}; R v = 0; for (SizeType i = 0; i != r.number_of_terms(); ++i) v = v + re(r.expansion()._coefficients[i]) * power(re(t[0]), MultiIndex(r.expansion()._indices[i])[0]); ensure(v == (k == 0 ? value(p, re(c), re(t[0])) : value(p, re(t[0]), re(c))), "value with high exponents"); vp_cover("end"); }
SPEC(p_compose) { P p = any_p(2, 0, 1), f = any_p(2, 2, 1), g = P::coordinate(N, 1u, Sym(0)); Vector<P> q = {f, g}; P r = compose(p, q); valid(r); R x = fresh_real("x"), y = fresh_real("y"); ensure(value(r, x, y) == value(p, value(f, x, y), value(g, x, y)), "composition"); vp_cover("end"); }
// one variable
static U any_u(int m, int k, long conc = -1) { U p{SizeOne(), Sym(0)}; for (int i = 0; i != m; ++i) { DegreeType d = conc < 0 ? (DegreeType)vp_fresh_int(DN[k + i], 0, TOP) : (DegreeType)vp_choice(DN[k + i], 0, conc); if (i) vp_assume((DegreeType)p.expansion()._indices[i - 1] > d); p.expansion().append(UniIndex(d), fresh_sym(CN[k + i])); } return p; }
static R ucoef(U const& p, DegreeType d) { R s = 0; auto const& e = p.expansion(); for (SizeType i = 0; i != e.size(); ++i) if ((DegreeType)e._indices[i] == d) s = s + re(e._coefficients[i]); return s; }
static void uvalid(U const& p) { auto const& e = p.expansion(); for (SizeType i = 0; i + 1 < e.size(); ++i) ensure(B((DegreeType)e._indices[i] > (DegreeType)e._indices[i + 1]), "distinct degrees in order"); }
static R uvalue(U const& p, R x) { R s = 0; auto const& e = p.expansion(); for (SizeType i = 0; i != e.size(); ++i) s = s + re(e._coefficients[i]) * power(x, (DegreeType)e._indices[i]); return s; }
static DegreeType of(U const& p, U const& q) { return vp_choice("from", 0, 1) ? (DegreeType)p.expansion()._indices[(SizeType)vp_choice("term", 0, 1)] : (DegreeType)q.expansion()._indices[(SizeType)vp_choice("term", 0, 1)]; }
SPEC(u_add) { U p = any_u(2, 0), q = any_u(2, 2), s = p + q, d = p - q, n = -p; uvalid(s); uvalid(d); DegreeType a = of(p, q); R x = ucoef(p, a), y = ucoef(q, a); ensure((ucoef(s, a) == x + y) & (ucoef(d, a) == x - y) & (ucoef(n, a) == -x), "sum, difference and negation"); vp_cover("end"); }
SPEC(u_scalar) { U p = any_u(2, 0); Sym c = fresh_sym("c"); R k = re(c); DegreeType a = vp_choice("zero", 0, 1) ? DegreeType(0) : (DegreeType)p.expansion()._indices[(SizeType)vp_choice("term", 0, 1)]; R x = ucoef(p, a), i = a == 0 ? R(1) : R(0); U r = p + c; uvalid(r); ensure(ucoef(r, a) == x + i * k, "plus scalar"); r = p; r += c; ensure(ucoef(r, a) == x + i * k, "in-place plus scalar"); r = c - p; uvalid(r); ensure(ucoef(r, a) == i * k - x, "scalar minus"); r = p * c; ensure(ucoef(r, a) == x * k, "times scalar"); r = p; r = c; uvalid(r); ensure(ucoef(r, a) == i * k, "assignment of a constant"); U w = U::constant(c), v = U::coordinate(Sym(0)); ensure((ucoef(w, 0) == k) & (ucoef(v, 1) == R(1)) & B(w.number_of_terms() == 1 && v.number_of_terms() == 1), "constant and coordinate"); ensure(re(p.value()) == ucoef(p, 0), "value at zero"); DegreeType d0 = p.expansion()._indices[0u]; ensure(B(p.degree() == d0), "degree"); vp_cover("end"); }
SPEC(u_mul) { U p = any_u(2, 0), q = any_u(2, 2), r = p * q; uvalid(r); SizeType i = (SizeType)vp_choice("i", 0, 1), j = (SizeType)vp_choice("j", 0, 1); DegreeType a = (DegreeType)p.expansion()._indices[i] + (DegreeType)q.expansion()._indices[j]; R e = 0; for (SizeType k = 0; k != 2; ++k) for (SizeType l = 0; l != 2; ++l) if ((DegreeType)((DegreeType)p.expansion()._indices[k] + (DegreeType)q.expansion()._indices[l]) == a) e = e + re(p.expansion()._coefficients[k]) * re(q.expansion()._coefficients[l]); ensure(ucoef(r, a) == e, "product"); vp_cover("end"); }
SPEC(u_evaluate) { U p = any_u((int)vp_choice("m", 0, 3), 0, 4); Sym x = fresh_sym("x"); ensure(re(evaluate(p, x)) == uvalue(p, re(x)), "value"); vp_cover("end"); }
SPEC(u_compose) { U p = any_u(2, 0, 2), q = any_u(2, 2, 2); U r = compose(p, q); uvalid(r); R x = fresh_real("x"); ensure(uvalue(r, x) == uvalue(p, uvalue(q, x)), "composition"); vp_cover("end"); }
SPEC(u_compose_multi) { U p = any_u(2, 0, 2); P q = any_p(2, 2, 1); P r = compose(p, q); valid(r); R x = fresh_real("x"), y = fresh_real("y"); ensure(value(r, x, y) == uvalue(p, value(q, x, y)), "composition"); vp_cover("end"); }
SPEC(u_calculus) { U p = any_u(3, 0, 4), d = p, s = p; d.differentiate(IndexZero()); s.antidifferentiate(IndexZero()); uvalid(d); uvalid(s); DegreeType a = (DegreeType)p.expansion()._indices[(SizeType)vp_choice("term", 0, 2)]; if (a != 0) ensure(ucoef(d, a - 1) == ucoef(p, a) * R((long)a), "derivative"); ensure(ucoef(s, a + 1) * R((long)a + 1) == ucoef(p, a), "antiderivative"); DegreeType t = (DegreeType)vp_fresh_int("d", 0, TOP); U r = truncate(p, t); uvalid(r); ensure(ucoef(r, a) == (a <= t ? ucoef(p, a) : R(0)), "truncation"); vp_cover("end"); }
// coefficients whose comparison with zero may be undecided
SPEC(k_keep) { KP p(N, KSym(0)); p.expansion().append(MultiIndex({2, 1}), fresh_ksym("c0")); p.expansion().append(MultiIndex({0, 1}), fresh_ksym("c1")); p.expansion().append(MultiIndex({1, 0}), fresh_ksym("c2")); MultiIndex a(p.expansion()._indices[(SizeType)vp_choice("term", 0, 2)]); R x = coef(p, a); KP r = p; r.cleanup(); valid(r); ensure(coef(r, a) == x, "cleanup"); r = truncate(p, DegreeType(3)); ensure(coef(r, a) == x, "truncation"); KSym c = fresh_ksym("c"); r = p * c; ensure(coef(r, a) == x * re(c), "times scalar"); vp_cover("end"); }
SPEC(k_partial) { KP p(N, KSym(0)); p.expansion().append(MultiIndex({1, 1}), fresh_ksym("c0")); p.expansion().append(MultiIndex({0, 1}), fresh_ksym("c1")); KSym c = fresh_ksym("c"); KP r = partial_evaluate(p, 0u, c); R v = 0, w = 0; for (SizeType i = 0; i != r.number_of_terms(); ++i) if (MultiIndex(r.expansion()._indices[i])[0] == 1) v = v + re(r.expansion()._coefficients[i]); ensure(v == re(p.expansion()._coefficients[0u]) * re(c) + re(p.expansion()._coefficients[1u]), "one variable substituted"); vp_cover("end"); }
