// VP-PROPERTY: T02
// VP-SOURCES: source/function/taylor_model.cpp source/algebra/multi_index.cpp source/algebra/expansion.cpp source/algebra/vector.cpp source/numeric/int.cpp source/geometry/interval.cpp source/geometry/box.cpp source/numeric/float_bounds.cpp source/numeric/float_ball.cpp source/numeric/float_upper_bound.cpp source/numeric/float_lower_bound.cpp source/numeric/float_approximation.cpp source/numeric/float_error.cpp source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp source/numeric/dyadic.cpp source/numeric/integer.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/logical.cpp source/numeric/number.cpp source/numeric/real.cpp
// VP-QUERY-MS: 20000
// VP-TIMEOUT: 200
// VP-BOUND: affine functions and models in at most two variables
#include "sym.hpp"
#include "algebra/vector.hpp"
#include "function/function.hpp"
#include "function/affine.hpp"
#include "function/affine_model.hpp"
#include "function/affine_model.tpl.hpp"
using namespace vp; using namespace Ariadne;
typedef Affine<Sym> AS;
static AS any_affine(const char* n) { return AS(Covector<Sym>({fresh_sym(n), fresh_sym(n)}), fresh_sym(n)); }
static R at(AS const& f, Vector<Sym> const& x) { return re(f.value()) + re(f.gradient(0)) * x[0].v + re(f.gradient(1)) * x[1].v; }
SPEC(a_affine) { AS f = any_affine("f"), g = any_affine("g"); Vector<Sym> x({fresh_sym("x0"), fresh_sym("x1")}); Sym c = fresh_sym("c"); R a = at(f, x), b = at(g, x), k = c.v; ensure(re(f.evaluate(x)) == a, "value"); ensure(at(f + g, x) == a + b, "sum"); ensure(at(f - g, x) == a - b, "difference"); ensure(at(-f, x) == -a, "negation"); ensure(at(f + c, x) == a + k, "plus a number"); ensure(at(c + f, x) == a + k, "number plus"); ensure(at(f - c, x) == a - k, "minus a number"); ensure(at(c - f, x) == k - a, "number minus"); ensure(at(c * f, x) == k * a, "number times"); ensure(at(f * c, x) == k * a, "times a number"); ensure((re(derivative(f, 0)) == re(f.gradient(0))) & (re(f.derivative(1)) == re(f.a()[1])) & (re(f.b()) == re(f.value())), "derivatives"); require(k != R(0)); ensure(at(f / c, x) * k == a, "over a number"); vp_cover("end"); }
SPEC(a_make) { Sym c = fresh_sym("c"); Vector<Sym> x({fresh_sym("x0"), fresh_sym("x1")}); AS k = AS::constant(2u, c); ensure(at(k, x) == c.v, "constant"); ensure(B(k.argument_size() == 2), "size"); AS f = any_affine("f"); f = c; ensure(at(f, x) == c.v, "assignment of a number"); AS g = any_affine("g"), h(g); if (g == f) ensure(at(g, x) == at(f, x), "equal functions have equal values"); ensure(B(h == g), "copies are equal"); vp_cover("end"); }
// models: a function represented by a model, at a point of the unit box
template<class F> using AM = AffineModel<ValidatedTag, F>;
struct Pt { R x, y; Pt() : x(fresh_real("x")), y(fresh_real("y")) { require((rabs(x) <= R(1)) & (rabs(y) <= R(1))); } };
template<class F> static AM<F> model(const char* n, int vars) { F e = fresh<F>(n); require(re(e) >= R(0)); F c = fresh<F>(n); Covector<F> g = vars == 1 ? Covector<F>({fresh<F>(n)}) : Covector<F>({fresh<F>(n), fresh<F>(n)}); return AM<F>(c, g, Error<F>(PositiveUpperBound<F>(e))); }
template<class F> static R lin(AM<F> const& m, Pt const& p) { R v = re(m.value()) + re(m.gradient(0)) * p.x; return m.argument_size() == 1 ? v : v + re(m.gradient(1)) * p.y; }
template<class F> static R err(AM<F> const& m) { return re(m.error().raw()); }
template<class F> static R value(AM<F> const& m, Pt const& p, const char* n) { R d = fresh_real(n); require(rabs(d) <= err(m)); return lin(m, p) + d; }
template<class F> static B in(R v, AM<F> const& m, Pt const& p) { return rabs(v - lin(m, p)) <= err(m); }
// contracts of the coefficient operations, proved in affine_kernels.cpp
template<class F> static void grow(F const& g, Error<F>& e) { e = Error<F>(PositiveUpperBound<F>(g)); }
template<class F> static F within(R a, R b, Error<F>& e) { F r = fresh<F>("result"), g = fresh<F>("grown"); R d = re(g) - re(e.raw()); require((rabs(re(r) - a) <= d) & (rabs(re(r) - b) <= d)); grow(g, e); return r; }
#define CONTRACTS(F, N, k) \
 extern "C" const char vptarget_add##k[] = N " Ariadne::(anonymous namespace)::add_err<" N ">(" N " const&, " N " const&, Ariadne::Error<" N ">&)"; extern "C" F vpcontract_add##k(F const& x, F const& y, Error<F>& e) { R s = re(x) + re(y); return within<F>(s, s, e); } \
 extern "C" const char vptarget_mul##k[] = N " Ariadne::(anonymous namespace)::mul_err<" N ">(" N " const&, " N " const&, Ariadne::Error<" N ">&)"; extern "C" F vpcontract_mul##k(F const& x, F const& y, Error<F>& e) { R s = named(re(x) * re(y)); return within<F>(s, s, e); } \
 extern "C" const char vptarget_addb##k[] = N " Ariadne::(anonymous namespace)::add_err<" N ">(" N " const&, Ariadne::Bounds<" N "> const&, Ariadne::Error<" N ">&)"; extern "C" F vpcontract_addb##k(F const& x, Bounds<F> const& c, Error<F>& e) { return within<F>(re(x) + lo(c), re(x) + hi(c), e); } \
 extern "C" const char vptarget_mulb##k[] = N " Ariadne::(anonymous namespace)::mul_err<" N ">(" N " const&, Ariadne::Bounds<" N "> const&, Ariadne::Error<" N ">&)"; extern "C" F vpcontract_mulb##k(F const& x, Bounds<F> const& c, Error<F>& e) { return within<F>(named(re(x) * lo(c)), named(re(x) * hi(c)), e); } \
 extern "C" const char vptarget_lin##k[] = N " Ariadne::(anonymous namespace)::lin_err<" N ">(" N " const&, " N " const&, " N " const&, " N " const&, Ariadne::Error<" N ">&)"; extern "C" F vpcontract_lin##k(F const& a, F const& b, F const& c, F const& d, Error<F>& e) { R s = named(re(a) * re(d)) + named(re(b) * re(c)); return within<F>(s, s, e); }
CONTRACTS(FloatDP, "Ariadne::Float<Ariadne::DoublePrecision>", dp) CONTRACTS(FloatMP, "Ariadne::Float<Ariadne::MultiplePrecision>", mp)
// v is ex(p) + rest with |rest| <= slack: show that the model r encloses it, by bounding the differences of the coefficients
struct Lin { R c[3]; int n; };
template<class F> static Lin coefs(AM<F> const& m) { int n = (int)m.argument_size(); return {{re(m.value()), re(m.gradient(0)), n > 1 ? re(m.gradient(1)) : R(0)}, n}; }
static R at(Lin const& a, Pt const& p) { return a.c[0] + a.c[1] * p.x + a.c[2] * p.y; }
template<class F> static void encloses(R v, Lin const& ex, R rest, R slack, AM<F> const& r, Pt const& p, const char* what) { ensure(B((int)r.argument_size() == ex.n), "size"); Lin g = coefs(r); R s = slack, t = R(0); for (int i = 0; i <= ex.n; ++i) { R d = named(ex.c[i] - g.c[i]); s = s + rabs(d); if (i == 0) { t = t + d; continue; } R y = named(d * (i == 1 ? p.x : p.y)); ensure(rabs(y) <= rabs(d), "lemma: term bounded by its coefficient"); t = t + y; }
  ensure(s <= err(r), what); ensure(at(ex, p) - at(g, p) == t, "lemma: difference of affine functions"); ensure(v == at(ex, p) + rest, "lemma: exact value"); ensure(rabs(rest) <= slack, "lemma: remainder"); ensure(in(v, r, p), what); }
SPEC_F(am_add) { Pt p; AM<F> x = model<F>("a", 2), y = model<F>("b", 2); Lin a = coefs(x), b = coefs(y); R d = fresh_real("d"), f = fresh_real("f"); require((rabs(d) <= err(x)) & (rabs(f) <= err(y))); bool inplace = vp_choice("inplace", 0, 1); AM<F> r = x; if (inplace) r += y; else r = x + y; Lin ex = {{a.c[0] + b.c[0], a.c[1] + b.c[1], a.c[2] + b.c[2]}, 2}; encloses(at(a, p) + d + at(b, p) + f, ex, d + f, err(x) + err(y), r, p, "sum encloses"); vp_cover("end"); }
SPEC_F(am_neg) { Pt p; AM<F> x = model<F>("a", 2); R u = value(x, p, "u"); ensure(in(-u, -x, p), "negation encloses"); vp_cover("end"); }
SPEC_F(am_scalar_add) { Pt p; AM<F> x = model<F>("a", 2); Bounds<F> c = fresh_bounds<F>("l", "u"); R k = member(c, "k"); R u = value(x, p, "v"); AM<F> r = x + c, s = c + x; ensure(in(u + k, r, p) & in(u + k, s, p), "sum with a number encloses"); vp_cover("end"); }
SPEC_F(am_scalar_mul) { Pt p; AM<F> x = model<F>("a", 2); Bounds<F> c = fresh_bounds<F>("l", "u"); Lin a = coefs(x), ex = {{R(0), R(0), R(0)}, 2}; R k = member(c, "k"), d = fresh_real("d"); require(rabs(d) <= err(x)); for (int i = 0; i < 3; ++i) { R al = named(a.c[i] * lo(c)), au = named(a.c[i] * hi(c)); ex.c[i] = named(a.c[i] * k); ensure((rmin(al, au) <= ex.c[i]) & (ex.c[i] <= rmax(al, au)), "lemma: product between products of the ends"); } R dk = named(d * k), m = named(rmax(rabs(lo(c)), rabs(hi(c))) * err(x)); ensure(rabs(dk) <= m, "lemma: error times number"); AM<F> r = vp_choice("side", 0, 1) ? x * c : c * x; encloses((at(a, p) + d) * k, ex, dk, m, r, p, "product with a number encloses"); vp_cover("end"); }
static void product_of(R x, R d, R n, R e, R y, R f, R m, R g, R& rest, R& slack) { R a = named(x * f), b = named(d * y), c = named(d * f), A = named(n * g), E = named(e * m), G = named(e * g); ensure(rabs(a) <= A, "lemma: first cross term"); ensure(rabs(b) <= E, "lemma: second cross term"); ensure(rabs(c) <= G, "lemma: product of errors"); rest = a + b + c; slack = A + E + G; }
SPEC_F(am_mul) { int n = 1; Pt p; AM<F> x = model<F>("a", n), y = model<F>("b", n); Lin a = coefs(x), b = coefs(y); R ex = err(x), ey = err(y), d = fresh_real("d"), f = fresh_real("f"); require((rabs(d) <= ex) & (rabs(f) <= ey)); R na = rabs(a.c[1]), nb = rabs(b.c[1]), la = named(a.c[1] * p.x), lb = named(b.c[1] * p.x), va = named(a.c[0] + la), vb = named(b.c[0] + lb), ma = named(rabs(a.c[0]) + na), mb = named(rabs(b.c[0]) + nb); ensure((rabs(la) <= na) & (rabs(lb) <= nb), "lemma: linear parts"); ensure((rabs(va) <= ma) & (rabs(vb) <= mb), "lemma: values");
  R rest = R(0), slack = R(0); product_of(va, d, ma, ex, vb, f, mb, ey, rest, slack); R q = named(la * lb), Q = named(na * nb); ensure(rabs(q) <= Q, "lemma: quadratic part"); Lin e = {{named(a.c[0] * b.c[0]), named(a.c[0] * b.c[1]) + named(a.c[1] * b.c[0]), R(0)}, n}; AM<F> r = x * y; encloses((va + d) * (vb + f), e, rest + q, slack + Q, r, p, "product encloses"); vp_cover("end"); }
SPEC_F(am_range) { Pt p; AM<F> x = model<F>("a", 2); R u = value(x, p, "u"); auto r = x.range(); ensure((re(r.lower_bound().raw()) <= u) & (u <= re(r.upper_bound().raw())), "range encloses"); vp_cover("end"); }
SPEC_F(am_make) { Pt p; F c = fresh<F>("c"); AM<F> k = AM<F>::constant(2u, c), z = k.create_zero(), x = AM<F>::coordinate(2u, 1u, c.precision()), a = model<F>("a", 2); ensure((lin(k, p) == re(c)) & (err(k) == R(0)), "constant"); ensure((lin(z, p) == R(0)) & (err(z) == R(0)), "zero"); ensure((lin(x, p) == p.y) & (err(x) == R(0)), "coordinate"); a = c; ensure((lin(a, p) == re(c)) & (err(a) == R(0)), "assignment of a number"); vp_cover("end"); }
SPEC_F(am_affine) { Pt p; Bounds<F> b = fresh_bounds<F>("bl", "bu"), g = fresh_bounds<F>("gl", "gu"); R mb = member(b, "b"), mg = member(g, "g"); Affine<Bounds<F>> f(Covector<Bounds<F>>({g}), b); AM<F> m(f); encloses(mb + mg * p.x, {{mb, mg, R(0)}, 1}, R(0), R(0), m, p, "model of an affine function encloses"); vp_cover("end"); }
