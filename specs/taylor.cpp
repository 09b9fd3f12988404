// VP-PROPERTY: T01
// VP-SOURCES: source/function/taylor_model.cpp source/algebra/multi_index.cpp source/algebra/expansion.cpp source/algebra/vector.cpp source/numeric/int.cpp source/geometry/interval.cpp source/geometry/box.cpp source/numeric/float_bounds.cpp source/numeric/float_ball.cpp source/numeric/float_upper_bound.cpp source/numeric/float_lower_bound.cpp source/numeric/float_approximation.cpp source/numeric/float_error.cpp source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp source/numeric/dyadic.cpp source/numeric/integer.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/logical.cpp source/numeric/number.cpp source/numeric/real.cpp
// VP-QUERY-MS: 20000
// VP-TIMEOUT: 120
// VP-BOUND: polynomials of up to three terms in up to two variables
#include "aspec.hpp"
#include "function/taylor_model.hpp"
#include "algebra/expansion.inl.hpp"
using namespace vp; using namespace Ariadne;
typedef FloatDP F; typedef ValidatedTaylorModelDP TM;
// any policy for discarding terms
struct AnySweeper : public SweeperMixin<AnySweeper, FloatDP> { DoublePrecision precision() const { return dp; } bool discard(const MultiIndex&, const FloatDP&) const { return vp_choice("discard", 0, 1); } void _write(OutputStream&) const override {} };
static Sweeper<FloatDP> trivial() { return Sweeper<FloatDP>(new TrivialSweeper<FloatDP>(dp)); }
static Sweeper<FloatDP> any_sweeper() { return Sweeper<FloatDP>(new AnySweeper()); }
static MultiIndex mi(SizeType n, unsigned a0, unsigned a1 = 0) { MultiIndex a(n); a[0] = a0; if (n > 1) a[1] = a1; return a; }
// a point of the unit box, with the values of the monomials as ghosts
struct Pt { R s0, s1; R m[4][4]; Pt() : s0(fresh_real("s0")), s1(fresh_real("s1")), m{{R(1),s1,R(1),R(1)},{s0,R(1),R(1),R(1)},{R(1),R(1),R(1),R(1)},{R(1),R(1),R(1),R(1)}} { require((rabs(s0) <= R(1)) & (rabs(s1) <= R(1))); 
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { if (i + j < 2) continue; R v = named(i ? s0 * m[i - 1][j] : s1 * m[i][j - 1]); m[i][j] = v; ensure(rabs(v) <= R(1), "lemma: monomials are bounded by one"); } }
  R at(MultiIndex const& a) const { return m[a[0]][a.size() > 1 ? a[1] : 0]; } };
static const char* CN[] = {"a0", "a1", "a2", "b0", "b1", "b2"};
template<class M> R poly(M const& tm, Pt const& p) { R v(0); for (auto it = tm.begin(); it != tm.end(); ++it) v = v + re(it->coefficient()) * p.at(it->index()); return v; }
static TM model(SizeType n, Sweeper<F> swp, int k, std::initializer_list<MultiIndex> as) { TM r(n, swp); int i = 0; for (auto& a : as) { r._append(a, fresh<F>(CN[3 * k + i])); ++i; } F e = fresh<F>(k ? "eb" : "ea"); require(re(e) >= R(0)); r.set_error(PositiveUpperBound<F>(e)); return r; }
// the value at p of a function represented by the model
static R value(TM const& tm, Pt const& p, const char* n) { R d = fresh_real(n); require(rabs(d) <= re(tm.error().raw())); return poly(tm, p) + d; }
static B in(R v, TM const& tm, Pt const& p) { return rabs(v - poly(tm, p)) <= re(tm.error().raw()); }

// contracts of the coefficient operations, proved for all values in taylor_kernels.cpp: the error bound grows at least by the distance of the result to the exact value
static F grown(R exact, Error<F>& e) { F r = fresh<F>("result"), g = fresh<F>("grown"); require((rabs(re(r) - exact) <= re(g) - re(e.raw()))); e = Error<F>(PositiveUpperBound<F>(g)); return r; }
extern "C" const char vptarget_add[] = "Ariadne::Float<Ariadne::DoublePrecision> Ariadne::(anonymous namespace)::add_err<Ariadne::Float<Ariadne::DoublePrecision>>(Ariadne::Float<Ariadne::DoublePrecision> const&, Ariadne::Float<Ariadne::DoublePrecision> const&, Ariadne::Error<Ariadne::Float<Ariadne::DoublePrecision>>&)";
extern "C" F vpcontract_add(F const& x, F const& y, Error<F>& e) { return grown(re(x) + re(y), e); }
extern "C" const char vptarget_sub[] = "Ariadne::Float<Ariadne::DoublePrecision> Ariadne::(anonymous namespace)::sub_err<Ariadne::Float<Ariadne::DoublePrecision>>(Ariadne::Float<Ariadne::DoublePrecision> const&, Ariadne::Float<Ariadne::DoublePrecision> const&, Ariadne::Error<Ariadne::Float<Ariadne::DoublePrecision>>&)";
extern "C" F vpcontract_sub(F const& x, F const& y, Error<F>& e) { return grown(re(x) - re(y), e); }
extern "C" const char vptarget_mul[] = "Ariadne::Float<Ariadne::DoublePrecision> Ariadne::(anonymous namespace)::mul_err<Ariadne::Float<Ariadne::DoublePrecision>>(Ariadne::Float<Ariadne::DoublePrecision> const&, Ariadne::Float<Ariadne::DoublePrecision> const&, Ariadne::Error<Ariadne::Float<Ariadne::DoublePrecision>>&)";
extern "C" F vpcontract_mul(F const& x, F const& y, Error<F>& e) { return grown(re(x) * re(y), e); }
extern "C" const char vptarget_fma[] = "Ariadne::Float<Ariadne::DoublePrecision> Ariadne::(anonymous namespace)::fma_err<Ariadne::Float<Ariadne::DoublePrecision>>(Ariadne::Float<Ariadne::DoublePrecision> const&, Ariadne::Float<Ariadne::DoublePrecision> const&, Ariadne::Float<Ariadne::DoublePrecision>, Ariadne::Error<Ariadne::Float<Ariadne::DoublePrecision>>&)";
extern "C" F vpcontract_fma(F const& x, F const& y, F z, Error<F>& e) { return grown(re(x) * re(y) + re(z), e); }
SPEC(tm_neg) { Pt p; TM x = model(2, trivial(), 0, {mi(2, 0, 1), mi(2, 1, 0), mi(2, 0)}); R v = value(x, p, "dx"); ensure(in(-v, -x, p), "negation encloses"); ensure(in(v, +x, p), "identity encloses"); ensure(in(R(0), nul(x), p), "zero encloses"); vp_cover("end"); }

// lemma: |v w - p q| <= |p| f + |q| e + e f for |v - p| <= e, |w - q| <= f, with |p| and |q| bounded by the sums of the coefficients
struct Factor { R p, d, v, n, e; Factor(TM const& x, Pt const& pt, const char* nd) : p(named(poly(x, pt))), d(fresh_real(nd)), v(p + d), n(R(0)), e(re(x.error().raw())) { require(rabs(d) <= e); for (auto it = x.begin(); it != x.end(); ++it) n = n + rabs(re(it->coefficient())); n = named(n); ensure(rabs(p) <= n, "lemma: polynomial bounded by its norm"); } };
static void product_lemma(Factor const& x, Factor const& y) { R a = named(x.p * y.d), b = named(x.d * y.p), c = named(x.d * y.d); ensure(rabs(a) <= named(x.n * y.e), "lemma: first cross term"); ensure(rabs(b) <= named(y.n * x.e), "lemma: second cross term"); ensure(rabs(c) <= named(x.e * y.e), "lemma: product of errors"); ensure(x.v * y.v == x.p * y.p + a + b + c, "lemma: expansion of the product"); }

// coefficients by degrees (0 for a missing term)
struct Coef { R c[4][4]; bool has[4][4]; Coef() : c{{R(0),R(0),R(0),R(0)},{R(0),R(0),R(0),R(0)},{R(0),R(0),R(0),R(0)},{R(0),R(0),R(0),R(0)}}, has{} {} void add(int i, int j, R v) { c[i][j] = has[i][j] ? c[i][j] + v : v; has[i][j] = true; }
  explicit Coef(TM const& x) : Coef() { for (auto it = x.begin(); it != x.end(); ++it) add(it->index()[0], x.argument_size() > 1 ? it->index()[1] : 0, re(it->coefficient())); }
  R at(Pt const& p) const { R v(0); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (has[i][j]) v = v + c[i][j] * p.m[i][j]; return v; } };
// v is exact(p) + rest with |rest| <= slack: show that the model r encloses it, by bounding the coefficients' differences
static void encloses(R v, Coef const& exact, R rest, R slack, TM const& r, Pt const& p, const char* what) { Coef g(r); R s(0), t(0); R e = re(r.error().raw()); R d[16] = {R(0),R(0),R(0),R(0),R(0),R(0),R(0),R(0),R(0),R(0),R(0),R(0),R(0),R(0),R(0),R(0)}; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (g.has[i][j] || exact.has[i][j]) { R x = named(exact.c[i][j] - g.c[i][j]); d[4 * i + j] = x; s = s + rabs(x); R y = named(x * p.m[i][j]); ensure(rabs(y) <= rabs(x), "lemma: term bounded by its coefficient"); t = t + y; }
  ensure(s + slack <= e, what); ensure(exact.at(p) - g.at(p) == t, "lemma: difference of polynomials"); ensure(v == exact.at(p) + rest, "lemma: exact value"); ensure(rabs(rest) <= slack, "lemma: remainder"); ensure(in(v, r, p), what); }
static Coef exact_product(Coef const& a, Coef const& b) { Coef r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (a.has[i][j]) for (int k = 0; i + k < 4; ++k) for (int l = 0; j + l < 4; ++l) if (b.has[k][l]) r.add(i + k, j + l, named(a.c[i][j] * b.c[k][l])); return r; }
static void product(TM const& x, TM const& y, Pt const& p) { Factor v(x, p, "dx"), w(y, p, "dy"); R a = named(v.p * w.d), b = named(v.d * w.p), c = named(v.d * w.d), an = named(v.n * w.e), bn = named(w.n * v.e), cn = named(v.e * w.e); ensure(rabs(a) <= an, "lemma: first cross term"); ensure(rabs(b) <= bn, "lemma: second cross term"); ensure(rabs(c) <= cn, "lemma: product of errors"); Coef ex = exact_product(Coef(x), Coef(y)); ensure(v.p * w.p == ex.at(p), "lemma: product of polynomials"); TM r = x * y; encloses(v.v * w.v, ex, a + b + c, an + bn + cn, r, p, "product encloses"); }
static void sum(TM const& x, TM const& y, Pt const& p, bool minus) { Coef a(x), b(y), ex; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { if (a.has[i][j]) ex.add(i, j, a.c[i][j]); if (b.has[i][j]) ex.add(i, j, minus ? -b.c[i][j] : b.c[i][j]); } R d = fresh_real("dx"), f = fresh_real("dy"), ea = re(x.error().raw()), eb = re(y.error().raw()); require((rabs(d) <= ea) & (rabs(f) <= eb)); R rest = minus ? d - f : d + f; bool inplace = vp_choice("inplace", 0, 1); TM r = x; if (!inplace) r = minus ? x - y : x + y; else if (minus) r -= y; else r += y; encloses(ex.at(p) + rest, ex, rest, ea + eb, r, p, minus ? "difference encloses" : "sum encloses"); }
SPEC(tm_add) { Pt p; TM x = model(2, any_sweeper(), 0, {mi(2, 0, 1), mi(2, 0)}), y = model(2, any_sweeper(), 1, {mi(2, 0, 1), mi(2, 1, 0)}); sum(x, y, p, false); vp_cover("end"); }
SPEC(tm_sub) { Pt p; TM x = model(2, any_sweeper(), 0, {mi(2, 0, 1), mi(2, 1, 0)}), y = model(2, any_sweeper(), 1, {mi(2, 1, 0), mi(2, 0)}); sum(x, y, p, true); vp_cover("end"); }
SPEC(tm_mul1) { Pt p; TM x = model(1, trivial(), 0, {mi(1, 1)}), y = model(1, trivial(), 1, {mi(1, 1)}); product(x, y, p); vp_cover("end"); }
SPEC(tm_mul) { Pt p; TM x = model(1, trivial(), 0, {mi(1, 1), mi(1, 0)}), y = model(1, trivial(), 1, {mi(1, 1), mi(1, 0)}); product(x, y, p); vp_cover("end"); }
SPEC(tm_sweep) { Pt p; TM x = model(2, any_sweeper(), 0, {mi(2, 0, 1), mi(2, 1, 0), mi(2, 0)}); R v = value(x, p, "dx"); x.sweep(); ensure(in(v, x, p), "sweep encloses"); vp_cover("end"); }
// ---- scalars. Wide scalar factors: the error grows by at least half the distance to the exact product (the known finding in taylor_kernels.cpp); exact ones: by the whole distance.
extern "C" const char vptarget_addb[] = "Ariadne::Float<Ariadne::DoublePrecision> Ariadne::(anonymous namespace)::add_err<Ariadne::Float<Ariadne::DoublePrecision>>(Ariadne::Float<Ariadne::DoublePrecision> const&, Ariadne::Bounds<Ariadne::Float<Ariadne::DoublePrecision>> const&, Ariadne::Error<Ariadne::Float<Ariadne::DoublePrecision>>&)";
extern "C" F vpcontract_addb(F const& x, Bounds<F> const& c, Error<F>& e) { F r = fresh<F>("result"), g = fresh<F>("grown"); R d = re(g) - re(e.raw()); require((rabs(re(r) - re(x) - lo(c)) <= d) & (rabs(re(r) - re(x) - hi(c)) <= d)); e = Error<F>(PositiveUpperBound<F>(g)); return r; }
extern "C" const char vptarget_mulb[] = "Ariadne::Float<Ariadne::DoublePrecision> Ariadne::(anonymous namespace)::mul_err<Ariadne::Float<Ariadne::DoublePrecision>>(Ariadne::Float<Ariadne::DoublePrecision> const&, Ariadne::Bounds<Ariadne::Float<Ariadne::DoublePrecision>> const&, Ariadne::Error<Ariadne::Float<Ariadne::DoublePrecision>>&)";
extern "C" F vpcontract_mulb(F const& x, Bounds<F> const& c, Error<F>& e) { F r = fresh<F>("result"), g = fresh<F>("grown"); R d = re(g) - re(e.raw()), al = named(re(x) * lo(c)), au = named(re(x) * hi(c)); require((rabs(re(r) - al) <= R(2) * d) & (rabs(re(r) - au) <= R(2) * d)); require(implies(lo(c) == hi(c), rabs(re(r) - al) <= d)); e = Error<F>(PositiveUpperBound<F>(g)); return r; }
static void doubles(R x) { ensure((vp::rounded(1, 53, R(2) * x) == R(2) * x) & (vp::rounded(2, 53, R(2) * x) == R(2) * x), "lemma: doubling is exact"); }
SPEC(tm_scalar_add) { TM x = vp_choice("shape", 0, 1) ? model(1, trivial(), 0, {mi(1, 1), mi(1, 0)}) : model(1, trivial(), 0, {mi(1, 1)}); auto c = fresh_bounds<F>("l", "u"); doubles(lo(c)); doubles(hi(c)); doubles(-lo(c)); doubles(-hi(c)); int k = (int)vp_choice("op", 0, 5); TM r = x; if (k == 4) r += c; else if (k == 5) r -= c; else r = k == 0 ? x + c : k == 1 ? c + x : k == 2 ? x - c : c - x; Pt p; R v = value(x, p, "dx"), y = member(c, "y"); R e = k == 0 || k == 4 ? v + y : k == 1 ? y + v : k == 2 || k == 5 ? v - y : y - v; ensure(in(e, r, p), "sum with a scalar encloses"); vp_cover("end"); }
static void scaled(bool wide) { Pt p; TM x = model(1, trivial(), 0, {mi(1, 1), mi(1, 0)}); auto c = wide ? fresh_bounds<F>("l", "u") : Bounds<F>(fresh<F>("c")); Coef a(x); R y = wide ? member(c, "y") : lo(c), d = fresh_real("dx"), xe = re(x.error().raw()); require(rabs(d) <= xe); R dy = named(d * y), es = named(xe * rmax(rabs(lo(c)), rabs(hi(c)))); ensure(rabs(dy) <= es, "lemma: error times scalar");
  R ay[2] = {R(0), R(0)}; for (int i = 0; i < 2; ++i) { R al = named(a.c[i][0] * lo(c)), au = named(a.c[i][0] * hi(c)); ay[i] = wide ? named(a.c[i][0] * y) : al; ensure((rmin(al, au) <= ay[i]) & (ay[i] <= rmax(al, au)), "lemma: product between products of the ends"); }
  int k = (int)vp_choice("op", 0, 2); TM r = x; if (k == 0) r *= c; else r = k == 1 ? x * c : c * x; Coef g(r); R e = re(r.error().raw()), t(0), q(0); for (int i = 0; i < 2; ++i) { R z = named(ay[i] - g.c[i][0]), w = named(z * p.m[i][0]); ensure(rabs(w) <= rabs(z), "lemma: term bounded by its coefficient"); t = t + rabs(z); q = q + w; }
  ensure(t + (wide ? R(2) * es : es) <= (wide ? R(2) * e : e), "coefficient errors and scaled error accounted for"); R pv = a.c[1][0] * p.s0 + a.c[0][0]; ensure(pv * y == ay[1] * p.s0 + ay[0], "lemma: scaled polynomial"); ensure((pv * y + dy) - poly(r, p) == q + dy, "lemma: difference"); ensure(rabs((pv * y + dy) - poly(r, p)) <= (wide ? R(2) * e : e), "product with a scalar encloses"); vp_cover("end"); }
SPEC(tm_scalar_mul) { scaled(false); }
SPEC(tm_scalar_mul_wide) { scaled(true); }
SPEC(tm_scalar_two_exp) { Pt p; TM x = model(1, trivial(), 0, {mi(1, 1), mi(1, 0)}); R v = value(x, p, "dx"); TM r = hlf(x); ensure(in(v / R(2), r, p), "half encloses"); vp_cover("end"); }
SPEC(tm_cleanup) { Pt p; TM x = model(2, any_sweeper(), 0, {mi(2, 1, 0), mi(2, 0, 1), mi(2, 1, 0)}); R v = value(x, p, "dx"); x.cleanup(); ensure(in(v, x, p), "sorting, combining and sweeping terms encloses"); vp_cover("end"); }
SPEC(tm_cleanup_groups) { Pt p; int k = (int)vp_choice("shape", 0, 3); auto o = mi(1, 1), c = mi(1, 0); TM x = k == 0 ? model(1, trivial(), 0, {o, o, o}) : k == 1 ? model(1, trivial(), 0, {c, c, c, c}) : k == 2 ? model(1, trivial(), 0, {o, o, c, c}) : model(1, trivial(), 0, {c, o, o, o}); R v = value(x, p, "dx"); x.cleanup(); ensure(in(v, x, p), "combining several terms of equal index encloses"); vp_cover("end"); }
SPEC(tm_norm) { Pt p; TM x = model(2, trivial(), 0, {mi(2, 0, 1), mi(2, 1, 0), mi(2, 0)}); R v = value(x, p, "dx"); ensure(re(norm(x).raw()) >= rabs(v), "norm bounds the absolute value"); ensure(re(x.radius().raw()) >= rabs(v - re(x.value())), "radius bounds the distance to the constant term"); vp_cover("end"); }
SPEC(tm_range) { Pt p; TM x = model(2, trivial(), 0, {mi(2, 0, 1), mi(2, 1, 0), mi(2, 0)}); R v = value(x, p, "dx"); auto r = x.range(); ensure((re(r.lower_bound().raw()) <= v) & (v <= re(r.upper_bound().raw())), "range encloses"); vp_cover("end"); }
SPEC(tm_range_quadratic) { Pt p; TM x = model(1, trivial(), 0, {mi(1, 2), mi(1, 1), mi(1, 0)}); R v = value(x, p, "dx"); auto r = x.range(); ensure((re(r.lower_bound().raw()) <= v) & (v <= re(r.upper_bound().raw())), "range encloses"); vp_cover("end"); }
SPEC(tm_range_mixed) { Pt p; TM x = model(2, trivial(), 0, {mi(2, 1, 1), mi(2, 3, 0)}); R v = value(x, p, "dx"); auto r = x.range(); ensure((re(r.lower_bound().raw()) <= v) & (v <= re(r.upper_bound().raw())), "range encloses"); vp_cover("end"); }
SPEC(tm_evaluate) { Pt p; TM x = model(1, trivial(), 0, {mi(1, 1), mi(1, 0)}); R v = value(x, p, "dx"); auto b = fresh_bounds<F>("l", "u"); require(vp::in(p.s0, b)); auto r = evaluate(x, Vector<Bounds<F>>{b}); ensure(vp::in(v, r), "evaluation encloses"); vp_cover("end"); }
// the exact antiderivative vanishing at zero differs from the computed one by at most the growth of the error; integrating a deviation of at most e over at most unit length adds at most e
static void antidiff(SizeType n, SizeType k, std::initializer_list<MultiIndex> as) { Pt p; TM x = model(n, trivial(), 0, as); Coef ex; for (auto it = x.begin(); it != x.end(); ++it) { int a[2] = {it->index()[0], n > 1 ? it->index()[1] : 0}; ++a[k]; ex.add(a[0], a[1], named(re(it->coefficient()) / R((long)a[k]))); } R d = fresh_real("d"); R e0 = re(x.error().raw()); require(rabs(d) <= e0); bool f = vp_choice("form", 0, 1); TM r = f ? antiderivative(x, k) : x; if (!f) r.antidifferentiate(k); encloses(ex.at(p) + d, ex, d, e0, r, p, "antiderivative encloses"); vp_cover("end"); }
SPEC(tm_antidifferentiate) { antidiff(1, 0, {mi(1, 2), mi(1, 1), mi(1, 0)}); }
SPEC(tm_antidifferentiate2) { antidiff(2, (SizeType)vp_choice("k", 0, 1), {mi(2, 1, 1), mi(2, 2, 0)}); }
static void diff(SizeType n, SizeType k, std::initializer_list<MultiIndex> as) { Pt p; TM x = model(n, trivial(), 0, as); x.clobber(); Coef ex; for (auto it = x.begin(); it != x.end(); ++it) { int a[2] = {it->index()[0], n > 1 ? it->index()[1] : 0}; if (a[k] == 0) continue; R c((long)a[k]); --a[k]; ex.add(a[0], a[1], named(re(it->coefficient()) * c)); } TM r = derivative(x, k); encloses(ex.at(p), ex, R(0), R(0), r, p, "derivative of an exact polynomial encloses"); vp_cover("end"); }
SPEC(tm_differentiate) { diff(1, 0, {mi(1, 3), mi(1, 1), mi(1, 0)}); }
SPEC(tm_differentiate2) { diff(2, (SizeType)vp_choice("k", 0, 1), {mi(2, 0, 2), mi(2, 1, 1), mi(2, 1, 0)}); }
SPEC(tm_embed) { Pt p; TM x = model(1, trivial(), 0, {mi(1, 1), mi(1, 0)}); R v = value(x, p, "dx"); TM r = embed(0, x, 1); ensure(B(r.argument_size() == 2), "number of arguments"); ensure(in(v, r, p), "embedding after keeps the value"); Pt q; R w = re(x.begin()->coefficient()) * q.s1 + re((x.begin() + 1)->coefficient()); TM t = embed(1, x, 0); R d = fresh_real("dw"); require(rabs(d) <= re(x.error().raw())); ensure(in(w + d, t, q), "embedding before shifts the variables"); vp_cover("end"); }
SPEC(tm_discard_variables) { Pt p; TM x = model(2, trivial(), 0, {mi(2, 1, 1), mi(2, 0, 1), mi(2, 1, 0)}); R v = value(x, p, "dx"); SizeType k = (SizeType)vp_choice("k", 0, 1); TM r = discard_variables(x, Array<SizeType>{k}); ensure(B(r.argument_size() == 1), "number of arguments"); R s = k ? p.s0 : p.s1, q(0); for (auto it = r.begin(); it != r.end(); ++it) q = q + re(it->coefficient()) * (it->index()[0] == 1 ? s : R(1)); ensure(rabs(v - q) <= re(r.error().raw()), "discarding variables encloses"); vp_cover("end"); }
SPEC(tm_constants) { Pt p; auto c = fresh_bounds<F>("l", "u"); R y = member(c, "y"); TM k = TM::constant(2, c, trivial()); ensure(in(y, k, p), "constant encloses"); TM x = TM::coordinate(2, 0, trivial()), z = TM::coordinate(2, 1, trivial()), o = TM::zero(2, trivial()); ensure((poly(x, p) == p.s0) & (poly(z, p) == p.s1) & (poly(o, p) == R(0)), "coordinates and zero are exact"); F e = fresh<F>("e"); require(re(e) >= R(0)); R d = fresh_real("d"); require(rabs(d) <= re(e)); TM b = TM::ball(2, PositiveUpperBound<F>(e), trivial()); ensure(in(d, b, p), "ball encloses"); ensure(in(d / rmax(R(1), re(e)), TM::unit_ball(2, trivial()), p), "unit ball encloses"); TM q = vp_choice("how", 0, 1) ? k.create_constant(c) : k; if (vp_choice("assign", 0, 1)) { q = x; q = c; } ensure(in(y, q, p), "assigned constant encloses"); vp_cover("end"); }
SPEC(tm_refines) { Pt p; TM x = model(2, trivial(), 0, {mi(2, 1, 0), mi(2, 0)}), y = model(2, trivial(), 1, {mi(2, 0, 1), mi(2, 0)}); R v = value(x, p, "dx"); if (refines(x, y)) ensure(in(v, y, p), "a refinement contains only functions of the other model"); vp_cover("end"); }
SPEC(tm_inconsistent) { Pt p; TM x = model(2, trivial(), 0, {mi(2, 1, 0), mi(2, 0)}), y = model(2, trivial(), 1, {mi(2, 0, 1), mi(2, 0)}); R z = re(x.value()), w = re(y.value()); if (inconsistent(x, y)) ensure(rabs(z - w) > re(x.error().raw()) + re(y.error().raw()), "inconsistent models have no function in common at the origin"); vp_cover("end"); }
SPEC(tm_abs) { Pt p; TM x = model(1, trivial(), 0, {mi(1, 1), mi(1, 0)}); R v = value(x, p, "dx"); auto g = x.range(); require((re(g.lower_bound().raw()) >= R(0)) | (re(g.upper_bound().raw()) <= R(0))); ensure(in(rabs(v), abs(x), p), "absolute value of a model of one sign encloses"); vp_cover("end"); }
SPEC(tm_max) { Pt p; TM x = model(1, trivial(), 0, {mi(1, 1)}), y = model(1, trivial(), 1, {mi(1, 0)}); R v = value(x, p, "dx"), w = value(y, p, "dy"); auto g = x.range(), h = y.range(); require((re(g.lower_bound().raw()) >= re(h.upper_bound().raw())) | (re(h.lower_bound().raw()) >= re(g.upper_bound().raw()))); bool mx = vp_choice("max", 0, 1); TM r = mx ? max(x, y) : min(x, y); ensure(in(mx ? rmax(v, w) : rmin(v, w), r, p), "maximum and minimum of separated models enclose"); vp_cover("end"); }
SPEC(tm_embed_error) { Pt p; TM x = model(1, trivial(), 0, {mi(1, 1), mi(1, 0)}); TM r = embed_error(x); R e = re(x.error().raw()); ensure(poly(r, p) == poly(x, p) + e * p.s1, "error becomes a variable"); ensure(re(r.error().raw()) >= R(0), "error nonnegative"); vp_cover("end"); }
// the half of the unit interval: t = (s -+ 1)/2 or s/2
static Coef split_exact(TM const& x, int part) { Coef ex; for (auto it = x.begin(); it != x.end(); ++it) { R c = re(it->coefficient()); int n = it->index()[0], m = x.argument_size() > 1 ? it->index()[1] : 0; static const int BIN[4][4] = {{1,0,0,0},{1,1,0,0},{1,2,1,0},{1,3,3,1}}; R h = R(1) / R(1L << n); for (int i = 0; i <= n; ++i) { if (part == 0 && i != n) continue; long sg = part < 0 && ((n - i) & 1) ? -1 : 1; ex.add(i, m, c * h * R(sg * BIN[n][i])); } } return ex; }
static void splitting(SizeType n, std::initializer_list<MultiIndex> as, int part) { Pt p; TM x = model(n, trivial(), 0, as); R d = fresh_real("dx"), e0 = re(x.error().raw()); require(rabs(d) <= e0); Coef ex = split_exact(x, part); TM r = split(x, 0, part == 0 ? SplitPart::MIDDLE : part > 0 ? SplitPart::UPPER : SplitPart::LOWER); encloses(ex.at(p) + d, ex, d, e0, r, p, "half of the domain encloses"); vp_cover("end"); }
SPEC(tm_split_middle) { splitting(1, {mi(1, 2), mi(1, 1), mi(1, 0)}, 0); }
SPEC(tm_split_upper) { splitting(1, {mi(1, 2), mi(1, 1)}, 1); }
SPEC(tm_split_lower) { splitting(1, {mi(1, 2), mi(1, 1)}, -1); }
// ---- sweeping of all kinds of coefficients, with any (relative) policy
struct AnyRelativeSweeper : public RelativeSweeperMixin<AnyRelativeSweeper, FloatDP> { DoublePrecision precision() const { return dp; } bool discard(const FloatDP&, const FloatDP&) const { return vp_choice("discard", 0, 1); } void _write(OutputStream&) const override {} };
template<class C> C coefficient(F l, F u); template<> F coefficient<F>(F l, F) { return l; } template<> Bounds<F> coefficient<Bounds<F>>(F l, F u) { return Bounds<F>(l, u); } template<> UpperInterval<F> coefficient<UpperInterval<F>>(F l, F u) { return UpperInterval<F>(LowerBound<F>(l), UpperBound<F>(u)); }
static R clo(F const& x) { return re(x); } static R chi(F const& x) { return re(x); } static R clo(Bounds<F> const& x) { return lo(x); } static R chi(Bounds<F> const& x) { return hi(x); } static R clo(UpperInterval<F> const& x) { return re(x.lower_bound().raw()); } static R chi(UpperInterval<F> const& x) { return re(x.upper_bound().raw()); }
template<class C> void sweeping(bool relative) { Pt p; Sweeper<F> w = relative ? Sweeper<F>(new AnyRelativeSweeper()) : any_sweeper(); MultiIndex as[3] = {mi(2, 1, 1), mi(2, 0, 1), mi(2, 0)}; static const char* L[] = {"l0", "l1", "l2"}; static const char* U[] = {"u0", "u1", "u2"}; static const char* N[] = {"c0", "c1", "c2"}; F z(dp); Expansion<MultiIndex, C> x(2, coefficient<C>(z, z)); R v(0), q(0), c[3] = {R(0), R(0), R(0)}, l[3] = {R(0), R(0), R(0)}, u[3] = {R(0), R(0), R(0)}; for (int i = 0; i < 3; ++i) { F a = fresh<F>(L[i]), b = Same<C, F> ? a : fresh<F>(U[i]); c[i] = Same<C, F> ? re(a) : fresh_real(N[i]); l[i] = re(a); u[i] = re(b); require((l[i] <= c[i]) & (c[i] <= u[i])); x.append(as[i], coefficient<C>(a, b)); v = v + c[i] * p.at(as[i]); } F ev = fresh<F>("e"); require(re(ev) >= R(0)); Error<F> e{PositiveUpperBound<F>(ev)}; R d = fresh_real("d"); require(rabs(d) <= re(ev)); w.sweep(x, e); bool seen[3] = {}; for (auto it = x.begin(); it != x.end(); ++it) for (int i = 0; i < 3; ++i) if (it->index() == as[i]) { ensure(B(!seen[i]), "term kept once"); seen[i] = true; q = q + c[i] * p.at(as[i]); ensure((clo(it->coefficient()) == l[i]) & (chi(it->coefficient()) == u[i]), "kept coefficient unchanged"); } ensure(rabs(v + d - q) <= re(e.raw()), "swept terms accounted for in the error"); vp_cover("end"); }
SPEC(sweep_value) { sweeping<F>(false); } SPEC(sweep_bounds) { sweeping<Bounds<F>>(false); } SPEC(sweep_interval) { sweeping<UpperInterval<F>>(false); }
SPEC(relative_value) { sweeping<F>(true); } SPEC(relative_bounds) { sweeping<Bounds<F>>(true); } SPEC(relative_interval) { sweeping<UpperInterval<F>>(true); }
// ---- composition and substitution
SPEC(tm_partial_evaluate) { TM x = model(2, trivial(), 0, {mi(2, 0, 1), mi(2, 1, 0)}); F c = fresh<F>("c"); require(rabs(re(c)) <= R(1)); SizeType k = (SizeType)vp_choice("k", 0, 1); TM r = partial_evaluate(x, k, Bounds<F>(c)); ensure(B(r.argument_size() == 1), "number of arguments"); Pt p; Coef a(x), ex; R d = fresh_real("dx"), e0 = re(x.error().raw()); require(rabs(d) <= e0); ex.add(1, 0, k == 1 ? a.c[1][0] : a.c[0][1]); ex.add(0, 0, named((k == 1 ? a.c[0][1] : a.c[1][0]) * re(c))); encloses(ex.at(p) + d, ex, d, e0, r, p, "partial evaluation encloses"); vp_cover("end"); }
SPEC(tm_compose) { TM x = model(1, trivial(), 0, {mi(1, 1), mi(1, 0)}), y = model(1, trivial(), 1, {mi(1, 1), mi(1, 0)}); TM r = compose(x, Vector<TM>{y}); Pt p; Coef a(x), b(y), ex; R e0 = re(x.error().raw()), e1 = re(y.error().raw()), d = fresh_real("dx"), f = fresh_real("dy"); require((rabs(d) <= e0) & (rabs(f) <= e1)); ex.add(1, 0, named(a.c[1][0] * b.c[1][0])); ex.add(0, 0, named(a.c[1][0] * b.c[0][0]) + a.c[0][0]); R af = named(a.c[1][0] * f), am = named(rabs(a.c[1][0]) * e1); ensure(rabs(af) <= am, "lemma: scaled error"); R w = b.c[1][0] * p.s0 + b.c[0][0] + f; encloses(a.c[1][0] * w + a.c[0][0] + d, ex, af + d, am + e0, r, p, "composition encloses"); vp_cover("end"); }
SPEC(tm_mul2) { Pt p; TM x = model(2, trivial(), 0, {mi(2, 0, 1), mi(2, 1, 0)}), y = model(2, trivial(), 1, {mi(2, 1, 0), mi(2, 0)}); product(x, y, p); vp_cover("end"); }
SPEC(tm_mul_sweep) { Pt p; TM x = model(1, any_sweeper(), 0, {mi(1, 1), mi(1, 0)}), y = model(1, any_sweeper(), 1, {mi(1, 0)}); x.clobber(); y.clobber(); product(x, y, p); vp_cover("end"); }
