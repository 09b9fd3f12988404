// VP-PROPERTY: A02
// VP-SOURCES: source/algebra/multi_index.cpp source/algebra/expansion.cpp source/algebra/vector.cpp source/algebra/matrix.cpp source/numeric/logical.cpp source/numeric/int.cpp
// VP-BOUND: two variables; every coefficient arbitrary; powers from -2 to 4
#include "sym.hpp"
#include "algebra/differential.hpp"
#include "algebra/univariate_differential.hpp"
#include "algebra/differential.tpl.hpp"
#include "algebra/univariate_differential.tpl.hpp"
#include "algebra/expansion.tpl.hpp"
#include "algebra/matrix.tpl.hpp"
#include "algebra/fixed_differential.hpp"
using namespace vp; using namespace Ariadne;
typedef UnivariateFirstDifferential<Sym> U1; typedef UnivariateSecondDifferential<Sym> U2; typedef FirstDifferential<Sym> M1; typedef SecondDifferential<Sym> M2;
// value, gradient and half the second derivatives, all of a quantity in n variables
struct J { R v, g[2], h[2][2]; };
static int N; static bool SECOND;
static J get(U1 const& d) { N = 1; SECOND = false; return {re(d.value()), {re(d.gradient()), R(0)}, {{R(0), R(0)}, {R(0), R(0)}}}; }
static J get(U2 const& d) { N = 1; SECOND = true; ensure(re(d.hessian()) == R(2) * re(d.half_hessian()), "second derivative"); return {re(d.value()), {re(d.gradient()), R(0)}, {{re(d.half_hessian()), R(0)}, {R(0), R(0)}}}; }
static J get(M1 const& d) { N = 2; SECOND = false; ensure(B(d.argument_size() == 2), "size"); return {re(d.value()), {re(d.gradient(0)), re(d.gradient()[1])}, {{R(0), R(0)}, {R(0), R(0)}}}; }
static J get(M2 const& d) { N = 2; SECOND = true; ensure(B(d.argument_size() == 2), "size"); Matrix<Sym> H = d.hessian(); J r = {re(d.value()), {re(d.gradient(0)), re(d.gradient()[1])}, {{R(0), R(0)}, {R(0), R(0)}}}; for (int i = 0; i != 2; ++i) for (int j = 0; j != 2; ++j) r.h[i][j] = re(H[i][j]) / R(2); return r; }
template<class D> static D any(const char* n);
template<> U1 any<U1>(const char* n) { return U1(fresh_sym(n), fresh_sym("g")); } template<> U2 any<U2>(const char* n) { return U2(fresh_sym(n), fresh_sym("g"), fresh_sym("h")); }
template<> M1 any<M1>(const char* n) { return M1(fresh_sym(n), Covector<Sym>({fresh_sym("g"), fresh_sym("g")})); } template<> M2 any<M2>(const char* n) { Matrix<Sym> H(2, 2, Sym(0)); H[0][0] = fresh_sym("h"); H[1][1] = fresh_sym("h"); H[0][1] = H[1][0] = fresh_sym("h"); return M2(fresh_sym(n), Covector<Sym>({fresh_sym("g"), fresh_sym("g")}), H); }
template<class D> static void same(D const& d, J e, const char* l) { J r = get(d); ensure(r.v == e.v, l); for (int i = 0; i != N; ++i) { ensure(r.g[i] == e.g[i], l); if (SECOND) for (int j = 0; j != N; ++j) ensure(r.h[i][j] == e.h[i][j], l); } }
template<class F> static J each(J a, F f) { J r = a; r.v = f(a.v, 0); for (int i = 0; i != 2; ++i) { r.g[i] = f(a.g[i], 1); for (int j = 0; j != 2; ++j) r.h[i][j] = f(a.h[i][j], 2); } return r; }
static J plus(J a, J b, R s) { J r = a; r.v = a.v + s * b.v; for (int i = 0; i != 2; ++i) { r.g[i] = a.g[i] + s * b.g[i]; for (int j = 0; j != 2; ++j) r.h[i][j] = a.h[i][j] + s * b.h[i][j]; } return r; }
static J times(J a, J b) { J r = a; r.v = a.v * b.v; for (int i = 0; i != 2; ++i) { r.g[i] = a.v * b.g[i] + a.g[i] * b.v; for (int j = 0; j != 2; ++j) r.h[i][j] = a.v * b.h[i][j] + a.h[i][j] * b.v + (a.g[i] * b.g[j] + a.g[j] * b.g[i]) / R(2); } return r; }
static J chain(J a, R f, R d, R dd) { J r = a; r.v = f; for (int i = 0; i != 2; ++i) { r.g[i] = d * a.g[i]; for (int j = 0; j != 2; ++j) r.h[i][j] = d * a.h[i][j] + dd / R(2) * a.g[i] * a.g[j]; } return r; }
template<class D> static void algebra() { D x = any<D>("x"), y = any<D>("y"); J a = get(x), b = get(y); Sym c = fresh_sym("c"); R k = c.v; J kk = a; kk = each(a, [&](R, int i) { return i ? R(0) : k; });
  switch (vp_choice("op", 0, 5)) { case 0: same(x + y, plus(a, b, R(1)), "sum"); same(x - y, plus(a, b, R(-1)), "difference"); break; case 1: same(x * y, times(a, b), "product"); break;
  case 2: { require(b.v != R(0)); J i = chain(b, R(1) / b.v, R(-1) / (b.v * b.v), R(2) / (b.v * b.v * b.v)); same(x / y, times(a, i), "quotient"); break; }
  case 3: same(-x, each(a, [](R u, int) { return -u; }), "negation"); same(+x, a, "plus"); same(x + c, plus(a, kk, R(1)), "plus a number"); same(x - c, plus(a, kk, R(-1)), "minus a number"); same(c + x, plus(a, kk, R(1)), "number plus"); same(c - x, plus(kk, a, R(-1)), "number minus"); break;
  case 4: same(x * c, each(a, [&](R u, int) { return u * k; }), "times a number"); same(c * x, each(a, [&](R u, int) { return u * k; }), "number times"); require(k != R(0)); same(x / c, each(a, [&](R u, int) { return u / k; }), "over a number"); break;
  default: { if ((a.v != b.v).b) { bool l = (a.v < b.v).b; same(max(x, y), l ? b : a, "maximum"); same(min(x, y), l ? a : b, "minimum"); } if ((a.v != R(0)).b) same(abs(x), (a.v > R(0)).b ? a : each(a, [](R u, int) { return -u; }), "absolute value"); } } same(x, a, "left alone"); same(y, b, "left alone"); vp_cover("end"); }
template<class D> static void constants() { Sym c = fresh_sym("c"); D x = any<D>("x"); J a = get(x); x = c; same(x, each(a, [&](R, int i) { return i ? R(0) : c.v; }), "assignment of a number"); D y = any<D>("y"); y.clear(); same(y, each(a, [&](R, int i) { return R(0); }), "cleared"); D z = any<D>("z"); J b = get(z); z.set_value(c); b.v = c.v; same(z, b, "value set"); D w(z); ensure(B(w == z), "equality"); if (w == any<D>("w")) vp_cover("equal"); vp_cover("end"); }
static R fn(const char* n, R x) { return vp::fun(n, x); }
template<class D> static void functions() { D x = any<D>("x"); J a = get(x); R v = a.v; switch (vp_choice("f", 0, 6)) {
  case 0: { R e = fn("exp", v); same(exp(x), chain(a, e, e, e), "exponential"); break; }
  case 1: require(v > R(0)); same(log(x), chain(a, fn("log", v), R(1) / v, R(-1) / (v * v)), "logarithm"); break;
  case 2: { R s = fn("sin", v), c = fn("cos", v); same(sin(x), chain(a, s, c, -s), "sine"); same(cos(x), chain(a, c, -s, -c), "cosine"); break; }
  case 3: { R c = fn("cos", v), t = fn("tan", v); require(c != R(0)); same(tan(x), chain(a, t, R(1) / (c * c), R(2) * t / (c * c)), "tangent"); break; }
  case 4: { R s = fn("sqrt", v); require((v > R(0)) & (s > R(0)) & (s * s == v)); same(sqrt(x), chain(a, s, R(1) / (R(2) * s), R(-1) / (R(4) * s * v)), "square root"); break; }
  case 5: { int n = (int)vp_choice("n", -2, 4); if (n < 2) require(v != R(0)); R p = R(1), q = R(1), w = R(1); int m = n < 0 ? -n : n; for (int i = 0; i != m; ++i) { w = q; q = p; p = p * v; } if (n == 0) { q = R(0); w = R(0); } if (n == 1) w = R(0); if (n >= 0) same(pow(x, n), chain(a, p, R(n) * q, R(n * (n - 1)) * w), "power"); else same(pow(x, n), chain(a, R(1) / p, R(n) / (p * v), R(n * (n - 1)) / (p * v * v)), "negative power"); break; }
  default: if constexpr (!Same<D, M2>) { if constexpr (!Same<D, U2>) { if constexpr (!Same<D, U1>) { same(sqr(x), chain(a, v * v, R(2) * v, R(2)), "square"); require(v != R(0)); same(rec(x), chain(a, R(1) / v, R(-1) / (v * v), R(2) / (v * v * v)), "reciprocal"); } } R d = R(1) + v * v; same(atan(x), chain(a, fn("atan", v), R(1) / d, R(-2) * v / (d * d)), "arctangent"); } else { same(sqr(x), chain(a, v * v, R(2) * v, R(2)), "square"); require(v != R(0)); same(rec(x), chain(a, R(1) / v, R(-1) / (v * v), R(2) / (v * v * v)), "reciprocal"); } } vp_cover("end"); }
SPEC(u1_algebra) { algebra<U1>(); } SPEC(u2_algebra) { algebra<U2>(); } SPEC(m1_algebra) { algebra<M1>(); } SPEC(m2_algebra) { algebra<M2>(); }
SPEC(u1_constants) { constants<U1>(); } SPEC(u2_constants) { constants<U2>(); } SPEC(m1_constants) { constants<M1>(); } SPEC(m2_constants) { constants<M2>(); }
SPEC(u1_functions) { functions<U1>(); } SPEC(u2_functions) { functions<U2>(); } SPEC(m1_functions) { functions<M1>(); } SPEC(m2_functions) { functions<M2>(); }
SPEC(u2_sqr) { U2 x = any<U2>("x"); J a = get(x); R v = a.v; same(sqr(x), chain(a, v * v, R(2) * v, R(2)), "square"); require(v != R(0)); same(rec(x), chain(a, R(1) / v, R(-1) / (v * v), R(2) / (v * v * v)), "reciprocal"); vp_cover("end"); }
SPEC(u_make) { Sym c = fresh_sym("c"); same(U1::variable(c), {c.v, {R(1), R(0)}, {{R(0), R(0)}, {R(0), R(0)}}}, "variable"); same(U2::variable(c), {c.v, {R(1), R(0)}, {{R(0), R(0)}, {R(0), R(0)}}}, "variable"); same(U1::constant(c), {c.v, {R(0), R(0)}, {{R(0), R(0)}, {R(0), R(0)}}}, "constant"); same(U2::constant(c), {c.v, {R(0), R(0)}, {{R(0), R(0)}, {R(0), R(0)}}}, "constant"); vp_cover("end"); }
SPEC(m_make) { Sym c = fresh_sym("c"), d = fresh_sym("d"); SizeType j = (SizeType)vp_choice("j", 0, 1); J e = {c.v, {R(j == 0), R(j == 1)}, {{R(0), R(0)}, {R(0), R(0)}}}; same(M2::variable(2u, c, j), e, "variable"); e.g[j] = R(0); same(M2::constant(2u, c), e, "constant"); Vector<Sym> x({c, d}); Vector<M1> v = M1::variables(x); Vector<M2> w = M2::variables(x); ensure(B(v.size() == 2 && w.size() == 2), "size"); e.v = x[j].v; e.g[j] = R(1); same(v[j], e, "variables"); same(w[j], e, "variables"); Matrix<Sym> J1 = v.jacobian(), J2 = w.jacobian(); for (int a = 0; a != 2; ++a) for (int b = 0; b != 2; ++b) ensure((re(J1[a][b]) == R(a == b)) & (re(J2[a][b]) == R(a == b)), "Jacobian"); Vector<Sym> p = v.value(), q = w.value(); ensure((p[0].v == c.v) & (p[1].v == d.v) & (q[0].v == c.v) & (q[1].v == d.v), "values"); vp_cover("end"); }
SPEC(u2_compose) { U2 f = any<U2>("f"), x = any<U2>("x"); J a = get(x), b = get(f); same(compose(f, x), chain(a, b.v, b.g[0], R(2) * b.h[0][0]), "chain rule"); vp_cover("end"); }
SPEC(m_compose) { U2 f = any<U2>("f"); M2 x = any<M2>("x"); J a = get(x), b = get(f); same(compose(f, x), chain(a, b.v, b.g[0], R(2) * b.h[0][0]), "chain rule"); U1 k = any<U1>("k"); M1 y = any<M1>("y"); a = get(y); b = get(k); same(compose(k, y), chain(a, b.v, b.g[0], R(0)), "chain rule"); vp_cover("end"); }
