// VP-PROPERTY: A02
// VP-SOURCES: source/algebra/multi_index.cpp source/algebra/expansion.cpp source/algebra/vector.cpp source/algebra/matrix.cpp source/numeric/logical.cpp source/numeric/int.cpp
// VP-BOUND: degree up to 3, up to two variables; every coefficient arbitrary
#include "sym.hpp"
#include "algebra/differential.hpp"
#include "algebra/univariate_differential.hpp"
#include "algebra/differential.tpl.hpp"
#include "algebra/univariate_differential.tpl.hpp"
#include "algebra/expansion.tpl.hpp"
#include "algebra/matrix.tpl.hpp"
using namespace vp; using namespace Ariadne;
typedef UnivariateDifferential<Sym> UD; typedef Differential<Sym> MD;
static const char* XN[] = {"x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9"}; static const char* YN[] = {"y0", "y1", "y2", "y3", "y4", "y5", "y6", "y7", "y8", "y9"};
static UD any_ud(DegreeType d, const char** n) { UD r(d, Sym(0)); for (DegreeType i = 0; i <= d; ++i) r[i] = fresh_sym(n[i]); return r; }
static void same_ud(UD const& r, std::initializer_list<R> e, const char* l) { ensure(B(r.degree() + 1u == e.size()), "degree"); size_t i = 0; for (R x : e) { ensure(re(r[i]) == x, l); ++i; } }
#define X(i) re(x[i])
#define Y(i) re(y[i])
SPEC(u_linear) { UD x = any_ud(2, XN), y = any_ud(3, YN); Sym c = fresh_sym("c"); R k = re(c); same_ud(x + y, {X(0) + Y(0), X(1) + Y(1), X(2) + Y(2)}, "sum"); same_ud(x - y, {X(0) - Y(0), X(1) - Y(1), X(2) - Y(2)}, "difference"); same_ud(-x, {-X(0), -X(1), -X(2)}, "negation"); same_ud(x + c, {X(0) + k, X(1), X(2)}, "sum with scalar"); same_ud(c + x, {X(0) + k, X(1), X(2)}, "sum with scalar"); same_ud(x - c, {X(0) - k, X(1), X(2)}, "difference with scalar"); same_ud(c - x, {k - X(0), -X(1), -X(2)}, "scalar minus"); same_ud(x * c, {k * X(0), k * X(1), k * X(2)}, "scalar multiple"); same_ud(c * x, {k * X(0), k * X(1), k * X(2)}, "scalar multiple"); vp_cover("end"); }
SPEC(u_mul) { UD x = any_ud(3, XN), y = any_ud(4, YN); same_ud(x * y, {X(0) * Y(0), X(0) * Y(1) + X(1) * Y(0), X(0) * Y(2) + X(1) * Y(1) + X(2) * Y(0), X(0) * Y(3) + X(1) * Y(2) + X(2) * Y(1) + X(3) * Y(0)}, "product rule"); same_ud(sqr(x), {X(0) * X(0), R(2) * X(0) * X(1), R(2) * X(0) * X(2) + X(1) * X(1), R(2) * X(0) * X(3) + R(2) * X(1) * X(2)}, "square"); vp_cover("end"); }
SPEC(u_degree0) { UD x = any_ud(0, XN), y = any_ud(1, YN); same_ud(x + y, {X(0) + Y(0)}, "sum"); same_ud(x * y, {X(0) * Y(0)}, "product"); same_ud(compose(x, y), {X(0)}, "composition"); same_ud(antiderivative(x), {R(0), X(0)}, "antiderivative"); same_ud(derivative(x), {R(0)}, "derivative"); vp_cover("end"); }
SPEC(u_compose) { UD x = any_ud(3, XN), y = any_ud(3, YN); UD r = compose(x, y); R a = Y(1), b = Y(2), c = Y(3); same_ud(r, {X(0), X(1) * a, X(1) * b + X(2) * a * a, X(1) * c + R(2) * X(2) * a * b + X(3) * a * a * a}, "chain rule"); same_ud(y, {Y(0), a, b, c}, "argument left alone"); UD z = any_ud(1, YN); same_ud(compose(x, z), {X(0), X(1) * re(z[1])}, "chain rule, lower degree"); vp_cover("end"); }
SPEC(u_deriv) { UD x = any_ud(3, XN); Sym c = fresh_sym("c"); same_ud(derivative(x), {X(1), R(2) * X(2), R(3) * X(3)}, "derivative"); same_ud(antiderivative(x), {R(0), X(0), X(1) / R(2), X(2) / R(3), X(3) / R(4)}, "antiderivative"); same_ud(antiderivative(x, c), {re(c), X(0), X(1) / R(2), X(2) / R(3), X(3) / R(4)}, "antiderivative with constant"); ensure(re(x.value()) == X(0) & re(x.gradient()) == X(1) & re(x.hessian()) == R(2) * X(2) & re(x.half_hessian()) == X(2), "value and derivatives"); UD v = UD::variable(2, c), k = UD::constant(2, c); same_ud(v, {re(c), R(1), R(0)}, "variable"); same_ud(k, {re(c), R(0), R(0)}, "constant"); vp_cover("end"); }
SPEC(u_div) { UD x = any_ud(2, XN), y = any_ud(2, YN); require(Y(0) != R(0)); UD r = rec(y), q = x / y, one = r * y, p = q * y; same_ud(one, {R(1), R(0), R(0)}, "reciprocal"); same_ud(p, {X(0), X(1), X(2)}, "quotient"); vp_cover("end"); }
SPEC(u_pow) { UD x = any_ud(2, XN); int n = (int)vp_choice("n", -2, 4); if (n < 0) require(X(0) != R(0)); UD r = pow(x, n), e = UD::constant(2, Sym(1)); for (int i = 0; i < (n < 0 ? -n : n); ++i) e = e * x; if (n < 0) r = r * e; else r = r - e; same_ud(r, {R(n < 0 ? 1 : 0), R(0), R(0)}, "power is repeated product"); vp_cover("end"); }
template<class OP> static void series_ode(OP op, R* y, Sym c) { Series<Sym> s(op, c); for (int i = 0; i < 6; ++i) y[i] = re(s[(DegreeType)i]); }
#define SER(op, cond) R y[6] = {0, 0, 0, 0, 0, 0}; Sym c = fresh_sym("c"); R k = re(c); require(cond); series_ode(op, y, c);
SPEC(s_exp) { SER(Exp(), B(true)) R e = vp::fun("exp", k); ensure(y[0] == e & y[1] == e & y[2] == e / R(2) & y[3] == e / R(6) & y[4] == e / R(24) & y[5] == e / R(120), "series of exp"); vp_cover("end"); }
SPEC(s_log) { SER(Log(), k > R(0)) ensure(y[0] == vp::fun("log", k), "value"); for (int i = 1; i < 6; ++i) { R p = R(1); for (int j = 0; j < i; ++j) p = p * k; ensure(y[i] * p * R(i) == R(i % 2 ? 1 : -1), "series of log"); } vp_cover("end"); }
SPEC(s_sin) { SER(Sin(), B(true)) R s = vp::fun("sin", k), c1 = vp::fun("cos", k); ensure(y[0] == s & y[1] == c1 & y[2] == -s / R(2) & y[3] == -c1 / R(6) & y[4] == s / R(24) & y[5] == c1 / R(120), "series of sin"); vp_cover("end"); }
SPEC(s_cos) { SER(Cos(), B(true)) R s = vp::fun("sin", k), c1 = vp::fun("cos", k); ensure(y[0] == c1 & y[1] == -s & y[2] == -c1 / R(2) & y[3] == s / R(6) & y[4] == c1 / R(24) & y[5] == -s / R(120), "series of cos"); vp_cover("end"); }
SPEC(s_tan) { SER(Tan(), B(true)) ensure(y[0] == vp::fun("tan", k), "value"); for (int d = 1; d < 6; ++d) { R t = d == 1 ? R(1) : R(0); for (int i = 0; i < d; ++i) t = t + y[i] * y[d - 1 - i]; ensure(R(d) * y[d] == t, "series of tan satisfies y'=1+y^2"); } vp_cover("end"); }
SPEC(s_atan) { SER(Atan(), B(true)) R one = R(1) + k * k; ensure(y[0] == vp::fun("atan", k) & one * y[1] == R(1), "value"); for (int d = 2; d < 6; ++d) ensure(one * R(d) * y[d] + R(2) * k * R(d - 1) * y[d - 1] + R(d - 2) * y[d - 2] == R(0), "series of atan satisfies (1+x^2)y'=1"); vp_cover("end"); }
SPEC(s_sqrt) { SER(Sqrt(), k > R(0)) ensure(y[0] == vp::fun("sqrt", k), "value"); for (int d = 1; d < 6; ++d) ensure(R(2 * d) * k * y[d] == R(3 - 2 * d) * y[d - 1], "series of sqrt satisfies 2xy'=y"); vp_cover("end"); }
SPEC(s_rec) { SER(Rec(), k != R(0)) ensure(y[0] * k == R(1), "value"); for (int d = 1; d < 6; ++d) ensure(k * y[d] == -y[d - 1], "series of reciprocal"); vp_cover("end"); }
SPEC(s_simple) { Sym c = fresh_sym("c"); R k = re(c); R y[6] = {0, 0, 0, 0, 0, 0}; series_ode(Sqr(), y, c); ensure(y[0] == k * k & y[1] == R(2) * k & y[2] == R(1) & y[3] == R(0) & y[4] == R(0), "series of square"); series_ode(Neg(), y, c); ensure(y[0] == -k & y[1] == R(-1) & y[2] == R(0) & y[3] == R(0), "series of negation"); series_ode(Pos(), y, c); ensure(y[0] == k & y[1] == R(1) & y[2] == R(0) & y[3] == R(0), "series of identity"); series_ode(Hlf(), y, c); ensure(y[0] == k / R(2) & y[1] == R(1) / R(2) & y[2] == R(0), "series of half"); vp_cover("end"); }
template<class OP> static void elem(OP op, const char* n, R d1, R d2, UD const& x, UD const& r) { same_ud(r, {vp::fun(n, X(0)), d1 * X(1), d1 * X(2) + d2 * X(1) * X(1)}, n); }
SPEC(u_elem) { UD x = any_ud(2, XN); R k = X(0), s = vp::fun("sin", k), c = vp::fun("cos", k), e = vp::fun("exp", k); elem(Exp(), "exp", e, e / R(2), x, exp(x)); elem(Sin(), "sin", c, -s / R(2), x, sin(x)); elem(Cos(), "cos", -s, -c / R(2), x, cos(x)); R t = vp::fun("tan", k); elem(Tan(), "tan", R(1) + t * t, t * (R(1) + t * t), x, tan(x)); vp_cover("end"); }
SPEC(u_elem2) { UD x = any_ud(2, XN); R k = X(0); require(k > R(0)); elem(Log(), "log", R(1) / k, R(-1) / (R(2) * k * k), x, log(x)); R q = vp::fun("sqrt", k); elem(Sqrt(), "sqrt", q / (R(2) * k), -q / (R(8) * k * k), x, sqrt(x)); R w = R(1) / (R(1) + k * k); elem(Atan(), "atan", w, -k * w * w, x, atan(x)); vp_cover("end"); }
typedef Vector<MD> VD;
static const char* ZN[] = {"z0", "z1", "z2", "z3", "z4", "z5"};
static MultiIndex MI(DegreeType a, DegreeType b) { MultiIndex r(2u); r[0] = a; r[1] = b; return r; }
static const DegreeType TA[] = {0, 1, 0, 2, 1, 0, 3, 2, 1, 0}, TB[] = {0, 0, 1, 0, 1, 2, 0, 1, 2, 3};
static const int NT[] = {1, 3, 6, 10};
static R at(MD const& x, DegreeType a, DegreeType b) { return re(x[MI(a, b)]); }
// the differential with the terms in the mask
static MD any_md(DegreeType d, const char** n, unsigned m = 1023u) { Expansion<MultiIndex, Sym> e(2u, Sym(0)); MD r(2u, d, Sym(0)); for (int i = 0; i < NT[d]; ++i) if (m >> i & 1) r.expansion().append(MI(TA[i], TB[i]), fresh_sym(n[i])); return r; }
static void same_md(MD const& r, DegreeType d, std::initializer_list<R> e, const char* l) { ensure(B(r.degree() == d && r.argument_size() == 2u), "degree"); int i = 0; for (R x : e) { ensure(at(r, TA[i], TB[i]) == x, l); ++i; } for (auto it = r.begin(); it != r.end(); ++it) { ensure(B(it->index().degree() <= d), "terms within the degree"); auto nx = it; ++nx; if (nx != r.end()) ensure(B(graded_less(it->index(), nx->index())), "terms in order"); } }
#define GX(v) R v##00 = at(v, 0, 0), v##10 = at(v, 1, 0), v##01 = at(v, 0, 1), v##20 = at(v, 2, 0), v##11 = at(v, 1, 1), v##02 = at(v, 0, 2);
static unsigned mask(const char* n) { long k = vp_choice(n, 0, 8); static const unsigned M[] = {63, 0, 1, 62, 9, 18, 36, 45, 22}; return M[k]; }
static unsigned mask3(const char* n) { static const unsigned M[] = {63, 18, 45}; return M[vp_choice(n, 0, 2)]; }
SPEC(m_add) { MD x = any_md(2, XN, mask("mx")), y = any_md(2, YN, mask("my")); GX(x) GX(y) same_md(x + y, 2, {x00 + y00, x10 + y10, x01 + y01, x20 + y20, x11 + y11, x02 + y02}, "sum"); same_md(x - y, 2, {x00 - y00, x10 - y10, x01 - y01, x20 - y20, x11 - y11, x02 - y02}, "difference"); same_md(-x, 2, {-x00, -x10, -x01, -x20, -x11, -x02}, "negation"); same_md(+x, 2, {x00, x10, x01, x20, x11, x02}, "identity"); vp_cover("end"); }
SPEC(m_add_degree) { MD x = any_md(1, XN, mask("mx")), y = any_md(2, YN, mask("my")); GX(x) GX(y) same_md(x + y, 1, {x00 + y00, x10 + y10, x01 + y01}, "sum"); same_md(y - x, 1, {y00 - x00, y10 - x10, y01 - x01}, "difference"); same_md(y * x, 1, {x00 * y00, x10 * y00 + x00 * y10, x01 * y00 + x00 * y01}, "product"); vp_cover("end"); }
SPEC(m_mul) { MD x = any_md(2, XN, mask("mx")), y = any_md(2, YN, mask("my")); GX(x) GX(y) same_md(x * y, 2, {x00 * y00, x10 * y00 + x00 * y10, x01 * y00 + x00 * y01, x20 * y00 + x10 * y10 + x00 * y20, x11 * y00 + x10 * y01 + x01 * y10 + x00 * y11, x02 * y00 + x01 * y01 + x00 * y02}, "product rule"); vp_cover("end"); }
SPEC(m_scalar) { MD x = any_md(2, XN, mask("mx")); Sym s = fresh_sym("c"); R c = re(s); GX(x) same_md(x + s, 2, {x00 + c, x10, x01, x20, x11, x02}, "scalar sum"); same_md(s + x, 2, {x00 + c, x10, x01, x20, x11, x02}, "scalar sum"); same_md(x - s, 2, {x00 - c, x10, x01, x20, x11, x02}, "scalar difference"); same_md(s - x, 2, {c - x00, -x10, -x01, -x20, -x11, -x02}, "scalar difference"); same_md(x * s, 2, {c * x00, c * x10, c * x01, c * x20, c * x11, c * x02}, "scalar multiple"); same_md(s * x, 2, {c * x00, c * x10, c * x01, c * x20, c * x11, c * x02}, "scalar multiple"); MD y = x; y += s; same_md(y, 2, {x00 + c, x10, x01, x20, x11, x02}, "in-place sum"); y = x; y *= s; same_md(y, 2, {c * x00, c * x10, c * x01, c * x20, c * x11, c * x02}, "in-place multiple"); y = s; same_md(y, 2, {c, R(0), R(0), R(0), R(0), R(0)}, "assignment of a constant"); vp_cover("end"); }
SPEC(m_div) { MD x = any_md(1, XN, 63), y = any_md(1, YN, 63); GX(x) GX(y) require(y00 != R(0)); MD q = x / y; MD p = q * y; same_md(p, 1, {x00, x10, x01}, "quotient"); vp_cover("end"); }
SPEC(m_div2) { bool w = vp_choice("which", 0, 1); MD x = any_md(2, XN, w ? 21 : 3), y = any_md(2, YN, w ? 3 : 37); GX(x) GX(y) require(y00 != R(0)); MD q = x / y; MD p = q * y; same_md(p, 2, {x00, x10, x01, x20, x11, x02}, "quotient"); vp_cover("end"); }
SPEC(m_div_scalar) { MD x = any_md(2, XN, mask("mx")), y = any_md(1, YN, 63); GX(x) GX(y) require(y00 != R(0)); Sym s = fresh_sym("c"); MD r = s / y; same_md(r * y, 1, {re(s), R(0), R(0)}, "scalar over differential"); require(re(s) != R(0)); R c = re(s); same_md(x / s, 2, {x00 / c, x10 / c, x01 / c, x20 / c, x11 / c, x02 / c}, "over scalar"); vp_cover("end"); }
SPEC(m_ucompose) { UD f = any_ud(2, XN); MD y = any_md(2, YN, mask("my")); GX(y) R f0 = re(f[0]), f1 = re(f[1]), f2 = re(f[2]); same_md(compose(f, y), 2, {f0, f1 * y10, f1 * y01, f1 * y20 + f2 * y10 * y10, f1 * y11 + R(2) * f2 * y10 * y01, f1 * y02 + f2 * y01 * y01}, "chain rule"); vp_cover("end"); }
SPEC(m_elem) { MD y = any_md(2, YN, mask3("my")); GX(y) R e = vp::fun("exp", y00); same_md(exp(y), 2, {e, e * y10, e * y01, e * y20 + e * y10 * y10 / R(2), e * y11 + e * y10 * y01, e * y02 + e * y01 * y01 / R(2)}, "exponential"); vp_cover("end"); }
SPEC(m_sqr) { MD y = any_md(2, YN, mask3("my")); GX(y) same_md(sqr(y), 2, {y00 * y00, R(2) * y00 * y10, R(2) * y00 * y01, R(2) * y00 * y20 + y10 * y10, R(2) * y00 * y11 + R(2) * y10 * y01, R(2) * y00 * y02 + y01 * y01}, "square"); vp_cover("end"); }
SPEC(m_sin) { MD y = any_md(2, YN, mask3("my")); GX(y) R s = vp::fun("sin", y00), c = vp::fun("cos", y00); same_md(sin(y), 2, {s, c * y10, c * y01, c * y20 - s * y10 * y10 / R(2), c * y11 - s * y10 * y01, c * y02 - s * y01 * y01 / R(2)}, "sine"); vp_cover("end"); }
SPEC(m_cos) { MD y = any_md(2, YN, mask3("my")); GX(y) R s = vp::fun("sin", y00), c = vp::fun("cos", y00); same_md(cos(y), 2, {c, -s * y10, -s * y01, -s * y20 - c * y10 * y10 / R(2), -s * y11 - c * y10 * y01, -s * y02 - c * y01 * y01 / R(2)}, "cosine"); vp_cover("end"); }
SPEC(m_lattice) { MD x = any_md(1, XN), y = any_md(1, YN); GX(x) GX(y) require(x00 != y00); require(x00 != R(0)); bool lt = (x00 < y00).b, ps = (x00 > R(0)).b; if (lt) { same_md(max(x, y), 1, {y00, y10, y01}, "maximum"); same_md(min(x, y), 1, {x00, x10, x01}, "minimum"); } else { same_md(max(x, y), 1, {x00, x10, x01}, "maximum"); same_md(min(x, y), 1, {y00, y10, y01}, "minimum"); } if (ps) same_md(abs(x), 1, {x00, x10, x01}, "absolute value"); else same_md(abs(x), 1, {-x00, -x10, -x01}, "absolute value"); vp_cover("end"); }
SPEC(m_compose) { long w = vp_choice("which", 0, 3); static const unsigned MX[] = {63, 11, 22, 36}, MY[] = {3, 23, 15, 62}, MZ[] = {4, 45, 39, 5}; MD x = any_md(2, XN, MX[w]); MD y = any_md(2, YN, MY[w]), z = any_md(2, ZN, MZ[w]); GX(x) GX(y) GX(z) VD v = {y, z}; same_md(compose(x, v), 2, {x00, x10 * y10 + x01 * z10, x10 * y01 + x01 * z01, x10 * y20 + x01 * z20 + x20 * y10 * y10 + x11 * y10 * z10 + x02 * z10 * z10, x10 * y11 + x01 * z11 + R(2) * x20 * y10 * y01 + x11 * (y10 * z01 + y01 * z10) + R(2) * x02 * z10 * z01, x10 * y02 + x01 * z02 + x20 * y01 * y01 + x11 * y01 * z01 + x02 * z01 * z01}, "multivariate chain rule"); same_md(v[0], 2, {y00, y10, y01, y20, y11, y02}, "argument left alone"); same_md(v[1], 2, {z00, z10, z01, z20, z11, z02}, "argument left alone"); vp_cover("end"); }
SPEC(m_deriv) { MD x = any_md(2, XN, mask("mx")); GX(x) same_md(derivative(x, 0), 1, {x10, R(2) * x20, x11}, "derivative"); same_md(derivative(x, 1), 1, {x01, x11, R(2) * x02}, "derivative"); same_md(antiderivative(x, 0), 3, {R(0), x00, R(0), x10 / R(2), x01, R(0), x20 / R(3), x11 / R(2), x02, R(0)}, "antiderivative"); same_md(antiderivative(x, 1), 3, {R(0), R(0), x00, R(0), x10, x01 / R(2), R(0), x20, x11 / R(2), x02 / R(3)}, "antiderivative"); ensure((re(x.value()) == x00) & (re(x.gradient()[0]) == x10) & (re(x.gradient()[1]) == x01) & (re(x.gradient(1)) == x01), "value and gradient"); Matrix<Sym> h = x.hessian(), hh = x.half_hessian(); ensure((re(h[0][0]) == R(2) * x20) & (re(h[0][1]) == x11) & (re(h[1][0]) == x11) & (re(h[1][1]) == R(2) * x02), "hessian"); ensure((re(hh[0][0]) == x20) & (re(hh[0][1]) == x11 / R(2)) & (re(hh[1][0]) == x11 / R(2)) & (re(hh[1][1]) == x02), "half hessian"); vp_cover("end"); }
SPEC(m_make) { Sym c = fresh_sym("c"), d = fresh_sym("d"), g[4] = {fresh_sym("g0"), fresh_sym("g1"), fresh_sym("g2"), fresh_sym("g3")};  Covector<Sym> gg(2u, Sym(0)); gg[0] = g[0]; gg[1] = g[1]; R k = re(c), l = re(d), o = R(0), i = R(1); same_md(MD::constant(2, 2, c), 2, {k, o, o, o, o, o}, "constant"); same_md(MD::variable(2, 2, c, 0), 2, {k, i, o, o, o, o}, "variable"); same_md(MD::variable(2, 2, c, 1), 2, {k, o, i, o, o, o}, "variable"); same_md(MD::affine(2, c, gg), 2, {k, re(g[0]), re(g[1]), o, o, o}, "affine"); Vector<Sym> v = {c, d}; VD q = MD::constants(2, 2, v); same_md(q[0], 2, {k, o, o, o, o, o}, "constants"); same_md(q[1], 2, {l, o, o, o, o, o}, "constants"); q = MD::variables(2, v); same_md(q[0], 2, {k, i, o, o, o, o}, "variables"); same_md(q[1], 2, {l, o, i, o, o, o}, "variables"); Matrix<Sym> m(2u, 2u, Sym(0)); m[0][0] = g[0]; m[0][1] = g[1]; m[1][0] = g[2]; m[1][1] = g[3]; q = MD::affine(2, v, m); same_md(q[0], 2, {k, re(g[0]), re(g[1]), o, o, o}, "affine"); same_md(q[1], 2, {l, re(g[2]), re(g[3]), o, o, o}, "affine"); Matrix<Sym> jq = q.jacobian(); ensure((re(jq[0][0]) == re(g[0])) & (re(jq[0][1]) == re(g[1])) & (re(jq[1][0]) == re(g[2])) & (re(jq[1][1]) == re(g[3])), "jacobian"); Vector<Sym> vv = q.value(); ensure((re(vv[0]) == k) & (re(vv[1]) == l), "values"); vp_cover("end"); }
SPEC(m_set) { MD x = any_md(2, XN, mask("mx")); GX(x) Sym s = fresh_sym("c"); R c = re(s); MD y = x; y.set_value(s); same_md(y, 2, {c, x10, x01, x20, x11, x02}, "set value"); y = x; y.set_gradient(1, s); same_md(y, 2, {x00, x10, c, x20, x11, x02}, "set gradient"); y = x; y.set_degree(1); same_md(y, 1, {x00, x10, x01, R(0), R(0), R(0)}, "lower degree"); y = x; y.clear(); same_md(y, 2, {R(0), R(0), R(0), R(0), R(0), R(0)}, "cleared"); y = x; y[MI(1, 1)] = s; same_md(y, 2, {x00, x10, x01, x20, c, x02}, "set term"); vp_cover("end"); }
SPEC(m_equal) { MD x = any_md(2, XN, mask("mx")), y = any_md(2, YN, mask("my")); GX(x) GX(y) B e = (x00 == y00) & (x10 == y10) & (x01 == y01) & (x20 == y20) & (x11 == y11) & (x02 == y02); ensure(iff(B(x == y), e), "equality"); ensure(iff(B(x != y), !e), "inequality"); vp_cover("end"); }
SPEC(v_ops) { MD x = any_md(1, XN), y = any_md(1, YN), z = any_md(1, ZN, 5); GX(x) GX(y) GX(z) VD v = {x, y}, w = {z, x}; VD s = v + w, d = v - w, n = -v; same_md(s[0], 1, {x00 + z00, x10 + z10, x01 + z01}, "vector sum"); same_md(s[1], 1, {x00 + y00, x10 + y10, x01 + y01}, "vector sum"); same_md(d[0], 1, {x00 - z00, x10 - z10, x01 - z01}, "vector difference"); same_md(n[1], 1, {-y00, -y10, -y01}, "vector negation"); VD k = derivative(v, 1), a = antiderivative(v, 0); same_md(k[0], 0, {x01}, "derivative"); same_md(k[1], 0, {y01}, "derivative"); same_md(a[1], 2, {R(0), y00, R(0), y10 / R(2), y01, R(0)}, "antiderivative"); ensure(B(k.degree() == 0 && a.degree() == 2 && s.degree() == 1), "degree"); VD q = v; q.set_degree(0); ensure(B(q.degree() == 0), "degree"); same_md(q[1], 0, {y00}, "set degree"); Vector<Sym> c = {fresh_sym("c0"), fresh_sym("c1")}; q = v; q.set_value(c); same_md(q[1], 1, {re(c[1]), y10, y01}, "set value"); vp_cover("end"); }
SPEC(v_compose) { MD x = any_md(1, XN), y = any_md(1, ZN), p = any_md(2, YN, 7), q = MD::variable(2, 2, fresh_sym("v"), 1); GX(x) GX(y) GX(p) VD f = {x, y}, g = {p, q}; VD r = compose(f, g); same_md(r[0], 1, {x00, x10 * p10, x10 * p01 + x01}, "chain rule"); same_md(r[1], 1, {y00, y10 * p10, y10 * p01 + y01}, "chain rule"); ensure(B(r.degree() == 1), "degree"); vp_cover("end"); }
static MD any_1d(DegreeType d, const char** n) { MD r(1u, d, Sym(0)); for (DegreeType i = 0; i <= d; ++i) { MultiIndex a(1u); a[0] = i; r.expansion().append(a, fresh_sym(n[i])); } return r; }
// x' = f(x), f = f0 + f1 (x-x0) + f2 (x-x0)^2; the flow has variables (x0, t)
SPEC(v_flow) { MD f = any_1d(1, XN); Sym x0 = fresh_sym("p"); VD df = {f}; Vector<Sym> p = {x0}; MultiIndex a(1u); R f0 = re(f[a]); a[0] = 1; R f1 = re(f[a]); VD r = flow(df, p); same_md(r[0], 2, {re(x0), R(1), f0, R(0), f1, f0 * f1 / R(2)}, "flow of a differential equation"); vp_cover("end"); }
SPEC(v_flow_time) { MD f = any_md(1, XN); GX(f) Sym x0 = fresh_sym("p"), t0 = fresh_sym("t"); VD df = {f}; Vector<Sym> p = {x0}; VD r = flow(df, p, t0); same_md(r[0], 2, {re(x0), R(1), f00, R(0), f10, (f10 * f00 + f01) / R(2)}, "flow with time"); vp_cover("end"); }
SPEC(v_flow_par) { MD f = any_md(1, XN); GX(f) Sym x0 = fresh_sym("p"), a0 = fresh_sym("a"); VD df = {f}; Vector<Sym> p = {x0}, a = {a0}; VD r = flow(df, p, a); ensure(B(r[0].argument_size() == 3u && r[0].degree() == 2), "shape"); auto c = [&](DegreeType i, DegreeType j, DegreeType k) { MultiIndex m(3u); m[0] = i; m[1] = j; m[2] = k; return re(r[0][m]); }; ensure((c(0, 0, 0) == re(x0)) & (c(1, 0, 0) == R(1)) & (c(0, 1, 0) == f00) & (c(0, 0, 1) == R(0)), "flow with parameters, linear terms"); ensure((c(2, 0, 0) == R(0)) & (c(1, 1, 0) == f10) & (c(0, 2, 0) == f10 * f00 / R(2)) & (c(0, 1, 1) == f01) & (c(1, 0, 1) == R(0)) & (c(0, 0, 2) == R(0)), "flow with parameters, quadratic terms"); vp_cover("end"); }
SPEC(v_flow_time_par) { MD f(3u, 1, Sym(0)); R c3[4] = {0, 0, 0, 0}; static const char* N[] = {"f0", "fx", "ft", "fa"}; for (int i = 0; i < 4; ++i) { MultiIndex a(3u); if (i) a[i - 1] = 1; Sym s = fresh_sym(N[i]); c3[i] = re(s); f.expansion().append(a, s); } Sym x0 = fresh_sym("p"), t0 = fresh_sym("t"), a0 = fresh_sym("a"); VD df = {f}; Vector<Sym> p = {x0}, a = {a0}; VD r = flow(df, p, t0, a); ensure(B(r[0].argument_size() == 3u && r[0].degree() == 2), "shape"); auto c = [&](DegreeType i, DegreeType j, DegreeType k) { MultiIndex m(3u); m[0] = i; m[1] = j; m[2] = k; return re(r[0][m]); }; ensure((c(0, 0, 0) == re(x0)) & (c(1, 0, 0) == R(1)) & (c(0, 1, 0) == c3[0]) & (c(0, 0, 1) == R(0)) & (c(2, 0, 0) == R(0)) & (c(1, 1, 0) == c3[1]) & (c(0, 2, 0) == (c3[1] * c3[0] + c3[2]) / R(2)) & (c(0, 1, 1) == c3[3]) & (c(1, 0, 1) == R(0)) & (c(0, 0, 2) == R(0)), "flow with time and parameters"); vp_cover("end"); }
// f(x,y) = 0 solved for y = h(x): f0 is assumed zero at the base point
SPEC(v_solve) { MD f = any_md(2, XN, 62); GX(f) require(f01 != R(0)); Sym y0 = fresh_sym("y"); VD df = {f}; Vector<Sym> y = {y0}; vp_may_throw(); VD h = solve(df, y); vp_no_throw(); ensure(B(h[0].argument_size() == 1u && h[0].degree() == 2), "shape"); auto c = [&](DegreeType i) { MultiIndex m(1u); m[0] = i; return re(h[0][m]); }; R h1 = c(1), h2 = c(2); ensure(c(0) == re(y0), "value of the solution"); ensure(f10 + f01 * h1 == R(0), "first derivative of the solution"); ensure(f20 + f11 * h1 + f02 * h1 * h1 + f01 * h2 == R(0), "second derivative of the solution"); vp_cover("end"); }
SPEC(m_hessian3) { MD x(3u, 2, Sym(0)); static const char* N[] = {"a", "b", "c", "d", "e", "f"}; long w = vp_choice("mask", 0, 63); R v[6] = {0, 0, 0, 0, 0, 0}; int k = 0; for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j, ++k) if (w >> k & 1) { MultiIndex a(3u); a[i] += 1; a[j] += 1; Sym s = fresh_sym(N[k]); v[k] = re(s); x.expansion().append(a, s); } Matrix<Sym> h = x.hessian(); k = 0; for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j, ++k) { R e = i == j ? R(2) * v[k] : v[k]; ensure((re(h[i][j]) == e) & (re(h[j][i]) == e), "hessian in three variables"); } vp_cover("end"); }
// coefficients whose comparison with zero may be undecided, as it is for enclosures: nothing that may be nonzero is dropped
typedef Differential<KSym> KD;
static R kat(KD const& x, DegreeType a, DegreeType b) { R s = 0; for (auto it = x.begin(); it != x.end(); ++it) if (it->index()[0] == a && it->index()[1] == b) s = s + re(it->coefficient()); return s; }
SPEC(k_make) { KSym g[4] = {fresh_ksym("g0"), fresh_ksym("g1"), fresh_ksym("g2"), fresh_ksym("g3")}, c = fresh_ksym("c"), d = fresh_ksym("d"); Vector<KSym> v = {c, d}; Matrix<KSym> m(2u, 2u, KSym(0)); m[0][0] = g[0]; m[0][1] = g[1]; m[1][0] = g[2]; m[1][1] = g[3]; Vector<KD> q = KD::affine(2, v, m); for (int i = 0; i < 2; ++i) ensure((kat(q[i], 0, 0) == re(v[i])) & (kat(q[i], 1, 0) == re(g[2 * i])) & (kat(q[i], 0, 1) == re(g[2 * i + 1])), "affine"); Covector<KSym> h(2u, KSym(0)); h[0] = g[0]; h[1] = g[1]; KD a = KD::affine(1, c, h); ensure((kat(a, 0, 0) == re(c)) & (kat(a, 1, 0) == re(g[0])) & (kat(a, 0, 1) == re(g[1])), "affine"); KD k = KD::constant(2, 2, c), x = KD::variable(2, 2, c, 1); ensure(kat(k, 0, 0) == re(c), "constant"); ensure((kat(x, 0, 0) == re(c)) & (kat(x, 0, 1) == R(1)), "variable"); vp_cover("end"); }
SPEC(k_ops) { KSym c = fresh_ksym("c"), d = fresh_ksym("d"), s = fresh_ksym("s"); KD x(2u, 1, KSym(0)), y(2u, 1, KSym(0)); x.expansion().append(MI(0, 0), c); x.expansion().append(MI(1, 0), d); KSym e = fresh_ksym("e"), f = fresh_ksym("f"); y.expansion().append(MI(0, 0), e); y.expansion().append(MI(0, 1), f); KD p = x * y, a = x + y, b = x - y, m = x * s, n = s - y; ensure((kat(p, 0, 0) == re(c) * re(e)) & (kat(p, 1, 0) == re(d) * re(e)) & (kat(p, 0, 1) == re(c) * re(f)), "product"); ensure((kat(a, 0, 0) == re(c) + re(e)) & (kat(a, 1, 0) == re(d)) & (kat(a, 0, 1) == re(f)), "sum"); ensure((kat(b, 0, 0) == re(c) - re(e)) & (kat(b, 1, 0) == re(d)) & (kat(b, 0, 1) == -re(f)), "difference"); ensure((kat(m, 0, 0) == re(c) * re(s)) & (kat(m, 1, 0) == re(d) * re(s)), "scalar multiple"); ensure((kat(n, 0, 0) == re(s) - re(e)) & (kat(n, 0, 1) == -re(f)), "scalar difference"); vp_cover("end"); }
