// VP-PROPERTY: A01
// VP-SOURCES: source/algebra/vector.cpp source/algebra/matrix.cpp source/numeric/logical.cpp source/numeric/int.cpp
// VP-BOUND: matrices up to 3 by 3, vectors up to size 3; every entry arbitrary
#include "sym.hpp"
#include "algebra/vector.hpp"
#include "algebra/covector.hpp"
#include "algebra/matrix.hpp"
#include "algebra/matrix.tpl.hpp"
#include "algebra/diagonal_matrix.hpp"
#include "algebra/symmetric_matrix.hpp"
using namespace vp; using namespace Ariadne;
typedef Vector<Sym> V; typedef Covector<Sym> U; typedef Matrix<Sym> M; typedef DiagonalMatrix<Sym> D;
static const char* N[] = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r"};
static V any_v(SizeType n, int k) { V r(n, Sym(0)); for (SizeType i = 0; i < n; ++i) r[i] = fresh_sym(N[k + i]); return r; }
static U any_u(SizeType n, int k) { U r(n, Sym(0)); for (SizeType i = 0; i < n; ++i) r[i] = fresh_sym(N[k + i]); return r; }
static M any_m(SizeType m, SizeType n, int k) { M r(m, n, Sym(0)); for (SizeType i = 0; i < m; ++i) for (SizeType j = 0; j < n; ++j) r[i][j] = fresh_sym(N[k + i * n + j]); return r; }
static R at(M const& a, SizeType i, SizeType j) { return re(a.at(i, j)); }
template<class F> static void is_v(V const& r, SizeType n, F f, const char* l) { ensure(B(r.size() == n), "size"); for (SizeType i = 0; i < n; ++i) ensure(re(r[i]) == f(i), l); }
template<class F> static void is_u(U const& r, SizeType n, F f, const char* l) { ensure(B(r.size() == n), "size"); for (SizeType i = 0; i < n; ++i) ensure(re(r[i]) == f(i), l); }
template<class F> static void is_m(M const& r, SizeType m, SizeType n, F f, const char* l) { ensure(B(r.row_size() == m && r.column_size() == n), "size"); for (SizeType i = 0; i < m; ++i) for (SizeType j = 0; j < n; ++j) ensure(at(r, i, j) == f(i, j), l); }
#define VI [&](SizeType i)
#define MIJ [&](SizeType i, SizeType j)
SPEC(vector_ops) { V v = any_v(3, 0), w = any_v(3, 3); Sym s = fresh_sym("s"); R c = re(s); is_v(v + w, 3, VI { return re(v[i]) + re(w[i]); }, "sum"); is_v(v - w, 3, VI { return re(v[i]) - re(w[i]); }, "difference"); is_v(-v, 3, VI { return -re(v[i]); }, "negation"); is_v(+v, 3, VI { return re(v[i]); }, "identity"); is_v(s * v, 3, VI { return c * re(v[i]); }, "scalar multiple"); is_v(v * s, 3, VI { return c * re(v[i]); }, "scalar multiple"); require(c != R(0)); is_v(v / s, 3, VI { return re(v[i]) / c; }, "scalar quotient"); V r = v; r += w; is_v(r, 3, VI { return re(v[i]) + re(w[i]); }, "in-place sum"); r = v; r -= w; is_v(r, 3, VI { return re(v[i]) - re(w[i]); }, "in-place difference"); r = v; r *= s; is_v(r, 3, VI { return re(v[i]) * c; }, "in-place multiple"); r = v; r /= s; is_v(r, 3, VI { return re(v[i]) / c; }, "in-place quotient"); vp_cover("end"); }
SPEC(vector_more) { V v = any_v(3, 0), w = any_v(3, 3); Sym s = fresh_sym("s"); R a = re(v[0]), b = re(v[1]), c = re(v[2]); ensure(re(dot(v, w)) == a * re(w[0]) + b * re(w[1]) + c * re(w[2]), "dot product"); ensure(re(norm(v)) == rmax(rabs(a), rmax(rabs(b), rabs(c))), "norm"); ensure(re(sup_norm(v)) == rmax(rabs(a), rmax(rabs(b), rabs(c))), "supremum norm"); ensure(re(two_norm(v)) == vp::fun("sqrt", a * a + b * b + c * c), "euclidean norm"); is_v(join(v, w), 6, VI { return i < 3 ? re(v[i]) : re(w[i - 3]); }, "join"); is_v(join(v, s), 4, VI { return i < 3 ? re(v[i]) : re(s); }, "join"); is_v(join(s, v), 4, VI { return i > 0 ? re(v[i - 1]) : re(s); }, "join"); V p = project(v, range(1, 3)); is_v(p, 2, VI { return re(v[i + 1]); }, "projection"); V u = V::unit(3, 1); is_v(u, 3, VI { return R(i == 1); }, "unit vector"); B e = (a == re(w[0])) & (b == re(w[1])) & (c == re(w[2])); ensure(iff(B(v == w), e), "equality"); ensure(iff(B(v != w), !e), "inequality"); vp_cover("end"); }
SPEC(covector_ops) { U u = any_u(2, 0), w = any_u(2, 2); V v = any_v(2, 4); M m = any_m(2, 3, 6); Sym s = fresh_sym("s"); R c = re(s); is_u(u + w, 2, VI { return re(u[i]) + re(w[i]); }, "sum"); is_u(u - w, 2, VI { return re(u[i]) - re(w[i]); }, "difference"); is_u(-u, 2, VI { return -re(u[i]); }, "negation"); is_u(s * u, 2, VI { return c * re(u[i]); }, "multiple"); is_u(u * s, 2, VI { return c * re(u[i]); }, "multiple"); require(c != R(0)); is_u(u / s, 2, VI { return re(u[i]) / c; }, "quotient"); ensure(re(u * v) == re(u[0]) * re(v[0]) + re(u[1]) * re(v[1]), "covector times vector"); is_u(u * m, 3, VI { return re(u[0]) * at(m, 0, i) + re(u[1]) * at(m, 1, i); }, "covector times matrix"); vp_cover("end"); }
SPEC(matrix_ops) { M x = any_m(2, 3, 0), y = any_m(2, 3, 6); Sym s = fresh_sym("s"); R c = re(s); is_m(x + y, 2, 3, MIJ { return at(x, i, j) + at(y, i, j); }, "sum"); is_m(x - y, 2, 3, MIJ { return at(x, i, j) - at(y, i, j); }, "difference"); is_m(-x, 2, 3, MIJ { return -at(x, i, j); }, "negation"); is_m(+x, 2, 3, MIJ { return at(x, i, j); }, "identity"); is_m(s * x, 2, 3, MIJ { return c * at(x, i, j); }, "multiple"); is_m(x * s, 2, 3, MIJ { return c * at(x, i, j); }, "multiple"); require(c != R(0)); is_m(x / s, 2, 3, MIJ { return at(x, i, j) / c; }, "quotient"); M z = x; z += y; is_m(z, 2, 3, MIJ { return at(x, i, j) + at(y, i, j); }, "in-place sum"); z = x; z -= y; is_m(z, 2, 3, MIJ { return at(x, i, j) - at(y, i, j); }, "in-place difference"); z = x; z /= s; is_m(z, 2, 3, MIJ { return at(x, i, j) / c; }, "in-place quotient"); vp_cover("end"); }
SPEC(matrix_mul) { M x = any_m(2, 3, 0), y = any_m(3, 2, 6); V v = any_v(3, 12), w = any_v(2, 15); auto s = [&](auto f) { R t(0); for (SizeType k = 0; k < 3; ++k) t = t + f(k); return t; }; is_m(x * y, 2, 2, MIJ { return s([&](SizeType k) { return at(x, i, k) * at(y, k, j); }); }, "product"); is_v(x * v, 2, VI { return s([&](SizeType k) { return at(x, i, k) * re(v[k]); }); }, "matrix times vector"); M z = any_m(2, 3, 6); is_m(x * transpose(z), 2, 2, MIJ { return s([&](SizeType k) { return at(x, i, k) * at(z, j, k); }); }, "product with transpose"); is_m(transpose(x) * z, 3, 3, MIJ { return at(x, 0, i) * at(z, 0, j) + at(x, 1, i) * at(z, 1, j); }, "transpose times matrix"); is_v(transpose(x) * w, 3, VI { return at(x, 0, i) * re(w[0]) + at(x, 1, i) * re(w[1]); }, "transpose times vector"); M t = transpose(x); is_m(t, 3, 2, MIJ { return at(x, j, i); }, "transpose"); vp_cover("end"); }
SPEC(matrix_shape) { M x = any_m(2, 3, 0), y = any_m(2, 3, 6); U u = any_u(3, 12); V v = any_v(2, 15); is_m(join(x, y), 4, 3, MIJ { return i < 2 ? at(x, i, j) : at(y, i - 2, j); }, "rows joined"); is_m(join(x, u), 3, 3, MIJ { return i < 2 ? at(x, i, j) : re(u[j]); }, "row appended"); is_m(join(u, x), 3, 3, MIJ { return i > 0 ? at(x, i - 1, j) : re(u[j]); }, "row prepended"); is_m(cojoin(x, y), 2, 6, MIJ { return j < 3 ? at(x, i, j) : at(y, i, j - 3); }, "columns joined"); is_m(cojoin(x, v), 2, 4, MIJ { return j < 3 ? at(x, i, j) : re(v[i]); }, "column appended"); is_m(cojoin(v, x), 2, 4, MIJ { return j > 0 ? at(x, i, j - 1) : re(v[i]); }, "column prepended"); M p = project(x, range(0, 2), range(1, 3)); is_m(p, 2, 2, MIJ { return at(x, i, j + 1); }, "sub-matrix"); is_m(M::identity(3, Sym(0)), 3, 3, MIJ { return R(i == j); }, "identity matrix"); V cl = column(x, 1); is_v(cl, 2, VI { return at(x, i, 1); }, "column"); B e(true); for (SizeType i = 0; i < 2; ++i) for (SizeType j = 0; j < 3; ++j) e = e & (at(x, i, j) == at(y, i, j)); ensure(iff(B(x == y), e), "equality"); vp_cover("end"); }
SPEC(matrix_norm) { M x = any_m(2, 2, 0); R r0 = rabs(at(x, 0, 0)) + rabs(at(x, 0, 1)), r1 = rabs(at(x, 1, 0)) + rabs(at(x, 1, 1)); ensure(re(norm(x)) == rmax(r0, r1), "norm"); ensure(re(sup_norm(x)) == rmax(r0, r1), "supremum norm"); V n = row_norms(x); ensure((re(n[0]) == r0) & (re(n[1]) == r1), "row norms"); vp_cover("end"); }
static void left_inverse(M const& x, M const& r, SizeType n) { ensure(B(r.row_size() == n && r.column_size() == n), "size"); for (SizeType i = 0; i < n; ++i) for (SizeType j = 0; j < n; ++j) { R s(0); for (SizeType k = 0; k < n; ++k) s = s + at(r, i, k) * at(x, k, j); ensure(s == R(i == j), "inverse times matrix is the identity"); } }
SPEC(inverse2) { M x = any_m(2, 2, 0); vp_may_throw(); M r = lu_inverse(x); vp_no_throw(); left_inverse(x, r, 2); vp_cover("end"); }
SPEC(inverse3) { M x = any_m(3, 3, 0); vp_may_throw(); M r = inverse(x); vp_no_throw(); left_inverse(x, r, 3); vp_cover("end"); }
SPEC(solve2) { M x = any_m(2, 2, 0); V b = any_v(2, 4); M c = any_m(2, 1, 6); long w = vp_choice("which", 0, 3); vp_may_throw(); if (w < 2) { V r = w ? lu_solve(x, b) : solve(x, b); vp_no_throw(); for (SizeType i = 0; i < 2; ++i) ensure(at(x, i, 0) * re(r[0]) + at(x, i, 1) * re(r[1]) == re(b[i]), "solution of the linear equations"); } else { M r = w == 2 ? lu_solve(x, c) : solve(x, c); vp_no_throw(); for (SizeType i = 0; i < 2; ++i) ensure(at(x, i, 0) * at(r, 0, 0) + at(x, i, 1) * at(r, 1, 0) == at(c, i, 0), "solution of the linear equations"); } vp_cover("end"); }
SPEC(triangular) { M x = any_m(2, 2, 0); require(at(x, 0, 0) * at(x, 1, 1) != at(x, 0, 1) * at(x, 1, 0)); auto t = triangular_decomposition(x); M l = std::get<1>(t), u = std::get<2>(t), px = std::get<0>(t) * x; ensure((at(l, 0, 0) == R(1)) & (at(l, 1, 1) == R(1)) & (at(l, 0, 1) == R(0)) & (at(u, 1, 0) == R(0)), "triangular"); for (SizeType i = 0; i < 2; ++i) for (SizeType j = 0; j < 2; ++j) ensure(at(l, i, 0) * at(u, 0, j) + at(l, i, 1) * at(u, 1, j) == at(px, i, j), "product of the triangular factors"); vp_cover("end"); }
SPEC(diagonal) { V p = any_v(2, 0), q = any_v(2, 2); D d(p), e(q); M x = any_m(2, 2, 4); Sym s = fresh_sym("s"); R c = re(s); auto isd = [&](D const& r, R a, R b, const char* l) { ensure((re(r.at(0, 0)) == a) & (re(r.at(1, 1)) == b) & (re(r.at(0, 1)) == R(0)) & (re(r.at(1, 0)) == R(0)), l); }; R a = re(p[0]), b = re(p[1]), f = re(q[0]), g = re(q[1]); isd(d + e, a + f, b + g, "sum"); isd(d - e, a - f, b - g, "difference"); isd(-d, -a, -b, "negation"); isd(d * e, a * f, b * g, "product"); isd(s * d, c * a, c * b, "multiple"); isd(d * s, c * a, c * b, "multiple"); require((c != R(0)) & (f != R(0)) & (g != R(0))); isd(d / s, a / c, b / c, "quotient"); isd(d / e, a / f, b / g, "quotient"); isd(inverse(e), R(1) / f, R(1) / g, "inverse"); auto dg = [&](SizeType i) { return i ? b : a; }; is_m(x + d, 2, 2, MIJ { return i == j ? at(x, i, j) + dg(i) : at(x, i, j); }, "matrix plus diagonal"); is_m(d + x, 2, 2, MIJ { return i == j ? at(x, i, j) + dg(i) : at(x, i, j); }, "diagonal plus matrix"); is_m(x - d, 2, 2, MIJ { return i == j ? at(x, i, j) - dg(i) : at(x, i, j); }, "matrix minus diagonal"); is_m(d - x, 2, 2, MIJ { return i == j ? dg(i) - at(x, i, j) : -at(x, i, j); }, "diagonal minus matrix"); is_m(x * d, 2, 2, MIJ { return at(x, i, j) * dg(j); }, "matrix times diagonal"); is_m(d * x, 2, 2, MIJ { return at(x, i, j) * dg(i); }, "diagonal times matrix"); V v = any_v(2, 8); is_v(d * v, 2, VI { return dg(i) * re(v[i]); }, "diagonal times vector"); is_m(d * transpose(x), 2, 2, MIJ { return dg(i) * at(x, j, i); }, "diagonal times transpose"); vp_cover("end"); }
static R det3(M const& x) { return at(x, 0, 0) * (at(x, 1, 1) * at(x, 2, 2) - at(x, 1, 2) * at(x, 2, 1)) - at(x, 0, 1) * (at(x, 1, 0) * at(x, 2, 2) - at(x, 1, 2) * at(x, 2, 0)) + at(x, 0, 2) * (at(x, 1, 0) * at(x, 2, 1) - at(x, 1, 1) * at(x, 2, 0)); }
SPEC(triangular3) { M x = any_m(3, 3, 0); require(at(x, 0, 0) != R(0)); require(det3(x) != R(0)); auto t = triangular_decomposition(x); M l = std::get<1>(t), u = std::get<2>(t), px = std::get<0>(t) * x; for (SizeType i = 0; i < 3; ++i) { ensure(at(l, i, i) == R(1), "unit diagonal"); for (SizeType j = 0; j < i; ++j) ensure((at(l, j, i) == R(0)) & (at(u, i, j) == R(0)), "triangular"); } for (SizeType i = 0; i < 3; ++i) for (SizeType j = 0; j < 3; ++j) ensure(at(l, i, 0) * at(u, 0, j) + at(l, i, 1) * at(u, 1, j) + at(l, i, 2) * at(u, 2, j) == at(px, i, j), "product of the triangular factors"); vp_cover("end"); }
SPEC(orthogonal) { Sym::split_abs() = true; M x = any_m(2, 2, 0); require(at(x, 0, 0) * at(x, 1, 1) != at(x, 0, 1) * at(x, 1, 0)); auto t = orthogonal_decomposition(x); M o = std::get<0>(t), r = std::get<1>(t); ensure(at(o, 0, 0) * at(o, 0, 1) + at(o, 1, 0) * at(o, 1, 1) == R(0), "orthogonal columns"); ensure(at(r, 1, 0) == R(0), "triangular"); for (SizeType i = 0; i < 2; ++i) for (SizeType j = 0; j < 2; ++j) ensure(at(o, i, 0) * at(r, 0, j) + at(o, i, 1) * at(r, 1, j) == at(x, i, j), "product of the factors"); vp_cover("end"); }
SPEC(pivot) { M x = any_m(3, 2, 0); PivotMatrix p(3); for (SizeType i = 0; i < 3; ++i) p.pivot(i) = vp_choice("p", i, 2); M y = p * x; M q(p); is_m(q * x, 3, 2, MIJ { return at(y, i, j); }, "pivot as a matrix"); vp_cover("end"); }
