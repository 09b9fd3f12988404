// VP-PROPERTY: S01
// VP-SOURCES: source/numeric/logical.cpp source/numeric/int.cpp source/numeric/integer.cpp source/numeric/operators.cpp source/algebra/multi_index.cpp source/algebra/vector.cpp
// VP-BOUND: formulae up to two operations deep over two coordinates and an arbitrary constant, every operation at the top; every number arbitrary in the domain of the formula
// VP-ASSUME: sqrt, exp, log, sin, cos, tan, asin, acos, atan are uninterpreted real functions related only by the identities stated in the specification
#include "sym.hpp"
#include "stdtree.hpp"
#include "algebra/vector.hpp"
#include "algebra/covector.hpp"
#include "function/formula.cpp"
#define VP_HAVE_FORMULA
#include "function/procedure.hpp"
#include "function/procedure.tpl.hpp"
using namespace vp; using namespace Ariadne;
typedef Formula<Sym> F;
// a formula with its value at (x0,x1) and its partial derivatives there
struct G { F f; R v, d[2]; };
static Sym X[2]; static Vector<Sym> xs() { return Vector<Sym>({X[0], X[1]}); }
static void pt() { X[0] = fresh_sym("x0"); X[1] = fresh_sym("x1"); }
static const char* KN[] = {"k0", "k1", "k2", "k3", "k4"}; static const char* LN[] = {"l0", "l1", "l2", "l3", "l4"}; static const char* ON[] = {"o0", "o1", "o2", "o3", "o4"};
static G leaf(int k) { switch (vp_choice(LN[k], 0, 2)) { case 0: return {F::coordinate(0), X[0].v, {R(1), R(0)}}; case 1: return {F::coordinate(1), X[1].v, {R(0), R(1)}}; default: { Sym c = fresh_sym(KN[k]); return {F::constant(c), c.v, {R(0), R(0)}}; } } }
static G un(F f, G const& a, R v, R dv) { return {f, v, {dv * a.d[0], dv * a.d[1]}}; }
static R fn(const char* n, R x) { return vp::fun(n, x); }
static G unary(int op, G a) { R x = a.v; switch (op) {
  case 0: return un(neg(a.f), a, -x, R(-1));
  case 1: return un(sqr(a.f), a, x * x, R(2) * x);
  case 2: require(x != R(0)); return un(rec(a.f), a, R(1) / x, R(-1) / (x * x));
  case 3: { require(x > R(0)); R s = fn("sqrt", x); require((s > R(0)) & (s * s == x)); return un(sqrt(a.f), a, s, R(1) / (R(2) * s)); }
  case 4: return un(exp(a.f), a, fn("exp", x), fn("exp", x));
  case 5: require(x > R(0)); return un(log(a.f), a, fn("log", x), R(1) / x);
  case 6: return un(sin(a.f), a, fn("sin", x), fn("cos", x));
  case 7: return un(cos(a.f), a, fn("cos", x), -fn("sin", x));
  case 8: { R c = fn("cos", x), s = fn("sin", x), t = fn("tan", x); require((c != R(0)) & (t * c == s) & (s * s + c * c == R(1))); return un(tan(a.f), a, t, R(1) / (c * c)); }
  case 9: return un(atan(a.f), a, fn("atan", x), R(1) / (R(1) + x * x));
  case 10: { require((x > R(-1)) & (x < R(1))); R s = fn("sqrt", R(1) - x * x); require((s > R(0)) & (s * s == R(1) - x * x)); return un(asin(a.f), a, fn("asin", x), R(1) / s); }
  case 11: { require((x > R(-1)) & (x < R(1))); R s = fn("sqrt", R(1) - x * x); require((s > R(0)) & (s * s == R(1) - x * x)); return un(acos(a.f), a, fn("acos", x), R(-1) / s); }
  case 12: return un(hlf(a.f), a, x / R(2), R(1) / R(2));
  case 13: return un(pos(a.f), a, x, R(1));
  case 14: return un(F::unary(Nul(), a.f), a, R(0), R(0));
  default: return un(abs(a.f), a, vp::rabs(x), R(0)); } }
static G binary(int op, G a, G b) { switch (op) {
  case 0: return {a.f + b.f, a.v + b.v, {a.d[0] + b.d[0], a.d[1] + b.d[1]}};
  case 1: return {a.f - b.f, a.v - b.v, {a.d[0] - b.d[0], a.d[1] - b.d[1]}};
  case 2: return {a.f * b.f, a.v * b.v, {a.d[0] * b.v + a.v * b.d[0], a.d[1] * b.v + a.v * b.d[1]}};
  case 3: require(b.v != R(0)); return {a.f / b.f, a.v / b.v, {(a.d[0] * b.v - a.v * b.d[0]) / (b.v * b.v), (a.d[1] * b.v - a.v * b.d[1]) / (b.v * b.v)}};
  case 4: return {max(a.f, b.f), vp::rmax(a.v, b.v), {R(0), R(0)}};
  default: return {min(a.f, b.f), vp::rmin(a.v, b.v), {R(0), R(0)}}; } }

static G power(G a, int n) { if (n < 0) require(a.v != R(0)); R p = R(1), q = R(1); for (int i = 0; i < (n < 0 ? -n : n); ++i) { q = p; p = p * a.v; } R v = n < 0 ? R(1) / p : p, d = n == 0 ? R(0) : n > 0 ? R(n) * q : R(n) / (p * a.v); return un(pow(a.f, n), a, v, d); }
static G scalar(int op, Sym c, G b) { G a{F::constant(c), c.v, {R(0), R(0)}}; G r = binary(op, a, b); switch (op) { case 0: r.f = F::scalar(Add(), c, b.f); break; case 1: r.f = F::scalar(Sub(), c, b.f); break; case 2: r.f = F::scalar(Mul(), c, b.f); break; case 3: r.f = F::scalar(Div(), c, b.f); break; case 4: r.f = F::scalar(Max(), c, b.f); break; default: r.f = F::scalar(Min(), c, b.f); } return r; }
static G x0() { return {F::coordinate(0), X[0].v, {R(1), R(0)}}; } static G x1() { return {F::coordinate(1), X[1].v, {R(0), R(1)}}; } static G cst(int k) { Sym c = fresh_sym(KN[k]); return {F::constant(c), c.v, {R(0), R(0)}}; }
// an argument: a leaf or one operation
static G inner(int k) { switch (vp_choice(LN[k], 0, 9)) { case 0: return x0(); case 1: return x1(); case 2: return cst(k); case 3: return binary(0, x0(), cst(k)); case 4: return binary(2, x0(), x1()); case 5: return unary(0, x1()); case 6: return unary(6, x0()); case 7: return power(x0(), 3); case 8: return scalar(2, fresh_sym(KN[k]), x1()); default: return binary(3, x0(), x1()); } }
// any operation applied to arguments; smooth: leaving out the ones without derivative
static G any(bool smooth) { int op = (int)vp_choice("op", 0, 4); switch (op) { case 0: return unary((int)vp_choice("unary", 0, smooth ? 14 : 15), inner(0)); case 1: { G a = inner(0); return binary((int)vp_choice("binary", 0, smooth ? 3 : 5), a, inner(1)); } case 2: return power(inner(0), (int)vp_choice("n", -2, 3)); case 3: return scalar((int)vp_choice("scalar", 0, smooth ? 3 : 5), fresh_sym("c"), inner(0)); default: { G a = inner(0); return binary((int)vp_choice("binary", 0, smooth ? 3 : 5), a, a); } } }
SPEC(f_eval) { pt(); G g = any(false); ensure(re(evaluate(g.f, xs())) == g.v, "value"); ensure(re(direct_evaluate(g.f, xs())) == g.v, "value computed without a cache"); vp_cover("end"); }
SPEC(f_vector) { pt(); G g = inner(0), h = inner(1), k = binary((int)vp_choice("binary", 0, 5), g, h); Vector<F> f({k.f, g.f, k.f}); Vector<Sym> r = evaluate(f, xs()); ensure(B(r.size() == 3), "size"); ensure((re(r[0]) == k.v) & (re(r[1]) == g.v) & (re(r[2]) == k.v), "values"); vp_cover("end"); }
SPEC(f_derivative) { pt(); G g = any(true); SizeType j = (SizeType)vp_choice("j", 0, 1); ensure(re(evaluate(derivative(g.f, j), xs())) == g.d[j], "derivative"); vp_cover("end"); }
SPEC(f_make) { Vector<F> c = F::coordinates(2), i = F::identity(2); pt(); ensure(B(c.size() == 2 && i.size() == 2), "size"); ensure((re(evaluate(c[0], xs())) == X[0].v) & (re(evaluate(c[1], xs())) == X[1].v) & (re(evaluate(i[0], xs())) == X[0].v) & (re(evaluate(i[1], xs())) == X[1].v), "coordinates"); F z = F::zero(), w = c[0].create_zero(); Sym k = fresh_sym("k"); F n = c[0].create_constant(k), a = c[1]; a = k; ensure((re(evaluate(z, xs())) == R(0)) & (re(evaluate(w, xs())) == R(0)) & (re(evaluate(n, xs())) == k.v) & (re(evaluate(a, xs())) == k.v), "constants"); F x = c[0], y = x + k; ensure(re(evaluate(y, xs())) == X[0].v + k.v, "plus a number"); y = k - x; ensure(re(evaluate(y, xs())) == k.v - X[0].v, "number minus"); y = x - k; ensure(re(evaluate(y, xs())) == X[0].v - k.v, "minus a number"); y = x * k; ensure(re(evaluate(y, xs())) == X[0].v * k.v, "times a number"); require((k.v != R(0)) & (X[0].v != R(0))); y = x / k; ensure(re(evaluate(y, xs())) == X[0].v / k.v, "over a number"); y = k / x; ensure(re(evaluate(y, xs())) == k.v / X[0].v, "number over"); y = x; y += c[1]; y *= k; y -= x; ensure(re(evaluate(y, xs())) == (X[0].v + X[1].v) * k.v - X[0].v, "in-place operations"); vp_cover("end"); }
SPEC(f_simplify) { pt(); G g = any(false); F s = simplify(g.f); ensure(re(evaluate(s, xs())) == g.v, "simplification keeps the value"); vp_cover("end"); }
// an operation undone by its inverse, and constants where the rules look for them
SPEC(f_simplify_unary) { pt(); int i = (int)vp_choice("i", 0, 15), o = (int)vp_choice("o", 0, 15); G g = unary(o, unary(i, x0())); R x = X[0].v; if (i == 5 && o == 4) require(g.v == x); if (i == 4 && o == 5) require(g.v == x); if (i == 9 && o == 8) require(g.v == x); ensure(re(evaluate(simplify(g.f), xs())) == g.v, "simplification keeps the value"); vp_cover("end"); }
static G cst(long n) { return {F::constant(Sym(R(n))), R(n), {R(0), R(0)}}; }
SPEC(f_simplify_const) { pt(); G a = x0(); if (vp_choice("mul", 0, 1)) a = binary(2, x0(), x1()); G k = cst(vp_choice("k", -1, 1)); int op = (int)vp_choice("op", 0, 5); G g = vp_choice("first", 0, 1) ? binary(op, k, a) : binary(op, a, k); ensure(re(evaluate(simplify(g.f), xs())) == g.v, "simplification keeps the value"); Vector<F> v = simplify(Vector<F>({g.f, a.f})); ensure(B(v.size() == 2), "size"); ensure((re(evaluate(v[0], xs())) == g.v) & (re(evaluate(v[1], xs())) == a.v), "simplification of a vector"); vp_cover("end"); }
SPEC(f_substitute) { pt(); Sym y[2] = {X[0], X[1]}; Nat i = (Nat)vp_choice("i", 0, 1); G s = vp_choice("s", 0, 1) ? binary(0, x0(), x1()) : unary(6, x1()); X[i] = Sym(s.v); G g = any(false); Vector<Sym> yy({y[0], y[1]}); ensure(re(evaluate(substitute(g.f, i, s.f), yy)) == g.v, "substitution of a formula for a coordinate"); vp_cover("end"); }
SPEC(f_substitute_const) { pt(); Sym y[2] = {X[0], X[1]}; Nat i = (Nat)vp_choice("i", 0, 1); Sym k = fresh_sym("k"); X[i] = k; G g = inner(0); Vector<Sym> yy({y[0], y[1]}); ensure(re(evaluate(substitute(g.f, i, k), yy)) == g.v, "substitution of a constant"); vp_cover("end"); }
SPEC(f_identical) { pt(); G g = inner(0), h = inner(1); if (identical(g.f, h.f)) ensure(g.v == h.v, "identical formulae have the same value"); ensure(B(identical(g.f, g.f)), "identical to itself"); if (identical(Vector<F>({g.f, h.f}), Vector<F>({h.f, g.f}))) ensure(g.v == h.v, "identical vectors of formulae have the same values"); ensure(B(!identical(Vector<F>({g.f, h.f}), Vector<F>({g.f}))), "vectors of different sizes"); vp_cover("end"); }
static Set<Nat> subset(int m) { Set<Nat> s; if (m & 1) s.insert(0u); if (m & 2) s.insert(1u); return s; }
SPEC(f_constant_in) { pt(); G g = any(false); int m = (int)vp_choice("indices", 1, 3); if (is_constant_in(g.f, subset(m))) { Sym y[2] = {X[0], X[1]}; if (m & 1) y[0] = fresh_sym("y0"); if (m & 2) y[1] = fresh_sym("y1"); vp_cover("constant"); Sym::assume_domain() = true; Vector<Sym> yy({y[0], y[1]}); ensure(re(evaluate(g.f, yy)) == g.v, "a formula constant in some coordinates does not depend on them"); } if (is_constant(g.f)) { Sym::assume_domain() = true; Vector<Sym> yy({fresh_sym("z0"), fresh_sym("z1")}); ensure(re(evaluate(g.f, yy)) == g.v, "a constant formula is constant"); } vp_cover("end"); }
SPEC(f_affine_in) { pt(); G g = any(false); int m = (int)vp_choice("indices", 1, 3); if (is_affine_in(g.f, subset(m))) { vp_cover("affine"); Sym::assume_domain() = true; Sym y[2] = {X[0], X[1]}; if (m & 1) y[0] = fresh_sym("y0"); if (m & 2) y[1] = fresh_sym("y1"); Vector<Sym> yy({y[0], y[1]}), mm({hlf(y[0] + X[0]), hlf(y[1] + X[1])}); ensure(R(2) * re(evaluate(g.f, mm)) == g.v + re(evaluate(g.f, yy)), "a formula affine in some coordinates is affine in them"); } vp_cover("end"); }
SPEC(f_additive_in) { pt(); G g = inner(0), h = inner(1); SizeType i = (SizeType)vp_choice("i", 0, 1); if (is_additive_in(Vector<F>({g.f, h.f}), subset(1 << i))) { vp_cover("additive"); Sym::assume_domain() = true; ensure((g.d[i] == R(0)) | (h.d[i] == R(0)), "at most one component depends on the coordinate"); R d = re(evaluate(derivative(g.f, i), xs())), e = re(evaluate(derivative(h.f, i), xs())); Vector<Sym> yy({fresh_sym("z0"), fresh_sym("z1")}); ensure((d == re(evaluate(derivative(g.f, i), yy))) & (e == re(evaluate(derivative(h.f, i), yy))), "with a constant multiplier"); } vp_cover("end"); }

typedef Procedure<Sym> PR; typedef Vector<Procedure<Sym>> VPR;
SPEC(p_eval) { pt(); G g = any(false); PR p(2u, g.f); ensure(B(p.argument_size() == 2), "argument size"); ensure(re(evaluate(p, xs())) == g.v, "value of the procedure"); vp_cover("end"); }
SPEC(p_vector) { pt(); G g = inner(0), h = inner(1), k = binary((int)vp_choice("binary", 0, 5), g, h); Vector<F> f({k.f, g.f, k.f, h.f}); VPR p(2u, f); Vector<Sym> r = evaluate(p, xs()); ensure(B(r.size() == 4 && p.result_size() == 4 && p.argument_size() == 2 && p.temporaries_size() == p._instructions.size()), "sizes"); ensure((re(r[0]) == k.v) & (re(r[1]) == g.v) & (re(r[2]) == k.v) & (re(r[3]) == h.v), "values"); vp_cover("end"); }
SPEC(p_gradient) { pt(); G g = any(true); PR p(2u, g.f); Covector<Sym> d = gradient(p, xs()); ensure(B(d.size() == 2), "size"); ensure((re(d[0]) == g.d[0]) & (re(d[1]) == g.d[1]), "gradient"); vp_cover("end"); }
SPEC(p_single) { pt(); G g = inner(0); PR p(2u, g.f); VPR q(p); ensure(B(q.argument_size() == 2 && q.result_size() == 1), "sizes"); Vector<Sym> r = evaluate(q, xs()); ensure(re(r[0]) == g.v, "value"); vp_cover("end"); }
// the derivative of each operation as the operators define it
template<class OP> static void opder(OP op, R x, R d) { Sym a(x), e = fresh_sym("e"); ensure(re(op.derivative(a)) == d, "derivative of an operator"); ensure(re(op.derivative(a, e)) == d * e.v, "derivative of an operator in a direction"); }
SPEC(o_derivative) { R x = fresh_real("x"); R s = fn("sin", x), c = fn("cos", x); switch (vp_choice("op", 0, 13)) { case 0: opder(Nul(), x, R(0)); break; case 1: opder(Pos(), x, R(1)); break; case 2: opder(Neg(), x, R(-1)); break; case 3: opder(Hlf(), x, R(1) / R(2)); break; case 4: require(x != R(0)); opder(Rec(), x, R(-1) / (x * x)); break; case 5: opder(Sqr(), x, R(2) * x); break; case 6: { R q = fn("sqrt", x); require((x > R(0)) & (q > R(0)) & (q * q == x)); opder(Sqrt(), x, R(1) / (R(2) * q)); break; } case 7: opder(Exp(), x, fn("exp", x)); break; case 8: require(x > R(0)); opder(Log(), x, R(1) / x); break; case 9: opder(Sin(), x, c); break; case 10: opder(Cos(), x, -s); break; case 11: require(c != R(0)); opder(Tan(), x, R(1) / (c * c)); break; case 12: { R q = fn("sqrt", R(1) - x * x); require((x > R(-1)) & (x < R(1)) & (q > R(0)) & (q * q == R(1) - x * x)); opder(Asin(), x, R(1) / q); opder(Acos(), x, R(-1) / q); break; } default: opder(Atan(), x, R(1) / (R(1) + x * x)); } vp_cover("end"); }
SPEC(o_derivative2) { Sym x = fresh_sym("x"), y = fresh_sym("y"), d = fresh_sym("d"), e = fresh_sym("e"); ensure(re(Add().derivative(x, d, y, e)) == d.v + e.v, "sum"); ensure(re(Sub().derivative(x, d, y, e)) == d.v - e.v, "difference"); ensure(re(Mul().derivative(x, d, y, e)) == d.v * y.v + x.v * e.v, "product"); require(y.v != R(0)); ensure(re(Div().derivative(x, d, y, e)) * y.v * y.v == d.v * y.v - x.v * e.v, "quotient"); ensure(re(Abs().derivative(y, e)) * vp::rabs(y.v) == y.v * e.v, "absolute value"); if ((x.v != y.v).b) { R m = re(Max().derivative(x, d, y, e)), n = re(Min().derivative(x, d, y, e)); ensure((!(x.v > y.v) | ((m == d.v) & (n == e.v))) & (!(x.v < y.v) | ((m == e.v) & (n == d.v))), "maximum and minimum"); } int n = (int)vp_choice("n", -2, 3); R p = R(1); for (int i = 0; i < (n < 0 ? -n + 1 : n - 1); ++i) p = p * y.v; R v = re(Pow().derivative(y, n)); ensure(n >= 0 ? v == R(n) * p : v * p == R(n), "power"); vp_cover("end"); }
