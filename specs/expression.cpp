// VP-PROPERTY: S03
// VP-SOURCES: source/numeric/logical.cpp source/numeric/int.cpp source/numeric/integer.cpp source/numeric/operators.cpp source/algebra/vector.cpp source/function/formula.cpp source/symbolic/space.cpp
// VP-BOUND: expressions up to two operations deep over two variables and arbitrary constants, every operation at the top; every number arbitrary in the domain of the expression
// VP-ASSUME: the operations of Real are the mathematical ones (contract of the number class: a comparison of equal numbers is indeterminate); sqrt, exp, log, sin, cos, tan, asin, acos, atan are uninterpreted real functions related only by the identities stated in the specification
#include "aspec.hpp"
#include "stdtree.hpp"
#include "numeric/real.hpp"
#include "numeric/real_interface.hpp"
#include "numeric/logical.hpp"
#include "symbolic/expression.cpp"
using namespace vp; using namespace Ariadne;
// the contract of the class of real numbers: a number with exact operations
namespace Ariadne {
struct GhostReal : RealInterface { vp::R v; GhostReal(vp::R x) : v(x) {}
  ValidatedReal _compute(Accuracy) const override { abort(); } ValidatedReal _compute(Effort) const override { abort(); } DyadicBounds _compute_get(Effort) const override { abort(); } FloatDPBounds _compute_get(Effort, DoublePrecision) const override { abort(); } FloatMPBounds _compute_get(Effort, MultiplePrecision) const override { abort(); } OutputStream& _write(OutputStream& os) const override { return os; } };
static vp::R gv(Real const& x) { return static_cast<GhostReal const&>(x.const_reference()).v; }
static Real mk(vp::R x) { return Real(SharedPointer<const RealInterface>(new GhostReal(x))); }
Real::Real(SharedPointer<const Interface> p) : Handle<const Interface>(p) {} Real::Real() : Real(mk(vp::R(0))) {} Real::Real(std::int64_t n, Void*) : Real(mk(vp::R((long)n))) {} Real::Real(std::uint64_t n, Void*) : Real(mk(vp::R((long)n))) {}
Real nul(Real const&) { return mk(vp::R(0)); } Real pos(Real const& x) { return x; } Real neg(Real const& x) { return mk(-gv(x)); } Real hlf(Real const& x) { return mk(gv(x) / vp::R(2)); } Real sqr(Real const& x) { return mk(gv(x) * gv(x)); }
static bool in_domain = false;
static void nz(vp::R y) { if (in_domain) vp::require(y != vp::R(0)); else vp::ensure(y != vp::R(0), "divisor is nonzero"); }
Real rec(Real const& x) { nz(gv(x)); return mk(vp::R(1) / gv(x)); } Real add(Real const& x, Real const& y) { return mk(gv(x) + gv(y)); } Real sub(Real const& x, Real const& y) { return mk(gv(x) - gv(y)); } Real mul(Real const& x, Real const& y) { return mk(gv(x) * gv(y)); } Real div(Real const& x, Real const& y) { nz(gv(y)); return mk(gv(x) / gv(y)); }
Real max(Real const& x, Real const& y) { return mk(vp::rmax(gv(x), gv(y))); } Real min(Real const& x, Real const& y) { return mk(vp::rmin(gv(x), gv(y))); } PositiveReal abs(Real const& x) { return PositiveReal(mk(vp::rabs(gv(x)))); }
Real pow(Real const& x, Int n) { if (n >= 0) return mk(vp::rpow(gv(x), (unsigned)n)); nz(gv(x)); return mk(vp::R(1) / vp::rpow(gv(x), (unsigned)-n)); }
#define FN(f) Real f(Real const& x) { return mk(vp::fun(#f, gv(x))); }
FN(sqrt) FN(exp) FN(log) FN(sin) FN(cos) FN(tan) FN(atan) FN(asin) FN(acos)
static Kleenean kl(vp::R x) { if ((x > vp::R(0)).b) return Kleenean(true); if ((x < vp::R(0)).b) return Kleenean(false); return Kleenean(indeterminate); }
Kleenean sgn(Real const& x) { return kl(gv(x)); } Kleenean operator<=(Real const& x, Real const& y) { return kl(gv(y) - gv(x)); } Kleenean operator>=(Real const& x, Real const& y) { return kl(gv(x) - gv(y)); } Kleenean operator<(Real const& x, Real const& y) { return kl(gv(y) - gv(x)); } Kleenean operator>(Real const& x, Real const& y) { return kl(gv(x) - gv(y)); }
// equality is found to be true only for equal numbers, and may stay undecided
NegatedSierpinskian operator==(Real const& x, Real const& y) { bool d = vp_choice("decided", 0, 1); if ((gv(x) == gv(y)).b) return d ? NegatedSierpinskian(LogicalValue::LIKELY) : NegatedSierpinskian(indeterminate); return d ? NegatedSierpinskian(false) : NegatedSierpinskian(indeterminate); }
Bool same(Real const& x, Real const& y) { return (gv(x) == gv(y)).b; }
}
typedef Expression<Real> E; typedef Expression<Kleenean> K; typedef Variable<Real> V;
// an expression with its value at the point (x,y) and its partial derivatives there
struct G { E e; vp::R v, d[2]; };
static vp::R X[2] = {vp::R(0), vp::R(0)}; static const char* VN[] = {"x", "y"};
static V var(int i) { return V(Identifier(VN[i])); }
static Map<Identifier, Real> at(vp::R a, vp::R b) { Map<Identifier, Real> m; m.insert(Identifier("x"), mk(a)); m.insert(Identifier("y"), mk(b)); return m; }
static vp::R val(E const& e) { return gv(evaluate(e, at(X[0], X[1]))); }
static void pt() { X[0] = fresh_real("x0"); X[1] = fresh_real("x1"); }
static const char* KN[] = {"k0", "k1", "k2", "k3", "k4"}; static const char* LN[] = {"l0", "l1", "l2", "l3", "l4"};
static G un(E e, G const& a, vp::R v, vp::R dv) { return {e, v, {dv * a.d[0], dv * a.d[1]}}; }
static vp::R fn(const char* n, vp::R x) { return vp::fun(n, x); }
static G unary(int op, G a) { vp::R x = a.v; switch (op) {
  case 0: return un(neg(a.e), a, -x, vp::R(-1));
  case 1: return un(sqr(a.e), a, x * x, vp::R(2) * x);
  case 2: require(x != vp::R(0)); return un(rec(a.e), a, vp::R(1) / x, vp::R(-1) / (x * x));
  case 3: { require(x > vp::R(0)); vp::R s = fn("sqrt", x); require((s > vp::R(0)) & (s * s == x)); return un(sqrt(a.e), a, s, vp::R(1) / (vp::R(2) * s)); }
  case 4: return un(exp(a.e), a, fn("exp", x), fn("exp", x));
  case 5: require(x > vp::R(0)); return un(log(a.e), a, fn("log", x), vp::R(1) / x);
  case 6: return un(sin(a.e), a, fn("sin", x), fn("cos", x));
  case 7: return un(cos(a.e), a, fn("cos", x), -fn("sin", x));
  case 8: { vp::R c = fn("cos", x), s = fn("sin", x), t = fn("tan", x); require((c != vp::R(0)) & (t * c == s) & (s * s + c * c == vp::R(1))); return un(tan(a.e), a, t, vp::R(1) / (c * c)); }
  case 9: return un(atan(a.e), a, fn("atan", x), vp::R(1) / (vp::R(1) + x * x));
  case 10: { require((x > vp::R(-1)) & (x < vp::R(1))); vp::R s = fn("sqrt", vp::R(1) - x * x); require((s > vp::R(0)) & (s * s == vp::R(1) - x * x)); return un(asin(a.e), a, fn("asin", x), vp::R(1) / s); }
  case 11: { require((x > vp::R(-1)) & (x < vp::R(1))); vp::R s = fn("sqrt", vp::R(1) - x * x); require((s > vp::R(0)) & (s * s == vp::R(1) - x * x)); return un(acos(a.e), a, fn("acos", x), vp::R(-1) / s); }
  case 12: return un(hlf(a.e), a, x / vp::R(2), vp::R(1) / vp::R(2));
  case 13: return un(pos(a.e), a, x, vp::R(1));
  case 14: return un(make_expression<Real>(Nul(), a.e), a, vp::R(0), vp::R(0));
  default: return un(abs(a.e), a, vp::rabs(x), vp::R(0)); } }
static G binary(int op, G a, G b) { switch (op) {
  case 0: return {a.e + b.e, a.v + b.v, {a.d[0] + b.d[0], a.d[1] + b.d[1]}};
  case 1: return {a.e - b.e, a.v - b.v, {a.d[0] - b.d[0], a.d[1] - b.d[1]}};
  case 2: return {a.e * b.e, a.v * b.v, {a.d[0] * b.v + a.v * b.d[0], a.d[1] * b.v + a.v * b.d[1]}};
  case 3: require(b.v != vp::R(0)); return {a.e / b.e, a.v / b.v, {(a.d[0] * b.v - a.v * b.d[0]) / (b.v * b.v), (a.d[1] * b.v - a.v * b.d[1]) / (b.v * b.v)}};
  case 4: return {max(a.e, b.e), vp::rmax(a.v, b.v), {vp::R(0), vp::R(0)}};
  default: return {min(a.e, b.e), vp::rmin(a.v, b.v), {vp::R(0), vp::R(0)}}; } }
static G power(G a, int n) { if (n < 0) require(a.v != vp::R(0)); vp::R p = vp::R(1), q = vp::R(1); for (int i = 0; i < (n < 0 ? -n : n); ++i) { q = p; p = p * a.v; } vp::R v = n < 0 ? vp::R(1) / p : p, d = n == 0 ? vp::R(0) : n > 0 ? vp::R(n) * q : vp::R(n) / (p * a.v); return un(pow(a.e, n), a, v, d); }
static G x0() { return {E(var(0)), X[0], {vp::R(1), vp::R(0)}}; } static G x1() { return {E(var(1)), X[1], {vp::R(0), vp::R(1)}}; } static G cst(vp::R c) { return {E::constant(mk(c)), c, {vp::R(0), vp::R(0)}}; } static G cst(int k, int) { return cst(fresh_real(KN[k])); }
static G inner(int k) { switch (vp_choice(LN[k], 0, 7)) { case 0: return x0(); case 1: return x1(); case 2: return cst(k, 0); case 3: return binary(0, x0(), cst(k, 0)); case 4: return binary(2, x0(), x1()); case 5: return unary(6, x0()); case 6: return power(x0(), 3); default: return binary(3, x0(), x1()); } }
static G any(bool smooth) { int op = (int)vp_choice("op", 0, 3); switch (op) { case 0: return unary((int)vp_choice("unary", 0, smooth ? 14 : 15), inner(0)); case 1: { G a = inner(0); return binary((int)vp_choice("binary", 0, smooth ? 3 : 5), a, inner(1)); } case 2: return power(inner(0), (int)vp_choice("n", -2, 3)); default: { G a = inner(0); return binary((int)vp_choice("binary", 0, smooth ? 3 : 5), a, a); } } }
static G shape(int k) { switch (vp_choice(LN[k], 0, 9)) { case 0: return x0(); case 1: return x1(); case 2: return cst(k, 0); case 3: return power(x0(), 2); case 4: return power(x0(), 3); case 5: return power(x1(), 2); case 6: return binary(1, x0(), x1()); case 7: return binary(1, x1(), x0()); case 8: return unary(6, x0()); default: return unary(7, x0()); } }
SPEC(e_eval) { pt(); G g = any(false); ensure(val(g.e) == g.v, "value"); vp_cover("end"); }
SPEC(e_derivative) { pt(); G g = any(true); int j = (int)vp_choice("j", 0, 1); ensure(val(derivative(g.e, var(j))) == g.d[j], "derivative"); vp_cover("end"); }
SPEC(e_simplify) { pt(); G g = any(false); ensure(val(simplify(g.e)) == g.v, "simplification keeps the value"); vp_cover("end"); }
SPEC(e_simplify_unary) { pt(); int i = (int)vp_choice("i", 0, 15), o = (int)vp_choice("o", 0, 15); G g = unary(o, unary(i, x0())); vp::R x = X[0]; if (i == 5 && o == 4) require(g.v == x); if (i == 4 && o == 5) require(g.v == x); if (i == 9 && o == 8) require(g.v == x); ensure(val(simplify(g.e)) == g.v, "simplification keeps the value"); vp_cover("end"); }
SPEC(e_simplify_const) { pt(); G a = x0(); if (vp_choice("mul", 0, 1)) a = binary(2, x0(), x1()); G k = cst(vp::R(vp_choice("k", -1, 1))); int op = (int)vp_choice("op", 0, 5); G g = vp_choice("first", 0, 1) ? binary(op, k, a) : binary(op, a, k); ensure(val(simplify(g.e)) == g.v, "simplification keeps the value"); vp_cover("end"); }
SPEC(e_substitute) { pt(); vp::R y[2] = {X[0], X[1]}; int i = (int)vp_choice("i", 0, 1); G s = vp_choice("s", 0, 1) ? binary(0, x0(), x1()) : unary(6, x1()); X[i] = s.v; G g = any(false); X[0] = y[0]; X[1] = y[1]; ensure(val(substitute(g.e, var(i), s.e)) == g.v, "substitution of an expression for a variable"); vp_cover("end"); }
SPEC(e_substitute_const) { pt(); vp::R y[2] = {X[0], X[1]}; int i = (int)vp_choice("i", 0, 1); vp::R k = fresh_real("k"); X[i] = k; G g = inner(0); X[0] = y[0]; X[1] = y[1]; ensure(val(substitute(g.e, var(i), mk(k))) == g.v, "substitution of a constant"); vp_cover("end"); }
SPEC(e_identical) { pt(); G g = shape(0), h = shape(1); if (identical(g.e, h.e)) ensure(g.v == h.v, "identical expressions have the same value"); ensure(vp::B(identical(g.e, g.e)), "identical to itself"); vp_cover("end"); }
static Set<V> subset(int m) { Set<V> s; if (m & 1) s.insert(var(0)); if (m & 2) s.insert(var(1)); return s; }
static void move(int m) { if (m & 1) X[0] = fresh_real("y0"); if (m & 2) X[1] = fresh_real("y1"); in_domain = true; }
SPEC(e_constant_in) { pt(); G g = any(false); int m = (int)vp_choice("variables", 1, 3); if (is_constant_in(g.e, subset(m))) { vp_cover("constant"); move(m); ensure(val(g.e) == g.v, "an expression constant in some variables does not depend on them"); } vp_cover("end"); }
SPEC(e_affine_in) { pt(); G g = any(false); int m = (int)vp_choice("variables", 1, 3); if (is_affine_in(g.e, subset(m))) { vp_cover("affine"); vp::R x = X[0], y = X[1]; move(m); vp::R v = val(g.e); X[0] = (X[0] + x) / vp::R(2); X[1] = (X[1] + y) / vp::R(2); ensure(vp::R(2) * val(g.e) == g.v + v, "an expression affine in some variables is affine in them"); } vp_cover("end"); }
SPEC(e_additive_in) { pt(); G g = any(false); int i = (int)vp_choice("i", 0, 1); if (is_additive_in(g.e, var(i))) { vp_cover("additive"); vp::R x = X[i]; move(1 << i); vp::R v = val(g.e); ensure((v - g.v == X[i] - x) | (v == g.v), "an expression additive in a variable changes as the variable does, or not at all"); } vp_cover("end"); }
SPEC(e_common) { pt(); G a = shape(0), b = shape(1); Vector<E> v({binary((int)vp_choice("binary", 0, 2), a, b).e, binary(0, a, b).e}); vp::R w = val(v[0]); eliminate_common_subexpressions(v); ensure((val(v[0]) == w) & (val(v[1]) == a.v + b.v), "eliminating common subexpressions keeps the values"); vp_cover("end"); }
SPEC(e_before) { pt(); G g = shape(0), h = shape(1); bool a = before(g.e, h.e), b = before(h.e, g.e); ensure(vp::B(!(a && b)), "the order of expressions is asymmetric"); ensure(vp::B(!before(g.e, g.e)), "and irreflexive"); if (!a && !b) ensure(g.v == h.v, "expressions equal in order have the same value"); vp_cover("end"); }
SPEC(e_tests) { pt(); G g = inner(0); vp::R k = fresh_real("k"); if (is_constant(g.e, mk(k))) ensure(g.v == k, "an expression recognised as a constant has its value"); int i = (int)vp_choice("i", 0, 1); if (is_variable(g.e, var(i))) ensure(g.v == X[i], "an expression recognised as a variable has its value"); E e = x0().e; vp::R v = X[0]; e += g.e; e *= x1().e; e -= g.e; v = (v + g.v) * X[1] - g.v; ensure(val(e) == v, "in-place operations"); ensure(val(add(g.e, e)) == g.v + v, "sum"); ensure(val(sub(g.e, e)) == g.v - v, "difference"); ensure(val(mul(g.e, e)) == g.v * v, "product"); ensure((val(+g.e) == g.v) & (val(-g.e) == -g.v) & (val(nul(g.e)) == vp::R(0)), "signs"); require(v != vp::R(0)); ensure(val(div(g.e, e)) * v == g.v, "quotient"); g.e /= e; ensure(val(g.e) * v == g.v, "in-place quotient"); vp_cover("end"); }
// predicates with the sign of their truth: positive if true, negative if false, zero if undecided
struct P { K k; vp::R s; };
static P cmp(int k) { vp::R a = X[k], b = fresh_real(KN[k]); E e = E(var(k)), c = E::constant(mk(b)); switch (vp_choice(LN[k], 0, 4)) { case 0: return {e <= c, b - a}; case 1: return {e >= c, a - b}; case 2: return {e < c, b - a}; case 3: return {e > c, a - b}; default: return {sgn(e), a}; } }
static P kcon(int k) { switch (vp_choice(LN[k], 0, 2)) { case 0: return {K::constant(Kleenean(true)), vp::R(1)}; case 1: return {K::constant(Kleenean(false)), vp::R(-1)}; default: return {K::constant(Kleenean(indeterminate)), vp::R(0)}; } }
static P second() { return vp_choice("constant", 0, 1) ? kcon(2) : cmp(1); }
static P pred() { P p = cmp(0); if (vp_choice("not", 0, 1)) p = {!p.k, -p.s}; switch (vp_choice("connective", 0, 2)) { case 0: break; case 1: { P q = second(); p = {p.k && q.k, vp::rmin(p.s, q.s)}; break; } default: { P q = second(); p = {p.k || q.k, vp::rmax(p.s, q.s)}; } } if (vp_choice("negated", 0, 1)) p = {!p.k, -p.s}; return p; }
static vp::B sign_is(ValidatedKleenean t, vp::R s) { return definitely(t) ? s > vp::R(0) : not possibly(t) ? s < vp::R(0) : s == vp::R(0); }
SPEC(k_eval) { pt(); P p = pred(); Kleenean t = evaluate(p.k, at(X[0], X[1])); ensure(sign_is(t.check(Effort(1)), p.s), "value of a predicate"); vp_cover("end"); }
SPEC(k_simplify) { pt(); P p = pred(); Kleenean t = evaluate(simplify(p.k), at(X[0], X[1])); ensure(sign_is(t.check(Effort(1)), p.s), "simplification keeps the value of a predicate"); vp_cover("end"); }
SPEC(k_indicator) { pt(); P p = pred(); bool neg = vp_choice("sign", 0, 1); vp::R i = val(indicator(p.k, neg ? Sign::NEGATIVE : Sign::POSITIVE)); vp::R s = neg ? -p.s : p.s; ensure(((i > vp::R(0)) & (s > vp::R(0))) | ((i < vp::R(0)) & (s < vp::R(0))) | ((i == vp::R(0)) & (s == vp::R(0))), "the indicator has the sign of the predicate"); vp_cover("end"); }
SPEC(k_opposite) { pt(); int a = (int)vp_choice("a", 0, 5), b = (int)vp_choice("b", 0, 5); vp::R k0 = fresh_real("k0"), k1 = fresh_real("k1"); E e[2] = {E(var(0)), E::constant(mk(k0))}, f[2] = {E(var(0)), E::constant(mk(k1))}; vp::R ev[2] = {X[0], k0}, fv[2] = {X[0], k1}; int i = (int)vp_choice("i", 0, 1), j = (int)vp_choice("j", 0, 1); auto mkp = [](int o, E l, E r, vp::R lv, vp::R rv) { return o == 0 ? P{l <= r, rv - lv} : o == 1 ? P{l >= r, lv - rv} : o == 2 ? P{l < r, rv - lv} : o == 3 ? P{l > r, lv - rv} : o == 4 ? P{l == r, -vp::rabs(lv - rv)} : P{l != r, vp::rabs(lv - rv)}; }; P p = mkp(a, e[i], e[1 - i], ev[i], ev[1 - i]), q = mkp(b, f[j], f[1 - j], fv[j], fv[1 - j]); if (opposite(p.k, q.k)) { vp_cover("opposite"); ensure(p.s == -q.s, "opposite predicates are negations"); } vp_cover("end"); }
SPEC(k_substitute) { pt(); P p = pred(); vp::R y[2] = {X[0], X[1]}; vp::R u = fresh_real("u"); K q = substitute(p.k, var(0), x0().e + E::constant(mk(u))); X[0] = y[0] - u; Kleenean t = evaluate(q, at(X[0], X[1])); ensure(sign_is(t.check(Effort(1)), p.s), "substitution in a predicate"); vp_cover("end"); }
// vector-valued expressions, with the values of their components
typedef Expression<RealVector> VE;
struct GV { VE e; vp::R v[2]; };
static GV vec(int k) { G a = k ? x1() : x0(), b = cst(k, 0); return {VE(Vector<E>({a.e, b.e})), {a.v, b.v}}; }
static GV vop() { GV a = vec(0), b = vec(1); E s = E(var(1)) + E(var(0)); vp::R t = X[1] + X[0]; switch (vp_choice("vop", 0, 6)) { case 0: return a; case 1: return {add(a.e, b.e), {a.v[0] + b.v[0], a.v[1] + b.v[1]}}; case 2: return {sub(a.e, b.e), {a.v[0] - b.v[0], a.v[1] - b.v[1]}}; case 3: return {mul(s, a.e), {t * a.v[0], t * a.v[1]}}; case 4: return {mul(a.e, s), {a.v[0] * t, a.v[1] * t}}; case 5: require(t != vp::R(0)); return {div(a.e, s), {a.v[0] / t, a.v[1] / t}}; default: return {neg(a.e), {-a.v[0], -a.v[1]}}; } }
SPEC(v_eval) { pt(); GV g = vop(); ensure(vp::B(g.e.size() == 2), "size"); Vector<Real> r = evaluate(g.e, at(X[0], X[1])); ensure(vp::B(r.size() == 2), "size of the value"); ensure((gv(r[0]) == g.v[0]) & (gv(r[1]) == g.v[1]), "value of a vector expression"); vp_cover("end"); }
SPEC(v_get) { pt(); GV g = vop(); SizeType i = (SizeType)vp_choice("i", 0, 1); ensure(val(g.e[i]) == g.v[i], "value of a component"); ensure(val(simplify(g.e[i])) == g.v[i], "simplification of a component"); vp_cover("end"); }
SPEC(v_substitute) { pt(); GV g = vop(); SizeType i = (SizeType)vp_choice("i", 0, 1); vp::R u = fresh_real("u"); VE s = substitute(g.e, var(0), x0().e + E::constant(mk(u))); X[0] = X[0] - u; in_domain = true; ensure(val(s[i]) == g.v[i], "substitution in a vector expression"); vp_cover("end"); }
// conversion to a formula in numbered coordinates
static G formula_of() { int op = (int)vp_choice("op", 0, 2); G a = vp_choice("a", 0, 1) ? x0() : binary(1, x1(), x0()); G b = vp_choice("b", 0, 1) ? x1() : binary(2, x0(), x1()); return op == 0 ? unary((int)vp_choice("unary", 0, 15), a) : op == 1 ? binary((int)vp_choice("binary", 0, 5), a, b) : power(a, (int)vp_choice("n", -2, 3)); }
SPEC(e_formula) { pt(); G g = formula_of(); Map<Identifier, SizeType> m; m.insert(Identifier("x"), 1u); m.insert(Identifier("y"), 0u); Formula<EffectiveNumber> f = vp_choice("space", 0, 1) ? make_formula(g.e, Space<Real>(List<V>({var(1), var(0)}))) : make_formula(g.e, m); Vector<Real> p({mk(X[1]), mk(X[0])}); ensure(gv(evaluate(f, p)) == g.v, "value of the formula"); vp_cover("end"); }
SPEC(e_substitute_list) { pt(); vp::R y[2] = {X[0], X[1]}; vp::R k = fresh_real("k"); G s = binary(0, x0(), cst(k)), t = unary(6, x1()); X[0] = s.v; X[1] = t.v; G g = inner(0), h = shape(1); X[0] = y[0]; X[1] = y[1]; in_domain = true; typedef Assignment<V, E> A; List<A> a; if (vp_choice("order", 0, 1)) { a.append(A(var(0), s.e)); a.append(A(var(1), t.e)); } else { a.append(A(var(1), t.e)); a.append(A(var(0), s.e)); } ensure(val(substitute(g.e, a)) == g.v, "substitution of several expressions"); Vector<E> r = substitute(Vector<E>({g.e, h.e}), a); ensure(vp::B(r.size() == 2), "size"); ensure((val(r[0]) == g.v) & (val(r[1]) == h.v), "substitution in a vector"); vp_cover("end"); }
// conditions on discrete values
SPEC(d_boolean) { typedef Expression<Boolean> EB; typedef Expression<Integer> EI; Integer m = fresh_integer("m"), n = fresh_integer("n"); Map<Identifier, Integer> q; q.insert(Identifier("x"), m); EI v(Variable<Integer>(Identifier("x"))), c = EI::constant(n); vp::R a = vp::re(m), b = vp::re(n); EB e = v == c; vp::B t = a == b; switch (vp_choice("cmp", 0, 5)) { case 0: break; case 1: e = v != c; t = a != b; break; case 2: e = v <= c; t = a <= b; break; case 3: e = v >= c; t = a >= b; break; case 4: e = v < c; t = a < b; break; default: e = v > c; t = a > b; } bool tb = t.b; EB z = (v >= EI::constant(Integer(0))); bool zb = (a >= vp::R(0)).b; switch (vp_choice("connective", 0, 3)) { case 0: break; case 1: e = !e; tb = !tb; break; case 2: e = e && z; tb = tb && zb; break; default: e = e || z; tb = tb || zb; } Boolean r = evaluate(e, q); ensure(vp::B(bool(r) == tb), "value of a condition on integers"); vp_cover("end"); }
SPEC(d_string) { typedef Expression<Boolean> EB; static const char* S[] = {"on", "off"}; int i = (int)vp_choice("i", 0, 1), j = (int)vp_choice("j", 0, 1); Map<Identifier, String> q; q.insert(Identifier("x"), String(S[i])); Variable<String> v(Identifier("x")); EB e = (v == String(S[j])), f = (v != String(S[j])); Boolean r = evaluate(e, q), s = evaluate(f, q); ensure(vp::B(bool(r) == (i == j)), "equality of strings"); ensure(vp::B(bool(s) == (i != j)), "inequality of strings"); vp_cover("end"); }
SPEC(d_integer) { typedef Expression<Integer> EI; Integer m = fresh_integer("m"), n = fresh_integer("n"); Map<Identifier, Integer> q; q.insert(Identifier("x"), m); EI v(Variable<Integer>(Identifier("x"))), c = EI::constant(n), e = v; vp::R a = vp::re(m), b = vp::re(n), r = a; switch (vp_choice("op", 0, 5)) { case 0: e = v + c; r = a + b; break; case 1: e = v - c; r = a - b; break; case 2: e = v * c; r = a * b; break; case 3: e = -v; r = -a; break; case 4: e += c; e *= v; e -= c; r = (a + b) * a - b; break; default: e = +v; } ensure(vp::re(evaluate(e, q)) == r, "value of an expression in integers"); vp_cover("end"); }
// an elementary function of an expression which depends on the variables is a polynomial only for some operations
SPEC(e_polynomial) { pt(); int m = (int)vp_choice("variables", 1, 3), sh = (int)vp_choice("shape", 0, 2); G a = sh == 0 ? x0() : sh == 1 ? binary(2, x0(), x1()) : binary(0, x1(), cst(0, 0)); int dep = sh == 0 ? 1 : sh == 1 ? 3 : 2; bool on = (dep & m) != 0; switch (vp_choice("kind", 0, 3)) { case 0: { int o = (int)vp_choice("unary", 0, 15); bool pol = o == 0 || o == 1 || o == 12 || o == 13 || o == 14; G g = unary(o, a); if (is_polynomial_in(g.e, subset(m))) ensure(vp::B(pol || !on), "an elementary function is not polynomial"); break; } case 1: { int n = (int)vp_choice("n", -2, 3); G g = power(a, n); if (is_polynomial_in(g.e, subset(m))) ensure(vp::B(n >= 0 || !on), "a negative power is not polynomial"); break; } case 2: { int o = (int)vp_choice("binary", 3, 5); G g = binary(o, x0(), a); if (o == 3 && is_polynomial_in(g.e, subset(m))) ensure(vp::B(!on), "a quotient is polynomial only if the divisor is constant"); if (o != 3 && sh != 0 && is_polynomial_in(g.e, subset(m))) ensure(vp::B(!on && !(m & 1)), "a maximum or minimum is not polynomial"); break; } default: { int o = (int)vp_choice("binary", 0, 2); G g = binary(o, x1(), unary(4, a)); if (is_polynomial_in(g.e, subset(m))) ensure(vp::B(!on), "an operation on an exponential is not polynomial"); } } vp_cover("end"); }
