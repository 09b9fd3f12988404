// VP-PROPERTY: S02
// VP-SOURCES: source/numeric/logical.cpp source/numeric/int.cpp source/numeric/integer.cpp source/numeric/operators.cpp source/algebra/multi_index.cpp source/algebra/vector.cpp
// VP-BOUND: constraints up to two operations deep over two coordinates and an arbitrary constant, every operation at the top and below; every box and point of the domain, powers from -3 to 4
// VP-ASSUME: sqrt, exp, log, sin, cos, tan, asin, acos, atan are uninterpreted real functions related only by the identities of inverse functions stated in the specification
#include "sym.hpp"
#include "stdtree.hpp"
namespace Ariadne {
// An enclosure [l,u] (or the whole line) of a point p: each operation gives an arbitrary enclosure of the result at the points, as interval arithmetic does.
// Narrowing an enclosure must keep its point.
struct EndOf { vp::R v; bool fin; friend Bool operator>(EndOf e, Int n) { return e.fin && (e.v > vp::R(n)).b; } friend Bool operator<(EndOf e, Int n) { return e.fin && (e.v < vp::R(n)).b; } friend Bool operator>=(EndOf e, Int n) { return e.fin && (e.v >= vp::R(n)).b; } friend Bool operator<=(EndOf e, Int n) { return e.fin && (e.v <= vp::R(n)).b; } };
class E { public: vp::R l, u, p; bool all; typedef ValidatedTag Paradigm; typedef E NumericType; typedef E GenericType; typedef DoublePrecision PrecisionType; typedef DoublePrecision PropertiesType;
  static bool& forward() { static bool b = true; return b; }
  struct Whole {};
  E() : l(0), u(0), p(0), all(false) {} explicit E(DoublePrecision) : E() {} E(Sym c) : l(c.v), u(c.v), p(c.v), all(false) { wider(); } template<BuiltinIntegral N> E(N n) : E(Sym(n)) {} E(E const&) = default; E& operator=(E const&) = default; E& operator=(Sym c) { return *this = E(c); }
  E(Whole, vp::R x) : l(0), u(0), p(x), all(true) {} E(vp::R x, vp::R y, vp::R z) : l(x), u(y), p(z), all(false) {}
  DoublePrecision precision() const { return dp; }
  void wider() { vp::R a = vp::fresh_real("lower"), b = vp::fresh_real("upper"); vp::require((a <= l) & (u <= b)); l = a; u = b; }
  static E at(vp::R x) { E r(x, x, x); r.wider(); return r; } static E hull(vp::R a, vp::R b, vp::R x) { E r(a, b, x); r.wider(); return r; }
  vp::B has(vp::R x) const { return all ? vp::B(true) : (l <= x) & (x <= u); }
  EndOf lower_bound() const { return {l, !all}; } EndOf upper_bound() const { return {u, !all}; }
  bool zero() const { return all || has(vp::R(0)).b; }
  static vp::R fn(const char* n, vp::R x) { return vp::fun(n, x); }
  static vp::R power(vp::R x, Int n) { vp::R r(1); for (Int i = 0; i < (n < 0 ? -n : n); ++i) r = r * x; return n < 0 ? vp::R(1) / r : r; }
  friend E operator+(E x) { return x; } friend E operator-(E x) { return neg(x); }
  friend E operator+(E x, E y) { return at(x.p + y.p); } friend E operator-(E x, E y) { return at(x.p - y.p); } friend E operator*(E x, E y) { return at(x.p * y.p); }
  friend E operator/(E x, E y) { if (forward()) vp::require(y.p != vp::R(0)); if (y.zero()) return E(Whole(), forward() ? x.p / y.p : vp::fresh_real("any")); return at(x.p / y.p); }
  friend E operator/(E x, Int n) { vp::R q = x.p / vp::R(n); vp::require((fn("exp", q) > vp::R(0)) & (power(fn("exp", q), n) == fn("exp", x.p))); return at(q); }
  friend E add(E x, E y) { return x + y; } friend E sub(E x, E y) { return x - y; } friend E mul(E x, E y) { return x * y; } friend E div(E x, E y) { return x / y; }
  friend E max(E x, E y) { return at(vp::rmax(x.p, y.p)); } friend E min(E x, E y) { return at(vp::rmin(x.p, y.p)); } friend E abs(E x) { return at(vp::rabs(x.p)); }
  friend E nul(E) { return at(vp::R(0)); } friend E pos(E x) { return x; } friend E neg(E x) { return at(-x.p); } friend E hlf(E x) { return at(x.p / vp::R(2)); } friend E sqr(E x) { return at(x.p * x.p); } friend E rec(E x) { return E(1) / x; }
  friend E pow(E x, Int n) { if (n < 0) vp::require(x.p != vp::R(0)); return at(power(x.p, n)); }
  // the hull of both roots
  friend E sqrt(E x) { vp::R s = fn("sqrt", x.p); if (forward()) vp::require(x.p >= vp::R(0)); vp::require((x.p < vp::R(0)) | ((s >= vp::R(0)) & (s * s == x.p))); return hull(-s, s, s); }
  friend E exp(E x) { vp::R e = fn("exp", x.p); vp::require((e > vp::R(0)) & (fn("log", e) == x.p)); return at(e); }
  friend E log(E x) { if (forward()) vp::require(x.p > vp::R(0)); vp::R g = fn("log", x.p); vp::require((x.p <= vp::R(0)) | (fn("exp", g) == x.p)); return at(g); }
  friend E sin(E x) { vp::R s = fn("sin", x.p); vp::require((s <= vp::R(1)) & (s >= vp::R(-1)) & ((x.p < vp::R(-1)) | (x.p > vp::R(1)) | (fn("asin", s) == x.p))); return at(s); }
  friend E cos(E x) { vp::R s = fn("cos", x.p); vp::require((s <= vp::R(1)) & (s >= vp::R(-1)) & ((x.p < vp::R(0)) | (x.p > vp::R(3)) | (fn("acos", s) == x.p))); return at(s); }
  friend E tan(E x) { vp::R s = fn("tan", x.p); vp::require((x.p < vp::R(-1)) | (x.p > vp::R(1)) | (fn("atan", s) == x.p)); return at(s); }
  friend E asin(E x) { if (forward()) vp::require((x.p >= vp::R(-1)) & (x.p <= vp::R(1))); vp::R s = fn("asin", x.p); vp::require((x.p < vp::R(-1)) | (x.p > vp::R(1)) | (fn("sin", s) == x.p)); return at(s); }
  friend E acos(E x) { if (forward()) vp::require((x.p >= vp::R(-1)) & (x.p <= vp::R(1))); vp::R s = fn("acos", x.p); vp::require((x.p < vp::R(-1)) | (x.p > vp::R(1)) | (fn("cos", s) == x.p)); return at(s); }
  friend E atan(E x) { vp::R s = fn("atan", x.p); vp::require(fn("tan", s) == x.p); return at(s); }
  friend Void restrict(E& r, E const& x) { vp::ensure(x.has(r.p), "narrowing keeps every solution"); if (x.all) return; if (r.all) { r.l = x.l; r.u = x.u; r.all = false; } else { r.l = vp::rmax(r.l, x.l); r.u = vp::rmin(r.u, x.u); } }
  friend OutputStream& operator<<(OutputStream& os, E) { return os << "enclosure"; } };
template<> inline String class_name<E>() { return "E"; }
}
#include "algebra/vector.hpp"
#include "algebra/covector.hpp"
#include "function/formula.cpp"
#define VP_HAVE_FORMULA
#include "function/procedure.hpp"
#include "function/procedure.tpl.hpp"
using namespace vp; using namespace Ariadne;
typedef Formula<Sym> F; typedef Procedure<Sym> PR;
static F unary(int op, F a) { switch (op) { case 0: return neg(a); case 1: return sqr(a); case 2: return rec(a); case 3: return sqrt(a); case 4: return exp(a); case 5: return log(a); case 6: return sin(a); case 7: return cos(a); case 8: return tan(a); case 9: return atan(a); case 10: return asin(a); case 11: return acos(a); case 12: return hlf(a); case 13: return pos(a); case 14: return F::unary(Nul(), a); default: return abs(a); } }
static F binary(int op, F a, F b) { switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b; case 4: return max(a, b); default: return min(a, b); } }
static F scalar(int op, Sym c, F b) { switch (op) { case 0: return F::scalar(Add(), c, b); case 1: return F::scalar(Sub(), c, b); case 2: return F::scalar(Mul(), c, b); case 3: return F::scalar(Div(), c, b); case 4: return F::scalar(Max(), c, b); default: return F::scalar(Min(), c, b); } }
static F any_op(const char* n, F a, F b) { switch (vp_choice(n, 0, 3)) { case 0: return unary((int)vp_choice("unary", 0, 15), a); case 1: return binary((int)vp_choice("binary", 0, 5), a, b); case 2: { int k = (int)vp_choice("power", -3, 4); return pow(a, k); } default: return scalar((int)vp_choice("scalar", 0, 5), fresh_sym("c"), a); } }
static E any_point(const char* n) { return E::at(fresh_real(n)); }
// solve for the point: execute, narrow the value to the range required, narrow the arguments
static void reduce(PR const& p, Vector<E>& x) { List<E> t(p._instructions.size()); E::forward() = true; Vector<E> y(x); execute(t, p, x); E::forward() = false; E c = E::at(t.back().p); restrict(t.back(), c); _backpropagate(x, t, p._instructions, p._constants); for (SizeType i = 0; i != x.size(); ++i) ensure((x[i].p == y[i].p) & x[i].has(y[i].p) & (x[i].l >= y[i].l) & (x[i].u <= y[i].u), "the solution stays in the box"); vp_cover("end"); }
SPEC(h_one) { F x = F::coordinate(0), y = F::coordinate(1); PR p(2u, any_op("op", x, y)); Vector<E> v({any_point("x0"), any_point("x1")}); reduce(p, v); }
SPEC(h_same) { F x = F::coordinate(1); PR p(2u, binary((int)vp_choice("binary", 0, 5), x, x)); Vector<E> v({any_point("x0"), any_point("x1")}); reduce(p, v); }
SPEC(h_const) { F x = F::coordinate(0), k = F::constant(fresh_sym("k")); int op = (int)vp_choice("binary", 0, 5); PR p(2u, vp_choice("first", 0, 1) ? binary(op, k, x) : binary(op, x, k)); Vector<E> v({any_point("x0"), any_point("x1")}); reduce(p, v); }
SPEC(h_deep) { F x = F::coordinate(0), y = F::coordinate(1); F a = x; switch (vp_choice("inner", 0, 6)) { case 0: a = x * y; break; case 1: a = x + y; break; case 2: a = x - y; break; case 3: a = x / y; break; case 4: a = sqr(y); break; case 5: a = neg(x); break; default: a = max(x, y); } PR p(2u, any_op("op", a, y)); Vector<E> v({any_point("x0"), any_point("x1")}); reduce(p, v); }
// operations on the enclosures themselves, with a number as second operand
template<class OP> static void second(OP op, bool div = false) { E a = any_point("a"); Sym c = fresh_sym("c"); E r; E::forward() = true; r = op(a, E(c)); E::forward() = false; if (div) require(c.v != R(0)); backpropagate(r, op, a, c); vp_cover("end"); }
SPEC(h_second) { switch (vp_choice("op", 0, 5)) { case 0: second(Add()); break; case 1: second(Sub()); break; case 2: second(Mul()); break; case 3: second(Div(), true); break; case 4: second(Max()); break; default: second(Min()); } }
