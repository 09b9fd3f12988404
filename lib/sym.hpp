// An exact real number with which the library's templates over a number type are instantiated:
// every operation is the mathematical one, so the obligations are about the template's own text.
#pragma once
#include "aspec.hpp"
#include "numeric/operators.hpp"
namespace Ariadne {
// L is Boolean (comparisons are decided) or ValidatedKleenean (a comparison is decided or, arbitrarily, left undecided, as the comparisons of enclosures are)
template<class L> class SymOf { static L logical(bool b) { if constexpr (Same<L, ValidatedKleenean>) { if (vp_choice("undecided", 0, 1)) return L(indeterminate); } return L(b); }
  public: vp::R v; typedef ExactTag Paradigm; typedef SymOf NumericType; typedef SymOf GenericType; typedef DoublePrecision PrecisionType; typedef DoublePrecision PropertiesType;
  SymOf() : v(0) {} explicit SymOf(vp::R x) : v(x) {} template<class M> requires (!Same<M, L>) SymOf(SymOf<M> const& x) : v(x.v) {} template<BuiltinIntegral N> SymOf(N n) : v((long)n) {} template<BuiltinIntegral N> SymOf(N n, DoublePrecision) : v((long)n) {} explicit SymOf(DoublePrecision) : v(0) {} SymOf(SymOf const&) = default; SymOf& operator=(SymOf const&) = default; template<BuiltinIntegral N> SymOf& operator=(N n) { v = vp::R((long)n); return *this; }
  DoublePrecision precision() const { return dp; }
  friend SymOf operator+(SymOf x) { return x; } friend SymOf operator-(SymOf x) { return SymOf(-x.v); }
  friend SymOf operator+(SymOf x, SymOf y) { return SymOf(x.v + y.v); } friend SymOf operator-(SymOf x, SymOf y) { return SymOf(x.v - y.v); } friend SymOf operator*(SymOf x, SymOf y) { return SymOf(x.v * y.v); } friend SymOf operator/(SymOf x, SymOf y) { if (assume_domain()) vp::require(y.v != vp::R(0)); else vp::ensure(y.v != vp::R(0), "divisor is nonzero"); return SymOf(x.v / y.v); }
  friend SymOf& operator+=(SymOf& x, SymOf y) { return x = x + y; } friend SymOf& operator-=(SymOf& x, SymOf y) { return x = x - y; } friend SymOf& operator*=(SymOf& x, SymOf y) { return x = x * y; } friend SymOf& operator/=(SymOf& x, SymOf y) { return x = x / y; }
  friend SymOf nul(SymOf const&) { return SymOf(0); } friend SymOf pos(SymOf x) { return x; } friend SymOf neg(SymOf x) { return -x; } friend SymOf hlf(SymOf x) { return SymOf(x.v / vp::R(2)); } friend SymOf sqr(SymOf x) { return x * x; } friend SymOf rec(SymOf x) { return SymOf(1) / x; }
  friend SymOf add(SymOf x, SymOf y) { return x + y; } friend SymOf sub(SymOf x, SymOf y) { return x - y; } friend SymOf mul(SymOf x, SymOf y) { return x * y; } friend SymOf div(SymOf x, SymOf y) { return x / y; } friend SymOf fma(SymOf x, SymOf y, SymOf z) { return x * y + z; }
  friend SymOf max(SymOf x, SymOf y) { return SymOf(vp::rmax(x.v, y.v)); } friend SymOf min(SymOf x, SymOf y) { return SymOf(vp::rmin(x.v, y.v)); } friend SymOf abs(SymOf x) { if (!split_abs()) return SymOf(vp::rabs(x.v)); if ((x.v >= vp::R(0)).b) return x; else return -x; }
  static bool& assume_domain() { static bool b = false; return b; }
  static bool& split_abs() { static bool b = false; return b; } friend SymOf mag(SymOf x) { return abs(x); }
  // a positive lower bound of the absolute value, as the enclosures of the library give it
  friend SymOf mig(SymOf x) { vp::R m = vp::fresh_real("mig"); vp::require((vp::R(0) <= m) & (m <= vp::rabs(x.v))); return SymOf(m); }
  friend SymOf pow(SymOf x, Nat n) { SymOf r(1); for (Nat i = 0; i != n; ++i) r = r * x; return r; } friend SymOf pow(SymOf x, Int n) { return n >= 0 ? pow(x, Nat(n)) : rec(pow(x, Nat(-n))); }
  friend SymOf sqrt(SymOf x) { return SymOf(vp::fun("sqrt", x.v)); } friend SymOf exp(SymOf x) { return SymOf(vp::fun("exp", x.v)); } friend SymOf log(SymOf x) { return SymOf(vp::fun("log", x.v)); } friend SymOf sin(SymOf x) { return SymOf(vp::fun("sin", x.v)); } friend SymOf cos(SymOf x) { return SymOf(vp::fun("cos", x.v)); } friend SymOf tan(SymOf x) { return SymOf(vp::fun("tan", x.v)); } friend SymOf atan(SymOf x) { return SymOf(vp::fun("atan", x.v)); } friend SymOf asin(SymOf x) { return SymOf(vp::fun("asin", x.v)); } friend SymOf acos(SymOf x) { return SymOf(vp::fun("acos", x.v)); }
  friend L operator==(SymOf x, SymOf y) { return logical((x.v == y.v).b); } friend L operator!=(SymOf x, SymOf y) { return logical((x.v != y.v).b); } friend L operator<(SymOf x, SymOf y) { return logical((x.v < y.v).b); } friend L operator>(SymOf x, SymOf y) { return logical((x.v > y.v).b); } friend L operator<=(SymOf x, SymOf y) { return logical((x.v <= y.v).b); } friend L operator>=(SymOf x, SymOf y) { return logical((x.v >= y.v).b); }
  friend Bool same(SymOf x, SymOf y) { return (x.v == y.v).b; }
  friend OutputStream& operator<<(OutputStream& os, SymOf) { return os << "sym"; } };
typedef SymOf<Boolean> Sym; typedef SymOf<ValidatedKleenean> KSym;
template<> inline String class_name<Sym>() { return "Sym"; } template<> inline String class_name<KSym>() { return "KSym"; }
inline Sym fresh_sym(const char* n) { return Sym(vp::fresh_real(n)); } inline KSym fresh_ksym(const char* n) { return KSym(vp::fresh_real(n)); }
}
namespace vp { template<class L> inline R re(Ariadne::SymOf<L> x) { return x.v; } }
