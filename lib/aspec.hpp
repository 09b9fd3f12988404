// Specification helpers for Ariadne's number types.
#pragma once
#include "vp.hpp"
#include "numeric/numeric.hpp"
#include "numeric/floats.hpp"
#include "numeric/floatdp.hpp"
#include "numeric/floatmp.hpp"
#include "numeric/float_bounds.hpp"
#include "numeric/float_approximation.hpp"
#include "numeric/float_ball.hpp"
#include "numeric/float_error.hpp"
#include "numeric/float_upper_bound.hpp"
#include "numeric/float_lower_bound.hpp"
#include "numeric/integer.hpp"
#include "numeric/dyadic.hpp"
#include "numeric/rational.hpp"
#include "numeric/decimal.hpp"
namespace vp {
using namespace Ariadne;
inline R re(FloatDP const& x) { return R(x.get_d()); }
inline R re(FloatMP const& x) { return R(vp_re_mpfr(x.get_mpfr())); }
inline R re(Integer const& x) { return R(vp_re_mpz(x.get_mpz())); }
inline R re(Dyadic const& x) { return R(vp_re_mpf(x.get_mpf())); }
inline R re(Rational const& x) { return R(vp_re_mpq(x.get_mpq())); }
inline R re(double x) { return R(x); }
#ifndef VP_MPREC
#define VP_MPREC 64
#endif
template<class F> struct Prec;
template<> struct Prec<FloatDP> { static DoublePrecision get() { return dp; } };
template<> struct Prec<FloatMP> { static MultiplePrecision get() { return MultiplePrecision(VP_MPREC); } };
template<class F> auto prec() { return Prec<F>::get(); }
template<class F> F fresh(const char* n);
template<> inline FloatDP fresh<FloatDP>(const char* n) { return FloatDP(cast_exact(vp_fresh_dp(n)), dp); }
template<> inline FloatMP fresh<FloatMP>(const char* n) { FloatMP x(prec<FloatMP>()); vp_fresh_mpfr(x.get_mpfr(), n); return x; }
inline FloatMP fresh_mp(const char* n, unsigned pr) { FloatMP x{MultiplePrecision(pr)}; vp_fresh_mpfr(x.get_mpfr(), n); return x; }
inline Integer fresh_integer(const char* n) { Integer z; vp_fresh_mpz(const_cast<mpz_ptr>(&z.get_mpz()[0]), n); return z; }
inline Dyadic fresh_dyadic(const char* n) { Dyadic w; vp_fresh_mpf(const_cast<mpf_ptr>(&w.get_mpf()[0]), n); return w; }
inline Rational fresh_rational(const char* n) { Rational q; vp_fresh_mpq(const_cast<mpq_ptr>(&q.get_mpq()[0]), n); return q; }
template<class F> Bounds<F> fresh_bounds(const char* nl, const char* nu) { F l = fresh<F>(nl), u = fresh<F>(nu); require(re(l) <= re(u)); return Bounds<F>(l, u); }
template<class F> B in(R x, Bounds<F> const& b) { return (re(b.lower_raw()) <= x) & (x <= re(b.upper_raw())); }
template<class F> R member(Bounds<F> const& b, const char* n) { R x = fresh_real(n); require(in(x, b)); return x; }
template<class F> R lo(Bounds<F> const& b) { return re(b.lower_raw()); }
template<class F> R hi(Bounds<F> const& b) { return re(b.upper_raw()); }
// arbitrary current hardware rounding mode; checked to be restored
struct AnyMode { int m; AnyMode(int lo = 0, int hi = 3) { m = (int)vp_choice("rounding_mode", lo, hi); vp_set_rounding_mode(m); } void restored() { vp_assert(vp_rounding_mode() == m, "rounding mode restored"); vp_set_rounding_mode(0); } };
}
namespace vp {
// an arbitrary rounding direction: 0 to nearest, 1 downward, 2 upward
struct AnyRnd { int k; AnyRnd(int lo = 0, int hi = 2) { k = (int)vp_choice("rnd", lo, hi); } template<class F> typename F::RoundingModeType mode() const { return k == 0 ? F::ROUND_TO_NEAREST : k == 1 ? F::ROUND_DOWNWARD : F::ROUND_UPWARD; } };
template<class F> inline int bits(F const&);
template<> inline int bits<FloatDP>(FloatDP const&) { return 53; }
template<> inline int bits<FloatMP>(FloatMP const& x) { return (int)x.precision().bits(); }
// r is the value e correctly rounded in direction k
template<class F> B correctly_rounded(F const& r, int k, R e) { return re(r) == rounded(k, bits(r), e); }
template<class F> B directed(F const& r, int k, R e) { return k == 1 ? re(r) <= e : k == 2 ? re(r) >= e : B(true); }
}
namespace vp {
template<class T> requires Same<T,Boolean> inline void ensure(T const& x, const char* l) { vp_assert(definitely(x), l); }
template<class T> requires Same<T,Boolean> inline B iff(T const& x, B y) { return iff(B(definitely(x)), y); }
}
#define SPEC(name) extern "C" void vpspec_##name()
#define SPEC_F(name) template<class F> static void name##_spec(); SPEC(name##_dp) { name##_spec<Ariadne::FloatDP>(); } SPEC(name##_mp) { name##_spec<Ariadne::FloatMP>(); } template<class F> static void name##_spec()
