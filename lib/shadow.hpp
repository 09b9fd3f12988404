// Interval arithmetic with ghost members: every interval handled by the code carries an exact real number in it.
// The contracts below replace the operations on double-precision bounds; each is the property proved for all values in
// bounds.cpp (N02): the exact result of the operation on members is a member of the result.
#pragma once
#include "aspec.hpp"
namespace vp {
namespace shadow {
typedef Ariadne::FloatDP F; typedef Ariadne::Bounds<F> X;
static double lo_[400], hi_[400], mem_[400]; static int count_;
static void put(X const& b, R m) { if (count_ < 400) { lo_[count_] = lo(b).h; hi_[count_] = hi(b).h; mem_[count_] = m.h; ++count_; } }
static bool find(X const& b, R& m) { R l = lo(b), h = hi(b); if (same_term(l, h)) { m = l; return true; } for (int i = count_; i-- > 0;) if (same_term(R(lo_[i]), l) && same_term(R(hi_[i]), h)) { m = R(mem_[i]); return true; } return false; }
static bool find(F const& x, R& m) { m = re(x); return true; }
static X any(const char* l, const char* u, R m) { X r = fresh_bounds<F>(l, u); require(in(m, r)); put(r, m); return r; }
static X result(bool known, R m) { return known ? any("rl", "ru", m) : fresh_bounds<F>("rl", "ru"); }
template<class A, class B2> static X plus(A const& a, B2 const& b) { R x(0), y(0); bool k = find(a, x) & find(b, y); return result(k, k ? named(x + y) : x); }
template<class A, class B2> static X minus(A const& a, B2 const& b) { R x(0), y(0); bool k = find(a, x) & find(b, y); return result(k, k ? named(x - y) : x); }
template<class A, class B2> static X times(A const& a, B2 const& b) { R x(0), y(0); bool k = find(a, x) & find(b, y); return result(k, k ? named(x * y) : x); }
}
}
#define VP_SB "Ariadne::Bounds<Ariadne::Float<Ariadne::DoublePrecision>>"
#define VP_SF "Ariadne::Float<Ariadne::DoublePrecision>"
#define VP_SHADOW(ID, OP, FN, A, AN, B2, BN) extern "C" const char vptarget_##ID[] = "Ariadne::" OP "(" AN " const&, " BN " const&)"; extern "C" vp::shadow::X vpcontract_##ID(A const& a, B2 const& b) { return vp::shadow::FN(a, b); }
VP_SHADOW(sh_add, "add", plus, vp::shadow::X, VP_SB, vp::shadow::X, VP_SB)
VP_SHADOW(sh_sub, "sub", minus, vp::shadow::X, VP_SB, vp::shadow::X, VP_SB)
VP_SHADOW(sh_mul, "mul", times, vp::shadow::X, VP_SB, vp::shadow::X, VP_SB)
VP_SHADOW(sh_addf, "add", plus, vp::shadow::X, VP_SB, vp::shadow::F, VP_SF)
VP_SHADOW(sh_subf, "sub", minus, vp::shadow::X, VP_SB, vp::shadow::F, VP_SF)
VP_SHADOW(sh_mulf, "mul", times, vp::shadow::X, VP_SB, vp::shadow::F, VP_SF)
VP_SHADOW(sh_fadd, "add", plus, vp::shadow::F, VP_SF, vp::shadow::X, VP_SB)
VP_SHADOW(sh_fsub, "sub", minus, vp::shadow::F, VP_SF, vp::shadow::X, VP_SB)
VP_SHADOW(sh_fmul, "mul", times, vp::shadow::F, VP_SF, vp::shadow::X, VP_SB)
extern "C" const char vptarget_sh_rec[] = "Ariadne::rec(" VP_SB " const&)"; extern "C" vp::shadow::X vpcontract_sh_rec(vp::shadow::X const& a) { using namespace vp; R x(0); bool k = shadow::find(a, x); if (!((R(0) < lo(a)) | (hi(a) < R(0))).b) return shadow::result(false, x); return shadow::result(k, k ? named(R(1) / x) : x); }
extern "C" const char vptarget_sh_neg[] = "Ariadne::neg(" VP_SB " const&)"; extern "C" vp::shadow::X vpcontract_sh_neg(vp::shadow::X const& a) { using namespace vp; R x(0); bool k = shadow::find(a, x); return shadow::result(k, k ? named(-x) : x); }
