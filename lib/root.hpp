// a vector function of which only this is known: it has the root S, its values enclose the exact ones, and the mean value theorem
#pragma once
#include "aspec.hpp"
#include "solvers/solver.hpp"
#include "function/function.hpp"
#include "function/taylor_model.hpp"
#include "function/formula.hpp"
#include "function/function_patch.hpp"
#include "function/function_model.hpp"
#include "algebra/algebra.hpp"
#include "algebra/differential.hpp"
using namespace vp; using namespace Ariadne;
namespace Ariadne { FunctionPatchFactoryInterface<ValidatedTag>* make_taylor_function_patch_factory() { return nullptr; } } // not used for points
typedef FloatDP F; typedef FloatDPBounds X;
// the exact function has the root s; the values it returns enclose the exact ones; by the mean value theorem f(m)+j(s-m)=0 for some j in the derivative over a set containing m and s
static unsigned N = 1; static R S[2] = {R(0), R(0)}, M[2] = {R(0), R(0)}, J[4] = {R(0), R(0), R(0), R(0)}; static bool at_point; static Vector<X>* domain_; static unsigned evaluations, jacobians; static bool mean_values = true, may_be_singular = true;
static const char *SN[] = {"s0", "s1"}, *XL[] = {"xl0", "xl1"}, *XU[] = {"xu0", "xu1"}, *WL[] = {"wl0", "wl1"}, *WU[] = {"wu0", "wu1"}, *FN[] = {"f0", "f1"}, *JL[] = {"jl00", "jl01", "jl10", "jl11"}, *JU[] = {"ju00", "ju01", "ju10", "ju11"}, *JN[] = {"j00", "j01", "j10", "j11"};
#ifdef VP_SHADOW
static X any_member(const char* l, const char* u, R m) { return shadow::any(l, u, m); }
#else
static X any_member(const char* l, const char* u, R m) { X r = fresh_bounds<F>(l, u); require(in(m, r)); return r; }
#endif
struct Mock : public virtual VectorMultivariateFunctionInterface<ValidatedTag> {
  template<class T> using V = Vector<T>;
  virtual SizeType argument_size() const override { return N; } virtual SizeType result_size() const override { return N; }
  virtual OutputStream& _repr(OutputStream& os) const override { return os; } virtual OutputStream& _write(OutputStream& os) const override { return os; }
  virtual Mock* _clone() const override { return new Mock(*this); }
  virtual Mock* _derivative(SizeType) const override { abort(); }
#define NOT(T) virtual V<T> _call(const V<T>&) const override { abort(); }
  NOT(ApproximateNumber) NOT(FloatDPApproximation) NOT(FloatMPApproximation) NOT(Differential<FloatDPApproximation>) NOT(Differential<FloatMPApproximation>) 
  typedef TaylorModel<ApproximateTag, FloatDP> TA; typedef TaylorModel<ApproximateTag, FloatMP> TB; typedef TaylorModel<ValidatedTag, FloatDP> TC; typedef TaylorModel<ValidatedTag, FloatMP> TD; typedef TaylorModel<ValidatedTag, FloatDPUpperInterval> TE; typedef TaylorModel<ValidatedTag, FloatMPUpperInterval> TF;
  NOT(TA) NOT(TB) NOT(TC) NOT(TD) NOT(TE) NOT(TF)
  NOT(Formula<ApproximateNumber>) NOT(ElementaryAlgebra<ApproximateNumber>) NOT(ValidatedNumber) NOT(FloatMPBounds) NOT(Differential<FloatMPBounds>) NOT(Formula<ValidatedNumber>) NOT(ElementaryAlgebra<ValidatedNumber>) NOT(ScalarMultivariateFunction<ValidatedTag>)
  virtual V<X> _call(const V<X>& x) const override;
  virtual V<Differential<X>> _call(const V<Differential<X>>& x) const override;
};
static B holds(R x, X const& b) { return (lo(b) <= x) & (x <= hi(b)); }
static B holds(R const* x, Vector<X> const& v) { B r(true); for (unsigned i = 0; i != N; ++i) r = r & holds(x[i], v[i]); return r; }
// the value at the point x, from the mean values of the derivative between x and the root
static void check_domain() { if (at_point && domain_) ensure(holds(S, *domain_) & holds(M, *domain_), "derivative over a set with the root and the point"); }
static R exact_value(Vector<X> const& x, unsigned i) { R v(0); for (unsigned k = 0; k != N; ++k) v = v - J[2 * i + k] * (S[k] - M[k]); return named(v); }
Vector<X> Mock::_call(const Vector<X>& x) const { ++evaluations; Vector<X> w(N, X(0, dp)); bool point = true; for (unsigned i = 0; i != N; ++i) point = point && same_term(lo(x[i]), hi(x[i])); B root = holds(S, x); bool mean = mean_values && point && !at_point; if (mean) { for (unsigned i = 0; i != N; ++i) M[i] = lo(x[i]); at_point = true; check_domain(); }
  for (unsigned i = 0; i != N; ++i) { R f = mean ? exact_value(x, i) : fresh_real(FN[i]); w[i] = any_member(WL[i], WU[i], f); require(implies(root, holds(R(0), w[i]))); } return w; }
Vector<Differential<X>> Mock::_call(const Vector<Differential<X>>& dx) const { ++jacobians; Vector<X> x(N, X(0, dp)); for (unsigned i = 0; i != N; ++i) x[i] = dx[i].value(); Vector<Differential<X>> r(N, Differential<X>(N, 1, X(0, dp))); if (!mean_values) { for (unsigned i = 0; i != N; ++i) for (unsigned k = 0; k != N; ++k) { bool singular = jacobians == 1 && may_be_singular && vp_choice("singular", 0, 1); r[i].set_gradient(k, X(F(singular ? -1.0_x : 1.0_x, dp), F(2.0_x, dp))); } return r; } if (!domain_) { domain_ = new Vector<X>(x); check_domain(); } else ensure(holds(S, x) & (!B(at_point) | holds(M, x)), "derivative over a set with the root and the point");
  for (unsigned i = 0; i != N; ++i) for (unsigned k = 0; k != N; ++k) { R j = J[2 * i + k]; X d = any_member(JL[2 * i + k], JU[2 * i + k], j); r[i].set_gradient(k, d); } return r; }
static void doubles(R x) { for (int m = 0; m < 3; ++m) ensure(vp::rounded(m, 53, R(2) * x) == R(2) * x, "lemma: doubling is exact"); }
static Vector<X> any_box() { Vector<X> x(N, X(0, dp)); for (unsigned i = 0; i != N; ++i) { S[i] = fresh_real(SN[i]); for (unsigned k = 0; k != N; ++k) J[2 * i + k] = fresh_real(JN[2 * i + k]); x[i] = any_member(XL[i], XU[i], S[i]); doubles(lo(x[i])); doubles(hi(x[i])); } return x; }
typedef VectorMultivariateFunction<ValidatedTag> Fn;
