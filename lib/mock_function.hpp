// a validated vector function of which the specification defines the values over double-precision bounds and their differentials
#pragma once
#include "aspec.hpp"
#include "function/function.hpp"
#include "function/function_patch.hpp"
#include "function/function_model.hpp"
#include "function/taylor_model.hpp"
#include "function/formula.hpp"
#include "algebra/algebra.hpp"
#include "algebra/differential.hpp"
using namespace vp; using namespace Ariadne;
typedef FloatDP F; typedef FloatDPBounds X;
static unsigned arguments = 1, results = 1;
struct Mock : public virtual VectorMultivariateFunctionInterface<ValidatedTag> {
  template<class T> using V = Vector<T>;
  virtual SizeType argument_size() const override { return arguments; } virtual SizeType result_size() const override { return results; }
  virtual OutputStream& _repr(OutputStream& os) const override { return os; } virtual OutputStream& _write(OutputStream& os) const override { return os; }
  virtual Mock* _clone() const override { return new Mock(*this); }
  virtual Mock* _derivative(SizeType) const override { abort(); }
#define NOT(T) virtual V<T> _call(const V<T>&) const override { abort(); }
  NOT(ApproximateNumber) NOT(FloatDPApproximation) NOT(FloatMPApproximation) NOT(Differential<FloatDPApproximation>) NOT(Differential<FloatMPApproximation>) 
  typedef TaylorModel<ApproximateTag, FloatDP> TA; typedef TaylorModel<ApproximateTag, FloatMP> TB; typedef TaylorModel<ValidatedTag, FloatDP> TC; typedef TaylorModel<ValidatedTag, FloatMP> TD; typedef TaylorModel<ValidatedTag, FloatDPUpperInterval> TE; typedef TaylorModel<ValidatedTag, FloatMPUpperInterval> TF;
  NOT(TA) NOT(TB) NOT(TC) NOT(TD) NOT(TE) NOT(TF)
  NOT(Formula<ApproximateNumber>) NOT(ElementaryAlgebra<ApproximateNumber>) NOT(ValidatedNumber) NOT(FloatMPBounds) NOT(Differential<FloatMPBounds>) NOT(Formula<ValidatedNumber>) NOT(ElementaryAlgebra<ValidatedNumber>) NOT(ScalarMultivariateFunction<ValidatedTag>)
  virtual V<X> _call(const V<X>& x) const override;
  virtual V<Differential<X>> _call(const V<Differential<X>>& x) const override;
};
