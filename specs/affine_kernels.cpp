// VP-PROPERTY: T02
// VP-SOURCES: source/function/taylor_model.cpp source/algebra/multi_index.cpp source/algebra/expansion.cpp source/algebra/vector.cpp source/numeric/int.cpp source/geometry/interval.cpp source/geometry/box.cpp source/numeric/float_bounds.cpp source/numeric/float_ball.cpp source/numeric/float_upper_bound.cpp source/numeric/float_lower_bound.cpp source/numeric/float_approximation.cpp source/numeric/float_error.cpp source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp source/numeric/dyadic.cpp source/numeric/integer.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/logical.cpp source/numeric/number.cpp source/numeric/real.cpp
// VP-QUERY-MS: 20000
// VP-TIMEOUT: 200
#include "sym.hpp"
#include "algebra/vector.hpp"
#include "function/function.hpp"
#include "function/affine.hpp"
#include "function/affine_model.hpp"
#include "function/affine_model.tpl.hpp"
using namespace vp; using namespace Ariadne;
// the coefficient operations of affine models: the error bound grows at least by the distance of the result to the exact value
template<class F> struct Err { Error<F> e; R old; Err() : e(PositiveUpperBound<F>(nonneg())), old(re(e.raw())) {} static F nonneg() { F e = fresh<F>("e"); require(re(e) >= R(0)); return e; } R growth() const { return re(e.raw()) - old; } };
SPEC_F(k_add) { F x = fresh<F>("x"), y = fresh<F>("y"); Err<F> e; F r = add_err(x, y, e.e); ensure(rabs(re(r) - re(x) - re(y)) <= e.growth(), "error of a sum"); vp_cover("end"); }
SPEC_F(k_mul) { F x = fresh<F>("x"), y = fresh<F>("y"); Err<F> e; F r = mul_err(x, y, e.e); ensure(rabs(re(r) - named(re(x) * re(y))) <= e.growth(), "error of a product"); vp_cover("end"); }
SPEC_F(k_addb) { F x = fresh<F>("x"); Bounds<F> c = fresh_bounds<F>("l", "u"); Err<F> e; F r = add_err(x, c, e.e); ensure((rabs(re(r) - re(x) - lo(c)) <= e.growth()) & (rabs(re(r) - re(x) - hi(c)) <= e.growth()), "error of a sum with an enclosure"); vp_cover("end"); }
SPEC_F(k_mulb) { F x = fresh<F>("x"); Bounds<F> c = fresh_bounds<F>("l", "u"); Err<F> e; F r = mul_err(x, c, e.e); ensure((rabs(re(r) - named(re(x) * lo(c))) <= e.growth()) & (rabs(re(r) - named(re(x) * hi(c))) <= e.growth()), "error of a product with an enclosure"); vp_cover("end"); }
SPEC_F(k_lin) { F a = fresh<F>("a"), b = fresh<F>("b"), c = fresh<F>("c"), d = fresh<F>("d"); Err<F> e; F r = lin_err(a, b, c, d, e.e); ensure(rabs(re(r) - named(re(a) * re(d)) - named(re(b) * re(c))) <= e.growth(), "error of a linear combination"); vp_cover("end"); }
