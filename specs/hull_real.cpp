// VP-PROPERTY: S02
// VP-SOURCES: source/geometry/interval.cpp source/geometry/box.cpp source/numeric/float_bounds.cpp source/numeric/float_upper_bound.cpp source/numeric/float_lower_bound.cpp source/numeric/float_approximation.cpp source/numeric/float_error.cpp source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp source/numeric/dyadic.cpp source/numeric/integer.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/logical.cpp source/numeric/int.cpp source/numeric/operators.cpp source/function/procedure.cpp source/function/formula.cpp
// VP-BOUND: constraints of one or two operations without constants over two coordinates; every box, range and point
#include "aspec.hpp"
#include "stdtree.hpp"
#include "function/formula.hpp"
#include "function/procedure.hpp"
#include "geometry/box.hpp"
using namespace vp; using namespace Ariadne;
typedef ValidatedProcedure PR;
static UpperIntervalType side(const char* n, R p) { FloatDP l = fresh<FloatDP>(n), u = fresh<FloatDP>(n); require((re(l) <= p) & (p <= re(u))); return UpperIntervalType(FloatDPLowerBound(l), FloatDPUpperBound(u)); }
static ExactIntervalType range(R p) { FloatDP l = fresh<FloatDP>("range"), u = fresh<FloatDP>("range"); require((re(l) <= p) & (p <= re(u))); return ExactIntervalType(l, u); }
static B has(UpperIntervalType const& i, R p) { FloatDP l = i.lower_bound().raw(), u = i.upper_bound().raw(); return (is_inf(l) ? B(!(l.get_d() > 0)) : re(l) <= p) & (is_inf(u) ? B(u.get_d() > 0) : p <= re(u)); }
SPEC(hr_binary) { R x = fresh_real("x"), y = fresh_real("y"); UpperBoxType d({side("a", x), side("b", y)}); PR p(2u); p.new_instruction(Var(), 0u); p.new_instruction(Var(), 1u); R v = R(0); switch (vp_choice("op", 0, 4)) { case 0: p.new_instruction(Add(), 0u, 1u); v = x + y; break; case 1: p.new_instruction(Sub(), 0u, 1u); v = x - y; break; case 2: p.new_instruction(Max(), 0u, 1u); v = rmax(x, y); break; case 3: p.new_instruction(Min(), 0u, 1u); v = rmin(x, y); break; default: p.new_instruction(Mul(), 0u, 1u); v = x * y; } simple_hull_reduce(d, p, range(v)); ensure(has(d[0], x) & has(d[1], y), "the solution stays in the box"); vp_cover("end"); }
SPEC(hr_div) { R x = fresh_real("x"), y = fresh_real("y"); require(y != R(0)); UpperBoxType d({side("a", x), side("b", y)}); PR p(2u); p.new_instruction(Var(), 0u); p.new_instruction(Var(), 1u); p.new_instruction(Div(), 0u, 1u); simple_hull_reduce(d, p, range(x / y)); ensure(has(d[0], x) & has(d[1], y), "the solution stays in the box"); vp_cover("end"); }
SPEC(hr_unary) { R x = fresh_real("x"), y = fresh_real("y"); UpperBoxType d({side("a", x), side("b", y)}); PR p(2u); p.new_instruction(Var(), 1u); R v = R(0); switch (vp_choice("op", 0, 5)) { case 0: p.new_instruction(Neg(), 0u); v = -y; break; case 1: p.new_instruction(Pos(), 0u); v = y; break; case 2: p.new_instruction(Hlf(), 0u); v = y / R(2); break; case 3: p.new_instruction(Abs(), 0u); v = rabs(y); break; case 4: require(y != R(0)); p.new_instruction(Rec(), 0u); v = R(1) / y; break; default: p.new_instruction(Nul(), 0u); } simple_hull_reduce(d, p, range(v)); ensure(has(d[0], x) & has(d[1], y), "the solution stays in the box"); vp_cover("end"); }
// several constraints at once, sharing instructions
SPEC(hr_vector) { R x = fresh_real("x"), y = fresh_real("y"); UpperBoxType d({side("a", x), side("b", y)}); Vector<Formula<ValidatedNumber>> z = Formula<ValidatedNumber>::identity(2u); Formula<ValidatedNumber> s = z[0] + z[1]; R a = x + y; Vector<PR> p(2u, Vector<Formula<ValidatedNumber>>({neg(s), s})); ExactBoxType c({range(-a), range(a)}); simple_hull_reduce(d, p, c); ensure(has(d[0], x) & has(d[1], y), "the solution stays in the box"); vp_cover("end"); }
