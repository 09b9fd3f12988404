// VP-PROPERTY: D01
// VP-SOURCES: source/solvers/solver.cpp source/algebra/matrix.cpp source/algebra/vector.cpp source/algebra/differential.cpp source/algebra/expansion.cpp source/algebra/multi_index.cpp source/geometry/interval.cpp source/geometry/box.cpp source/numeric/float_bounds.cpp source/numeric/float_ball.cpp source/numeric/float_upper_bound.cpp source/numeric/float_lower_bound.cpp source/numeric/float_approximation.cpp source/numeric/float_error.cpp source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp source/numeric/dyadic.cpp source/numeric/integer.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/logical.cpp source/numeric/number.cpp source/numeric/real.cpp
// VP-QUERY-MS: 20000
// VP-TIMEOUT: 300
// VP-BOUND: systems of one or two equations
// VP-ASSUME: the logging library (absent git submodule conclog) does nothing: shim/conclog/logging.hpp
#include "shadow.hpp"
#include "root.hpp"
template<class SOLVER> static void step(unsigned n) { N = n; SOLVER solver(ApproximateDouble(0.0078125), 4u); Fn f(std::make_shared<Mock>()); Vector<X> x = any_box(); vp_may_throw(); auto r = solver.step(f, x); ensure(B(r.size() == n), "one component for each variable"); for (unsigned i = 0; i != n; ++i) { R m(0); if (shadow::find(r[i], m)) identity(m, S[i], "lemma: exact step"); ensure(holds(S[i], r[i]), "the root is not lost"); } vp_cover("end"); }
SPEC(newton_step) { step<IntervalNewtonSolver>(1); }
SPEC(krawczyk_step) { step<KrawczykSolver>(1); }
SPEC(factored_step) { step<FactoredKrawczykSolver>(1); }
SPEC(newton_step2) { step<IntervalNewtonSolver>(2); }
SPEC(krawczyk_step2) { step<KrawczykSolver>(2); }
SPEC(factored_step2) { step<FactoredKrawczykSolver>(2); }
