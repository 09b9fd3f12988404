// VP-PROPERTY: D01
// VP-SOURCES: source/solvers/solver.cpp source/algebra/matrix.cpp source/algebra/vector.cpp source/algebra/differential.cpp source/algebra/expansion.cpp source/algebra/multi_index.cpp source/geometry/interval.cpp source/geometry/box.cpp source/numeric/float_bounds.cpp source/numeric/float_ball.cpp source/numeric/float_upper_bound.cpp source/numeric/float_lower_bound.cpp source/numeric/float_approximation.cpp source/numeric/float_error.cpp source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp source/numeric/dyadic.cpp source/numeric/integer.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/logical.cpp source/numeric/number.cpp source/numeric/real.cpp
// VP-QUERY-MS: 20000
// VP-TIMEOUT: 200
// VP-BOUND: one or two equations, at most two steps; boxes split at most once
// VP-ASSUME: the logging library (absent git submodule conclog) does nothing: shim/conclog/logging.hpp
#include <stdexcept>
#include "stdtree.hpp"
namespace std { const char* runtime_error::what() const noexcept { return ""; } } // the text of a message
#include "root.hpp"
// the iteration, over the contract of the step (proved above): a root in the box is kept, nothing else is known of the result
static B verified(false); static unsigned steps;
struct Contractor : public SolverBase {
  using SolverBase::SolverBase;
  virtual Contractor* clone() const override { abort(); } virtual void _write(OutputStream& os) const override { os << "Contractor"; }
  virtual Vector<X> step(const ValidatedVectorMultivariateFunction& f, const Vector<X>& x) const override { ++steps; Vector<X> r(N, X(0, dp)); B root = holds(S, x), inner(true); for (unsigned i = 0; i != N; ++i) { r[i] = fresh_bounds<F>(JL[i], JU[i]); require(implies(root, in(S[i], r[i]))); inner = inner & (lo(x[i]) <= lo(r[i])) & (hi(r[i]) <= hi(x[i])); } verified = verified | inner; return r; }
  virtual ValidatedVectorMultivariateFunctionPatch implicit_step(const ValidatedVectorMultivariateFunction&, const ValidatedVectorMultivariateFunctionPatch&, const ValidatedVectorMultivariateFunctionPatch&) const override { abort(); }
};
static void zero(unsigned n, unsigned most) { N = n; unsigned steps_ = (unsigned)vp_choice("steps", 0, most); Contractor solver(ApproximateDouble(0.0078125), steps_); Fn f(std::make_shared<Mock>()); Vector<X> x = any_box(); ExactBoxType bx(N); for (unsigned i = 0; i != N; ++i) bx[i] = ExactIntervalType(x[i].lower_raw(), x[i].upper_raw());
  try { auto r = solver.zero(f, bx); ensure(verified, "a box is returned only after a step into itself"); for (unsigned i = 0; i != n; ++i) ensure(in(S[i], r[i]), "the root is in the box returned"); }
  catch (NoSolutionException&) { ensure(B(false), "no solution is reported only if there is none"); }
  catch (SolverException&) { vp_cover("unknown"); }
  vp_cover("end"); }
SPEC(zero1) { zero(1, 2); }
SPEC(zero2) { zero(2, 1); }
// the size of a box only chooses when to stop
extern "C" const char vptarget_width[] = "Ariadne::error(Ariadne::Bounds<Ariadne::Float<Ariadne::DoublePrecision>> const&)";
extern "C" Error<F> vpcontract_width(X const& x) { F e = fresh<F>("size"); require(R(0) <= re(e)); return Error<F>(Positive<F>(e)); }
// the search, over the contract of the iteration (proved above): a root in the box is in the result, and no solution is reported only if there is none
static unsigned searches; static R found_lo[4] = {R(0), R(0), R(0), R(0)}, found_hi[4] = {R(0), R(0), R(0), R(0)}; static unsigned found;
struct Searcher : public Contractor { using Contractor::Contractor;
  virtual Vector<X> zero(const ValidatedVectorMultivariateFunction& f, const ExactBoxType& bx) const override { ++searches; R l = re(bx[0].lower_bound()), u = re(bx[0].upper_bound()); B root = (l <= S[0]) & (S[0] <= u); long kind = vp_choice("kind", 0, searches <= 1 ? 2 : 1); if (kind == 1) { require(!root); throw NoSolutionException("none"); } if (kind == 2) { throw SolverException("unknown"); }
    Vector<X> r(N, fresh_bounds<F>(JL[1], JU[1])); require(implies(root, in(S[0], r[0]))); found_lo[found] = lo(r[0]); found_hi[found] = hi(r[0]); ++found; return r; } };
static Set<Vector<X>> search(Searcher& solver, B& root, bool one = false) { N = 1; mean_values = false; S[0] = fresh_real("s"); X x = fresh_bounds<F>("xl", "xu"); root = in(S[0], x); Fn f(std::make_shared<Mock>()); ExactBoxType bx(1, ExactIntervalType(x.lower_raw(), x.upper_raw())); if (!one) return solver.solve_all(f, bx); Set<Vector<X>> r; r.insert(solver.solve(f, bx)); return r; }
SPEC(solve_all) { Searcher solver(ApproximateDouble(0.0), 4u); B root(false); auto r = search(solver, root); ensure(implies(root, B(r.size() != 0)), "a root in the box gives a result"); for (auto& y : r) { B known(false); for (unsigned i = 0; i != found; ++i) known = known | ((found_lo[i] == lo(y[0])) & (found_hi[i] == hi(y[0]))); ensure(known, "every result is a verified box"); } if (r.size() == 1 && found == 1) ensure(implies(root, in(S[0], (*r.begin())[0])), "the root is in the only box"); vp_cover("end"); }
SPEC(solve) { Searcher solver(ApproximateDouble(1.0), 4u); B root(false); may_be_singular = false;
  try { auto r = search(solver, root, true); auto y = *r.begin(); B known(false); for (unsigned i = 0; i != found; ++i) known = known | ((found_lo[i] == lo(y[0])) & (found_hi[i] == hi(y[0]))); ensure(known, "the result is a verified box"); if (found == 1 && searches == 1) ensure(implies(root, in(S[0], y[0])), "the root is in the box"); }
  catch (NoSolutionException&) { ensure(!root, "no solution is reported only if there is none"); }
  catch (SolverException&) { vp_cover("unknown"); }
  vp_cover("end"); }
