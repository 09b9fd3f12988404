prop("N05", "One-sided bounds and error bounds stay on their side",
 "For all real numbers respecting given lower bounds, upper bounds, positive bounds or error bounds, the exact result of every supported operation (sums, differences with the opposite kind, scaling by positive quantities, products, quotients and reciprocals of positive bounds, squares, powers, fused product-sum, roots, exponential, logarithm, arctangent, maximum, minimum, halving, negation) respects the computed bound, in double and multiple precision, also for in-place operators and mixtures of kinds. Conversions between kinds, from exact numbers and to a lower precision round towards the safe side, and decided comparisons are true.",
 "all one-sided bounds, all numbers respecting them, all prior rounding modes", "A wrong rounding direction or a wrong endpoint choice still gives nearly the right value, so tests with tolerances or representable results pass.",
 ["source/numeric/float_lower_bound.hpp", "source/numeric/float_upper_bound.hpp", "source/numeric/float_error.hpp", "source/numeric/float_upper_bound.tpl.hpp"], [("lower bounds", "source/numeric/float_lower_bound.hpp"), ("upper bounds", "source/numeric/float_upper_bound.hpp"), ("error bounds", "source/numeric/float_error.hpp")],
 "Exponents of powers at most 4; transcendental functions of one-sided bounds in multiple precision only.")
prop("N06", "Decided comparisons of numbers are true",
 "Whenever a comparison (equal, unequal, less, greater, at most, at least, sign) between two interval or ball numbers, or between one of them and an exact number, is answered definitely true or definitely false, that answer is right for every pair of real numbers the operands may represent; separated operands are always decided. Comparisons between exact numbers of any two kinds (floats of any precision, machine numbers, integers, dyadics, rationals) give the exact answer, comparisons of approximations are never definite, and sameness, refinement, consistency and modelling tests agree with the sets represented.",
 "all operands and all real numbers they represent", "A comparison wrong at touching or degenerate endpoints, or after a lossy conversion, passes tests with well separated values.",
 ["source/numeric/float_bounds.hpp", "source/numeric/float_ball.hpp", "source/numeric/floatdp.hpp", "source/numeric/floatmp.cpp", "source/numeric/sign.hpp"], [("comparison of bounds", "source/numeric/float_bounds.hpp"), ("comparison of exact numbers", "source/numeric/floatdp.cpp")])
prop("L01", "Partially decidable logic never asserts a falsehood",
 "For all truth values of two propositions and all three-valued, semidecidable, approximate or boolean answers consistent with them, conjunction, disjunction, negation, exclusive or and equivalence of the answers are consistent with the exact result, are definite whenever the operands force it, and conversions between the kinds of logic never turn an unknown into a definite answer. Effective (effort-dependent) predicates give at every effort the answer obtained by combining their parts at that effort, infinite conjunctions and disjunctions are only decided by a term which decides them, and a choice between two verifiable predicates picks a true one.",
 "all logical values, all efforts in the stated range", "Tables of six-valued logic have dozens of entries per operator and kind; tests check a few.",
 ["source/numeric/logical.hpp", "source/numeric/logical.cpp", "source/numeric/logical.decl.hpp"], [("logical values", "source/numeric/logical.cpp")],
 "Effort-dependent predicates with decision efforts up to 4.")
prop("N07", "Exact numbers compute exactly",
 "For all integers, dyadics, rationals and decimals (also infinite dyadics and rationals), the arithmetic operations, powers, halving, scaling by powers of two, quotient with remainder, integer parts, absolute value, maximum, minimum, sign and comparisons, in-place operators and conversions from machine integers, floats and other exact kinds give the mathematically exact result. Operations on intervals and balls with exact dyadic or rational endpoints enclose the exact results for all members, and their decided comparisons are true.",
 "all exact numbers, all members of exact intervals", "Errors at sign combinations, at limits of machine integers, at infinities or in rarely used operators are not sampled.",
 ["source/numeric/integer.cpp", "source/numeric/dyadic.cpp", "source/numeric/dyadic.hpp", "source/numeric/rational.cpp", "source/numeric/decimal.cpp", "source/numeric/extended.hpp"], [("integers", "source/numeric/integer.cpp"), ("dyadics and dyadic intervals", "source/numeric/dyadic.cpp"), ("rationals and rational intervals", "source/numeric/rational.cpp"), ("decimals", "source/numeric/decimal.cpp")],
 "Exponents -3..5, up to 2 decimal and 3 binary places; dyadic arithmetic beyond 65535 bits not covered.")
prop("G01", "Intervals as sets: operations, predicates and splitting are sound",
 "For all numbers in given over-approximating intervals, the exact result of each arithmetic operation lies in the computed interval; intersection, hull, refinement, widening, narrowing, splitting, bisection midpoints, radii, widths and conversions give sets related to the operands as their names say, with no point lost. Set predicates (subset, superset, inside, covers, disjoint, separated, overlap, intersect, contains, empty, singleton, equality) on exact intervals are exact, and a definite answer on over- or under-approximating intervals is given exactly when it holds for all sets the approximation allows.",
 "all intervals (single, double or multiple precision end-points), all members", "Touching, degenerate and empty intervals and end-points whose midpoint or width is not representable are seldom sampled.",
 ["source/geometry/interval.hpp", "source/geometry/interval.tpl.hpp", "source/geometry/interval.cpp"], [("interval predicates and set operations", "source/geometry/interval.tpl.hpp"), ("interval arithmetic", "source/geometry/interval.hpp")],
 "Exponents of powers -2..4; double-precision square root searched natively (bounded).")
prop("G02", "Boxes as sets: predicates, splitting, products and projections are sound",
 "For all boxes, the set predicates hold exactly when they hold in every (for disjointness and separation: in some) coordinate, definite answers on approximate boxes hold for every box the approximation allows, and intersection, hull, product, projection, widening, corners and vertices give exactly the sets they name. Splitting a box, along a given or along the widest coordinate, gives parts which cover it, stay inside it and agree with it in the other coordinates; midpoints, radii and measures bound the exact quantities.",
 "all boxes up to the stated dimension, all their points", "Tests use a handful of boxes; a wrong coordinate, a wrong quantifier over coordinates, or a lost point at a split boundary needs a special box to show.",
 ["source/geometry/box.hpp", "source/geometry/box.tpl.hpp", "source/geometry/box.cpp"], [("boxes", "source/geometry/box.tpl.hpp")],
 "Dimension at most 3.")
prop("T01", "Taylor models enclose the exact result of every operation",
 "For every function represented by given polynomial models with uniform error bound on the unit box, the sum, difference, negation, product, composition, partial evaluation, antiderivative, restriction to either half of the domain, embedding, sum and product with an exact or interval scalar, and absolute value, maximum and minimum of models of definite sign or order, is represented by the computed model; constants, balls, evaluation at a point, range and norm enclose the exact values. Discarding terms, under any policy and for any kind of coefficient, discarding variables, sorting and combining terms add everything dropped to the error, and a model reported to refine another contains only functions of the other.",
 "all coefficients, all error bounds, all points of the domain, all represented functions, all policies for discarding terms", "Lost rounding errors are of the size of the last place, far below test tolerances.",
 ["source/function/taylor_model.tpl.hpp", "source/function/taylor_model.hpp", "source/algebra/sweeper.hpp"], [("coefficient arithmetic with accumulated rounding error", "source/function/taylor_model.tpl.hpp"), ("sweepers", "source/algebra/sweeper.hpp")],
 "Coefficient arithmetic for all values without bound; models of up to three terms in up to two variables. One known finding: products with inexact scalars.")
prop("T02", "Affine functions and affine models enclose the exact result",
 "Affine functions are evaluated, added, subtracted, negated, scaled and divided exactly as affine functions, including their constant term. For every function represented by given affine models with a uniform error bound on the unit box, the sum, negation, product, and sum and product with an exact or interval number are represented by the computed model; the range and the models made from affine functions with interval coefficients enclose all exact values.",
 "all coefficients and precisions, all error bounds, all points of the domain, all represented functions", "An error bound too small by a rounding, or by a term that is zero in simple examples, makes the enclosure wrong without any visible failure; affine models have no test in the regular suite.",
 ["source/function/affine.hpp", "source/function/affine_model.hpp", "source/function/affine_model.tpl.hpp", "source/function/model_utilities.hpp"], [("affine functions", "source/function/affine.hpp"), ("affine models", "source/function/affine_model.tpl.hpp"), ("coefficient arithmetic with accumulated rounding error", "source/function/model_utilities.hpp")],
 "Coefficient arithmetic for all values without bound; affine functions and models of at most two variables (products: one).")
prop("A01", "Vectors and matrices compute what linear algebra defines",
 "Over exact arithmetic, every vector, covector, matrix and diagonal-matrix operation (sums, differences, multiples, products, products with transposes, dot products, norms, joins, projections, rows and columns, pivots, equality, in-place operators) gives in every entry the value linear algebra defines. Whenever inversion or solution of linear equations returns, for any order of pivoting, the result is an inverse or solves the equations; triangular and orthogonal decompositions of invertible matrices never divide by zero and multiply to the (permuted) matrix.",
 "all entries, all choices of pivot", "Index errors at particular sizes and pivoting errors at particular matrices are not sampled by tests.",
 ["source/algebra/vector.hpp", "source/algebra/covector.hpp", "source/algebra/matrix.hpp", "source/algebra/matrix.tpl.hpp", "source/algebra/diagonal_matrix.hpp"], [("vectors", "source/algebra/vector.hpp"), ("matrices", "source/algebra/matrix.hpp"), ("inversion and decompositions", "source/algebra/matrix.tpl.hpp")],
 "The library's templates instantiated with an exact real number type; sizes at most 3. Iterative (Gauss-Seidel) interval solvers and square-root based factorisations not covered.")
prop("A02", "Automatic differentiation gives the exact Taylor coefficients",
 "Over exact arithmetic, for univariate and multivariate differentials (of any order, and the special forms for orders one and two) with any coefficients and any pattern of stored terms, sums, products, quotients, powers, compositions, scalar operations, derivatives, antiderivatives, gradients, Hessians, Jacobians, elementary functions, constants, variables and affine maps have exactly the coefficients of the calculus rules, terms remain sorted and within the degree, and arguments are left unchanged. The series of elementary functions satisfy their defining differential equations, and the differentials of flows (autonomous, with time, with parameters) and of implicit functions satisfy the defining equations.",
 "all coefficients, all patterns of nonzero terms in the stated range", "A wrong coefficient of a mixed term, a wrong index for sparse terms, or an overrun at some degree needs particular data; tests sample few dense examples.",
 ["source/algebra/differential.hpp", "source/algebra/differential.tpl.hpp", "source/algebra/univariate_differential.hpp", "source/algebra/univariate_differential.tpl.hpp", "source/algebra/fixed_differential.hpp", "source/algebra/fixed_univariate_differential.hpp", "source/algebra/series.hpp"], [("multivariate differentials", "source/algebra/differential.tpl.hpp"), ("univariate differentials", "source/algebra/univariate_differential.tpl.hpp"), ("first and second differentials", "source/algebra/fixed_differential.hpp"), ("power series", "source/algebra/series.hpp")],
 "The library's templates instantiated with an exact real number type; degree at most 3 (series 5), at most three variables.")
prop("A03", "Sparse lists of terms keep the polynomial they denote",
 "For all exponents and coefficients, multi-indices add, subtract, scale and compare componentwise, the graded, lexicographic and reverse lexicographic orders are total (and invariant under translation), and incrementing a multi-index gives its successor in the graded order. Appending, prepending, inserting, erasing, setting, resizing, copying, moving, embedding, sorting, combining equal terms and removing zeros of a list of terms keep or change exactly the terms asked for, within its storage; conversion keeps every coefficient which may be nonzero. Look-up, equality and evaluation (by powers or by Horner's rule) of a sorted list agree with the polynomial denoted.",
 "all exponents, all coefficients, all positions", "Duplicate or touching indices, a missing constant term, reallocation at an insertion and enclosures containing zero are seldom sampled.",
 ["source/algebra/multi_index.hpp", "source/algebra/multi_index.cpp", "source/algebra/expansion.hpp", "source/algebra/expansion.tpl.hpp", "source/algebra/evaluate.tpl.hpp"], [("multi-indices", "source/algebra/multi_index.cpp"), ("expansions", "source/algebra/expansion.tpl.hpp"), ("evaluation", "source/algebra/evaluate.tpl.hpp")],
 "The library's templates instantiated with an exact real number type; up to three variables and four terms (forty when growing), exponents up to 2 in evaluation.")
prop("A04", "Polynomials obey the algebra and calculus of polynomials",
 "For all polynomials in one or several variables, sums, differences, negation, products, products with monomials and scalars, division by scalars, constants, coordinates, truncation, differentiation, antidifferentiation, partial evaluation, evaluation and composition give the polynomial (or value) that algebra and calculus define, with distinct indices in order, so that later operations are valid. Degree, value at zero, coefficients and equality are those of the polynomial denoted, and no coefficient which may be nonzero is dropped.",
 "all coefficients, all exponents in the stated range", "Terms that cancel, vanish under differentiation or coincide need particular polynomials to show; the univariate case is hardly tested.",
 ["source/function/polynomial.hpp", "source/function/polynomial.tpl.hpp", "source/algebra/evaluate.tpl.hpp"], [("polynomials", "source/function/polynomial.tpl.hpp"), ("evaluation", "source/algebra/evaluate.tpl.hpp")],
 "The library's templates instantiated with an exact real number type; up to two variables and three terms; exponents up to 2 in evaluation, calculus and composition.")

prop("P01", "Grid cells and pavings denote exactly the sets asked for",
 "The box of a cell of a grid is obtained by repeated halving, the halves of a cell fill it, and equality, order, containment, neighbours and enclosing primary cells agree with those boxes. For all pavings with arbitrary marked cells, adjoining, removing, intersecting (restricting), taking the difference or union, mincing, recombining, enlarging to another primary cell, taking branches, projecting, copying, assigning, storing and restoring give exactly the set of cells named, leave the operands as they were and the tree of marks well formed. Iteration visits each marked cell once, and size, depth, emptiness, equality, subset, superset, overlap and containment tests agree with the set denoted.",
 "all trees and marks, cells and primary cells in the stated range; all grid origins and spacings for the boxes of cells", "Operands on different primary cells, aliasing operands, deeper or shallower trees, and particular marks select different code paths; the grid-paving tests are not part of the regular suite.",
 ["source/geometry/grid_paving.cpp", "source/geometry/grid_paving.hpp", "source/geometry/binary_tree.cpp", "source/geometry/binary_tree.hpp", "source/geometry/grid.cpp", "source/utility/binary_word.hpp"], [("binary trees", "source/geometry/binary_tree.cpp"), ("cells and pavings", "source/geometry/grid_paving.cpp")],
 "Trees of depth at most two (three for queries), dimension one and two, primary cells up to extent two. Approximations of sets, and tests of pavings against boxes, are P02.")
prop("P02", "Approximations of sets on grids err only on the promised side",
 "Whatever truthful answers (including \"unknown\") a set gives to containment tests, the outer approximation of a bounded closed set on a grid contains every point of the set, every cell added by a lower approximation overlaps the set, every cell added by an inner approximation lies in the set, and cells already in the paving are kept. The outer and inner approximations of a box contain it and lie in it. Every answer that a paving covers, includes, lies in, is apart from, overlaps or intersects a box is true, and its bounding box contains it.",
 "all sets given by their answers to containment tests, all boxes, all pavings in the stated range", "An error on one side of a cell, at one depth of subdivision or for one order of vague answers loses part of a reachable set without any test noticing; these routines have no test in the regular suite.",
 ["source/geometry/grid_paving.cpp", "source/geometry/grid_paving.hpp", "source/geometry/grid.cpp"], [("approximations of sets", "source/geometry/grid_paving.cpp"), ("pavings against boxes", "source/geometry/grid_paving.cpp")],
 "Unit grids, dimension one (and two for exact answers), depth at most three; the set of cells covering a box is tested with boxes of positive width.")
prop("S01", "Formulae and procedures compute and differentiate as calculus defines",
 "For every formula built from the elementary operations and every point of its domain, evaluation (directly, as a vector, or compiled to a procedure) gives the value the operations define; derivatives of formulae and gradients of procedures are the partial derivatives, and the derivatives attached to single operators are right. Simplification, substitution and the constructors that shorten formulae keep the value at every point; the tests for identical, constant, affine and additive formulae answer yes only when it is so.",
 "all points of the domain and constants; all formulae in the stated range", "A wrong sign or factor for one rarely used operation, or a simplification only valid for some arguments, needs the right formula and point to show.",
 ["source/function/formula.hpp", "source/function/formula.cpp", "source/function/formula.tpl.hpp", "source/function/procedure.tpl.hpp", "source/function/procedure.hpp", "source/numeric/operators.hpp"], [("formulae", "source/function/formula.tpl.hpp"), ("procedures", "source/function/procedure.tpl.hpp")],
 "The library's templates instantiated with an exact real number type; formulae up to two operations deep over two coordinates and constants; second derivatives of procedures not covered.")
prop("S02", "Contracting a box by a constraint never loses a solution",
 "For every box, every constraint saying that the value of a formula lies in a given interval, and every point of the box that satisfies it, the box reduced by evaluating the formula forward and propagating the interval backward through its operations still contains the point, and the reduced box is never larger than before. This holds for each elementary operation, for coordinates used several times, for divisors that may be zero, and for several constraints reduced together.",
 "all boxes, all ranges, all points satisfying the constraint", "A propagation rule that is wrong for one sign, one branch of an inverse function or one operand order only drops part of the solutions, which tests on a few boxes do not notice.",
 ["source/function/procedure.tpl.hpp", "source/function/procedure.hpp", "source/function/procedure.cpp"], [("propagation of constraints", "source/function/procedure.tpl.hpp"), ("hull reduction", "source/function/procedure.cpp")],
 "The propagation rules are verified over arbitrary enclosures (any interval arithmetic that encloses); with the library's own double-precision intervals for arithmetic operations, maximum, minimum, absolute value. Formulae up to two operations deep, powers -3 to 4.")
prop("S03", "Symbolic expressions keep their meaning",
 "For every expression in real variables and every point of its domain, evaluation gives the value the operations define, the derivative with respect to a variable is the partial derivative, and simplification, substitution of expressions or constants for variables elimination of common subexpressions and conversion to a formula keep the value, also for vectors of expressions. Expressions identified as identical or equal in order have the same value; expressions reported constant, affine or additive in some variables are so. The indicator of a predicate built from comparisons with and, or, not is positive where the predicate (or for the negative sign, its negation) holds and negative where it fails, and predicates reported opposite are negations of each other. Expressions in integers and conditions on integers and strings have the value their operations define.",
 "all points and constants; all expressions and predicates in the stated range", "A rewriting valid only for some operands, one operator compared without its parameter, or a connective not dualised under negation needs the right expression to show; guards and invariants with several conditions are the only users of some of these paths.",
 ["source/symbolic/expression.cpp", "source/symbolic/expression.tpl.hpp", "source/symbolic/expression.hpp", "source/symbolic/templates.tpl.hpp", "source/symbolic/operations.hpp"], [("expressions", "source/symbolic/expression.tpl.hpp"), ("indicators and comparisons", "source/symbolic/expression.cpp")],
 "The operations of the class of real numbers are replaced by their contract (exact arithmetic, comparison of equal numbers undecided). Scalar expressions up to two operations deep, predicates of at most two comparisons.")
prop("D01", "Root solvers never lose a root",
 "One step of the interval Newton, Krawczyk or factored Krawczyk solver keeps every root of the function in the box it started from. The iteration returns a box only after a step that maps a box into itself, which is what certifies existence and uniqueness, and the root in the given box is in the box returned. No solution is reported only if there is no root; a search of a region returns only boxes certified in this way, and at least one if there is a root and no part of the region was too small to decide.",
 "all differentiable functions, all boxes, all roots", "A step that drops the rounding of the residual, or an acceptance test with its arguments swapped, is wrong only for boxes with the root near the border.",
 ["source/solvers/solver.cpp", "source/solvers/solver.hpp"], [("contracting steps, iteration and search", "source/solvers/solver.cpp")],
 "Functions are known only by their contract: an enclosure of the value and of the derivative over the box. The mean value theorem (which links these to the root) and the fixed point theorem (which turns a step into itself into existence) are assumed. One and two equations.")
prop("D03", "Bounds of a flow contain the flow",
 "For every differential equation, initial box, suggested step and set of parameters, the step size returned is positive and no longer than suggested, and the box returned contains every solution starting in the initial box for times up to the step size. Time intervals and parameters of the field are never narrowed by rounding.",
 "all fields, all initial boxes, all start times, all parameters", "A step accepted after the wrong inclusion test, or a start time rounded inwards, is wrong only for fast fields or times that are not representable.",
 ["source/solvers/bounder.cpp", "source/solvers/bounder.hpp", "source/geometry/interval.hpp"], [("Euler bounder", "source/solvers/bounder.cpp"), ("rounded time intervals", "source/geometry/interval.hpp")],
 "The field is known only by an enclosure of its values over a box. The argument that a box mapped into itself by the Euler step contains the flow is assumed (Picard). One state variable, at most one parameter, at most one reduction of the step.")
def na(id, title, statement, text, why, files, mech, reason, over=("inputs",)):
    NA.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, reason=reason))
NA = []
na("N03", "Elementary functions in double precision are rounded as requested",
 "For every double-precision float in the domain and every rounding direction, the exponential, logarithm, sine, cosine, tangent, arctangent and square root are on the requested side of the exact value, so that interval and ball versions enclose the exact values.",
 "all finite floats, all directions", "Errors of the last place at particular arguments are not sampled.",
 ["source/numeric/double.cpp", "source/numeric/floatdp.cpp"], [("range reduction and rounded series", "source/numeric/double.cpp")],
 "Deciding it needs error analysis of series with data-dependent truncation evaluated in directed rounding against transcendental functions, for which no back end here (Z3 over reals with rounding axioms) has a theory; contracts can name the exact value but not discharge the truncation error. A native search shows the property fails for some arguments (see DESIGN.md), which is recorded there.")
na("N09", "Computable real numbers are approximated to the requested accuracy",
 "For every real number built from exact numbers by arithmetic, elementary functions and limits, the computed dyadic or float enclosure contains the number, and its error is at most the requested accuracy.",
 "all expressions, all accuracies", "The number of terms and working precision are found by iteration; tests use a few constants.",
 ["source/numeric/real.cpp", "source/numeric/real.hpp"], [("evaluation of real expressions to an accuracy", "source/numeric/real.cpp")],
 "The result of every operation at every precision is enclosed by N02/N04 for arithmetic, but the accuracy statement is one of termination of a loop over precisions with transcendental functions (trusted MPFR), for which there is no ranking contract within reach; termination is not verified by this method.")
na("D04", "Integrators and constraint solvers enclose the solutions",
 "Taylor and Picard integrators, solvers for implicit functions and constraint solvers return enclosures which contain every solution, and report existence, uniqueness or emptiness only if it holds.",
 "all systems, all domains, all step sizes", "Failures need systems with particular stiffness or multiplicity.",
 ["source/solvers/integrator.cpp", "source/solvers/constraint_solver.cpp", "source/solvers/solver.cpp"], [("integrators", "source/solvers/integrator.cpp"), ("constraint solvers", "source/solvers/constraint_solver.cpp")],
 "They compute with function patches on scaled domains (F01), whose helpers do not instantiate in this tree (the solver files are compiled by no target here); their parts within reach are claimed separately: root solvers over boxes (D01), flow bounds (D03), Taylor models (T01), backward reduction (S02).")
na("D02", "Evolution and reachability of (hybrid) systems is enclosed",
 "Orbits, reachable and evolved sets of continuous and hybrid systems computed with upper semantics contain all trajectories, those with lower semantics are approached by trajectories, and safety verdicts are true.",
 "all systems, all initial sets, all times", "Only a few example systems are simulated.",
 ["source/dynamics/vector_field_evolver.cpp", "source/dynamics/reachability_analyser.cpp", "source/hybrid/hybrid_evolver.cpp"], [("evolution", "source/dynamics/vector_field_evolver.cpp"), ("hybrid evolution", "source/hybrid/hybrid_evolver.cpp")],
 "Not part of the build of this tree (only differential_inclusion.cpp of the dynamics and nothing of the hybrid module is compiled), so there is no running code to put under contract.", over=("inputs", "histories"))
na("F01", "Function patches on scaled domains enclose the functions they stand for",
 "A function model on an arbitrary box encloses the function it was made from, and its evaluation, arithmetic, restriction, composition, antiderivatives and joins enclose the corresponding exact functions.",
 "all domains, all functions", "Scaling to the unit box rounds; tests use representable domains.",
 ["source/function/scaled_function_patch.tpl.hpp", "source/function/function_patch.hpp"], [("scaling and unscaling", "source/function/scaled_function_patch.tpl.hpp")],
 "The arithmetic on the unit box is T01; the scaling of a general domain composes polymorphic effective functions (handles over computable reals and type-erased callbacks) whose meaning is not expressible in the contracts within reach here without assuming the result.")
