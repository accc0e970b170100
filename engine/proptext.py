import props as base
from props import prop, NA, INC

CS = INC + "modelling/constraints/"
CSF = [INC + "constraint-set.hpp", INC + "constraint-set.hxx", CS + "box-constraint.hpp", CS + "equality-constraint.hpp",
       CS + "negative-orthant.hpp", CS + "l1-penalty.hpp"]
W = ("Unit tests evaluate a few fixed or random vectors; the claim is over all real inputs (every region, boundary and kink). ")

prop("C01", "Projections return the nearest point of the constraint set",
     "For every input, projecting onto the equality (zero) set, the negative orthant or a box returns a point that belongs to the set, "
     "is at least as close (Euclidean) as every other point of the set, is unchanged for points already in the set, and is idempotent and non-expansive. "
     "Bounds may be infinite and the output may be the input vector itself.",
     ["inputs", "configurations"], W, CSF, [("projection", CS + "*.hpp projection / projection_impl")],
     "every real vector and every pair of box bounds l <= u (finite or infinite)",
     "dimension <= 2 (quick) / 3 (thorough) in exact real arithmetic; dimension 1 bit-precise IEEE double")
prop("C02", "Projection and normal-cone projection decompose every vector",
     "For every constraint set and every input z, projection(z) + normalConeProjection(z) = z and the second part is a normal vector at the first: "
     "it satisfies <q, y - p> <= 0 for every y of the set and complementarity, and for the L1 penalty it is mu times a subgradient at the prox.",
     ["inputs", "configurations"], W, CSF, [("normalConeProjection", CS + "*.hpp normalConeProjection")],
     "every real vector, set kind, bounds and prox parameter mu > 0", "dimension 2, exact real arithmetic")
prop("C03", "The L1 penalty prox is exact soft-thresholding with the current parameter",
     "For every z and mu > 0, the L1 penalty's projection minimises mu|y| + (y-z)^2/2 componentwise (zero exactly when |z| <= mu, otherwise moved by mu towards zero), "
     "evaluate() returns the 1-norm, and the active set is exactly the zeroed components. The value of mu used is the one set last.",
     ["inputs", "histories"], W, [CS + "l1-penalty.hpp", INC + "constraint-set.hpp"],
     [("soft thresholding", CS + "l1-penalty.hpp projection_impl"), ("parameter", INC + "constraint-set.hpp setProxParameter")],
     "every real z, mu, and an arbitrary earlier use with another parameter", "dimension 2 real arithmetic; dimension 1 IEEE double")
prop("C04", "Generalised Jacobians of projections are true derivatives",
     "Applying the projection Jacobian to J gives exactly the derivative of the projection times J wherever it is differentiable, and an element of the B-subdifferential (row kept or zeroed, consistently with the active set) at kinks. "
     "The normal-cone Jacobian gives the complement, so the two results always add up to J, for any number of columns, and only Jout is modified.",
     ["inputs", "configurations"], W, CSF, [("applyProjectionJacobian", INC + "constraint-set.hxx"), ("computeActiveSet", CS + "*.hpp")],
     "every real z (kinks included), J and mu", "dimension 2, up to 3 columns, exact real arithmetic")
prop("C05", "Moreau envelope value is the infimum it is defined as",
     "For every set or penalty, z and mu > 0, the Moreau envelope equals g(prox(z)) + |z - prox(z)|^2/(2 mu), is the infimum over all y of g(y) + |z-y|^2/(2 mu), "
     "and both evaluation entry points agree and return the normal-cone projection.",
     ["inputs", "configurations"], W, CSF, [("evaluateMoreauEnvelope / computeMoreauEnvelope", INC + "constraint-set.hpp")],
     "every real z, bounds and mu > 0", "dimension 2 (value) and 1 (infimum), exact real arithmetic")
prop("C06", "Constraint-set products act blockwise on their components",
     "For a Cartesian product of sets with given block sizes, projection, normal-cone projection, Jacobians, active set, value and Moreau envelope are the blockwise results of the components, for any order and sizes and when nested. "
     "Setting the proximal parameter of the product sets it for every component; a mismatched number of sizes is rejected.",
     ["inputs", "configurations"], "The test evaluates one product at one vector with boxes and equalities only.",
     [CS + "constraint-set-product.hpp"], [("block slicing", CS + "constraint-set-product.hpp blockVectorGetRow/blockMatrixGetRow")],
     "every real z and J for 9 component patterns, plus a nested product", "total dimension <= 4, exact real arithmetic")

MS = INC + "modelling/spaces/"
prop("C08", "Manifold operations satisfy the group laws",
     "On vector spaces, tangent bundles and Cartesian products of them: integrating the difference of two points from the first returns the second, the difference of a point and the same point moved by v is v, "
     "the difference of a point with itself is zero, neutral and random elements are valid points, and interpolation returns the end points at 0 and 1 and integrate(x0, t*difference(x0,x1)) in between. "
     "Results do not depend on the previous content of the output.",
     ["inputs", "configurations"], "Tests draw a few random points; the laws are claimed for every pair of points and every nesting.",
     [INC + "manifold-base.hpp", INC + "manifold-base.hxx", MS + "vector-space.hpp", MS + "tangent-bundle.hpp", MS + "tangent-bundle.hxx", MS + "cartesian-product.hpp", MS + "cartesian-product.hxx"],
     [("integrate/difference/interpolate", MS + "*.hpp *_impl")],
     "every real point, velocity and interpolation weight", "8 flat spaces of total dimension <= 5 and 6 built over a user's non-commutative manifold with nx=4, ndx=3, exact real arithmetic")
prop("C09", "Manifold Jacobians are the derivatives of integrate and difference",
     "Jintegrate and Jdifference with respect to either argument are the exact derivatives of integrate and difference, also for tangent bundles of an arbitrary base space whose point and tangent dimensions differ; "
     "JintegrateTransport multiplies its input by the Jacobian of the exponential with respect to the chosen argument. Tangent bundles act on the base part with the base space and on the fibre part as a vector space.",
     ["inputs", "configurations"], "Tests compare against finite differences at random points.",
     [INC + "manifold-base.hpp", MS + "tangent-bundle.hxx", MS + "cartesian-product.hxx", MS + "vector-space.hpp"],
     [("Jintegrate/Jdifference/JintegrateTransport", MS + "*.hxx")],
     "every real point and velocity", "8 flat spaces of total dimension <= 5, 6 built over a non-commutative manifold with nx=4, ndx=3, and one arbitrary base (nx=3, ndx=2), exact real arithmetic")
prop("C10", "Cartesian products act componentwise and keep the order of their operands",
     "A Cartesian product of manifolds has the summed dimensions and acts on each component with that component's own operation, in the order in which the components were given, "
     "however it was built (constructor, addComponent, operator*, polymorphic operands). split and merge are mutually inverse, and an element is normalized exactly when each of its components is.",
     ["inputs", "configurations", "histories"], "Tests multiply two or three spaces and look at dimensions.",
     [MS + "cartesian-product.hpp", MS + "cartesian-product.hxx", INC + "manifold-base.hpp"],
     [("component slicing", MS + "cartesian-product.hxx"), ("operator*", MS + "cartesian-product.hpp")],
     "every real point and velocity; 4 component patterns times 7 ways of building the product", "1 to 3 components of dimension <= 3, exact real arithmetic")
CO = INC + "modelling/costs/"
prop("C11", "Cost gradients and Hessians are the derivatives of the cost at the queried point",
     "For quadratic residual costs, squared-distance costs and weighted sums, the gradient is the exact derivative of call(), and the Hessian that of the gradient (the Gauss-Newton Hessian when that option is on), "
     "at the point given, whatever the cost was evaluated at before and after a change of target, slope or constant.",
     ["inputs", "histories"], "Tests evaluate, then differentiate at the same point; stale caches and weights other than the identity are never exercised.",
     [CO + "quadratic-residual.hpp", CO + "squared-distance.hpp", INC + "cost-sum.hpp"],
     [("derivatives", CO + "quadratic-residual.hpp computeGradient/computeHessian"), ("sums", INC + "cost-sum.hpp")],
     "every real point, target, weight and any of 5 earlier uses", "2 variables, residuals of degree <= 2; distances on 4 curved spaces of tangent dimension <= 6, exact real arithmetic")
prop("C12", "Cost algebra builds exactly the weighted sum written",
     "Sums, scalings and compound assignments of costs evaluate to the corresponding linear combination of the operands (value, gradient, Hessian), for every way of combining costs and sums, "
     "including adding a sum to itself, and never change an operand that is not assigned to.",
     ["inputs", "histories"], "Tests check a few expressions with fixed numeric weights.",
     [INC + "cost-sum.hpp", INC + "cost-function.hpp"], [("operators", INC + "cost-sum.hpp operator+, *, +=, *=")],
     "every pair of real weights and arbitrary cost values", "15 expressions over three costs, exact real arithmetic")
prop("C13", "Composite, linear and adapter functions evaluate and differentiate correctly",
     "A composed function is the composition of its parts with the chain-rule Jacobian; linear and state-difference residuals evaluate Ax+b and difference(target, x) with the matching Jacobians; a cost built from a scalar function has that "
     "function's value and derivatives. Vector-Hessian products are those of the wrapped function.",
     ["inputs", "histories"], "Tests use one random point each.",
     [INC + "function-ops.hpp", INC + "function-base.hpp", INC + "cost-function.hpp", INC + "modelling/residuals/linear.hpp", INC + "modelling/residuals/state-residual.hpp"],
     [("ComposeFunctionTpl", INC + "function-ops.hpp"), ("func_to_cost", INC + "cost-function.hpp")],
     "every real point and every coefficient of the wrapped functions", "3 variables, degree-2 parts; 4 curved spaces with nx<>ndx, exact real arithmetic")
prop("C14", "Finite-difference wrappers return the stated difference quotients",
     "The finite-difference wrappers (first and second order) evaluate the wrapped function unchanged and return, for each tangent direction of the manifold, exactly the central difference quotient of the function (Jacobian) "
     "or of its Jacobian applied to the given vector (vector-Hessian product): exact for functions quadratic along that direction, off by eps^2/6 times the third derivative for cubics, whatever was asked before. "
     "The second-order wrapper passes the wrapped function's own Jacobian through.",
     ["inputs"], "Tests compare with an analytic derivative up to a tolerance at one point.",
     [INC + "modelling/autodiff/finite-difference.hpp"], [("FiniteDifferenceWrapper", INC + "modelling/autodiff/finite-difference.hpp")],
     "every real point, step and function coefficient", "2 variables, degree <= 3; quadratic functions on 2 curved spaces with nx<>ndx, exact real arithmetic")
LI = INC + "linalg/"
prop("C15", "The dense LDLT factorises and solves exactly",
     "DenseLDLT factorises every symmetric matrix with nonzero leading minors, reading its lower triangle only: the stored factors and diagonal reproduce the matrix, reconstructedMatrix returns it, "
     "and solve / solveInPlace, for one or several right-hand sides, return the exact solution. The recursive blocked algorithm used for large matrices gives the same factors as the unblocked one.",
     ["inputs"], "Tests factorise random matrices and compare norms with a tolerance.",
     [LI + "dense.hpp", LI + "dense-ldlt.hpp" if False else LI + "dense.hpp"],
     [("factorisation and solves", LI + "dense.hpp")],
     "every matrix all of whose leading minors are nonzero", "size <= 4 (factors), <= 2 with solves (thorough 3); size 131 with 4 symbolic coupled rows; exact real arithmetic")
prop("C16", "Bunch-Kaufman factorises every symmetric matrix and flags singular ones",
     "For every symmetric matrix, regular or not, BunchKaufman either reports NumericalIssue, only if the matrix is singular, or stores a pivoting and factors that reproduce the matrix and solve systems with it exactly; "
     "only the lower triangle is read. The blocked variant used for large matrices does the same.",
     ["inputs"], "Tests factorise one random matrix per size; pivoting patterns are reached by luck only.",
     [LI + "bunchkaufman.hpp"], [("pivoting and factorisation", LI + "bunchkaufman.hpp bunch_kaufman_in_place_unblocked / _one_block"), ("solves", LI + "bunchkaufman.hpp _solve_impl")],
     "every symmetric matrix, every path of the pivoting", "size <= 2, size 3 in four patterns (thorough: all), sizes 4-6 with forced interchanges, sizes 35-36 (blocked) with an interacting pair of rows or dense; exact real arithmetic")
prop("C17", "The block LDLT solves exactly whatever the block structure and permutation",
     "BlockLDLT factorises and solves a symmetric matrix whose blocks have the declared structure (zero, diagonal, triangular, dense), under any block permutation, exactly and with the declared permutation, "
     "or reports NumericalIssue; structures without triangular blocks are always accepted. It reads only the lower triangle.",
     ["inputs", "configurations"], "Tests use random values for a handful of structures; an aliasing or structure slip appears only for specific kinds, sizes and orders.",
     [LI + "block-ldlt.hpp", LI + "block-ldlt.hxx", LI + "gemmt.hpp", LI + "block-triangular.hpp", "src/block-kind.cpp"],
     [("structured factorisation", LI + "block-ldlt.hpp"), ("structure-aware kernels", LI + "gemmt.hpp")],
     "every matrix with nonzero pivots, every structure and permutation", "2 blocks of sizes <= 3; 3 blocks of sizes (2,1,2), (1,2,1), and (2,2,2) with one block symbolic at a time; 4 blocks of size 1; exact real arithmetic")
prop("C18", "The inertia of KKT matrices is computed correctly by every back end",
     "For KKT matrices [[H, J^T], [J, -mu I]] with H positive definite and mu > 0, each LDLT back end created by the allocator succeeds, its diagonal gives the inertia (nx, m, 0), "
     "and the solution of the system is exact. For Bunch-Kaufman, the signature of any symmetric nonsingular matrix is its inertia, at any scale.",
     ["inputs", "configurations"], "Tests compare back ends on random well-scaled matrices; the inertia of badly scaled pivots is never tested.",
     [INC + "ldlt-allocator.hpp", LI + "bunchkaufman.hpp", LI + "dense.hpp", LI + "block-ldlt.hpp", INC + "pdal.hpp" if False else INC + "ldlt-allocator.hpp"],
     [("compute_signature", INC + "ldlt-allocator.hpp and " + LI + "bunchkaufman.hpp"), ("allocate_ldlt_from_sizes", INC + "ldlt-allocator.hpp")],
     "every positive definite H, every J, every mu > 0 of the stated sizes; every symmetric nonsingular matrix of size 2", "dense/block: up to 3 variables and 3 constraint rows; Bunch-Kaufman and Eigen LDLT: 1+1; exact real arithmetic")
prop("C19", "Factorisations depend only on the last matrix given, also when copied",
     "After any earlier use (another matrix, another size, a failed factorisation, another block permutation, copy, assignment, swap), computing a matrix gives the same solution, sign and status as a fresh decomposition, "
     "and copies are independent of the original and answer the same queries.",
     ["histories", "inputs"], "Tests factorise once per object.",
     [LI + "dense.hpp", LI + "bunchkaufman.hpp", LI + "block-ldlt.hpp"],
     [("recompute / copy", LI + "*.hpp compute, copy constructor, operator=")],
     "every pair of matrices; 7 kinds of earlier use", "dense sizes <= 3, Bunch-Kaufman <= 2, block (1,2,1); exact real arithmetic")
prop("C20", "Structured matrix kernels equal their dense counterparts",
     "The structure-aware products C += alpha A B^T (gemmt) and the structured triangular solves give exactly what the dense operation gives on blocks of the declared structure, for every pair of structures, "
     "and ignore what is stored where the structure declares zeros (in the left operand: unless both operands are triangular).",
     ["inputs", "configurations"], "Tests cover two triangular solves; most structure pairs are never executed.",
     [LI + "gemmt.hpp", LI + "block-triangular.hpp", LI + "block-ldlt.hpp"], [("GemmT", LI + "gemmt.hpp"), ("triangular solves", LI + "block-triangular.hpp")],
     "every matrix entry; all 25 pairs of kinds", "blocks of sizes 1..3; exact real arithmetic")
prop("C21", "Block-structure algebra over-approximates the arithmetic and finds least fill-in",
     "The kinds computed for sums, products and transposes of blocks are the smallest structure containing every such result; the symbolic factorisation's pattern contains the fill-in of the numeric one, structures without triangular blocks are never rejected, "
     "its nonzero count is the number of entries, and the permutation search returns one with fewest nonzeros.",
     ["inputs", "configurations"], "Tests check a fixed example structure.",
     ["src/block-kind.cpp", LI + "block-kind.hpp", LI + "block-ldlt.hpp"], [("kind algebra", "src/block-kind.cpp"), ("symbolic factorisation", LI + "block-kind.hpp SymbolicBlockMatrix")],
     "every pair of kinds with every values; every structure of 3 blocks, every zero/dense/diagonal structure of 4", "3x3 blocks; 3 and 4 block rows")

SV = [INC + "prox-solver.hpp", INC + "prox-solver.hxx"]
LSH = [INC + "linesearch-base.hpp", INC + "linesearch-armijo.hpp"]
prop("C07", "The merit function is the primal-dual augmented Lagrangian, with its gradient",
     "At every primal-dual point and penalty, the merit value is f(x) + (1/mu) dist(c(x) + mu (lam_e - lam/2), C)^2 + (mu/4) |lam|^2, and the primal and dual merit gradients are its partial derivatives wherever it is differentiable, "
     "for every mix of equality, negative-orthant and box constraints.",
     ["inputs", "configurations"], "Tests never look at the merit function away from a handful of points.",
     [INC + "pdal.hpp", INC + "pdal.hxx", INC + "prox-solver.hxx"], [("merit", INC + "pdal.hxx"), ("shifted constraints", INC + "prox-solver.hxx computeMultipliers")],
     "every point, multiplier estimate, penalty, quadratic cost and affine constraints; derivative along every direction staying on one piece",
     "2 variables, 6 constraint patterns of at most 2 rows, exact real arithmetic")
prop("C22", "BFGS updates follow the formula, keep the secant equation, skip bad curvature",
     "For every history of points and gradients, the BFGS strategy replaces the (inverse) Hessian by the rank-two BFGS formula of the last step, so that it satisfies the secant equation, stays symmetric and, from a positive definite matrix, positive definite; "
     "steps without positive curvature leave the matrix unchanged; the first call only records the point.",
     ["inputs", "histories"], "Tests run BFGS on one quadratic.", [INC + "bfgs-strategy.hpp"], [("update", INC + "bfgs-strategy.hpp update / update_impl")],
     "every previous matrix, point and gradient pair", "<= 2 variables (quick) / 3 (thorough), <= 2 updates")
prop("C23", "Line-search interpolation minimises the interpolating polynomial",
     "Polynomials evaluate and differentiate exactly; the quadratic interpolant matches phi(0), phi'(0) and the last sample, the cubic one matches also the sample before, each at the step where it was taken; and the step the Armijo search tries next is the minimiser of that interpolant within the contraction bounds.",
     ["inputs"], "Tests check a fixed polynomial.", LSH, [("polynomials", INC + "linesearch-base.hpp PolynomialTpl"), ("interpolation", INC + "linesearch-armijo.hpp computeAlpha / interpolate / minimize")],
     "every phi(0), phi'(0) < 0 and rejected samples", "degree <= 4; one quadratic step; one cubic step with three pairs phi(0), phi'(0)")
prop("C24", "The Armijo line search returns a sufficient-decrease step, or the minimal one",
     "For every merit function, including evaluations that throw or return NaN or infinity, the Armijo line search terminates, evaluates only steps in [alpha_min, 1] that decrease by the contraction bounds, returns a step that satisfies the sufficient-decrease condition unless its step budget or minimal step was reached, "
     "and returns the merit value of exactly the step it returns.",
     ["inputs", "fault_sequences"], "Tests try two smooth functions.", LSH, [("search", INC + "linesearch-armijo.hpp run")],
     "every sequence of merit values and every pattern of failing evaluations", "<= 3 reductions; all 3 interpolation kinds")
prop("C32", "Multiplier estimates and primal residuals follow their definitions",
     "For every constraint value, multiplier pair and penalty, the first-order and primal-dual multiplier estimates, their reprojected companions, the projected Jacobians of either KKT form, the accepted multipliers of each update mode and the primal residuals equal their defining formulas, constraint block by constraint block.",
     ["inputs", "configurations"], "Tests only observe the solver's final answer on a few problems.", SV,
     [("estimates", INC + "prox-solver.hxx computeMultipliers"), ("acceptance", INC + "prox-solver.hxx acceptMultipliers"), ("residuals", INC + "prox-solver.hxx computePrimalResiduals")],
     "every constraint value, Jacobian, multiplier and penalty", "1 variable, 6 constraint patterns of at most 3 rows")
prop("C33", "Norms, rounding helpers and non-finite detection are exact",
     "The infinity norm is the largest magnitude (of nested containers too), sign is -1, 0 or 1, the scalar helpers agree with their definitions, and the non-finite checks report exactly the matrices holding an infinity or NaN.",
     ["inputs"], "Tests never feed non-finite values at each position.", [INC + "math.hpp"], [("norms", INC + "math.hpp infty_norm"), ("checks", INC + "math.hpp check_value")],
     "every value; a non-finite entry at any position", "up to 3 entries; matrices up to 3x2")
OUTB = "1 variable (also on a manifold with nx=2, ndx=1), <= 2 constraint rows (equality, orthant, box, L1 penalty), fixed quadratic/affine data, <= 3 iterations and outer iterations, full steps"
prop("C25", "SUCCESS means the returned point and multipliers satisfy the KKT conditions",
     "Whenever solve() reports SUCCESS, the returned primal point and multipliers themselves meet the target tolerance: constraint violation, multiplier sign and complementarity (through the projection residual at the returned penalty) and stationarity of the Lagrangian, in every multiplier update mode and KKT form; "
     "the reported infeasibilities and value are those of the returned point, and a point that already meets the tolerance is not reported as a failure.",
     ["inputs", "configurations"], "Tests check convergence on a few problems, never that the flag is earned for every start.", SV,
     [("convergence test", INC + "prox-solver.hxx solve"), ("residuals", INC + "prox-solver.hxx innerLoop, computePrimalResiduals")],
     "every starting point and starting multiplier", OUTB)
prop("C26", "The solver always stops within its limits and reports why",
     "solve() makes at most max_iters Newton iterations and max_al_iters outer iterations, returns either SUCCESS or MAX_ITERS_REACHED (the same flag as in the results), reports a limit only when one was reached, counts its iterations, and calls every callback once per iteration and once at the end; limits of zero are honoured.",
     ["inputs", "configurations"], "Tests never run into the limits.", SV, [("loops", INC + "prox-solver.hxx solve, innerLoop")],
     "every starting point and multiplier; limits 0 to 3", OUTB)
prop("C27", "Penalty, tolerances, multipliers and proximal target follow the BCL schedule",
     "A subproblem is iterated exactly until it is solved to its inner tolerance or the problem to the target tolerance; then, if the constraints are met to the current primal tolerance, the multiplier estimate of the chosen mode is accepted and the tolerances tightened, otherwise multipliers are kept, the penalty decreases by its factor down to its lower bound (and restarts when it is there) and the tolerances are reset for it. "
     "Tolerances never fall below their floors, all constraint sets get the solver's penalty, the proximal parameter decays, its target is the last point, and nothing of this changes within a subproblem.",
     ["inputs", "histories"], "Tests do not observe the schedule.", SV + [INC + "bcl-params.hpp"],
     [("schedule", INC + "prox-solver.hxx solve"), ("updates", INC + "prox-solver.hxx updatePenalty, updateTolerance*, setPenalty, setProxParameter")],
     "every parameter value (integer exponents) for the update functions; every starting point for the loop", OUTB + "; 3 direct updates")
prop("C28", "Each Newton direction solves the (correctly regularised) KKT system",
     "The step of every inner iteration solves the linearised optimality conditions of the proximal augmented Lagrangian subproblem for the current active set, in both KKT forms, with every linear solver back end and Hessian mode (second-order terms of the constraints enter only where the mode computes them); the Hessian is regularised by the first value of the correction sequence that gives the right inertia, "
     "the slope handed to the line search is the derivative of the merit function along the step, and the iterate moves by exactly the accepted fraction of the step.",
     ["inputs", "configurations"], "Tests only see final iterates.", SV + [INC + "ldlt-allocator.hpp"],
     [("system", INC + "prox-solver.hxx assembleKktMatrix, innerLoop"), ("regularisation", INC + "prox-solver.hxx innerLoop")],
     "every gradient, constraint value, multiplier, point and proximal target", "<= 2 variables, <= 3 constraint rows (sets, L1 penalty, product, a set that asks for second-order terms), vector space or chart manifold, fixed second-order data (4 Hessians)")
prop("C29", "Iterative refinement reports success only for small residuals",
     "iterativeRefinement returns true only if the infinity norm of the KKT residual at the returned step is below the tolerance, whatever the quality of the factorisation; it applies the factorisation to the residual at most max_refinement_steps times, recognises exact solutions, and leaves the system untouched.",
     ["inputs"], "Tests have exact factorisations.", SV, [("refinement", INC + "prox-solver.hxx iterativeRefinement")],
     "every right-hand side and tolerance", "systems of size <= 2, two factorisations, <= 2 refinements")
prop("C30", "Solving depends only on the problem, the options and the starting point",
     "A solver that has been used before - for other starting points, under other options, interrupted by an exception of a user function, or set up again - returns exactly what a fresh solver returns for the same problem, options, starting point and multipliers, and multipliers may be given as one vector or per constraint (a wrong number of them is rejected).",
     ["histories", "inputs"], "Tests use every solver once.", SV, [("initialisation", INC + "prox-solver.hxx solve")],
     "every starting point and multiplier, 5 kinds of earlier use; Hessian modes other than BFGS", OUTB)
prop("C31", "Problem, workspace and results keep every constraint in its own block",
     "Offsets and dimensions partition the stacked constraint vector, also after adding constraints; every per-constraint view aliases exactly its block of the stacked storage; evaluating values, Jacobians and vector-Hessian products writes those of constraint i to block i and nowhere else; point and tangent vectors have the sizes of the space.",
     ["configurations", "inputs"], "Tests use one or two constraints of equal sizes.", [INC + "workspace.hpp", INC + "results.hpp", INC + "problem-base.hpp"],
     [("layout", INC + "workspace.hpp WorkspaceTpl"), ("evaluation", INC + "problem-base.hpp")],
     "every value; every block structure within the bound", "<= 3 constraints of dimension <= 2 (quick) / 3 (thorough), 2 tangent dimensions")
prop("C34", "Every accepted step decreases the merit function by the Armijo condition",
     "For arbitrary cost and constraint values at the trial points (some of which may throw), an inner iteration evaluates trial points only along the step at halved lengths, accepts a point it evaluated without error, reports the merit of exactly that point, and that merit satisfies the Armijo condition relative to the current point unless the step budget is exhausted.",
     ["inputs", "fault_sequences"], "Tests use smooth functions that accept full steps.", SV + LSH, [("line search in the solver", INC + "prox-solver.hxx innerLoop, tryStep")],
     "every function value at every trial point; any single trial failing", "1 variable (also on a manifold with nx=2, ndx=1), <= 1 constraint row, bisection, <= 2 reductions")
prop("C35", "Polymorphic values copy deeply, move out completely and keep their type",
     "After any sequence of copies, moves, swaps, temporaries, container operations and assignments through constraint objects, every polymorphic value has the dynamic type and state a value would have; changing one never changes another; moved-from values are recognisable; problems copy their constraint sets, so solvers of a copy do not disturb the original.",
     ["histories"], "Tests copy once.", [INC + "third-party/polymorphic_cxx14.hpp", INC + "constraint-set.hpp", INC + "problem-base.hpp"],
     [("value semantics", INC + "third-party/polymorphic_cxx14.hpp"), ("constraint objects", INC + "constraint-set.hpp ConstraintObjectTpl")],
     "every sequence of operations and every state within the bound", "3 values, 2 (quick) / 3 (thorough) operations")
prop("C36", "The history callback records each iteration as it was",
     "For every sequence of calls and storage options, the history callback stores one record per call - point, multipliers and their per-constraint views, value, residuals, step, slope and line-search samples - equal to the state at the time of the call and unaffected by later iterations.",
     ["histories", "configurations"], "No test reads the history after the solver moved on.", [INC + "helpers/history-callback.hpp"], [("call", INC + "helpers/history-callback.hpp")],
     "every state at every call", "3 (quick) / 5 (thorough) calls, <= 2 constraints")
prop("C37", "In BFGS mode the Newton steps use the quasi-Newton Hessian of the iterates",
     "In BFGS mode setup() starts from the identity and forgets earlier updates; every iteration evaluates the gradient at its iterate, updates the Hessian with the difference to the previous iterate and gradient (or leaves it, when the curvature is not positive), and its step solves the Newton system with exactly that Hessian. "
     "The mode is refused on spaces whose points and tangent vectors differ in size, and when setup() was done for another mode.",
     ["inputs", "histories"], "No test runs the mode on functions whose curvature changes sign.", SV + [INC + "bfgs-strategy.hpp"],
     [("mode", INC + "prox-solver.hxx computeProblemDerivatives"), ("set-up", INC + "prox-solver.hpp setup"), ("update", INC + "bfgs-strategy.hpp BFGSStrategy::update")],
     "every starting point and every gradient at each iterate (curvatures of at least 2^-20 relative to the step, or not positive)", "1 variable, 2 iterations (3 from a fixed start); 2 variables, 2 iterations, gradients on 3 lines; <= 1 equality")
prop("C38", "A non-finite value from a user function is reported or survived, never returned",
     "When any user function (cost, gradient, Hessian, constraint value, constraint Jacobian) returns a NaN or an infinity at any call, solve() either reports it with a RuntimeError or goes on; no access is out of bounds, callbacks and the caller only ever see finite points and multipliers, and SUCCESS is never based on a non-finite gradient, constraint value or Jacobian. When all values are finite nothing is reported.",
     ["inputs", "fault_sequences"], "Tests have no failing functions.", SV + [INC + "math.hpp", INC + "linalg/bunchkaufman.hpp"],
     [("guards", INC + "prox-solver.hxx innerLoop"), ("detection", INC + "math.hpp check_value")],
     "every starting point; any single entry of any function, NaN or +infinity, at any of the first calls", "1-2 variables, <= 2 constraint rows, first 3 calls of each function, 2 iterations, 3 back ends")
prop("C39", "Invalid requests are rejected and callbacks follow their protocol",
     "Compositions, casts to costs, products of sets, targets, linear solver choices and signatures that do not fit are rejected with a RuntimeError - exactly those - and so is solving before setup() or with multipliers for another number of constraints; what is accepted has the stated dimensions and values. "
     "Callbacks are called in the order of registration, once per iteration and once at the end, until they are removed, and their exceptions reach the caller at once.",
     ["configurations", "histories"], "Tests only make valid requests.", SV + [INC + "function-ops.hpp", INC + "cost-function.hpp", INC + "ldlt-allocator.hpp", INC + "modelling/constraints/constraint-set-product.hpp", INC + "modelling/residuals/state-residual.hpp"],
     [("composition", INC + "function-ops.hpp ComposeFunctionTpl"), ("casts", INC + "cost-function.hpp downcast_function_to_cost"), ("linear solvers", INC + "ldlt-allocator.hpp"), ("callbacks", INC + "prox-solver.hpp registerCallback, invokeCallbacks")],
     "every size and value within the bound", "sizes <= 3, 3 registrations or removals")
prop("C40", "Lie-group, multibody and rigid-motion wrappers are the operations they wrap",
     "A wrapped Lie group or multibody configuration space (and its phase space) has the dimensions, neutral and random elements, normalisation test, integrate, difference, interpolate, Jacobians and transport of the group or model it was built from, "
     "argument by argument, whichever way it was constructed, copied or assigned and whatever happens to the original afterwards; vectors too short are not normalized. "
     "The rigid-transformation residual maps a point p to Rp + t, and its Jacobian [R, -R[p]x] is the derivative of that value on SE(3).",
     ["inputs", "configurations"], "The code is only built when Pinocchio is present; its tests draw random elements of a few groups.",
     [INC + "modelling/spaces/pinocchio-groups.hpp", INC + "modelling/spaces/multibody.hpp", INC + "modelling/residuals/rigid-transform-point.hpp"],
     [("group wrapper", INC + "modelling/spaces/pinocchio-groups.hpp PinocchioLieGroup"), ("multibody spaces", INC + "modelling/spaces/multibody.hpp"), ("point residual", INC + "modelling/residuals/rigid-transform-point.hpp")],
     "every real point, velocity, weight and every group of a one-parameter family of non-commutative groups standing in for Pinocchio's; every translation, point and quaternion", "7 ways of building the spaces; derivative at 12 exact unit quaternions; exact real arithmetic; Pinocchio itself is assumed")
prop("C41", "The ProxSuite LDLT back end solves with the factorisation it wraps",
     "When ProxSuite support is enabled, choosing its dense LDLT gives a linear solver which factorises the matrix it is given, reports success, the pivots, signature and reconstructed matrix of that factorisation, "
     "and solves for any number of right-hand sides up to the number announced, within the workspace it reserved, for every permutation; components with a zero pivot are dropped, not divided by zero; copies and later matrices behave the same.",
     ["inputs", "configurations", "histories"], "The code is only built when ProxSuite is present; its tests draw random matrices.",
     [INC + "linalg/proxsuite-ldlt-wrap.hpp", INC + "ldlt-allocator.hpp"],
     [("wrapper", INC + "linalg/proxsuite-ldlt-wrap.hpp ProxSuiteLDLTWrapper, solve_impl"), ("selection", INC + "ldlt-allocator.hpp allocate_ldlt_from_sizes, ComputeSignatureVisitor")],
     "every unit lower factor, diagonal, permutation and right-hand side", "size <= 4, at most 5 right-hand sides; exact real arithmetic; the factorisation itself is a stand-in for ProxSuite's, assumed correct")
NAF = ["quantifier over every group element", "needs pinocchio's Lie groups"]
prop("N01", "Multibody and Lie-group spaces satisfy the manifold laws",
     "The pinocchio-based spaces (SO(2), SO(3), SE(2), SE(3), multibody configuration and phase space) satisfy integrate/difference inversion and Jacobian consistency.",
     ["inputs"], "Sampled elements only.", [INC + "modelling/spaces/pinocchio-groups.hpp", INC + "modelling/spaces/multibody.hpp"], [("wrappers", INC + "modelling/spaces/pinocchio-groups.hpp")], "every group element", "not claimed")
NA.append(("N01", "the laws are those of Pinocchio's own groups, which is not installed and whose operations are transcendental (sin, cos, atan2), outside the decidable arithmetic used; the repository's wrappers are checked in C40 with a stand-in for Pinocchio"))
prop("N02", "The CasADi and Python wrappers preserve the native behaviour",
     "The CasADi function wrapper and the Python bindings compute what the native interfaces compute.",
     ["inputs", "configurations"], "Tests cover single calls.", ["bindings/python/"], [("wrappers", "bindings/python/src/")], "every input", "not claimed")
NA.append(("N02", "CasADi, eigenpy and Boost.Python headers are absent from the sandbox: the code cannot be compiled, hence not encoded"))
