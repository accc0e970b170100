"""Which harness runs decide which property, and their bounds."""
from driver import Run

REAL = "exact real arithmetic: rounding of +,-,*,/ is outside the claim"
FP = "bit-precise IEEE-754 binary64 (runs marked /fp)"
SPECS = {}


def spec(pid, runs, assumptions=()):
    SPECS[pid] = {"runs": runs, "assumptions": [REAL, *assumptions]}


C = "constraints.cpp"
spec("C01", [
    Run(C, "projection", {"n": 2}, must_reach=["end"], note="dimension 2, every real input, finite or infinite box bounds"),
    Run(C, "projection", {"n": 1}, fp=True, must_reach=["end"], note="dimension 1, every non-NaN double"),
    Run(C, "projection_alias", note="dimension 2, in-place use"),
    Run(C, "projection", {"n": 3}, tier="thorough", note="dimension 3"),
], [FP])
spec("C02", [Run(C, "moreau_decomposition", {"n": 2}, must_reach=["end"], note="dimension 2")])
spec("C03", [Run(C, "l1_prox", {"n": 2}, must_reach=["end"], note="dimension 2"),
             Run(C, "l1_prox", {"n": 1}, fp=True, must_reach=["end"], note="dimension 1, all doubles")], [FP])
spec("C04", [Run(C, "jacobian_derivative", {"n": 2}, must_reach=["end"], note="dimension 2"),
             Run(C, "jacobian_general", {"n": 2}, must_reach=["end"], note="dimension 2, 2x3 Jacobians")])
spec("C05", [Run(C, "moreau_envelope", {"n": 2}, must_reach=["end"], note="dimension 2"),
             Run(C, "moreau_envelope", {"n": 1}, must_reach=["end"], note="dimension 1, infimum")])
spec("C06", [Run(C, "product", must_reach=["end"], note="9 component patterns (two with an empty block), total dimension <= 4"),
             Run(C, "product_nested", note="nested product of total dimension 3")])

MF = "manifolds.cpp"
spec("C08", [Run(MF, "laws", must_reach=["end"], note="8 spaces (vector spaces, products, tangent bundles, nested) of dimension <= 5; interpolation weight symbolic"),
             Run(MF, "curved", must_reach=["end"], note="6 spaces (products and bundles) over a user's non-commutative manifold with nx=4, ndx=3")])
spec("C09", [Run(MF, "jacobians", must_reach=["end"], note="the same 8 spaces; transport of 2-column matrices"),
             Run(MF, "product", must_reach=["end"], note="4 component patterns (1 to 3 components, nx<>ndx) x 7 ways of building the product: derivatives and transport act componentwise"),
             Run(MF, "curved_jacobians", must_reach=["end"], note="6 spaces over a user's non-commutative manifold with nx=4, ndx=3"),
             Run(MF, "bundle", must_reach=["end"], note="tangent bundle of an arbitrary base with nx=3, ndx=2")])
spec("C10", [Run(MF, "product", must_reach=["end"], note="4 component patterns (1 to 3 components, nx<>ndx) x 7 ways of building the product"),
             Run(MF, "normalized", must_reach=["end"], note="the same patterns")])

CO = "costs.cpp"
spec("C11", [Run(CO, "quad_residual", must_reach=["end"], note="2 variables, 2 residuals (linear or quadratic), symmetric weights, any of 5 earlier uses at other points"),
             Run(CO, "distance", must_reach=["end"], note="vector space and product of dimension 2, target changed between queries"),
             Run(CO, "curved_distance", must_reach=["end"], note="4 curved spaces with nx<>ndx of tangent dimension <= 6, derivatives along geodesics, target changed between queries"),
             Run(CO, "sum_deriv", must_reach=["end"], note="weighted and nested sums of stateful costs")])
spec("C12", [Run(CO, "algebra", must_reach=["end"], note="15 expressions over three arbitrary costs and two symbolic weights")])
spec("C13", [Run(CO, "compose_fn", must_reach=["end"], note="quadratic maps R^3 -> R^2 -> R^2, queried at two points"),
             Run(CO, "linear_fn", must_reach=["end"], note="linear and difference residuals, 3 variables"),
             Run(CO, "curved_residuals", must_reach=["end"], note="difference residuals, linear functions of them and compositions over 4 curved spaces with nx<>ndx"),
             Run(CO, "adapters", must_reach=["end"], note="quadratic function of 2 variables")])
spec("C14", [Run(CO, "finite_diff", must_reach=["end"], note="quadratic functions of 2 variables"),
             Run(CO, "curved_fd", must_reach=["end"], note="quadratic functions over 2 curved spaces with nx<>ndx, two points"),
             Run(CO, "finite_diff_error", must_reach=["end"], note="cubic functions of 2 variables")])

LA, BL = "linalg.cpp", "blockldlt.cpp"
spec("C15", [Run(LA, "dense_ldlt", {"n": 4}, must_reach=["end"], note="every matrix of size <= 4 with nonzero leading minors: factors and reconstruction"),
             Run(LA, "dense_ldlt", {"n": 2, "solve": 1}, must_reach=["end"], note="size <= 2: solves with one or two right-hand sides"),
             Run(LA, "dense_ldlt_blocked", must_reach=["end"], note="size 131 (recursive path), 4 coupled rows around the split, the others concrete"),
             Run(LA, "dense_ldlt", {"n": 3, "solve": 1}, tier="thorough", note="size <= 3 with solves")])
spec("C16", [Run(LA, "bunch_kaufman", {"n": 2}, must_reach=["success", "failure"], note="every symmetric matrix of size 2"),
             Run(LA, "bunch_kaufman", {"n": 1}, must_reach=["success", "failure"], note="size 1"),
             Run(LA, "bunch_kaufman", {"n": 3}, must_reach=["success", "failure"], note="symmetric matrices of size 3 in four patterns (4 or 5 free entries)"),
             Run(LA, "bk_blocked", must_reach=["end"], note="size 36 (blocked path), 8 positions of an interacting pair of rows, one entry symbolic at a time"),
             Run(LA, "bk_interchange", {"n": 6, "entries": 0}, must_reach=["end"], note="size 6: 18 dense matrices with an interchange at the first or second column for 1x1 and 2x2 pivots, every right-hand side"),
             Run(LA, "bk_interchange", {"n": 4}, must_reach=["end"], note="the same at size 4 with one symbolic entry of the matrix"),
             Run(LA, "bk_blocked_dense", must_reach=["end"], note="size 35 (blocked path): 3 dense matrices with many interchanges, a line of right-hand sides"),
             Run(LA, "bunch_kaufman", {"n": 3, "pattern": 0}, tier="thorough", note="every symmetric matrix of size 3")])
spec("C17", [Run(BL, "block2", must_reach=["end", "rejected"], note="2 blocks of sizes (2,2),(1,2),(3,1),(2,3), every structure and permutation, every matrix with nonzero pivots"),
             Run(BL, "block3", {"kinds": 5, "size": 0}, must_reach=["end"], note="3 blocks of sizes (2,1,2)"),
             Run(BL, "block3", {"kinds": 5, "size": 1}, must_reach=["end"], note="3 blocks of sizes (1,2,1)"),
             Run(BL, "block3", {"kinds": 3, "size": 2, "one": 1}, must_reach=["end"], note="3 blocks of size 2 without triangular blocks, one block symbolic at a time"),
             Run(BL, "block4", {"size": 0}, must_reach=["end"], note="4 blocks of size 1, every zero/dense structure, 10 permutations"),
             Run(BL, "block4", {"size": 1, "one": 1}, tier="thorough", note="4 blocks of sizes (1,2,1,2), one block symbolic at a time"),
             Run(BL, "block3", {"kinds": 5, "size": 2, "one": 1}, tier="thorough", note="3 blocks of size 2, every structure")])
spec("C18", [Run(LA, "bk_signature", {"n": 2}, must_reach=["end"], note="Bunch-Kaufman, every symmetric matrix of size 2"),
             Run(BL, "kkt_backends", {"backend": 0, "nx": 2, "ncons": 5}, must_reach=["end"], note="dense LDLT, KKT matrices of up to 2 variables and 3 constraint rows"),
             Run(BL, "kkt_backends", {"backend": 1, "nx": 3, "ncons": 5}, must_reach=["end"], note="block LDLT, up to 3 variables and 3 constraint rows"),
             Run(BL, "kkt_backends", {"backend": 2, "nx": 1}, must_reach=["end"], note="Bunch-Kaufman, 1 variable, 1 constraint row"),
             Run(BL, "kkt_backends", {"backend": 3, "nx": 1}, must_reach=["end"], note="Eigen LDLT, 1 variable, 1 constraint row"),
             Run(LA, "bk_signature", {"n": 3}, tier="thorough", note="Bunch-Kaufman, size 3")])
spec("C19", [Run(LA, "dense_history", must_reach=["end"], note="dense LDLT, sizes <= 3: refactorised, copied, assigned, swapped"),
             Run(LA, "bk_history", must_reach=["after success", "after failure"], note="Bunch-Kaufman, sizes <= 2, after regular and singular matrices"),
             Run(BL, "block_history", must_reach=["end"], note="block LDLT with blocks (1,2,1), 3 structures, 7 kinds of earlier use")])
spec("C20", [Run(BL, "gemmt_kernels", must_reach=["end"], note="all 25 structure pairs, sizes 1..3, free-standing operands and blocks of one matrix"),
             Run(BL, "block_trisolve", must_reach=["end"], note="2 blocks of sizes 1..3 with every structure, 3 blocks with zero/dense off-diagonal blocks; lower and transposed")])
spec("C21", [Run(BL, "kind_algebra", {"n": 3}, must_reach=["end"], note="all 25 pairs of kinds, 3x3 blocks"),
             Run(BL, "symbolic_llt", must_reach=["end"], note="3 blocks, every structure: pattern of the factor, permutation search"),
             Run(BL, "symbolic_llt", {"nb": 4}, must_reach=["end"], note="4 blocks, every zero/dense/diagonal structure")])

LSF = "linesearch.cpp"
spec("C22", [Run(LSF, "bfgs_update", {"n": 2, "k": 1}, must_reach=["updated", "skipped"], note="2 variables, one update from an arbitrary symmetric matrix, both types"),
             Run(LSF, "bfgs_update", {"n": 1, "k": 2}, must_reach=["updated", "skipped"], note="1 variable, two updates"),
             Run(LSF, "bfgs_update", {"n": 3, "k": 1}, tier="thorough", note="3 variables")])
spec("C23", [Run(LSF, "polynomial", must_reach=["end"], note="degree <= 4"),
             Run(LSF, "ls_interpolation", {"cubic": 0}, must_reach=["end"], note="one quadratic step, every phi(0), phi'(0) < 0 and rejected phi(1)"),
             Run(LSF, "ls_interpolation", {"cubic": 1}, must_reach=["end", "interior", "local minimum"], note="three pairs phi(0), phi'(0), four values of phi(1), every rejected value at the second step")])
spec("C24", [Run(LSF, "ls_contract", {"kind": 0, "steps": 3, "nf": 4}, must_reach=["end", "error"], note="bisection, 3 reductions, any of the first 4 evaluations may throw"),
             Run(LSF, "ls_contract", {"kind": 3, "steps": 1, "nf": 3}, must_reach=["end", "error"], note="every interpolation, 1 reduction, 3 failing evaluations"),
             Run(LSF, "ls_contract", {"kind": 1, "steps": 2, "norm": 1, "nf": 2}, must_reach=["end"], note="quadratic, 2 reductions, 3 pairs phi(0), phi'(0), 3 pairs of contraction bounds, first value one of four"),
             Run(LSF, "ls_contract", {"kind": 2, "steps": 2, "norm": 1, "nf": 2}, must_reach=["end"], note="cubic, 2 reductions, the same"),
             Run(LSF, "ls_nonfinite", must_reach=["end"], note="NaN or infinite merit at the first one or two steps"),
             Run(LSF, "ls_contract", {"kind": 1, "steps": 2}, tier="thorough", deadline=1500, note="quadratic, 2 reductions, everything symbolic")])
spec("C33", [Run(LSF, "math_norm", must_reach=["end"], note="up to 3 entries"),
             Run(LSF, "math_scalar", must_reach=["end"], note="every real"),
             Run(LSF, "nonfinite", must_reach=["end"], note="matrices up to 3x2 with one infinite or NaN entry at any position")])

SO = "solver.cpp"
spec("C07", [Run(SO, "merit", ite=True, must_reach=["end"], note="2 variables, 6 constraint patterns, default dual weight"),
             Run(SO, "merit", {"beta": 1, "n": 1}, ite=True, must_reach=["end"], note="gradient with setDualPenalty(0.75)"),
             Run(SO, "merit", {"chart": 1}, ite=True, must_reach=["end"], note="the same patterns on a manifold with nx=3, ndx=2"),
             Run(SO, "merit", {"pattern": 8, "n": 1}, ite=True, must_reach=["end"], note="L1 penalty"),
             Run(SO, "merit", {"pattern": 10, "n": 1}, ite=True, must_reach=["end"], note="L1 penalty and equality"),
             Run(SO, "merit", {"pattern": 11, "n": 1, "fixmu": 1}, ite=True, must_reach=["end"], note="product of equality, orthant and L1, fixed penalty parameter"),
             Run(SO, "merit", {"from": 8, "npat": 3}, ite=True, tier="thorough", deadline=3000, note="2 variables, L1 and products")])
spec("C32", [Run(SO, "multipliers", ite=True, must_reach=["end"], note="1 variable, 6 constraint patterns, both KKT forms, 3 update modes"),
             Run(SO, "multipliers", {"from": 8, "npat": 1}, ite=True, must_reach=["end"], note="L1 penalty"),
             Run(SO, "multipliers", {"from": 11, "npat": 1}, ite=True, must_reach=["end"], note="product of equality, orthant and L1"),
             Run(SO, "multipliers", {"from": 8, "npat": 5}, ite=True, tier="thorough", deadline=3000, note="mixed L1 and product constraints")])
spec("C25", [Run(SO, "outer", {"which": 1}, ite=True, must_reach=["end", "success", "limit"], note="1 variable, equality / orthant / box, both KKT forms, 3 update modes, with and without proximal term; every starting point and multiplier, 2 iterations, 2 outer iterations"),
             Run(SO, "outer", {"which": 1, "npat": 1, "iters": 3, "al": 3, "alldata": 1}, ite=True, must_reach=["end", "success"], note="equality, 3 iterations, 3 problems"),
             Run(SO, "outer", {"which": 1, "pattern": 8}, ite=True, must_reach=["end", "success"], note="L1 penalty, 2 iterations"),
             Run(SO, "outer", {"which": 1, "pattern": 3}, ite=True, must_reach=["end", "success"], note="equality and inequality, 2 iterations"),
             Run(SO, "outer", {"which": 1, "chart": 1, "npat": 2}, ite=True, must_reach=["end", "success"], note="equality / orthant on a manifold with nx=2, ndx=1"),
             Run(SO, "outer", {"which": 1, "npat": 4, "iters": 3, "al": 3, "loose": 0, "alldata": 1}, ite=True, tier="thorough", deadline=5000, note="also mixed constraints, 3 iterations, tight tolerance")])
spec("C26", [Run(SO, "outer", {"which": 2}, ite=True, must_reach=["end", "success", "limit"], note="as for C25"),
             Run(SO, "outer", {"which": 2, "npat": 1, "iters": 3, "al": 1}, ite=True, must_reach=["end"], note="equality, 1 outer iteration"),
             Run(SO, "outer", {"which": 2, "pattern": 3}, ite=True, must_reach=["end"], note="equality and inequality"),
             Run(SO, "outer", {"which": 2, "iters": 0}, must_reach=["no iterations"], note="no iteration allowed"),
             Run(SO, "outer", {"which": 2, "al": 0}, must_reach=["no iterations"], note="no outer iteration allowed"),
             Run(SO, "outer", {"which": 2, "npat": 3, "iters": 3, "al": 3, "alldata": 1}, ite=True, tier="thorough", deadline=5000, note="3 iterations, 3 outer iterations")])
spec("C27", [Run(SO, "tolerances", {"steps": 3}, ite=True, must_reach=["end"], note="every parameter value, integer exponents, 3 updates"),
             Run(SO, "outer", {"which": 4}, ite=True, must_reach=["end", "multipliers accepted", "penalty decreased"], note="as for C25"),
             Run(SO, "outer", {"which": 4, "npat": 1, "iters": 3, "al": 4, "alldata": 1}, ite=True, must_reach=["end"], note="equality, 4 outer iterations"),
             Run(SO, "outer", {"which": 4, "pattern": 3}, ite=True, must_reach=["end", "multipliers accepted"], note="equality and inequality"),
             Run(SO, "outer", {"which": 4, "chart": 1, "npat": 2}, ite=True, must_reach=["end", "multipliers accepted"], note="equality / orthant on a manifold with nx=2, ndx=1"),
             Run(SO, "outer", {"which": 4, "pattern": 8}, ite=True, must_reach=["end"], tier="thorough", note="L1 penalty"),
             Run(SO, "outer", {"which": 4, "npat": 4, "iters": 3, "al": 3, "alldata": 1}, ite=True, tier="thorough", deadline=5000, note="3 iterations, 3 outer iterations")])
spec("C28", [Run(SO, "newton_step", ite=True, must_reach=["end", "regularised"], note="1 variable, 6 constraint patterns, 4 Hessians (one needs one, one two corrections), dense LDLT"),
             Run(SO, "newton_step", {"mode": 1, "npat": 8}, ite=True, must_reach=["end", "regularised"], note="exact constraint Hessians, constraint values on either side, 8 patterns"),
             Run(SO, "newton_step", {"mode": 1, "approx": 1, "from": 13, "npat": 2}, ite=True, must_reach=["end", "regularised"], note="a set that asks for second-order terms, Gauss-Newton and identity modes, leftovers of an earlier solve"),
             Run(SO, "newton_step", {"n": 2, "pattern": 3}, ite=True, must_reach=["end"], note="2 variables, equality and inequality"),
             Run(SO, "newton_step", {"n": 2, "pattern": 3, "ldlt": 1}, ite=True, must_reach=["end"], note="Bunch-Kaufman"),
             Run(SO, "newton_step", {"ldlt": 2, "npat": 4}, ite=True, must_reach=["end"], note="block LDLT"),
             Run(SO, "newton_step", {"ldlt": 3, "npat": 4}, ite=True, must_reach=["end"], note="Eigen's LDLT"),
             Run(SO, "newton_step", {"chart": 1}, ite=True, must_reach=["end"], note="1 variable, 6 patterns, on a manifold with nx=2, ndx=1"),
             Run(SO, "newton_step", {"pattern": 9, "fixh": 1}, ite=True, must_reach=["end"], note="product of an orthant and an L1 penalty"),
             Run(SO, "newton_step", {"from": 8, "npat": 3}, ite=True, tier="thorough", deadline=3000, note="L1 penalty, products, mixed"),
             Run(SO, "newton_step", {"n": 2, "npat": 6, "ldlt": 1}, ite=True, tier="thorough", deadline=3000, note="2 variables, Bunch-Kaufman, every pattern")])
spec("C29", [Run(SO, "refinement", ite=True, must_reach=["end", "accurate", "inaccurate"], note="systems of size 1 and 2, exact or perturbed factorisation, every right-hand side and tolerance, <= 2 refinements")])
spec("C30", [Run(SO, "resolve", {"npat": 2}, ite=True, must_reach=["end", "interrupted"], note="1 variable, equality / orthant; 5 kinds of earlier use; every starting point; 2 iterations"),
             Run(SO, "resolve", {"pattern": 0, "approx": 1, "iters": 1}, ite=True, must_reach=["end", "interrupted"], note="equality; every Hessian mode; 1 iteration"),
             Run(SO, "resolve", {"pattern": 1, "approx": 1, "iters": 1}, ite=True, must_reach=["end", "interrupted"], tier="thorough", deadline=2000, note="orthant; every Hessian mode; 1 iteration"),
             Run(SO, "resolve", {"npat": 3, "full": 1}, ite=True, tier="thorough", deadline=5000, note="also a box, all update modes")])
ST = "state.cpp"
spec("C31", [Run(ST, "layout", must_reach=["end"], note="0 to 3 constraints of dimension 1 or 2, on spaces with equal or different point and tangent sizes, last constraint given or added later"),
             Run(ST, "layout", {"dims": 3}, tier="thorough", note="dimensions 1 to 3")])
spec("C34", [Run(SO, "merit_decrease", {"pattern": 0, "throws": 1}, ite=True, must_reach=["end", "budget used"], note="equality constraint, arbitrary function values at every new point, any trial may throw, 1 reduction"),
             Run(SO, "merit_decrease", {"pattern": 5, "throws": 1, "steps": 2}, ite=True, must_reach=["end"], note="no constraint, 2 reductions"),
             Run(SO, "merit_decrease", {"pattern": 0, "chart": 1}, ite=True, must_reach=["end"], note="equality on a manifold with nx=2, ndx=1"),
             Run(SO, "merit_decrease", {"pattern": 8}, ite=True, tier="thorough", deadline=3000, note="L1 penalty"),
             Run(SO, "merit_decrease", {"pattern": 1}, ite=True, must_reach=["end"], note="inequality constraint"),
             Run(SO, "merit_decrease", {"pattern": 2, "throws": 1, "steps": 2}, ite=True, tier="thorough", deadline=3000, note="box constraint, 2 reductions")])
spec("C35", [Run(ST, "values", must_reach=["end"], note="3 values of 3 dynamic types, every sequence of 2 out of 9 operations (copy, move, swap, temporaries, containers, constraint objects)"),
             Run(ST, "values_in_place", must_reach=["end"], note="in-place construction"),
             Run(ST, "problem_copy", must_reach=["end"], note="problems with 4 constraint patterns"),
             Run(ST, "values", {"steps": 3}, tier="thorough", deadline=3000, note="sequences of 3 operations")])
spec("C36", [Run(ST, "history", must_reach=["end"], note="3 calls, 5 constraint patterns, all storage options, <= 3 line-search samples"),
             Run(ST, "history", {"calls": 5}, tier="thorough", note="5 calls")])
MO = "modes.cpp"
spec("C37", [Run(MO, "bfgs_steps", ite=True, must_reach=["end", "updated", "skipped"], note="1 variable, no constraint, every starting point and gradient at the iterates, 2 iterations, 3 histories"),
             Run(MO, "bfgs_steps", {"iters": 3, "fixstart": 1}, ite=True, must_reach=["end", "updated"], note="3 iterations from a fixed first iterate"),
             Run(MO, "bfgs_steps", {"pattern": 0, "fixstart": 1}, ite=True, must_reach=["end", "updated"], note="with an equality constraint"),
             Run(MO, "bfgs_steps", {"n": 2}, ite=True, must_reach=["end", "updated"], note="2 variables, gradients on 3 lines"),
             Run(MO, "bfgs_steps", {"n": 2, "ldlt": 1}, ite=True, must_reach=["end", "updated"], note="2 variables, Bunch-Kaufman"),
             Run(MO, "bfgs_usage", must_reach=["end", "refused", "not Euclidean"], note="spaces with equal and different point and tangent sizes, setup() in this mode or before"),
             Run(MO, "bfgs_steps", {"pattern": 0, "iters": 3, "fixstart": 1}, ite=True, tier="thorough", deadline=2000, note="equality constraint, 3 iterations")])
spec("C38", [Run(MO, "nonfinite_functions", {"pat": 0, "iters": 2, "calls": 3}, ite=True, must_reach=["reported", "survived"], note="two equality rows, any one of the first 3 calls of any function, 2 iterations"),
             Run(MO, "nonfinite_functions", {"pat": 2, "iters": 2, "calls": 3}, ite=True, must_reach=["reported"], note="inequality and equality, 2 iterations"),
             Run(MO, "nonfinite_functions", {"pat": 1, "iters": 1, "calls": 1}, ite=True, must_reach=["reported"], note="two inequality rows"),
             Run(MO, "nonfinite_functions", {"pat": 3, "iters": 2}, ite=True, must_reach=["reported"], note="box"),
             Run(MO, "nonfinite_functions", {"pat": 4, "iters": 1, "calls": 1}, ite=True, must_reach=["reported"], note="L1 penalty"),
             Run(MO, "nonfinite_functions", {"pat": 0, "iters": 1, "n": 2}, ite=True, must_reach=["reported"], note="2 variables"),
             Run(MO, "nonfinite_functions", {"pat": 0, "iters": 2, "ldlt": 0}, ite=True, must_reach=["reported"], note="dense LDLT"),
             Run(MO, "nonfinite_functions", {"pat": 2, "iters": 2, "ldlt": 2}, ite=True, must_reach=["reported"], note="block LDLT"),
             Run(MO, "nonfinite_functions", {"pat": 1, "iters": 2, "calls": 3}, ite=True, tier="thorough", deadline=3000, note="two inequality rows, 2 iterations")])
spec("C40", [Run("groups.cpp", "wrappers", must_reach=["end"], note="a Lie group, a multibody configuration space and its phase space over a stand-in for Pinocchio, 7 ways of building them"),
             Run("groups.cpp", "models", must_reach=["end"], note="ownership of the model, parts of the phase space"),
             Run("groups.cpp", "rigid_transform", must_reach=["end"], note="value and Jacobian for every translation, quaternion and point; derivative at 12 unit quaternions")])
PL = "psldlt.cpp"
spec("C41", [Run(PL, "wrapper", {"n": 4}, must_reach=["end"], note="every factorisation of size <= 4 with nonzero pivots, every permutation, up to 5 right-hand sides"),
             Run(PL, "wrapper", {"n": 2, "second": 1}, must_reach=["end"], note="size <= 2: a second matrix and a copy"),
             Run(PL, "zero_pivot", must_reach=["end"], note="size 2 with one or two zero pivots, every right-hand side"),
             Run(PL, "variant", must_reach=["end"], note="size 3: selected among the linear solvers, signature and solution through the visitors"),
             Run(PL, "wrapper", {"n": 3, "second": 1}, tier="thorough", note="size <= 3: a second matrix and a copy")])
spec("C39", [Run(MO, "requests", must_reach=["end"], note="compositions, casts to costs, products of sets, targets, linear solvers, signatures, set-up: every combination of sizes up to 3"),
             Run(MO, "callbacks", must_reach=["end"], note="every sequence of 3 registrations or removals, exceptions")])
