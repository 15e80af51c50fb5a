#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so it stays easy to edit)."""
import json,os
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))

p("V01","Dense vector operations compute their mathematical definition, exactly framed",
  "Every element-wise operation of a dense vector (set, copy, scale, axpy, component-wise product, quotient, min, max, abs, sqrt, inverse, sign, their pattern-selected variants, and the bound-related updates) leaves element i of the destination equal to its mathematical definition applied to the element-i inputs and leaves every element outside its stated range or pattern, and every other operand, unchanged. Copies between vectors (whole, shifted, packed by pattern, scattered through an index map, to and from raw buffers) move exactly the specified elements to exactly the specified positions. The same operations on a compound vector are the operation on each of its parts.",
  ["inputs"],"all vector lengths, contents, patterns, index maps and offsets that satisfy the operation's stated preconditions",
  "the unit tests use constant-filled vectors of one length, so element-dependent, index-dependent and frame errors are invisible to them",
  ["src/LinAlg/hiopVectorPar.cpp","src/LinAlg/hiopVectorPar.hpp","src/LinAlg/hiopVectorIntSeq.cpp","src/LinAlg/hiopVector.hpp","src/LinAlg/hiopVectorCompoundPD.cpp"],
  [("hiopVectorPar element loops","src/LinAlg/hiopVectorPar.cpp"),("hiopVectorIntSeq","src/LinAlg/hiopVectorIntSeq.cpp")],
  [dict(name="data_",meaning="local elements",where="hiopVectorPar")],["every public hiopVector method"])
p("V02","Vector reductions are the exact reduction over all elements of all ranks",
  "Every reduction over a vector (norms, dot product, sum, minimum, selected minimum, counts, all-positive and pattern-match predicates, log-barrier and linear-damping sums, fraction-to-the-boundary step) returns the mathematical reduction over exactly the elements it is defined on, on every rank the same value for global reductions and only the rank's own part for local ones. Combining across ranks uses the reduction operator of the quantity on the rank's local partial result, and the operands are never modified. A reduction over a compound vector combines the reductions of all of its parts.",
  ["inputs","configurations"],"all vector contents, lengths (including zero), patterns and partitions over ranks",
  "tests reduce constant vectors, where a wrong index range, operator, start value or missing square cannot be distinguished, and run on at most two ranks",
  ["src/LinAlg/hiopVectorPar.cpp","src/LinAlg/hiopVectorCompoundPD.cpp"],[("reductions with MPI_Allreduce","src/LinAlg/hiopVectorPar.cpp")])
p("V03","Iterates stay strictly interior and steps never cross a bound",
  "Projecting a point into its bounds puts every bounded component strictly between its bounds whenever they are apart, and the fraction-to-the-boundary step is the largest step in (0,1] for which every slack and every bound multiplier keeps at least the fraction (1-tau) of its value. A step of that length applied to a positive slack or multiplier leaves it positive, the multiplier reset keeps each bound multiplier within the prescribed multiple of mu over its slack, and slacks pushed away from zero only ever grow.",
  ["inputs"],"all primal-dual points, directions, bound patterns and barrier parameters meeting the preconditions",
  "the solver drivers visit a handful of trajectories; the unit tests use constant data in which the blocking component is always the same",
  ["src/LinAlg/hiopVectorPar.cpp","src/LinAlg/hiopVectorCompoundPD.cpp","src/Optimization/hiopIterate.cpp"],
  [("projectIntoBounds_local / fractionToTheBdry_local / adjustDuals_plh","src/LinAlg/hiopVectorPar.cpp"),("fractionToTheBdry, takeStep_*, adjustDuals_primalLogHessian, adjust_small_slacks","src/Optimization/hiopIterate.cpp")])
p("V04","Slacks, iterate steps and barrier quantities match their definitions",
  "The slack of every bounded variable or constraint is its distance to that bound and is zero where there is no bound, primal and dual step updates add exactly the step length times the direction to every block of the iterate, and copying an iterate copies every block. The logarithmic barrier value, its gradient and the linear damping contributions equal their definition over exactly the bounded (respectively one-sided bounded) components.",
  ["inputs"],"all iterates, directions, bound patterns and parameters",
  "drivers only compare the final objective; an error in one block changes the trajectory but usually not the converged value",
  ["src/Optimization/hiopIterate.cpp","src/Optimization/hiopLogBarProblem.hpp","src/LinAlg/hiopVectorPar.cpp"],
  [("hiopIterate","src/Optimization/hiopIterate.cpp"),("hiopLogBarProblem","src/Optimization/hiopLogBarProblem.hpp")])
p("V05","Residuals are the KKT conditions of the barrier problem",
  "Each residual block equals the corresponding optimality condition of the barrier problem at the iterate (stationarity in x and d, feasibility of equalities and inequalities, slack definitions, perturbed complementarity), with complementarity and slack blocks zero where the bound does not exist. The reported optimality, feasibility, complementarity and constraint-violation errors are the maximum norms of exactly those blocks, for the barrier problem with mu and for the original problem with mu equal to zero, and no residual block is left out.",
  ["inputs"],"all iterates, function/derivative values and bound patterns",
  "convergence of a driver does not reveal a residual block that is mis-signed only off the converged point, or a norm that omits a block that happens to be small",
  ["src/Optimization/hiopResidual.cpp","src/Optimization/hiopLogBarProblem.hpp"],
  [("hiopResidual::update, update_soc, compute_nlp_infeasib_onenorm, copyFrom","src/Optimization/hiopResidual.cpp")])
p("V06","Success is reported only when the requested tolerances are met",
  "The solver reports optimality only if the scaled optimality error of the original problem is within the tolerance and, when absolute tolerances are set, each absolute error is within its own; acceptable-level success is reported only after the configured number of consecutive iterates within the acceptable tolerance, and iteration limits and user stops are reported as such. The error on which the decision is taken is the maximum of the dual infeasibility, constraint violation and complementarity error divided by their scaling factors.",
  ["inputs","histories"],"all residual errors, tolerances, option settings and iteration histories",
  "driver tests end in success for well-behaved problems; a wrong success test would only be seen on problems that should not have been reported as solved",
  ["src/Optimization/hiopAlgFilterIPM.cpp"],[("checkTermination, evalNlpAndLogErrors","src/Optimization/hiopAlgFilterIPM.cpp")])
p("V07","Filter and line-search acceptance follow the filter rules",
  "A trial point is accepted only if its constraint violation is below the admissible maximum, it is not dominated (within the margins) by any pair ever put in the filter, and it satisfies the Armijo condition when the switching condition holds or sufficient decrease in violation or barrier objective otherwise. A pair added to the filter rejects from then on every point it dominates, and adding or resetting entries never makes the filter forget any other entry's rejections except on re-initialisation.",
  ["inputs","histories"],"all sequences of filter insertions and queries, all trial values and parameters",
  "no test exercises the filter or the acceptance rule directly; a driver run tries a few points",
  ["src/Optimization/hiopFilter.cpp","src/Optimization/hiopFilter.hpp","src/Optimization/hiopAlgFilterIPM.cpp"],
  [("hiopFilter::add/contains/reinitialize","src/Optimization/hiopFilter.cpp"),("accept_line_search_conditions","src/Optimization/hiopAlgFilterIPM.cpp")])
p("V08","The barrier parameter decreases by rule and never below its floor",
  "Each barrier update sets mu to the maximum of its floor (tied to the tolerances and the objective scaling) and the minimum of the linear and superlinear decrease, so that mu never drops below the floor and never increases from a value at or above it, sets tau to the maximum of its minimum and one minus mu, and reports whether anything changed, leaving mu and tau alone otherwise. In elastic mode the update also resets the bounds to the original ones relaxed by the amount prescribed for the new mu, and corrects slacks, bounds and bound multipliers of the iterate as the mode prescribes.",
  ["inputs","histories"],"all current values of mu, tolerances and options",
  "drivers only exercise the default options and converge under many wrong update rules",
  ["src/Optimization/hiopAlgFilterIPM.cpp","src/Optimization/hiopLogBarProblem.hpp"],[("update_log_barrier_params","src/Optimization/hiopAlgFilterIPM.cpp")])
p("V09","Inertia correction stays in range and accepts only the correct inertia",
  "A factorization is accepted only if it has exactly as many negative eigenvalues as there are constraints and no zero ones (or, inertia-free, is nonsingular); otherwise the regularization is increased by rule, from its initial value, within its minimum and maximum, and the correction fails only once the maximum would be exceeded. The primal regularizations of x and d stay equal to each other, as do those of the dual blocks, the vector form handed to the linear system equals the scalar values, and the last successful values are remembered.",
  ["inputs","histories"],"all sequences of factorization outcomes, option values and barrier parameters",
  "the drivers hit only a few of the correction paths and cannot observe a perturbation that is too large, out of range or inconsistent between blocks",
  ["src/Optimization/hiopPDPerturbation.cpp","src/Optimization/hiopPDPerturbation.hpp","src/Optimization/hiopFactAcceptor.cpp","src/Optimization/hiopKKTLinSys.cpp"],
  [("hiopPDPerturbation*","src/Optimization/hiopPDPerturbation.cpp"),("hiopFactAcceptor*::requireReFactorization","src/Optimization/hiopFactAcceptor.cpp")])
p("V10","Every variable bound and constraint is classified and distributed exactly once",
  "Each user constraint becomes exactly one internal equality or inequality, order preserved, with its bounds or right-hand side, its original index and its bound-existence flags recorded; each variable bound is flagged exactly when finite. The counts of bounded, lower-bounded, upper-bounded, fixed, equality and inequality entries used by the solver equal the number of flagged entries.",
  ["inputs"],"all bound vectors, including infinite, one-sided, two-sided and fixed entries, in any order",
  "the drivers use a fixed, regular pattern of bounds; orderings and mixtures they never exhibit select different code paths",
  ["src/Optimization/hiopNlpFormulation.cpp","src/LinAlg/hiopVectorPar.cpp"],[("process_bounds, process_constraints","src/Optimization/hiopNlpFormulation.cpp")])
p("V11","Fixed-variable removal, relaxation and bound relaxation are exact and invertible",
  "Removing fixed variables and restoring them is lossless: a reduced vector expanded to the user's space has the fixed values at the fixed positions and its own entries, in order, elsewhere, reducing that vector again gives the original, and gradients, Jacobian columns and bounds are reduced with the same map. Relaxing fixed variables or bounds moves every affected lower bound down and upper bound up by the prescribed amount and moves nothing else.",
  ["inputs"],"all bounds, fixed-variable sets, tolerances and vectors",
  "the drivers fix variables in one or two regular patterns and never check the intermediate vectors",
  ["src/Optimization/hiopNlpTransforms.cpp","src/Optimization/hiopNlpTransforms.hpp"],[("hiopFixedVarsRemover, hiopFixedVarsRelaxer, hiopBoundsRelaxer, hiopNlpTransformations","src/Optimization/hiopNlpTransforms.cpp")])
p("V12","Problem scaling is applied consistently and undone for the user",
  "With scaling on, objective, gradient, constraints, right-hand sides, inequality bounds and Jacobians the solver works with are the user's multiplied by the same factors, in the order of the internal equalities and inequalities. The factors follow from the derivatives at the starting point and the scaling options by rule; with the default targets they lie in (0,1] and bring the gradient and every constraint gradient down to the configured maximum. The objective value, variables and multipliers returned to the user after a solve, and those passed to the solution callback together with the constraint bodies, are those of the unscaled problem.",
  ["inputs","configurations"],"all gradients, Jacobians, multipliers and scaling options",
  "drivers are run with mild derivatives where all scaling factors are one; the effect of an inconsistent factor appears only for badly scaled problems",
  ["src/Optimization/hiopNlpTransforms.cpp","src/Optimization/hiopNlpTransforms.hpp","src/Optimization/hiopNlpFormulation.cpp","src/Optimization/hiopAlgFilterIPM.cpp"],[("hiopNLPObjGradScaling","src/Optimization/hiopNlpTransforms.cpp"),("apply_scaling, get_dual_solutions, user_callback_solution, user_x, user_obj","src/Optimization/hiopNlpFormulation.cpp")])
p("V21","The user's functions are evaluated at the right point, with the right arguments, and failures are passed on",
  "An evaluation of the objective, gradient, constraints or Jacobian at an iterate calls the user's callback with the user's problem sizes, the iterate's variables in the user's space, and new_x true only for the first evaluation at a point. Constraint-group callbacks receive exactly the indexes of the equalities (inequalities) and one-call results are split by the same indexes, each result landing in the row of its constraint; whether constraints are evaluated in groups or in one call is settled once, by what the user's callbacks first return. A failing callback makes the evaluation fail and stops later ones. Starting and warm-start points and multipliers provided by the user reach the iterate unaltered, multipliers in the rows of their constraints.",
  ["inputs","configurations"],"all points, callback results, callback failures, index sets and combinations of internal transformations (Jacobians in one call: without removed fixed variables)",
  "the drivers' callbacks never fail, ignore new_x and order their constraints regularly",
  ["src/Optimization/hiopNlpFormulation.cpp","src/Optimization/hiopAlgFilterIPM.cpp"],[("eval_f, eval_grad_f, eval_c_d, eval_Jac_c_d, get_starting_point, get_warmstart_point, user callbacks","src/Optimization/hiopNlpFormulation.cpp"),("evalNlp_noHess, evalNlp_funcOnly","src/Optimization/hiopAlgFilterIPM.cpp")])
p("V13","The search direction solves the full linearized KKT system",
  "The right-hand sides and diagonal blocks handed to the compressed linear systems and the recovery of the eliminated slack and bound-multiplier directions are algebraically equivalent to the full linearized optimality conditions, so a solution of the compressed system yields a direction that satisfies every block equation of the full system. The same block equations define the full-space operator used by iterative refinement and the reported linear-system error.",
  ["inputs"],"all iterates, residuals, regularizations and bound patterns for which the compressed system is solved",
  "a wrongly recovered block still yields a descent direction on simple problems; the in-code residual check is only logged",
  ["src/Optimization/hiopKKTLinSys.cpp","src/Optimization/hiopKKTLinSysMDS.cpp"],[("compute_directions_for_full_space, computeDirections, update, errorKKT, times_vec","src/Optimization/hiopKKTLinSys.cpp")])
p("V14","The limited-memory quasi-Newton Hessian keeps its memory and curvature invariants",
  "A pair of step and change of the Lagrangian's gradient enters the memory exactly when its curvature is sufficiently positive, the memory never exceeds its limit and always holds the most recent accepted pairs in order, with their cross products in the triangular and diagonal factors, and the initial scaling follows the chosen strategy and stays within its bounds. The matrix of the compact inverse representation is built from exactly those pairs, and applying the inverse uses it as the compact formula prescribes.",
  ["inputs","histories"],"all sequences of iterates and gradients, memory lengths and scaling strategies",
  "drivers run one trajectory with the default memory and only compare the final objective",
  ["src/Optimization/hiopHessianLowRank.cpp","src/Optimization/hiopHessianLowRank.hpp"],[("update, growL/growD/updateL/updateD, updateInternalBFGSRepresentation, solve","src/Optimization/hiopHessianLowRank.cpp")])
p("V15","Dense matrix operations compute their mathematical definition, exactly framed",
  "Products, transposed products, scaled additions, diagonal additions, norms, row and block copies, appends and shifts of dense matrices equal their mathematical definition on exactly the addressed entries and leave all other entries unchanged. Matrix-vector products over distributed columns combine the ranks' contributions exactly once.",
  ["inputs","configurations"],"all shapes, offsets, scalars and contents within the stated preconditions",
  "unit tests use constant-filled matrices, which hide transposition, offset and frame errors",
  ["src/LinAlg/hiopMatrixDenseRowMajor.cpp"],[("hiopMatrixDenseRowMajor","src/LinAlg/hiopMatrixDenseRowMajor.cpp")])
p("V16","Sparse and mixed dense-sparse matrix operations agree with the matrix they store",
  "Products, transposed products, additions of a sparse block, its transpose, a diagonal or a weighted product into a dense matrix, row gathering, norms and copies of sparse and mixed dense-sparse matrices equal the result on the dense matrix obtained by summing the stored entries (symmetrized for symmetric storage). Nothing outside the addressed block changes.",
  ["inputs"],"all sparsity patterns, entry orders, values, offsets and shapes within the stated preconditions",
  "unit tests use one regular sparsity pattern with constant values",
  ["src/LinAlg/hiopMatrixSparseTriplet.cpp","src/LinAlg/hiopMatrixSparseCSRSeq.cpp","src/LinAlg/hiopMatrixMDS.hpp","src/LinAlg/hiopMatrixComplexSparseTriplet.cpp"],[("hiopMatrixSparseTriplet, hiopMatrixSymSparseTriplet","src/LinAlg/hiopMatrixSparseTriplet.cpp"),("hiopMatrixMDS, hiopMatrixSymBlockDiagMDS","src/LinAlg/hiopMatrixMDS.hpp")])
p("V17","Iterative solvers report convergence only with a residual within tolerance",
  "A Krylov solve returns success only if the residual norm it computed for the returned solution is within the requested tolerance relative to the right-hand side, and otherwise returns failure with a flag saying why. A zero right-hand side gives the zero solution.",
  ["inputs","histories"],"all operators, preconditioners, right-hand sides, tolerances and iteration limits",
  "tests solve one small diagonal system for which every stopping rule works",
  ["src/LinAlg/hiopKrylovSolver.cpp"],[("hiopPCGSolver::solve, hiopBiCGStabSolver::solve","src/LinAlg/hiopKrylovSolver.cpp")])
p("V18","Option values are always within their declared domain, by declared precedence",
  "Whatever values the user supplies, an option read by the solver is within its declared range or set of choices, an out-of-domain or unknown setting leaves the stored value unchanged and is reported, and a value set from user code is never overwritten by the options file once it has been set. Options constrained relative to each other end up consistent.",
  ["inputs","histories"],"all sequences of option settings from file and user code",
  "the tests run with a few valid settings only",
  ["src/Utils/hiopOptions.cpp","src/Utils/hiopOptions.hpp"],[("SetNumericValue/SetIntegerValue/SetStringValue, ensure_consistence","src/Utils/hiopOptions.cpp")])
p("V19","The C and Fortran interfaces forward every call unchanged",
  "Every callback supplied through the C interface (mixed dense-sparse and dense problems) receives exactly the sizes, point, new-point flags, multipliers, objective factor, structure sizes, output arrays and user data of the corresponding C++ callback, in the documented order, and everything it writes reaches the solver; constraint functions and Jacobians are requested in one call only (the call per group of constraints is declined), all variables and constraints are declared nonlinear, and the integer return codes of C callbacks are not interpreted. Callbacks supplied through the Fortran interface likewise receive the sizes, point and new-point flag by reference and fill the solver's arrays, and the bounds and starting point given at creation reach the solver unchanged. Creating a problem builds a formulation that calls back through the caller's structure, with a Hessian choice that matches the callbacks present; solving stores what the solver reports (objective and solution; for dense problems also status and iteration count) in the caller's structure or arguments; destroying releases everything creation allocated, once.",
  ["inputs"],"all sizes, pointers, flags and callback results",
  "the C and Fortran drivers use one problem each, whose callbacks ignore the flags and in which several arguments coincide",
  ["src/Interface/chiopInterface.hpp","src/Interface/chiopInterface.cpp","src/Interface/hiopFortranInterface.c"],[("cppUserProblem*","src/Interface/chiopInterface.hpp"),("*_dense_wrapper","src/Interface/hiopFortranInterface.c")])
p("V20","Primal decomposition evaluates its recourse model by definition and stops by rule",
  "The quadratic recourse approximation used by the master problem has exactly the value, gradient and Hessian of its definition at the reference point and contributes to the master's objective and derivatives additively on the coupling variables only. Step parameters stay within their bounds and the decomposition stops exactly when an iteration, tolerance or acceptable-tolerance criterion holds.",
  ["inputs","histories"],"all reference points, gradients, curvature estimates and parameter settings",
  "one driver problem with a smooth recourse; wrong terms vanish at the reference point",
  ["src/Optimization/hiopAlgPrimalDecomp.cpp","src/Interface/hiopInterfacePrimalDecomp.cpp"],[("RecourseApproxEvaluator","src/Interface/hiopInterfacePrimalDecomp.cpp"),("HessianApprox","src/Optimization/hiopAlgPrimalDecomp.cpp")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
