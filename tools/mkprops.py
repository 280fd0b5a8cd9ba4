#!/usr/bin/env python3
"""writes properties.jsonl (the single source of titles and statements)"""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), state=[dict(name=a, meaning=b, where=c) for a, b, c in state], hook_needed=None)))
S='src/solvers/'; C='src/control/'; PO='src/polynomials/'
p('P01','A QP reported solved satisfies its optimality certificate',
  "Whenever either ADMM QP solver (the one that treats variable bounds as extra rows, and the one that treats them as boxes; dense or sparse) returns the status solved, the returned primal point violates no general or variable bound by more than the primal tolerance, and the gradient of the Lagrangian at the returned primal-dual pair is at most the dual tolerance, both tolerances being the absolute one plus the relative one times the documented norms. A multiplier is positive only for a constraint whose upper bound is active in the split variable, negative only where the lower bound is active. The residuals the solver reports are the ones these tolerances were compared with.",
  ['inputs','configurations','histories'], "every QP (H, h, A, bounds), every starting point, every setting of alpha, rho, sigma, tolerances, at every iteration at which the solver stops",
  "the tests solve a few fixed QPs and compare with known optimisers; they never check the certificate for other data, tolerances, relaxation factors or stopping iterations",
  [S+'admm.hpp',S+'box_admm.hpp',S+'qp_base.hpp'], [('termination test on residual norms',S+'admm.hpp, '+S+'box_admm.hpp: residuals_update, termination_criteria'),('projection and dual update',S+'admm.hpp: solve_impl')],
  ['solve() return value, primal_solution(), dual_solution(), info()'])
p('P02','Each QP iteration is the documented relaxed ADMM step',
  "The linear system the QP solvers factorise is exactly the KKT system of the given problem for the current regularisation and per-constraint step sizes, and every iteration maps the previous iterate to the one prescribed by the over-relaxed operator splitting: linear solve, relaxation with factor alpha in (0,2) of the old and new points, projection onto the bounds, dual ascent. This includes iterations after the step size was adapted, for which the system is updated and factorised again.",
  ['inputs','configurations','histories'], "every QP, starting point, alpha, rho, sigma, and every iteration",
  "the tests run with the default relaxation factor 1.0 and judge only the final point of a convergent run, which hides wrong relaxation, wrong step sizes and stale factorisations",
  [S+'admm.hpp',S+'box_admm.hpp'], [('KKT assembly',S+'*admm.hpp: construct_kkt_matrix, update_kkt_rho'),('iteration',S+'*admm.hpp: solve_impl')], ['linear solver compute/factorize/solve arguments','primal_solution(), dual_solution()'])
p('P03','Sparse, dense and pattern-reusing QP solves agree, and no state leaks',
  "Solving the same QP through the dense and the sparse interface, with a triangular or a full KKT storage, poses the same linear systems and yields the same iterates; solving with the pattern-reuse option after an earlier solve with the same sparsity pattern is the same as a fresh solve. A solver object that has solved other problems before, including ones with other bound types, gives the same answer as a new one.",
  ['inputs','histories','configurations'], "every pair of QPs sharing a pattern, every starting point and setting",
  "tests use one QP per solver object and one storage form; the second solve of an object with different values, bounds types or pattern reuse is not sampled",
  [S+'admm.hpp',S+'box_admm.hpp',S+'qp_base.hpp'], [('same-pattern assembly',S+'*admm.hpp: construct_kkt_matrix_same_pattern'),('bounds classification',S+'qp_base.hpp: parse_constraints_bounds')])
p('P04','QP status, iteration budget and step-size rule are as specified',
  "A QP solve ends with status solved or iteration limit reached, performs at most the configured number of iterations, reports exactly the number it performed, tests convergence only at multiples of the configured interval and stops at the first test that passes. Constraints are classified by their bounds into loose, equality and inequality, and get the corresponding step size (minimum, 1000 times rho, rho); an adapted step size is within its fixed limits, follows the residual-ratio rule and takes effect only when it changes by more than the configured factor.",
  ['inputs','configurations'], "every QP, bounds, setting and iteration count",
  "tests only look at status solved and an upper limit on the iteration count for benign data",
  [S+'admm.hpp',S+'box_admm.hpp',S+'qp_base.hpp'], [('classification',S+'qp_base.hpp: parse_constraints_bounds'),('rho rules',S+'*admm.hpp: rho_vec_update, estimate_rho'),('iteration loop',S+'*admm.hpp: solve_impl')])
p('P05','QP preconditioners scale to an equivalent problem and undo it exactly',
  "The Ruiz equilibration turns a QP into one whose Hessian, gradient, constraint matrix and bounds are the original ones multiplied by positive diagonal scalings and a positive cost factor, so that mapping a solution back recovers a point with the same constraint values and stationarity as the original problem; scaling and then unscaling gives back the original data, also in sparse storage and for problems with a zero gradient. The identity preconditioner changes nothing.",
  ['inputs','histories'], "every QP data set with finite entries, dense and sparse",
  "tests check the solution of two QPs; data round trips, zero rows, zero gradients and the sparse variants are not covered",
  [S+'qp_preconditioners.hpp'], [('scaling',S+'qp_preconditioners.hpp: RuizEquilibration::compute / scale / unscale'),('no-op',S+'qp_preconditioners.hpp: IdentityPreconditioner')])
p('P06','An SQP run reported solved stopped at a point meeting its own criteria',
  "When the SQP solver reports solved, the last primal step and last multiplier step are within the configured tolerance and the reported iterate violates no equality, inequality or variable bound by more than the tolerance; otherwise the status is iteration limit (or infeasible subproblem), and the number of iterations and QP iterations reported are those performed and never exceed the limit. The reported norms, violation and cost are those of the final iterate.",
  ['inputs','configurations','fault_sequences'], "every nonlinear program, initial guess, setting and every behaviour of the QP solver",
  "tests run a handful of nicely converging problems; termination with a bad QP answer, violated box constraints or budget exhaustion is not sampled",
  [S+'sqp_base.hpp'], [('termination',S+'sqp_base.hpp: termination_criteria'),('main loop',S+'sqp_base.hpp: solve')])
p('P07','Each SQP subproblem is the local quadratic model of the nonlinear program',
  "The QP handed to the QP solver at each SQP iteration has the cost gradient, constraint Jacobian and constraint values of the user's problem at the current iterate: its rows say that the linearised equalities vanish and the linearised inequalities stay within their limits, and its variable bounds are the original ones minus the current iterate. Its Hessian is the exact Lagrangian Hessian at the initial point and multipliers, regularised if requested, and later the quasi-Newton update of it for the last step and the change of the Lagrangian gradient over that step; preconditioning changes neither the model nor the step taken from its solution.",
  ['inputs','histories'], "every problem, iterate, multiplier and iteration",
  "tests see only converged results, which a wrong but contracting subproblem can also reach",
  [S+'sqp_base.hpp',S+'nlproblem.hpp'], [('bounds shift and linearisation',S+'sqp_base.hpp: linearisation, solve_qp'),('Hessian update',S+'sqp_base.hpp: update_linearisation, hessian_update')])
p('P08','SQP steps: line search, iterate and multiplier updates are consistent',
  "The new iterate is the old one plus a step length in (0,1] times the QP step, the new multiplier moves by the same fraction towards the QP multiplier, and the step length returned by the line search is the first of 1, tau, tau^2, ... that gives sufficient decrease of the merit function, or the last one the line-search budget allows. The merit function is the cost plus the largest QP multiplier magnitude times the l1 constraint violation, and the constraint-violation measures are the stated norms of the equality, inequality and bound violations.",
  ['inputs','configurations'], "every problem, iterate, direction, penalty and line-search setting",
  "the line search accepts full steps in nearly all test runs",
  [S+'sqp_base.hpp',S+'line_search.hpp'], [('step length',S+'sqp_base.hpp: step_size_selection_impl'),('violation norms',S+'sqp_base.hpp: constraints_violation, max_constraints_violation')])
p('P09','The filter accepts exactly the non-dominated points and keeps only those',
  "A cost/violation pair is acceptable exactly when no stored pair dominates it (within the configured margins); after an accepted pair is added, the filter contains that pair, no stored pair that it dominates, and at most the configured number of entries.",
  ['inputs','histories'], "every sequence of pairs added, every filter depth and margin",
  "the filter has no test of its own; test problems exercise only a few insertions",
  [S+'line_search.hpp'], [('acceptance and insertion',S+'line_search.hpp: LSFilter')])
p('P10','Quasi-Newton updates keep symmetry, definiteness and the secant equation',
  "The damped BFGS update maps a symmetric positive definite matrix to a symmetric positive definite matrix for every step and gradient difference, and satisfies the secant equation when no damping is needed; the SR1 update is symmetric, satisfies the secant equation whenever it is applied and leaves the matrix unchanged when its denominator is negligible. The block-structured (sparse) update used for optimal control produces the same result as the dense update on each block and changes nothing outside the block structure.",
  ['inputs','histories'], "every symmetric positive definite matrix, step and gradient difference",
  "tests apply the update to one quadratic function and a few SQP runs",
  [S+'bfgs.hpp',S+'sr1.hpp',C+'continuous_ocp.hpp'], [('damped BFGS',S+'bfgs.hpp: BFGS_update'),('SR1',S+'sr1.hpp: SR1_update'),('block BFGS',C+'continuous_ocp.hpp: hessian_update_impl')])
p('P11','Automatic differentiation returns the exact derivative of every operation',
  "For every expression built from the arithmetic operators, comparisons and elementary functions provided for the automatic-differentiation scalar, the value is the value of the same expression on plain numbers and the derivative vector is its exact gradient by the rules of calculus, also when such scalars are nested to obtain second derivatives and when an argument carries an empty derivative vector.",
  ['inputs','programs'], "every operation, every argument in its domain, every seed derivative, nesting depth two",
  "tests compare a few functions at a few points with a tolerance",
  ['src/autodiff/AutoDiffScalar.h'], [('operator and function rules','src/autodiff/AutoDiffScalar.h')])
p('P12','Nonlinear programs: all derivatives are those of the user functions',
  "For a user-defined problem, the cost gradient and Hessian, the constraint values and Jacobians, the Lagrangian and its gradient and Hessian delivered by the problem class are the exact derivatives of the user's cost and constraint functions, combined with the multipliers in their documented order (equalities, inequalities, variable bounds), at every point, in dense and in sparse form, regardless of what was evaluated before.",
  ['inputs','programs','histories'], "every cost/equality/inequality function, point, multiplier and call sequence",
  "tests evaluate one or two problems at one point",
  [S+'nlproblem.hpp'], [('problem base class',S+'nlproblem.hpp: ProblemBase')])
p('P13','Optimal control transcription reproduces the continuous problem',
  "The transcribed equality constraints are, at every collocation node of every segment, the differentiation matrix applied to the state trajectory minus the segment half-length times the dynamics at that node's state, control, parameters and time; the transcribed inequality constraints are the path constraint at every node; the transcribed cost is the terminal cost at the final node plus the quadrature, with the segment half-length, of the stage cost over all segments. The mapping from the decision vector (states, controls, parameters, in reverse time order) is the documented one for every number of segments, order and horizon.",
  ['inputs','programs','configurations'], "all dynamics, costs, constraints, trajectories, horizons; several segment/order/dimension combinations",
  "tests compare two implementations or look at converged solutions of three systems",
  [C+'continuous_ocp.hpp'], [('dynamics',C+'continuous_ocp.hpp: equalities_impl'),('path constraints',C+'continuous_ocp.hpp: inequalities_impl'),('cost',C+'continuous_ocp.hpp: cost_impl'),('composite differentiation matrix',C+'continuous_ocp.hpp: compute_diff_matrix')])
p('P14','Optimal control derivatives are exact derivatives of the transcription',
  "The cost gradient, cost Hessian, constraint Jacobian, Lagrangian gradient and Lagrangian Hessian delivered for a transcribed optimal control problem are the exact derivatives of the transcribed cost, constraints and Lagrangian with respect to all states, controls and parameters, including the cross terms with parameters, the terminal cost and path-constraint multipliers.",
  ['inputs','programs'], "all smooth problem functions, points, multipliers; several dimension/segment combinations",
  "tests sample one point per derivative and mostly problems without parameters or terminal cross terms",
  [C+'continuous_ocp.hpp'], [('linearisation and Lagrangian derivatives',C+'continuous_ocp.hpp: *_linearised, cost_gradient*, lagrangian_gradient*')])
p('P15','Sparse and dense optimal control evaluations agree, first time and every time',
  "For the same problem and point the sparse evaluation of Jacobians, gradients and Hessians equals the dense one entry by entry, both when the sparse matrices are filled for the first time and when later evaluations overwrite them in place, whatever points, multipliers and horizons were evaluated before; structurally the sparse matrices have an entry wherever the derivative can be nonzero.",
  ['inputs','histories'], "all problem functions and sequences of evaluation points",
  "the comparison test uses one robot problem and one point, and never a second differing evaluation of every routine",
  [C+'continuous_ocp.hpp'], [('sparse insertion and in-place update',C+'continuous_ocp.hpp: *_sparse, *_sparse_update')])
p('P16','The MPC wrapper reads and writes exactly the entries its names promise',
  "Setting initial conditions, state, control, parameter, constraint or trajectory bounds and guesses through the MPC interface changes exactly the corresponding entries of the optimisation problem and no others; the accessors return the trajectory at the node index or time asked for, the trajectory at a node time equals the node value, and between nodes it is the interpolating polynomial of the segment that contains the time, for every horizon including ones that do not start at zero.",
  ['inputs','histories','configurations'], "all bounds, guesses, solutions, times in the horizon; several segment/order combinations",
  "tests use one problem and look at the closed-loop behaviour",
  [C+'mpc_wrapper.hpp',PO+'splines.hpp'], [('setters/getters',C+'mpc_wrapper.hpp: MPC'),('interpolation',PO+'splines.hpp: LagrangeSpline')])
p('P17','Chebyshev basis: nodes, differentiation, quadrature and projection are exact',
  "The Chebyshev-Gauss-Lobatto basis of order N has the nodes cos(k pi/N); its differentiation matrix gives the exact derivative at the nodes of every polynomial of degree at most N (on every segment of the composite one), and its Clenshaw-Curtis weights integrate every such polynomial exactly; discrete projection onto the Chebyshev polynomials reproduces every polynomial of degree at most N.",
  ['inputs','configurations'], "all polynomials of degree at most N, N = 1..8 (and composite grids)",
  "tests compare with tabulated values for one or two orders to a tolerance",
  [PO+'ebyshev.hpp'], [('basis',PO+'ebyshev.hpp: Chebyshev')])
p('P18','Legendre basis: nodes, differentiation and quadrature are exact',
  "For the Legendre-Gauss-Lobatto basis of order N the interior nodes are the roots of the derivative of the Legendre polynomial and the end nodes are -1 and 1; given such nodes, the differentiation matrix gives the exact derivative at the nodes of every polynomial of degree at most N, and the weights integrate every polynomial of degree at most 2N-1 exactly.",
  ['inputs','configurations'], "all polynomials of the stated degree, N = 2..5",
  "the Legendre tests are not even built on this tree",
  [PO+'legendre.hpp'], [('basis',PO+'legendre.hpp: Legendre')])
p('P19','Polynomial algebra and projection follow their definitions',
  "Multiplying, differentiating, integrating and evaluating polynomials by their coefficient vectors gives the coefficient vector or value of the exact product, derivative, definite integral or value, for all coefficients and degrees including vectors with zero leading or trailing coefficients; projecting a function onto an orthogonal basis gives back every polynomial already in the span.",
  ['inputs'], "all coefficient vectors, several sizes, all evaluation points",
  "tests cover two fixed polynomials",
  [PO+'polynomial_math.hpp',PO+'projection.hpp'], [('algebra',PO+'polynomial_math.hpp: poly'),('projection',PO+'projection.hpp: Projection')])
p('P20','Splines evaluate the right segment and interpolation is exact',
  "The equidistant cubic spline evaluates, at every argument, the cubic of the segment that contains the argument (the first or last segment outside the range), and its first and second derivatives are those of that cubic; the Lagrange interpolant through distinct nodes takes the node values at the nodes and reproduces every polynomial of its degree, for scalar and for vector data.",
  ['inputs','configurations'], "all data values, all distinct nodes, all evaluation points",
  "the spline test of this repository fails on this tree and samples one data set",
  [PO+'splines.hpp'], [('splines',PO+'splines.hpp: EquidistantCubicSpline, LagrangeSpline')])
p('P21','The stand-alone collocation classes agree with their definition and derivatives',
  "The ODE, cost and constraint collocation classes return, at every node, the differentiation matrix times states minus scaled dynamics, the quadrature of the stage cost plus the terminal cost, and the path constraints; the linearisations, gradients and Hessians they return are exact derivatives of those values with respect to states and controls (parameters are data of these classes), whether the object was default-constructed or built from given functors, and the sparse ODE class equals the dense one at the first and at every later evaluation.",
  ['inputs','programs','histories'], "all dynamics, costs, constraints, points, horizons; several dimension/segment combinations",
  "no stable test on this tree checks the derivative blocks of these classes against an independent oracle",
  [C+'ode_collocation.hpp',C+'sparse_ode_collocation.hpp',C+'cost_collocation.hpp',C+'constraints_collocation.hpp'], [('collocation classes',C+'*_collocation.hpp')])
p('P22','LQR/Riccati routines satisfy the matrix equations they are meant to solve',
  "lyapunov(A,Q) returns the solution of A X + X A' = Q, also for matrices with complex eigenvalue pairs; pinv returns the Moore-Penrose inverse (singular values below its tolerance count as zero); the line search returns a step in [1e-5,2] that minimises the residual along the Newton direction; each Newton iteration solves the equation linearised at the current iterate and adds the chosen step; the initial guess makes the closed loop A - B X stable; lqr solves the problem with cost x'Qx + 2x'Mu + u'Ru by completing the square, returns the gain R^-1 (G'S + M'), and leaves a zero solution and gain when the weights fail the requested positivity check; care returns the stabilising solution of the Riccati equation.",
  ['inputs'], "all matrices for which the linear systems involved are nonsingular", "the LQR test only runs one system and asserts nothing about the Riccati residual",
  [C+'lqr.hpp'], [('Riccati solver',C+'lqr.hpp: pinv, lyapunov, line_search_care, newton_ls_care, init_newton_care, care, lqr')])
p('P23','External solver interfaces pass on the same problem and read back its solution',
  "The OSQP, qpmad and Ipopt interfaces hand exactly the given problem (data, bounds, guesses, derivative structure) to the external solver and return its primal and dual solution in the library's order and sign convention.",
  ['inputs'], "every problem", "none of the external solvers is available on this tree, so nothing tests it",
  [S+'osqp_interface.hpp',S+'qpmad_interface.hpp',S+'ipopt_interface.hpp'], [('interfaces',S+'*_interface.hpp')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80, x['title']
        f.write(json.dumps(x)+'\n')
