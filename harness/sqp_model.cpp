// P07: the subproblem handed to the QP solver
#include "sqp_common.hpp"
static Opt opt(int it, bool twice = false) { Opt o; o.c7 = true; o.max_iter = it; o.ls = 1; o.twice = twice; return o; }
PV_CASE(dense_2111, "dense, three iterations") { session<2, 1, 1, 1, DENSE, FREE_STEP | FREE_HESS>(opt(3)); }
PV_CASE(sparse_2111, "sparse, three iterations") { session<2, 1, 1, 1, SPARSE, FREE_STEP | FREE_HESS>(opt(3)); }
PV_CASE(dense_preconditioned, "dense, with a preconditioner that replaces the data") { session<2, 1, 1, 0, DENSE, FREE_STEP | FREE_HESS>(opt(3), true); }
PV_CASE(sparse_preconditioned, "sparse, with a preconditioner that replaces the data") { session<2, 1, 1, 0, SPARSE, FREE_STEP | FREE_HESS>(opt(3), true); }
PV_CASE(dense_exact, "dense, exact regularised Hessian at every iteration") { session<2, 1, 1, 0, DENSE, FREE_STEP | EXACT | REGULARISE>(opt(3)); }
PV_CASE(sparse_exact, "sparse, exact regularised Hessian at every iteration") { session<2, 1, 1, 0, SPARSE, FREE_STEP | FREE_HESS | EXACT | REGULARISE>(opt(3)); }
PV_CASE(dense_bfgs, "dense, default damped BFGS update") { session<1, 1, 1, 0, DENSE, FREE_STEP>(opt(2)); }
