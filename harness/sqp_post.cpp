// P06: what the SQP solver reports
#include "sqp_common.hpp"
static Opt opt(int it, int ls, bool twice = false) { Opt o; o.c6 = true; o.max_iter = it; o.ls = ls; o.twice = twice; return o; }
PV_CASE(free_step_one, "any step length, one iteration") { session<2, 1, 1, 1, DENSE, FREE_STEP | FREE_HESS>(opt(1, 2)); }
PV_CASE(free_step_three, "any step length, three iterations") { session<2, 1, 1, 1, DENSE, FREE_STEP | FREE_HESS>(opt(3, 2)); }
PV_CASE(free_step_sparse, "any step length, sparse") { session<2, 1, 1, 1, SPARSE, FREE_STEP | FREE_HESS>(opt(3, 2)); }
PV_CASE(free_step_preconditioned, "any step length, with a preconditioner") { session<2, 1, 1, 0, DENSE, FREE_STEP | FREE_HESS>(opt(2, 2), true); }
PV_CASE(line_search_1, "default line search, budget 1") { session<2, 1, 1, 0, DENSE, FREE_HESS>(opt(2, 1)); }
PV_CASE(line_search_2, "default line search, budget 2") { session<2, 1, 1, 0, DENSE, FREE_HESS>(opt(2, 2)); }
PV_CASE(line_search_4, "default line search, budget 4") { session<1, 1, 1, 0, DENSE, FREE_HESS>(opt(1, 4)); }
PV_CASE(twice, "second solve on the same object") { session<1, 1, 1, 1, DENSE, FREE_STEP | FREE_HESS>(opt(2, 2, true)); }
