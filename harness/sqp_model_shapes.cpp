// P07: other problem shapes, repeated solves, and a problem defined through ProblemBase
#include "sqp_common.hpp"
#include "nlp_problems.hpp"
PROBLEM(P2111, 2, 1, 1, 1, 1)
static Opt opt(int it, bool twice = false) { Opt o; o.c7 = true; o.max_iter = it; o.ls = 1; o.twice = twice; return o; }
PV_CASE(dense_3120, "NX=3 NE=1 NI=2") { session<3, 1, 2, 0, DENSE, FREE_STEP | FREE_HESS>(opt(2)); }
PV_CASE(dense_2010, "inequalities only") { session<2, 0, 1, 0, DENSE, FREE_STEP | FREE_HESS>(opt(2)); }
PV_CASE(dense_2100, "equalities only") { session<2, 1, 0, 0, DENSE, FREE_STEP | FREE_HESS>(opt(2)); }
PV_CASE(dense_2000, "variable bounds only") { session<2, 0, 0, 0, DENSE, FREE_STEP | FREE_HESS>(opt(2)); }
PV_CASE(dense_twice, "second solve on the same object, from its own solution, with new bounds and parameters") { session<2, 1, 1, 1, DENSE, FREE_STEP | FREE_HESS>(opt(2, true)); }
PV_CASE(sparse_twice, "second solve on the same object, sparse") { session<2, 1, 1, 1, SPARSE, FREE_STEP | FREE_HESS>(opt(2, true)); }
PV_CASE(problem_base, "problem defined through ProblemBase") { session<2, 1, 1, 1, DENSE, FREE_STEP | FREE_HESS, P2111>(opt(2)); }
