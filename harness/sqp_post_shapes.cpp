// P06: other problem shapes
#include "sqp_common.hpp"
static Opt opt(int it, int ls, bool twice = false) { Opt o; o.c6 = true; o.max_iter = it; o.ls = ls; o.twice = twice; return o; }
PV_CASE(shape_2010, "inequalities only") { session<2, 0, 1, 0, DENSE, FREE_HESS>(opt(2, 2)); }
PV_CASE(shape_2100, "equalities only") { session<2, 1, 0, 0, DENSE, FREE_HESS>(opt(2, 2)); }
PV_CASE(shape_2000, "variable bounds only") { session<2, 0, 0, 0, DENSE, FREE_HESS>(opt(2, 2)); }
PV_CASE(shape_3120, "NX=3 NE=1 NI=2") { session<3, 1, 2, 0, DENSE, FREE_STEP | FREE_HESS>(opt(2, 2)); }
PV_CASE(shape_2200, "NX=2 NE=2") { session<2, 2, 0, 0, DENSE, FREE_STEP | FREE_HESS>(opt(2, 2)); }
PV_CASE(t_line_search_long, "default line search, budget 4, three iterations") { session<2, 1, 1, 0, DENSE, FREE_HESS>(opt(3, 4)); }
