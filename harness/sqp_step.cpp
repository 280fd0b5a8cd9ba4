// P08: steps, line search and violation measures
#include "sqp_common.hpp"
static Opt opt(int it, int ls, bool twice = false) { Opt o; o.c8 = true; o.max_iter = it; o.ls = ls; o.twice = twice; return o; }
PV_CASE(line_search_1, "budget 1") { session<2, 1, 1, 0, DENSE, FREE_HESS>(opt(2, 1)); }
PV_CASE(line_search_2, "budget 2, two iterations") { session<2, 1, 1, 1, DENSE, FREE_HESS>(opt(2, 2)); }
PV_CASE(line_search_5, "budget 5, one iteration") { session<2, 1, 1, 0, DENSE, FREE_HESS>(opt(1, 5)); }
PV_CASE(line_search_sparse, "budget 3, sparse") { session<2, 1, 1, 0, SPARSE, FREE_HESS>(opt(2, 3)); }
PV_CASE(line_search_preconditioned, "budget 2, with a preconditioner") { session<2, 1, 1, 0, DENSE, FREE_HESS>(opt(2, 2), true); }
PV_CASE(free_step, "any step length, three iterations") { session<2, 1, 1, 0, DENSE, FREE_STEP | FREE_HESS>(opt(3, 2)); }
PV_CASE(shape_2010, "inequalities only") { session<2, 0, 1, 0, DENSE, FREE_HESS>(opt(1, 3)); }
PV_CASE(shape_2100, "equalities only") { session<2, 1, 0, 0, DENSE, FREE_HESS>(opt(1, 3)); }
PV_CASE(shape_2000, "variable bounds only") { session<2, 0, 0, 0, DENSE, FREE_HESS>(opt(1, 3)); }
PV_CASE(twice, "second solve on the same object") { session<1, 1, 1, 1, DENSE, FREE_STEP | FREE_HESS>(opt(2, 2, true)); }
template<int NX, int NE, int NI, int NP> void measures() {
    auto* s = new Solver<StubProblem<NX, NE, NI, NP, DENSE>, StubQP<NX, NE, NI, NP>, polympc::IdentityPreconditioner, FREE_HESS, NX, NE, NI, NP>();
    Reference<NX, NE, NI, NP> r; r.lbx = input_vec<NX>("lbx"); r.ubx = input_vec<NX>("ubx"); r.lbg = input_vec<NI>("lbg"); r.ubg = input_vec<NI>("ubg"); r.par = input_vec<NP>("par");
    for (int i = 0; i < NX; ++i) require(le(r.lbx(i), r.ubx(i))); for (int i = 0; i < NI; ++i) require(le(r.lbg(i), r.ubg(i)));
    s->lower_bound_x() = r.lbx; s->upper_bound_x() = r.ubx; s->lower_bound_g() = r.lbg; s->upper_bound_g() = r.ubg; s->parameters() = r.par;
    const Vec<NX> x = input_vec<NX>("x");
    const S a = s->constraints_violation(x), b = r.l1_violation(x);
    ensure("constraints_violation is the l1 norm of all violations, up to 1e-9", both(le(b, a), le(a, b + S(1e-9))));
    ensure("max_constraints_violation is the largest violation", eq(s->max_constraints_violation(x), r.violation(x)));
}
PV_CASE(measures_2111, "violation measures") { measures<2, 1, 1, 1>(); }
PV_CASE(measures_2220, "violation measures") { measures<2, 2, 2, 0>(); }
PV_CASE(measures_1300, "violation measures") { measures<1, 3, 0, 0>(); }
PV_CASE(measures_1020, "violation measures") { measures<1, 0, 2, 0>(); }
PV_CASE(measures_2000, "violation measures") { measures<2, 0, 0, 0>(); }
