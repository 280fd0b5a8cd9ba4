#include "pv.hpp"
#include "unsupported/Eigen/Polynomials"
// contract of Eigen::poly_eval (its two evaluation schemes are run for real in splines.cpp, P20): the value of the polynomial
namespace Eigen { template<class P> pv::Sym poly_eval(const P& p, const pv::Sym& x) { pv::Sym r = p[p.size() - 1]; for (Index i = p.size() - 2; i >= 0; --i) r = r * x + p[i]; return r; } }
#include "mpc_common.hpp"
using S22 = Scheme<2, 2>; using S13 = Scheme<1, 3>; using S31 = Scheme<3, 1>;
USER_OCP(OcpA, S22, DENSE, 2, 1, 0, 0, 0, 1)
USER_OCP(OcpB, S13, SPARSE, 1, 2, 1, 0, 0, 1)
USER_OCP(OcpC, S31, DENSE, 1, 1, 0, 0, 0, 1)
MPC_HORIZON(HorizonA, OcpA) MPC_HORIZON(HorizonB, OcpB) MPC_HORIZON(HorizonC, OcpC)
/** history: the problem's own horizon, or set_time_limits once or twice (the last one to arbitrary limits) */
template<class P> void trajectory() {
    note("Eigen::poly_eval returns the value of the polynomial"); division_checks(false); const int h = choose("history", 3); given_horizon() = h > 0;
    Wrapper<P> w; Image<P>::arbitrary(w.mpc.solver());
    if (h == 2) w.mpc.set_time_limits(S(-1.0), S(0.25));
    if (h > 0) { const S t0 = input("t0", -2, 2), tf = input("tf", 3, 5); require(lt(t0, tf)); w.mpc.set_time_limits(t0, tf); }
    w.trajectory("");
}
PV_CASE(trajectory_a, "order 2, two segments") { trajectory<HorizonA>(); }
PV_CASE(trajectory_b, "order 1, three segments") { trajectory<HorizonB>(); }
PV_CASE(trajectory_c, "order 3, one segment") { trajectory<HorizonC>(); }
PV_CASE(trajectory_default, "problem with the default horizon [0, 1]") { division_checks(false); Wrapper<OcpA> w; Image<OcpA>::arbitrary(w.mpc.solver()); w.trajectory(""); }
