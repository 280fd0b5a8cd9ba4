#include "mpc_common.hpp"
using S22 = Scheme<2, 2>; using S13 = Scheme<1, 3>;
USER_OCP(OcpA, S22, DENSE, 2, 1, 1, 2, 1, 1)
USER_OCP(OcpB, S13, SPARSE, 1, 2, 0, 0, 0, 1)
USER_OCP(OcpC, S13, DENSE, 1, 3, 2, 1, 2, 1)
MPC_HORIZON(HorizonA, OcpA) MPC_HORIZON(HorizonB, OcpB) MPC_HORIZON(HorizonC, OcpC)
template<class P> void setters() { division_checks(false); Wrapper<P> w; Image<P>::arbitrary(w.mpc.solver()); w.setter(choose("setter", w.setters), ""); }
template<class P> void accessors() { division_checks(false);
    Wrapper<P, MpcRun> w; Image<P>::arbitrary(w.mpc.solver()); w.accessors("");
    auto& s = w.mpc.solver(); Image<P> r(s); w.mpc.solve(); ensure("solve() solves once", s.solves == 1);
    for (int i = 0; i < s.m_x.size(); ++i) r.x(i) = input(idx("solved x", i)); for (int i = 0; i < s.m_lam.size(); ++i) r.lam(i) = input(idx("solved lam", i));
    Image<P>(s).is("solve() passes the problem on as it is", r); w.accessors("after solve: ");
}
PV_CASE(setters_a, "NX=2 NU=1 NP=1 ND=2 NG=1, order 2, two segments, dense") { setters<HorizonA>(); }
PV_CASE(setters_b, "NX=1 NU=2 NP=0 ND=0 NG=0, order 1, three segments, sparse") { setters<HorizonB>(); }
PV_CASE(setters_c, "NX=1 NU=3 NP=2 ND=1 NG=2, order 1, three segments, dense") { setters<HorizonC>(); }
PV_CASE(accessors_a, "NX=2 NU=1 NP=1 ND=2 NG=1, order 2, two segments, dense") { accessors<HorizonA>(); }
PV_CASE(accessors_b, "NX=1 NU=2 NP=0 ND=0 NG=0, order 1, three segments, sparse") { accessors<HorizonB>(); }
PV_CASE(accessors_c, "NX=1 NU=3 NP=2 ND=1 NG=2, order 1, three segments, dense") { accessors<HorizonC>(); }
