// Contracts of the dense ContinuousOCP evaluations, other problem shapes.
#include "ocp_histories.hpp"
using S21 = Scheme<2, 1>; using S22 = Scheme<2, 2>; using S13 = Scheme<1, 3>; using S31 = Scheme<3, 1>;
USER_OCP(OcpC, S13, DENSE, 1, 1, 0, 1, 1, 1)
USER_OCP(OcpE, S22, DENSE, 2, 1, 1, 0, 0, 2)
USER_OCP(OcpF, S31, DENSE, 1, 1, 1, 0, 1, 0)
PV_CASE(sequence_C, "NX=1 NU=1 NP=0 ND=1 NG=1, order 1, three segments, stage cost only") { sequence<OcpC>(); }
PV_CASE(sequence_E, "NX=2 NU=1 NP=1 ND=0 NG=0, order 2, two segments, terminal cost only") { sequence<OcpE>(); }
PV_CASE(any_two_E, "terminal cost only, no path constraints: every evaluation after every other one") { any_two<OcpE>(); }
PV_CASE(sequence_F, "NX=1 NU=1 NP=1 ND=0 NG=1, order 3, one segment, no cost") { sequence<OcpF>(); }
