// Contracts of the dense ContinuousOCP evaluations, larger dimensions.
#include "ocp_histories.hpp"
using S21 = Scheme<2, 1>; using S22 = Scheme<2, 2>; using S13 = Scheme<1, 3>; using S31 = Scheme<3, 1>;
USER_OCP(OcpG, S22, DENSE, 2, 2, 2, 0, 3, 3)
USER_OCP(OcpH, S31, DENSE, 3, 1, 1, 1, 2, 3)
PV_CASE(sequence_G, "NX=2 NU=2 NP=2 ND=0 NG=3, order 2, two segments") { sequence<OcpG>(); }
PV_CASE(sequence_H, "NX=3 NU=1 NP=1 ND=1 NG=2, order 3, one segment") { sequence<OcpH>(); }
