// Contracts of the sparse ContinuousOCP evaluations: the same derivatives as the dense ones, first time and every time.
#include "ocp_histories.hpp"
using S21 = Scheme<2, 1>; using S22 = Scheme<2, 2>; using S13 = Scheme<1, 3>; using S31 = Scheme<3, 1>;
USER_OCP(OcpA, S22, SPARSE, 2, 1, 1, 1, 1, 3)
USER_OCP(OcpB, S21, SPARSE, 1, 2, 2, 0, 2, 3)
PV_CASE(sequence_A, "NX=2 NU=1 NP=1 ND=1 NG=1, order 2, two segments") { sequence<OcpA>(); }
PV_CASE(sequence_B, "NX=1 NU=2 NP=2 ND=0 NG=2, order 2, one segment") { sequence<OcpB>(); }
PV_CASE(any_two_B, "NX=1 NU=2 NP=2 NG=2: every evaluation after every other one") { any_two<OcpB>(); }
