// Transcription for an arbitrary collocation scheme.
#include "ocp_values.hpp"
using S21 = Scheme<2, 1>; using S22 = Scheme<2, 2>; using S13 = Scheme<1, 3>; using S32 = Scheme<3, 2>;
USER_OCP(OcpA, S22, DENSE, 2, 1, 1, 1, 1, 3)
USER_OCP(OcpB, S21, SPARSE, 1, 2, 2, 0, 2, 3)
USER_OCP(OcpC, S13, SPARSE, 1, 1, 0, 1, 1, 1)
PV_CASE(values_A, "NX=2 NU=1 NP=1 ND=1 NG=1, order 2, two segments") { values<OcpA>(); }
PV_CASE(values_B, "NX=1 NU=2 NP=2 ND=0 NG=2, order 2, one segment, sparse") { values<OcpB>(); }
PV_CASE(values_C, "NX=1 NU=1 NP=0 ND=1 NG=1, order 1, three segments, stage cost only, sparse") { values<OcpC>(); }
