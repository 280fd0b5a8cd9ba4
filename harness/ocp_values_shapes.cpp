// Transcription for an arbitrary collocation scheme, other problem shapes.
#include "ocp_values.hpp"
using S21 = Scheme<2, 1>; using S22 = Scheme<2, 2>; using S13 = Scheme<1, 3>; using S32 = Scheme<3, 2>;
USER_OCP(OcpE, S32, SPARSE, 2, 1, 1, 0, 0, 2)
USER_OCP(OcpF, S13, DENSE, 3, 2, 0, 0, 1, 0)
PV_CASE(values_E, "NX=2 NU=1 NP=1 ND=0 NG=0, order 3, two segments, terminal cost only, sparse") { values<OcpE>(); }
PV_CASE(values_F, "NX=3 NU=2 NP=0 ND=0 NG=1, order 1, three segments, no cost") { values<OcpF>(); }
