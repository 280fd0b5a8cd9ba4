// Transcription with the Chebyshev nodes of the library.
#include "ocp_values.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/splines.hpp"
static void exact() {
#ifndef PV_DOUBLE
    field(4); ideal_constants();
#endif
}
using Cheb = polympc::Spline<polympc::Chebyshev<2, polympc::GAUSS_LOBATTO, S>, 2>;
USER_OCP(OcpK, Cheb, SPARSE, 2, 1, 1, 1, 1, 3)
USER_OCP(OcpL, Cheb, DENSE, 2, 1, 1, 1, 1, 3)
PV_CASE(values_chebyshev_sparse, "Chebyshev nodes of order 2, two segments, sparse") { exact(); values<OcpK>(); }
PV_CASE(values_chebyshev_dense, "Chebyshev nodes of order 2, two segments") { exact(); values<OcpL>(); }
