#include "qp_session.hpp"
// P01: certificate
#define POSTS(K, name) \
PV_CASE(post_##name##_dense, "SOLVED after iteration 1 implies the certificate, dense") { Opt o = opt(1, 1); once<K, 2, 1, DENSE, LOW>(o, POST); } \
PV_CASE(post_##name##_iter2, "SOLVED after iteration 2 (arbitrary previous state) implies the certificate") { Opt o = opt(2, 2); once<K, 2, 1, DENSE, LOW>(o, POST, MIXED); } \
PV_CASE(post_##name##_sparse, "SOLVED implies the certificate, sparse") { Opt o = opt(1, 1); o.zeros = 0; once<K, 2, 1, SPARSE, UPLO>(o, POST, MIXED); } \
PV_CASE(post_##name##_adaptive, "SOLVED implies the certificate, after the step size was adapted") { Opt o = opt(2, 2, true, 1); o.sym_alpha = false; once<K, 2, 1, DENSE, LOW>(o, POST, MIXED); } \
PV_CASE(t_post_##name##_big, "SOLVED implies the certificate, 3 variables, 2 constraints") { Opt o = opt(2, 2); once<K, 3, 2, DENSE, LOW>(o, POST, MIXED); }
POSTS(BOX, box)
