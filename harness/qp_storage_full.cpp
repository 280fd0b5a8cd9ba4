#include "qp_session.hpp"
// P03: storage, reuse, history
#define SPARSES(K, name) \
PV_CASE(sparse_##name##_low, "sparse, lower storage") { Opt o = opt(2, 0); once<K, 2, 1, SPARSE, LOW>(o, STEP); } \
PV_CASE(sparse_##name##_uplo, "sparse, full storage") { Opt o = opt(2, 0); once<K, 2, 1, SPARSE, UPLO>(o, STEP, MIXED); } \
PV_CASE(sparse_##name##_pattern, "sparse with structural zeros") { const int ps[] = {1, 2, 4, 7, 8, 16, 25, 31}; Opt o = opt(1, 0); o.zeros = ps[choose("pattern", 8)]; once<K, 2, 2, SPARSE, UPLO>(o, STEP, MIXED); } \
PV_CASE(sparse_##name##_patternl, "sparse with structural zeros, lower storage") { const int ps[] = {1, 2, 4, 7, 8, 16, 25, 31}; Opt o = opt(1, 0); o.zeros = ps[choose("pattern", 8)]; once<K, 2, 2, SPARSE, LOW>(o, STEP, MIXED); } \
PV_CASE(reuse_##name##_low, "pattern reuse after another solve, lower storage") { const int ps[] = {0, 3, 4, 8, 16, 25}; twice<K, 2, 2, SPARSE, LOW>(true, ps[choose("pattern", 6)], false, STEP); } \
PV_CASE(reuse_##name##_uplo, "pattern reuse after another solve, full storage") { const int ps[] = {0, 3, 4, 8, 16, 25}; twice<K, 2, 2, SPARSE, UPLO>(true, ps[choose("pattern", 6)], false, STEP); } \
PV_CASE(history_##name##_dense, "second solve of a dense solver object") { twice<K, 2, 1, DENSE, UPLO>(false, 0, false, STEP); } \
PV_CASE(history_##name##_sparse, "second solve of a sparse solver object without reuse") { twice<K, 2, 1, SPARSE, UPLO>(false, 0, false, STEP); } \
PV_CASE(history_##name##_adaptive, "second solve with adaptation") { twice<K, 2, 1, DENSE, LOW>(false, 0, true, STEP); }
SPARSES(FULL, full)
