#include "qp_session.hpp"
// P02: refinement of the splitting
#define STEPS(K, name) \
PV_CASE(step_##name##_dense, "two iterations equal the reference splitting, all bound types") { Opt o = opt(2, 0); once<K, 2, 1, DENSE, LOW>(o, STEP); } \
PV_CASE(step_##name##_dense_full, "two iterations equal the reference splitting, full storage") { Opt o = opt(2, 0); once<K, 2, 1, DENSE, UPLO>(o, STEP, MIXED); } \
PV_CASE(step_##name##_noguess, "without a guess the solver starts from zero") { Opt o = opt(2, 0); o.guess = false; once<K, 2, 1, DENSE, LOW>(o, STEP, MIXED); } \
PV_CASE(step_##name##_tall, "more constraints than variables") { Opt o = opt(2, 0); once<K, 1, 2, DENSE, LOW>(o, STEP, MIXED); } \
PV_CASE(step_##name##_adaptive, "iterations after the step size was adapted") { Opt o = opt(3, 0, true, 1); once<K, 2, 1, DENSE, LOW>(o, STEP, CHOSEN); } \
PV_CASE(step_##name##_adaptive_small, "iterations after the step size was adapted, one variable and one constraint") { Opt o = opt(2, 0, true, 1); once<K, 1, 1, DENSE, LOW>(o, STEP, CHOSEN); } \
PV_CASE(step_##name##_adaptive_sp, "iterations after the step size was adapted, sparse") { Opt o = opt(2, 0, true, 1); o.sym_alpha = o.sym_rho = false; once<K, 2, 1, SPARSE, UPLO>(o, STEP, CHOSEN); } \
PV_CASE(step_##name##_adaptive_lo, "iterations after the step size was adapted, sparse lower storage") { Opt o = opt(2, 0, true, 1); once<K, 2, 1, SPARSE, LOW>(o, STEP, MIXED); } \
PV_CASE(t_step_##name##_big, "larger dimensions") { Opt o = opt(3, 0); once<K, 3, 2, DENSE, LOW>(o, STEP, MIXED); }
STEPS(FULL, full)
