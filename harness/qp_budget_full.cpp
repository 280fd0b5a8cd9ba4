#include "qp_session.hpp"
// P04: status, budget, adaptation
#define BUDGETS(K, name) \
PV_CASE(budget_##name##_every, "test after every iteration") { Opt o = opt(2, 1); o.sym_alpha = false; once<K, 2, 1, DENSE, LOW>(o, BUDGET, MIXED); } \
PV_CASE(budget_##name##_second, "test after every second iteration, budget three") { Opt o = opt(3, 2); o.sym_alpha = false; once<K, 1, 1, DENSE, LOW>(o, BUDGET, MIXED); } \
PV_CASE(budget_##name##_never, "tests switched off") { Opt o = opt(2, 0); o.sym_alpha = false; once<K, 1, 1, DENSE, LOW>(o, BUDGET, MIXED); } \
PV_CASE(budget_##name##_default, "default interval is larger than the budget") { Opt o = opt(3, 25); o.sym_alpha = false; once<K, 1, 1, DENSE, LOW>(o, BUDGET, MIXED); } \
PV_CASE(budget_##name##_types, "classification of all bound types") { Opt o = opt(1, 1); o.sym_alpha = false; once<K, 1, 1, DENSE, LOW>(o, BUDGET | STEP, ANY); } \
PV_CASE(budget_##name##_adaptive, "adaptation at every iteration") { Opt o = opt(2, 0, true, 1); o.sym_alpha = false; once<K, 1, 1, DENSE, LOW>(o, BUDGET | STEP, INEQ); } \
PV_CASE(budget_##name##_adaptive2, "adaptation at every second iteration, tests at every iteration") { Opt o = opt(3, 1, true, 2); o.sym_alpha = false; once<K, 1, 1, DENSE, LOW>(o, BUDGET, INEQ); }
BUDGETS(FULL, full)
