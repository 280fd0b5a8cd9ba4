#include "autodiff.hpp"
PV_CASE(nested_arithmetic, "second derivatives: operators") { each<Nested, ARITH, COMPOUND>(); }
PV_CASE(nested_functions, "second derivatives: functions") { each<Nested, FUNCS, f_atan2>(); }
PV_CASE(nested_select, "second derivatives: comparisons, min, max") { each<Nested, compare, comparek, kcompare, f_min, f_max>(); }
PV_CASE(nested_expressions, "second derivatives: compound expressions") { each<Nested, c1, c2, c3, c4, c5, c6, c7>(); }
