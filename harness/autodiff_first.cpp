#include "autodiff.hpp"
PV_CASE(fixed_arithmetic, "fixed-size derivative vector: operators") { each<Fixed, ARITH, COMPOUND>(); }
PV_CASE(fixed_functions, "fixed-size derivative vector: functions") { each<Fixed, FUNCS, f_atan2, f_pow3, f_pow1, f_powm2, f_powk>(); }
PV_CASE(fixed_select, "fixed-size derivative vector: comparisons, min, max") { each<Fixed, compare, comparek, kcompare, f_min, f_max, f_mink, f_maxk, f_kmin, f_kmax>(); }
PV_CASE(fixed_expressions, "fixed-size derivative vector: compound expressions") { each<Fixed, c1, c2, c3, c4, c5, c6, c7>(); }
PV_CASE(dynamic_arithmetic, "dynamic derivative vector: operators") { each<Dyn, ARITH, COMPOUND>(); }
PV_CASE(dynamic_functions, "dynamic derivative vector: functions") { each<Dyn, FUNCS, f_atan2, f_pow3, f_powk>(); }
PV_CASE(dynamic_expressions, "dynamic derivative vector: compound expressions") { each<Dyn, compare, f_min, f_max, c1, c2, c3, c4, c5, c6>(); }
PV_CASE(dynamic_empty_x, "left argument without derivatives") { each<Dyn, add, sub, mul, div_, neg, addk, kadd, subk, ksub, mulk, kmul, divk, kdiv, iadd, isub, imul, idiv, f_sin, f_exp, f_sqrt, f_abs, compare>(true, false); }
PV_CASE(dynamic_empty_y, "right argument without derivatives") { each<Dyn, add, sub, mul, div_, iadd, isub, imul, idiv, compare>(false, true); }
PV_CASE(dynamic_empty_atan2, "atan2 with one argument without derivatives") { const bool c = choose("which", 2) == 1; agree<Dyn, f_atan2>(c, !c); }
PV_CASE(dynamic_empty_both, "both arguments without derivatives") { each<Dyn, add, sub, mul, div_, iadd, imul, f_cos, c2, c5>(true, true); }
PV_CASE(constructors, "active variable, constant, conversion") {
    const S v = input("v"), w = input("w"); const int n = choose("index", 2);
    Fixed f(v, 2, n); Dyn d(v, 2, n);
    for (int i = 0; i < 2; ++i) { ensure("unit derivative", eq(S(f.derivatives()(i)), S(i == n ? 1.0 : 0.0))); ensure("unit derivative, dynamic", eq(S(d.derivatives()(i)), S(i == n ? 1.0 : 0.0))); }
    ensure("value", both(eq(f.value(), v), eq(d.value(), v)));
    Fixed c(v); Dyn e(v); ensure("constant", both(eq(c.value(), v), eq(e.value(), v))); for (int i = 0; i < 2; ++i) ensure("constant has zero derivatives", eq(S(c.derivatives()(i)), S(0.0)));
    ensure("dynamic constant has no derivatives", e.derivatives().size() == 0);
    Fixed g(f), h(w); h = f; Fixed p(v, f.derivatives()); for (int i = 0; i < 2; ++i) ensure("copies", both(eq(S(g.derivatives()(i)), S(f.derivatives()(i))), both(eq(S(h.derivatives()(i)), S(f.derivatives()(i))), eq(S(p.derivatives()(i)), S(f.derivatives()(i))))));
    ensure("copied values", both(eq(g.value(), v), both(eq(h.value(), v), eq(p.value(), v))));
}
template<class T> void matrices() {
    Eigen::Matrix<T, 2, 2> M; Eigen::Matrix<T, 2, 1> u; Jet jm[2][2], ju[2]; Mat<2, 2> K = input_mat<2, 2>("K"); const char* nm[] = {"a", "b", "c", "d"};
    for (int i = 0; i < 2; ++i) { u(i) = Make<T>::get(i ? "u1" : "u0", ju[i]); for (int j = 0; j < 2; ++j) M(i, j) = Make<T>::get(nm[2 * i + j], jm[i][j]); }
    Eigen::Matrix<T, 2, 1> Mu = M * u, s = u * S(3.0) + M.col(0), q = M.transpose() * u - u, kc = K.template cast<T>() * u;
    T d = u.dot(u), sum = M.sum();
    for (int i = 0; i < 2; ++i) {
        Make<T>::check("matrix-vector product", Mu(i), jm[i][0] * ju[0] + jm[i][1] * ju[1]);
        Make<T>::check("scaled sum", s(i), ju[i] * S(3.0) + jm[i][0]); Make<T>::check("transposed product", q(i), jm[0][i] * ju[0] + jm[1][i] * ju[1] - ju[i]);
        Make<T>::check("constant matrix times vector", kc(i), K(i, 0) * ju[0] + K(i, 1) * ju[1]);
    }
    Make<T>::check("dot product", d, ju[0] * ju[0] + ju[1] * ju[1]); Make<T>::check("sum of coefficients", sum, jm[0][0] + jm[0][1] + jm[1][0] + jm[1][1]);
}
PV_CASE(fixed_matrices, "matrices of active scalars") { matrices<Fixed>(); }
EXPR(sub1, truth(true), r = x * k + y) EXPR(sub2, truth(true), r = y - x * k) EXPR(sub3, truth(true), r = sin(x) * y)
PV_CASE(dynamic_empty_subexpression, "unevaluated subexpression of an argument without derivatives") { each<Dyn, sub1, sub2, sub3>(true, false); }
