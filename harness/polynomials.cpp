// Contracts of the polynomial algebra on coefficient vectors.
#include "poly_common.hpp"
#include "polynomials/polynomial_math.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/projection.hpp"
using namespace polympc::polymath;

/** coefficient vector; bit i of zeros: coefficient i is exactly zero; the others are not below the machine precision the code treats as zero */
template<int N> Vec<N> coeffs(const char* n, int zeros) {
    Vec<N> v; const S eps(std::numeric_limits<double>::epsilon());
    for (int i = 0; i < N; ++i) if (zeros >> i & 1) v(i) = S(0.0); else { v(i) = input(idx(n, i)); require(le(eps, sabs(v(i)))); }
    return v;
}
template<int N> void product() {
    const int z1 = choose("zeros of the first factor", 1 << N), z2 = choose("zeros of the second factor", 1 << N);
    const Vec<N> p = coeffs<N>("p", z1), q = coeffs<N>("q", z2), r = poly_mul(p, q);
    for (int k = 0; k < N; ++k) { S e(0.0); for (int i = 0; i <= k; ++i) e = e + p(i) * q(k - i); ensure("coefficient " + std::to_string(k) + " of the product", eq(r(k), e)); }
}
template<int N> void derivative() {
    const Vec<N> p = input_vec<N>("p"); const Vec<N> d = poly_diff(p);
    for (int k = 0; k < N; ++k) ensure("coefficient " + std::to_string(k) + " of the derivative", eq(d(k), k + 1 < N ? S(k + 1.0) * p(k + 1) : S(0.0)));
}
template<int N> void expressions() {
    const Mat<N, 2> M = input_mat<N, 2>("M"); const S eps(std::numeric_limits<double>::epsilon()); for (int i = 0; i < N; ++i) for (int j = 0; j < 2; ++j) require(le(eps, sabs(M(i, j))));
    const Vec<N> r = poly_mul(M.col(0), M.col(1)), d = poly_diff(M.col(1));
    for (int k = 0; k < N; ++k) { S e(0.0); for (int i = 0; i <= k; ++i) e = e + M(i, 0) * M(k - i, 1); ensure("product of columns, coefficient " + std::to_string(k), eq(r(k), e)); ensure("derivative of a column, coefficient " + std::to_string(k), eq(d(k), k + 1 < N ? S(k + 1.0) * M(k + 1, 1) : S(0.0))); }
    const Vec<N> c = M.col(0); const S x = input("x"); S v(0.0); for (int i = N; i-- > 0;) v = v * x + c(i);
    ensure("value at x", eq(S(Eigen::poly_eval(c, x)), v));
    const auto h = segment<Vec<N>, N - 1>(c, 1); for (int i = 0; i + 1 < N; ++i) ensure("segment", eq(S(h(i)), c(i + 1)));
}
PV_CASE(product_1, "constants") { product<1>(); }
PV_CASE(product_2, "linear factors") { product<2>(); }
PV_CASE(product_3, "quadratic factors, every pattern of zero coefficients") { product<3>(); }
PV_CASE(product_4, "cubic factors, every pattern of zero coefficients") { product<4>(); }
PV_CASE(derivatives, "derivative coefficients") { derivative<2>(); derivative<3>(); derivative<4>(); derivative<6>(); }
PV_CASE(column_expressions, "block arguments, evaluation") { expressions<2>(); expressions<3>(); expressions<5>(); }
/** any orthogonal basis: values e, nodes, weights and factors related by discrete orthogonality */
struct AnyBasis {
    using scalar_t = S; using q_weights_t = Vec<3>; using nodes_t = Vec<3>;
    Vec<3> x, w, f;
    AnyBasis() { for (int i = 0; i < 3; ++i) { x(i) = input(idx("node", i)); w(i) = input(idx("weight", i)); f(i) = input(idx("factor", i)); } }
    q_weights_t QWeights() const { return w; } nodes_t CPoints() const { return x; } q_weights_t NFactors() const { return f; }
    S eval(const S& a, int n) const { return n == 0 ? S(1.0) : n == 1 ? a : a * a + input("b"); }
};
PV_CASE(projection_definition, "coefficients and value of a projection, by definition, for any basis") {
    AnyBasis B; const Poly p = poly(3); const S a = input("a", -2, 0), b = input("c", 0.5, 2), u = input("u"); require(lt(a, b));
    for (int which = 0; which < 3; ++which) {
        const S lo = which == 0 ? S(-1.0) : a, hi = which == 0 ? S(1.0) : b, s = (hi - lo) / S(2.0), m = (hi + lo) / S(2.0);
        Projection<AnyBasis> P = which == 0 ? Projection<AnyBasis>(p) : Projection<AnyBasis>(p, which == 1 ? a : S(-1.0), which == 1 ? b : S(1.0)); if (which == 2) P.project(p, a, b);
        S v(0.0);
        for (int n = 0; n < 3; ++n) { S c(0.0); for (int i = 0; i < 3; ++i) c = c + p(s * B.x(i) + m) * B.eval(B.x(i), n) * B.w(i); ensure("coefficient " + std::to_string(n), eq(P.coeff(n), B.f(n) * c)); v = v + P.coeff(n) * B.eval((u - m) / s, n); }
        ensure("value of the projection", eq(P.eval(u), v));
    }
}
