// Contracts of the Chebyshev-Gauss-Lobatto basis: exactness on every polynomial (symbolic coefficients) over the exact
// algebraic nodes.
#include "poly_common.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/splines.hpp"
#include "polynomials/projection.hpp"
static S node(int k, int N) {
#ifdef PV_DOUBLE
    return std::cos(k * M_PI / N);
#else
    return cospi(k, N);
#endif
}
static void begin(int N) { if (symbolic) {
#ifndef PV_DOUBLE
    field(N); ideal_constants();
#endif
    } }
static S pi() {
#ifdef PV_DOUBLE
    return M_PI;
#else
    return uf("pi", {});
#endif
}
template<int N> void basis() {
    begin(N); using C = polympc::Chebyshev<N, polympc::GAUSS_LOBATTO, S>; C b; using Sp = polympc::Spline<C, 2>;
    const std::string o = "order " + std::to_string(N) + ": ";
    auto X = C::compute_nodes(); auto D = C::compute_diff_matrix(); auto W = C::compute_int_weights(); auto Q = C::compute_quad_weights(); auto F = C::compute_norm_factors();
    ensure_eq(o + "nodes of the object", b.CPoints(), X); ensure_eq(o + "D of the object", b.D(), D); ensure_eq(o + "integration weights of the object", b.CCQWeights(), W); ensure_eq(o + "quadrature weights of the object", b.QWeights(), Q); ensure_eq(o + "factors of the object", b.NFactors(), F);
    ensure_eq(o + "nodes of the spline", Sp::compute_nodes(), X); ensure_eq(o + "D of the spline", Sp::compute_diff_matrix(), D); ensure_eq(o + "weights of the spline", Sp::compute_int_weights(), W); ensure_eq(o + "quadrature weights of the spline", Sp::compute_quad_weights(), Q); ensure_eq(o + "factors of the spline", Sp::compute_norm_factors(), F);
    ensure(o + "constants of the spline", int(Sp::NUM_NODES) == 2 * N + 1 && int(C::NUM_NODES) == N + 1 && int(C::POLY_ORDER) == N && int(Sp::POLY_ORDER) == N && int(Sp::NUM_SEGMENTS) == 2);
    for (int k = 0; k <= N; ++k) ensure(o + "node " + std::to_string(k) + " is cos(k pi/N)", eq(X(k), node(k, N)));
    const Poly p = poly(N), dp = p.d();
    for (int k = 0; k <= N; ++k) { S r(0.0); for (int j = 0; j <= N; ++j) r = r + D(k, j) * p(node(j, N)); ensure(o + "derivative at node " + std::to_string(k), eq(r, dp(node(k, N)))); }
    S r(0.0); for (int j = 0; j <= N; ++j) r = r + W(j) * p(node(j, N)); ensure(o + "Clenshaw-Curtis weights integrate", eq(r, p.integral(S(-1.0), S(1.0))));
    const Poly q = poly(2 * N - 1, "q"); S s(0.0), e(0.0); for (int j = 0; j <= N; ++j) s = s + Q(j) * q(node(j, N));
    for (int i = 0; i <= 2 * N - 1; i += 2) { S m(1.0); for (int k = 1; k < i; k += 2) m = m * S((double)k) / S((double)k + 1); e = e + q.c[i] * m * pi(); }
    ensure(o + "Chebyshev weights integrate against the density", eq(s, e));
}
template<int N> void integral() {
    begin(N); polympc::Chebyshev<N, polympc::GAUSS_LOBATTO, S> b; g_poly = poly(N); const S a = input("a"), c = input("b");
    ensure("integral over [a,b], order " + std::to_string(N), eq(b.template integrate<Integrand>(a, c), g_poly.integral(a, c)));
    ensure("integral over [-1,1], order " + std::to_string(N), eq(b.template integrate<Integrand>(), g_poly.integral(S(-1.0), S(1.0))));
}
template<int N> void projection() {
    begin(N); using C = polympc::Chebyshev<N, polympc::GAUSS_LOBATTO, S>; const Poly p = poly(N); C b;
    const S u = input("u", -0.99, 0.99); require(lt(S(-1.0), u)); require(lt(u, S(1.0)));
    S t0(1.0), t1 = u; for (int n = 0; n <= N; ++n) { ensure("T_n", eq(b.eval(u, n), t0)); S t2 = S(2.0) * u * t1 - t0; t0 = t1; t1 = t2; }
    { S w0(1.0), w1 = u; for (int n = 0; n < N; ++n) { S w2 = S(2.0) * u * w1 - w0; w0 = w1; w1 = w2; } ensure("polynomial of the basis order", eq(C::eval(u), w0)); }
    using std::sqrt; ensure("density", eq(C::weight(u), S(1.0) / sqrt(S(1.0) - u * u)));
    Projection<C> P(p); ensure("projection on [-1,1] reproduces, order " + std::to_string(N), eq(P.eval(u), p(u)));
    const S a = input("a", -2, 0), c = input("b", 0.5, 3); require(lt(a, c));
    const S x = (c - a) / S(2.0) * u + (c + a) / S(2.0);
    Projection<C> R(p, a, c); ensure("projection on [a,b] reproduces, order " + std::to_string(N), eq(R.eval(x), p(x)));
    const Poly q = poly(N, "q"); P.project(q, a, c); ensure("second projection with the same object, order " + std::to_string(N), eq(P.eval(x), q(x)));
}
template<int N> struct Basis { static void run() { basis<N>(); } };
template<int N> struct Integral { static void run() { integral<N>(); } };
template<int N> struct Proj { static void run() { projection<N>(); } };
PV_CASE(chebyshev_basis, "nodes, differentiation matrix, weights, orders 2 to 8") { pick_order<Basis, 2>(std::make_integer_sequence<int, 7>()); }
PV_CASE(chebyshev_integrate, "integrate(), orders 2 to 6") { pick_order<Integral, 2>(std::make_integer_sequence<int, 5>()); }
PV_CASE(chebyshev_projection, "projection, orders 2 to 5") { pick_order<Proj, 2>(std::make_integer_sequence<int, 4>()); }
#ifdef PV_THOROUGH
PV_CASE(t_chebyshev_basis, "nodes, differentiation matrix, weights, orders 9, 10, 12") { const int k = choose("order", 3); k == 0 ? basis<9>() : k == 1 ? basis<10>() : basis<12>(); }
PV_CASE(t_chebyshev_projection, "projection, orders 6 and 8") { choose("order", 2) ? projection<6>() : projection<8>(); }
#endif
