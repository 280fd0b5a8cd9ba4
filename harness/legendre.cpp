// Contracts of the Legendre-Gauss-Lobatto basis.  The polynomial root finder is a callee with the contract "returns all roots,
// in any order"; everything else is the real code.
#include "poly_common.hpp"
#include <unsupported/Eigen/Polynomials>
#ifndef PV_DOUBLE
/** contract of Eigen::PolynomialSolver for the even and odd polynomials of degree up to 4 that occur here */
namespace Eigen {
template<int Deg> class RootContract {
    Matrix<pv::Sym, Deg, 1> r;
public:
    template<class P> void compute(const P& p) {
        ensure("root finder is given a polynomial of its degree", p.size() == Deg + 1);
        ensure("degree covered by the contract", Deg <= 5);
        std::vector<S> z; const S lead(p(Deg));
        ensure("leading coefficient is nonzero", negate(eq(lead, S(0.0))));
        for (int i = Deg - 1; i >= 0; i -= 2) ensure("polynomial is even or odd", eq(S(p(i)), S(0.0)));
        using std::sqrt;
        if (Deg == 1 || Deg % 2) z.push_back(S(0.0));
        if (Deg == 2 || Deg == 3) { S a = sqrt(-S(p(Deg < 2 ? 0 : Deg - 2)) / lead); z.push_back(a); z.push_back(-a); }
        if (Deg == 4 || Deg == 5) {
            S b = S(p(Deg < 2 ? 0 : Deg - 2)) / lead, c = S(p(Deg < 4 ? 0 : Deg - 4)) / lead, w = sqrt(b * b - S(4.0) * c), u = sqrt((-b + w) / S(2.0)), v = sqrt((-b - w) / S(2.0));
            z.push_back(u); z.push_back(v); z.push_back(-u); z.push_back(-v);
        }
        ensure("all roots", (int)z.size() == Deg);
        for (auto& x : z) { S e(0.0); for (int i = Deg; i >= 0; --i) e = e * x + S(p(i)); ensure("contract of the root finder: roots", eq(e, S(0.0))); lemma("contract of the root finder: roots are inside", both(lt(S(-1.0), x), lt(x, S(1.0)))); }
        const int rot = choose("order of the roots", Deg);
        for (int i = 0; i < Deg; ++i) r(i) = z[(i + rot) % Deg];
    }
    const Matrix<pv::Sym, Deg, 1>& roots() const { return r; }
};
template<int Deg> class PolynomialSolver<pv::Sym, Deg> : public RootContract<Deg> {};
template<> class PolynomialSolver<pv::Sym, 1> : public RootContract<1> {};
}
#endif
#include "polynomials/legendre.hpp"
#include "polynomials/projection.hpp"
#include "polynomials/splines.hpp"

/** coefficients of the Legendre polynomials by the three-term recurrence */
static std::vector<std::vector<S>> legendre(int n) {
    std::vector<std::vector<S>> L(n + 1, std::vector<S>(n + 1, S(0.0))); L[0][0] = S(1.0); if (n > 0) L[1][1] = S(1.0);
    for (int k = 1; k < n; ++k) for (int i = 0; i <= n; ++i) L[k + 1][i] = (S(2.0 * k + 1) * (i ? L[k][i - 1] : S(0.0)) - S((double)k) * L[k - 1][i]) / S(k + 1.0);
    return L;
}
static S value(const std::vector<S>& c, const S& x) { S r(0.0); for (size_t i = c.size(); i-- > 0;) r = r * x + c[i]; return r; }
template<int N> void basis() {
    ideal_constants(); using C = polympc::Legendre<N, polympc::GAUSS_LOBATTO, S>; using Sp = polympc::Spline<C, 3>; C b; const auto L = legendre(N);
    const std::string o = "order " + std::to_string(N) + ": ";
    auto X = C::compute_nodes(); auto D = C::compute_diff_matrix(); auto W = C::compute_int_weights(); auto Q = C::compute_quad_weights(); auto F = C::compute_norm_factors(); auto Bs = C::compute_basis();
    ensure_eq(o + "nodes of the object", b.CPoints(), X); ensure_eq(o + "D of the object", b.D(), D); ensure_eq(o + "weights of the object", b.QWeights(), Q); ensure_eq(o + "integration weights", W, Q); ensure_eq(o + "factors of the object", b.NFactors(), F);
    ensure_eq(o + "nodes of the spline", Sp::compute_nodes(), X); ensure_eq(o + "D of the spline", Sp::compute_diff_matrix(), D); ensure_eq(o + "weights of the spline", Sp::compute_int_weights(), W);
    ensure(o + "constants", int(Sp::NUM_NODES) == 3 * N + 1 && int(C::NUM_NODES) == N + 1 && int(C::POLY_ORDER) == N);
    for (int k = 0; k <= N; ++k) for (int i = 0; i <= N; ++i) ensure(o + "Legendre polynomial " + std::to_string(k) + ", coefficient " + std::to_string(i), eq(S(Bs(i, k)), L[k][i]));
    ensure(o + "end nodes", both(eq(X(0), S(-1.0)), eq(X(N), S(1.0))));
    Poly PN; PN.c = L[N]; const Poly dP = PN.d();
    for (int k = 1; k < N; ++k) { ensure(o + "interior node is an extremum of the Legendre polynomial", eq(dP(X(k)), S(0.0))); }
    for (int k = 0; k < N; ++k) lemma(o + "nodes are ascending and distinct", lt(X(k), X(k + 1)));
    const S u = input("u", -0.99, 0.99); require(lt(S(-1.0), u)); require(lt(u, S(1.0))); for (int n = 0; n <= N; ++n) ensure(o + "evaluation of a basis polynomial", eq(b.eval(u, n), value(L[n], u)));
    const Poly p = poly(N), dp = p.d();
    for (int k = 0; k <= N; ++k) { S r(0.0); for (int j = 0; j <= N; ++j) r = r + D(k, j) * p(X(j)); ensure(o + "derivative at node " + std::to_string(k), eq(r, dp(X(k)))); }
    const Poly q = poly(2 * N - 1, "q"); S s(0.0); for (int j = 0; j <= N; ++j) s = s + Q(j) * q(X(j));
    ensure(o + "weights integrate polynomials of degree 2N-1", eq(s, q.integral(S(-1.0), S(1.0))));
    g_poly = q; const S a = input("a"), c = input("b"); ensure(o + "integral over [a,b]", eq(b.template integrate<Integrand>(a, c), q.integral(a, c)));
    ensure(o + "density", eq(C::weight(u), S(1.0)));
}
template<int N> void projection() {
    ideal_constants(); using C = polympc::Legendre<N, polympc::GAUSS_LOBATTO, S>; const Poly p = poly(N);
    const S u = input("u", -0.99, 0.99), a = input("a", -2, 0), c = input("b", 0.5, 3); require(lt(a, c)); require(lt(S(-1.0), u)); require(lt(u, S(1.0)));
    const S x = (c - a) / S(2.0) * u + (c + a) / S(2.0);
    Projection<C> P(p); ensure("projection on [-1,1] reproduces, order " + std::to_string(N), eq(P.eval(u), p(u)));
    P.project(p, a, c); ensure("projection on [a,b] reproduces, order " + std::to_string(N), eq(P.eval(x), p(x)));
}
template<int N> struct Basis { static void run() { basis<N>(); } };
template<int N> struct Proj { static void run() { projection<N>(); } };
PV_CASE(legendre_2, "basis of order 2") { basis<2>(); }
PV_CASE(legendre_3, "basis of order 3") { basis<3>(); }
PV_CASE(legendre_4, "basis of order 4") { basis<4>(); }
PV_CASE(legendre_5, "basis of order 5") { basis<5>(); }
PV_CASE(legendre_projection, "projection, orders 2 to 4") { pick_order<Proj, 2>(std::make_integer_sequence<int, 3>()); }
