// Contracts of the splines.
#include "poly_common.hpp"
#include "polynomials/splines.hpp"
using namespace polympc;
using Spl = EquidistantCubicSpline<S>;
using AD = Eigen::AutoDiffScalar<Eigen::Matrix<S, 2, 1>>;
using AD2 = Eigen::AutoDiffScalar<Eigen::Matrix<AD, 2, 1>>;

struct Ref { S v, d, dd; };
static Ref cubic(const Mat<4, -1>& C, int k, const S& x) {
    const int n = (int)C.cols(), i = std::max(0, std::min(n - 1, k));
    const S a = C(0, i), b = C(1, i), c = C(2, i), d = C(3, i);
    return Ref{a + b * x + c * x * x + d * x * x * x, b + S(2.0) * c * x + S(3.0) * d * x * x, S(2.0) * c + S(6.0) * d * x};
}
static void equidistant(int n) {
    Mat<4, -1> C(4, n); for (int i = 0; i < 4; ++i) for (int j = 0; j < n; ++j) C(i, j) = input(idx("C", i, j));
    const S L = input("L", 0.3, 2); require(lt(S(0.0), L));
    // every argument is of one of these forms: below the range, in cell k, at or above the end of the range (however far)
    const int k = choose("cell", n + 2) - 1; S x(0.0);
    if (k < 0) { const S g = input("below", 0, 10, {3e9, 1e20}); require(lt(S(0.0), g)); x = -g * L; }
    else if (k == n) { const S g = input("above", 0, 10, {0.0, 3e9, 1e20}); require(le(S(0.0), g)); x = (S((double)n) + g) * L; }
    else { const S f = input("f", 0, 1, {0.0}); require(le(S(0.0), f)); require(lt(f, S(1.0))); x = (S((double)k) + f) * L; }
    Spl s(C, L); ensure_eq("coefficients", s.coefficients(), C); ensure("segment length", eq(s.segment_length(), L));
    const std::string o = std::to_string(n) + " segments: ";
    const Ref r = cubic(C, k, x); ensure(o + "value", eq(s.eval(x), r.v));
    const S d0 = input("d0"), d1 = input("d1");
    { AD a; a.value() = x; a.derivatives()(0) = d0; a.derivatives()(1) = d1; AD e = s.eval(a); ensure(o + "value, active argument", eq(e.value(), r.v)); ensure(o + "derivative", both(eq(S(e.derivatives()(0)), r.d * d0), eq(S(e.derivatives()(1)), r.d * d1))); }
    { AD2 a; a.value().value() = x; for (int i = 0; i < 2; ++i) { a.value().derivatives()(i) = i ? d1 : d0; a.derivatives()(i).value() = i ? d1 : d0; a.derivatives()(i).derivatives().setZero(); }
      AD2 e = s.eval(a); ensure(o + "value, nested argument", eq(e.value().value(), r.v));
      for (int i = 0; i < 2; ++i) { ensure(o + "derivative, nested argument", both(eq(S(e.value().derivatives()(i)), r.d * (i ? d1 : d0)), eq(S(e.derivatives()(i).value()), r.d * (i ? d1 : d0)))); for (int j = 0; j < 2; ++j) ensure(o + "second derivative", eq(S(e.derivatives()(i).derivatives()(j)), r.dd * (i ? d1 : d0) * (j ? d1 : d0))); } }
    Spl t; t.coefficients() = C; t.segment_length() = L; ensure(o + "same spline built in place", eq(t.eval(x), r.v));
}
PV_CASE(equidistant_1, "one segment") { equidistant(1); }
PV_CASE(equidistant_2, "two segments") { equidistant(2); }
PV_CASE(equidistant_3, "three segments") { equidistant(3); }

template<int N, int Dim> void lagrange(bool dynamic) {
    const Vec<N> x = input_vec<N>("x"); for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) require(negate(eq(x(i), x(j))));
    for (int i = 0; i < N; ++i) { S p(1.0); for (int j = 0; j < N; ++j) if (i != j) p = p * (x(i) - x(j)); if (symbolic) { for (int j = 0; j < N; ++j) if (i != j) hint_nonzero_square("distance", x(i) - x(j)); } }
    Poly p[Dim]; Mat<Dim, N> V; for (int d = 0; d < Dim; ++d) { p[d] = poly(N - 1, ("p" + std::to_string(d)).c_str()); for (int i = 0; i < N; ++i) V(d, i) = p[d](x(i)); }
    const S t = input("t"); Mat<Dim, 1> v;
    if (dynamic) { Eigen::Matrix<S, -1, -1> B; Eigen::Matrix<S, -1, 1> xd = x; LagrangeSpline::compute_lagrange_basis(xd, B); v = LagrangeSpline::eval(t, V, B); }
    else { Mat<N, N> B; LagrangeSpline::compute_lagrange_basis(x, B); v = LagrangeSpline::eval(t, V, B); for (int k = 0; k < N; ++k) for (int i = 0; i < N; ++i) { S b(0.0); for (int j = N; j-- > 0;) b = b * x(k) + B(i, j); ensure("basis polynomial " + std::to_string(i) + " at node " + std::to_string(k), eq(b, S(i == k ? 1.0 : 0.0))); } }
    for (int d = 0; d < Dim; ++d) ensure(std::to_string(N) + " nodes: interpolant reproduces the polynomial, component " + std::to_string(d), eq(v(d), p[d](t)));
}
PV_CASE(lagrange_2, "two nodes") { division_checks(false); lagrange<2, 1>(choose("dynamic", 2)); }
PV_CASE(lagrange_3, "three nodes, vector data") { division_checks(false); lagrange<3, 2>(choose("dynamic", 2)); }
PV_CASE(lagrange_4, "four nodes") { division_checks(false); lagrange<4, 1>(false); }
