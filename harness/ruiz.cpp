// Contracts of the QP preconditioners: compute() produces positive scalings and exactly the scaled problem, unscale() restores
// the data, the solution maps are mutually inverse and carry constraint values and stationarity back to the original problem.
#include "qp_common.hpp"
#include "solvers/qp_preconditioners.hpp"
using namespace pv; using namespace qpv; using namespace polympc;

using Sp = Eigen::SparseMatrix<S>;
template<int R, int C> Sp to_sparse(const Mat<R, C>& m, const Eigen::Matrix<int, R, C>& mask) {
    Sp s(R, C); s.reserve(Eigen::VectorXi::Constant(C, R));
    for (int j = 0; j < C; ++j) for (int i = 0; i < R; ++i) if (mask(i, j)) s.insert(i, j) = m(i, j);
    return s;
}
template<int N, int M, int Fmt> struct Data {
    using HT = typename std::conditional<Fmt == DENSE, Mat<N, N>, Sp>::type;
    using AT = typename std::conditional<Fmt == DENSE, Mat<M, N>, Sp>::type;
    HT H; AT A; Vec<N> h, l, u; Vec<M> al, au;
    Mat<N, N> H0; Mat<M, N> A0; Vec<N> h0, l0, u0; Vec<M> al0, au0;      // original values
    Eigen::Matrix<int, N, N> mh; Eigen::Matrix<int, M, N> ma;
    template<int F = Fmt> typename std::enable_if<F == DENSE>::type load() { H = H0; A = A0; }
    template<int F = Fmt> typename std::enable_if<F == SPARSE>::type load() { H = to_sparse<N, N>(H0, mh); A = to_sparse<M, N>(A0, ma); }
    // bit 0: H(0,0) absent, bit 1: H zero, bit 2: first row of A zero, bit 3: h zero; absent entries are structural zeros in sparse storage
    void make(int zeros, bool structural, const std::string& p = "") {
        mh.setOnes(); ma.setOnes();
        for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) { H0(i, j) = input(idx(p + "H", i, j)); H0(j, i) = H0(i, j); }
        A0 = input_mat<M, N>(p + "A"); h0 = input_vec<N>(p + "h"); l0 = input_vec<N>(p + "l"); u0 = input_vec<N>(p + "u"); al0 = input_vec<M>(p + "al"); au0 = input_vec<M>(p + "au");
        if (zeros & 1) { for (int i = 0; i < N; ++i) { H0(0, i) = H0(i, 0) = S(0.0); mh(0, i) = mh(i, 0) = 0; } }
        if (zeros & 2) { H0.setZero(); mh.setZero(); }
        if (zeros & 4) for (int j = 0; j < N; ++j) { A0(0, j) = S(0.0); ma(0, j) = 0; }
        if (zeros & 8) h0.setZero();
        if (!structural) { mh.setOnes(); ma.setOnes(); }
        load(); h = h0; l = l0; u = u0; al = al0; au = au0;
    }
    DynM dH() const { return densify(H); }
    DynM dA() const { return densify(A); }
};
template<int N, int M, int Fmt> S entry_norm(const Data<N, M, Fmt>& d) {
    S m(0.0); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m = smax(m, sabs(d.H0(i, j)));
    for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) m = smax(m, sabs(d.A0(i, j)));
    return m;
}
template<int N, int M, int Fmt, class P> void scaled(const std::string& t, const Data<N, M, Fmt>& d, const P& p) {
    const S c = p.c(); Mat<N, N> H; Mat<M, N> A; Vec<N> h, l, u; Vec<M> al, au;
    for (int i = 0; i < N; ++i) { for (int j = 0; j < N; ++j) H(i, j) = c * p.D(i) * d.H0(i, j) * p.D(j); h(i) = c * p.D(i) * d.h0(i); l(i) = d.l0(i) / p.D(i); u(i) = d.u0(i) / p.D(i); }
    for (int i = 0; i < M; ++i) { for (int j = 0; j < N; ++j) A(i, j) = p.E(i) * d.A0(i, j) * p.D(j); al(i) = p.E(i) * d.al0(i); au(i) = p.E(i) * d.au0(i); }
    ensure_eq(t + "Hessian is scaled", d.dH(), H); ensure_eq(t + "gradient is scaled", d.h, h); ensure_eq(t + "constraint matrix is scaled", d.dA(), A);
    ensure_eq(t + "lower bounds are scaled", d.al, al); ensure_eq(t + "upper bounds are scaled", d.au, au); ensure_eq(t + "lower box is scaled", d.l, l); ensure_eq(t + "upper box is scaled", d.u, u);
}
template<int N, int M, int Fmt> void same(const std::string& t, const Data<N, M, Fmt>& d) {
    ensure_eq(t + "Hessian", d.dH(), d.H0); ensure_eq(t + "gradient", d.h, d.h0); ensure_eq(t + "constraint matrix", d.dA(), d.A0);
    ensure_eq(t + "lower bounds", d.al, d.al0); ensure_eq(t + "upper bounds", d.au, d.au0); ensure_eq(t + "lower box", d.l, d.l0); ensure_eq(t + "upper box", d.u, d.u0);
}
template<int N, int M, class P> void solution_maps(const P& p) {
    Vec<N> x = input_vec<N>("x"), x0 = x; Vec<M + N> y = input_vec<M + N>("y"), y0 = y;
    p.unscale(x, y);
    for (int i = 0; i < N; ++i) ensure("unscaled primal variable " + std::to_string(i), eq(x(i), p.D(i) * x0(i)));
    for (int i = 0; i < M; ++i) ensure("unscaled constraint multiplier " + std::to_string(i), eq(p.c() * y(i), p.E(i) * y0(i)));
    for (int i = 0; i < N; ++i) ensure("unscaled box multiplier " + std::to_string(i), eq(p.c() * p.D(i) * y(M + i), y0(M + i)));
    p.scale(x, y);
    ensure_eq("scale(unscale(x))", x, x0); ensure_eq("scale(unscale(y))", y, y0);
}
/** mapping a point of the scaled problem back keeps constraint values and stationarity (times the positive scalings) */
template<int N, int M, int Fmt, class P> void transfer(const Data<N, M, Fmt>& d, const P& p) {
    Vec<N> x = input_vec<N>("xs"), xs = x; Vec<M + N> y = input_vec<M + N>("ys"), ys = y;
    p.unscale(x, y); DynM H = d.dH(), A = d.dA();
    for (int i = 0; i < M; ++i) { S v(0.0), w(0.0); for (int j = 0; j < N; ++j) { v = v + d.A0(i, j) * x(j); w = w + A(i, j) * xs(j); } ensure("constraint value carried back, row " + std::to_string(i), eq(p.E(i) * v, w)); }
    for (int i = 0; i < N; ++i) {
        S g = d.h0(i) + y(M + i), gs = d.h(i) + ys(M + i);
        for (int j = 0; j < N; ++j) { g = g + d.H0(i, j) * x(j); gs = gs + H(i, j) * xs(j); }
        for (int j = 0; j < M; ++j) { g = g + d.A0(j, i) * y(j); gs = gs + A(j, i) * ys(j); }
        ensure("stationarity carried back, row " + std::to_string(i), eq(p.c() * p.D(i) * g, gs));
    }
}
template<int N, int M, int Fmt> void compute_case(int zeros, bool structural, bool one_pass) {
    RuizEquilibration<S, N, M, Fmt> p; Data<N, M, Fmt> d; d.make(zeros, structural);
    if (one_pass) require(le(S(1.0), entry_norm(d)));
    p.compute(d.H, d.h, d.A, d.al, d.au, d.l, d.u);
    for (int i = 0; i < N; ++i) lemma("variable scaling is positive", lt(S(0.0), p.D(i)));
    for (int i = 0; i < M; ++i) lemma("constraint scaling is positive", lt(S(0.0), p.E(i)));
    lemma("cost scaling is positive", lt(S(0.0), p.c()));
    scaled("after compute, ", d, p);
    transfer(d, p);
    p.unscale(d.H, d.h, d.A, d.al, d.au, d.l, d.u);
    same("unscale restores the ", d);
}
/** any positive scaling: scale, unscale, unscale_hessian, solution maps; compute() forgets it */
template<int N, int M, int Fmt> void applied() {
    RuizEquilibration<S, N, M, Fmt> p; Data<N, M, Fmt> d; d.make(0, true);
    p.D = input_vec<N>("D", 0.1, 3); p.E = input_vec<M>("E", 0.1, 3); p.c() = input("c", 0.1, 3);
    for (int i = 0; i < N; ++i) require(lt(S(0.0), p.D(i)));
    for (int i = 0; i < M; ++i) require(lt(S(0.0), p.E(i)));
    require(lt(S(0.0), p.c()));
    p.scale(d.H, d.h, d.A, d.al, d.au, d.l, d.u);
    scaled("after scale, ", d, p); transfer(d, p); solution_maps<N, M>(p);
    auto Hs = d.H; p.unscale_hessian(Hs); ensure_eq("unscale_hessian", densify(Hs), d.H0);
    p.unscale(d.H, d.h, d.A, d.al, d.au, d.l, d.u);
    same("unscale restores the ", d);
}
template<int N, int M, int Fmt> void fresh_after_use() {
    RuizEquilibration<S, N, M, Fmt> p; Data<N, M, Fmt> d; d.make(8, false); require(le(S(1.0), entry_norm(d)));
    p.D = input_vec<N>("D", 0.1, 3); p.E = input_vec<M>("E", 0.1, 3); p.c() = input("c", 0.1, 3);
    p.compute(d.H, d.h, d.A, d.al, d.au, d.l, d.u);
    for (int i = 0; i < N; ++i) lemma("variable scaling is positive", lt(S(0.0), p.D(i)));
    for (int i = 0; i < M; ++i) lemma("constraint scaling is positive", lt(S(0.0), p.E(i)));
    lemma("cost scaling is positive", lt(S(0.0), p.c()));
    scaled("after compute, ", d, p);
}

PV_CASE(dense_one_pass, "one equilibration pass, all data") { compute_case<2, 1, DENSE>(choose("zeros", 3) == 0 ? 0 : choose("which", 3) == 0 ? 1 : 8, false, true); }
PV_CASE(dense_zero_rows, "zero Hessian, zero constraint row, zero gradient") { static const int z[] = {2, 4, 12, 14, 10}; int k = z[choose("zeros", 5)]; compute_case<2, 1, DENSE>(k, false, k != 14); }
PV_CASE(dense_passes_no_gradient, "all passes, zero gradient") { compute_case<1, 1, DENSE>(8, false, false); }
PV_CASE(dense_passes_no_row, "all passes, zero constraint row") { compute_case<1, 1, DENSE>(4, false, false); }
PV_CASE(dense_passes_no_hessian, "all passes, zero Hessian") { compute_case<1, 1, DENSE>(2, false, false); }
PV_CASE(dense_passes, "all passes, all data") { compute_case<1, 1, DENSE>(0, false, false); }
PV_CASE(sparse_one_pass, "one equilibration pass, all entries present") { compute_case<2, 1, SPARSE>(0, false, true); }
PV_CASE(sparse_zero_rows, "structural and numerical zeros") { static const int z[] = {1, 2, 4, 8, 9, 10, 12, 14}; int k = z[choose("zeros", 8)]; compute_case<2, 1, SPARSE>(k, choose("structural", 2) == 1, k != 14); }
PV_CASE(sparse_passes_no_gradient, "all passes, zero gradient") { compute_case<1, 1, SPARSE>(8, false, false); }
PV_CASE(sparse_passes_no_row, "all passes, empty constraint row") { compute_case<1, 1, SPARSE>(4, true, false); }
PV_CASE(sparse_passes_no_hessian, "all passes, empty Hessian") { compute_case<1, 1, SPARSE>(2, true, false); }
PV_CASE(sparse_passes, "all passes, all data") { compute_case<1, 1, SPARSE>(0, false, false); }
PV_CASE(dense_apply, "existing scaling applied to and removed from new data") { applied<2, 2, DENSE>(); }
PV_CASE(sparse_apply, "existing scaling applied to and removed from new data") { applied<2, 2, SPARSE>(); }
PV_CASE(sparse_apply_row, "one constraint, two variables") { applied<2, 1, SPARSE>(); }
PV_CASE(sparse_apply_column, "two constraints, one variable") { applied<1, 2, SPARSE>(); }
PV_CASE(dense_fresh, "compute() forgets earlier scalings") { fresh_after_use<2, 1, DENSE>(); }
PV_CASE(sparse_fresh, "compute() forgets earlier scalings") { fresh_after_use<1, 1, SPARSE>(); }
PV_CASE(identity, "the identity preconditioner changes nothing") {
    IdentityPreconditioner p; Data<2, 1, DENSE> d; d.make(0, false); Vec<2> x = input_vec<2>("x"), x0 = x; Vec<3> y = input_vec<3>("y"), y0 = y;
    p.compute(d.H, d.h, d.A, d.al, d.au, d.l, d.u); same("compute keeps the ", d);
    p.scale(d.H, d.h, d.A, d.al, d.au, d.l, d.u); same("scale keeps the ", d);
    p.update(d.H, d.h, d.A, d.al, d.au, d.l, d.u); same("update keeps the ", d);
    p.unscale(d.H, d.h, d.A, d.al, d.au, d.l, d.u); same("unscale keeps the ", d);
    p.unscale_hessian(d.H); same("unscale_hessian keeps the ", d);
    p.scale(x, y); p.unscale(x, y); ensure_eq("primal unchanged", x, x0); ensure_eq("dual unchanged", y, y0);
}
