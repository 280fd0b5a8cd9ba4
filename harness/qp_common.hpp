// Contracts shared by the QP harnesses: a linear-solver stub (its contract: the returned vector solves the system that
// was factorised) and the reference ADMM step, written from the splitting in docs/source/qp.rst.
#pragma once
#include "pv.hpp"
#include <functional>
#include <memory>

namespace qpv {
using pv::S;
using DynM = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
using DynV = Eigen::Matrix<S, Eigen::Dynamic, 1>;

struct Ghost {
    std::function<void(const DynM&, bool)> on_factor;     // (matrix, refactorisation only)
    std::function<DynV(const DynM&, const DynV&)> on_solve;
};
inline Ghost& ghost() { static Ghost g; return g; }

inline DynM densify(const DynM& m) { return m; }
template<class D> DynM densify(const Eigen::MatrixBase<D>& m) { return DynM(m); }
inline DynM densify(const Eigen::SparseMatrix<S>& m) {
    DynM d(m.rows(), m.cols()); d.setZero();
    for (int k = 0; k < m.outerSize(); ++k)
        for (typename Eigen::SparseMatrix<S>::InnerIterator it(m, k); it; ++it) {
            if (it.row() < 0 || it.row() >= m.rows()) pv::fail_hard("sparse index in range", "inner index out of range");
            d(it.row(), it.col()) = d(it.row(), it.col()) + it.value();   // duplicates would add up
        }
    return d;
}

/** stands for the Eigen factorisation: contract "solve(b) returns v with K v = b", K symmetric given by its lower part */
template<typename Mat, int UpLo, typename... Args> class StubSolver {
public:
    StubSolver() {}
    explicit StubSolver(const Mat& m) { compute(m); }
    StubSolver& compute(const Mat& m) { analysed = true; take(m, false); return *this; }
    void analyzePattern(const Mat&) { analysed = true; }
    void factorize(const Mat& m) { pv::ensure("factorisation only after the pattern was analysed", analysed); take(m, true); }
    Eigen::ComputationInfo info() const { return Eigen::Success; }
    template<class R> DynV solve(const Eigen::MatrixBase<R>& r) const { return ghost().on_solve(K, DynV(r)); }
private:
    void take(const Mat& m, bool re) {
        K = densify(m);
        if (UpLo == Eigen::Lower) for (int i = 0; i < K.rows(); ++i) for (int j = i + 1; j < K.cols(); ++j) K(i, j) = K(j, i);
        ghost().on_factor(K, re);
    }
    DynM K; bool analysed = false;
};

inline DynV plain_solve(const DynM& K, const DynV& r, const std::string& tag) {
#ifdef PV_DOUBLE
    (void)tag; return K.fullPivLu().solve(r);
#else
    DynV s(r.size());
    for (int i = 0; i < r.size(); ++i) s(i) = pv::input("sol" + tag + "_" + std::to_string(i));
    (void)K; return s;
#endif
}

inline S clamp(const S& v, const S& l, const S& u) { return pv::smin(pv::smax(v, l), u); }

template<int N, int M> struct QPData {
    pv::Mat<N, N> H; pv::Vec<N> h; pv::Mat<M, N> A; pv::Vec<M> al, au; pv::Vec<N> xl, xu;
};
enum Types { ANY, INEQ, EQUAL, LOOSE, MIXED, CHOSEN };
/** a QP with every value symbolic; `types` restricts the classes of bounds; pattern bits drop structural entries (H(1,0)), A(0,0), ... */
template<int N, int M> QPData<N, M> qp_input(const std::string& p = "", Types types = ANY, int zeros = 0) {
    QPData<N, M> d;
    for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) {
        d.H(i, j) = pv::input(pv::idx(p + "H", i, j), i == j ? 1 : -1, i == j ? 4 : 1);
        if ((zeros & 1) && i != j) d.H(i, j) = S(0.0);
        if (i == j && (((zeros & 8) && i == 0) || ((zeros & 16) && i == N - 1))) d.H(i, j) = S(0.0);
        d.H(j, i) = d.H(i, j); }
    d.h = pv::input_vec<N>(p + "h"); d.A = pv::input_mat<M, N>(p + "A");
    if (zeros & 2) d.A(0, 0) = S(0.0);
    if ((zeros & 4) && M > 0) d.A(M - 1, N - 1) = S(0.0);
    auto bound = [&](const std::string& n, int i, S& l, S& u) {
        Types t = types == MIXED ? Types(INEQ + i % 3) : types == CHOSEN ? Types(INEQ + pv::choose(pv::idx(p + "class of " + n, i), 3)) : types;
        l = pv::input(pv::idx(p + n + "l", i), -3, 0, t == ANY ? std::vector<double>{-1e11, 0} : t == LOOSE ? std::vector<double>{-1e11} : std::vector<double>{});
        u = t == EQUAL ? l : pv::input(pv::idx(p + n + "u", i), 0, 3, t == ANY ? std::vector<double>{1e11, 0} : t == LOOSE ? std::vector<double>{1e11} : std::vector<double>{});
        if (t == LOOSE) { pv::require(pv::lt(l, S(-1e10))); pv::require(pv::lt(S(1e10), u)); }
        if (t == INEQ) { pv::require(pv::lt(S(-1e9), l)); pv::require(pv::le(l + S(0.01), u)); }
        pv::require(pv::le(l, u));
    };
    for (int i = 0; i < M; ++i) bound("a", i, d.al(i), d.au(i));
    for (int i = 0; i < N; ++i) bound("x", i, d.xl(i), d.xu(i));
    return d;
}

/** reference step size of one constraint: documented constants, classification from the bounds */
struct RhoRule { S rmin, eqf, loose, eqtol; };
inline S rho_of(const RhoRule& r, const S& l, const S& u, const S& rho0) {
    pv::B loose = pv::both(pv::lt(l, -r.loose), pv::lt(r.loose, u));
    pv::B equal = pv::lt(u - l, r.eqtol);
    if (pv::decide(loose)) return r.rmin;
    return pv::decide(equal) ? r.eqf * rho0 : rho0;
}

/** reference state of the splitting: rows 0..M-1 general constraints, rows M..M+N-1 box constraints */
template<int N, int M> struct RefState {
    pv::Vec<N> x; pv::Vec<M + N> z, y, rho;
};
} // namespace qpv
