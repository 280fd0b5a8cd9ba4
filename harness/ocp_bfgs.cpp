// Contract of the block BFGS update of sparse optimal control problems: the damped BFGS formula (proved for the dense update in
// quasi_newton.cpp) on every pair of variables of a common node or parameter, nothing elsewhere.
#include "ocp_common.hpp"
using S11 = Scheme<1, 1>; using S12 = Scheme<1, 2>;
template<class P> struct Updater : Transcription<P> {
    using E = Transcription<P>; using E::N; enum { sparse = P::is_sparse };
    P problem; typename P::nlp_hessian_t hess; S h[N][N];
    S H0(int i, int j) const { return E::coupled(i, j) || !sparse ? (i >= j ? h[i][j] : h[j][i]) : S(0.0); }
    void fill(std::true_type) {     // the pattern the problem creates (P15): every pair of variables of a common node
        hess.resize(N, N); if (choose("reserved", 2)) hess.reserve(Eigen::VectorXi::Constant(N, N + 1));
        for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) if (E::coupled(i, j)) hess.insert(i, j) = H0(i, j);
        if (choose("compressed", 2)) hess.makeCompressed();
    }
    void fill(std::false_type) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) hess(i, j) = H0(i, j); }
    static bool kept(const Eigen::SparseMatrix<S>& m, int i, int j) { return stored(m, i, j) == E::coupled(i, j); }
    template<class M> static bool kept(const Eigen::MatrixBase<M>&, int, int) { return true; }
    void check(bool zero, int damping) {
        ideal_constants();       // 0.2 + 0.8 = 1
        for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) h[i][j] = input(idx("H", i, j), -0.2, 0.2) + S(i == j ? 1.0 : 0.0);
        fill(std::integral_constant<bool, (bool)sparse>());
        typename P::nlp_variable_t s, y; for (int i = 0; i < N; ++i) { s(i) = zero ? S(0.0) : input(idx("s", i)); y(i) = input(idx("y", i)); }
        S v[N], sBs(0.0), sy(0.0);
        for (int i = 0; i < N; ++i) { v[i] = S(0.0); for (int j = 0; j < N; ++j) v[i] = v[i] + H0(i, j) * s(j); }
        for (int i = 0; i < N; ++i) { sBs = sBs + s(i) * v[i]; sy = sy + s(i) * y(i); }
        if (!zero) require(lt(S(0.0), sBs));            // the Hessian is positive definite
        division_checks(zero);
        const bool damped = decide(lt(sy, S(0.2) * sBs)); if (damping >= 0) require(truth(damped == (damping == 1)));
        problem.hessian_update_impl(hess, s, y);
        const S th = damped ? S(0.8) * sBs / (sBs - sy) : S(1.0), sr = damped ? S(0.2) * sBs : sy, eps(std::numeric_limits<double>::epsilon());
        const bool skip = zero || decide(lt(sr, eps));
        for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
            ensure("pattern " + idx("", i, j), kept(hess, i, j));
            if (!E::coupled(i, j) && sparse) continue;
            if (skip) { ensure("no curvature: unchanged " + idx("", i, j), eq(entry(hess, i, j), H0(i, j))); continue; }
            const S ri = damped ? th * y(i) + (S(1.0) - th) * v[i] : y(i), rj = damped ? th * y(j) + (S(1.0) - th) * v[j] : y(j);
            ensure("update " + idx("", i, j), eq(entry(hess, i, j), H0(i, j) - v[i] * v[j] / sBs + ri * rj / sr));
        }
    }
};
template<class P> void block_bfgs(bool zero, int damping = -1) { Updater<P> u; u.check(zero, damping); }
USER_OCP(OcpA, S11, SPARSE, 1, 1, 1, 0, 0, 1)
USER_OCP(OcpB, S11, SPARSE, 2, 1, 0, 0, 0, 1)
USER_OCP(OcpC, S12, SPARSE, 1, 2, 2, 0, 1, 1)
USER_OCP(OcpD, S11, DENSE, 1, 1, 1, 0, 0, 1)
PV_CASE(block_bfgs_parameters, "NX=1 NU=1 NP=1, one interval") { block_bfgs<OcpA>(false); }
PV_CASE(block_bfgs_states, "NX=2 NU=1 NP=0, one interval") { block_bfgs<OcpB>(false); }
PV_CASE(block_bfgs_segments, "NX=1 NU=2 NP=2, two segments, no damping") { block_bfgs<OcpC>(false, 0); }
PV_CASE(block_bfgs_zero_step, "zero step") { block_bfgs<OcpA>(true); }
PV_CASE(ocp_bfgs_dense, "dense optimal control problem, NX=1 NU=1 NP=1, one interval") { block_bfgs<OcpD>(false, 0); }
PV_CASE(ocp_bfgs_dense_zero_step, "dense optimal control problem, zero step") { block_bfgs<OcpD>(true); }
