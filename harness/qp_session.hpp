// Contracts of the two ADMM solvers.  A solve() call is checked against a reference model of the documented splitting that
// runs in lock step through the linear-solver stub: every factorised matrix, every right-hand side, every decision
// (convergence test, step-size adaptation) and the final result are postconditions.  The stub returns an arbitrary vector,
// so the obligations hold for every linear solver.
#pragma once
#include "qp_common.hpp"
#include "solvers/box_admm.hpp"
#include "solvers/admm.hpp"
using namespace pv; using namespace qpv;

enum Kind { BOX, FULL };
template<Kind K, int N, int M, int Fmt, int UpLo> struct SolverOf;
template<int N, int M, int Fmt, int UpLo> struct SolverOf<BOX, N, M, Fmt, UpLo>  { using type = boxADMM<N, M, S, Fmt, StubSolver, UpLo>; };
template<int N, int M, int Fmt, int UpLo> struct SolverOf<FULL, N, M, Fmt, UpLo> { using type = ADMM<N, M, S, Fmt, StubSolver, UpLo>; };
constexpr int LOW = Eigen::Lower, UPLO = Eigen::Upper | Eigen::Lower;

struct Opt {
    int max_iter = 2, check = 0, interval = 1; bool adaptive = false, sym_alpha = true, sym_rho = true, reuse = false, guess = true; int zeros = 0;
    bool c_kkt = false, c_step = false, c_post = false, c_budget = false;
    std::string prefix;
};
enum What { STEP = 1, POST = 2, BUDGET = 4, ALL = 7 };

template<int R, int C> Eigen::SparseMatrix<S> sparse_of(const Mat<R, C>& m, int zeros, bool hess) {
    Eigen::SparseMatrix<S> s(R, C); s.reserve(Eigen::VectorXi::Constant(C, R));
    for (int j = 0; j < C; ++j) for (int i = 0; i < R; ++i) {
        if (hess && (zeros & 1) && i != j) continue;
        if (hess && i == j && (((zeros & 8) && i == 0) || ((zeros & 16) && i == C - 1))) continue;
        if (!hess && (zeros & 2) && i == 0 && j == 0) continue;
        if (!hess && (zeros & 4) && i == R - 1 && j == C - 1) continue;
        s.insert(i, j) = m(i, j);
    }
    return s;
}

template<Kind K, int N, int M, int Fmt, int UpLo> struct Session {
    using Sol = typename SolverOf<K, N, M, Fmt, UpLo>::type;
    std::unique_ptr<Sol> sp{new Sol()};
    static constexpr int T = K == BOX ? N + M : 2 * N + M;

    template<int F = Fmt> typename std::enable_if<F == DENSE, status_t>::type call(const QPData<N, M>& d, const Vec<N>& x, const Vec<M + N>& y, const Opt& o) {
        return o.guess ? sp->solve(d.H, d.h, d.A, d.al, d.au, d.xl, d.xu, x, y) : sp->solve(d.H, d.h, d.A, d.al, d.au, d.xl, d.xu);
    }
    template<int F = Fmt> typename std::enable_if<F == SPARSE, status_t>::type call(const QPData<N, M>& d, const Vec<N>& x, const Vec<M + N>& y, const Opt& o) {
        Eigen::SparseMatrix<S> H = sparse_of<N, N>(d.H, o.zeros, true), A = sparse_of<M, N>(d.A, o.zeros, false);
        return o.guess ? sp->solve(H, d.h, A, d.al, d.au, d.xl, d.xu, x, y) : sp->solve(H, d.h, A, d.al, d.au, d.xl, d.xu);
    }

    void run(const QPData<N, M>& d, const Opt& o, int what) {
        Sol& s = *sp; auto& st = s.settings(); const std::string& p = o.prefix;
        const S alpha = o.sym_alpha ? input(p + "alpha", 0.2, 1.8) : S(1.0), rho0 = o.sym_rho ? input(p + "rho", 0.01, 2) : S(0.1), sigma = input(p + "sigma", 1e-6, 1e-2);
        require(lt(S(0.0), alpha)); require(lt(alpha, S(2.0))); require(lt(S(0.0), rho0)); require(lt(S(0.0), sigma));
        const S ea = input(p + "eps_abs", 1e-3, 3), er = input(p + "eps_rel", 1e-3, 0.5), atol = input(p + "rho_tol", 1.1, 8);
        require(lt(S(0.0), ea)); require(le(S(0.0), er)); require(lt(S(1.0), atol));
        st.alpha = alpha; st.rho = rho0; st.sigma = sigma; st.eps_abs = ea; st.eps_rel = er; st.adaptive_rho_tolerance = atol;
        st.max_iter = o.max_iter; st.check_termination = o.check; st.adaptive_rho = o.adaptive; st.adaptive_rho_interval = o.interval; st.reuse_pattern = o.reuse;
        const RhoRule rr{S(1e-6), S(1e3), S(1e10), S(1e-4)};
        const S RMIN(1e-6), RMAX(1e6);

        Vec<N> x; Vec<M + N> y, z, rho, lo, hi, rhon;
        if (o.guess) { x = input_vec<N>(p + "x0"); y = input_vec<M + N>(p + "y0"); } else { x.setZero(); y.setZero(); }
        const Vec<N> xg = x; const Vec<M + N> yg = y;
        lo << d.al, d.xl; hi << d.au, d.xu;
        for (int i = 0; i < M; ++i) { S t(0.0); for (int j = 0; j < N; ++j) t = t + d.A(i, j) * x(j); z(i) = t; }
        for (int i = 0; i < N; ++i) z(M + i) = x(i);
        S cur = rho0, prev = rho0; int iters = 0, factors = 0, fact_at = -1; bool expect_solved = false;
        auto classify = [&](const S& r) { Vec<M + N> v; for (int i = 0; i < M + N; ++i) v(i) = rho_of(rr, lo(i), hi(i), r); return v; };
        rho = classify(cur);
        struct Norms { S p, d, rp, rd; };
        auto norms = [&]() {        // tolerances' norms and true residuals of the reference state
            Vec<M> Ax; Vec<N> Hx, ATy, g;
            for (int i = 0; i < M; ++i) { S t(0.0); for (int j = 0; j < N; ++j) t = t + d.A(i, j) * x(j); Ax(i) = t; }
            for (int i = 0; i < N; ++i) { S t(0.0), v(0.0); for (int j = 0; j < N; ++j) t = t + d.H(i, j) * x(j); for (int j = 0; j < M; ++j) v = v + d.A(j, i) * y(j); Hx(i) = t; ATy(i) = v; g(i) = t + d.h(i) + v + y(M + i); }
            Norms n; Vec<M> zz = z.template head<M>(); Vec<N> yb = y.template tail<N>();
            n.p = K == BOX ? smax(norm_inf(Ax), smax(norm_inf(zz), norm_inf(x))) : smax(smax(norm_inf(Ax), norm_inf(x)), norm_inf(z));
            n.d = smax(norm_inf(Hx), smax(norm_inf(ATy), smax(norm_inf(d.h), norm_inf(yb))));
            Vec<M> ra; Vec<N> rb; for (int i = 0; i < M; ++i) ra(i) = Ax(i) - z(i); for (int i = 0; i < N; ++i) rb(i) = x(i) - z(M + i);
            n.rp = K == BOX ? norm_inf(ra) + norm_inf(rb) : smax(norm_inf(ra), norm_inf(rb)); n.rd = norm_inf(g);
            return n;
        };
        auto after_step = [&]() {   // decisions the solver has to take after iteration `iters`
            if (iters == 0 || !(what & BUDGET)) return;
            const bool test = o.check != 0 && iters % o.check == 0, adapt = o.adaptive && iters % o.interval == 0;
            if (!test && !adapt) return;
            Norms n = norms(); const std::string at = " after iteration " + std::to_string(iters);
            ensure("reported primal residual" + at, eq(s.info().res_prim, n.rp)); ensure("reported dual residual" + at, eq(s.info().res_dual, n.rd));
            if (test) { expect_solved = decide(both(le(n.rp, ea + er * n.p), le(n.rd, ea + er * n.d))); if (expect_solved) return; }
            if (adapt) {
                const S reg = regulariser<S>::value;
                const S base = fact_at == iters ? prev : cur;     // step size used by this iteration
                S est = base * A_sqrt((n.rp / (n.p + reg)) / (n.rd / (n.d + reg) + reg)); est = smax(RMIN, smin(est, RMAX));
                ensure("adapted step size follows the residual-ratio rule" + at, eq(s.info().rho_estimate, est));
                ensure("adapted step size is within its limits" + at, both(le(RMIN, s.info().rho_estimate), le(s.info().rho_estimate, RMAX)));
                const S e = s.info().rho_estimate;
                const bool change = decide(either(lt(e, base / atol), lt(base * atol, e)));
                ensure("system refactorised exactly when the step size changes enough" + at, change == (fact_at == iters));
            }
        };
        ghost().on_factor = [&](const DynM& Km, bool) {
            ++factors; fact_at = iters;
            prev = cur; if (iters > 0) cur = s.info().rho_estimate;
            rho = classify(cur);
            if (!(what & STEP)) return;
            ensure("KKT matrix has the right size", Km.rows() == T && Km.cols() == T);
            DynM X(T, T); X.setZero();
            for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) X(i, j) = d.H(i, j);
            for (int i = 0; i < N; ++i) X(i, i) = X(i, i) + sigma + (K == BOX ? rho(M + i) : S(0.0));
            for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) { X(N + i, j) = d.A(i, j); X(j, N + i) = d.A(i, j); }
            for (int i = 0; i < M; ++i) X(N + i, N + i) = -S(1.0) / rho(i);
            if (K == FULL) for (int i = 0; i < N; ++i) { X(N + M + i, i) = S(1.0); X(i, N + M + i) = S(1.0); X(N + M + i, N + M + i) = -S(1.0) / rho(M + i); }
            ensure_eq("KKT matrix of factorisation " + std::to_string(factors), Km, X);
        };
        ghost().on_solve = [&](const DynM& Km, const DynV& rhs) {
            if (factors == 0) fail_hard("factorisation before the first solve", "linear solver used before it was given a matrix");
            after_step();
            if (what & BUDGET) { ensure("stops at the first passed test", !expect_solved); ensure("at most max_iter iterations", iters < o.max_iter); }
            ++iters;
            if (what & STEP) {
                DynV e(rhs.size());
                for (int i = 0; i < N; ++i) e(i) = sigma * x(i) - d.h(i) + (K == BOX ? rho(M + i) * z(M + i) - y(M + i) : S(0.0));
                for (int i = 0; i < (K == BOX ? M : M + N); ++i) e(N + i) = z(i) - y(i) / rho(i);
                ensure_eq("right-hand side of iteration " + std::to_string(iters), rhs, e);
            }
            DynV sol = plain_solve(Km, rhs, p + std::to_string(iters));
            Vec<N> xn; Vec<M + N> zn, yn;
            for (int i = 0; i < N; ++i) xn(i) = alpha * sol(i) + (S(1.0) - alpha) * x(i);
            for (int i = 0; i < M + N; ++i) {
                S v;
                if (K == BOX && i >= M) v = xn(i - M);
                else { S zt = z(i) + (sol(N + i) - y(i)) / rho(i); v = alpha * zt + (S(1.0) - alpha) * z(i); }
                zn(i) = clamp(v + y(i) / rho(i), lo(i), hi(i));
                yn(i) = y(i) + rho(i) * (v - zn(i));
            }
            x = xn; z = zn; y = yn;
            return sol;
        };
        status_t status = call(d, xg, yg, o);
        if (what & BUDGET) {
            after_step();
            ensure("status is the recorded status", status == s.info().status);
            ensure("solved exactly when the last test passed", (status == SOLVED) == expect_solved);
            ensure("otherwise the iteration limit was reached", status == SOLVED || (status == MAX_ITER_EXCEEDED && iters == o.max_iter));
            ensure("iteration count reported", s.info().iter == iters);
        }
        if (what & STEP) { ensure_eq("primal iterate", s.primal_solution(), x); ensure_eq("dual iterate", s.dual_solution(), y); }
        if (status == SOLVED && (what & POST)) {
            const Vec<N> X = s.primal_solution(); const Vec<M + N> Y = s.dual_solution();
            ensure("a test was due", o.check != 0 && iters % o.check == 0);
            Norms n = norms();
            const S ep = ea + er * n.p, ed = ea + er * n.d;
            ensure("reported primal residual within tolerance", le(s.info().res_prim, ep)); ensure("reported dual residual within tolerance", le(s.info().res_dual, ed));
            for (int i = 0; i < M + N; ++i) {
                S v = i < M ? S(0.0) : X(i - M); if (i < M) for (int j = 0; j < N; ++j) v = v + d.A(i, j) * X(j);
                const std::string r = ", row " + std::to_string(i);
                ensure("primal residual within tolerance" + r, le(sabs(v - z(i)), ep));
                ensure("split variable within bounds" + r, both(le(lo(i), z(i)), le(z(i), hi(i))));
                ensure("constraint violated by at most the tolerance" + r, both(le(lo(i) - ep, v), le(v, hi(i) + ep)));
                ensure("positive multiplier only at the upper bound" + r, implies(lt(S(0.0), Y(i)), eq(z(i), hi(i))));
                ensure("negative multiplier only at the lower bound" + r, implies(lt(Y(i), S(0.0)), eq(z(i), lo(i))));
            }
            for (int i = 0; i < N; ++i) {
                S g = d.h(i) + Y(M + i); for (int j = 0; j < N; ++j) g = g + d.H(i, j) * X(j); for (int j = 0; j < M; ++j) g = g + d.A(j, i) * Y(j);
                ensure("stationarity within tolerance, row " + std::to_string(i), le(sabs(g), ed));
            }
        }
    }
    static S A_sqrt(const S& v) { using std::sqrt; return sqrt(v); }
};

template<Kind K, int N, int M, int Fmt, int UpLo> void once(const Opt& o, int what, Types t = ANY) {
    Session<K, N, M, Fmt, UpLo> s; QPData<N, M> d = qp_input<N, M>("", t, o.zeros); s.run(d, o, what);
}
/** a first problem with other data and bound types, then the problem under test with the same object */
template<Kind K, int N, int M, int Fmt, int UpLo> void twice(bool reuse, int zeros, bool adaptive, int what) {
    Session<K, N, M, Fmt, UpLo> s;
    const Types first[] = {INEQ, EQUAL, LOOSE};
    Opt o; o.zeros = zeros; o.max_iter = 1; o.prefix = "first_"; o.sym_alpha = false; o.check = 1;
    { QPData<N, M> d = qp_input<N, M>("first_", first[choose("first types", 3)], zeros); s.run(d, o, 0); }
    o.prefix = ""; o.reuse = reuse; o.adaptive = adaptive; o.max_iter = adaptive ? 2 : 1; o.check = 0;
    QPData<N, M> d = qp_input<N, M>("", N + M <= 3 ? CHOSEN : MIXED, zeros); s.run(d, o, what);
}
static Opt opt(int max_iter, int check, bool adaptive = false, int interval = 1) { Opt o; o.max_iter = max_iter; o.check = check; o.adaptive = adaptive; o.interval = interval; return o; }

