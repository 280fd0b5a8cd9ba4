// Contracts of ContinuousOCP: the transcription of an arbitrary optimal control problem and its derivatives, for a collocation
// scheme about which only the facts proved for the library's bases (P17) are assumed.
#pragma once
#include "uf_ad.hpp"
#include "control/continuous_ocp.hpp"

/** Any collocation scheme: nodes from +1 down to -1, any weights, a differentiation matrix with the reflection symmetry
 *  D(i,j) = -D(N-i,N-j) of symmetric nodes, no entry negligibly small but the zero in the middle. */
template<int PO, int SEG> struct Scheme {
    enum { POLY_ORDER = PO, NUM_SEGMENTS = SEG, NUM_NODES = PO * SEG + 1 };
    using diff_mat_t = Mat<PO + 1, PO + 1>; using nodes_t = Vec<PO + 1>; using q_weights_t = Vec<PO + 1>;
    static diff_mat_t compute_diff_matrix() {
        diff_mat_t d;
        for (int i = 0; i <= PO; ++i) for (int j = 0; j <= PO; ++j) {
            const int a = i * (PO + 1) + j, b = (PO - i) * (PO + 1) + PO - j;
            if (a > b) d(i, j) = -d(PO - i, PO - j);
            else if (a == b) d(i, j) = S(0.0);
            else { d(i, j) = input(idx("D", i, j), 0.1, 2); require(le(S(0.01), sabs(d(i, j)))); }
        }
        return d;
    }
    static nodes_t compute_nodes() { nodes_t n; for (int i = 0; i <= PO; ++i) n(i) = i == 0 ? S(1.0) : i == PO ? S(-1.0) : input(idx("node", i), -1, 1); return n; }
    static q_weights_t compute_int_weights() { return input_vec<PO + 1>("weight", 0, 1); }
};

enum { NO_COST = 0, STAGE = 1, TERMINAL = 2 };
#define OCP_USER_STAGE template<class T> void lagrange_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p, \
        const Eigen::Ref<const static_parameter_t> d, const scalar_t& t, T& c) const noexcept { c = smooth<T>("L", args<T>(x, u, p, T(t)), vec_of(d)); }
#define OCP_USER_TERMINAL template<class T> void mayer_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p, \
        const Eigen::Ref<const static_parameter_t> d, const scalar_t& t, T& c) const noexcept { c = smooth<T>("M", args<T>(x, u, p, T(t)), vec_of(d)); }
#define OCP_COST_0
#define OCP_COST_1 OCP_USER_STAGE
#define OCP_COST_2 OCP_USER_TERMINAL
#define OCP_COST_3 OCP_USER_STAGE OCP_USER_TERMINAL
/** a user's optimal control problem: dynamics f_i, stage cost L, terminal cost M and path constraints g_i, all arbitrary smooth functions */
#define USER_OCP(NAME, APPROX, FMT, NX_, NU_, NP_, ND_, NG_, COST) \
    POLYMPC_FORWARD_DECLARATION(NAME, NX_, NU_, NP_, ND_, NG_, S) \
    class NAME : public ContinuousOCP<NAME, APPROX, FMT> { public: \
        static constexpr int cost_terms = COST; \
        template<class T, class X, class U, class P> static std::vector<T> args(const X& x, const U& u, const P& p, const T& t) { std::vector<T> a; \
            for (int i = 0; i < NX_; ++i) a.push_back(x(i)); for (int i = 0; i < NU_; ++i) a.push_back(u(i)); for (int i = 0; i < NP_; ++i) a.push_back(p(i)); a.push_back(t); return a; } \
        template<class T> void dynamics_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p, \
            const Eigen::Ref<const static_parameter_t>& d, const T& t, Eigen::Ref<state_t<T>> xdot) const noexcept \
            { for (int i = 0; i < NX_; ++i) xdot(i) = smooth<T>(idx("f", i), args<T>(x, u, p, t), vec_of(d)); } \
        template<class T> void inequality_constraints_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p, \
            const Eigen::Ref<const static_parameter_t> d, const scalar_t& t, Eigen::Ref<constraint_t<T>> g) const noexcept \
            { for (int i = 0; i < NG_; ++i) g(i) = smooth<T>(idx("g", i), args<T>(x, u, p, T(t)), vec_of(d)); } \
        OCP_COST_##COST \
    };

/** the specification: the transcribed problem and its partial derivatives, written directly on the user's functions */
template<class P> struct Transcription {
    enum { NX = P::NX, NU = P::NU, NP = P::NP, ND = P::ND, NG = P::NG, NG_ = P::NG > 0 ? P::NG : 1, NN = P::NUM_NODES, PO = P::POLY_ORDER, SEG = P::NUM_SEGMENTS, N = P::VAR_SIZE, NE = P::NUM_EQ, NI = P::NUM_INEQ, NA = NX + NU + NP, XU = (NX + NU) * NN };
    typename P::nlp_variable_t x; typename P::static_parameter_t d; typename P::nlp_dual_t lam; S t0, tf, scale;
    Mat<PO + 1, PO + 1> D; Vec<PO + 1> nodes, w;
    void scheme(const P& p) { D = p.m_D; nodes = p.m_nodes; w = p.m_quad_weights; }
    void point(const std::string& t, bool horizon) {
        for (int i = 0; i < N; ++i) x(i) = input(idx(t + "v", i));
        for (int i = 0; i < ND; ++i) d(i) = input(idx(t + "d", i));
        for (int i = 0; i < lam.size(); ++i) lam(i) = input(idx(t + "lam", i));
        scale = input(t + "scale", 0.5, 2);
        if (horizon) { t0 = input(t + "t0", -1, 1); tf = input(t + "tf", 1, 3); } else { t0 = S(0.0); tf = S(1.0); }
    }
    S half() const { return (tf - t0) / S(2.0 * SEG); }
    /** segment (counted backwards from the final time) and local index of node k; a node shared by two segments belongs to the earlier one in time */
    static int seg(int k) { return k == NN - 1 ? SEG - 1 : k / PO; }
    static int loc(int k) { return k - seg(k) * PO; }
    S time(int k) const { const S L = (tf - t0) / S(1.0 * SEG); return t0 + L * S(SEG - 1 - seg(k) + 0.5) + L / S(2.0) * nodes(loc(k)); }
    /** index in the decision vector of the i-th argument (states, controls, parameters) of the user functions at node k */
    static int var(int k, int i) { return i < NX ? k * NX + i : i < NX + NU ? NX * NN + k * NU + i - NX : XU + i - NX - NU; }
    /** argument position of variable v at node k, or -1 if the functions at node k do not depend on it */
    static int arg(int k, int v) { for (int i = 0; i < NA; ++i) if (var(k, i) == v) return i; return -1; }
    S F(const std::string& n, int k, const Mi& mi = {}) const {
        std::vector<S> a; for (int i = 0; i < NA; ++i) a.push_back(x(var(k, i))); a.push_back(time(k)); for (int i = 0; i < ND; ++i) a.push_back(d(i));
        return A::uf(n, mi, a); }
    /** partial derivative of F(n, k) with respect to decision variables a (and b) */
    S dF(const std::string& n, int k, int a) const { const int i = arg(k, a); return i < 0 ? S(0.0) : F(n, k, {i}); }
    S dF(const std::string& n, int k, int a, int b) const { const int i = arg(k, a), j = arg(k, b); return i < 0 || j < 0 ? S(0.0) : F(n, k, with({i}, j)); }
    S deq(int r, int v) const {   // coefficient of the differentiation matrix
        const int k = r / NX, i = r % NX, s = seg(k), j = v / NX - s * PO; return v < NX * NN && v % NX == i && j >= 0 && j <= PO ? D(loc(k), j) : S(0.0); }
    S con(int r) const { if (r >= NE) return F(idx("g", (r - NE) % NG), (r - NE) / NG);
        S v = -half() * F(idx("f", r % NX), r / NX); for (int c = 0; c < NX * NN; ++c) v = v + deq(r, c) * x(c); return v; }
    S con(int r, int a) const { return r >= NE ? dF(idx("g", (r - NE) % NG), (r - NE) / NG, a) : deq(r, a) - half() * dF(idx("f", r % NX), r / NX, a); }
    S con(int r, int a, int b) const { return r >= NE ? dF(idx("g", (r - NE) % NG), (r - NE) / NG, a, b) : -half() * dF(idx("f", r % NX), r / NX, a, b); }
    template<class G> S total(const G& g) const {   // quadrature of the stage cost plus terminal cost
        S v(0.0); if (P::cost_terms & 1) for (int s = 0; s < SEG; ++s) for (int k = 0; k <= PO; ++k) v = v + half() * w(k) * g("L", s * PO + k);
        if (P::cost_terms & 2) v = v + g("M", 0); return v; }
    S cost() const { return total([&](const char* n, int k) { return F(n, k); }); }
    S cost(int a) const { return total([&](const char* n, int k) { return dF(n, k, a); }); }
    S cost(int a, int b) const { return total([&](const char* n, int k) { return dF(n, k, a, b); }); }
    S lag() const { S v = cost(); for (int r = 0; r < NE + NI; ++r) v = v + lam(r) * con(r); for (int i = 0; i < N; ++i) v = v + lam(NE + NI + i) * x(i); return v; }
    S lag(int a) const { S v = cost(a) + lam(NE + NI + a); for (int r = 0; r < NE + NI; ++r) v = v + lam(r) * con(r, a); return v; }
    S lag(int a, int b, const S& sc) const { S v = sc * cost(a, b); for (int r = 0; r < NE + NI; ++r) v = v + lam(r) * con(r, a, b); return v; }
    static bool coupled(int a, int b) { for (int k = 0; k < NN; ++k) if (arg(k, a) >= 0 && arg(k, b) >= 0) return true; return false; }
};
inline S entry(const Eigen::SparseMatrix<S>& m, int r, int c) { return m.coeff(r, c); }
template<class M> S entry(const Eigen::MatrixBase<M>& m, int r, int c) { return m(r, c); }
inline bool stored(const Eigen::SparseMatrix<S>& m, int r, int c) { for (Eigen::SparseMatrix<S>::InnerIterator it(m, c); it; ++it) if (it.row() == r) return true; return false; }

template<class P> struct Evaluator : Transcription<P> {
    using T = Transcription<P>; using T::x; using T::d; using T::lam; using T::scale; using T::t0; using T::tf; using T::con; using T::cost; using T::lag;
    enum { N = T::N, NE = T::NE, NI = T::NI, M = NE + NI, sparse = P::is_sparse };
    P problem; bool values = true;
    // matrices handed to the problem live on between evaluations, as in the SQP solver
    typename P::nlp_eq_jacobian_t je; typename P::nlp_ineq_jacobian_t ji; typename P::nlp_jacobian_t jac; typename P::nlp_hessian_t hess;
    Evaluator() { T::scheme(problem); size(std::integral_constant<bool, (bool)sparse>()); }
    void size(std::true_type) { je.resize(NE, N); ji.resize(NI, N); jac.resize(M, N); hess.resize(N, N); }
    void size(std::false_type) {}
    void at(const std::string& t, bool horizon = true) { T::point(t, horizon); if (horizon) problem.set_time_limits(t0, tf); }
    template<class V> void is_con(const std::string& l, const V& v, int from, int n) { for (int k = 0; k < n; ++k) ensure(l + ": constraint value " + std::to_string(k), eq(S(v(k)), con(from + k))); }
    // structure of sparse results: Jacobians have an entry wherever the derivative can be nonzero, Hessians exactly for every pair of
    // variables of a common node (what the block BFGS update relies on)
    static bool structure(const Eigen::SparseMatrix<S>& m) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (stored(m, i, j) != T::coupled(i, j)) return false; return m.rows() == N && m.cols() == N; }
    template<class M> static bool structure(const Eigen::MatrixBase<M>&) { return true; }
    static bool holds(const Eigen::SparseMatrix<S>& m, int from, int n) { for (int r = 0; r < n; ++r) for (int a = 0; a < N; ++a) { const int k = from + r < NE ? (from + r) / T::NX : (from + r - NE) / T::NG_; if (T::arg(k, a) >= 0 && !stored(m, r, a)) return false; } return m.rows() == n && m.cols() == N; }
    template<class M> static bool holds(const Eigen::MatrixBase<M>& m, int, int n) { return m.rows() == n && m.cols() == N; }
    template<class V> void is_jac(const std::string& l, const V& v, int from, int n) { ensure(l + ": structure of the Jacobian", holds(v, from, n)); for (int k = 0; k < n; ++k) for (int i = 0; i < N; ++i) ensure(l + ": Jacobian " + idx("", k, i), eq(entry(v, k, i), con(from + k, i))); }
    template<class V> void is_cost_grad(const std::string& l, const V& v) { for (int i = 0; i < N; ++i) ensure(l + ": cost gradient " + std::to_string(i), eq(S(v(i)), cost(i))); }
    template<class V> void is_lag_grad(const std::string& l, const V& v) { for (int i = 0; i < N; ++i) ensure(l + ": Lagrangian gradient " + std::to_string(i), eq(S(v(i)), lag(i))); }
    template<class V> void is_lag_hess(const std::string& l, const V& v, const S& sc) { ensure(l + ": structure of the Hessian", structure(v)); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) ensure(l + ": Hessian " + idx("", i, j), eq(entry(v, i, j), lag(i, j, sc))); }
    template<class V> void is_cost_hess(const std::string& l, const V& v) { ensure(l + ": structure of the Hessian", structure(v)); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) ensure(l + ": Hessian " + idx("", i, j), eq(entry(v, i, j), cost(i, j))); }
    static constexpr int values_only = 6, all = 12;
    void call(int which, bool check) {
        typename P::nlp_variable_t grad, lgrad; typename P::nlp_eq_constraints_t e; typename P::nlp_ineq_constraints_t g; typename P::nlp_constraints_t c; S v; std::string l;
        switch (which) {
        case 0: problem.cost(x, d, v); if (check) ensure("cost", eq(v, cost())); break;
        case 1: problem.equalities(x, d, e); if (check) is_con("equalities", e, 0, NE); break;
        case 2: problem.inequalities(x, d, g); if (check) is_con("inequalities", g, NE, NI); break;
        case 3: problem.constraints(x, d, c); if (check) is_con("constraints", c, 0, M); break;
        case 4: problem.lagrangian(x, d, lam, v); if (check) ensure("lagrangian", eq(v, lag())); break;
        case 5: problem.lagrangian(x, d, lam, v, c); if (check) { ensure("lagrangian (with constraints)", eq(v, lag())); is_con("lagrangian (with constraints)", c, 0, M); } break;
        default: derivatives(which, check); }
    }
    void derivatives(int which, bool check) {
        typename P::nlp_variable_t grad, lgrad; typename P::nlp_eq_constraints_t e; typename P::nlp_ineq_constraints_t g; typename P::nlp_constraints_t c; S v; std::string l;
        switch (which) {
        case 6: problem.cost_gradient(x, d, v, grad); if (check) { ensure("cost_gradient: cost", eq(v, cost())); is_cost_grad("cost_gradient", grad); } break;
        case 7: problem.cost_gradient_hessian(x, d, v, grad, hess); if (check) { ensure("cost_gradient_hessian: cost", eq(v, cost())); is_cost_grad("cost_gradient_hessian", grad); is_cost_hess("cost_gradient_hessian", hess); } break;
        case 8: problem.equalities_linearised(x, d, e, je); if (check) { is_con("equalities_linearised", e, 0, NE); is_jac("equalities_linearised", je, 0, NE); } break;
        case 9: problem.inequalities_linearised(x, d, g, ji); if (check) { is_con("inequalities_linearised", g, NE, NI); is_jac("inequalities_linearised", ji, NE, NI); } break;
        case 10: problem.constraints_linearised(x, d, c, jac); if (check) { is_con("constraints_linearised", c, 0, M); is_jac("constraints_linearised", jac, 0, M); } break;
        case 11: problem.lagrangian_gradient(x, d, lam, v, lgrad, grad, c, jac); if (check) { l = "lagrangian_gradient"; is_lag_grad(l, lgrad); is_cost_grad(l, grad); is_con(l, c, 0, M); is_jac(l, jac, 0, M); } break;
        case 12: problem.lagrangian_gradient_hessian(x, d, lam, v, lgrad, hess, grad, c, jac); if (check) { l = "lagrangian_gradient_hessian"; is_lag_grad(l, lgrad); is_cost_grad(l, grad); is_con(l, c, 0, M); is_jac(l, jac, 0, M); is_lag_hess(l, hess, S(1.0)); } break;
        case 13: problem.lagrangian_gradient_hessian(x, d, lam, v, lgrad, hess, grad, c, jac, scale); if (check) { const S sc = decide(eq(scale, S(1.0))) ? S(1.0) : scale; l = "lagrangian_gradient_hessian with cost scale"; is_lag_grad(l, lgrad); is_cost_grad(l, grad); is_con(l, c, 0, M); is_jac(l, jac, 0, M); is_lag_hess(l, hess, sc); } break;
        case 14: problem.lagrangian_gradient(x, d, lam, v, lgrad); if (check) is_lag_grad("lagrangian_gradient (gradient only)", lgrad); break;
        case 15: six(lgrad, v, check, std::integral_constant<bool, (bool)sparse>()); break;
        }
    }
    template<class G> void six(G& lgrad, S& v, bool check, std::false_type) { problem.lagrangian_gradient_hessian(x, d, lam, v, lgrad, hess); if (check) { is_lag_grad("lagrangian_gradient_hessian (six arguments)", lgrad); is_lag_hess("lagrangian_gradient_hessian (six arguments)", hess, S(1.0)); } }
    template<class G> void six(G&, S&, bool, std::true_type) {}   // provided for the dense format only
    void compress(std::true_type) { je.makeCompressed(); ji.makeCompressed(); jac.makeCompressed(); hess.makeCompressed(); }
    void compress(std::false_type) {}
    /** the QP solvers may compress the matrices they are handed between two evaluations */
    void between() { if (sparse && choose("compressed in between", 2)) compress(std::integral_constant<bool, (bool)sparse>()); }
    static constexpr int count = sparse ? 15 : 16;
};
