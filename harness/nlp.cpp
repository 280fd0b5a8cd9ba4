// Contracts of ProblemBase: every quantity it delivers is the exact value or derivative of the user's functions.
#include "nlp_problems.hpp"

PROBLEM(P2111, 2, 1, 1, 1, 1)
PROBLEM(P3212, 3, 2, 1, 2, 1)
PROBLEM(P2020, 2, 0, 2, 0, 1)
PROBLEM(P2201, 2, 2, 0, 1, 1)
PROBLEM(P2000, 2, 0, 0, 0, 1)
PROBLEM(P1110, 1, 1, 1, 0, 1)
PROBLEM(Feasibility, 2, 1, 1, 1, 0)

template<class P> struct Caller {
    enum { NX = P::VAR_SIZE, NE = P::NUM_EQ, NI = P::NUM_INEQ, M = NE + NI };
    P problem; typename P::nlp_variable_t x; typename P::static_parameter_t p; typename P::nlp_dual_t lam; S scale;
    std::string at;
    void point(const std::string& t) {
        at = t;
        for (int i = 0; i < x.size(); ++i) x(i) = input(idx(t + "x", i));
        for (int i = 0; i < p.size(); ++i) p(i) = input(idx(t + "p", i));
        for (int i = 0; i < lam.size(); ++i) lam(i) = input(idx(t + "lam", i));
        scale = input(t + "scale");
    }
    // the specification: values and partial derivatives of the user functions
    S F(const std::string& n, const Mi& mi = {}) { std::vector<S> a = vec_of(x), b = vec_of(p); a.insert(a.end(), b.begin(), b.end()); return A::uf(n, mi, a); }
    S f(const Mi& mi = {}) { return P::has_cost ? F("f", mi) : S(0.0); }
    S con(int k, const Mi& mi = {}) { return k < NE ? F(idx("c", k), mi) : F(idx("g", k - NE), mi); }
    S lag_grad(int i) { S r = f({i}); for (int k = 0; k < M; ++k) r = r + lam(k) * con(k, {i}); return r + lam(M + i); }
    S lag_hess(int i, int j, const S& w) { S r = w * f(with({i}, j)); for (int k = 0; k < M; ++k) r = r + lam(k) * con(k, with({i}, j)); return r; }
    template<class V> void is_con(const std::string& l, const V& v, int from, int n) { for (int k = 0; k < n; ++k) ensure(l + ": constraint value " + std::to_string(k), eq(S(v(k)), con(from + k))); }
    template<class V> void is_jac(const std::string& l, const V& v, int from, int n) { for (int k = 0; k < n; ++k) for (int i = 0; i < NX; ++i) ensure(l + ": Jacobian " + idx("", k, i), eq(S(v(k, i)), con(from + k, {i}))); }
    template<class V> void is_cost_grad(const std::string& l, const V& v) { for (int i = 0; i < NX; ++i) ensure(l + ": cost gradient " + std::to_string(i), eq(S(v(i)), f({i}))); }
    template<class V> void is_lag_grad(const std::string& l, const V& v) { for (int i = 0; i < NX; ++i) ensure(l + ": Lagrangian gradient " + std::to_string(i), eq(S(v(i)), lag_grad(i))); }
    static constexpr int functions = 13;
    void call(int which, bool check) {
        typename P::nlp_variable_t grad, lgrad; typename P::nlp_hessian_t hess; typename P::nlp_eq_constraints_t e; typename P::nlp_ineq_constraints_t g; typename P::nlp_constraints_t c;
        typename P::nlp_eq_jacobian_t je; typename P::nlp_ineq_jacobian_t ji; typename P::nlp_jacobian_t jac; S v;
        const P& cp = problem;
        switch (which) {
        case 0: problem.cost(x, p, v); if (check) ensure("cost", eq(v, f())); break;
        case 1: problem.cost_gradient(x, p, v, grad); if (check) { ensure("cost_gradient: cost", eq(v, f())); is_cost_grad("cost_gradient", grad); } break;
        case 2: problem.cost_gradient_hessian(x, p, v, grad, hess); if (check) { ensure("cost_gradient_hessian: cost", eq(v, f())); is_cost_grad("cost_gradient_hessian", grad);
            for (int i = 0; i < NX; ++i) for (int j = 0; j < NX; ++j) ensure("cost_gradient_hessian: Hessian " + idx("", i, j), eq(hess(i, j), f(with({i}, j)))); } break;
        case 3: cp.equalities(x, p, e); if (check) is_con("equalities", e, 0, NE); break;
        case 4: cp.inequalities(x, p, g); if (check) is_con("inequalities", g, NE, NI); break;
        case 5: cp.constraints(x, p, c); if (check) is_con("constraints", c, 0, M); break;
        case 6: problem.equalities_linearised(x, p, e, je); if (check) { is_con("equalities_linearised", e, 0, NE); is_jac("equalities_linearised", je, 0, NE); } break;
        case 7: problem.inequalities_linearised(x, p, g, ji); if (check) { is_con("inequalities_linearised", g, NE, NI); is_jac("inequalities_linearised", ji, NE, NI); } break;
        case 8: problem.constraints_linearised(x, p, c, jac); if (check) { is_con("constraints_linearised", c, 0, M); is_jac("constraints_linearised", jac, 0, M); } break;
        case 9: cp.lagrangian(x, p, lam, v); if (check) { S r = f(); for (int k = 0; k < M; ++k) r = r + lam(k) * con(k); for (int i = 0; i < NX; ++i) r = r + lam(M + i) * x(i); ensure("lagrangian", eq(v, r)); } break;
        case 10: problem.lagrangian_gradient(x, p, lam, v, lgrad, grad, c, jac); if (check) { is_lag_grad("lagrangian_gradient", lgrad); is_cost_grad("lagrangian_gradient", grad); is_con("lagrangian_gradient", c, 0, M); is_jac("lagrangian_gradient", jac, 0, M); } break;
        case 11: case 12:
            if (which == 11) problem.lagrangian_gradient_hessian(x, p, lam, v, lgrad, hess, grad, c, jac); else problem.lagrangian_gradient_hessian(x, p, lam, v, lgrad, hess, grad, c, jac, scale);
            if (check) { const std::string l = which == 11 ? "lagrangian_gradient_hessian" : "lagrangian_gradient_hessian with cost scale";
                is_lag_grad(l, lgrad); is_cost_grad(l, grad); is_con(l, c, 0, M); is_jac(l, jac, 0, M);
                for (int i = 0; i < NX; ++i) for (int j = 0; j < NX; ++j) ensure(l + ": Hessian " + idx("", i, j), eq(hess(i, j), lag_hess(i, j, which == 11 ? S(1.0) : scale))); }
            break;
        case 13: problem.lagrangian_gradient(x, p, lam, v, lgrad); if (check) is_lag_grad("lagrangian_gradient (gradient only)", lgrad); break;
        }
    }
};
/** any one function evaluated first on a new problem object, or after any other one at another point */
template<class P> void any_call() {
    static Caller<P>* c; c = new Caller<P>;       // one object, never moved
    const int n = Caller<P>::functions + 1, before = choose("evaluated before", n + 1), now = choose("evaluated now", n);
    if (before < n) { c->point("earlier "); c->call(before, false); }
    c->point(""); c->call(now, true);
}
/** the other problem shapes: every function in sequence, twice, at two points */
template<class P> void all_calls() {
    static Caller<P>* c; c = new Caller<P>;
    c->point("earlier "); for (int k = 0; k <= Caller<P>::functions; ++k) c->call(k, true);
    c->point(""); for (int k = Caller<P>::functions; k >= 0; --k) c->call(k, true);
}
PV_CASE(any_two_calls, "NX=2 NE=1 NI=1 NP=1: every function after every other") { any_call<P2111>(); }
PV_CASE(any_two_calls_no_cost, "feasibility problem without a cost function: every function after every other") { any_call<Feasibility>(); }
PV_CASE(sequence_3212, "NX=3 NE=2 NI=1 NP=2") { all_calls<P3212>(); }
PV_CASE(sequence_2020, "NX=2 NE=0 NI=2 NP=0") { all_calls<P2020>(); }
PV_CASE(sequence_2201, "NX=2 NE=2 NI=0 NP=1") { all_calls<P2201>(); }
PV_CASE(sequence_2000, "NX=2, box constraints only") { all_calls<P2000>(); }
PV_CASE(sequence_1110, "NX=1 NE=1 NI=1 NP=0") { all_calls<P1110>(); }
