// Contracts of SQPBase.  solve() runs on the real code in lock step with a reference model.  Its callees are replaced by their
// contracts: the problem returns the exact values and derivatives of arbitrary smooth functions (proved as P12/P14), the QP
// solver returns an arbitrary vector pair, any status and any iteration count, a preconditioner may replace the data by
// anything and undoes that in unscale (P05).
#pragma once
#include "uf_ad.hpp"
#include "solvers/sqp_base.hpp"

template<int NX, int NE, int NI, int NP> struct Reference;
template<int NX, int NE, int NI, int NP> Reference<NX, NE, NI, NP>*& the_reference() { static Reference<NX, NE, NI, NP>* r = nullptr; return r; }

/** values and derivatives of the user's functions at a point */
template<int NX, int NE, int NI, int NP> struct User {
    static constexpr int M = NE + NI;
    template<class X, class P> static S F(const std::string& n, const X& x, const P& p, const Mi& mi) { std::vector<S> a; for (int i = 0; i < NX; ++i) a.push_back(x(i)); for (int i = 0; i < NP; ++i) a.push_back(p(i)); return A::uf(n, mi, a); }
    template<class X, class P> static S f(const X& x, const P& p, const Mi& mi = {}) { return F("f", x, p, mi); }
    template<class X, class P> static S con(int k, const X& x, const P& p, const Mi& mi = {}) { return F(k < NE ? idx("c", k) : idx("g", k - NE), x, p, mi); }
    template<class X, class P, class L> static S lag_grad(int i, const X& x, const P& p, const L& lam) { S r = f(x, p, {i}) + lam(M + i); for (int k = 0; k < M; ++k) r = r + lam(k) * con(k, x, p, {i}); return r; }
    template<class X, class P, class L> static S lag_hess(int i, int j, const X& x, const P& p, const L& lam) { S r = f(x, p, with({i}, j)); for (int k = 0; k < M; ++k) r = r + lam(k) * con(k, x, p, with({i}, j)); return r; }
};

template<int NX, int NE, int NI, int NP, int Fmt> struct StubProblem {
    using U = User<NX, NE, NI, NP>;
    enum { VAR_SIZE = NX, NUM_EQ = NE, NUM_INEQ = NI, NUM_BOX = NX, DUAL_SIZE = NE + NI + NX, MATRIXFMT = Fmt, is_sparse = Fmt == SPARSE, is_dense = !is_sparse };
    using scalar_t = S;
    using nlp_variable_t = Vec<NX>; using nlp_constraints_t = Vec<NE + NI>; using nlp_eq_constraints_t = Vec<NE>; using nlp_ineq_constraints_t = Vec<NI>; using nlp_dual_t = Vec<NE + NI + NX>;
    using nlp_jacobian_t = typename std::conditional<Fmt == SPARSE, Eigen::SparseMatrix<S>, Mat<NE + NI, NX>>::type;
    using nlp_eq_jacobian_t = typename std::conditional<Fmt == SPARSE, Eigen::SparseMatrix<S>, Mat<NE, NX>>::type;
    using nlp_ineq_jacobian_t = typename std::conditional<Fmt == SPARSE, Eigen::SparseMatrix<S>, Mat<NI, NX>>::type;
    using nlp_hessian_t = typename std::conditional<Fmt == SPARSE, Eigen::SparseMatrix<S>, Mat<NX, NX>>::type;
    using nlp_cost_t = S; using static_parameter_t = Vec<NP>;
    template<class X, class P> void cost(const X& x, const P& p, S& c) const noexcept { c = U::f(x, p); }
    template<class X, class P, class C> void equalities(const X& x, const P& p, C&& c) const noexcept { for (int k = 0; k < NE; ++k) c(k) = U::con(k, x, p); }
    template<class X, class P, class C> void inequalities(const X& x, const P& p, C&& c) const noexcept { for (int k = 0; k < NI; ++k) c(k) = U::con(NE + k, x, p); }
    template<class J, class V> static void put(J& j, int r, int c, const V& v, std::true_type) { j.coeffRef(r, c) = v; }
    template<class J, class V> static void put(J& j, int r, int c, const V& v, std::false_type) { j(r, c) = v; }
    using Sp = std::integral_constant<bool, Fmt == SPARSE>;
    template<class X, class P, class L, class G, class CG, class C, class J>
    void lagrangian_gradient(const X& x, const P& p, const L& lam, S& lag, G&& grad, CG&& cg, C&& c, J&& jac) const noexcept {
        lag = U::f(x, p);
        for (int i = 0; i < NX; ++i) { grad(i) = U::lag_grad(i, x, p, lam); cg(i) = U::f(x, p, {i}); }
        for (int k = 0; k < NE + NI; ++k) { c(k) = U::con(k, x, p); for (int i = 0; i < NX; ++i) put(jac, k, i, U::con(k, x, p, {i}), Sp()); }
    }
    template<class X, class P, class L, class G, class H, class CG, class C, class J>
    void lagrangian_gradient_hessian(const X& x, const P& p, const L& lam, S& lag, G&& grad, H&& hess, CG&& cg, C&& c, J&& jac) const noexcept {
        for (int i = 0; i < NX; ++i) for (int j = 0; j < NX; ++j) put(hess, i, j, U::lag_hess(i, j, x, p, lam), Sp());
        lagrangian_gradient(x, p, lam, lag, grad, cg, c, jac);
    }
};

struct QpSettings { bool warm_start, adaptive_rho, reuse_pattern = false, verbose; int check_termination, max_iter, adaptive_rho_interval; S eps_abs, eps_rel, alpha; };
struct QpInfo { int iter = 0; };
template<int NX, int NE, int NI, int NP> struct StubQP {
    using settings_t = QpSettings; settings_t m_settings; settings_t& settings() { return m_settings; }
    QpInfo m_info; const QpInfo& info() const { return m_info; }
    Vec<NX> x; Vec<NX + NE + NI> y;
    const Vec<NX>& primal_solution() const { return x; } const Vec<NX + NE + NI>& dual_solution() const { return y; }
    template<class H, class G, class J, class C, class X> status_t solve(const H& h, const G& g, const J& a, const C& al, const C& au, const X& xl, const X& xu) {
        auto& r = *the_reference<NX, NE, NI, NP>();
        r.qp_called(h, g, a, al, au, xl, xu, x, y, m_info.iter);
        return choose("QP status " + std::to_string(r.counter()), 2) ? MAX_ITER_EXCEEDED : SOLVED;
    }
};
/** a preconditioner: whatever it does to the data, unscale undoes it */
template<int NX, int NE, int NI, int NP> struct StubPreconditioner {
    Mat<NX, NX> H; Vec<NX> h, xl, xu; Mat<NE + NI, NX> J; Vec<NE + NI> al, au; bool scaled = false;
    template<class HH, class G, class JJ, class C> void compute(HH& hh, G& g, JJ& a, C& l, C& u, G& lx, G& ux) {
        auto& r = *the_reference<NX, NE, NI, NP>();
        ensure("the preconditioner gets unscaled data", !scaled); scaled = true;
        r.check_model(hh, g, a, l, u, lx, ux);
        H = hh; h = g; J = a; al = l; au = u; xl = lx; xu = ux;
        r.fresh(hh, "sH"); r.fresh(g, "sh"); r.fresh(a, "sA"); r.fresh(l, "sal"); r.fresh(u, "sau"); r.fresh(lx, "slx"); r.fresh(ux, "sux");
        r.scaled_data(hh, g, a, l, u, lx, ux);
    }
    template<class V, class W> static void back(V& v, const W& w) { for (int i = 0; i < w.rows(); ++i) for (int j = 0; j < w.cols(); ++j) v.coeffRef(i, j) = w(i, j); }
    template<class P, class L> void unscale(P& p, L& lam) { auto& r = *the_reference<NX, NE, NI, NP>(); r.unscale_solution(p, lam); }
    template<class HH, class G, class JJ, class C> void unscale(HH& hh, G& g, JJ& a, C& l, C& u, G& lx, G& ux) {
        auto& r = *the_reference<NX, NE, NI, NP>();
        ensure("unscale gets scaled data", scaled); scaled = false; r.is_scaled_data(hh, g, a, l, u, lx, ux);
        back(hh, H); g = h; back(a, J); l = al; u = au; lx = xl; ux = xu;
    }
};

struct Opt { bool c6 = false, c7 = false, c8 = false, preconditioned = false, regularised = false, exact_hessian = false; int max_iter = 2, ls = 2; bool twice = false, guess = true; };

/** the reference model */
template<int NX, int NE, int NI, int NP> struct Reference {
    using U = User<NX, NE, NI, NP>; static constexpr int M = NE + NI;
    Opt o; std::string pre;
    Vec<NX> x, lbx, ubx, step, p, grad, grad_prev; Vec<M + NX> lam, dlam, lamqp; Vec<NI> lbg, ubg; Vec<NP> par; Mat<NX, NX> H;
    S tau, eta, eps_prim, eps_dual, pnorm, dnorm; int k, qp_iter; S alpha; bool stepped, scaled_check; int callbacks = 0;
    // scaled data the QP solver has to receive
    Mat<NX, NX> sH; Vec<NX> sh, sxl, sxu; Mat<M, NX> sA; Vec<M> sal, sau;
    std::string tag(const std::string& l) const { return l + (k <= 1 ? "" : " (later iteration)") + (pre.empty() ? "" : ", second solve"); }
    static S at(const Eigen::SparseMatrix<S>& m, int i, int j) { return m.coeff(i, j); }
    template<class D> static S at(const Eigen::MatrixBase<D>& m, int i, int j) { return m(i, j); }
    template<class V> static void fresh(V& v, const std::string& n) { for (int j = 0; j < v.cols(); ++j) for (int i = 0; i < v.rows(); ++i) v.coeffRef(i, j) = input(idx(n + std::to_string(counter()), i, j)); }
    static int& counter() { static int c = 0; return c; }
    template<class V, class W> void same(const std::string& l, const V& v, const W& w) { ensure(tag(l) + ": size", v.rows() == w.rows() && v.cols() == w.cols()); for (int i = 0; i < w.rows(); ++i) for (int j = 0; j < w.cols(); ++j) ensure(tag(l) + idx(" ", i, j), eq(at(v, i, j), S(w(i, j)))); }

    S violation(const Vec<NX>& z) const {
        S r(0.0);
        for (int i = 0; i < NE; ++i) r = smax(r, sabs(U::con(i, z, par)));
        for (int i = 0; i < NI; ++i) { const S g = U::con(NE + i, z, par); r = smax(r, smax(lbg(i) - g, g - ubg(i))); }
        for (int i = 0; i < NX; ++i) r = smax(r, smax(lbx(i) - z(i), z(i) - ubx(i)));
        return r;
    }
    S l1_violation(const Vec<NX>& z) const {
        S r(0.0); auto pos = [](const S& t) { return smax(t, S(0.0)); };
        for (int i = 0; i < NE; ++i) r = r + sabs(U::con(i, z, par));
        for (int i = 0; i < NI; ++i) { const S g = U::con(NE + i, z, par); r = r + pos(lbg(i) - g) + pos(g - ubg(i)); }
        for (int i = 0; i < NX; ++i) r = r + pos(lbx(i) - z(i)) + pos(z(i) - ubx(i));
        return r;
    }
    B converged() const { return both(le(pnorm, eps_prim), both(le(dnorm, eps_dual), le(violation(x), eps_prim))); }

    template<class HH, class G, class J, class C> void check_model(const HH& h, const G& g, const J& a, const C& al, const C& au, const G& xl, const G& xu) {
        if (!o.c7) return;
        same("Hessian of the subproblem", h, H);
        for (int i = 0; i < NX; ++i) { ensure(tag(idx("gradient of the subproblem", i)), eq(g(i), U::f(x, par, {i}))); ensure(tag(idx("lower variable bound", i)), eq(xl(i), lbx(i) - x(i))); ensure(tag(idx("upper variable bound", i)), eq(xu(i), ubx(i) - x(i))); }
        for (int c = 0; c < M; ++c) {
            const S v = U::con(c, x, par);
            for (int i = 0; i < NX; ++i) ensure(tag(idx("constraint matrix", c, i)), eq(at(a, c, i), U::con(c, x, par, {i})));
            ensure(tag(idx("lower constraint bound", c)), eq(al(c), c < NE ? -v : lbg(c < NE ? 0 : c - NE) - v)); ensure(tag(idx("upper constraint bound", c)), eq(au(c), c < NE ? -v : ubg(c < NE ? 0 : c - NE) - v));
        }
    }
    template<class HH, class G, class J, class C> void scaled_data(const HH& h, const G& g, const J& a, const C& al, const C& au, const G& xl, const G& xu) { sH = h; sh = g; sA = a; sal = al; sau = au; sxl = xl; sxu = xu; }
    template<class HH, class G, class J, class C> void is_scaled_data(const HH& h, const G& g, const J& a, const C& al, const C& au, const G& xl, const G& xu) {
        if (!o.c7) return;
        same("scaled Hessian", h, sH); same("scaled gradient", g, sh); same("scaled constraint matrix", a, sA); same("scaled lower bounds", al, sal); same("scaled upper bounds", au, sau); same("scaled lower variable bounds", xl, sxl); same("scaled upper variable bounds", xu, sxu);
    }
    template<class P, class L> void unscale_solution(P& q, L& l) {
        if (o.c8) { same("QP step handed to unscale", q, p); same("QP multiplier handed to unscale", l, lamqp); }
        fresh(q, "p"); fresh(l, "lam"); ++counter(); p = q; lamqp = l; dlam = lamqp - lam;
    }
    /** a linearisation point: called when the Hessian model of the next subproblem is due */
    void new_point(const Vec<NX>& cx, const Vec<M + NX>& cl) {
        for (int i = 0; i < NX; ++i) grad(i) = U::lag_grad(i, x, par, lam);
        if (o.c8) { same("iterate", cx, x); same("multiplier", cl, lam); }
    }
    void exact_hessian() { for (int i = 0; i < NX; ++i) for (int j = 0; j < NX; ++j) H(i, j) = U::lag_hess(i, j, x, par, lam) + ((o.regularised && i == j) ? S(0.125) : S(0.0)); }
    template<class HH, class G, class J, class C> void qp_called(const HH& h, const G& g, const J& a, const C& al, const C& au, const G& xl, const G& xu, Vec<NX>& px, Vec<M + NX>& py, int& it) {
        ++k;
        if (o.c6) { ensure(tag("iteration limit"), k <= o.max_iter); if (k > 1) ensure("another iteration only if the stopping test failed", negate(converged())); }
        if (o.preconditioned) is_scaled_data(h, g, a, al, au, xl, xu); else check_model(h, g, a, al, au, xl, xu);
        fresh(px, "p"); fresh(py, "lam"); ++counter();
        p = px; lamqp = py; dlam = lamqp - lam; it = 3 + k; qp_iter += it;
        for (int i = 0; i < NX; ++i) grad_prev(i) = U::lag_grad(i, x, par, lam);
        stepped = false;
    }
    /** the step length has been selected */
    void take_step(const S& a, const S& cost_at) {
        if (o.c8) ensure(tag("one step length per subproblem"), !stepped); stepped = true;
        alpha = a;
        for (int i = 0; i < NX; ++i) { step(i) = a * p(i); x(i) = x(i) + step(i); }
        const S pn = norm_inf(p), dn = norm_inf(dlam);
        for (int i = 0; i < M + NX; ++i) { lam(i) = lam(i) + a * dlam(i); }
        pnorm = a * pn; dnorm = a * dn;
    }
};

enum { FREE_STEP = 1, FREE_HESS = 2, EXACT = 4, REGULARISE = 8 };
template<class Problem, class QP, class Prec, int Flags, int NX, int NE, int NI, int NP>
class Solver : public SQPBase<Solver<Problem, QP, Prec, Flags, NX, NE, NI, NP>, Problem, QP, Prec> {
public:
    using Base = SQPBase<Solver<Problem, QP, Prec, Flags, NX, NE, NI, NP>, Problem, QP, Prec>;
    using U = User<NX, NE, NI, NP>; using X = Vec<NX>; using L = Vec<NX + NE + NI>; using typename Base::nlp_hessian_t; using typename Base::nlp_jacobian_t; using typename Base::nlp_constraints_t; using typename Base::parameter_t;
    static Reference<NX, NE, NI, NP>& ref() { return *the_reference<NX, NE, NI, NP>(); }
    S step_size_selection_impl(const Eigen::Ref<const X>& p) noexcept {
        auto& r = ref(); S a;
        if (r.o.c8) { r.same("direction", p, r.p); r.same("iterate during the line search", this->m_x, r.x); }
        if (Flags & FREE_STEP) { a = input("alpha" + std::to_string(r.counter()), 0.1, 1); require(lt(S(0.0), a)); require(le(a, S(1.0))); this->m_cost = U::f(X(r.x + a * r.p), r.par); }
        else {
            a = Base::step_size_selection_impl(p);
            if (r.o.c8) {       // backtracking on the l1 merit function
                const S mu = norm_inf(r.lamqp);
                const S v = this->constraints_violation(r.x); S D = -mu * v; for (int i = 0; i < NX; ++i) D = D + U::f(r.x, r.par, {i}) * r.p(i);
                const S phi = U::f(r.x, r.par) + mu * v; S t(1.0);
                for (int j = 1; ; ++j, t = r.tau * t) {
                    if (j >= r.o.ls) { ensure(r.tag("step length: the last one the budget allows"), eq(a, t)); break; }
                    const X z = r.x + t * r.p;
                    if (decide(le(U::f(z, r.par) + mu * this->constraints_violation(z), phi + t * r.eta * D))) { ensure(r.tag("step length: the first with sufficient decrease"), eq(a, t)); break; }
                }
                ensure(r.tag("step length in (0,1]"), both(lt(S(0.0), a), le(a, S(1.0))));
            }
        }
        r.take_step(a, S(0.0)); return a;
    }
    void hessian_update_impl(Eigen::Ref<nlp_hessian_t> hessian, const Eigen::Ref<const X>& x_step, const Eigen::Ref<const X>& grad_step) noexcept { update(hessian, x_step, grad_step, std::integral_constant<bool, (Flags & FREE_HESS) != 0>()); }
    template<class HH> void checks(const HH& h, const Eigen::Ref<const X>& s, const Eigen::Ref<const X>& y) {
        auto& r = ref(); if (!r.o.c7) return; X g; for (int i = 0; i < NX; ++i) g(i) = U::lag_grad(i, r.x, r.par, r.lam) - r.grad_prev(i);
        r.same("Hessian to be updated", h, r.H); r.same("step given to the Hessian update", s, r.step); r.same("gradient difference given to the Hessian update", y, g);
    }
    template<class HH> void update(HH& h, const Eigen::Ref<const X>& s, const Eigen::Ref<const X>& y, std::true_type) { checks(h, s, y); ref().fresh(h, "B"); ++ref().counter(); for (int i = 0; i < NX; ++i) for (int j = 0; j < NX; ++j) ref().H(i, j) = ref().at(h, i, j); }
    template<class HH> void update(HH& h, const Eigen::Ref<const X>& s, const Eigen::Ref<const X>& y, std::false_type) { checks(h, s, y); const X yy = y; BFGS_update(ref().H, ref().step, yy); Base::hessian_update_impl(h, s, y); }
    template<class H> void reg(H& h) { if (Flags & REGULARISE) for (int i = 0; i < NX; ++i) h.coeffRef(i, i) += S(0.125); }
    void hessian_regularisation_dense_impl(Eigen::Ref<nlp_hessian_t> h) noexcept { if (Flags & REGULARISE) reg(h); else Base::hessian_regularisation_dense_impl(h); }
    void hessian_regularisation_sparse_impl(nlp_hessian_t& h) noexcept { if (Flags & REGULARISE) reg(h); else Base::hessian_regularisation_sparse_impl(h); }
    void linearisation_dense_impl(const Eigen::Ref<const X>& x, const Eigen::Ref<const parameter_t>& p, const Eigen::Ref<const L>& lam, Eigen::Ref<X> g, Eigen::Ref<nlp_hessian_t> h, Eigen::Ref<nlp_jacobian_t> A, Eigen::Ref<nlp_constraints_t> b) noexcept {
        ref().new_point(x, lam); ref().exact_hessian(); Base::linearisation_dense_impl(x, p, lam, g, h, A, b); }
    void linearisation_sparse_impl(const Eigen::Ref<const X>& x, const Eigen::Ref<const parameter_t>& p, const Eigen::Ref<const L>& lam, Eigen::Ref<X> g, nlp_hessian_t& h, nlp_jacobian_t& A, Eigen::Ref<nlp_constraints_t> b) noexcept {
        ref().new_point(x, lam); ref().exact_hessian(); Base::linearisation_sparse_impl(x, p, lam, g, h, A, b); }
    void update_linearisation_dense_impl(const Eigen::Ref<const X>& x, const Eigen::Ref<const parameter_t>& p, const Eigen::Ref<const X>& s, const Eigen::Ref<const L>& lam, Eigen::Ref<X> g, Eigen::Ref<nlp_hessian_t> h, Eigen::Ref<nlp_jacobian_t> A, Eigen::Ref<nlp_constraints_t> b) noexcept {
        if (Flags & EXACT) { linearisation_dense_impl(x, p, lam, g, h, A, b); return; }
        ref().new_point(x, lam); Base::update_linearisation_dense_impl(x, p, s, lam, g, h, A, b); }
    void update_linearisation_sparse_impl(const Eigen::Ref<const X>& x, const Eigen::Ref<const parameter_t>& p, const Eigen::Ref<const X>& s, const Eigen::Ref<const L>& lam, Eigen::Ref<X> g, nlp_hessian_t& h, nlp_jacobian_t& A, Eigen::Ref<nlp_constraints_t> b) noexcept {
        if (Flags & EXACT) { linearisation_sparse_impl(x, p, lam, g, h, A, b); return; }
        ref().new_point(x, lam); Base::update_linearisation_sparse_impl(x, p, s, lam, g, h, A, b); }
};

template<class Sqp, int NX, int NE, int NI, int NP> void solve_once(Sqp& s, Reference<NX, NE, NI, NP>& r, const Opt& o, const std::string& pre) {
    using U = User<NX, NE, NI, NP>;
    r.o = o; r.pre = pre; r.k = 0; r.qp_iter = 0; r.stepped = true;
    r.lbx = input_vec<NX>(pre + "lbx", -2, 0.5); r.ubx = input_vec<NX>(pre + "ubx", 0, 2); r.lbg = input_vec<NI>(pre + "lbg", -2, 0.5); r.ubg = input_vec<NI>(pre + "ubg", 0, 2); r.par = input_vec<NP>(pre + "par");
    r.tau = input(pre + "tau", 0.2, 0.8); r.eta = input(pre + "eta", 0.1, 0.6); r.eps_prim = input(pre + "eps_prim", 0.5, 6); r.eps_dual = input(pre + "eps_dual", 0.5, 6);
    require(lt(S(0.0), r.tau)); require(lt(r.tau, S(1.0))); require(lt(S(0.0), r.eta)); require(lt(r.eta, S(1.0))); require(lt(S(0.0), r.eps_prim)); require(lt(S(0.0), r.eps_dual));
    for (int i = 0; i < NX; ++i) require(le(r.lbx(i), r.ubx(i))); for (int i = 0; i < NI; ++i) require(le(r.lbg(i), r.ubg(i)));
    s.lower_bound_x() = r.lbx; s.upper_bound_x() = r.ubx; s.lower_bound_g() = r.lbg; s.upper_bound_g() = r.ubg; s.parameters() = r.par;
    auto& st = s.settings(); st.tau = r.tau; st.eta = r.eta; st.eps_prim = r.eps_prim; st.eps_dual = r.eps_dual; st.max_iter = o.max_iter; st.line_search_max_iter = o.ls; st.iteration_callback = nullptr;
    if (o.guess) { r.x = input_vec<NX>(pre + "x0"); r.lam = input_vec<NX + NE + NI>(pre + "lam0"); s.solve(r.x, r.lam); }
    else { r.x = s.primal_solution(); r.lam = s.dual_solution(); s.solve(); }
    if (o.c8) { r.same("returned iterate", s.primal_solution(), r.x); r.same("returned multiplier", s.dual_solution(), r.lam); }
    if (o.c6) {
        const bool solved = s.info().status.value == sqp_status_t::SOLVED;
        ensure("status solved or iteration limit", solved || s.info().status.value == sqp_status_t::MAX_ITER_EXCEEDED);
        ensure("reported iterations are those performed", s.info().iter == r.k); ensure("reported QP iterations are those performed", s.info().qp_solver_iter == r.qp_iter); ensure("iteration limit", r.k <= o.max_iter);
        if (!solved) { ensure("iteration limit reached", r.k == o.max_iter); ensure("not solved only if the stopping test fails", negate(r.converged())); }
        else {
            ensure("solved: primal step", le(r.pnorm, r.eps_prim)); ensure("solved: multiplier step", le(r.dnorm, r.eps_dual)); ensure("solved: constraint violation", le(r.violation(s.primal_solution()), r.eps_prim));
        }
        ensure("reported primal norm", eq(s.primal_norm(), r.pnorm)); ensure("reported dual norm", eq(s.dual_norm(), r.dnorm)); ensure("reported violation", eq(s.constr_violation(), r.violation(s.primal_solution())));
        ensure("reported cost", eq(s.cost(), U::f(s.primal_solution(), r.par)));
    }
}
template<int NX, int NE, int NI, int NP, int Fmt, int Flags, class Problem = StubProblem<NX, NE, NI, NP, Fmt>> void session(Opt o, bool preconditioned = false) {
    static Reference<NX, NE, NI, NP> r; the_reference<NX, NE, NI, NP>() = &r; r.counter() = 0; o.regularised = (Flags & REGULARISE) != 0; o.preconditioned = preconditioned;
    division_checks(false);
    auto go = [&](auto& s) { solve_once(s, r, o, ""); if (o.twice) { Opt q = o; q.guess = false; solve_once(s, r, q, "again_"); } };
    if (preconditioned) { auto* s = new Solver<Problem, StubQP<NX, NE, NI, NP>, StubPreconditioner<NX, NE, NI, NP>, Flags, NX, NE, NI, NP>(); go(*s); }
    else { auto* s = new Solver<Problem, StubQP<NX, NE, NI, NP>, polympc::IdentityPreconditioner, Flags, NX, NE, NI, NP>(); go(*s); }
}
