// Contracts of the MPC wrapper: every setter and accessor against the whole optimisation problem, and the interpolated trajectory.
#pragma once
#include "ocp_common.hpp"
#include "solvers/sqp_base.hpp"
#include "control/mpc_wrapper.hpp"

#include "solvers/box_admm.hpp"
template<class P> using MpcQp = boxADMM<P::VAR_SIZE, P::NUM_EQ + P::NUM_INEQ, S, P::MATRIXFMT, linear_solver_traits<P::MATRIXFMT>::template default_solver>;   // never called here: MPC only hands out its settings
template<class Problem, class... Q> struct MpcSolver : SQPBase<MpcSolver<Problem, Q...>, Problem, MpcQp<Problem>> {};
/** stands for a solver that replaces the iterate by an arbitrary one: solve() is specified by P06-P09 */
template<class Problem, class... Q> struct MpcRun : MpcSolver<Problem, Q...> { int solves = 0; void solve() { ++solves; for (int i = 0; i < this->m_x.size(); ++i) this->m_x(i) = input(idx("solved x", i)); for (int i = 0; i < this->m_lam.size(); ++i) this->m_lam(i) = input(idx("solved lam", i));
        this->m_primal_norm = input("primal norm"); this->m_dual_norm = input("dual norm"); this->m_max_violation = input("violation"); this->m_cost = input("cost"); } };

/** a problem that sets its horizon itself: to arbitrary limits, or (given_horizon) to [-0.5, 1] */
inline bool& given_horizon() { static bool g = false; return g; }
#define MPC_HORIZON(NAME, OCP) struct NAME : OCP { NAME() { require(lt(ctor_t0(), ctor_tf())); this->set_time_limits(ctor_t0(), ctor_tf()); } \
    static S ctor_t0() { return given_horizon() ? S(-0.5) : input("ctor t0", -2, 2); } static S ctor_tf() { return given_horizon() ? S(1.0) : input("ctor tf", 3, 5); } };

/** the complete optimisation problem of a solver: bounds, guess and parameters */
template<class P> struct Image {
    enum { NX = P::NX, NU = P::NU, NP = P::NP, ND = P::ND, NG = P::NG, NN = P::NUM_NODES, N = P::VAR_SIZE, XS = NX * NN, US = NU * NN };
    Vec<N> lbx, ubx, x; Vec<P::NUM_INEQ> lbg, ubg; Vec<P::DUAL_SIZE> lam; Vec<P::ND> par; S t0, tf;
    template<class Sol> static void arbitrary(Sol& s) {
        for (int i = 0; i < N; ++i) { s.lower_bound_x()(i) = input(idx("lbx", i)); s.upper_bound_x()(i) = input(idx("ubx", i)); s.m_x(i) = input(idx("x", i)); }
        for (int i = 0; i < P::NUM_INEQ; ++i) { s.lower_bound_g()(i) = input(idx("lbg", i)); s.upper_bound_g()(i) = input(idx("ubg", i)); }
        for (int i = 0; i < P::DUAL_SIZE; ++i) s.m_lam(i) = input(idx("lam", i));
        for (int i = 0; i < ND; ++i) s.parameters()(i) = input(idx("par", i));
    }
    template<class Sol> explicit Image(const Sol& s) : lbx(s.lower_bound_x()), ubx(s.upper_bound_x()), x(s.primal_solution()), lbg(s.lower_bound_g()), ubg(s.upper_bound_g()), lam(s.dual_solution()), par(s.parameters()), t0(s.get_problem().t_start), tf(s.get_problem().t_stop) {}
    void is(const std::string& l, const Image& r) const {
        ensure_eq(l + ": lower variable bounds", lbx, r.lbx); ensure_eq(l + ": upper variable bounds", ubx, r.ubx); ensure_eq(l + ": primal variables", x, r.x);
        ensure_eq(l + ": lower constraint bounds", lbg, r.lbg); ensure_eq(l + ": upper constraint bounds", ubg, r.ubg); ensure_eq(l + ": dual variables", lam, r.lam); ensure_eq(l + ": static parameters", par, r.par);
        ensure(l + ": horizon", both(eq(t0, r.t0), eq(tf, r.tf)));
    }
    // nodes are numbered forward in time here: node 0 is the initial one, stored last
    template<class V, class W> static void state(V& v, int node, const W& w) { for (int i = 0; i < NX; ++i) v((NN - 1 - node) * NX + i) = w(i); }
    template<class V, class W> static void control(V& v, int node, const W& w) { for (int i = 0; i < NU; ++i) v(XS + (NN - 1 - node) * NU + i) = w(i); }
    template<class V, class W> static void states(V& v, int from, int to, const W& w) { for (int k = from; k < to; ++k) state(v, k, w); }
    template<class V, class W> static void controls(V& v, const W& w) { for (int k = 0; k < NN; ++k) control(v, k, w); }
    template<class V, class W> static void constraint(V& v, const W& w) { for (int k = 0; k < NN; ++k) for (int i = 0; i < NG; ++i) v(k * NG + i) = w(i); }
    template<class V, class W> static void put(V& v, int from, const W& w) { for (int i = 0; i < w.size(); ++i) v(from + i) = w(i); }
};

template<class P, template<class, class...> class Sol = MpcSolver> struct Wrapper {
    using M = MPC<P, Sol>; using I = Image<P>; M mpc; const M& cmpc;
    enum { NX = P::NX, NU = P::NU, NP = P::NP, ND = P::ND, NG = P::NG, NN = P::NUM_NODES, PO = P::POLY_ORDER, SEG = P::NUM_SEGMENTS };
    Wrapper() : cmpc(mpc) {}
    static constexpr int setters = 23;
    void setter(int w, const std::string& t) {
        const Vec<NX> a = input_vec<NX>(t + "xa"), b = input_vec<NX>(t + "xb"); const Vec<NU> ua = input_vec<NU>(t + "ua"), ub = input_vec<NU>(t + "ub"); const Vec<NP> pa = input_vec<NP>(t + "pa"), pb = input_vec<NP>(t + "pb");
        const Vec<I::XS> xa = input_vec<I::XS>(t + "xta"), xb = input_vec<I::XS>(t + "xtb"); const Vec<I::US> uta = input_vec<I::US>(t + "uta"), utb = input_vec<I::US>(t + "utb");
        const Vec<NG> ga = input_vec<NG>(t + "ga"), gb = input_vec<NG>(t + "gb"); const Vec<NG * NN> gta = input_vec<NG * NN>(t + "gta"), gtb = input_vec<NG * NN>(t + "gtb");
        const Vec<ND> d = input_vec<ND>(t + "d"); const Vec<P::DUAL_SIZE> l = input_vec<P::DUAL_SIZE>(t + "l");
        I r(mpc.solver()); std::string n;
        switch (w) {
        case 0: n = "initial_conditions (point)"; mpc.initial_conditions(a); I::state(r.lbx, 0, a); I::state(r.ubx, 0, a); break;
        case 1: n = "initial_conditions (box)"; mpc.initial_conditions(a, b); I::state(r.lbx, 0, a); I::state(r.ubx, 0, b); break;
        case 2: n = "x_lower_bound"; mpc.x_lower_bound(a); I::states(r.lbx, 1, NN, a); break;
        case 3: n = "x_upper_bound"; mpc.x_upper_bound(a); I::states(r.ubx, 1, NN, a); break;
        case 4: n = "state_bounds"; mpc.state_bounds(a, b); I::states(r.lbx, 1, NN, a); I::states(r.ubx, 1, NN, b); break;
        case 5: n = "state_trajectory_bounds"; mpc.state_trajectory_bounds(xa, xb); I::put(r.lbx, 0, xa); I::put(r.ubx, 0, xb); break;
        case 6: n = "x_final_lower_bound"; mpc.x_final_lower_bound(a); I::state(r.lbx, NN - 1, a); break;
        case 7: n = "x_final_upper_bound"; mpc.x_final_upper_bound(a); I::state(r.ubx, NN - 1, a); break;
        case 8: n = "final_state_bounds"; mpc.final_state_bounds(a, b); I::state(r.lbx, NN - 1, a); I::state(r.ubx, NN - 1, b); break;
        case 9: n = "u_lower_bound"; mpc.u_lower_bound(ua); I::controls(r.lbx, ua); break;
        case 10: n = "u_upper_bound"; mpc.u_upper_bound(ua); I::controls(r.ubx, ua); break;
        case 11: n = "control_bounds"; mpc.control_bounds(ua, ub); I::controls(r.lbx, ua); I::controls(r.ubx, ub); break;
        case 12: n = "control_trajecotry_bounds"; mpc.control_trajecotry_bounds(uta, utb); I::put(r.lbx, I::XS, uta); I::put(r.ubx, I::XS, utb); break;
        case 13: n = "constraints_bounds"; mpc.constraints_bounds(ga, gb); I::constraint(r.lbg, ga); I::constraint(r.ubg, gb); break;
        case 14: n = "constraints_trajectory_bounds"; mpc.constraints_trajectory_bounds(gta, gtb); I::put(r.lbg, 0, gta); I::put(r.ubg, 0, gtb); break;
        case 15: n = "parameters_bounds"; mpc.parameters_bounds(pa, pb); I::put(r.lbx, I::XS + I::US, pa); I::put(r.ubx, I::XS + I::US, pb); break;
        case 16: n = "set_static_parameters"; mpc.set_static_parameters(d); I::put(r.par, 0, d); break;
        case 17: n = "x_guess"; mpc.x_guess(xa); I::put(r.x, 0, xa); break;
        case 18: n = "u_guess"; mpc.u_guess(uta); I::put(r.x, I::XS, uta); break;
        case 19: n = "p_guess"; mpc.p_guess(pa); I::put(r.x, I::XS + I::US, pa); break;
        case 20: n = "lam_guess"; mpc.lam_guess(l); I::put(r.lam, 0, l); break;
        case 21: { n = "set_time_limits"; const S t0 = input(t + "t0", -2, 2), tf = input(t + "tf", 3, 5); require(lt(t0, tf)); mpc.set_time_limits(t0, tf); r.t0 = t0; r.tf = tf; break; }
        case 22: n = "settings"; mpc.settings().max_iter = 17; mpc.qp_settings().max_iter = 19; ensure("settings reach the solver", mpc.solver().settings().max_iter == 17 && mpc.solver().qp_settings().max_iter == 19 && cmpc.settings().max_iter == 17 && cmpc.qp_settings().max_iter == 19); break;
        }
        I(mpc.solver()).is(n, r);
    }
    /** accessors, for any primal-dual iterate */
    void accessors(const std::string& t) {
        const auto& s = cmpc.solver(); const Vec<P::VAR_SIZE> x = s.primal_solution();
        auto X = [&](int node, int i) { return S(x((NN - 1 - node) * NX + i)); }; auto U = [&](int node, int i) { return S(x(I::XS + (NN - 1 - node) * NU + i)); };
        const I before(s);
        const auto sx = cmpc.solution_x(); const auto su = cmpc.solution_u(); const auto sp = cmpc.solution_p(); const auto sl = cmpc.solution_dual(); const auto rx = cmpc.solution_x_reshaped(); const auto ru = cmpc.solution_u_reshaped();
        ensure(t + "sizes", sx.size() == I::XS && su.size() == I::US && sp.size() == NP && sl.size() == P::DUAL_SIZE && rx.rows() == NX && rx.cols() == NN && ru.rows() == NU && ru.cols() == NN);
        for (int i = 0; i < I::XS; ++i) ensure(t + "solution_x " + std::to_string(i), eq(S(sx(i)), x(i)));
        for (int i = 0; i < I::US; ++i) ensure(t + "solution_u " + std::to_string(i), eq(S(su(i)), x(I::XS + i)));
        for (int i = 0; i < NP; ++i) ensure(t + "solution_p " + std::to_string(i), eq(S(sp(i)), x(I::XS + I::US + i)));
        for (int i = 0; i < P::DUAL_SIZE; ++i) ensure(t + "solution_dual " + std::to_string(i), eq(S(sl(i)), s.dual_solution()(i)));
        for (int k = 0; k < NN; ++k) {
            const auto xk = cmpc.solution_x_at(k); const auto uk = cmpc.solution_u_at(k);
            for (int i = 0; i < NX; ++i) { ensure(t + "solution_x_reshaped" + idx(" ", i, k), eq(S(rx(i, k)), X(k, i))); ensure(t + "solution_x_at node" + idx(" ", i, k), eq(S(xk(i)), X(k, i))); }
            for (int i = 0; i < NU; ++i) { ensure(t + "solution_u_reshaped" + idx(" ", i, k), eq(S(ru(i, k)), U(k, i))); ensure(t + "solution_u_at node" + idx(" ", i, k), eq(S(uk(i)), U(k, i))); }
        }
        if (!t.empty()) ensure(t + "solver statistics", both(both(eq(S(cmpc.primal_norm()), input("primal norm")), eq(S(cmpc.dual_norm()), input("dual norm"))), both(eq(S(cmpc.constr_violation()), input("violation")), eq(S(cmpc.cost()), input("cost")))));
        ensure(t + "info, problem", &cmpc.info() == &s.info() && &cmpc.ocp() == &s.get_problem());
        I(s).is(t + "accessors leave the problem alone", before);
    }
    /** time of forward node k of the current horizon */
    S half() const { const auto& o = cmpc.ocp(); return (o.t_stop - o.t_start) / S(2.0 * SEG); }
    /** value at normalised position z in segment k of the polynomial through the nodes of that segment */
    template<class G> S interpolant(int k, const S& z, const G& value) const {
        const auto& n = cmpc.ocp().m_nodes; S v(0.0);      // +1 ... -1; forward node j of the segment sits at n(PO - j)
        for (int j = 0; j <= PO; ++j) { S l(1.0); for (int m = 0; m <= PO; ++m) if (m != j) l = l * (z - n(PO - m)) / (n(PO - j) - n(PO - m)); v = v + l * value(k * PO + j); }
        return v;
    }
    void trajectory(const std::string& t) {
        const Vec<P::VAR_SIZE> x = cmpc.solver().primal_solution(); const auto& o = cmpc.ocp(); const auto& n = o.m_nodes;
        require(lt(o.t_start, o.t_stop)); for (int i = 0; i < PO; ++i) require(lt(n(i + 1) + S(symbolic ? 0.0 : 0.2), n(i)));      // distinct nodes; well apart where the arithmetic is that of double
        const int cell = choose(t + "cell", SEG + 2) - 1, k = std::max(0, std::min<int>(cell, SEG - 1));     // outside the horizon: the polynomial of the nearest segment
        const S f = input(t + "f", 0, 1, {0.0}); require(le(S(0.0), f)); require(lt(f, S(1.0)));
        const S at = o.t_start + S(2.0) * half() * (S(1.0 * cell) + f), z = S(2.0) * (S(1.0 * (cell - k)) + f) - S(1.0);
        const auto vx = cmpc.solution_x_at(at); const auto vu = cmpc.solution_u_at(at);
        for (int i = 0; i < NX; ++i) ensure(t + "state trajectory " + std::to_string(i), eq(S(vx(i)), interpolant(k, z, [&](int node) { return S(x((NN - 1 - node) * NX + i)); })));
        for (int i = 0; i < NU; ++i) ensure(t + "control trajectory " + std::to_string(i), eq(S(vu(i)), interpolant(k, z, [&](int node) { return S(x(I::XS + (NN - 1 - node) * NU + i)); })));
    }
};
