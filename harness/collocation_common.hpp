// Contracts of the stand-alone collocation classes, for arbitrary smooth user functions and any collocation scheme.
// Parameters are plain data of these classes: derivatives are with respect to states and controls.
#pragma once
#include "ocp_common.hpp"
#include "control/ode_collocation.hpp"
#include "control/sparse_ode_collocation.hpp"
#include "control/cost_collocation.hpp"
#include "control/constraints_collocation.hpp"

/** a scheme as these classes use it: data of an object */
template<int PO> struct Basis {
    enum { POLY_ORDER = PO }; using scalar_t = S; using diff_mat_t = Mat<PO + 1, PO + 1>; using q_weights_t = Vec<PO + 1>; using nodes_t = Vec<PO + 1>;
    diff_mat_t D() const { return Scheme<PO, 1>::compute_diff_matrix(); }
    q_weights_t CCQWeights() const { q_weights_t w = Scheme<PO, 1>::compute_int_weights(); w(PO) = w(0); return w; }      // symmetric weights (P17)
};
template<int NX, int NU, int NP> struct Types { using Scalar = S; using State = Vec<NX>; using Control = Vec<NU>; using Parameters = Vec<NP>; S k{0.0}; };   // k: data the user put into the functor
template<class X, class U> auto stack(const X& x, const U& u) { using T = typename X::Scalar; std::vector<T> a; for (int i = 0; i < x.size(); ++i) a.push_back(x(i)); for (int i = 0; i < u.size(); ++i) a.push_back(u(i)); return a; }
template<class P> std::vector<S> plain(const P& p, const S& k) { std::vector<S> r; for (int i = 0; i < p.size(); ++i) r.push_back(p(i)); r.push_back(k); return r; }
template<int NX, int NU, int NP> struct Dyn : Types<NX, NU, NP> { template<class X, class U, class P, class Y> void operator()(const X& x, const U& u, const P& p, Y& y) const { for (int i = 0; i < NX; ++i) y(i) = smooth<typename X::Scalar>(idx("f", i), stack(x, u), plain(p, this->k)); } };
template<int NX, int NU, int NP> struct Stage : Types<NX, NU, NP> { template<class X, class U, class P, class Y> void operator()(const X& x, const U& u, const P& p, Y& y) const { y = smooth<typename X::Scalar>("L", stack(x, u), plain(p, this->k)); } };
template<int NX, int NU, int NP> struct Final : Types<NX, NU, NP> { template<class X, class Y> void operator()(const X& x, Y& y) const { y = smooth<typename X::Scalar>("M", stack(x, Vec<0>().template cast<typename X::Scalar>()), {this->k}); } };
template<int NX, int NU, int NP, int NY> struct Path : Types<NX, NU, NP> { template<class X, class U, class P, class Y> void operator()(const X& x, const U& u, const P& p, Y& y) const { for (int i = 0; i < NY; ++i) y(i) = smooth<typename X::Scalar>(idx("g", i), stack(x, u), plain(p, this->k)); } };

template<int NX, int NU, int NP, int PO, int SEG> struct Colloc {
    enum { NN = PO * SEG + 1, XS = NX * NN, US = NU * NN, N = XS + US + NP, PO_ = PO };
    Vec<N> x; S t0, tf, k; Mat<PO + 1, PO + 1> D = Basis<PO>().D(); Vec<PO + 1> w = Basis<PO>().CCQWeights();
    void at(const std::string& t, bool horizon) { for (int i = 0; i < N; ++i) x(i) = input(idx(t + "v", i)); if (horizon) { t0 = input(t + "t0", -1, 1); tf = input(t + "tf", 1.5, 3); } else { t0 = S(-1.0); tf = S(1.0); } }
    S half() const { return (tf - t0) / S(2.0 * SEG); }
    static int seg(int n) { return n == NN - 1 ? SEG - 1 : n / PO; }
    static int loc(int n) { return n - seg(n) * PO; }
    static int var(int n, int i) { return i < NX ? n * NX + i : XS + n * NU + i - NX; }
    static int arg(int n, int v) { for (int i = 0; i < NX + NU; ++i) if (var(n, i) == v) return i; return -1; }
    S F(const std::string& f, int n, const Mi& mi = {}) const { std::vector<S> a; for (int i = 0; i < NX + NU; ++i) a.push_back(x(var(n, i))); for (int i = 0; i < NP; ++i) a.push_back(x(XS + US + i)); a.push_back(k); return A::uf(f, mi, a); }
    S Fm(const Mi& mi = {}) const { std::vector<S> a; for (int i = 0; i < NX; ++i) a.push_back(x(i)); a.push_back(k); return A::uf("M", mi, a); }
    S deq(int r, int v) const { const int n = r / NX, s = seg(n), j = v / NX - s * PO; return v < XS && v % NX == r % NX && j >= 0 && j <= PO ? D(loc(n), j) : S(0.0); }
    S ode(int r) const { S v = -half() * F(idx("f", r % NX), r / NX); for (int c = 0; c < XS; ++c) v = v + deq(r, c) * x(c); return v; }
    S ode(int r, int a) const { const int i = arg(r / NX, a); return deq(r, a) - (i < 0 ? S(0.0) : half() * F(idx("f", r % NX), r / NX, {i})); }
    template<class G> S total(const G& g) const { S v(0.0); for (int s = 0; s < SEG; ++s) for (int j = 0; j <= PO; ++j) v = v + half() * w(j) * g(s * PO + j); return v; }
    S cost() const { return total([&](int n) { return F("L", n); }) + Fm(); }
    S cost(int a) const { return total([&](int n) { const int i = arg(n, a); return i < 0 ? S(0.0) : F("L", n, {i}); }) + (a < NX ? Fm({a}) : S(0.0)); }
    S cost(int a, int b) const { return total([&](int n) { const int i = arg(n, a), j = arg(n, b); return i < 0 || j < 0 ? S(0.0) : F("L", n, with({i}, j)); }) + (a < NX && b < NX ? Fm(with({a}, b)) : S(0.0)); }

    // ---- the classes under contract
    template<class M> static int rows(const M& m) { return (int)m.rows(); }
    static constexpr int rounds = 3;
    template<class O> void ode_value(const std::string& l, const O& o, bool horizon) {
        typename O::constr_t c; if (horizon) o(x, c, t0, tf); else o(x, c);
        for (int r = 0; r < XS; ++r) ensure(l + ": value " + std::to_string(r), eq(c(r), ode(r)));
    }
    template<class O, class J> void ode_linear(const std::string& l, O& o, J& j, bool horizon) {
        typename O::constr_t c; if (horizon) o.linearized(x, j, c, t0, tf); else o.linearized(x, j, c);
        ensure(l + ": size of the linearisation", rows(j) == XS && (int)j.cols() == N);
        for (int r = 0; r < XS; ++r) { ensure(l + ": value of the linearisation " + std::to_string(r), eq(c(r), ode(r))); for (int a = 0; a < N; ++a) ensure(l + ": Jacobian " + idx("", r, a), eq(entry(j, r, a), ode(r, a))); }
    }
    template<class O, class J> void ode_history(O& o, J& j) {
        const int skip = choose("first", 2);        // linearise before or after evaluating
        for (int i = 0; i < rounds; ++i) {
            const std::string t = i == 0 ? "" : idx("later ", i); at(t, i > 0);
            if (skip || i) ode_linear(t + "linearisation", o, j, i > 0); ode_value(t + "evaluation", static_cast<const O&>(o), i > 0);
        }
    }
    template<class O> void dense(O& o) { typename O::jacobian_t j; ode_history(o, j); }
    template<class O> void sparse(O& o) { typename O::jacobian_t j(XS, N); ode_history(o, j); }
    template<class F> F functor() { F f; f.k = k; return f; }
    template<class C> void costs(C& c) {
        for (int i = 0; i < rounds; ++i) for (int what = 0; what < 3; ++what) {
            const std::string t = (i == 0 ? "" : idx("later ", i)), l = t + (what == 0 ? "value" : what == 1 ? "gradient" : "Hessian"); at(t, i > 0);
            S v; Vec<N> g; Mat<N, N> h; const C& cc = c;
            if (what == 0) { if (i) cc(x, v, t0, tf); else cc(x, v); } else if (what == 1) { if (i) c.value_gradient(x, v, g, t0, tf); else c.value_gradient(x, v, g); } else { if (i) c.value_gradient_hessian(x, v, g, h, t0, tf); else c.value_gradient_hessian(x, v, g, h); }
            ensure(l + ": cost", eq(v, cost()));
            if (what) for (int a = 0; a < N; ++a) ensure(l + ": gradient " + std::to_string(a), eq(g(a), cost(a)));
            if (what == 2) for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) ensure(l + ": Hessian " + idx("", a, b), eq(h(a, b), cost(a, b)));
        }
    }
    template<int NY> void paths() {
        using F = Path<NX, NU, NP, NY>; F f = functor<F>(); polympc::constraint_collocation<NX, NU, NP, Basis<PO>, SEG> c;
        for (int i = 0; i < 2; ++i) {
            at(i ? "later " : "", false); Vec<NN * NY> v; c.template generic_function<F, NY>(f, x, v); const auto u = c.template generic_function<F, NY>(f, x);
            ensure("size of the path constraints", u.size() == NN * NY);
            for (int r = 0; r < NN * NY; ++r) ensure("path constraint " + std::to_string(r), both(eq(v(r), F_(r, NY)), eq(S(u(r)), F_(r, NY))));
        }
    }
    S F_(int r, int ny) const { return F(idx("g", r % ny), r / ny); }
};
