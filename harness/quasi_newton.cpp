// Contracts of the quasi-Newton updates.  A symmetric positive definite matrix is given by its Cholesky factor (every such
// matrix has one), so the definiteness argument is a chain of ring identities and sums of squares.
#include "pv.hpp"
#include "solvers/bfgs.hpp"
#include "solvers/sr1.hpp"
using namespace pv;

template<int N> S dot(const Vec<N>& a, const Vec<N>& b) { S r(0.0); for (int i = 0; i < N; ++i) r = r + a(i) * b(i); return r; }
template<int N> Vec<N> mul(const Mat<N, N>& B, const Vec<N>& s) { Vec<N> r; for (int i = 0; i < N; ++i) { r(i) = S(0.0); for (int j = 0; j < N; ++j) r(i) = r(i) + B(i, j) * s(j); } return r; }
template<int N> struct Spd { Mat<N, N> L, B; };
template<int N> Spd<N> spd() {
    Spd<N> r; r.L.setZero();
    for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) r.L(i, j) = input(idx("L", i, j), i == j ? 0.3 : -1, i == j ? 2 : 1);
    for (int i = 0; i < N; ++i) require(lt(S(0.0), r.L(i, i)));
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { r.B(i, j) = S(0.0); for (int k = 0; k <= std::min(i, j); ++k) r.B(i, j) = r.B(i, j) + r.L(i, k) * r.L(j, k); }
    return r;
}
/** a step whose last nonzero component is `last` (-1: zero step) */
template<int N> Vec<N> step(int last) {
    Vec<N> s; s.setZero();
    for (int i = 0; i <= last; ++i) s(i) = input(idx("s", i));
    if (last >= 0) require(negate(eq(s(last), S(0.0))));
    return s;
}
template<int N> void unchanged(const Mat<N, N>& B, const Mat<N, N>& B0) { ensure_eq("matrix unchanged", B, B0); }
template<int N> void symmetric(const Mat<N, N>& B) { for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) ensure("symmetric", eq(B(i, j), B(j, i))); }

template<int N> void bfgs(int last) {
    Spd<N> m = spd<N>(); Vec<N> s = step<N>(last), y = input_vec<N>("y"), q;
    for (int i = 0; i < N; ++i) { q(i) = S(0.0); for (int k = i; k < N; ++k) q(i) = q(i) + m.L(k, i) * s(k); hint_square(q(i)); }     // q = L^T s
    const Vec<N> Bs = mul<N>(m.B, s); const S sBs = dot<N>(s, Bs), sy = dot<N>(s, y);
    if (last >= 0) { hint_square(s(last)); hint_positive("leading square", q(last) * q(last), S(1.0)); lemma("s'Bs is positive", lt(S(0.0), sBs)); }
    Mat<N, N> B = m.B; const S eps(std::numeric_limits<double>::epsilon());
    BFGS_update(B, s, y);
    // reference: Procedure 18.2 with the documented damping constant
    const bool damped = decide(lt(sy, S(0.2) * sBs));
    Vec<N> r = y; S sr = sy;
    if (damped) { const S th = S(0.8) * sBs / (sBs - sy); for (int i = 0; i < N; ++i) r(i) = th * y(i) + (S(1.0) - th) * Bs(i); sr = th * sy + (S(1.0) - th) * sBs; ensure("damping gives curvature of one fifth", eq(sr, (S(1.0) - S(0.8)) * sBs)); }
    symmetric<N>(B);
    if (decide(lt(sr, eps))) { unchanged<N>(B, m.B); return; }
    if (last < 0) { ensure("a zero step is never applied", false); return; }
    lemma("curvature is positive", lt(S(0.0), sr));
    const Vec<N> Bps = mul<N>(B, s);
    for (int i = 0; i < N; ++i) {
        ensure("modified secant equation " + std::to_string(i), eq(Bps(i), r(i)));
        if (!damped) ensure("secant equation " + std::to_string(i), eq(Bps(i), y(i)));
        for (int j = 0; j < N; ++j) ensure("update formula [" + std::to_string(i) + "," + std::to_string(j) + "]", eq(B(i, j), m.B(i, j) - Bs(i) * Bs(j) / sBs + r(i) * r(j) / sr));
    }
}
// Definiteness, as lemmas over the update formula established above (r arbitrary with s'r > 0):
/** v'(B - Bs s'B/s'Bs + r r'/s'r)v = v'Bv - (v'Bs)^2/s'Bs + (r'v)^2/s'r for every symmetric B */
template<int N> void lemma_form() {
    Mat<N, N> B, P; for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) { B(i, j) = input(idx("B", i, j)); B(j, i) = B(i, j); }
    const Vec<N> s = input_vec<N>("s"), r = input_vec<N>("r"), v = input_vec<N>("v"), Bs = mul<N>(B, s); const S sBs = dot<N>(s, Bs), sr = dot<N>(s, r);
    require(lt(S(0.1), sBs)); require(lt(S(0.1), sr));
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) P(i, j) = B(i, j) - Bs(i) * Bs(j) / sBs + r(i) * r(j) / sr;
    const S vBs = dot<N>(v, Bs), rv = dot<N>(r, v);
    ensure("quadratic form of the update", eq(dot<N>(v, mul<N>(P, v)), dot<N>(v, mul<N>(B, v)) - vBs * vBs / sBs + rv * rv / sr));
}
/** with B = L L', w = L'v, q = L's: the three products are Euclidean */
template<int N> void lemma_factor() {
    Spd<N> m = spd<N>(); const Vec<N> s = input_vec<N>("s"), v = input_vec<N>("v"); Vec<N> w, q;
    for (int i = 0; i < N; ++i) { w(i) = q(i) = S(0.0); for (int k = i; k < N; ++k) { w(i) = w(i) + m.L(k, i) * v(k); q(i) = q(i) + m.L(k, i) * s(k); } }
    ensure("v'Bv", eq(dot<N>(v, mul<N>(m.B, v)), dot<N>(w, w))); ensure("v'Bs", eq(dot<N>(v, mul<N>(m.B, s)), dot<N>(w, q))); ensure("s'Bs", eq(dot<N>(s, mul<N>(m.B, s)), dot<N>(q, q)));
    const Vec<N> t = input_vec<N>("t"); Vec<N> r; for (int i = 0; i < N; ++i) { r(i) = S(0.0); for (int k = 0; k <= i; ++k) r(i) = r(i) + m.L(i, k) * t(k); }      // r = L t
    ensure("s'r", eq(dot<N>(s, r), dot<N>(q, t))); ensure("v'r", eq(dot<N>(v, r), dot<N>(w, t)));
}
/** w'w - (w'q)^2/q'q + (w't)^2/q't > 0 for every w != 0, given q't > 0 */
template<int N> void lemma_definite(int last) {
    const Vec<N> q = input_vec<N>("q"), t = input_vec<N>("t"); Vec<N> w; w.setZero();
    for (int i = 0; i <= last; ++i) w(i) = input(idx("w", i));
    require(negate(eq(w(last), S(0.0))));
    const S ww = dot<N>(w, w), wq = dot<N>(w, q), wt = dot<N>(w, t), qq = dot<N>(q, q), qt = dot<N>(q, t);
    require(lt(S(0.0), qt)); require(lt(S(0.0), qq));
    S lag(0.0); bool parallel = true; hint_square(wt);
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (i != j) {
        const S c = w(i) * q(j) - w(j) * q(i);
        if (i > j) { hint_square(c); lag = lag + c * c; if (!decide(eq(c, S(0.0)))) { hint_nonzero_square("cross product", c); parallel = false; } }
    }
    ensure("Lagrange identity", eq(lag, ww * qq - wq * wq));
    lemma("Lagrange term", le(S(0.0), lag)); hint_product("Lagrange term", lag, qt); hint_product("gradient term", wt * wt, qq);
    if (parallel) {
        for (int i = 0; i < N; ++i) if (i != last) hint_equal_times("parallel", w(i) * q(last) - w(last) * q(i), S(0.0), t(i));
        lemma("w is a multiple of q", eq(qt * w(last), wt * q(last)));
        hint_positive("square", qt, w(last) * w(last)); 
        if (decide(eq(wt, S(0.0)))) { hint_equal_times("contradiction", wt, S(0.0), q(last)); hint_equal_times("contradiction", qt * w(last), S(0.0), w(last)); }
        else { hint_nonzero_square("gradient term", wt); hint_positive("gradient term", wt * wt, qq); }
    } else hint_positive("Lagrange term", lag, qt);
    const S F = ww - wq * wq / qq + wt * wt / qt;
    hint_positive("curvatures", qq, qt);
    ensure("scaled form", eq(F * (qq * qt), lag * qt + wt * wt * qq));
    lemma("scaled form is positive", lt(S(0.0), lag * qt + wt * wt * qq));
    hint_cancel_strict("form", F, qq * qt);
    ensure("updated matrix is positive definite", lt(S(0.0), F));
}
PV_CASE(bfgs_lemma_form, "quadratic form of the BFGS formula") { lemma_form<1>(); lemma_form<2>(); lemma_form<3>(); lemma_form<4>(); }
PV_CASE(bfgs_lemma_factor, "Cholesky coordinates") { lemma_factor<2>(); lemma_factor<3>(); lemma_factor<4>(); }
PV_CASE(bfgs_lemma_definite_2, "positive definiteness, two variables") { lemma_definite<2>(choose("last", 2)); }
PV_CASE(bfgs_lemma_definite_3, "positive definiteness, three variables") { lemma_definite<3>(choose("last", 3)); }
PV_CASE(bfgs_2_zero_step, "damped BFGS, zero step") { bfgs<2>(-1); }
PV_CASE(bfgs_1, "damped BFGS, one variable") { bfgs<1>(choose("last", 2) - 1); }
PV_CASE(bfgs_2_first, "damped BFGS, step along the first variable") { bfgs<2>(0); }
PV_CASE(bfgs_2, "damped BFGS, two variables") { bfgs<2>(1); }
PV_CASE(bfgs_3, "damped BFGS, three variables") { bfgs<3>(2); }
PV_CASE(bfgs_3_short, "damped BFGS, three variables, last component zero") { bfgs<3>(choose("last", 2)); }
PV_CASE(bfgs_dynamic, "damped BFGS on dynamic matrices equals the fixed-size update") {
    Spd<2> m = spd<2>(); Vec<2> s = step<2>(1), y = input_vec<2>("y"); division_checks(false);
    Mat<2, 2> B = m.B; Eigen::Matrix<S, -1, -1> D = m.B; Eigen::Matrix<S, -1, 1> ds = s, dy = y;
    BFGS_update(B, s, y); BFGS_update(D, ds, dy); ensure_eq("same result", D, B);
}

template<int N> void sr1(bool zero_residual) {
    Mat<N, N> B0; for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) { B0(i, j) = input(idx("B", i, j)); B0(j, i) = B0(i, j); }
    Vec<N> s = input_vec<N>("s"), y = input_vec<N>("y"), v, Bs = mul<N>(B0, s);
    if (zero_residual) y = Bs;
    S vv(0.0), ss(0.0), sc(0.0);
    for (int i = 0; i < N; ++i) { v(i) = y(i) - Bs(i); hint_square(v(i)); hint_square(s(i)); vv = vv + v(i) * v(i); ss = ss + s(i) * s(i); sc = sc + s(i) * v(i); }
    Mat<N, N> B = B0;
    SR1_update(B, s, y);
    symmetric<N>(B);
    using std::sqrt; const S bound = S(1e-6) * sqrt(ss) * sqrt(vv), mag = sabs(sc);
    const Vec<N> Bps = mul<N>(B, s);
    if (decide(lt(bound, mag))) for (int i = 0; i < N; ++i) {
        ensure("secant equation " + std::to_string(i), eq(Bps(i), y(i)));
        for (int j = 0; j < N; ++j) ensure("update formula [" + std::to_string(i) + "," + std::to_string(j) + "]", eq(B(i, j), B0(i, j) + v(i) * v(j) / sc));
    }
    else if (decide(lt(mag, bound))) unchanged<N>(B, B0);
    else for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) ensure("unchanged or updated at the threshold", either(eq(B(i, j), B0(i, j)), eq((B(i, j) - B0(i, j)) * sc, v(i) * v(j))));
}
PV_CASE(sr1_1, "SR1, one variable") { sr1<1>(false); }
PV_CASE(sr1_2, "SR1, two variables") { sr1<2>(false); }
PV_CASE(sr1_3, "SR1, three variables") { sr1<3>(false); }
PV_CASE(sr1_exact, "SR1 when the matrix already satisfies the secant equation") { sr1<2>(true); }
