// Contracts of the LQR routines.  lqr.hpp is written for double: the symbolic build substitutes the scalar while the header
// is read (nothing is dropped), and the decompositions of Eigen it calls are replaced by their contracts.
#include "pv.hpp"
#include <complex>
#include <iostream>
#include "utils/helpers.hpp"
#include "unsupported/Eigen/Polynomials"
using namespace pv;
using MX = Eigen::Matrix<S, -1, -1>;
using VX = Eigen::Matrix<S, -1, 1>;

struct Ctx {
    std::vector<std::pair<MX, MX>> known;                 // Schur decompositions chosen by the case: (T, U)
    std::vector<MX> schur, svd; std::vector<MX> schurT, schurU;   // arguments and factors in call order
    MX sv, su; VX ss; bool svd_known = false, triangular = false; std::function<void(int)> on_schur;
    int n_roots = 3, n_lu = 0, n_svd = 0, n_eig = 0, n_schur = 0;
    std::vector<std::vector<S>> polys; std::vector<MX> inverse;
};
static Ctx* ctx = nullptr;
static MX mulx(const MX& a, const MX& b) { MX r(a.rows(), b.cols()); for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < b.cols(); ++j) { S t(0.0); for (int k = 0; k < a.cols(); ++k) t = t + a(i, k) * b(k, j); r(i, j) = t; } return r; }
static MX tr(const MX& a) { MX r(a.cols(), a.rows()); for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) r(j, i) = a(i, j); return r; }
static MX add(const MX& a, const MX& b, const S& k = S(1.0)) { MX r(a.rows(), a.cols()); for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) r(i, j) = a(i, j) + k * b(i, j); return r; }
static MX eye(int n, const S& d = S(1.0)) { MX r(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r(i, j) = i == j ? d : S(0.0); return r; }
static MX mat(const std::string& n, int r, int c, double lo = -2, double hi = 2) { MX m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = input(idx(n, i, j), lo, hi); return m; }
static bool is_zero(const S& a) { return symbolic && same(S(a * S(1.0)), S(0.0)); }

#ifndef PV_DOUBLE
static bool matches(const MX& a, const MX& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if (!decide(eq(a(i, j), b(i, j)))) return false; return true; }
namespace Eigen {
// contract: A = U T U', U orthogonal, T quasi upper triangular
template<> class RealSchur<MX> {
    MX t_, u_;
public:
    RealSchur() {}
    template<class D> explicit RealSchur(const EigenBase<D>& a, bool = true) { compute(a.derived()); }
    template<class D> RealSchur& compute(const EigenBase<D>& x, bool = true) {
        MX a = x.derived(); const int n = (int)a.rows(); ctx->schur.push_back(a); u_ = eye(n); t_ = a;
        bool up = true; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (!is_zero(a(i, j))) up = false;
        if (!up) {
            bool hit = false;
            for (auto& k : ctx->known) if (!hit && matches(a, mulx(mulx(k.second, k.first), tr(k.second)))) { t_ = k.first; u_ = k.second; hit = true; }
            if (!hit && ctx->triangular) { const std::string p = "schur" + std::to_string(ctx->n_schur++) + "T"; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { const S v = j < i ? S(0.0) : input(idx(p, i, j)); require(eq(t_(i, j), v)); t_(i, j) = v; } hit = true; }
            if (!hit) {
                const std::string p = "schur" + std::to_string(ctx->n_schur++); t_ = mat(p + "T", n, n); u_ = mat(p + "U", n, n);
                for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (j + 1 < i || choose(idx(p + "block", i), 2) == 0) t_(i, j) = S(0.0);
                const MX r = mulx(mulx(u_, t_), tr(u_)), o = mulx(tr(u_), u_), e = eye(n);
                for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { require(eq(r(i, j), a(i, j))); require(eq(o(i, j), e(i, j))); }
            }
        }
        ctx->schurT.push_back(t_); ctx->schurU.push_back(u_);
        if (ctx->on_schur) ctx->on_schur((int)ctx->schur.size());
        return *this;
    }
    const MX& matrixT() const { return t_; }
    const MX& matrixU() const { return u_; }
};
// contract: solve(b) returns an x with M x = b
template<> class PartialPivLU<MX> {
    MX m_;
public:
    template<class D> explicit PartialPivLU(const EigenBase<D>& m) : m_(m.derived()) {}
    template<class D> explicit PartialPivLU(EigenBase<D>& m) : m_(m.derived()) {}
    template<class D> Matrix<S, -1, D::ColsAtCompileTime> solve(const MatrixBase<D>& rhs) const {
        MX b = rhs; const int n = (int)m_.rows(), c = (int)b.cols(); MX x(n, c);
        eigen_assert(m_.rows() == b.rows());
        if (n == 1) { for (int j = 0; j < c; ++j) { require(negate(eq(m_(0, 0), S(0.0)))); x(0, j) = b(0, j) / m_(0, 0); } return x; }
        for (int j = 0; j < c; ++j) {       // a function of the system, so that equal systems have equal solutions
            std::vector<S> key; for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) key.push_back(m_(i, k)); for (int i = 0; i < n; ++i) key.push_back(b(i, j));
            for (int i = 0; i < n; ++i) x(i, j) = A::uf(idx("solution" + std::to_string(n), i), {}, key);
        }
        for (int i = 0; i < n; ++i) for (int j = 0; j < c; ++j) { S t(0.0); for (int k = 0; k < n; ++k) t = t + m_(i, k) * x(k, j); require(eq(t, b(i, j))); }
        return x;
    }
};
// contract: A = U diag(s) V', U and V orthogonal, s >= 0 decreasing
template<> class JacobiSVD<MX, ColPivHouseholderQRPreconditioner> {
    MX u_, v_; VX s_;
public:
    template<class D> JacobiSVD(const EigenBase<D>& x, unsigned = 0) {
        MX a = x.derived(); const int n = (int)a.rows(); ctx->svd.push_back(a); eigen_assert(a.rows() == a.cols());
        if (n == 1) { s_.resize(1); v_ = eye(1); u_ = eye(1); if (decide(le(S(0.0), a(0, 0)))) s_(0) = a(0, 0); else { u_(0, 0) = S(-1.0); s_(0) = -a(0, 0); } return; }
        if (ctx->svd_known && matches(a, mulx(mulx(ctx->su, MX(ctx->ss.asDiagonal())), tr(ctx->sv)))) { u_ = ctx->su; v_ = ctx->sv; s_ = ctx->ss; return; }
        const std::string p = "svd" + std::to_string(ctx->n_svd++); u_ = mat(p + "U", n, n); v_ = mat(p + "V", n, n); s_.resize(n);
        for (int i = 0; i < n; ++i) { s_(i) = input(idx(p + "s", i)); require(lt(S(1e-6), s_(i))); if (i) require(le(s_(i), s_(i - 1))); }
        MX si(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) si(i, j) = i == j ? S(1.0) / s_(i) : S(0.0);
        const MX e = eye(n), q = mulx(mulx(v_, si), tr(u_)), l = mulx(a, q), r = mulx(q, a); ctx->inverse.push_back(q);      // the inverse, a consequence of the contract
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { require(eq(l(i, j), e(i, j))); require(eq(r(i, j), e(i, j))); }
    }
    const VX& singularValues() const { return s_; }
    const MX& matrixU() const { return u_; }
    const MX& matrixV() const { return v_; }
};
// eigenvalues: arbitrary numbers (nothing below depends on more)
struct SpectrumStub { VX r; const VX& real() const { return r; } };
template<> class EigenSolver<MX> {
    SpectrumStub e_;
public:
    EigenSolver() {}
    template<class D> explicit EigenSolver(const EigenBase<D>& a, bool = true) { compute(a.derived()); }
    template<class D> EigenSolver& compute(const EigenBase<D>& a, bool = true) { e_.r.resize(a.rows()); if (a.rows() == 1) { MX m = a.derived(); e_.r(0) = m(0, 0); return *this; } const int k = ctx->n_eig++; for (int i = 0; i < a.rows(); ++i) e_.r(i) = input(idx("eig", k, i)); return *this; }
    const SpectrumStub& eigenvalues() const { return e_; }
};
// contract: a function of the polynomial, here left open (the contract of the line search only needs the polynomial itself)
struct RootStub { S re, im; S real() const { return re; } S imag() const { return im; } };
struct RootsStub { std::vector<RootStub> r; int size() const { return (int)r.size(); } const RootStub& operator()(int i) const { return r[i]; } const RootStub& operator[](int i) const { return r[i]; } };
template<> class PolynomialSolver<S, 3> {
    RootsStub r_;
public:
    template<class P> PolynomialSolver& compute(const P& p) {
        std::vector<S> c; for (int i = 0; i < 4; ++i) c.push_back(S(p[i])); ctx->polys.push_back(c);
        for (int k = 0; k < ctx->n_roots; ++k) r_.r.push_back(RootStub{A::uf(idx("root_re", k), {}, c), A::uf(idx("root_im", k), {}, c)});
        return *this;
    }
    const RootsStub& roots() const { return r_; }
};
template<class T> inline S poly_eval_pv(const T& p, const S& x) { S v(p[p.size() - 1]); for (int i = (int)p.size() - 2; i >= 0; --i) v = S(p[i]) + x * v; return v; }   // contract of poly_eval
inline S poly_eval(const Matrix<S, 5, 1>& p, const S& x) { return poly_eval_pv(p, x); }
inline S poly_eval(const Matrix<S, 5, 1>& p, int x) { return poly_eval_pv(p, S(x)); }
inline S poly_eval(const Matrix<S, 5, 1>& p, double x) { return poly_eval_pv(p, S(x)); }
}
#define MatrixXd Matrix<pv::Sym, -1, -1>
#define VectorXd Matrix<pv::Sym, -1, 1>
#define double pv::Sym
#include "control/lqr.hpp"
#undef double
#undef VectorXd
#undef MatrixXd
#else
#include "control/lqr.hpp"
#endif

struct Quiet { std::ios::iostate a, b; Quiet() : a(std::cout.rdstate()), b(std::cerr.rdstate()) { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); } ~Quiet() { std::cout.clear(a); std::cerr.clear(b); } };
template<class F> static auto quiet(F f) -> decltype(f()) { Quiet q; return f(); }

static MX rotation(int n, int k) {
    const S t(3.0); MX u = eye(n); if (k == 0) return u;
    if (n == 2) { u(0, 0) = S(3.0) / S(5.0); u(0, 1) = S(-4.0) / S(5.0); u(1, 0) = S(4.0) / S(5.0); u(1, 1) = S(3.0) / S(5.0); return u; }
    const int v[3][3] = {{2, -1, 2}, {2, 2, -1}, {-1, 2, 2}};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) u(i, j) = S(v[i][j]) / t;
    return u;
}
// quasi upper triangular; blocks: bit i set when rows i and i+1 form a coupled block
static MX quasi(const std::string& n, int m, int blocks) {
    MX T(m, m); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) T(i, j) = j >= i ? input(idx(n, i, j), 0.3, 2) : (j == i - 1 && (blocks >> j & 1)) ? input(idx(n, i, j), -2, -0.5) : S(0.0);
    for (int i = 0; i + 1 < m; ++i) if (blocks >> i & 1) { require(negate(eq(T(i + 1, i), S(0.0)))); }
    return T;
}
static void lyap(int m, int blocks, int rot) {
    Ctx c; ctx = &c; const MX T = quasi("T", m, blocks), U = rotation(m, rot), Q = mat("Q", m, m); c.known.push_back({T, U});
    const MX A = mulx(mulx(U, T), tr(U)); const MX X = quiet([&] { return lyapunov(A, Q); });
    ensure("size", X.rows() == m && X.cols() == m); if (X.rows() != m || X.cols() != m) return;
    ensure_eq("A X + X A' = Q", add(mulx(A, X), mulx(X, tr(A))), Q);
}
PV_CASE(lyapunov_1, "scalar") { division_checks(false); lyap(1, 0, 0); }
PV_CASE(lyapunov_2, "two states, real eigenvalues") { division_checks(false); lyap(2, 0, choose("rotation", 2)); }
PV_CASE(lyapunov_2c, "two states, coupled block") { division_checks(false); lyap(2, 1, choose("rotation", 2)); }
PV_CASE(lyapunov_3, "three states, real eigenvalues") { division_checks(false); lyap(3, 0, choose("rotation", 2)); }
PV_CASE(lyapunov_3c, "three states, leading or trailing coupled block") { division_checks(false); lyap(3, 1 + choose("block", 2), choose("rotation", 2)); }
PV_CASE(lyapunov_4c, "four states, every arrangement of coupled blocks") { division_checks(false); const int b[4] = {1, 2, 4, 5}; lyap(4, b[choose("blocks", 4)], 0); }

static void pseudo_inverse(int n) {
    Ctx c; ctx = &c; MX U = rotation(n, choose("rotation u", n == 1 ? 1 : 2)), V = rotation(n, choose("rotation v", n == 1 ? 1 : 2)); VX s(n), kept(n); const int zero = choose("rank defect", n + 1);
    const bool tiny = zero && choose("defect below the tolerance but not zero", 2) == 1;
    for (int i = 0; i < n; ++i) { const bool in = i < n - zero; s(i) = in ? input(idx("s", i), 1e-5, 3) : tiny ? input(idx("tiny", i), 1e-7, 1e-6) : S(0.0); kept(i) = in ? s(i) : S(0.0);
        if (in) require(lt(S(1e-6), s(i))); else if (tiny) { require(lt(S(0.0), s(i))); require(le(s(i), S(1e-6))); } if (i) require(le(s(i), s(i - 1))); }
    if (n == 1 && choose("negative", 2)) U(0, 0) = S(-1.0);
    c.su = U; c.sv = V; c.ss = s; c.svd_known = true;
    const MX M = mulx(mulx(U, MX(s.asDiagonal())), tr(V)), P = pinv(M), R = mulx(mulx(U, MX(kept.asDiagonal())), tr(V));      // singular values below the tolerance count as zero
    ensure("size", P.rows() == n && P.cols() == n); if (P.rows() != n || P.cols() != n) return;
    const MX MP = mulx(R, P), PM = mulx(P, R);
    ensure_eq("A A+ A = A", mulx(MP, R), R); ensure_eq("A+ A A+ = A+", mulx(PM, P), P); ensure_eq("A A+ symmetric", MP, tr(MP)); ensure_eq("A+ A symmetric", PM, tr(PM));
}
PV_CASE(pinv_1, "scalar") { division_checks(false); pseudo_inverse(1); }
PV_CASE(pinv_2, "two by two, every rank") { division_checks(false); pseudo_inverse(2); }
PV_CASE(pinv_3, "three by three, every rank") { division_checks(false); pseudo_inverse(3); }

PV_CASE(line_search, "the step minimises the residual of the Riccati equation along the Newton direction") {
    Ctx c; ctx = &c; const S a = input("a", 0, 3), b = input("b", -3, 3), g = input("c", 0.05, 3); require(lt(S(0.0), g)); require(le(S(0.0), a)); const S lo(1e-5), hi(2.0);
    const S t = line_search_care(a, b, g);
    // |(1-t) R - t^2 V|^2 / c with a = <R,R>, b = <R,V>, c = <V,V>
    auto f = [&](const S& x) { return (S(1.0) - x) * (S(1.0) - x) * (a / g) - S(2.0) * (S(1.0) - x) * x * x * (b / g) + x * x * x * x; };
    ensure("step within its interval", both(le(lo, t), le(t, hi))); const S ft = f(t);
    ensure("not above the lower end", le(ft, f(lo))); ensure("not above the upper end", le(ft, f(hi)));
    if (symbolic) {
#ifndef PV_DOUBLE
        const S d[4] = {S(-2.0) * a, S(2.0) * (a - S(2.0) * b), S(6.0) * b, S(4.0) * g};
        for (auto& p : c.polys) { ensure("leading coefficient", negate(eq(p[3], S(0.0)))); for (int i = 0; i < 4; ++i) ensure("critical points are those of the residual, coefficient " + std::to_string(i), eq(p[i] * d[3] / g, d[i] * p[3] / g));
            for (int k = 0; k < 3; ++k) { const S r = A::uf(idx("root_re", k), {}, p); ensure("not above critical point " + std::to_string(k), implies(both(le(lo, r), le(r, hi)), le(ft, f(r)))); } }
#endif
    } else { const S s = input("s", 1e-5, 2); ensure("minimum over the interval", le(ft, f(s))); }
}

static S scalar(const MX& m) { return m(0, 0); }
static MX one(const S& v) { MX m(1, 1); m(0, 0) = v; return m; }
// Newton iteration on A'X + X A - X B X + C with exact line search
PV_CASE(newton_scalar, "the iteration of a scalar equation") {
    division_checks(false); Ctx c; ctx = &c; c.n_roots = 0; const S a = input("a"), b = input("b", 0.2, 2), cc = input("c", 0.1, 3), x0 = input("x0", 0.5, 4); require(lt(S(0.0), b));
    MX m(1, 1), B1(1, 1), C1(1, 1), X0(1, 1); m(0, 0) = a; B1(0, 0) = b; C1(0, 0) = cc; X0(0, 0) = x0; require(lt(a - b * x0, S(-0.05)));
    S x = x0; int k = 0; bool more = true;
    const MX X = quiet([&] { return newton_ls_care(m, B1, C1, X0); });
    while (more && k < 2) {
        const S r = cc + S(2.0) * a * x - b * x * x, den = S(2.0) * (a - b * x); require(negate(eq(den, S(0.0)))); const S h = -r / den, v = h * b * h;
        x = x + line_search_care(r * r, r * v, v * v) * h; more = decide(lt(S(1e-5), one(r).norm())); ++k;
    }
    ensure("iterate", eq(S(X(0, 0)), x));
}
static S traced(const MX& a, const MX& b) { const MX p = mulx(a, b); S t(0.0); for (int i = 0; i < p.rows(); ++i) t = t + p(i, i); return t; }
PV_CASE(newton_2, "the first step of an equation with two states") {
    division_checks(false); Ctx c, model; c.n_roots = model.n_roots = 1; const MX T = quasi("T", 2, 0); MX Bs = mat("B", 2, 2), Cs = mat("C", 2, 2), Xs = mat("X0", 2, 2); Bs(1, 0) = Bs(0, 1); Cs(1, 0) = Cs(0, 1); Xs(1, 0) = Xs(0, 1);
    const MX A2 = add(tr(T), mulx(Bs, Xs));      // so that (A - B X0)' = T
    const MX R = add(add(Cs, add(mulx(Xs, A2), mulx(tr(A2), Xs))), mulx(mulx(Xs, Bs), Xs), S(-1.0));
#ifndef PV_DOUBLE
    ctx = &model; const MX H = lyapunov(T, MX(R * S(-1.0))), V = mulx(mulx(H, Bs), H); const S t = line_search_care(traced(R, R), traced(R, V), traced(V, V));
    const MX X1 = add(Xs, H, t);
    ctx = &c; c.known.push_back({T, eye(2)});
    c.on_schur = [&](int k) { if (k == 1) ensure_eq("closed loop of the first Newton equation", c.schur[0], T); else { ensure_eq("closed loop after the first step", c.schur[1], tr(add(A2, mulx(Bs, X1), S(-1.0)))); stop_path(); } };
    const MX X = quiet([&] { return newton_ls_care(A2, Bs, Cs, Xs); });
    ensure_eq("iterate after the first step", X, X1);
#else
    MX Y = Xs, r = R; double e = 1;
    for (int k = 0; k < 2 && e > 1e-5; ++k) {
        r = Cs + Y * A2 + A2.transpose() * Y - Y * Bs * Y; const MX h = lyapunov(MX((A2 - Bs * Y).transpose()), MX(-r)), v = h * Bs * h;
        Y = MX(Y + line_search_care((r * r).trace(), (r * v).trace(), (v * v).trace()) * h); e = r.norm();
    }
    ensure_eq("iterate after the first step", quiet([&] { return newton_ls_care(A2, Bs, Cs, Xs); }), Y);
#endif
}
PV_CASE(newton_fixpoint, "a solution of the Riccati equation is returned unchanged") {
    division_checks(false); Ctx c; ctx = &c; const S a = input("a"), b = input("b", 0.2, 2, {0.0}), x = input("x0", 0.5, 4); require(negate(eq(a - b * x, S(0.0))));
    MX m(1, 1), B1(1, 1), C1(1, 1), X0(1, 1); m(0, 0) = a; B1(0, 0) = b; X0(0, 0) = x; C1(0, 0) = b * x * x - S(2.0) * a * x;
    if (!symbolic) require(le(sabs(C1(0, 0) + S(2.0) * a * x - b * x * x), S(0.0)));
    ensure("same matrix", eq(S(quiet([&] { return newton_ls_care(m, B1, C1, X0); })(0, 0)), x));
}

// initial guess: a stabilising matrix, through (A + s I) W + W (A + s I)' = 2 B B' and X = B' W^-1, symmetrised when needed
static void initial_checks(Ctx& c, const MX& A2, const MX& B2, const MX& U, const MX& X) {
#ifndef PV_DOUBLE
    ensure("one inverse is taken", c.inverse.size() == 1); if (c.inverse.size() != 1) return;
    const MX Z = c.svd.back(), TD = mulx(tr(U), B2), X0 = mulx(mulx(tr(TD), c.inverse[0]), tr(U)), W = mulx(mulx(U, Z), tr(U)), Ac = add(A2, mulx(B2, X0), S(-1.0)), As = add(A2, eye(2, S(100.0)));
    ensure_eq("shifted Lyapunov equation", add(mulx(As, W), mulx(W, tr(As))), MX(mulx(B2, tr(B2)) * S(2.0)));      // W = W' by uniqueness
    ensure_eq("feedback of the shifted equation", mulx(X0, W), tr(B2));
    if (c.schur.size() < 3) { ensure_eq("symmetric guess", X, X0); ensure("symmetric within the tolerance", le((X0(0, 1) - X0(1, 0)) * (X0(0, 1) - X0(1, 0)), S(1e-24))); return; }
    ensure_eq("closed loop of the symmetrising equation", c.schur[2], tr(Ac)); const MX& T3 = c.schurT[2]; const MX& U3 = c.schurU[2]; const MX Y = mulx(mulx(tr(U3), X), U3), M = add(mulx(mulx(tr(X0), B2), X0), eye(2, S(0.5)));
    ensure_eq("symmetrising equation", add(mulx(T3, Y), mulx(Y, tr(T3))), MX(mulx(mulx(tr(U3), M), U3) * S(-1.0)));      // in the Schur basis
#else
    Eigen::EigenSolver<MX> es(MX(A2 - B2 * X)); ensure("closed loop is stable", es.eigenvalues().real().maxCoeff() < 0);
#endif
}
static void initial(int which) {
    division_checks(false); Ctx c; ctx = &c; const MX T = quasi("T", 2, 0), U = rotation(2, choose("rotation", 2)), A2 = mulx(mulx(U, T), tr(U)); MX B2(2, 2);
    if (which == 0) B2 << S(2.0), S(-1.0), S(-1.0), S(1.5); else B2 << S(1.0), S(2.0), S(2.0), S(5.0);
    c.known.push_back({T, U}); c.triangular = true;
    initial_checks(c, A2, B2, U, quiet([&] { return init_newton_care(A2, B2); }));
}
PV_CASE(init_2, "the initial guess stabilises two states") { initial(0); }
PV_CASE(init_2b, "the initial guess stabilises two states, another weight") { initial(1); }

PV_CASE(init_scalar, "the initial guess stabilises a scalar system") {
    division_checks(false); Ctx c; ctx = &c; const S a = input("a", -2, 2), b = input("b", 0.1, 2); require(lt(S(0.0), b)); require(lt(S(-50.0), a)); require(lt(a, S(50.0)));
    require(lt(S(0.001), b * b));       // controllable beyond the tolerance of the pseudo-inverse
    const S x = scalar(quiet([&] { return init_newton_care(one(a), one(b)); }));
    ensure("closed loop is stable", lt(a - b * x, S(0.0)));
}
PV_CASE(lqr_scalar, "gain of a scalar problem with a cross weight, with and without the check of the weights") {
    division_checks(false); Ctx c; ctx = &c; const S f = input("F"), g = input("G", 0.3, 2), qq = input("Q", 0.5, 3), r = input("R", 0.5, 2), m = input("M", -0.5, 0.5); require(lt(S(0.1), r)); require(le(S(0.0), qq - m * m / r));
    MX Sm = one(S(0.0)), K = one(S(0.0)); const bool check = choose("check", 2) == 1; quiet([&] { lqr(one(f), one(g), one(qq), one(r), one(m), Sm, K, check); return 0; });
    ensure("gain", eq(scalar(K) * r, g * scalar(Sm) + m));
    MX S2 = quiet([&] { return care(one(f - g * m / r), one(g * g / r), one(qq - m * m / r)); }); ensure("Riccati solution of the completed square", eq(scalar(Sm), scalar(S2)));
}
PV_CASE(lqr_rejected, "weights that fail the check leave a zero solution and gain") {
    division_checks(false); Ctx c; ctx = &c; const S f = input("F"), g = input("G", 0.3, 2), qq = input("Q", -3, -0.5), r = input("R", 0.5, 2), m = input("M", -0.5, 0.5), s0 = input("S0"), k0 = input("K0"); require(lt(S(0.1), r)); require(lt(qq - m * m / r, S(0.0)));
    MX Sm = one(s0), K = one(k0); quiet([&] { lqr(one(f), one(g), one(qq), one(r), one(m), Sm, K, true); return 0; });
    ensure("zero solution", eq(scalar(Sm), S(0.0))); ensure("zero gain", eq(scalar(K), S(0.0)));
}
PV_CASE(lqr_2, "two states, one input, cross weight") {
    division_checks(false); Ctx c; ctx = &c; const MX T = quasi("T", 2, 0), M = mat("M", 2, 1, -0.5, 0.5), Q = mat("Q", 2, 2); MX G(2, 1); G(0, 0) = S(1.0); G(1, 0) = choose("input", 2) ? S(2.0) : S(-1.0);
    const S r = input("R", 0.5, 2); require(lt(S(0.1), r)); const S ri = S(1.0) / r; c.known.push_back({T, eye(2)}); c.triangular = true;
    const MX F = add(T, mulx(G, tr(M)), ri); MX Sm = eye(2, S(0.0)), K(1, 2); K(0, 0) = K(0, 1) = S(0.0);
    quiet([&] { lqr(F, G, Q, one(r), M, Sm, K, false); return 0; });
    ensure_eq("gain", MX(K * r), add(mulx(tr(G), Sm), tr(M)));
    if (symbolic) initial_checks(c, T, MX(mulx(G, tr(G)) * ri), eye(2), Sm);      // numerically, one input is often below the tolerance of the pseudo-inverse
}
PV_CASE(care_scalar, "the Riccati solver returns the stabilising solution") {
    division_checks(false); Ctx c; ctx = &c; const S a = input("a", -2, 2), b = input("b", 0.1, 2), cc = input("c", 0.1, 3); require(lt(S(0.0), b)); require(lt(S(0.0), cc)); require(lt(S(-50.0), a)); require(lt(a, S(50.0))); require(lt(S(0.001), b * b));
    const S x = scalar(quiet([&] { return care(one(a), one(b), one(cc)); }));
    ensure("closed loop is stable", lt(a - b * x, S(0.0)));
    ensure("Riccati equation", eq(cc + S(2.0) * a * x, b * x * x));
}
