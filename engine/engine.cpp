// Symbolic engine: term construction, path exploration by fork(), SMT-LIB emission.
// No obligation is decided here: constants are folded exactly (rationals / the real cyclotomic field selected
// with field(N)), everything else is written to SMT-LIB and decided by the external solvers.  The in-process
// solver is only used to prune branches whose path condition is unsatisfiable.
#include "pv.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <z3++.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <deque>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <semaphore.h>

namespace pv {
using Q = boost::multiprecision::cpp_rational;
using Z = boost::multiprecision::cpp_int;
using F = boost::multiprecision::number<boost::multiprecision::cpp_bin_float<200>>;

double tol = 0;

// ------------------------------------------------------------------ exact constants: elements of Q(theta)
static int g_field = 0;                 // N, theta = 2 cos(pi/N)
static std::vector<Q> g_minpoly;        // monic, degree d
static F g_theta;
struct Num { std::vector<Q> c; };       // c[0] + c[1] theta + ...
static void trim(Num& n) { while (!n.c.empty() && n.c.back() == 0) n.c.pop_back(); }
static Num nq(const Q& q) { Num n; if (q != 0) n.c.push_back(q); return n; }
static bool zero(const Num& n) { return n.c.empty(); }
static bool rational(const Num& n) { return n.c.size() <= 1; }
static Q toq(const Num& n) { return n.c.empty() ? Q(0) : n.c[0]; }
static std::string key(const Num& n) { std::string s; for (auto& q : n.c) { s += q.str(); s += ','; } return s; }
static Num nadd(const Num& a, const Num& b) {
    Num r = a; if (r.c.size() < b.c.size()) r.c.resize(b.c.size());
    for (size_t i = 0; i < b.c.size(); ++i) r.c[i] += b.c[i];
    trim(r); return r;
}
static void reduce(std::vector<Q>& p) {
    const size_t d = g_minpoly.size() - 1;
    while (p.size() > d) {
        Q l = p.back(); size_t s = p.size() - 1 - d;
        if (l != 0) for (size_t i = 0; i <= d; ++i) p[s + i] -= l * g_minpoly[i];
        p.pop_back();
    }
}
static Num nmul(const Num& a, const Num& b) {
    if (zero(a) || zero(b)) return Num();
    Num r; r.c.assign(a.c.size() + b.c.size() - 1, Q(0));
    for (size_t i = 0; i < a.c.size(); ++i) for (size_t j = 0; j < b.c.size(); ++j) r.c[i + j] += a.c[i] * b.c[j];
    if (g_field && r.c.size() > 1) reduce(r.c);
    trim(r); return r;
}
static Num nneg(const Num& a) { Num r = a; for (auto& q : r.c) q = -q; return r; }
static Num ninv(const Num& a) {   // extended Euclid modulo the minimal polynomial
    if (rational(a)) return nq(Q(1) / toq(a));
    std::vector<Q> r0 = g_minpoly, r1 = a.c, s0, s1 = {Q(1)};
    auto tr = [](std::vector<Q>& p) { while (!p.empty() && p.back() == 0) p.pop_back(); };
    while (r1.size() > 1) {
        std::vector<Q> q(r0.size() >= r1.size() ? r0.size() - r1.size() + 1 : 0), r = r0;
        while (r.size() >= r1.size()) {
            Q f = r.back() / r1.back(); size_t s = r.size() - r1.size(); q[s] += f;
            for (size_t i = 0; i < r1.size(); ++i) r[s + i] -= f * r1[i];
            r.pop_back(); tr(r);
        }
        std::vector<Q> s2 = s0; s2.resize(std::max(s0.size(), q.size() + s1.size()));
        for (size_t i = 0; i < q.size(); ++i) for (size_t j = 0; j < s1.size(); ++j) s2[i + j] -= q[i] * s1[j];
        tr(s2); r0 = r1; r1 = r; s0 = s1; s1 = s2;
    }
    Num n; n.c = s1; for (auto& q : n.c) q /= r1[0];
    reduce(n.c); trim(n); return n;
}
static F nval(const Num& n) { F r = 0, p = 1; for (auto& q : n.c) { r += p * F(q); p *= g_theta; } return r; }
static int nsign(const Num& n) {
    if (zero(n)) return 0;
    if (rational(n)) return toq(n) < 0 ? -1 : 1;
    return nval(n) < 0 ? -1 : 1;
}
static void build_field(int N) {
    // minimal polynomial of 2cos(2 pi/n), n = 2N, from the cyclotomic polynomial
    int n = 2 * N;
    std::map<int, std::vector<Q>> cyc;
    for (int m = 1; m <= n; ++m) if (n % m == 0) {
        std::vector<Q> p(m + 1, Q(0)); p[0] = -1; p[m] = 1;
        for (auto& kv : cyc) if (m % kv.first == 0) {
            auto& d = kv.second; std::vector<Q> q(p.size() - d.size() + 1);
            for (int i = (int)q.size() - 1; i >= 0; --i) { q[i] = p[i + d.size() - 1] / d.back(); for (size_t j = 0; j < d.size(); ++j) p[i + j] -= q[i] * d[j]; }
            p = q;
        }
        cyc[m] = p;
    }
    std::vector<Q> c = cyc[n];
    if (N == 1) { g_minpoly = {Q(2), Q(1)}; }
    else {
        int d = ((int)c.size() - 1) / 2;
        std::vector<Q> res(d + 1, Q(0));
        // c[d] + sum_{k>=1} c[d+k] (x^k + x^-k);  V_k(y): V0=2,V1=y,V_{k+1}=y V_k - V_{k-1}
        std::vector<std::vector<Q>> V(d + 2); V[0] = {Q(2)}; V[1] = {Q(0), Q(1)};
        for (int k = 2; k <= d; ++k) { V[k].assign(k + 1, Q(0)); for (size_t i = 0; i < V[k-1].size(); ++i) V[k][i+1] += V[k-1][i]; for (size_t i = 0; i < V[k-2].size(); ++i) V[k][i] -= V[k-2][i]; }
        res[0] += c[d];
        for (int k = 1; k <= d; ++k) for (size_t i = 0; i < V[k].size(); ++i) res[i] += c[d + k] * V[k][i];
        g_minpoly = res;
    }
    g_theta = 2 * boost::multiprecision::cos(boost::math::constants::pi<F>() / N);
    g_field = N;
}

// ------------------------------------------------------------------ terms
enum Op { CONST, VAR, ADD, MUL, NEG, DIV, ITE, UF, FLOOR, SQRT, BTRUE, BFALSE, LT, LE, EQ, NOT, AND, OR, PSUM, MAXN };
struct Node { Op op; int a = -1, b = -1, c = -1; int str = -1; std::vector<int> args; int num = -1; };
static std::vector<Node> nodes;
static std::vector<Num> nums;
static std::vector<std::string> strs;
static std::unordered_map<std::string, int> strtab, table;
static std::deque<Sym> stab;
static int uninit_counter = 0;
static std::vector<std::pair<std::string, int>> input_vars;

static std::string polykey(int k);
static int istr(const std::string& s) { auto it = strtab.find(s); if (it != strtab.end()) return it->second; strs.push_back(s); return strtab[s] = (int)strs.size() - 1; }
static int intern(Node n) {
    std::string k = std::to_string(n.op) + ":" + std::to_string(n.a) + ":" + std::to_string(n.b) + ":" + std::to_string(n.c) + ":" + std::to_string(n.str);
    for (int x : n.args) k += "," + std::to_string(x);
    if (n.op == CONST) k = "#" + key(nums[n.num]);
    if (n.op == PSUM) k = polykey(n.num);
    auto it = table.find(k); if (it != table.end()) return it->second;
    nodes.push_back(n); return table[k] = (int)nodes.size() - 1;
}
static int konst(const Num& v) { nums.push_back(v); Node n; n.op = CONST; n.num = (int)nums.size() - 1; return intern(n); }
// ideal constants: a double that is the rounded image of p/q, (p/q) pi or (p/q)/pi with small p, q denotes that number
static bool g_ideal = false;
static bool small_fraction(double v, int qmax, double ulps, Q& r) {
    double t = std::fabs(v), x = t; long p0 = 0, q0 = 1, p1 = 1, q1 = 0;
    for (int k = 0; k < 24; ++k) {
        double a = std::floor(x); if (a > 1e9) return false;
        long p2 = static_cast<long>(a) * p1 + p0, q2 = static_cast<long>(a) * q1 + q0; if (q2 > qmax) return false;
        p0 = p1; q0 = q1; p1 = p2; q1 = q2;
        if (std::fabs(t - static_cast<double>(p1) / q1) <= ulps * 2.3e-16 * t) { r = Q(v < 0 ? -p1 : p1, q1); return true; }
        if (x == a) return false; x = 1 / (x - a);
    }
    return false;
}
static int ideal(double v, Q& r) {
    if (v == 0 || v == std::floor(v) || std::fabs(v) > 1e6 || std::fabs(v) < 1e-9) { r = Q(v); return 1; }
    if (small_fraction(v, 4000, 2, r)) return 1;
    if (small_fraction(v / M_PI, 400, 4, r)) return 2;
    if (small_fraction(v * M_PI, 400, 4, r)) return 3;
    r = Q(v); return 1;
}
static int nid(const Sym& s) {
    if (s.id >= 0) return s.id;
    if (s.id == -1) {
        if (!std::isfinite(s.c)) { fprintf(stderr, "non-finite constant\n"); return konst(nq(Q(s.c > 0 ? "1" : "-1") * Q(1e300))); }
        if (g_ideal) { Q r; int k = ideal(s.c, r); if (k == 1) return konst(nq(r)); Sym pi = uf("pi", {}), c = mk(konst(nq(r))); return (k == 2 ? c * pi : c / pi).id; }
        return konst(nq(Q(s.c)));
    }
    return var("uninit!" + std::to_string(uninit_counter++)).id;
}
static bool isc(int i) { return nodes[i].op == CONST; }
static const Num& num(int i) { return nums[nodes[i].num]; }
static int mkn(Op op, int a, int b = -1, int c = -1) { Node n; n.op = op; n.a = a; n.b = b; n.c = c; return intern(n); }
static int n_neg(int a) {
    if (isc(a)) return konst(nneg(num(a)));
    if (nodes[a].op == NEG) return nodes[a].a;
    return mkn(NEG, a);
}
static int n_add(int a, int b) {
    if (isc(a) && isc(b)) return konst(nadd(num(a), num(b)));
    if (isc(a) && zero(num(a))) return b;
    if (isc(b) && zero(num(b))) return a;
    if (nodes[b].op == NEG && nodes[b].a == a) return konst(Num());
    if (nodes[a].op == NEG && nodes[a].a == b) return konst(Num());
    if (a > b) std::swap(a, b);
    return mkn(ADD, a, b);
}
static int n_mul(int a, int b) {
    if (isc(b)) std::swap(a, b);
    if (isc(a)) {
        if (isc(b)) return konst(nmul(num(a), num(b)));
        if (zero(num(a))) return a;
        if (rational(num(a)) && toq(num(a)) == 1) return b;
        if (rational(num(a)) && toq(num(a)) == -1) return n_neg(b);
        if (nodes[b].op == NEG) return n_mul(konst(nneg(num(a))), nodes[b].a);
        if (nodes[b].op == MUL && isc(nodes[b].a)) return n_mul(konst(nmul(num(a), num(nodes[b].a))), nodes[b].b);
        return mkn(MUL, a, b);
    }
    if (nodes[a].op == NEG) return n_neg(n_mul(nodes[a].a, b));
    if (nodes[b].op == NEG) return n_neg(n_mul(a, nodes[b].a));
    if (a > b) std::swap(a, b);
    return mkn(MUL, a, b);
}
static int n_div(int a, int b) {
    if (isc(b)) {
        if (zero(num(b))) return mkn(DIV, a, b);
        return n_mul(konst(ninv(num(b))), a);
    }
    return mkn(DIV, a, b);
}
static int n_not(int a) {
    if (nodes[a].op == BTRUE) return mkn(BFALSE, -1);
    if (nodes[a].op == BFALSE) return mkn(BTRUE, -1);
    if (nodes[a].op == NOT) return nodes[a].a;
    return mkn(NOT, a);
}
static int n_true() { return mkn(BTRUE, -1); }
static int n_false() { return mkn(BFALSE, -1); }
static int n_cmp(Op op, int a, int b) {
    if (isc(a) && isc(b)) {
        int s = nsign(nadd(num(a), nneg(num(b))));
        bool r = op == LT ? s < 0 : op == LE ? s <= 0 : s == 0;
        return r ? n_true() : n_false();
    }
    if (a == b) return op == LT ? n_false() : n_true();
    if (op == EQ && a > b) std::swap(a, b);
    return mkn(op, a, b);
}
static int n_and(int a, int b) {
    if (nodes[a].op == BFALSE || nodes[b].op == BFALSE) return n_false();
    if (nodes[a].op == BTRUE) return b;
    if (nodes[b].op == BTRUE || a == b) return a;
    return mkn(AND, std::min(a, b), std::max(a, b));
}
static int n_or(int a, int b) {
    if (nodes[a].op == BTRUE || nodes[b].op == BTRUE) return n_true();
    if (nodes[a].op == BFALSE) return b;
    if (nodes[b].op == BFALSE || a == b) return a;
    return mkn(OR, std::min(a, b), std::max(a, b));
}
static int n_ite(int c, int a, int b) {
    if (nodes[c].op == BTRUE || a == b) return a;
    if (nodes[c].op == BFALSE) return b;
    return mkn(ITE, c, a, b);
}

Sym operator+(const Sym& a, const Sym& b) { return mk(n_add(nid(a), nid(b))); }
Sym operator-(const Sym& a, const Sym& b) { return mk(n_add(nid(a), n_neg(nid(b)))); }
Sym operator*(const Sym& a, const Sym& b) { return mk(n_mul(nid(a), nid(b))); }
static void check_denominator(int b);
static void check_sqrt(int a);
Sym operator/(const Sym& a, const Sym& b) { int x = nid(a), y = nid(b); check_denominator(y); return mk(n_div(x, y)); }
Sym operator-(const Sym& a) { return mk(n_neg(nid(a))); }
Sym& Sym::operator+=(const Sym& o) { *this = *this + o; return *this; }
Sym& Sym::operator-=(const Sym& o) { *this = *this - o; return *this; }
Sym& Sym::operator*=(const Sym& o) { *this = *this * o; return *this; }
Sym& Sym::operator/=(const Sym& o) { *this = *this / o; return *this; }
SymBool operator<(const Sym& a, const Sym& b) { return SymBool(n_cmp(LT, nid(a), nid(b))); }
SymBool operator<=(const Sym& a, const Sym& b) { return SymBool(n_cmp(LE, nid(a), nid(b))); }
SymBool operator>(const Sym& a, const Sym& b) { return b < a; }
SymBool operator>=(const Sym& a, const Sym& b) { return b <= a; }
SymBool operator==(const Sym& a, const Sym& b) { return SymBool(n_cmp(EQ, nid(a), nid(b))); }
SymBool operator!=(const Sym& a, const Sym& b) { return !(a == b); }
SymBool sym_and(const SymBool& a, const SymBool& b) { return SymBool(n_and(a.id, b.id)); }
SymBool sym_or(const SymBool& a, const SymBool& b) { return SymBool(n_or(a.id, b.id)); }
SymBool operator!(const SymBool& a) { return SymBool(n_not(a.id)); }
SymBool::SymBool(bool b) : id(b ? n_true() : n_false()) {}
Sym ite(const SymBool& c, const Sym& a, const Sym& b) { return mk(n_ite(c.id, nid(a), nid(b))); }
Sym abs(const Sym& a) { return ite(a < Sym(0.0), -a, a); }
Sym sym_max(const Sym& a, const Sym& b) { return ite(a < b, b, a); }
Sym sym_min(const Sym& a, const Sym& b) { return ite(b < a, b, a); }
Sym sqrt(const Sym& a) {
    int i = nid(a);
    if (isc(i) && rational(num(i))) {
        Q q = toq(num(i)); Z n = boost::multiprecision::numerator(q), d = boost::multiprecision::denominator(q);
        if (q >= 0) { Z sn = boost::multiprecision::sqrt(n), sd = boost::multiprecision::sqrt(d); if (sn * sn == n && sd * sd == d) return mk(konst(nq(Q(sn, sd)))); }
    }
    check_sqrt(i);
    return mk(mkn(SQRT, i));
}
Sym sym_floor(const Sym& a) {
    int i = nid(a);
    if (isc(i) && rational(num(i))) {
        Q q = toq(num(i)); Z n = boost::multiprecision::numerator(q), d = boost::multiprecision::denominator(q);
        Z f = n / d; if (f * d > n) f -= 1;
        return mk(konst(nq(Q(f))));
    }
    return mk(mkn(FLOOR, i));
}
Sym ceil(const Sym& a) { return -sym_floor(-a); }
Sym round(const Sym& a) { return ite(a < Sym(0.0), -sym_floor(-a + Sym(0.5)), sym_floor(a + Sym(0.5))); }
Sym pow(const Sym& a, const Sym& b) {
    int i = nid(b);
    if (isc(i) && rational(num(i)) && boost::multiprecision::denominator(toq(num(i))) == 1) {
        long k = static_cast<long>(boost::multiprecision::numerator(toq(num(i))));
        if (k >= 0 && k <= 64) { Sym r(1.0); for (long j = 0; j < k; ++j) r = r * a; return r; }
        if (k < 0 && k >= -64) { Sym r(1.0); for (long j = 0; j < -k; ++j) r = r * a; return Sym(1.0) / r; }
    }
    return uf("pow", {a, b});
}
Sym uf(const std::string& name, const std::vector<Sym>& args) {
    Node n; n.op = UF; n.str = istr(name); for (auto& s : args) n.args.push_back(nid(s));
    return mk(intern(n));
}
Sym cospi(int k, int N) {
    if (g_field % N != 0) { fprintf(stderr, "cospi outside the field\n"); std::abort(); }
    int m = g_field / N * k; m = std::abs(m) % (2 * g_field);
    Num y; y.c = {Q(0), Q(1)}; if (g_minpoly.size() == 2) y = nq(-g_minpoly[0]);
    Num v0 = nq(2), v1 = y;
    if (m == 0) v1 = v0; else for (int i = 1; i < m; ++i) { Num t = nadd(nmul(y, v1), nneg(v0)); v0 = v1; v1 = t; }
    return mk(konst(nmul(nq(Q(1, 2)), v1)));
}
void field(int N) { if (N > 0) build_field(N); }
void ideal_constants() {
    g_ideal = true; note("double constants that are roundings of p/q, (p/q) pi or (p/q)/pi denote those numbers exactly; cos(k pi/N) is the algebraic number; cos(n acos x) is the Chebyshev polynomial T_n(x)");
    Sym pi = uf("pi", {}); sym_require(Sym(3.1415926) < pi); sym_require(pi < Sym(3.1415927));
}
/** node = r * atom (r rational constant, atom a term) */
static int coefficient(int i, Q& r) {
    Node n = nodes[i];
    if (n.op == CONST) return -1;
    int x;
    if (n.op == NEG && (x = coefficient(n.a, r)) >= 0) { r = -r; return x; }
    if (n.op == MUL && isc(n.a) && rational(num(n.a)) && (x = coefficient(n.b, r)) >= 0) { r *= toq(num(n.a)); return x; }
    if (n.op == MUL && isc(n.b) && rational(num(n.b)) && (x = coefficient(n.a, r)) >= 0) { r *= toq(num(n.b)); return x; }
    if (n.op == DIV && isc(n.b) && rational(num(n.b)) && (x = coefficient(n.a, r)) >= 0) { r /= toq(num(n.b)); return x; }
    r = 1; return i;
}
static bool is_fn(int i, const char* f) { return i >= 0 && nodes[i].op == UF && strs[nodes[i].str] == f; }
static bool pi_multiple(int i, int& k) {   // k * pi / g_field
    Q r; if (!g_field) return false;
    if (isc(i) && !g_ideal) {
        double v = static_cast<double>(nval(num(i))), q = v * g_field / M_PI, kk = std::round(q);
        if (std::fabs(q - kk) > 1e-11 * (1 + std::fabs(q)) || std::fabs(kk) > 1e6) return false;
        k = static_cast<int>(kk); return true;
    }
    if (!is_fn(coefficient(i, r), "pi")) return false;
    r *= g_field; if (boost::multiprecision::denominator(r) != 1) return false;
    k = static_cast<int>(static_cast<long>(boost::multiprecision::numerator(r))); return true;
}
Sym unary(const char* f, const Sym& a) {
    int i = nid(a), k; std::string s = f; Q r;
    if (isc(i) && zero(num(i))) {
        if (s == "cos" || s == "cosh" || s == "exp") return Sym(1.0);
        if (s == "sin" || s == "sinh" || s == "tan" || s == "tanh" || s == "atan" || s == "asin") return Sym(0.0);
    }
    if (s == "cos" && pi_multiple(i, k)) return cospi(k, g_field);
    if (s == "sin" && g_field % 2 == 0 && pi_multiple(i, k)) return cospi(k - g_field / 2, g_field);
    if (g_ideal && s == "acos" && isc(i)) for (int j = 0; j <= g_field; ++j) if (key(num(nid(cospi(j, g_field)))) == key(num(i))) return mk(konst(nq(Q(j, g_field)))) * uf("pi", {});
    if (g_ideal && s == "cos") {
        int x = coefficient(i, r);
        if (is_fn(x, "acos") && boost::multiprecision::denominator(r) == 1) {
            long n = std::labs(static_cast<long>(boost::multiprecision::numerator(r))); Sym t = mk(nodes[x].args[0]), t0(1.0), t1 = t;
            if (n == 0) return t0;
            for (long j = 1; j < n; ++j) { Sym t2 = Sym(2.0) * t * t1 - t0; t0 = t1; t1 = t2; }
            return t1;
        }
    }
    return uf(s, {a});
}
Sym atan2(const Sym& a, const Sym& b) { return uf("atan2", {a, b}); }
Sym var(const std::string& name) {
    Node n; n.op = VAR; n.str = istr(name); size_t before = nodes.size(); int id = intern(n);
    if (nodes.size() != before) input_vars.push_back({name, id});
    return mk(id);
}
const Sym& stable(const Sym& a) { stab.push_back(a); return stab.back(); }
bool same(const Sym& a, const Sym& b) { return nid(a) == nid(b); }
bool is_const(const Sym& a) { return isc(nid(a)); }
double approx(const Sym& a) { int i = nid(a); return isc(i) ? static_cast<double>(nval(num(i))) : std::nan(""); }
static bool mentions(int i, std::map<int, bool>& memo) {
    auto it = memo.find(i); if (it != memo.end()) return it->second;
    bool r = nodes[i].op == VAR && strs[nodes[i].str].compare(0, 7, "uninit!") == 0;
    for (int x : {nodes[i].a, nodes[i].b, nodes[i].c}) if (x >= 0 && !r) r = mentions(x, memo);
    for (int x : nodes[i].args) if (!r) r = mentions(x, memo);
    return memo[i] = r;
}
bool mentions_uninit(const Sym& a) { std::map<int, bool> m; return mentions(nid(a), m); }

static int ndiff(int t, int v, std::unordered_map<int, int>& memo) {
    if (t == v) return konst(nq(1));
    auto it = memo.find(t); if (it != memo.end()) return it->second;
    Node n = nodes[t]; int r = konst(Num());
    auto D = [&](int x) { return ndiff(x, v, memo); };
    switch (n.op) {
    case CONST: case VAR: break;
    case ADD: r = n_add(D(n.a), D(n.b)); break;
    case NEG: r = n_neg(D(n.a)); break;
    case MUL: r = n_add(n_mul(D(n.a), n.b), n_mul(n.a, D(n.b))); break;
    case DIV: { int da = D(n.a), db = D(n.b); r = n_add(n_div(da, n.b), n_neg(n_div(n_mul(n.a, db), n_mul(n.b, n.b)))); break; }
    case ITE: r = n_ite(n.a, D(n.b), D(n.c)); break;
    case SQRT: r = n_div(D(n.a), n_mul(konst(nq(2)), t)); break;
    case FLOOR: break;
    case UF: {
        std::string f = strs[n.str];
        for (size_t k = 0; k < n.args.size(); ++k) {
            int da = D(n.args[k]); if (isc(da) && zero(num(da))) continue;
            Sym x = mk(n.args[k]), d; bool known = true;
            if (f == "sin") d = cos(x);
            else if (f == "cos") d = -sin(x);
            else if (f == "exp") d = exp(x);
            else if (f == "log") d = Sym(1.0) / x;
            else if (f == "tan") d = Sym(1.0) / (cos(x) * cos(x));
            else if (f == "sinh") d = cosh(x);
            else if (f == "cosh") d = sinh(x);
            else if (f == "tanh") d = Sym(1.0) / (cosh(x) * cosh(x));
            else if (f == "asin") d = Sym(1.0) / sqrt(Sym(1.0) - x * x);
            else if (f == "acos") d = Sym(-1.0) / sqrt(Sym(1.0) - x * x);
            else if (f == "atan") d = Sym(1.0) / (Sym(1.0) + x * x);
            else if (f == "atan2") { Sym a = mk(n.args[0]), b = mk(n.args[1]), h = a * a + b * b; d = (k == 0 ? b : -a) / h; }
            else if (f == "pow") {
                Sym a = mk(n.args[0]), b = mk(n.args[1]);
                d = k == 0 ? b * pow(a, b - Sym(1.0)) : pow(a, b) * log(a);
            }
            else known = false;
            int g;
            if (known) g = nid(d);
            else {
                size_t dot = f.find('.'); std::string base = f.substr(0, dot); std::vector<int> mi;
                if (dot != std::string::npos) { std::stringstream ss(f.substr(dot + 1)); std::string tk; while (std::getline(ss, tk, '.')) mi.push_back(std::stoi(tk)); }
                mi.push_back((int)k); std::sort(mi.begin(), mi.end());
                for (int q : mi) base += "." + std::to_string(q);
                Node m; m.op = UF; m.str = istr(base); m.args = n.args; g = intern(m);
            }
            r = n_add(r, n_mul(g, da));
        }
        break; }
    default: break;
    }
    return memo[t] = r;
}
Sym diff(const Sym& t, const Sym& v) { std::unordered_map<int, int> m; return mk(ndiff(nid(t), nid(v), m)); }

// ------------------------------------------------------------------ ring normal form
// Terms are rewritten to polynomials (exact coefficients) over atoms: variables, uninterpreted applications, conditional
// terms, square roots and inverses.  Comparisons become p < 0 or p = 0 with normalised p.
using Mono = std::vector<std::pair<int, int>>;          // (atom node, exponent), sorted; exponents may be negative
using Poly = std::map<Mono, Num>;
static std::vector<Poly> polys;
static size_t poly_cap = 4000;
struct TooBig {};
static std::string polykey(int k) {
    std::string s = "P";
    for (auto& t : polys[k]) { for (auto& f : t.first) s += std::to_string(f.first) + "^" + std::to_string(f.second) + "*"; s += key(t.second) + ";"; }
    return s;
}
static int p2n(const Poly& p) {
    if (p.empty()) return konst(Num());
    if (p.size() == 1) {
        auto& t = *p.begin();
        if (t.first.empty()) return konst(t.second);
        if (t.first.size() == 1 && t.first[0].second == 1 && rational(t.second) && toq(t.second) == 1) return t.first[0].first;
    }
    polys.push_back(p); Node n; n.op = PSUM; n.num = (int)polys.size() - 1;
    size_t before = nodes.size(); int r = intern(n); if (nodes.size() == before) polys.pop_back();
    return r;
}
static Poly n2p(int i) {
    if (nodes[i].op == CONST) { Poly p; if (!zero(num(i))) p[Mono()] = num(i); return p; }
    if (nodes[i].op == PSUM) return polys[nodes[i].num];
    Poly p; p[Mono{{i, 1}}] = nq(1); return p;
}
static void padd1(Poly& p, const Mono& m, const Num& c) {
    if (zero(c)) return;
    auto it = p.find(m); if (it == p.end()) { p[m] = c; if (p.size() > poly_cap) throw TooBig(); return; }
    it->second = nadd(it->second, c); if (zero(it->second)) p.erase(it);
}
static void paddto(Poly& p, const Poly& q, const Num& c) { for (auto& t : q) padd1(p, t.first, nmul(t.second, c)); }
static Mono mmul(const Mono& a, const Mono& b) {
    Mono r; size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
        else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
        else { int e = a[i].second + b[j].second; if (e) r.push_back({a[i].first, e}); ++i; ++j; }
    }
    return r;
}
static Mono minv(const Mono& a) { Mono r = a; for (auto& f : r) f.second = -f.second; return r; }
static int mdeg(const Mono& m) { int d = 0; for (auto& f : m) d += f.second; return d; }
static Mono leadm(const Poly& p) { const Mono* b = nullptr; for (auto& t : p) if (!b || mdeg(t.first) > mdeg(*b) || (mdeg(t.first) == mdeg(*b) && *b < t.first)) b = &t.first; return *b; }
static bool is_uf(int i, const char* f) { return nodes[i].op == UF && nodes[i].args.size() == 1 && strs[nodes[i].str] == f; }
static int canon(int i);
static Poly pmul(const Poly& a, const Poly& b);
static Poly pinv(const Poly& p);
static Poly ppow(const Poly& p, int e) { Poly r; r[Mono()] = nq(1); Poly b = e < 0 ? pinv(p) : p; for (int k = 0; k < std::abs(e); ++k) r = pmul(r, b); return r; }
static int steps_left = 0;
static Mono without(const Mono& m, int atom) { Mono r; for (auto& f : m) if (f.first != atom) r.push_back(f); return r; }
static Poly single(const Mono& m, const Num& c) { Poly p; p[m] = c; return p; }
static int uf1(const char* f, int a) { Node n; n.op = UF; n.str = istr(f); n.args = {a}; return intern(n); }
static Poly mreduce(const Mono& m, const Num& c) {
    for (auto& f : m) {
        const int at = f.first, e = f.second; const Node n = nodes[at];
        if (n.op == SQRT && (e > 1 || e < 0)) {
            int q = e >= 0 ? e / 2 : -((-e + 1) / 2), r = e - 2 * q;
            Mono rest = without(m, at); Poly p = ppow(n2p(n.a), q);
            if (r) p = pmul(p, single(Mono{{at, 1}}, nq(1)));
            return pmul(p, mreduce(rest, c));
        }
        if (n.op == UF && e > 1 && n.args.size() == 1 && (is_uf(at, "sin") || is_uf(at, "sinh"))) {
            bool hyp = is_uf(at, "sinh"); int co = canon(uf1(hyp ? "cosh" : "cos", n.args[0]));
            Poly p; p[Mono()] = nq(hyp ? -1 : 1); p[Mono{{co, 2}}] = nq(hyp ? 1 : -1);
            Mono rest = without(m, at); if (e > 2) rest = mmul(rest, Mono{{at, e - 2}});
            return pmul(p, mreduce(rest, c));
        }
        if (n.op == DIV && e < 0) { Mono rest = without(m, at); return pmul(ppow(n2p(n.b), -e), mreduce(rest, c)); }
        if (n.op == DIV && e > 0 && steps_left > 0) {
            const Poly p = n2p(n.b); if (p.empty()) continue;   // division by zero is reported by its own obligation
            Mono lm = leadm(p); bool div = true;
            for (auto& g : lm) { int have = 0; for (auto& h : m) if (h.first == g.first) have = h.second; if (have < g.second) div = false; }
            if (div) {
                --steps_left;
                Mono rest = mmul(mmul(m, minv(lm)), Mono{{at, -1}}); Num lc = p.at(lm);
                // I*lm = (1 - (p - lc lm) I) / lc
                Poly q; q[Mono()] = nq(1); for (auto& t : p) if (t.first != lm) paddto(q, mreduce(mmul(t.first, Mono{{at, 1}}), nq(-1)), t.second);
                Poly out; Num k = nmul(c, ninv(lc));
                for (auto& t : q) paddto(out, mreduce(mmul(rest, t.first), nmul(t.second, k)), nq(1));
                return out;
            }
        }
    }
    return single(m, c);
}
static Poly pmul(const Poly& a, const Poly& b) {
    if (a.size() * b.size() > 4 * poly_cap) throw TooBig();
    Poly r;
    for (auto& x : a) for (auto& y : b) {
        Mono m = mmul(x.first, y.first); Num c = nmul(x.second, y.second);
        bool special = false; for (auto& f : m) { Op o = nodes[f.first].op; if (o == SQRT || o == DIV || (o == UF && f.second > 1)) special = true; }
        if (!special) padd1(r, m, c); else paddto(r, mreduce(m, c), nq(1));
    }
    return r;
}
static Poly pinv(const Poly& p) {
    if (p.empty()) return single(Mono{{mkn(DIV, konst(nq(1)), konst(Num())), 1}}, nq(1));
    if (p.size() == 1) return mreduce(minv(p.begin()->first), ninv(p.begin()->second));
    // split off the monomial content and the leading coefficient
    std::map<int, int> mn; bool first = true;
    for (auto& t : p) {
        std::map<int, int> e; for (auto& f : t.first) e[f.first] = f.second;
        if (first) { mn = e; first = false; continue; }
        for (auto& x : mn) { auto it = e.find(x.first); x.second = std::min(x.second, it == e.end() ? 0 : it->second); }
        for (auto& x : e) if (!mn.count(x.first)) mn[x.first] = std::min(0, x.second);
    }
    Mono g; for (auto& x : mn) if (x.second) g.push_back(x);
    Num lc = p.begin()->second, il = ninv(lc); Poly q;
    for (auto& t : p) q[mmul(t.first, minv(g))] = nmul(t.second, il);
    int I = mkn(DIV, konst(nq(1)), p2n(q));
    return mreduce(mmul(minv(g), Mono{{I, 1}}), il);
}
static std::vector<int> cmemo;
// truth values of canonical comparisons that the path has established (used when a path is written out): conditional
// terms and maxima they decide are resolved
static std::map<int, bool> known; static bool use_known = false; static std::set<int> relevant;
static int truth(int c) {
    if (!use_known) return -1;
    if (nodes[c].op == NOT) { int r = truth(nodes[c].a); return r < 0 ? r : !r; }
    auto it = known.find(c); return it == known.end() ? -1 : it->second;
}
static int cmp0(Op op, Poly p) {
    if (p.empty()) return op == LT ? n_false() : n_true();
    if (p.size() == 1 && p.begin()->first.empty()) { int s = nsign(p.begin()->second); return (op == LT ? s < 0 : s == 0) ? n_true() : n_false(); }
    if (op == EQ) {   // clear denominators (all denominators are nonzero by their own obligations)
        try {
            for (int guard = 0; guard < 40; ++guard) {
                int best = -1, k = 0;
                for (auto& t : p) for (auto& f : t.first) {
                    if (nodes[f.first].op == DIV && f.second > 0 && f.first >= best) { if (f.first > best) k = 0; best = f.first; k = std::max(k, f.second); }
                }
                if (best >= 0) {
                    const Poly d = n2p(nodes[best].b); Poly r;
                    for (auto& t : p) {
                        int e = 0; for (auto& f : t.first) if (f.first == best) e = f.second;
                        Poly q = single(without(t.first, best), t.second); for (int j = e; j < k; ++j) q = pmul(q, d);
                        paddto(r, q, nq(1));
                    }
                    p = r; if (p.empty()) return n_true(); continue;
                }
                std::map<int, int> mn; for (auto& t : p) for (auto& f : t.first) if (f.second < 0) mn[f.first] = std::min(mn[f.first], f.second);
                if (mn.empty()) break;
                Mono g; for (auto& x : mn) g.push_back({x.first, -x.second});
                p = pmul(p, single(g, nq(1))); if (p.empty()) return n_true();
            }
        } catch (TooBig&) {}
        if (p.size() == 1 && p.begin()->first.empty()) return n_false();
    }
    Num lc = nq(0); for (auto& t : p) if (!t.first.empty()) { lc = t.second; break; }
    if (op == LT && nsign(lc) < 0) lc = nneg(lc);
    Num il = ninv(lc); Poly q; for (auto& t : p) q[t.first] = nmul(t.second, il);
    return mkn(op, p2n(q), konst(Num()));
}
static Poly cpoly(int i);
// (a < b ? b : a) and (a < b ? a : b), whatever their spelling, become the maximum of a set: max{..} or -max{-..}
static int maxset(std::set<int> xs) {
    std::set<int> r; int best = -1;
    std::vector<int> st(xs.begin(), xs.end());
    while (!st.empty()) {
        int x = st.back(); st.pop_back();
        if (nodes[x].op == MAXN) { st.insert(st.end(), nodes[x].args.begin(), nodes[x].args.end()); continue; }
        if (isc(x)) { if (best < 0 || nsign(nadd(num(x), nneg(num(best)))) > 0) best = x; continue; }
        r.insert(x);
    }
    if (best >= 0) r.insert(best);
    if (use_known && r.size() > 1 && r.size() <= 8) {
        std::vector<int> xs2(r.begin(), r.end());
        for (int x : xs2) for (int y : xs2) if (x != y && r.count(x) && r.count(y)) {     // x is not the maximum if x <= y
            Poly d = n2p(x); paddto(d, n2p(y), nq(-1)); int lt = cmp0(LT, d); relevant.insert(lt);
            Poly e = n2p(y); paddto(e, n2p(x), nq(-1)); int gt = cmp0(LT, e); relevant.insert(gt);
            if (truth(lt) == 1 || truth(gt) == 0) r.erase(x);
        }
    }
    if (r.size() == 1) return *r.begin();
    Node n; n.op = MAXN; n.args.assign(r.begin(), r.end()); return intern(n);
}
static int as_max(int c, int a, int b) {      // c is the canonical comparison q < 0
    const Poly q = n2p(nodes[c].a); Poly d = n2p(a); paddto(d, n2p(b), nq(-1));
    if (q.size() != d.size()) return -1;
    Num k = nmul(d.begin()->second, ninv(q.begin()->second));
    auto id = d.cbegin(); for (auto iq = q.cbegin(); iq != q.end(); ++iq, ++id) if (iq->first != id->first || !zero(nadd(id->second, nneg(nmul(k, iq->second))))) return -1;
    if (nsign(k) < 0) return maxset({a, b});
    Poly na, nb; paddto(na, n2p(a), nq(-1)); paddto(nb, n2p(b), nq(-1));
    Poly r; paddto(r, n2p(maxset({p2n(na), p2n(nb)})), nq(-1)); return p2n(r);
}
static int canon0(int i) {
    const Node n = nodes[i];
    switch (n.op) {
    case CONST: case VAR: case BTRUE: case BFALSE: case PSUM: case MAXN: return i;
    case ADD: case NEG: case MUL: case DIV: return p2n(cpoly(i));
    case ITE: {
        int c = canon(n.a), a = canon(n.b), b = canon(n.c);
        if (use_known) { relevant.insert(nodes[c].op == NOT ? nodes[c].a : c); int v = truth(c); if (v >= 0) return v ? a : b; }
        if (nodes[c].op == NOT) { c = nodes[c].a; std::swap(a, b); }
        if (a != b && nodes[c].op == LT) { int r = as_max(c, a, b); if (r >= 0) return r; }
        return n_ite(c, a, b); }
    case UF: {
        Node m = n; for (int& x : m.args) x = canon(x);
        if (m.args.size() == 1) {
            const std::string& f = strs[m.str];
            if (f == "tan" || f == "tanh") {
                int s = canon(uf1(f == "tan" ? "sin" : "sinh", m.args[0])), c = canon(uf1(f == "tan" ? "cos" : "cosh", m.args[0]));
                steps_left = 2000; return p2n(pmul(n2p(s), pinv(n2p(c))));
            }
        }
        return intern(m); }
    case FLOOR: return mkn(FLOOR, canon(n.a));
    case SQRT: return mkn(SQRT, canon(n.a));
    case LT: { steps_left = 2000; Poly p = cpoly(n.a); paddto(p, cpoly(n.b), nq(-1)); return cmp0(LT, p); }
    case LE: { steps_left = 2000; Poly p = cpoly(n.b); paddto(p, cpoly(n.a), nq(-1)); return n_not(cmp0(LT, p)); }
    case EQ: { steps_left = 2000; Poly p = cpoly(n.a); paddto(p, cpoly(n.b), nq(-1)); return cmp0(EQ, p); }
    case NOT: return n_not(canon(n.a));
    case AND: return n_and(canon(n.a), canon(n.b));
    case OR: return n_or(canon(n.a), canon(n.b));
    }
    return i;
}
static int canon(int i) {
    if (i < (int)cmemo.size() && cmemo[i] >= 0) return cmemo[i];
    int r; try { r = canon0(i); } catch (TooBig&) { r = i; }
    if ((int)cmemo.size() < (int)nodes.size()) cmemo.resize(nodes.size() + 64, -1);
    cmemo[i] = r; cmemo[r] = r; return r;
}
static Poly cpoly(int i) {
    const Node n = nodes[i];
    if (i < (int)cmemo.size() && cmemo[i] >= 0) return n2p(cmemo[i]);
    if (n.op != ADD && n.op != NEG && n.op != MUL && n.op != DIV) return n2p(canon(i));
    Poly r;
    if (n.op == ADD || n.op == NEG) {     // flatten long sums without recursion on the spine
        std::vector<std::pair<int, int>> st{{i, 1}};
        while (!st.empty()) {
            auto t = st.back(); st.pop_back(); const Node m = nodes[t.first]; bool memo = t.first < (int)cmemo.size() && cmemo[t.first] >= 0;
            if (!memo && m.op == ADD) { st.push_back({m.a, t.second}); st.push_back({m.b, t.second}); }
            else if (!memo && m.op == NEG) st.push_back({m.a, -t.second});
            else paddto(r, cpoly(t.first), nq(t.second));
        }
    } else {
        const Poly a = cpoly(n.a), b = cpoly(n.b); steps_left = 2000;
        try { r = n.op == MUL ? pmul(a, b) : pmul(a, pinv(b)); }
        catch (TooBig&) { int x = p2n(a), y = p2n(b); if (n.op == MUL && y < x) std::swap(x, y); r = Poly(); r[Mono{{mkn(n.op, x, y), 1}}] = nq(1); }
    }
    if ((int)cmemo.size() < (int)nodes.size()) cmemo.resize(nodes.size() + 64, -1);
    int k = p2n(r); if ((int)cmemo.size() < (int)nodes.size()) cmemo.resize(nodes.size() + 64, -1);
    cmemo[i] = k; cmemo[k] = k;
    return r;
}

// ------------------------------------------------------------------ SMT-LIB text
static std::string smtq(const Q& q) {
    Z n = boost::multiprecision::numerator(q), d = boost::multiprecision::denominator(q);
    std::string s = (n < 0 ? Z(-n) : n).str() + ".0";
    if (d != 1) s = "(/ " + s + " " + d.str() + ".0)";
    return n < 0 ? "(- " + s + ")" : s;
}
static std::string sanitize(const std::string& s) { return "|" + s + "|"; }
static std::string smtnum(const Num& n) {
    if (rational(n)) return smtq(toq(n));
    std::string s = "(+";
    for (size_t i = 0; i < n.c.size(); ++i) if (n.c[i] != 0) {
        std::string t = smtq(n.c[i]); for (size_t j = 0; j < i; ++j) t = "(* " + t + " theta)";
        s += " " + t;
    }
    return s + " 0.0)";
}
struct Emit {
    std::ostream& o; std::unordered_map<int, std::string> name; std::set<std::string> decl;
    explicit Emit(std::ostream& os) : o(os) {}
    std::string ref(int i) {
        auto it = name.find(i); if (it != name.end()) return it->second;
        Node n = nodes[i]; std::string s;
        switch (n.op) {
        case CONST: return name[i] = smtnum(nums[n.num]);
        case BTRUE: return "true"; case BFALSE: return "false";
        case VAR: s = sanitize(strs[n.str]); o << "(declare-const " << s << " Real)\n"; return name[i] = s;
        default: break;
        }
        std::string a = n.a >= 0 ? ref(n.a) : "", b = n.b >= 0 ? ref(n.b) : "", c = n.c >= 0 ? ref(n.c) : "", e;
        std::string nm = "t" + std::to_string(i); const char* sort = "Real";
        switch (n.op) {
        case ADD: e = "(+ " + a + " " + b + ")"; break;
        case MUL: e = "(* " + a + " " + b + ")"; break;
        case NEG: e = "(- " + a + ")"; break;
        case DIV: e = "(/ " + a + " " + b + ")"; break;
        case ITE: e = "(ite " + a + " " + b + " " + c + ")"; break;
        case FLOOR: e = "(to_real (to_int " + a + "))"; break;
        case SQRT:
            o << "(declare-const " << nm << " Real)\n(assert (=> (>= " << a << " 0.0) (and (>= " << nm << " 0.0) (= (* " << nm << " " << nm << ") " << a << "))))\n";
            return name[i] = nm;
        case UF: {
            std::string f = sanitize("uf:" + strs[n.str] + "/" + std::to_string(n.args.size()));
            std::vector<std::string> as; for (int x : n.args) as.push_back(ref(x));
            if (n.args.empty()) { if (decl.insert(f).second) o << "(declare-const " << f << " Real)\n"; return name[i] = f; }
            if (decl.insert(f).second) { o << "(declare-fun " << f << " ("; for (size_t k = 0; k < as.size(); ++k) o << " Real"; o << ") Real)\n"; }
            e = "(" + f; for (auto& x : as) e += " " + x; e += ")"; 
            std::string base = strs[n.str];
            o << "(define-fun " << nm << " () Real " << e << ")\n"; name[i] = nm;
            if (base == "exp" || base == "cosh") o << "(assert (> " << nm << " 0.0))\n";
            if (base == "sin" || base == "cos") o << "(assert (and (<= (- 1.0) " << nm << ") (<= " << nm << " 1.0)))\n";
            return nm; }
        case LT: e = "(< " + a + " " + b + ")"; sort = "Bool"; break;
        case LE: e = "(<= " + a + " " + b + ")"; sort = "Bool"; break;
        case EQ: e = "(= " + a + " " + b + ")"; sort = "Bool"; break;
        case NOT: e = "(not " + a + ")"; sort = "Bool"; break;
        case AND: e = "(and " + a + " " + b + ")"; sort = "Bool"; break;
        case OR: e = "(or " + a + " " + b + ")"; sort = "Bool"; break;
        default: std::abort();
        }
        o << "(define-fun " << nm << " () " << sort << " " << e << ")\n";
        return name[i] = nm;
    }
};
// canonical terms: LIN = every nonlinear monomial is an independent real constant; NL = monomials are defined
struct CEmit {
    std::ostream& o; bool nl; std::unordered_map<int, std::string> name; std::set<std::string> decl; std::map<Mono, std::string> monos;
    std::vector<int> lts, maxs, atoms_;
    CEmit(std::ostream& os, bool n) : o(os), nl(n) {}
    std::string power(const std::string& x, int e) {
        std::string p = x; for (int k = 1; k < std::abs(e); ++k) p = "(* " + p + " " + x + ")";
        return e < 0 ? "(/ 1.0 " + p + ")" : p;
    }
    std::string mono(const Mono& m) {
        if (m.size() == 1 && m[0].second == 1) return ref(m[0].first);
        auto it = monos.find(m); if (it != monos.end()) return it->second;
        std::vector<std::string> fs; for (auto& f : m) { std::string x = ref(f.first); fs.push_back(nl ? power(x, f.second) : x); }
        std::string nm = "m" + std::to_string(monos.size());
        if (!nl) o << "(declare-const " << nm << " Real)\n";
        else { std::string e = fs[0]; for (size_t k = 1; k < fs.size(); ++k) e = "(* " + e + " " + fs[k] + ")"; o << "(define-fun " << nm << " () Real " << e << ")\n"; }
        return monos[m] = nm;
    }
    std::string theta(int k) {
        if (k == 1) return "theta";
        std::string nm = "theta" + std::to_string(k);
        if (decl.insert(nm).second) { if (!nl) o << "(declare-const " << nm << " Real)\n"; else o << "(define-fun " << nm << " () Real " << power("theta", k) << ")\n"; }
        return nm;
    }
    std::string thmono(int k, const std::string& m) {   // theta^k * monomial
        if (nl) return "(* " + theta(k) + " " + m + ")";
        std::string nm = "th" + std::to_string(k) + "!" + m; if (nm.find('|') != std::string::npos) { std::string t; for (char ch : nm) if (ch != '|') t += ch; nm = "|" + t + "|"; }
        if (decl.insert(nm).second) o << "(declare-const " << nm << " Real)\n";
        return nm;
    }
    std::string psum(const Poly& p) {
        std::vector<std::string> ts;
        for (auto& t : p) {
            std::string m = t.first.empty() ? "" : mono(t.first);
            for (size_t k = 0; k < t.second.c.size(); ++k) {
                const Q& q = t.second.c[k]; if (q == 0) continue;
                std::string b = k == 0 ? m : m.empty() ? theta((int)k) : thmono((int)k, m);
                ts.push_back(b.empty() ? smtq(q) : q == 1 ? b : q == -1 ? "(- " + b + ")" : "(* " + smtq(q) + " " + b + ")");
            }
        }
        if (ts.size() == 1) return ts[0];
        std::string e = "(+"; for (auto& t : ts) e += " " + t; return e + ")";
    }
    std::string ref(int i) {
        auto it = name.find(i); if (it != name.end()) return it->second;
        const Node n = nodes[i]; std::string s, nm = "t" + std::to_string(i), e; const char* sort = "Real";
        switch (n.op) {
        case CONST: return name[i] = rational(nums[n.num]) ? smtq(toq(nums[n.num])) : psum(n2p(i));
        case BTRUE: return "true"; case BFALSE: return "false";
        case VAR: s = sanitize(strs[n.str]); o << "(declare-const " << s << " Real)\n"; return name[i] = s;
        case PSUM: e = psum(polys[n.num]); break;
        case DIV:
            if (isc(n.a) && !nl) { std::string d = ref(n.b); o << "(declare-const " << nm << " Real)\n(assert (=> (> " << d << " 0.0) (> " << nm << " 0.0)))\n(assert (=> (< " << d << " 0.0) (< " << nm << " 0.0)))\n"; return name[i] = nm; }
            // fall through
        case MUL: {
            std::string a = ref(n.a), b = ref(n.b);
            if (!nl) { o << "(declare-const " << nm << " Real)\n"; return name[i] = nm; }
            e = std::string(n.op == MUL ? "(* " : "(/ ") + a + " " + b + ")"; break; }
        case ADD: e = "(+ " + ref(n.a) + " " + ref(n.b) + ")"; break;
        case NEG: e = "(- " + ref(n.a) + ")"; break;
        case ITE: { std::string a = ref(n.a), b = ref(n.b), c = ref(n.c); e = "(ite " + a + " " + b + " " + c + ")"; break; }
        case FLOOR: e = "(to_real (to_int " + ref(n.a) + "))"; break;
        case MAXN: {
            std::vector<std::string> as; for (int x : n.args) as.push_back(ref(x));
            maxs.push_back(i);
            o << "(declare-const " << nm << " Real)\n(assert (and"; for (auto& x : as) o << " (>= " << nm << " " << x << ")"; o << "))\n(assert (or"; for (auto& x : as) o << " (= " << nm << " " << x << ")"; o << "))\n";
            return name[i] = nm; }
        case SQRT: {
            std::string a = ref(n.a); o << "(declare-const " << nm << " Real)\n(assert (=> (>= " << a << " 0.0) (>= " << nm << " 0.0)))\n(assert (=> (> " << a << " 0.0) (> " << nm << " 0.0)))\n(assert (=> (= " << a << " 0.0) (= " << nm << " 0.0)))\n";
            if (nl) o << "(assert (=> (>= " << a << " 0.0) (= (* " << nm << " " << nm << ") " << a << ")))\n";
            return name[i] = nm; }
        case UF: {
            std::string f = sanitize("uf:" + strs[n.str] + "/" + std::to_string(n.args.size()));
            std::vector<std::string> as; for (int x : n.args) as.push_back(ref(x));
            if (n.args.empty()) { if (decl.insert(f).second) o << "(declare-const " << f << " Real)\n"; return name[i] = f; }
            if (decl.insert(f).second) { o << "(declare-fun " << f << " ("; for (size_t k = 0; k < as.size(); ++k) o << " Real"; o << ") Real)\n"; }
            e = "(" + f; for (auto& x : as) e += " " + x; e += ")"; 
            std::string base = strs[n.str];
            o << "(define-fun " << nm << " () Real " << e << ")\n"; name[i] = nm;
            if (base == "exp" || base == "cosh") o << "(assert (> " << nm << " 0.0))\n";
            if (base == "sin" || base == "cos") o << "(assert (and (<= (- 1.0) " << nm << ") (<= " << nm << " 1.0)))\n";
            return nm; }
        case LT: { std::string a = ref(n.a), b = ref(n.b); e = "(< " + a + " " + b + ")"; sort = "Bool"; lts.push_back(i); break; }
        case LE: { std::string a = ref(n.a), b = ref(n.b); e = "(<= " + a + " " + b + ")"; sort = "Bool"; break; }
        case EQ: { std::string a = ref(n.a), b = ref(n.b); e = "(= " + a + " " + b + ")"; sort = "Bool"; break; }
        case NOT: e = "(not " + ref(n.a) + ")"; sort = "Bool"; break;
        case AND: { std::string a = ref(n.a), b = ref(n.b); e = "(and " + a + " " + b + ")"; sort = "Bool"; break; }
        case OR: { std::string a = ref(n.a), b = ref(n.b); e = "(or " + a + " " + b + ")"; sort = "Bool"; break; }
        }
        o << "(define-fun " << nm << " () " << sort << " " << e << ")\n";
        return name[i] = nm;
    }
    // facts of real arithmetic about the monomials: signs of products, products of an inequality with a signed factor
    void facts() {
        std::vector<Mono> todo; for (auto& kv : monos) todo.push_back(kv.first);
        std::map<Mono, std::string> known(monos); std::set<std::pair<int, int>> factors;
        for (auto& m : todo) for (auto& f : m) { factors.insert({f.first, f.second > 0 ? 1 : -1}); }
        std::set<Mono> done;
        std::function<void(const Mono&)> sgn = [&](const Mono& m) {
            if (m.empty() || !done.insert(m).second) return;
            if (m.size() == 1 && m[0].second == 1) return;
            std::string x = mono(m);
            if (m.size() == 1) {
                std::string a = ref(m[0].first); int e = m[0].second;
                if (e % 2 == 0) o << "(assert (and (>= " << x << " 0.0) (= (= " << x << " 0.0) (= " << a << " 0.0))))\n";
                else o << "(assert (and (= (> " << x << " 0.0) (> " << a << " 0.0)) (= (< " << x << " 0.0) (< " << a << " 0.0))))\n";
                return;
            }
            Mono h{m.back()}, t(m.begin(), m.end() - 1); sgn(h); sgn(t);
            std::string a = mono(h), b = mono(t);
            o << "(assert (and (= (> " << x << " 0.0) (or (and (> " << a << " 0.0) (> " << b << " 0.0)) (and (< " << a << " 0.0) (< " << b << " 0.0)))) (= (= " << x << " 0.0) (or (= " << a << " 0.0) (= " << b << " 0.0)))))\n";
        };
        for (auto& m : todo) sgn(m);
        // p: difference whose sign matters, named a; the same difference times a factor of known sign has a known sign
        std::set<Mono> pairs;       // products of two factors that occur within a term
        for (auto& m : todo) if (m.size() >= 2 && m.size() <= 4) for (size_t i = 0; i < m.size(); ++i) for (size_t j = i + 1; j < m.size(); ++j)
            if (m[i].second > 0 && m[j].second > 0 && (nodes[m[i].first].op == SQRT || nodes[m[j].first].op == SQRT) && pairs.size() < 40) pairs.insert(Mono{{m[i].first, 1}, {m[j].first, 1}});
        auto scale = [&](const Poly& p, const std::function<std::string()>& name_of, int& budget) {
            std::vector<Mono> by; for (auto& f : factors) by.push_back(Mono{{f.first, f.second}});
            for (auto& t : p) if (t.first.size() >= 2) { by.insert(by.end(), pairs.begin(), pairs.end()); break; }
            std::map<int, int> den; for (auto& t : p) for (auto& f : t.first) if (f.second < 0) den[f.first] = std::max(den[f.first], -f.second);
            if (den.size() > 1 || (den.size() == 1 && den.begin()->second > 1)) by.push_back(Mono(den.begin(), den.end()));   // clears the denominators
            for (auto& f : by) {
                if (budget <= 0) return;
                steps_left = 200; Poly q; try { q = pmul(p, single(f, nq(1))); } catch (TooBig&) { continue; }
                bool ok = true;
                for (auto& t : q) { if (t.first.empty() || (t.first.size() == 1 && t.first[0].second == 1)) { if (t.first.size() == 1 && !name.count(t.first[0].first)) ok = false; continue; } if (!known.count(t.first)) ok = false; }
                if (!ok || q.empty() || p.size() < 2) continue;
                --budget; if (f.size() > 1) sgn(f);
                std::string r = mono(f), a = name_of(), b = psum(q);
                o << "(assert (=> (> " << r << " 0.0) (and (= (< " << a << " 0.0) (< " << b << " 0.0)) (= (> " << a << " 0.0) (> " << b << " 0.0)))))\n";
            }
        };
        std::vector<int> ls = lts, ms = maxs; int budget = 1500; std::set<int> seen;
        for (int l : ls) {
            if (!seen.insert(l).second) continue;
            Poly p = n2p(nodes[l].a); if (p.size() > 40) continue;
            scale(p, [&] { return ref(nodes[l].a); }, budget);
        }
        // a maximum (or clipped value) compared with each of the values it is chosen from
        budget = 600;
        for (int m : ms) {
            std::vector<std::pair<int, int>> todo_args{{m, 1}}; std::vector<Poly> leaves; size_t guard = 0;
            while (!todo_args.empty() && ++guard < 40) {
                auto c = todo_args.back(); todo_args.pop_back();
                for (int x : nodes[c.first].args) {
                    Poly p = n2p(x);
                    if (p.size() == 1 && p.begin()->first.size() == 1 && p.begin()->first[0].second == 1 && nodes[p.begin()->first[0].first].op == MAXN) {
                        const Num& k = p.begin()->second; if (rational(k) && (toq(k) == 1 || toq(k) == -1)) { todo_args.push_back({p.begin()->first[0].first, toq(k) == 1 ? c.second : -c.second}); continue; }
                    }
                    if (p.size() < 2 || p.size() > 40) continue;
                    Poly q; for (auto& t : p) q[t.first] = c.second == 1 ? nmul(nq(-1), t.second) : t.second;
                    leaves.push_back(q);
                }
            }
            for (auto& q : leaves) {
                Mono self{{m, 1}}; if (q.count(self)) continue;
                q[self] = nq(1); scale(q, [&] { return psum(q); }, budget);
            }
        }
    }
};
std::string show(const Sym& a) { std::ostringstream os; Emit e(os); std::string r = e.ref(nid(a)); return os.str() + r; }
std::ostream& operator<<(std::ostream& s, const Sym& a) { if (is_const(a)) return s << approx(a); return s << "t" << nid(a); }

// ------------------------------------------------------------------ events, paths
struct Event { int kind; int cond; std::string label; };   // 0 assume, 1 ensure, 2 lemma
static std::vector<Event> events;
static std::vector<std::string> notes;
static std::string g_out, g_case, g_path;
struct Shared { sem_t tokens; volatile int paths; volatile int forks; volatile int overflow; };
static Shared* sh = nullptr;
static int max_paths = 20000;
static bool child_of_fork = false, holds_token = false;
static std::vector<pid_t> kids;

// in-process z3 used only for feasibility of branches
struct Feas {
    z3::context ctx; z3::solver s; std::vector<std::unique_ptr<z3::expr>> memo; size_t done = 0;
    std::vector<z3::expr> pend;
    Feas() : s(ctx) { z3::params p(ctx); p.set("rlimit", 400000u); s.set(p); }
    // products and quotients of non-constants are uninterpreted here: pruning stays sound and linear
    z3::expr abstracted(const char* f, const z3::expr& a, const z3::expr& b) {
        z3::sort R = ctx.real_sort(); return ctx.function(f, R, R, R)(a, b);
    }
    z3::expr e(int i) {
        if ((int)memo.size() <= i) memo.resize(nodes.size() + 16);
        if (memo[i]) return *memo[i];
        Node n = nodes[i];
        z3::expr r(ctx);
        auto g = [&](int x) { return e(x); };
        switch (n.op) {
        case CONST:
            if (rational(nums[n.num])) r = ctx.real_val(toq(nums[n.num]).str().c_str());
            else {
                z3::expr th = ctx.real_const("theta"); r = ctx.real_val(0); z3::expr p = ctx.real_val(1);
                for (auto& q : nums[n.num].c) { r = r + ctx.real_val(q.str().c_str()) * p; p = p * th; }
            }
            break;
        case VAR: r = ctx.real_const(strs[n.str].c_str()); break;
        case ADD: r = g(n.a) + g(n.b); break;
        case MUL: if ((isc(n.a) && rational(num(n.a))) || (isc(n.b) && rational(num(n.b)))) r = g(n.a) * g(n.b); else r = abstracted("mul!", g(n.a), g(n.b)); break;
        case NEG: r = -g(n.a); break;
        case DIV: r = abstracted("div!", g(n.a), g(n.b)); break;
        case ITE: r = z3::ite(g(n.a), g(n.b), g(n.c)); break;
        case FLOOR: r = z3::expr(ctx, Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, g(n.a)))); break;
        case SQRT: {
            r = ctx.real_const(("sqrt!" + std::to_string(i)).c_str());
            z3::expr a = g(n.a); pend.push_back(z3::implies(a >= 0, r >= 0)); break; }
        case UF: {
            z3::sort_vector sv(ctx); z3::expr_vector ev(ctx);
            for (int x : n.args) { sv.push_back(ctx.real_sort()); ev.push_back(g(x)); }
            if (n.args.empty()) r = ctx.real_const(("uf:" + strs[n.str]).c_str());
            else r = ctx.function(("uf:" + strs[n.str] + "/" + std::to_string(n.args.size())).c_str(), sv, ctx.real_sort())(ev);
            break; }
        case PSUM: {
            r = ctx.real_val(0);
            for (auto& t : polys[n.num]) {
                z3::expr m = ctx.real_val(1);
                if (t.first.size() == 1 && t.first[0].second == 1) m = g(t.first[0].first);
                else if (!t.first.empty()) {
                    std::string nm = "mono!"; bool even = true; for (auto& f : t.first) { nm += std::to_string(f.first) + "^" + std::to_string(f.second) + "*"; even = even && f.second % 2 == 0; }
                    m = ctx.real_const(nm.c_str()); if (even) pend.push_back(m >= 0);
                    if (t.first.size() == 1 && t.first[0].second == -1) { z3::expr d = g(t.first[0].first); pend.push_back((m > 0) == (d > 0)); }
                }
                r = r + e(konst(t.second)) * m;
            }
            break; }
        case MAXN: {
            r = ctx.real_const(("max!" + std::to_string(i)).c_str()); z3::expr some = ctx.bool_val(false);
            for (int x : n.args) { z3::expr y = g(x); pend.push_back(r >= y); some = some || r == y; }
            pend.push_back(some); break; }
        case BTRUE: r = ctx.bool_val(true); break;
        case BFALSE: r = ctx.bool_val(false); break;
        case LT: r = g(n.a) < g(n.b); break;
        case LE: r = g(n.a) <= g(n.b); break;
        case EQ: r = g(n.a) == g(n.b); break;
        case NOT: r = !g(n.a); break;
        case AND: r = g(n.a) && g(n.b); break;
        case OR: r = g(n.a) || g(n.b); break;
        }
        if ((int)memo.size() <= i) memo.resize(nodes.size() + 16);
        memo[i].reset(new z3::expr(r)); return r;
    }
    void sync() {
        for (; done < events.size(); ++done) if (events[done].kind == 0 || events[done].kind == 2) { z3::expr x = e(canon(events[done].cond)); for (auto& p : pend) s.add(p); pend.clear(); s.add(x); }
    }
    bool feasible(int c) {
        sync(); z3::expr x = e(canon(c)); for (auto& p : pend) s.add(p); pend.clear();
        s.push(); s.add(x); bool r; try { r = s.check() != z3::unsat; } catch (z3::exception&) { r = true; } s.pop();
        return r;
    }
    bool value(int t, Q& out) {    // some value of t consistent with the path
        sync(); z3::expr x = e(canon(t)); for (auto& p : pend) s.add(p); pend.clear();
        if (s.check() != z3::sat) return false;
        z3::expr v = s.get_model().eval(x, true); std::string n;
        if (!v.is_numeral(n)) return false;
        try { out = Q(n); } catch (...) { return false; }
        return true;
    }
};
static Feas* feas = nullptr;

static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') { r += "\\n"; continue; } r += c; } return r; }
static void preamble(std::ostream& f, bool nl) {
    f << "(set-logic ALL)\n";
    if (g_field) {
        f << "(declare-const theta Real)\n";
        if (nl) { f << "(assert (= 0.0 (+"; for (size_t i = 0; i < g_minpoly.size(); ++i) { std::string t = smtq(g_minpoly[i]); for (size_t k = 0; k < i; ++k) t = "(* " + t + " theta)"; f << " " << t; } f << ")))\n"; }
        Q lo(static_cast<double>(g_theta) - 1e-9), hi(static_cast<double>(g_theta) + 1e-9);
        f << "(assert (and (< " << smtq(lo) << " theta) (< theta " << smtq(hi) << ")))\n";
    }
}
static void finish_path() {
    std::string base = g_out + "/" + g_case + "__" + (g_path.size() < 60 ? g_path : g_path.substr(0, 40) + "h" + std::to_string(std::hash<std::string>()(g_path)));
    std::ofstream j(base + ".json");
    j << "{\"case\":\"" << g_case << "\",\"path\":\"" << g_path << "\",\"obligations\":[";
    bool first = true; int open = 0; std::vector<int> cc(events.size(), -1);
    for (size_t i = 0; i < events.size(); ++i) { if (events[i].kind != 3) cc[i] = canon(events[i].cond); }
    // a second canonical form of every fact and obligation, simplified by the facts that precede it
    std::vector<int> ck(cc); bool any = false;
    for (size_t i = 0; i < events.size(); ++i) if ((events[i].kind == 1 || events[i].kind == 2) && nodes[cc[i]].op != BTRUE) any = true;
    if (any) {
        std::vector<int> base; base.swap(cmemo); use_known = true;
        std::function<void(int, bool)> learn = [&](int c, bool v) {
            if (nodes[c].op == NOT) return learn(nodes[c].a, !v);
            if (nodes[c].op == AND && v) { learn(nodes[c].a, true); return learn(nodes[c].b, true); }
            if (nodes[c].op == OR && !v) { learn(nodes[c].a, false); return learn(nodes[c].b, false); }
            if (nodes[c].op == BTRUE || nodes[c].op == BFALSE || known.count(c)) return;
            known[c] = v; if (relevant.count(c)) cmemo.clear();
        };
        for (size_t i = 0; i < events.size(); ++i) {
            auto& ev = events[i]; if (ev.kind == 3) continue;
            if (ev.kind == 0 || nodes[cc[i]].op != BTRUE) ck[i] = canon(ev.cond);
            if (ev.kind != 1) { int a = cc[i], b = ck[i]; learn(a, true); learn(b, true); }
        }
        use_known = false; cmemo.swap(base); if (cmemo.size() < nodes.size()) cmemo.resize(nodes.size() + 64, -1);
    }
    for (size_t i = 0; i < events.size(); ++i) {
        auto& ev = events[i]; if (ev.kind != 1 && ev.kind != 2) continue;
        std::map<int, bool> mm; bool t = nodes[cc[i]].op == BTRUE || nodes[ck[i]].op == BTRUE, fl = nodes[cc[i]].op == BFALSE, syn = nodes[ev.cond].op == BTRUE;
        j << (first ? "" : ",") << "{\"label\":\"" << jesc(ev.label) << "\",\"const\":" << (syn ? "\"syntactic\"" : t ? "\"ring\"" : fl ? "false" : "null")
          << ",\"uninit\":" << (!t && mentions(ev.cond, mm) ? "true" : "false") << "}";
        first = false; open += !t;
    }
    j << "],\"inputs\":[";
    first = true; for (auto& v : input_vars) { j << (first ? "" : ",") << "\"" << jesc(v.first) << "\""; first = false; }
    j << "],\"notes\":["; first = true; for (auto& n : notes) { j << (first ? "" : ",") << "\"" << jesc(n) << "\""; first = false; }
    j << "],\"open\":" << open << "}\n"; j.close();
    // three renderings of the same path: linear over monomials; the same with facts about products; the original terms
    for (int mode = 0; mode < 3; ++mode) {
        if (mode == 1 || mode == 2) if (!open) break;
        std::ofstream f(base + (mode == 0 ? ".lin.smt2" : mode == 1 ? ".sgn.smt2" : ".smt2"));
        preamble(f, mode == 2);
        std::ostringstream body; CEmit ce(mode == 1 ? static_cast<std::ostream&>(body) : f, false); Emit oe(f);
        auto R = [&](size_t i) { return mode == 2 ? oe.ref(events[i].cond) : ce.ref(cc[i]); };
        if (mode == 1) { for (size_t i = 0; i < events.size(); ++i) if (events[i].kind != 3) { R(i); ce.ref(ck[i]); } ce.facts(); f << body.str(); body.str(""); }
        int k = 0;
        for (size_t i = 0; i < events.size(); ++i) {
            auto& ev = events[i]; if (ev.kind == 3) continue;
            std::string c = R(i), d = mode == 2 || ck[i] == cc[i] ? "" : ce.ref(ck[i]);   // equivalent under the facts so far
            std::string fact = "(assert " + c + ")\n" + (d.empty() ? "" : "(assert " + d + ")\n");
            if (ev.kind == 0) { f << fact; continue; }
            if (nodes[cc[i]].op != BTRUE && nodes[ck[i]].op != BTRUE) f << ";OBL " << k << " " << ev.label << "\n(push)\n(assert (not " << c << "))" << (d.empty() ? "" : " (assert (not " + d + "))") << "\n(check-sat)\n(pop)\n";
            ++k;
            if (ev.kind == 2) f << fact;
        }
        f << ";COVER\n(check-sat)\n";
    }
    __sync_fetch_and_add(&sh->paths, 1);
}
static void reap() { for (pid_t p : kids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) sh->overflow = 2; } kids.clear(); }
static void leave() {
    if (holds_token) { sem_post(&sh->tokens); holds_token = false; }
    reap(); fflush(nullptr); _exit(sh->overflow ? 3 : 0);
}
[[noreturn]] void stop_path() { finish_path(); leave(); std::abort(); }

static bool split(int c) {   // both feasible: fork
    if (sh->paths + sh->forks > 2 * max_paths) { sh->overflow = 1; leave(); }
    __sync_fetch_and_add(&sh->forks, 1);
    fflush(nullptr);
    bool tok = sem_trywait(&sh->tokens) == 0;
    pid_t p = fork();
    if (p < 0) { sh->overflow = 2; leave(); }
    if (p == 0) { kids.clear(); holds_token = tok; child_of_fork = true; g_path += "1";
        for (auto& ev : events) { if (ev.kind == 1) ev.kind = 3; else if (ev.kind == 2) ev.kind = 0; }   // the other side reports these
        events.push_back({0, c, ""}); return true; }
    if (tok) kids.push_back(p); else { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) sh->overflow = 2; }
    g_path += "0"; events.push_back({0, n_not(c), ""}); return false;
}
static bool decide_id(int c) {
    if (sh->overflow) leave();      // the exploration is given up anyway
    int k = canon(c);
    if (nodes[k].op == BTRUE) return true;
    if (nodes[k].op == BFALSE) return false;
    bool t = feas->feasible(c), f = feas->feasible(n_not(c));
    if (t && f) return split(c);
    // an infeasible side is dropped; if neither side is feasible the path itself is dead
    if (!t && !f) { events.push_back({0, n_false(), ""}); stop_path(); }
    return t;
}
SymBool::operator bool() const { return decide_id(id); }
bool sym_decide(const SymBool& c) { return decide_id(c.id); }
Sym::operator bool() const { return static_cast<bool>(*this != Sym(0.0)); }
Sym::operator long() const {
    Sym t = *this < Sym(0.0) ? -sym_floor(-*this) : sym_floor(*this);   // truncation, forks on the sign
    int i = nid(t);
    for (int guard = 0; guard < 64; ++guard) {
        if (isc(i)) return static_cast<long>(boost::multiprecision::numerator(toq(num(i))));
        Q v; if (!feas->value(i, v)) break;
        if (boost::multiprecision::denominator(v) != 1) break;
        if (decide_id(n_cmp(EQ, i, konst(nq(v))))) return static_cast<long>(boost::multiprecision::numerator(v));
    }
    fprintf(stderr, "cannot enumerate the integer value of a symbolic number\n"); sh->overflow = 2; leave(); std::abort();
}
Sym::operator int() const { return static_cast<int>(static_cast<long>(*this)); }
Sym::operator unsigned long() const { return static_cast<unsigned long>(static_cast<long>(*this)); }
Sym::operator double() const { int i = nid(*this); if (!isc(i)) { fprintf(stderr, "symbolic value converted to double\n"); std::abort(); } return static_cast<double>(nval(num(i))); }

static bool div_checks = true; static std::set<int> div_seen; static int div_count = 0;
void division_checks(bool on) { if (!on && div_checks) notes.push_back("denominators and square-root arguments are assumed nonzero / nonnegative in case " + g_case); div_checks = on; }
static void check_denominator(int b) {
    if (isc(b) && !zero(num(b))) return;
    int c = canon(b); if (!div_seen.insert(c).second) return;
    int cond = n_not(n_cmp(EQ, b, konst(Num())));
    if (nodes[canon(cond)].op == BTRUE) return;
    events.push_back({div_checks ? 2 : 0, cond, "denominator " + std::to_string(++div_count) + " is nonzero"});
}
static void check_sqrt(int a) {
    int c = canon(a); if (!div_seen.insert(-2 - c).second) return;
    int cond = n_cmp(LE, konst(Num()), a);
    if (nodes[canon(cond)].op == BTRUE) return;
    events.push_back({div_checks ? 2 : 0, cond, "square-root argument " + std::to_string(++div_count) + " is nonnegative"});
}
void sym_require(const SymBool& c) {
    if (nodes[c.id].op == BTRUE) return;
    events.push_back({0, c.id, ""});
}
void sym_ensure(const std::string& l, const SymBool& c) { events.push_back({1, c.id, l}); }
void sym_lemma(const std::string& l, const SymBool& c) { events.push_back({2, c.id, l}); }
void fail_hard(const std::string& l, const std::string& why) { events.push_back({1, n_false(), l + " (" + why + ")"}); stop_path(); }
bool rt_assert(bool c, const char* txt, const char* file, int line) {
    const char* b = std::strrchr(file, '/');
    std::string t = txt; if (t.size() > 120) t = t.substr(0, 120);
    if (!c) fail_hard("run-time assertion", t + " at " + (b ? b + 1 : file) + ":" + std::to_string(line));
    return c;
}
void note(const std::string& s) { notes.push_back(s); }
int choose(const std::string& name, int n) {
    for (int i = 0; i + 1 < n; ++i) if (decide_id(n_cmp(EQ, nid(var("choice:" + name)), nid(Sym(i))))) return i;
    sym_require(var("choice:" + name) == Sym(n - 1));
    return n - 1;
}
// numeric primitives are not used in this mode
double num_input(const std::string&, double, double, const std::vector<double>&) { std::abort(); }
void num_require(bool) { std::abort(); }
void num_ensure(const std::string&, const Chk&) { std::abort(); }
double num_uf(const std::string&, const std::vector<int>&, const std::vector<double>&) { std::abort(); }

struct CaseRec { std::string name, desc; CaseFn f; };
static std::vector<CaseRec>& cases() { static std::vector<CaseRec> c; return c; }
Reg::Reg(const char* n, CaseFn f, const char* d) { cases().push_back({n, d, f}); }
} // namespace pv

int main(int argc, char** argv) {
    using namespace pv;
    std::string which; int jobs = 1; g_out = ".";
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--list") { for (auto& c : cases()) std::cout << c.name << "\t" << c.desc << "\n"; return 0; }
        if (a == "--case") which = argv[++i];
        if (a == "--out") g_out = argv[++i];
        if (a == "--jobs") jobs = std::atoi(argv[++i]);
        if (a == "--max-paths") max_paths = std::atoi(argv[++i]);
    }
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    sem_init(&sh->tokens, 1, std::max(0, jobs - 1)); sh->paths = sh->forks = sh->overflow = 0;
    for (auto& c : cases()) if (c.name == which) {
        g_case = c.name; feas = new Feas();
        c.f();
        finish_path(); leave();
    }
    std::cerr << "no such case: " << which << "\n"; return 2;
}
