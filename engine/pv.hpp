// pv: symbolic scalar + contract harness API.
//
// The same harness source is compiled twice against the headers in /repo/src:
//   * default        : the scalar is pv::Sym.  Every arithmetic operation of the code under test builds a
//                      term; every comparison that reaches an `if` forks the path; `require` adds an
//                      assumption, `ensure` an obligation.  Paths are written out as SMT-LIB.
//   * -DPV_DOUBLE    : the scalar is double.  Inputs come from a replay file or a sampler; `require`
//                      rejects, `ensure` checks with a tolerance.  Used to replay counterexamples.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <iosfwd>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>

namespace pv {

struct SymBool;

/** Symbolic real number. Trivially copyable; a literal type (constexpr from arithmetic types). */
struct Sym {
    double c;   // value if id == -1
    int    id;  // -1 constant, -2 never written (indeterminate), >= 0 term
    Sym() : c(0), id(-2) {}
    template<class T, class = typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type>
    constexpr Sym(T v) : c(static_cast<double>(v)), id(-1) {}
    explicit operator int() const;
    explicit operator long() const;
    explicit operator unsigned long() const;
    explicit operator double() const;   // only for constants
    explicit operator bool() const;     // != 0, forks
    Sym& operator+=(const Sym& o);
    Sym& operator-=(const Sym& o);
    Sym& operator*=(const Sym& o);
    Sym& operator/=(const Sym& o);
};
inline constexpr Sym mk(int id) { Sym s(0.0); s.id = id; return s; }

/** Symbolic truth value; converting it to bool decides it (forking the path if both outcomes are feasible). */
struct SymBool {
    int id;
    explicit SymBool(int i) : id(i) {}
    SymBool(bool b);
    operator bool() const;
};

Sym operator+(const Sym& a, const Sym& b);
Sym operator-(const Sym& a, const Sym& b);
Sym operator*(const Sym& a, const Sym& b);
Sym operator/(const Sym& a, const Sym& b);
Sym operator-(const Sym& a);
inline Sym operator+(const Sym& a) { return a; }
SymBool operator<(const Sym& a, const Sym& b);
SymBool operator<=(const Sym& a, const Sym& b);
SymBool operator>(const Sym& a, const Sym& b);
SymBool operator>=(const Sym& a, const Sym& b);
SymBool operator==(const Sym& a, const Sym& b);
SymBool operator!=(const Sym& a, const Sym& b);
SymBool sym_and(const SymBool& a, const SymBool& b);
SymBool sym_or(const SymBool& a, const SymBool& b);
template<class T, class = typename std::enable_if<std::is_same<T, SymBool>::value>::type> SymBool operator&&(const T& a, const T& b) { return sym_and(a, b); }
template<class T, class = typename std::enable_if<std::is_same<T, SymBool>::value>::type> SymBool operator||(const T& a, const T& b) { return sym_or(a, b); }
SymBool operator!(const SymBool& a);
// with a plain bool on either side the built-in operators apply: a concrete guard on the left short-circuits as in the real code
std::ostream& operator<<(std::ostream& s, const Sym& a);
Sym sym_floor(const Sym& a);
struct FloorSym : Sym { FloorSym(const Sym& s) : Sym(s) {} operator int() const { return static_cast<int>(static_cast<const Sym&>(*this)); } operator long() const { return static_cast<long>(static_cast<const Sym&>(*this)); } };   // an integral value converts implicitly, as double does
inline FloorSym floor(const Sym& a) { return FloorSym(sym_floor(a)); }
inline int& operator+=(int& i, const Sym& s) { i += static_cast<int>(s); return i; }

// mathematical functions (found by ADL from the code under test)
Sym abs(const Sym& a);
inline Sym fabs(const Sym& a) { return abs(a); }
inline Sym abs2(const Sym& a) { return a * a; }
Sym sqrt(const Sym& a);
Sym ceil(const Sym& a);
Sym round(const Sym& a);
Sym pow(const Sym& a, const Sym& b);
Sym unary(const char* f, const Sym& a);
inline Sym sin(const Sym& a)  { return unary("sin", a); }
inline Sym cos(const Sym& a)  { return unary("cos", a); }
inline Sym tan(const Sym& a)  { return unary("tan", a); }
inline Sym asin(const Sym& a) { return unary("asin", a); }
inline Sym acos(const Sym& a) { return unary("acos", a); }
inline Sym atan(const Sym& a) { return unary("atan", a); }
inline Sym sinh(const Sym& a) { return unary("sinh", a); }
inline Sym cosh(const Sym& a) { return unary("cosh", a); }
inline Sym tanh(const Sym& a) { return unary("tanh", a); }
inline Sym exp(const Sym& a)  { return unary("exp", a); }
inline Sym log(const Sym& a)  { return unary("log", a); }
Sym atan2(const Sym& a, const Sym& b);
Sym sym_max(const Sym& a, const Sym& b);
Sym sym_min(const Sym& a, const Sym& b);
inline Sym max(const Sym& a, const Sym& b) { return sym_max(a, b); }
inline Sym min(const Sym& a, const Sym& b) { return sym_min(a, b); }
inline Sym fmax(const Sym& a, const Sym& b) { return sym_max(a, b); }
inline Sym fmin(const Sym& a, const Sym& b) { return sym_min(a, b); }
inline bool isfinite(const Sym&) { return true; }
inline bool isnan(const Sym&) { return false; }
inline bool isinf(const Sym&) { return false; }
const Sym& stable(const Sym& a);   // a reference that stays valid (for std::max/min)

Sym ite(const SymBool& c, const Sym& a, const Sym& b);
Sym var(const std::string& name);                       // fresh-or-named real variable
Sym uf(const std::string& name, const std::vector<Sym>& args);
Sym diff(const Sym& t, const Sym& v);                   // d t / d v  (v a variable)
bool same(const Sym& a, const Sym& b);                  // identical terms
bool is_const(const Sym& a);
double approx(const Sym& a);                            // numeric value of a constant
bool mentions_uninit(const Sym& a);
std::string show(const Sym& a);
void field(int N);                                      // constants cos(k*pi/N) are exact elements of Q(cos(pi/N))
Sym cospi(int k, int N);

// contract primitives, symbolic mode
void sym_require(const SymBool& c);
void sym_ensure(const std::string& label, const SymBool& c);
void sym_lemma(const std::string& label, const SymBool& c);   // ensure, then assume
bool sym_decide(const SymBool& c);                       // fork

// ---- numeric mode
struct Chk { bool ok; double gap; bool sure, exact; };   // ok: holds up to tolerance; sure: holds with margin; exact: plain comparison
double num_input(const std::string& name, double lo, double hi, const std::vector<double>& specials);
void   num_require(bool c);
void   num_ensure(const std::string& label, const Chk& c);
double num_uf(const std::string& name, const std::vector<int>& mi, const std::vector<double>& args);
extern double tol;

// ---- common
void fail_hard(const std::string& label, const std::string& why);   // a violated run-time check (eigen_assert, bounds)
[[noreturn]] void stop_path();                                      // end of the current path/run
void ideal_constants();                                             // symbolic mode: see engine.cpp
void division_checks(bool on);                                      // off: denominators/sqrt arguments are assumed, not proved
void note(const std::string& s);                                    // recorded in evidence
int  choose(const std::string& name, int n);                        // nondeterministic 0..n-1 (explored exhaustively)
bool rt_assert(bool c, const char* txt, const char* file, int line);

using CaseFn = void (*)();
struct Reg { Reg(const char* name, CaseFn f, const char* desc); };

// ---- generic facade: S is Sym or double
template<class S> struct Api;
template<> struct Api<Sym> {
    using B = SymBool;
    static Sym  input(const std::string& n, double, double, const std::vector<double>&) { return var(n); }
    static B    eq(const Sym& a, const Sym& b) { return a == b; }
    static B    le(const Sym& a, const Sym& b) { return a <= b; }
    static B    lt(const Sym& a, const Sym& b) { return a < b; }
    static B    implies(const B& a, const B& b) { return (!a) || b; }
    static B    both(const B& a, const B& b) { return a && b; }
    static B    either(const B& a, const B& b) { return a || b; }
    static B    negate(const B& a) { return !a; }
    static B    truth(bool b) { return SymBool(b); }
    static Sym  ite(const B& c, const Sym& a, const Sym& b) { return pv::ite(c, a, b); }
    static Sym  max(const Sym& a, const Sym& b) { return sym_max(a, b); }
    static Sym  min(const Sym& a, const Sym& b) { return sym_min(a, b); }
    static Sym  abs(const Sym& a) { return pv::abs(a); }
    static Sym  uf(const std::string& n, const std::vector<int>& mi, const std::vector<Sym>& a) {
        std::string s = n; for (int i : mi) s += "." + std::to_string(i);
        return pv::uf(s, a);
    }
    static void require(const B& c) { sym_require(c); }
    static void ensure(const std::string& l, const B& c) { sym_ensure(l, c); }
    static void lemma(const std::string& l, const B& c) { sym_lemma(l, c); }
    static bool decide(const B& c) { return sym_decide(c); }
};
template<> struct Api<double> {
    using B = Chk;
    static double input(const std::string& n, double lo, double hi, const std::vector<double>& sp) { return num_input(n, lo, hi, sp); }
    static B mkc(double g, double s, bool exact) {   // g: violation (<= 0: holds)
        if (!(g <= tol * s)) return Chk{false, std::isfinite(g) ? g / s : 1e300, false, exact};
        return Chk{true, g > 0 ? g / s : 0, exact && g < -tol * s, exact};
    }
    static double sc(double a, double b) { return 1 + std::fmax(std::fabs(a), std::fabs(b)); }
    static B eq(double a, double b) { B r = mkc(a == b ? 0 : std::fabs(a - b), sc(a, b), a == b); r.sure = a == b; return r; }
    static B le(double a, double b) { return mkc(a - b, sc(a, b), a <= b); }
    static B lt(double a, double b) { return mkc(a - b, sc(a, b), a < b); }
    static B implies(const B& a, const B& b) { if (!a.sure || b.ok) return Chk{true, 0, !a.ok || b.sure, !a.exact || b.exact}; return b; }
    static B both(const B& a, const B& b) { B r = a.ok ? b : a; r.sure = a.sure && b.sure; r.exact = a.exact && b.exact; return r; }
    static B either(const B& a, const B& b) { B r = a.ok ? a : b; r.sure = a.sure || b.sure; r.exact = a.exact || b.exact; return r; }
    static B negate(const B& a) { return Chk{!a.sure, a.sure ? 1. : 0., !a.ok, !a.exact}; }
    static B truth(bool b) { return Chk{b, b ? 0. : 1., b, b}; }
    static double ite(const B& c, double a, double b) { return c.exact ? a : b; }
    static double max(double a, double b) { return a < b ? b : a; }
    static double min(double a, double b) { return b < a ? b : a; }
    static double abs(double a) { return std::fabs(a); }
    static double uf(const std::string& n, const std::vector<int>& mi, const std::vector<double>& a) { return num_uf(n, mi, a); }
    static void require(const B& c) { num_require(c.exact); }
    static void ensure(const std::string& l, const B& c) { num_ensure(l, c); }
    static void lemma(const std::string& l, const B& c) { num_ensure(l, c); }
    static bool decide(const B& c) { return c.exact; }
};

#ifdef PV_DOUBLE
using S = double;
constexpr bool symbolic = false;
#else
using S = Sym;
constexpr bool symbolic = true;
#endif
using A = Api<S>;
using B = A::B;

inline S input(const std::string& n, double lo = -2, double hi = 2, const std::vector<double>& sp = {}) { return A::input(n, lo, hi, sp); }
inline B eq(const S& a, const S& b) { return A::eq(a, b); }
inline B le(const S& a, const S& b) { return A::le(a, b); }
inline B lt(const S& a, const S& b) { return A::lt(a, b); }
inline B implies(const B& a, const B& b) { return A::implies(a, b); }
inline B both(const B& a, const B& b) { return A::both(a, b); }
inline B either(const B& a, const B& b) { return A::either(a, b); }
inline B negate(const B& a) { return A::negate(a); }
inline B truth(bool b) { return A::truth(b); }
inline S pick(const B& c, const S& a, const S& b) { return A::ite(c, a, b); }
inline S smax(const S& a, const S& b) { return A::max(a, b); }
inline S smin(const S& a, const S& b) { return A::min(a, b); }
inline S sabs(const S& a) { return A::abs(a); }
inline void require(const B& c) { A::require(c); }
inline void ensure(const std::string& l, const B& c) { A::ensure(l, c); }
inline void ensure(const std::string& l, bool c) { A::ensure(l, truth(c)); }
inline void lemma(const std::string& l, const B& c) { A::lemma(l, c); }
inline bool decide(const B& c) { return A::decide(c); }

// ghost lemma calls: instances of theorems of real arithmetic; their premises are obligations
inline void hint_square(const S& t) { if (symbolic) require(le(S(0.0), t * t)); }                              // t*t >= 0
inline void hint_nonzero_square(const std::string& l, const S& t) { if (!symbolic) return; lemma(l + " (nonzero)", negate(eq(t, S(0.0)))); require(lt(S(0.0), t * t)); }   // t != 0 => t*t > 0
inline void hint_equal_times(const std::string& l, const S& a, const S& b, const S& k) { if (!symbolic) return; lemma(l + " (equal)", eq(a, b)); require(eq(a * k, b * k)); }       // a = b => a*k = b*k
inline void hint_product(const std::string& l, const S& a, const S& b) {                                        // a,b >= 0 => a*b >= 0
    if (!symbolic) return; lemma(l + " (first factor)", le(S(0.0), a)); lemma(l + " (second factor)", le(S(0.0), b)); require(le(S(0.0), a * b)); }
inline void hint_positive(const std::string& l, const S& a, const S& b) {                                       // a,b > 0 => a*b > 0
    if (!symbolic) return; lemma(l + " (first factor)", lt(S(0.0), a)); lemma(l + " (second factor)", lt(S(0.0), b)); require(lt(S(0.0), a * b)); }
inline void hint_cancel(const std::string& l, const S& a, const S& k) {                                         // a*k >= 0, k > 0 => a >= 0
    if (!symbolic) return; lemma(l + " (factor)", lt(S(0.0), k)); lemma(l + " (product)", le(S(0.0), a * k)); require(le(S(0.0), a)); }
inline void hint_cancel_strict(const std::string& l, const S& a, const S& k) {                                  // a*k > 0, k > 0 => a > 0
    if (!symbolic) return; lemma(l + " (factor)", lt(S(0.0), k)); lemma(l + " (product)", lt(S(0.0), a * k)); require(lt(S(0.0), a)); }

inline std::string idx(const std::string& n, int i) { return n + "_" + std::to_string(i); }
inline std::string idx(const std::string& n, int i, int j) { return n + "_" + std::to_string(i) + "_" + std::to_string(j); }

} // namespace pv

namespace std {
template<> class numeric_limits<pv::Sym> {
public:
    static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false,
                          has_infinity = true, has_quiet_NaN = true, has_signaling_NaN = false, is_bounded = true;
    static constexpr int digits = 53, digits10 = 15, radix = 2, max_digits10 = 17, min_exponent = -1021, max_exponent = 1024;
    static constexpr pv::Sym epsilon() { return pv::Sym(std::numeric_limits<double>::epsilon()); }
    static constexpr pv::Sym min() { return pv::Sym(std::numeric_limits<double>::min()); }
    static constexpr pv::Sym max() { return pv::Sym(1e300); }
    static constexpr pv::Sym lowest() { return pv::Sym(-1e300); }
    static constexpr pv::Sym infinity() { return pv::Sym(1e300); }   // reals have no infinity: a huge finite bound
    static constexpr pv::Sym quiet_NaN() { return pv::Sym(0.0); }
};
template<> inline const pv::Sym& max<pv::Sym>(const pv::Sym& a, const pv::Sym& b) { return pv::stable(pv::sym_max(a, b)); }
template<> inline const pv::Sym& min<pv::Sym>(const pv::Sym& a, const pv::Sym& b) { return pv::stable(pv::sym_min(a, b)); }
template<> struct is_scalar<pv::Sym> : true_type {};   // the scalar of the code under test
template<> struct plus<pv::Sym> {
    pv::Sym operator()(const pv::Sym& a, const pv::Sym& b) const { return a + b; }
    int operator()(int a, int b) const { return a + b; }
};
// qualified calls (std::abs(x), ...) in the code under test resolve to the same functions
using pv::abs; using pv::fabs; using pv::sqrt; using pv::pow; using pv::floor; using pv::ceil; using pv::round;
using pv::sin; using pv::cos; using pv::tan; using pv::asin; using pv::acos; using pv::atan; using pv::atan2;
using pv::sinh; using pv::cosh; using pv::tanh; using pv::exp; using pv::log; using pv::fmax; using pv::fmin;
using pv::isfinite; using pv::isnan; using pv::isinf;
} // namespace std

// Eigen's internal assertions become obligations.
#define eigen_assert(x) (void)(::pv::rt_assert(static_cast<bool>(x), #x, __FILE__, __LINE__))

#define EIGEN_DENSEBASE_PLUGIN "eigen_plugin.inc"
#include <Eigen/Core>
namespace Eigen {
template<> struct NumTraits<pv::Sym> {
    typedef pv::Sym Real; typedef pv::Sym NonInteger; typedef pv::Sym Nested; typedef pv::Sym Literal;
    enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 1, AddCost = 3, MulCost = 3 };
    static inline pv::Sym epsilon() { return pv::Sym(std::numeric_limits<double>::epsilon()); }
    static inline pv::Sym dummy_precision() { return pv::Sym(1e-12); }
    static inline pv::Sym highest() { return pv::Sym(1e300); }
    static inline pv::Sym lowest() { return pv::Sym(-1e300); }
    static inline pv::Sym infinity() { return pv::Sym(1e300); }
    static inline pv::Sym quiet_NaN() { return pv::Sym(0.0); }
    static inline int digits10() { return 15; }
};
namespace internal {
template<> inline pv::Sym random<pv::Sym>() { static int k = 0; return pv::var("rand!" + std::to_string(k++)); }
template<> inline pv::Sym random<pv::Sym>(const pv::Sym&, const pv::Sym&) { return random<pv::Sym>(); }
}
}
#include <Eigen/Dense>
#include <Eigen/Sparse>

namespace pv {
template<int R, int C> using Mat = Eigen::Matrix<S, R, C>;
template<int R> using Vec = Eigen::Matrix<S, R, 1>;

template<int R> Vec<R> input_vec(const std::string& n, double lo = -2, double hi = 2) {
    Vec<R> v; for (int i = 0; i < R; ++i) v(i) = input(idx(n, i), lo, hi); return v;
}
template<int R, int C> Mat<R, C> input_mat(const std::string& n, double lo = -2, double hi = 2) {
    Mat<R, C> v; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) v(i, j) = input(idx(n, i, j), lo, hi); return v;
}
template<class D1, class D2> void ensure_eq(const std::string& l, const D1& a, const D2& b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) { ensure(l + ": same size", false); return; }
    for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j)
        ensure(l + "[" + std::to_string(i) + "," + std::to_string(j) + "]", eq(S(a(i, j)), S(b(i, j))));
}
template<class D> S norm_inf(const D& v) { S m(0.0); for (int i = 0; i < v.size(); ++i) m = (i == 0) ? sabs(v(0)) : smax(m, sabs(v(i))); return m; }
template<class D> S norm_1(const D& v) { S m(0.0); for (int i = 0; i < v.size(); ++i) m = m + sabs(v(i)); return m; }
} // namespace pv

#define PV_CASE(name, desc) static void name(); static ::pv::Reg reg_##name(#name, &name, desc); static void name()
