// Contracts of the automatic-differentiation scalar.  Every expression is evaluated twice, by the real operators and by a
// reference jet that knows only the calculus table of each operation; value, gradient and (nested) second derivatives of the
// two must be equal for all values and all incoming derivatives.
#pragma once
#include "pv.hpp"
#include "autodiff/AutoDiffScalar.h"
#include <array>
using namespace pv;

/** value, first derivatives in the inner (a) and outer (b) directions, mixed second derivatives c[outer][inner] */
struct Jet { S v; std::array<S, 2> a, b; std::array<std::array<S, 2>, 2> c; };
static Jet con(const S& k) { Jet j; j.v = k; for (int i = 0; i < 2; ++i) { j.a[i] = j.b[i] = S(0.0); j.c[i][0] = j.c[i][1] = S(0.0); } return j; }
static Jet un(const S& f, const S& d, const S& dd, const Jet& x) {
    Jet r; r.v = f;
    for (int i = 0; i < 2; ++i) { r.a[i] = d * x.a[i]; r.b[i] = d * x.b[i]; for (int j = 0; j < 2; ++j) r.c[i][j] = d * x.c[i][j] + dd * x.b[i] * x.a[j]; }
    return r;
}
static Jet bin(const S& f, const S& fx, const S& fy, const S& fxx, const S& fxy, const S& fyy, const Jet& x, const Jet& y) {
    Jet r; r.v = f;
    for (int i = 0; i < 2; ++i) {
        r.a[i] = fx * x.a[i] + fy * y.a[i]; r.b[i] = fx * x.b[i] + fy * y.b[i];
        for (int j = 0; j < 2; ++j) r.c[i][j] = fx * x.c[i][j] + fy * y.c[i][j] + fxx * x.b[i] * x.a[j] + fyy * y.b[i] * y.a[j] + fxy * (x.b[i] * y.a[j] + y.b[i] * x.a[j]);
    }
    return r;
}
static const S O(0.0), I(1.0), two(2.0);
static Jet operator+(const Jet& x, const Jet& y) { return bin(x.v + y.v, I, I, O, O, O, x, y); }
static Jet operator-(const Jet& x, const Jet& y) { return bin(x.v - y.v, I, -I, O, O, O, x, y); }
static Jet operator*(const Jet& x, const Jet& y) { return bin(x.v * y.v, y.v, x.v, O, I, O, x, y); }
static Jet operator/(const Jet& x, const Jet& y) { return bin(x.v / y.v, I / y.v, -x.v / (y.v * y.v), O, -I / (y.v * y.v), two * x.v / (y.v * y.v * y.v), x, y); }
static Jet operator-(const Jet& x) { return un(-x.v, -I, O, x); }
static Jet operator+(const Jet& x, const S& k) { return x + con(k); }
static Jet operator-(const Jet& x, const S& k) { return x - con(k); }
static Jet operator*(const Jet& x, const S& k) { return x * con(k); }
static Jet operator/(const Jet& x, const S& k) { return un(x.v / k, I / k, O, x); }
static Jet operator+(const S& k, const Jet& x) { return con(k) + x; }
static Jet operator-(const S& k, const Jet& x) { return con(k) - x; }
static Jet operator*(const S& k, const Jet& x) { return con(k) * x; }
static Jet operator/(const S& k, const Jet& x) { return con(k) / x; }
template<class T> static Jet& operator+=(Jet& x, const T& y) { return x = x + y; }
template<class T> static Jet& operator-=(Jet& x, const T& y) { return x = x - y; }
template<class T> static Jet& operator*=(Jet& x, const T& y) { return x = x * y; }
template<class T> static Jet& operator/=(Jet& x, const T& y) { return x = x / y; }
#define JET1(F, f, d, dd) static Jet F(const Jet& x) { using std::sin; using std::cos; using std::tan; using std::exp; using std::log; using std::sqrt; using std::sinh; using std::cosh; using std::tanh; using std::asin; using std::acos; const S& v = x.v; return un(f, d, dd, x); }
JET1(sin, sin(v), cos(v), -sin(v))
JET1(cos, cos(v), -sin(v), -cos(v))
JET1(tan, tan(v), I / (cos(v) * cos(v)), two * sin(v) / (cos(v) * cos(v) * cos(v)))
JET1(exp, exp(v), exp(v), exp(v))
JET1(log, log(v), I / v, -I / (v * v))
JET1(sqrt, sqrt(v), S(0.5) / sqrt(v), -S(0.25) / (sqrt(v) * v))
JET1(sinh, sinh(v), cosh(v), sinh(v))
JET1(cosh, cosh(v), sinh(v), cosh(v))
JET1(tanh, tanh(v), I / (cosh(v) * cosh(v)), -two * sinh(v) / (cosh(v) * cosh(v) * cosh(v)))
JET1(asin, asin(v), I / sqrt(I - v * v), v / ((I - v * v) * sqrt(I - v * v)))
JET1(acos, acos(v), -I / sqrt(I - v * v), -v / ((I - v * v) * sqrt(I - v * v)))
JET1(abs2, v * v, two * v, two)
static Jet abs(const Jet& x) { return decide(lt(x.v, O)) ? -x : x; }
static Jet floor(const Jet& x) { using std::floor; return un(floor(x.v), O, O, x); }
static Jet atan2(const Jet& y, const Jet& x) {
    using std::atan2; const S h = x.v * x.v + y.v * y.v;
    return bin(atan2(y.v, x.v), x.v / h, -y.v / h, -two * x.v * y.v / (h * h), (y.v * y.v - x.v * x.v) / (h * h), two * x.v * y.v / (h * h), y, x);
}
static Jet pow(const Jet& x, const S& p) { using std::pow; return un(pow(x.v, p), p * pow(x.v, p - I), O, x); }   // pow does not compile for nested scalars: second derivative unused
static Jet min(const Jet& x, const Jet& y) { return decide(lt(x.v, y.v)) ? x : y; }
static Jet max(const Jet& x, const Jet& y) { return decide(lt(y.v, x.v)) ? x : y; }
static Jet min(const Jet& x, const S& y) { return min(x, con(y)); }
static Jet max(const Jet& x, const S& y) { return max(x, con(y)); }
static Jet min(const S& x, const Jet& y) { return min(con(x), y); }
static Jet max(const S& x, const Jet& y) { return max(con(x), y); }
#define CMP(op, e) static bool operator op(const Jet& x, const Jet& y) { return decide(e); } static bool operator op(const Jet& x, const S& k) { return x op con(k); } static bool operator op(const S& k, const Jet& x) { return con(k) op x; }
CMP(<, lt(x.v, y.v)) CMP(<=, le(x.v, y.v)) CMP(>, lt(y.v, x.v)) CMP(>=, le(y.v, x.v)) CMP(==, eq(x.v, y.v)) CMP(!=, negate(eq(x.v, y.v)))

// the scalar types under contract
using Fixed = Eigen::AutoDiffScalar<Eigen::Matrix<S, 2, 1>>;
using Dyn = Eigen::AutoDiffScalar<Eigen::Matrix<S, Eigen::Dynamic, 1>>;
using Nested = Eigen::AutoDiffScalar<Eigen::Matrix<Fixed, 2, 1>>;
static std::string nth(const char* n, const char* p, int i) { return idx(std::string(n) + p, i); }
template<class T> struct Make;
template<class T> struct MakeFlat {
    static T get(const char* n, Jet& j) { T x; j = con(input(n)); x.value() = j.v; x.derivatives().resize(2); for (int i = 0; i < 2; ++i) x.derivatives()(i) = j.a[i] = input(nth(n, "'", i)); return x; }
    static void check(const std::string& l, const T& x, const Jet& j) {
        ensure(l + ": value", eq(x.value(), j.v));
        if (x.derivatives().size() == 0) { for (int i = 0; i < 2; ++i) ensure(l + ": derivative " + std::to_string(i), eq(O, j.a[i])); return; }
        ensure(l + ": number of derivatives", x.derivatives().size() == 2);
        for (int i = 0; i < 2; ++i) ensure(l + ": derivative " + std::to_string(i), eq(S(x.derivatives()(i)), j.a[i]));
    }
};
template<> struct Make<Fixed> : MakeFlat<Fixed> {};
template<> struct Make<Dyn> : MakeFlat<Dyn> {};
template<> struct Make<Nested> {
    static Nested get(const char* n, Jet& j) {
        Nested x; j = con(input(n)); x.value().value() = j.v;
        for (int i = 0; i < 2; ++i) x.value().derivatives()(i) = j.a[i] = input(nth(n, "'", i));
        for (int i = 0; i < 2; ++i) { x.derivatives()(i).value() = j.b[i] = input(nth(n, "*", i)); for (int k = 0; k < 2; ++k) x.derivatives()(i).derivatives()(k) = j.c[i][k] = input(idx(std::string(n) + "*'", i, k)); }
        return x;
    }
    static void check(const std::string& l, const Nested& x, const Jet& j) {
        ensure(l + ": value", eq(x.value().value(), j.v));
        for (int i = 0; i < 2; ++i) ensure(l + ": inner derivative " + std::to_string(i), eq(S(x.value().derivatives()(i)), j.a[i]));
        for (int i = 0; i < 2; ++i) {
            ensure(l + ": outer derivative " + std::to_string(i), eq(x.derivatives()(i).value(), j.b[i]));
            for (int k = 0; k < 2; ++k) ensure(l + ": second derivative " + idx("", i, k), eq(S(x.derivatives()(i).derivatives()(k)), j.c[i][k]));
        }
    }
};
/** elementary-function facts the ring cannot know (trusted) */
static void facts(const S& v) {
    if (!symbolic) return;
    using std::sin; using std::cos; using std::tan; using std::sinh; using std::cosh; using std::tanh;
    require(eq(sin(v) * sin(v) + cos(v) * cos(v), I)); require(eq(tan(v) * cos(v), sin(v)));
    require(eq(cosh(v) * cosh(v) - sinh(v) * sinh(v), I)); require(le(I, cosh(v))); require(eq(tanh(v) * cosh(v), sinh(v)));
    note("sin^2+cos^2 = 1, tan cos = sin, cosh^2-sinh^2 = 1, cosh >= 1, tanh cosh = sinh, and the derivative of floor is 0, are the only facts used about the elementary functions; their values are those of std::");
}
#define PV_USING using std::sin; using std::cos; using std::tan; using std::exp; using std::log; using std::sqrt; using std::sinh; using std::cosh; using std::tanh; using std::asin; using std::acos; using std::abs; using std::floor; using std::pow; using std::atan2; using std::min; using std::max;
/** expression e of two active scalars x, y and a plain number k, under the precondition pre */
#define EXPR(name, pre, e) \
    struct name { template<class P> static void on(P& r, P& x, P& y, const S& k) { PV_USING; (void)k; e; } static B ok(const S& x, const S& y, const S& k) { PV_USING; return pre; } static constexpr const char* text = #e; };
template<class T, class E> void agree(bool x_empty = false, bool y_empty = false) {
    Jet jx, jy, jr = con(S(0.0)); T x = Make<T>::get("x", jx), y = Make<T>::get("y", jy), r = T(S(0.0)); const S k = input("k");
    auto empty = [](auto& t, Jet& j) { j = con(j.v); t.derivatives().resize(0); };
    if constexpr (std::is_same<T, Dyn>::value) { if (x_empty) empty(x, jx); if (y_empty) empty(y, jy); }
    facts(jx.v); facts(jy.v); require(E::ok(jx.v, jy.v, k));
    E::on(r, x, y, k); E::on(jr, jx, jy, k);
    std::string l = E::text; if (x_empty) l += ", x without derivatives"; if (y_empty) l += ", y without derivatives";
    Make<T>::check(l, r, jr); Make<T>::check(l + ": x afterwards", x, jx); Make<T>::check(l + ": y afterwards", y, jy);
}
template<class T, class... E> void each(bool xe = false, bool ye = false) { using Fn = void (*)(bool, bool); static const Fn f[] = {&agree<T, E>...}; f[choose("expression", sizeof...(E))](xe, ye); }
#define NZ(t) negate(eq(t, S(0.0)))
EXPR(add, truth(true), r = x + y) EXPR(sub, truth(true), r = x - y) EXPR(mul, truth(true), r = x * y) EXPR(div_, NZ(y), r = x / y) EXPR(neg, truth(true), r = -x)
EXPR(addk, truth(true), r = x + k) EXPR(kadd, truth(true), r = k + x) EXPR(subk, truth(true), r = x - k) EXPR(ksub, truth(true), r = k - x)
EXPR(mulk, truth(true), r = x * k) EXPR(kmul, truth(true), r = k * x) EXPR(divk, NZ(k), r = x / k) EXPR(kdiv, NZ(x), r = k / x)
EXPR(iadd, truth(true), r = x; r += y) EXPR(isub, truth(true), r = x; r -= y) EXPR(imul, truth(true), r = x; r *= y) EXPR(idiv, NZ(y), r = x; r /= y)
EXPR(iaddk, truth(true), r = x; r += k) EXPR(isubk, truth(true), r = x; r -= k) EXPR(imulk, truth(true), r = x; r *= k) EXPR(idivk, NZ(k), r = x; r /= k)
EXPR(self_add, truth(true), r = x; r += r) EXPR(self_mul, truth(true), r = x; r *= r) EXPR(self_sub, truth(true), r = y; r -= r) EXPR(self_div, NZ(y), r = y; r /= r) EXPR(same_var, NZ(x), r = x * x - x / x + x)
EXPR(f_sin, truth(true), r = sin(x)) EXPR(f_cos, truth(true), r = cos(x)) EXPR(f_tan, NZ(cos(x)), r = tan(x)) EXPR(f_exp, truth(true), r = exp(x)) EXPR(f_log, lt(S(0.0), x), r = log(x)) EXPR(f_sqrt, lt(S(0.0), x), r = sqrt(x))
EXPR(f_sinh, truth(true), r = sinh(x)) EXPR(f_cosh, truth(true), r = cosh(x)) EXPR(f_tanh, truth(true), r = tanh(x)) EXPR(f_asin, both(lt(S(-1.0), x), lt(x, S(1.0))), r = asin(x)) EXPR(f_acos, both(lt(S(-1.0), x), lt(x, S(1.0))), r = acos(x))
EXPR(f_abs, NZ(x), r = abs(x)) EXPR(f_abs2, truth(true), r = abs2(x)) EXPR(f_floor, negate(eq(floor(x), x)), r = floor(x)) EXPR(f_atan2, NZ(x * x + y * y), r = atan2(x, y))
EXPR(f_pow3, truth(true), r = pow(x, S(3.0))) EXPR(f_pow1, truth(true), r = pow(x, S(1.0))) EXPR(f_powm2, NZ(x), r = pow(x, S(-2.0))) EXPR(f_powk, lt(S(0.1), x), r = pow(x, k))
EXPR(f_min, NZ(x - y), r = min(x, y)) EXPR(f_max, NZ(x - y), r = max(x, y)) EXPR(f_mink, NZ(x - k), r = min(x, k)) EXPR(f_maxk, NZ(x - k), r = max(x, k)) EXPR(f_kmin, NZ(x - k), r = min(k, x)) EXPR(f_kmax, NZ(x - k), r = max(k, x))
#define CODE6(a, b) ((a < b) ? 1 : 0) + ((a <= b) ? 2 : 0) + ((a > b) ? 4 : 0) + ((a >= b) ? 8 : 0) + ((a == b) ? 16 : 0) + ((a != b) ? 32 : 0)
EXPR(compare, truth(true), r = x + S(CODE6(x, y))) EXPR(comparek, truth(true), r = x + S(CODE6(x, k))) EXPR(kcompare, truth(true), r = x + S(CODE6(k, x)))
EXPR(c1, NZ(y * y + k), r = (x * y + sin(x)) / (y * y + k)) EXPR(c2, truth(true), r = (x + k) * (y - k) - (-x) * S(2.0) + S(3.0) * y) EXPR(c3, lt(S(0.0), x), r = exp(x * y) * log(x) - sqrt(x) / x)
EXPR(c4, truth(true), r = x * y; r = r + r * x; r -= S(1.0) - r * y) EXPR(c5, truth(true), r = sin(x * y + k) * cos(x - y)) EXPR(c6, both(NZ(y), NZ(k)), r = S(1.0) / y - x / k + (S(2.0) - x) * (x - S(2.0)))
EXPR(c7, truth(true), x *= y; y = x - y; r = x * y)
#define ARITH add, sub, mul, div_, neg, addk, kadd, subk, ksub, mulk, kmul, divk, kdiv
#define COMPOUND iadd, isub, imul, idiv, iaddk, isubk, imulk, idivk, self_add, self_mul, self_sub, self_div, same_var
#define FUNCS f_sin, f_cos, f_tan, f_exp, f_log, f_sqrt, f_sinh, f_cosh, f_tanh, f_asin, f_acos, f_abs, f_abs2, f_floor
