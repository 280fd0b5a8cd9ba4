// helpers shared by the polynomial harnesses
#pragma once
#include "pv.hpp"
using namespace pv;
/** polynomial with arbitrary coefficients */
struct Poly {
    std::vector<S> c;
    S operator()(const S& x) const { S r(0.0); for (size_t i = c.size(); i-- > 0;) r = r * x + c[i]; return r; }
    Poly d() const { Poly r; for (size_t i = 1; i < c.size(); ++i) r.c.push_back(S((double)i) * c[i]); if (r.c.empty()) r.c.push_back(S(0.0)); return r; }
    S integral(const S& a, const S& b) const { S r(0.0); for (size_t i = 0; i < c.size(); ++i) { S pa(1.0), pb(1.0); for (size_t k = 0; k <= i; ++k) { pa = pa * a; pb = pb * b; } r = r + c[i] * (pb - pa) / S((double)i + 1); } return r; }
};
static Poly poly(int degree, const char* n = "c") { Poly p; for (int i = 0; i <= degree; ++i) p.c.push_back(input(idx(n, i))); return p; }
static Poly g_poly;
struct Integrand { S operator()(const S& x) const { return g_poly(x); } };
template<template<int> class F, int first, int... n> void pick_order(std::integer_sequence<int, n...>) { using Fn = void (*)(); static const Fn f[] = {&F<n + first>::run...}; f[choose("order", sizeof...(n))](); }
