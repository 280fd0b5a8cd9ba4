// Arbitrary smooth user functions.  A user function is an uninterpreted function of its arguments whose partial derivatives are
// uninterpreted functions again (one per multi-index, symmetric); applied to automatic-differentiation scalars it follows the
// chain rule, which is the contract of AutoDiffScalar proved as P11.
#pragma once
#include "pv.hpp"
#include "autodiff/AutoDiffScalar.h"
#include <algorithm>
using namespace pv;

using Mi = std::vector<int>;
inline Mi with(Mi m, int i) { m.push_back(i); std::sort(m.begin(), m.end()); return m; }
template<class T> struct Smooth;
template<> struct Smooth<S> { static S at(const std::string& n, const Mi& mi, const std::vector<S>& a, const std::vector<S>& plain) {
    std::vector<S> x = a; x.insert(x.end(), plain.begin(), plain.end()); return A::uf(n, mi, x); } };
template<class D> struct Smooth<Eigen::AutoDiffScalar<D>> {
    using T = Eigen::AutoDiffScalar<D>; using I = typename T::Scalar;
    static T at(const std::string& n, const Mi& mi, const std::vector<T>& a, const std::vector<S>& plain) {
        std::vector<I> v; for (auto& x : a) v.push_back(x.value());
        T r; r.value() = Smooth<I>::at(n, mi, v, plain);
        Eigen::Index m = 0; for (auto& x : a) m = std::max<Eigen::Index>(m, x.derivatives().size());
        r.derivatives().resize(m); for (Eigen::Index k = 0; k < m; ++k) r.derivatives()(k) = I(S(0.0));
        for (size_t i = 0; i < a.size(); ++i) {
            if (a[i].derivatives().size() == 0) continue;
            const I d = Smooth<I>::at(n, with(mi, (int)i), v, plain);
            for (Eigen::Index k = 0; k < m; ++k) r.derivatives()(k) = r.derivatives()(k) + d * a[i].derivatives()(k);
        }
        return r;
    }
};
/** the user function `n` at active arguments `a` and plain (parameter) arguments */
template<class T> T smooth(const std::string& n, const std::vector<T>& a, const std::vector<S>& plain = {}) { return Smooth<T>::at(n, {}, a, plain); }
template<class V> auto vec_of(const V& v) { using T = typename V::Scalar; std::vector<T> r; for (int i = 0; i < v.size(); ++i) r.push_back(v(i)); return r; }
