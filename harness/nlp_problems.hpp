// User-defined nonlinear programs with arbitrary smooth functions, derived from the real ProblemBase.
#pragma once
#include "uf_ad.hpp"
#include "solvers/nlproblem.hpp"

#define PROBLEM(NAME, NX_, NE_, NI_, NP_, COST) \
    POLYMPC_FORWARD_NLP_DECLARATION(NAME, NX_, NE_, NI_, NP_, S) \
    class NAME : public ProblemBase<NAME> { public: \
        static constexpr bool has_cost = COST; \
        template<class T> void put(const char* n, const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, T& r) const { r = smooth<T>(n, vec_of(x), vec_of(p)); } \
        USER_COST_##COST \
        template<class T> void equality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<eq_constraint_t<T>> c) const noexcept \
            { for (int i = 0; i < NE_; ++i) put<T>(idx("c", i).c_str(), x, p, c(i)); } \
        template<class T> void inequality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<ineq_constraint_t<T>> g) const noexcept \
            { for (int i = 0; i < NI_; ++i) put<T>(idx("g", i).c_str(), x, p, g(i)); } \
    };
#define USER_COST_1 template<class T> void cost_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, T& cost) const noexcept { put<T>("f", x, p, cost); }
#define USER_COST_0

