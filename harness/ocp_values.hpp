// Contracts of the transcription itself: values of cost and constraints, collocation times, composite differentiation matrix.
#pragma once
#include "ocp_common.hpp"

template<class P> struct Values : Evaluator<P> {
    using E = Evaluator<P>; using E::problem; using E::NN; using E::NX;
    template<class Q> void matrix(const Q& q, std::true_type) { for (int r = 0; r < NX * NN; ++r) for (int c = 0; c < NX * NN; ++c) ensure("composite differentiation matrix " + idx("", r, c), eq(entry(q.m_DiffMat, r, c), this->deq(r, c))); }
    template<class Q> void matrix(const Q&, std::false_type) {}
    void state(const std::string& l) { for (int k = 0; k < NN; ++k) ensure(l + ": collocation time " + std::to_string(k), eq(S(problem.time_nodes(k)), this->time(k)));
        matrix(problem, std::integral_constant<bool, (bool)E::sparse>()); }
};
/** default horizon, then two other horizons */
template<class P> void values() {
    static Values<P>* v; v = new Values<P>;
    ensure("decision variables", (int)P::VAR_SIZE == (P::NX + P::NU) * P::NUM_NODES + P::NP && (int)P::NUM_EQ == P::NX * P::NUM_NODES && (int)P::NUM_INEQ == P::NG * P::NUM_NODES && (int)P::DUAL_SIZE == P::NUM_EQ + P::NUM_INEQ + P::VAR_SIZE);
    for (const char* t : {"", "second ", "third "}) {
        v->at(t, *t != 0); v->state(*t ? "horizon set" : "default horizon");
        for (int k = 0; k < v->values_only; ++k) v->call(k, true);
        v->state("after evaluation");
    }
}
