// Histories of evaluations shared by the dense and the sparse contracts.
#pragma once
#include "ocp_common.hpp"
/** every evaluation in sequence at one point and horizon, and again in the opposite order at another one */
template<class P> void sequence() {
    static Evaluator<P>* e; e = new Evaluator<P>;
    e->at("earlier "); for (int k = 0; k < e->count; ++k) e->call(k, true);
    e->between(); e->at(""); for (int k = e->count - 1; k >= 0; --k) e->call(k, true);
}
/** any one evaluation on a new object with the default horizon, or after any other one at another point and horizon */
template<class P> void any_two() {
    static Evaluator<P>* e; e = new Evaluator<P>;
    const int n = Evaluator<P>::count, before = choose("evaluated before", n + 1), now = choose("evaluated now", n);
    if (before < n) { e->at("earlier "); e->call(before, false); e->between(); }
    e->at("", before < n); e->call(now, true);
}
