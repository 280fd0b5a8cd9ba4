// Contracts of the line-search filter, checked after every operation of arbitrary sequences of insertions.
#include "pv.hpp"
#include <vector>
#include <list>
#include "solvers/line_search.hpp"
using namespace pv;

struct Pair { S f, c; };
using Filter = LSFilter<S>;
static std::vector<Pair> content(const Filter& f) { std::vector<Pair> r; for (const auto& e : f.m_filter) r.push_back({e.first, e.second}); return r; }
static B dominates(const Pair& a, const Pair& b) { return both(le(a.f, b.f), le(a.c, b.c)); }
static B equal(const Pair& a, const Pair& b) { return both(eq(a.f, b.f), eq(a.c, b.c)); }
static B one_of(const Pair& p, const std::vector<Pair>& v) { B r = truth(false); for (auto& q : v) r = either(r, equal(p, q)); return r; }

static void queries(const Filter& f, const Pair& p, const std::string& at) {
    B acc = truth(true), dom = truth(false);
    for (auto& q : content(f)) {
        const S m = f.beta * q.c;
        acc = both(acc, negate(both(le(q.f - m, p.f), le(q.c - m, p.c)))); dom = either(dom, dominates(q, p));
    }
    ensure("acceptable exactly when no stored pair dominates it within the margins" + at, f.is_acceptable(p.f, p.c) ? acc : negate(acc));
    ensure("dominated exactly when a stored pair dominates it" + at, f.is_dominated(p.f, p.c) ? dom : negate(dom));
}
static void insert(Filter& f, const Pair& p, const std::string& at) {
    const std::vector<Pair> before = content(f);
    f.add(p.f, p.c);
    const std::vector<Pair> after = content(f);
    ensure("contains the added pair" + at, one_of(p, after));
    ensure("at most max_depth entries" + at, (int)after.size() <= f.max_depth);
    int copies = 0;
    for (auto& q : after) {
        const bool is_new = copies == 0 && decide(equal(q, p));
        if (is_new) { ++copies; continue; }
        ensure("keeps no pair dominated by the added one" + at, negate(dominates(p, q)));
        ensure("keeps only pairs that were stored" + at, one_of(q, before));
    }
    int keep = 0; std::vector<Pair> others; for (auto& q : before) if (!decide(dominates(p, q))) { ++keep; others.push_back(q); }
    ensure("drops other pairs only for lack of room" + at, (int)after.size() == std::min(f.max_depth, keep + 1));
    if (keep + 1 <= f.max_depth) for (auto& q : others) ensure("keeps the pairs that are not dominated" + at, one_of(q, after));
}
static void history(int depth, int n, bool accepted_only) {
    Filter f; f.max_depth = depth; f.beta = input("beta", 0, 0.3); require(le(S(0.0), f.beta)); require(lt(f.beta, S(1.0)));
    for (int k = 0; k < n; ++k) {
        Pair p{input(idx("f", k)), input(idx("c", k), 0, 2)}; require(le(S(0.0), p.c));
        const std::string at = ", insertion " + std::to_string(k + 1);
        if (k + 1 == n) queries(f, p, at);
        if (accepted_only && !f.is_acceptable(p.f, p.c)) continue;
        insert(f, p, at);
    }
    if (!accepted_only) { Pair p{input("fq"), input("cq", 0, 2)}; require(le(S(0.0), p.c)); queries(f, p, " at the end"); }
}
PV_CASE(insert_room, "three insertions, room for all") { history(4, 3, false); }
PV_CASE(insert_full1, "depth one, three insertions") { history(1, 3, false); }
PV_CASE(insert_full2, "depth two, four insertions") { history(2, 4, true); }
PV_CASE(insert_full3, "depth three, four insertions") { history(3, 4, true); }
PV_CASE(insert_full2_any, "depth two, three insertions, also of unacceptable pairs") { history(2, 3, false); }
PV_CASE(t_insert_full3_five, "depth three, five insertions") { history(3, 5, true); }
PV_CASE(clear_forgets, "after clear every pair is acceptable and none is dominated") {
    Filter f; Pair a{input("f0"), input("c0")}, b{input("f1"), input("c1")}, p{input("f2"), input("c2")};
    f.add(a.f, a.c); f.add(b.f, b.c); f.clear();
    ensure("empty after clear", content(f).empty()); ensure("acceptable after clear", f.is_acceptable(p.f, p.c)); ensure("not dominated after clear", !f.is_dominated(p.f, p.c));
    insert(f, p, " after clear");
}
PV_CASE(defaults, "default depth and margin") {
    Filter f; ensure("default depth", f.max_depth >= 1); ensure("default margin is nonnegative", le(S(0.0), f.beta));
    for (int k = 0; k < 2; ++k) insert(f, Pair{input(idx("f", k)), input(idx("c", k))}, ", insertion " + std::to_string(k + 1));
    f.remove_one(); ensure("one entry removed", content(f).size() <= 1);
}
