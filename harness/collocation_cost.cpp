#include "collocation_common.hpp"
#define COST(NAME, NX, NU, NP, PO, SEG, NY) \
    PV_CASE(cost_##NAME, "NX=" #NX " NU=" #NU " NP=" #NP ", order " #PO ", segments: " #SEG) { using Sp = Colloc<NX, NU, NP, PO, SEG>; static Sp* s; s = new Sp; using L = Stage<NX, NU, NP>; using M = Final<NX, NU, NP>; using C = polympc::cost_collocation<L, M, Basis<PO>, SEG>; \
        const bool given = choose("functors given", 2); s->k = given ? input("k") : S(0.0); static C* c; c = given ? new C(s->functor<L>(), s->functor<M>()) : new C(); s->costs(*c); } \
    PV_CASE(path_##NAME, "NX=" #NX " NU=" #NU " NP=" #NP ", order " #PO ", segments: " #SEG ", constraints: " #NY) { using Sp = Colloc<NX, NU, NP, PO, SEG>; static Sp* s; s = new Sp; s->k = input("k"); s->paths<NY>(); }
COST(a, 2, 1, 1, 2, 2, 2)
COST(b, 1, 2, 0, 3, 1, 1)
COST(c, 1, 1, 2, 1, 3, 3)
