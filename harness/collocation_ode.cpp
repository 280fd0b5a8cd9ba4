#include "collocation_common.hpp"
template<int NX, int NU, int NP, int PO, int SEG, template<class, class, int> class O> struct Ode {
    using D = Dyn<NX, NU, NP>; using C = O<D, Basis<PO>, SEG>; Colloc<NX, NU, NP, PO, SEG> spec;
    void dense(bool given) { spec.k = given ? input("k") : S(0.0); static C* c; c = given ? new C(spec.template functor<D>()) : new C(); spec.dense(*c); }
    void sparse(bool given) { spec.k = given ? input("k") : S(0.0); static C* c; c = given ? new C(spec.template functor<D>()) : new C(); spec.sparse(*c); }
};
#define ODE(NAME, NX, NU, NP, PO, SEG) \
    PV_CASE(dense_##NAME, "NX=" #NX " NU=" #NU " NP=" #NP ", order " #PO ", segments: " #SEG) { static Ode<NX, NU, NP, PO, SEG, polympc::ode_collocation>* o; o = new Ode<NX, NU, NP, PO, SEG, polympc::ode_collocation>; o->dense(choose("functor given", 2)); } \
    PV_CASE(sparse_##NAME, "NX=" #NX " NU=" #NU " NP=" #NP ", order " #PO ", segments: " #SEG) { static Ode<NX, NU, NP, PO, SEG, polympc::sparse_ode_collocation>* o; o = new Ode<NX, NU, NP, PO, SEG, polympc::sparse_ode_collocation>; o->sparse(choose("functor given", 2)); }
ODE(a, 2, 1, 1, 2, 2)
ODE(b, 1, 2, 0, 3, 1)
ODE(c, 1, 1, 2, 1, 3)
ODE(d, 2, 2, 1, 3, 2)
