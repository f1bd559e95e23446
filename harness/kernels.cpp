// The digit-container kernels called directly.
#include "vp.h"

template <class N> struct lim;
template <class L, class C> struct lim<Bignum<L, C> > { typedef L type; };

// tape: which a b    which 0 transform-based 1 schoolbook     out: product, a, b
template <class N> static void mul() {
    typedef typename N::container_type C;
    typedef typename lim<N>::type L;
    int which = (int)vp_in();
    C a, b;
    vp_rdc(a);
    vp_rdc(b);
    {
        const C c = which ? mul_naive<L, C>(a, b) : mul_strassen<L, C>(a, b);
        vp_wrc(c);
    }
    vp_wrc(a);
    vp_wrc(b);
}

// tape: a b    out: 0 nothing thrown 1 BNUnderflow 2 something else, then a and b
template <class N> static void sub() {
    typedef typename N::container_type C;
    typedef typename lim<N>::type L;
    C a, b;
    vp_rdc(a);
    vp_rdc(b);
    uint64_t how = 0;
    try { abs_val_sub<L, C>(a, b); }
    catch (const BNUnderflow&) { how = 1; }
    catch (...) { how = 2; }
    vp_cnt(how);
    vp_wrc(a);
    vp_wrc(b);
}

#define E(k, N) extern "C" void vp_kmul_##k() { mul<N>(); } extern "C" void vp_ksub_##k() { sub<N>(); }
VP_KINDS(E)
