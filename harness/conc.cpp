// Two pieces of work that two threads could do at the same time: on numbers both read, or each on its own.
#include "vp.h"
#include "bignum/fourier.h"

template <class N> struct lim;
template <class L, class C> struct lim<Bignum<L, C> > { typedef L type; };

template <class N> struct Job {
    const N* x;
    const N* y;
    N r;
    typename N::container_type c;
    int op;
    uint64_t k;
    std::ostream* o;
};

// 0-3 x op y    4-7 r = x, r op= y    8 comparisons    9 copies    10 const access    11 printing
// 12 mul_naive    13 mul_strassen    14 the kernels in place on copies    15 a runtime assertion that holds    16 an infinite result
template <class N> static void work(void* p) {
    typedef typename lim<N>::type L;
    typedef typename N::container_type C;
    Job<N>& j = *(Job<N>*)p;
    const N& x = *j.x;
    const N& y = *j.y;
    switch (j.op) {
        case 0: j.r = x + y; break;
        case 1: j.r = x - y; break;
        case 2: j.r = x * y; break;
        case 3: j.r = x / y; break;
        case 4: j.r = x; j.r += y; break;
        case 5: j.r = x; j.r -= y; break;
        case 6: j.r = x; j.r *= y; break;
        case 7: j.r = x; j.r /= y; break;
        case 8: j.k = (x < y) + 2 * (x <= y) + 4 * (x > y) + 8 * (x >= y) + 16 * (x == y) + 32 * (x != y); break;
        case 9: { N t(x); N u(y); u = t; j.r = u; j.r = static_cast<N&&>(t); } break;
        case 10:
            j.k = (int)x.getDescriptor() + 8 * x.isPositive() + 16 * x.isNegative() + 32 * x.isInfinite() + 64 * x.isNan() +
                128 * N::isComputable(y.getDescriptor()) + 256 * (x.getData().size() == x.size());
            for (uint64_t i = 0; i < x.size(); ++i) j.k = 3 * j.k + vp_num<typename N::bn_single>::get(x[i]);
            break;
        case 11: *j.o << x; break;
        case 12: j.c = mul_naive<L, C>(x.getData(), y.getData()); break;
        case 13: j.c = mul_strassen<L, C>(x.getData(), y.getData()); break;
        case 14: {
            C t(x.getData());
            abs_val_add<L, C>(t, y.getData());
            abs_val_sub<L, C>(t, y.getData());
            j.k = abs_val_is_gt<C>(t, y.getData()) + 2 * abs_val_is_eq<C>(t, y.getData());
            j.c = t;
        } break;
        case 15: bn_runtime_assert(x.getData().size() < 100000, BN_ERROR, "x"); break;
        default: { N z; j.r = x / z; } break;
    }
}

// tape: op1 op2 own a b [c d when own]     out: what the jobs computed, something shared was written, a, b
template <class N> static void both() {
    Job<N> u, v;
    u.op = (int)vp_in();
    v.op = (int)vp_in();
    int own = (int)vp_in();
    N a, b, c, d;
    vp_rd(a);
    vp_rd(b);
    if (own) {
        vp_rd(c);
        vp_rd(d);
    }
    u.x = &a;
    u.y = &b;
    v.x = own ? &c : &a;
    v.y = own ? &d : &b;
    u.k = v.k = 0;
    u.o = v.o = vp_stream();
    vp_share(&a);
    vp_share(&b);
    if (a.getData().size()) vp_share(a.getData().data());
    if (b.getData().size()) vp_share(b.getData().data());
    vp_watch(1);
    vp_both(work<N>, &u, &v);
    uint64_t hit = vp_watch(0);
    vp_wr(u.r);
    vp_wr(v.r);
    vp_wrc(u.c);
    vp_wrc(v.c);
    vp_out(u.k);
    vp_out(v.k);
    vp_stream_out(0);
    vp_out(hit);
    vp_wr(a);
    vp_wr(b);
}

#define E(k, N) extern "C" void vp_both_##k() { both<N>(); }
VP_KINDS(E)
