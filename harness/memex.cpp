// Memory that runs out while numbers are built, copied and edited.
#include "vp.h"

// tape: k how position digit a p      allocation number k fails
// how: 0 copy construct 1 copy assign over p 2 move construct 3 move assign over p 4-10 edit a: push_front push_back push pop resize clear
//      write    11 construct from a's digits    12 setDescriptor(NaN)   13 pop_front   14 pop_back   15 convert: const access
// out: 0 done 1 bad_alloc 2 something else thrown, source a (0-3, 11), the target if there is one, then p assigned and used again
template <class N> static void memex() {
    typedef vp_num<typename N::bn_single> M;
    uint64_t k = vp_in();
    int how = (int)vp_in();
    uint64_t pos = vp_in();
    typename N::bn_single d = M::mk(vp_in());
    N a, p;
    vp_rd(a);
    vp_rd(p);
    const N copy = a;
    const N& ca = a;
    uint64_t r = 0;
    const bn_desc_t desc = a.getDescriptor();
    const uint64_t n = a.getData().size();
    typename N::bn_single v[4];
    for (uint64_t i = 0; i < 4 && i < n; ++i) v[i] = a.getData()[n - 1 - i];
    N out;
    vp_arm(k);
    try {
        switch (how) {
            case 0: { N t(ca); vp_disarm(); out = t; } break;
            case 1: p = ca; break;
            case 2: { N t(static_cast<N&&>(a)); vp_disarm(); out = t; } break;
            case 3: p = static_cast<N&&>(a); break;
            case 4: a.push_front(d); break;
            case 5: a.push_back(d); break;
            case 6: a.push(d, pos); break;
            case 7: a.pop(pos); break;
            case 8: a.resize(pos, d); break;
            case 9: a.clear(); break;
            case 10: a[pos] = d; break;
            case 11:
                if (n == 0) { N t(desc, {}); vp_disarm(); out = t; }
                if (n == 1) { N t(desc, {v[0]}); vp_disarm(); out = t; }
                if (n == 2) { N t(desc, {v[0], v[1]}); vp_disarm(); out = t; }
                if (n == 3) { N t(desc, {v[0], v[1], v[2]}); vp_disarm(); out = t; }
                break;
            case 12: a.setDescriptor(BN_NAN); break;
            case 13: a.pop_front(); break;
            case 14: a.pop_back(); break;
            default: if (n) d = ca[n - 1]; break;
        }
    }
    catch (const std::bad_alloc&) { r = 1; }
    catch (...) { r = 2; }
    vp_disarm();
    vp_cnt(r);
    if (how != 2 && how != 3) vp_wr(a);
    if (how == 0 || how == 2 || how == 11) vp_wr(out);
    if (how == 1 || how == 3) {
        if (!r) vp_wr(p);
        p = copy;
        vp_wr(p);
    }
    a = copy;
    vp_wr(a);
    a += copy;
    vp_wr(a);
}

#define E(k, N) extern "C" void vp_memex_##k() { memex<N>(); }
VP_KINDS(E)
