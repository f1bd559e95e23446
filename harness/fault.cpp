// Allocation failures.
#include "vp.h"

// tape: k op form a b     allocation number k fails     form 0 binary 1 assigning
// out: 0 nothing thrown 1 bad_alloc 2 something else, then the result (if nothing was thrown), a, b
template <class N> static void fault() {
    uint64_t k = vp_in();
    int op = (int)vp_in(), form = (int)vp_in();
    N a, b;
    vp_rd(a);
    vp_rd(b);
    uint64_t how = 0;
    vp_arm(k);
    try {
        if (form == 0) {
            const N& x = a;
            const N& y = b;
            if (op == 0) { N c = x + y; vp_disarm(); vp_wr(c); }
            if (op == 1) { N c = x - y; vp_disarm(); vp_wr(c); }
            if (op == 2) { N c = x * y; vp_disarm(); vp_wr(c); }
            if (op == 3) { N c = x / y; vp_disarm(); vp_wr(c); }
        }
        else {
            if (op == 0) a += b;
            if (op == 1) a -= b;
            if (op == 2) a *= b;
            if (op == 3) a /= b;
        }
    }
    catch (const std::bad_alloc&) { how = 1; }
    catch (...) { how = 2; }
    vp_disarm();
    vp_cnt(how);
    vp_wr(a);
    vp_wr(b);
}

#define E(k, N) extern "C" void vp_fault_##k() { fault<N>(); }
VP_KINDS(E)
