// a op b and a op= b on two numbers; also comparisons.
#include "vp.h"

// tape: op form a b     op 0 + 1 - 2 * 3 /    form 0 binary, 1 assigning, 2 binary aliased (b = a), 3 assigning aliased
// out:  result, a, b, returned-reference-is-a
template <class N> static void bin() {
    int op = (int)vp_in(), form = (int)vp_in();
    N a, b;
    vp_rd(a);
    vp_rd(b);
    if (form == 0 || form == 2) {
        const N& x = a;
        const N& y = form == 2 ? a : b;
        if (op == 0) { N c = x + y; vp_wr(c); }
        if (op == 1) { N c = x - y; vp_wr(c); }
        if (op == 2) { N c = x * y; vp_wr(c); }
        if (op == 3) { N c = x / y; vp_wr(c); }
        vp_wr(a);
        vp_wr(b);
        vp_out(1);
    }
    else {
        N& y = form == 3 ? a : b;
        N* r = 0;
        if (op == 0) r = &(a += y);
        if (op == 1) r = &(a -= y);
        if (op == 2) r = &(a *= y);
        if (op == 3) r = &(a /= y);
        vp_wr(a);
        vp_wr(a);
        vp_wr(b);
        vp_out(r == &a);
    }
}

// tape: a b   out: < <= > >= == !=
template <class N> static void cmp() {
    int form = (int)vp_in();
    N a, b;
    vp_rd(a);
    vp_rd(b);
    const N& y = form ? a : b;
    vp_out(a < y);
    vp_out(a <= y);
    vp_out(a > y);
    vp_out(a >= y);
    vp_out(a == y);
    vp_out(a != y);
}

#define E(k, N) extern "C" void vp_bin_##k() { bin<N>(); } extern "C" void vp_cmp_##k() { cmp<N>(); }
VP_KINDS(E)
