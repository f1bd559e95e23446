// The binary and the assigning form of an operation side by side; aliased operands against equal copies.
#include "vp.h"

template <class N> static N bin(int op, const N& a, const N& b) {
    switch (op) {
        case 0: return a + b;
        case 1: return a - b;
        case 2: return a * b;
        default: return a / b;
    }
}
template <class N> static N& asg(int op, N& a, const N& b) {
    switch (op) {
        case 0: return a += b;
        case 1: return a -= b;
        case 2: return a *= b;
        default: return a /= b;
    }
}

// tape: op a b     out: a op b, a, b, then x = a; x op= b: x, b, reference is x
template <class N> static void forms() {
    int op = (int)vp_in();
    N a, b;
    vp_rd(a);
    vp_rd(b);
    {
        N c = bin<N>(op, a, b);
        vp_wr(c);
        vp_wr(a);
        vp_wr(b);
    }
    N x = a;
    N& r = asg<N>(op, x, b);
    vp_wr(x);
    vp_wr(b);
    vp_out(&r == &x);
}

// tape: op a   out: a op copy, copy, a op a, a, then x = a; x op= x: x, reference is x
template <class N> static void alias() {
    int op = (int)vp_in();
    N a;
    vp_rd(a);
    N copy = a;
    { N c = bin<N>(op, a, copy); vp_wr(c); }
    vp_wr(copy);
    { N c = bin<N>(op, a, a); vp_wr(c); }
    vp_wr(a);
    N x = a;
    N& r = asg<N>(op, x, x);
    vp_wr(x);
    vp_out(&r == &x);
}

#define E(k, N) extern "C" void vp_forms_##k() { forms<N>(); } extern "C" void vp_alias_##k() { alias<N>(); }
VP_KINDS(E)
