// Sequences of operations that must obey the laws of integer arithmetic.
#include "vp.h"

// tape: law a b c     out: numbers (see props/c27.py), then truth values
template <class N> static void chain() {
    int law = (int)vp_in();
    N a, b, c;
    vp_rd(a);
    vp_rd(b);
    vp_rd(c);
    if (law == 0) { N x = (a + b) - b; vp_wr(x); vp_out(x == a); }
    if (law == 1) { N x = (a - b) + b; vp_wr(x); vp_out(x == a); }
    if (law == 2) { N x = a - b; N y = b - a; vp_wr(x); vp_wr(y); N z = x + y; vp_out(z == N(BN_POS, {})); }
    if (law == 3) { N x = a - a; vp_wr(x); vp_out(x == N(BN_POS, {})); }
    if (law == 4) { N x = (a + b) + c; N y = a + (b + c); vp_wr(x); vp_wr(y); vp_out(x == y); }
    if (law == 5) { N x = a + b; N y = b + a; vp_wr(x); vp_wr(y); vp_out(x == y); }
    if (law == 6) { N x = a * b; N y = b * a; vp_wr(x); vp_wr(y); vp_out(x == y); }
    if (law == 7) { N x = a * (b + c); N y = a * b + a * c; vp_wr(x); vp_wr(y); vp_out(x == y); }
    if (law == 8) { N x = (a * b) / b; vp_wr(x); vp_out(x == a); }
    if (law == 9) { N q = a / b; N r = a - q * b; vp_wr(q); vp_wr(r); }
    if (law == 10) { N x = a; x += b; x -= c; x += c; x -= b; vp_wr(x); vp_out(x == a); }
    if (law == 11) { N x = (a * b) * c; N y = a * (b * c); vp_wr(x); vp_wr(y); vp_out(x == y); }
    if (law == 12) { N x = a; for (int i = 0; i < 4; ++i) x += b; for (int i = 0; i < 4; ++i) x -= b; vp_wr(x); vp_out(x == a); }
    if (law == 13) { N x = a + b; vp_out(x > a); vp_out(b > N(BN_POS, {})); vp_wr(x); }
    vp_wr(a);
    vp_wr(b);
    vp_wr(c);
}

#define E(k, N) extern "C" void vp_chain_##k() { chain<N>(); }
VP_KINDS(E)
