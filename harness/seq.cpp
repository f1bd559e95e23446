// The same operation before and after other operations, into fresh, reused and moved-from objects.
#include "vp.h"

template <class N> static N bin(int op, const N& a, const N& b) {
    switch (op) {
        case 0: return a + b;
        case 1: return a - b;
        case 2: return a * b;
        default: return a / b;
    }
}
template <class N> static N& asg(int op, N& a, const N& b) {
    switch (op) {
        case 0: return a += b;
        case 1: return a -= b;
        case 2: return a *= b;
        default: return a /= b;
    }
}
// 0-3 arithmetic, 4 comparisons, 5 printing, 6 a failing subscript, 7 an allocation failure, 8 editing, 9 an operation on
// non-finite numbers, 16 and more an interrupted operation
template <class N> static void middle(int mid, const N& c, const N& d) {
    typedef vp_num<typename N::bn_single> M;
    if (mid < 4) {
        N m = bin<N>(mid, c, d);
        vp_wr(m);
        return;
    }
    if (mid == 4) {
        bool t = (c < d) ^ (c <= d) ^ (c > d) ^ (c >= d) ^ (c == d) ^ (c != d);
        vp_out(t);
    }
    if (mid == 5) {
        std::ostream& o = *vp_stream();
        o << c << d;
        vp_stream_out(0);
    }
    if (mid == 6) {
        int how = 0;
        try { (void)c[c.size() + 3]; } catch (bn_error_t) { how = 1; }
        vp_out(how);
        vp_stream_out(2);
    }
    if (mid == 7) {
        int how = 0;
        N m;
        vp_arm(0);
        try { m = c * d; } catch (...) { how = 1; }
        vp_disarm();
        (void)how;
    }
    if (mid >= 16) {
        // an operation interrupted at its k-th allocation: 16 + 4 k + operation
        N m;
        vp_arm((mid - 16) / 4);
        try { m = bin<N>(mid % 4, c, d); } catch (...) {}
        vp_disarm();
    }
    if (mid == 8) {
        N m = c;
        m.push_front(M::mk(1));
        m.push_back(M::mk(1));
        m.pop(0);
        m.resize(9);
        m.clear();
        vp_wr(m);
    }
    if (mid == 9) {
        N inf;
        inf.setDescriptor(BN_NEG_INF);
        N nan;
        nan.setDescriptor(BN_NAN);
        N x = inf + c, y = nan * d, z = c / inf, w = inf * d;
        vp_wr(x);
        vp_wr(y);
        vp_wr(z);
        vp_wr(w);
    }
}

// tape: op mid a b c d
// out: a op b, the middle, a op b, the middle, a op b into a used object, into a moved-from object, after a failure, a, b, c, d
template <class N> static void seq() {
    int op = (int)vp_in(), mid = (int)vp_in();
    N a, b, c, d;
    vp_rd(a);
    vp_rd(b);
    vp_rd(c);
    vp_rd(d);
    { N x = bin<N>(op, a, b); vp_wr(x); }
    middle(mid, c, d);
    { N x = bin<N>(op, a, b); vp_wr(x); }
    middle(mid, c, d);
    {
        N x = c;
        x = bin<N>(op, a, b);
        vp_wr(x);
    }
    {
        N x = d;
        x += c;
        N y(std::move(x));
        x = a;
        asg<N>(op, x, b);
        vp_wr(x);
    }
    {
        N x(BN_NEG_INF, {});
        x = a;
        N& r = asg<N>(op, x, b);
        vp_wr(r);
    }
    vp_wr(a);
    vp_wr(b);
    vp_wr(c);
    vp_wr(d);
}

#define E(k, N) extern "C" void vp_seq_##k() { seq<N>(); }
VP_KINDS(E)
