// Digit types: every operator in every operand order.
#include "vp.h"

// tape: group x y
template <class T, class U> static void ints() {
    int group = (int)vp_in();
    const U x = (U)vp_in(), y = (U)vp_in();
    const T a(x), b(y);
#define O(e) vp_out((uint64_t)(U)(e))
#define BIN(op) { \
    O(a op b); O(a op y); O(x op b); \
    T c(x); T& r = (c op##= b); O(c); vp_out(&r == &c); O(b); \
    T d(x); T& s = (d op##= y); O(d); vp_out(&s == &d); \
    U e = x; U& t = (e op##= b); O(e); vp_out(&t == &e); \
    O(a); O(b); }
#define CMP(op) { vp_out(a op b); vp_out(a op y); vp_out(x op b); O(a); O(b); }
    if (group == 0) { BIN(+) BIN(-) BIN(&) BIN(|) BIN(^) }
    if (group == 1) { BIN(/) BIN(%) }
    if (group == 2) { BIN(<<) BIN(>>) }
    if (group == 3) { BIN(*) }
    if (group == 4) {
        { T c(x); O(c++); O(c); }
        { T c(x); O(c--); O(c); }
        { T c(x); T& r = ++c; O(c); vp_out(&r == &c); }
        { T c(x); T& r = --c; O(c); vp_out(&r == &c); }
        O(!a); O(+a); O(-a); O(~a); O(a);
    }
    if (group == 5) { CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=) }
    if (group == 6) {
        T z;
        O(z);
        T c(a); O(c); O(a);
        T d(std::move(c)); O(d);
        U l = y;
        T e(l); O(e);
        T f((U)(x)); O(f);
        T& r1 = (e = a); O(e); vp_out(&r1 == &e); O(a);
        T g(y);
        T& r2 = (e = std::move(g)); O(e); vp_out(&r2 == &e);
        l = x;
        T& r3 = (d = l); O(d); vp_out(&r3 == &d); vp_out((uint64_t)l);
        T& r4 = (d = (U)(y)); O(d); vp_out(&r4 == &d);
        T& self = d;
        d = self; O(d);
        U back = d; vp_out((uint64_t)back);
        d.num = x; O(d);
        e = d; d = b; O(e); O(d);
    }
}

#define E(k, T, U) extern "C" void vp_ints_##k() { ints<T, U>(); }
E(uint8, bn_uint8, BN_UINT8)
E(uint16, bn_uint16, BN_UINT16)
E(uint32, bn_uint32, BN_UINT32)
E(base2_single, bn_base2_single, BN_UINT8)
E(base2_double, bn_base2_double, BN_UINT16)
E(base8_single, bn_base8_single, BN_UINT16)
E(base8_double, bn_base8_double, BN_UINT32)
E(base10_single, bn_base10_single, BN_UINT32)
E(base10_double, bn_base10_double, BN_UINT64)
E(base16_single, bn_base16_single, BN_UINT32)
E(base16_double, bn_base16_double, BN_UINT64)
