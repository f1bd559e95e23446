// Stream output, runtime assertions, power-of-two helpers.
#include "vp.h"
#include "bignum/fourier.h"

// tape: number    out: text, stream returned is the stream, the number; then two numbers in a row
template <class N> static void show() {
    N x;
    vp_rd(x);
    std::ostream& o = *vp_stream();
    std::ostream& r = (o << x);
    vp_stream_out(0);
    vp_out(&r == &o);
    vp_wr(x);
    o << x << x;
    vp_stream_out(0);
}
// a digit by itself
template <class N> static void showDigit() {
    typedef typename N::bn_single S;
    S d = vp_num<S>::mk(vp_in());
    std::ostream& o = *vp_stream();
    o << d;
    vp_stream_out(0);
}

#define E(k, N) extern "C" void vp_show_##k() { show<N>(); }
VP_KINDS(E)
#define D(k, N) extern "C" void vp_digit_##k() { showDigit<N>(); }
D(base8, bignum_base8)
D(base10, bignum_base10)
D(base16, bignum_base16)

// tape: condition severity message-number      out: 0 / 1 thrown / 2 something else, code, text on cout, text on cerr
static const char* const messages[] = { "", "x", "the message", "line one\nline two" };
extern "C" void vp_assertion() {
    bool cond = vp_in() != 0;
    bn_error_t e = (bn_error_t)(int)vp_in();
    const char* m = messages[vp_in()];
    uint64_t how = 0, code = 0;
    try { bn_runtime_assert(cond, e, m); }
    catch (bn_error_t t) { how = 1; code = (uint64_t)(int)t; }
    catch (...) { how = 2; }
    vp_out(how);
    vp_out(code);
    vp_stream_out(1);
    vp_stream_out(2);
}
// tape: condition severity n characters     out: as above
extern "C" void vp_assertion_text() {
    bool cond = vp_in() != 0;
    bn_error_t e = (bn_error_t)(int)vp_in();
    uint64_t n = vp_in();
    char m[1100];
    for (uint64_t i = 0; i < n; ++i) m[i] = (char)vp_in();
    m[n] = 0;
    uint64_t how = 0, code = 0;
    try { bn_runtime_assert(cond, e, m); }
    catch (bn_error_t t) { how = 1; code = (uint64_t)(int)t; }
    catch (...) { how = 2; }
    vp_out(how);
    vp_out(code);
    vp_stream_out(1);
    vp_stream_out(2);
}
// the macros: tape: macro value
extern "C" void vp_macros() {
    int which = (int)vp_in();
    uint64_t v = vp_in();
    uint64_t how = 0, code = 0;
    try {
        if (which == 0) { BN_ASSERT(v > 2); }
        else if (which == 1) { BN_WARN(v > 2); }
        else { BN_ALERT(v > 2); }
    }
    catch (bn_error_t t) { how = 1; code = (uint64_t)(int)t; }
    catch (...) { how = 2; }
    vp_out(how);
    vp_out(code);
    vp_stream_out(1);
    vp_stream_out(2);
}

// tape: n     out: isPow2, nextPow2
template <class T> static void pow2() {
    T n = (T)vp_in();
    vp_out(isPow2<T>(n));
    vp_out((uint64_t)nextPow2<T>(n));
}
extern "C" void vp_pow2_8() { pow2<uint8_t>(); }
extern "C" void vp_pow2_16() { pow2<uint16_t>(); }
extern "C" void vp_pow2_32() { pow2<uint32_t>(); }
extern "C" void vp_pow2_64() { pow2<uint64_t>(); }
