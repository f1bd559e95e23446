// Stream input and output of digit types.
#include "vp.h"

typedef BNIntType<BN_UINT64, 64> d64;
#define DIGITS(F) F(base2, bn_base2_single) F(base8, bn_base8_single) F(base10, bn_base10_single) F(base16, bn_base16_single) F(u64, d64)

// tape: previous value, text    out: stream returned, eof, fail, the value; again
template <class S> static void readDigit() {
    S d = vp_num<S>::mk(vp_in()), e = d;
    std::istream& i = *vp_istream();
    std::istream& r = (i >> d);
    vp_out(&r == &i);
    vp_out(i.eof());
    vp_out(i.fail());
    vp_out(vp_num<S>::get(d));
    i >> e;
    vp_out(i.fail());
    vp_out(vp_num<S>::get(e));
}
// tape: value    out: text, stream returned, value
template <class S> static void writeDigit() {
    S d = vp_num<S>::mk(vp_in());
    const S& c = d;
    std::ostream& o = *vp_stream();
    std::ostream& r = (o << c);
    vp_stream_out(0);
    vp_out(&r == &o);
    vp_out(vp_num<S>::get(d));
}
#define D(k, S) extern "C" void vp_read_##k() { readDigit<S>(); } extern "C" void vp_write_##k() { writeDigit<S>(); }
DIGITS(D)
