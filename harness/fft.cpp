// The transform, its inverse and the convolution step on lists of complex numbers.
#include "vp.h"

typedef cmplx_list_t<double> list_t;

// tape: which n re im re im ...
// which 0 forward 1 inverse 2 forward then inverse 3 inverse then forward 4 convolution then inverse
// out: length, re im ...
extern "C" void vp_fft() {
    int which = (int)vp_in();
    uint64_t n = vp_in();
    list_t x;
    x.reserve(n);
    for (uint64_t i = 0; i < n; ++i) {
        double re = vp_fin();
        double im = vp_fin();
        x.push_back(std::complex<double>(re, im));
    }
    if (which == 0) fft_complex<double>(x);
    if (which == 1) ifft_complex<double>(x);
    if (which == 2) { fft_complex<double>(x); ifft_complex<double>(x); }
    if (which == 3) { ifft_complex<double>(x); fft_complex<double>(x); }
    if (which == 4) { convolute_fft<double>(x); ifft_complex<double>(x); }
    vp_cnt(x.size());
    for (uint64_t i = 0; i < x.size(); ++i) {
        vp_fout(x[i].real());
        vp_fout(x[i].imag());
    }
}

// tape: a b     out: length, re im ...
template <class N> static void table() {
    typedef typename N::container_type C;
    C a, b;
    vp_rdc(a);
    vp_rdc(b);
    const list_t x = create_fft_table<C, double>(a, b);
    vp_cnt(x.size());
    for (uint64_t i = 0; i < x.size(); ++i) {
        vp_fout(x[i].real());
        vp_fout(x[i].imag());
    }
}

#define E(k, N) extern "C" void vp_table_##k() { table<N>(); }
VP_KINDS(E)
