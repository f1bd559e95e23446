// Interface between the harnesses and the two ways of running them: the
// symbolic executor (vp/exec.py provides these functions) and a native binary
// (native.cpp provides them), which replays one tape of inputs.
#ifndef VP_H
#define VP_H
#include <cstdint>
#include <cstddef>
#include <iostream>
#include <new>
#include <utility>
#include "bignum/bignum.h"

extern "C" {
uint64_t vp_in();                  // next input
double vp_fin();                   // next floating-point input
void vp_out(uint64_t);             // an observation
void vp_cnt(uint64_t);             // the same; the executor splits the path until the value is a constant
void vp_fout(double);
void vp_assume(int);               // end this path quietly unless the condition holds
std::ostream* vp_stream();         // a stream whose text is observed by vp_stream_out(0)
std::istream* vp_istream();         // a stream of the characters on the tape: length, then characters
void vp_stream_out(int which);     // observe and clear: 0 vp_stream, 1 standard output, 2 standard error
void vp_arm(uint64_t k);           // let allocation number k from here fail
void vp_disarm();
void vp_share(const void* p);      // several threads see the object at p
uint64_t vp_watch(int on);         // from 1 to 0: did the code write anything several threads see?
#ifdef VP_NATIVE
void vp_both(void (*f)(void*), void* a, void* b);  // f(a) and f(b), in two threads when built with the thread sanitizer
#endif
}
#ifndef VP_NATIVE
static inline void vp_both(void (*f)(void*), void* a, void* b) { f(a); f(b); }
#endif

template <class T> struct vp_num { static T mk(uint64_t v) { return (T)v; } static uint64_t get(const T& t) { return (uint64_t)t; } };
template <class B, BN_UINT64 I> struct vp_num<BNIntType<B, I> > {
    static BNIntType<B, I> mk(uint64_t v) { return BNIntType<B, I>((B)v); }
    static uint64_t get(const BNIntType<B, I>& t) { return (uint64_t)(B)t; }
};

// fill a container with the digits on the tape: length, then digits from the least significant
template <class C> void vp_rdc(C& c) {
    uint64_t n = vp_in();
    c.resize(n);
    for (uint64_t i = 0; i < n; ++i) c[i] = vp_num<typename C::value_type>::mk(vp_in());
}
template <class C> void vp_wrc(const C& c) {
    uint64_t n = c.size();
    vp_cnt(n);
    for (uint64_t i = 0; i < n; ++i) vp_out(vp_num<typename C::value_type>::get(c[i]));
}
// a number: descriptor, then its digits
template <class N> void vp_rd(N& n) {
    int d = (int)vp_in();
    n.setDescriptor((bn_desc_t)d);
    vp_rdc(const_cast<typename N::container_type&>(n.getData()));
}
template <class N> void vp_wr(const N& n) {
    vp_cnt((uint64_t)(int)n.getDescriptor());
    vp_wrc(n.getData());
}

#define VP_KINDS(F) F(lowp, bignum_lowp) F(medp, bignum_medp) F(highp, bignum_highp) \
    F(base2, bignum_base2) F(base8, bignum_base8) F(base10, bignum_base10) F(base16, bignum_base16)
#endif
