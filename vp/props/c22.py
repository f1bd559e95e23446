"""C22: power-of-two helpers."""
from .common import *


def oracle(w):
    def f(inp, oc):
        c = done(oc)
        if c:
            return c
        n = inp[0]
        is2, nx = bit(oc.take()), oc.take()
        powers = [1 << k for k in range(w)]
        out = [('the test is true exactly for powers of two', c_iff(is2, c_or(*[c_eq(n, p) for p in powers]))),
               ('the next power of two of 0 is 0', c_implies(c_eq(n, 0), c_eq(nx, 0))),
               ('the next power of two of 1 is 1', c_implies(c_eq(n, 1), c_eq(nx, 1)))]
        for k in range(1, w):
            out.append(('the next power of two above 2^%d is 2^%d' % (k - 1, k),
                        c_implies(c_and(c_gt(n, 1 << (k - 1)), c_le(n, 1 << k)), c_eq(nx, 1 << k))))
        return out
    return f


def scenarios(tier):
    return [Scenario('power of two %d bits' % w, 'out.cpp', 'vp_pow2_%d' % w, [V('n', w, (1 << w) - 1)], oracle(w))
            for w in (8, 16, 32, 64)]


META = {
    'title': 'power-of-two helpers',
    'bounds': 'every value of the 8, 16, 32 and 64-bit unsigned types (no bound is left inside these types)',
    'outside': 'signed types; values above the highest power of two (their next power is not representable)',
    'assumptions': TRUST,
}
