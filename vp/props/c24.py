"""C24: both multiplication algorithms."""
from .common import *
from .c23 import same_digits

WHICH = {0: 'transform-based', 1: 'schoolbook'}


def oracle(kind):
    base = KINDS[kind][0]

    def f(inp, oc):
        c = done(oc)
        if c:
            return c
        na = inp[1]
        a, b = list(inp[2:2 + na]), list(inp[3 + na:])

        def digs():
            n = oc.take()
            if n > len(oc.out) - oc.pos:
                raise IndexError()
            return [oc.take() for _ in range(n)]
        r, a1, b1 = digs(), digs(), digs()
        return [('the first factor is unchanged', same_digits(a, a1)), ('the second factor is unchanged', same_digits(b, b1)),
                ('every digit is below the base', c_and(*[c_lt(d, base) for d in r])),
                ('the digits denote the product', c_eq(mag(r, base), mag(a, base) * mag(b, base)))]
    return f


def scenarios(tier):
    out = []
    quick = tier == 'quick'

    def sc(kind, which, na, nb, sa=None, sb=None, **kw):
        def ds(nm, n, s):
            return digits(nm, kind, n) if s is None else digits(nm, kind, s, True) + [0] * (n - s)
        nm = '%s %s %dx%d' % (kind, WHICH[which], na, nb)
        if sa is not None:
            nm += ' significant %s %s' % (sa, sb)
        out.append(Scenario(nm, 'kernels.cpp', 'vp_kmul_' + kind, [which, na] + ds('a', na, sa) + [nb] + ds('b', nb, sb),
                            oracle(kind), prefer='int', claims='int', weight=(na + nb + 1) ** 2, limit=100, **kw))
    from . import longs
    for ki, kind in enumerate(ALL):
        for k, s in enumerate(longs.mul(kind, None, tier, ki)):
            a, p = rd_num(s.tape, 2)
            b, p = rd_num(s.tape, p)
            for which in (0, 1):
                if which == 0 and kind == 'highp' or quick and (k + which) % 2:
                    continue
                out.append(Scenario('%s %s long %dx%d' % (kind, WHICH[which], len(a.ds), len(b.ds)), 'kernels.cpp',
                                    'vp_kmul_' + kind, [which, len(a.ds)] + a.ds + [len(b.ds)] + b.ds, oracle(kind), prefer='int',
                                    claims='int', fuel=20000000, limit=120, weight=len(a.ds) * 2))
        n = 4 if quick else 5
        sizes = [(i, j) for i in range(n) for j in range(n)] + [(4, 4), (5, 2), (2, 5), (6, 1), (1, 6)]
        if not quick:
            sizes += [(6, 6), (7, 3), (3, 7), (5, 5), (1, 9), (9, 1)]
        for na, nb in sizes:
            for which in (0, 1):
                if kind == 'highp':
                    if na + nb > (6 if quick else 8):
                        continue
                    if which == 0:
                        for sa in shapes(na):
                            for sb in shapes(nb):
                                if quick and na + nb > 4 and (sa < na - 1 or sb < nb - 1):
                                    continue
                                sc(kind, which, na, nb, sa, sb)
                        continue
                if which == 0 and na + nb > 4 and na * nb > 0:
                    # leading zeroes only in the smaller sizes
                    sc(kind, which, na, nb, na, nb)
                    continue
                sc(kind, which, na, nb)
    return out


META = {
    'title': 'multiplication algorithms',
    'bounds': 'mul_strassen and mul_naive on digit containers of every size pair up to 3x3 digits, 4x4, 5x2 and 6x1 (thorough: '
              'up to 6x6, 7x3, 9x1), every digit value, leading zeroes included up to four digits in total; all seven kinds',
    'outside': 'longer containers (but for the sampled long ones: up to 66x1 and 40x40 digits, one to three of them symbolic); the rounding of the transform is bounded by an interval error analysis of the executed '
               'floating-point operations, so it is covered within these sizes',
    'assumptions': TRUST,
}
