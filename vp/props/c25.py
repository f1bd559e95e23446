"""C25: the transform."""
from fractions import Fraction
import math
from .common import *
from .. import fp
from ..fp import F

WHICH = ('forward', 'inverse', 'forward then inverse', 'inverse then forward', 'convolution then inverse')


def near(o, terms, k):
    """claim: the observed double is within 2^-k of the sum of coefficient * product of cells

    terms: [(float coefficient, (cell, ...))]"""
    v = o[1]
    sym = isinstance(v, F) or any(isinstance(c, F) for _, cs in terms for c in cs)
    if not sym:
        if v != v or v in (float('inf'), float('-inf')):
            return False
        w = sum(Fraction(c) * math.prod(Fraction(x) for x in cs) for c, cs in terms)
        return abs(Fraction(v) - w) < Fraction(2) ** -k
    v = fp.lift(v)
    p = dict(v.p)
    for c, cs in terms:
        q = {(): int(Fraction(c) * fp.ONE)}
        for x in cs:
            if isinstance(x, F):
                (m, one), = x.p.items()
                assert one == fp.ONE and x.err == 0.0
                q = {tuple(sorted(kk + m)): cc for kk, cc in q.items()}
            else:
                q = {kk: int(cc * Fraction(x)) for kk, cc in q.items()}
        for kk, cc in q.items():
            p[kk] = p.get(kk, 0) - cc
    return ('near', {kk: cc for kk, cc in p.items() if cc}, v.err, k)


def cossin(j, n):
    """cos and sin of 2 pi j / n, exact at the multiples of a quarter turn"""
    j %= n
    if 4 * j % n == 0:
        return ((1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0))[4 * j // n]
    return math.cos(2 * math.pi * j / n), math.sin(2 * math.pi * j / n)


def oracle(k):
    def f(inp, oc):
        c = done(oc)
        if c:
            return c
        which, n = inp[:2]
        x = [(inp[2 + 2 * i], inp[3 + 2 * i]) for i in range(n)]
        m = oc.take()
        if m != n:
            return [('the length is unchanged', False)]
        out = []
        for i in range(n):
            re, im = [], []
            if which in (0, 1):
                for j in range(n):
                    co, si = cossin(i * j, n)
                    s = 1.0 if which == 0 else 1.0 / n
                    if which == 1:
                        si = -si
                    # (co - i si) (re + i im)
                    re += [(co * s, (x[j][0],)), (si * s, (x[j][1],))]
                    im += [(co * s, (x[j][1],)), (-si * s, (x[j][0],))]
            elif which in (2, 3):
                re, im = [(1.0, (x[i][0],))], [(1.0, (x[i][1],))]
            else:
                re = [(1.0, (x[j][0], x[(i - j) % n][1])) for j in range(n)]
            what = ('the discrete Fourier transform', 'the inverse discrete Fourier transform', 'the original list',
                    'the original list', 'the cyclic convolution')[which]
            out.append(('the real part %d is that of %s' % (i, what), near(oc.take(), re, k)))
            out.append(('the imaginary part %d is that of %s' % (i, what), near(oc.take(), im, k)))
        return out
    return f


def table(kind):
    def f(inp, oc):
        c = done(oc)
        if c:
            return c
        na = inp[0]
        a = list(inp[1:1 + na])
        b = list(inp[2 + na:])
        n = oc.take()
        want = 1
        while want < len(a) + len(b):
            want *= 2
        if not a and not b:
            want = 0
        out = [('the length is the power of two that holds the product', n == want)]
        for i in range(n):
            for ds, nm in ((a, 'real'), (b, 'imaginary')):
                o = oc.take()
                d = ds[i] if i < len(ds) else 0
                out.append(('the %s part of cell %d is the digit' % (nm, i), is_digit(o[1], d)))
        return out
    return f


def is_digit(v, d):
    if not isinstance(v, F):
        return not isinstance(d, E) and v == d
    if not isinstance(d, E) or v.err:
        return False
    r = fp.to_uint(v, 64)
    return False if r is None else c_eq(r, d)


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    bits = 20
    for n in (0, 1, 2, 4, 8, 16) + (() if quick else (32, 64)):
        for which in range(5):
            if which == 4 and n > (8 if quick else 16):
                continue
            big = float(1 << bits)
            tape = [which, n]
            for i in range(n):
                tape += [R('re%d' % i, -big, big), R('im%d' % i, -big, big)]
            # 2^-34 of the largest exact value, 2^-10 at most for the convolution
            lg = max(n, 1).bit_length() - 1
            size = bits + (lg if which in (0,) else 0) + (bits + lg if which == 4 else 0)
            out.append(Scenario('%s of %d' % (WHICH[which], n), 'fft.cpp', 'vp_fft', tape, oracle(36 - size),
                                weight=n * n * (4 if which == 4 else 1), limit=200, fuel=400000))
    # long lists: a few cells symbolic, the others fixed
    for n in (32, 64, 128) + (() if quick else (256, 512, 1024)):
        for which in range(5):
            if which == 4 and n > (64 if quick else 256):
                continue
            for v, at in enumerate(((1, n - 1), (n // 2, n // 2 + 1, n - 2), (0, 3, n // 4))):
                if quick and (v + which) % 3 > (0 if n > 64 else 1):
                    continue
                big = float(1 << bits)
                tape = [which, n]
                for i in range(n):
                    re, im = float((i * 37 + v) % 101 - 50) * 512, float((i * 53 + 7) % 97 - 48) * 1024
                    if i in at:
                        re, im = R('re%d' % i, -big, big), R('im%d' % i, -big, big)
                    tape += [re, im]
                lg = n.bit_length() - 1
                size = bits + (lg if which in (0,) else 0) + (bits + lg if which == 4 else 0)
                out.append(Scenario('%s of %d, cells %s symbolic' % (WHICH[which], n, ' '.join(map(str, at))), 'fft.cpp', 'vp_fft', tape,
                                    oracle(36 - size), weight=n * 10, limit=200, fuel=4000000))
    n = 4 if quick else 6
    for kind in ALL:
        for i in range(n):
            for j in range(n):
                out.append(Scenario('%s table %d %d' % (kind, i, j), 'fft.cpp', 'vp_table_' + kind,
                                    [i] + digits('a', kind, i) + [j] + digits('b', kind, j), table(kind)))
    return out


META = {
    'title': 'discrete Fourier transform',
    'bounds': 'complex lists of length 0, 1, 2, 4, 8, 16 (convolution up to 8; thorough: 64 and 16) with every real and imaginary '
              'part in [-2^20, 2^20]; lists of length 32, 64 and 128 (convolution up to 64; thorough: 1024 and 256) with two or three cells of every value and the others fixed; results within 2^-36 of the largest possible exact value (an interval error analysis of every '
              'executed operation plus a z3 query over the reals for the exact linear or bilinear part); the table of digits for '
              'every size pair up to 3x3 (thorough 5x5) of all seven kinds',
    'outside': 'longer lists; lengths that are not a power of two; magnitudes above 2^20; element types other than double',
    'assumptions': TRUST + ['cos and sin of the C library are within one unit in the last place'],
}
