"""C23: the debug configuration."""
from .common import *
from . import c01, c02, c03, c04, c06, c07
import copy


def underflow(kind):
    base = KINDS[kind][0]

    def f(inp, oc):
        c = done(oc)
        if c:
            return c
        na = inp[0]
        a, b = list(inp[1:1 + na]), list(inp[2 + na:])
        how = oc.take()
        n = oc.take()
        a1 = [oc.take() for _ in range(n)]
        m = oc.take()
        b1 = [oc.take() for _ in range(m)]
        x, y = mag(a, base), mag(b, base)
        out = [('the subtrahend is unchanged', same_digits(b, b1))]
        if how == 0:
            out += [('without an underflow nothing is thrown', c_le(y, x)), ('the difference is exact', c_eq(mag(a1, base), x - y))]
        else:
            out += [('only BNUnderflow is thrown', how == 1), ('the exception means that the subtrahend is larger', c_lt(x, y))]
        return out
    return f


def same_digits(a, b):
    return len(a) == len(b) and c_and(*[c_eq(x, y) for x, y in zip(a, b)])


def kernel(kind, na, nb, **kw):
    return Scenario('%s kernel subtraction %d-%d' % (kind, na, nb), 'kernels.cpp', 'vp_ksub_' + kind,
                    [na] + digits('a', kind, na) + [nb] + digits('b', kind, nb), underflow(kind), weight=(na + nb) ** 2, **kw)


def size(s):
    return len(s.tape) - 4


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for mod, lim, big in ((c01, 5, 12), (c02, 5, 12), (c03, 3, 8), (c04, 99, 99), (c06, 6, 10), (c07, 6, 10)):
        k = 0
        for s in mod.scenarios('quick'):
            d = len([c for c in s.tape if isinstance(c, V)])
            if d > (lim if quick else big) or (mod is c04 and quick and s.weight > 60):
                continue
            k += 1
            if quick and mod in (c01, c02, c04, c06, c07) and d > 1 and k % 3:
                continue
            s = copy.copy(s)
            s.name = 'debug: ' + s.name
            s.flags = s.flags + ('-DBN_DEBUG',)
            s.tag = 'dbg'
            out.append(s)
    n = 4 if quick else 7
    for kind in ALL:
        for i in range(n):
            for j in range(n):
                s = kernel(kind, i, j)
                s.flags, s.tag = ('-DBN_DEBUG',), 'dbg'
                out.append(s)
    return out


META = {
    'title': 'debug configuration',
    'bounds': 'the whole library compiled with BN_DEBUG; the scenarios of the exactness checks of +, -, *, / and of the '
              'comparisons up to 5 symbolic digits (thorough: up to 12); the subtraction kernel on containers of every size '
              'pair up to 3x3 digits (thorough 6x6), every digit value; all seven kinds',
    'outside': 'longer operands; other configuration macros',
    'assumptions': TRUST,
}
