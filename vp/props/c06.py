"""C06, C07: ordering and equality."""
from .common import *

NAMES = ('<', '<=', '>', '>=', '==', '!=')


def operands(inp):
    a, p = rd_num(inp, 1)
    b, p = rd_num(inp, p)
    return (a, a) if inp[0] else (a, b)


def truth(a, b, base):
    """claims (a < b, a == b) for two non-NaN numbers"""
    def rank(n):
        return {NINF: -1, PINF: 1}.get(n.desc, 0)
    if rank(a) or rank(b):
        return rank(a) < rank(b), rank(a) == rank(b)
    x, y = a.val(base), b.val(base)
    return c_lt(x, y), c_eq(x, y)


def oracle(kind, which):
    base = KINDS[kind][0]

    def f(inp, oc):
        c = done(oc)
        if c:
            return c
        a, b = operands(inp)
        out = [oc.take() for _ in range(6)]
        got = [bit(o) for o in out]
        nan = a.desc == NAN or b.desc == NAN
        if nan:
            # == and != with a NaN: only that they are opposite
            return [('%s is false with a NaN' % NAMES[i], c_not(got[i])) for i in range(4)] if which == 'order' else \
                   [('!= is the negation of ==', c_iff(got[5], c_not(got[4])))]
        lt, eq = truth(a, b, base)
        want = (lt, c_or(lt, eq), c_and(c_not(lt), c_not(eq)), c_not(lt), eq, c_not(eq))
        idx = range(4) if which == 'order' else (4, 5)
        return [('%s is right' % NAMES[i], c_iff(got[i], want[i])) for i in idx]
    return f


def scenario(kind, da, na, db, nb, orc, same=0, **kw):
    nm = '%s compare %d/%d %d/%d%s' % (kind, da, na, db, nb, ' same object' if same else '')
    kw.setdefault('weight', (na + nb + 1) ** 2)
    return Scenario(nm, 'arith.cpp', 'vp_cmp_' + kind, [same] + num('a', kind, da, na) + num('b', kind, db, nb), orc, **kw)


def scenarios(tier, which='order'):
    out = []
    quick = tier == 'quick'
    from . import longs
    for ki, kind in enumerate(ALL):
        o = oracle(kind, which)
        for t, n in enumerate(longs.lengths(tier, ki)):
            out += longs.compare(kind, n, o, tier, t + ki)
        for da in (POS, NEG):
            for db in (POS, NEG):
                n = 4 if quick else 7
                for i in range(n):
                    for j in range(n):
                        out.append(scenario(kind, da, i, db, j, o))
                for i, j in [(6, 6), (5, 3), (3, 5)] + ([] if quick else [(10, 10), (9, 7), (7, 9)]):
                    out.append(scenario(kind, da, i, db, j, o))
        for da in range(5):
            for db in range(5):
                if da < 2 and db < 2:
                    continue
                for na in (0, 2) if da < 2 else (0,):
                    for nb in (0, 2) if db < 2 else (0,):
                        out.append(scenario(kind, da, na, db, nb, o))
        for d in range(5):
            for n in range(0, 4) if d < 2 else (0,):
                out.append(scenario(kind, d, n, POS, 0, o, 1))
    return out


META = {
    'title': 'ordering',
    'bounds': 'finite numbers of every size pair up to 3x3 digits, 6x6, 5x3 and 3x5 (thorough: 6x6 and 10x10), every digit '
              'value including leading zeroes, all sign combinations; every pair with an infinity or NaN against infinities, '
              'NaN and finite numbers of 0 and 2 digits; a number against itself; all seven kinds'
              '; numbers of 17 to 300 digits with up to three symbolic digits each',
    'outside': 'longer numbers with more symbolic digits; infinities and NaN that carry digits',
    'assumptions': TRUST,
}
