"""C16: descriptor and predicates."""
from .common import *


def oracle(inp, oc):
    c = done(oc)
    if c:
        return c
    how, d = inp[:2]
    a, p = rd_num(inp, 2)
    r = take_num(oc)
    pos, neg, inf, nan, comp, compd, desc, size = [oc.take() for _ in range(8)]
    if how == 2:
        want = Num(POS, [])
        c1 = same_num(want, r)
    elif how == 1:
        keep = c_and(c_eq(r.desc, d), c_lt(d, 2), same_num(Num(r.desc, a.ds), r))
        drop = c_and(c_eq(r.desc, d), c_ge(d, 2), not r.ds)
        c1 = c_or(keep, drop)
    else:
        c1 = same_num(a, r)
    k = r.desc
    return [('the state and the digits are right', c1),
            ('isPositive', c_eq(pos, int(k in (POS, PINF)))), ('isNegative', c_eq(neg, int(k in (NEG, NINF)))),
            ('isInfinite', c_eq(inf, int(k in (PINF, NINF)))), ('isNan', c_eq(nan, int(k == NAN))),
            ('isComputable', c_eq(comp, int(k in (POS, NEG)))),
            ('isComputable of any state', c_iff(c_eq(compd, 1), c_lt(d, 2))), ('it is a truth value', c_lt(compd, 2)),
            ('getDescriptor', c_eq(desc, k)), ('size', c_eq(size, len(r.ds)))]


def scenarios(tier):
    out = []
    for kind in ALL:
        for how in range(3):
            for od in range(5):
                for n in range(4 if tier == 'quick' else 7) if od < 2 else range(3):
                    out.append(Scenario('%s descriptor %d from %d/%d' % (kind, how, od, n), 'edit.cpp', 'vp_desc_' + kind,
                                        [how, V('desc', 8, 4)] + num('a', kind, od, n), oracle, weight=n))
                if od < 2:
                    for n in (17, 300):
                        out.append(Scenario('%s descriptor %d from %d long %d' % (kind, how, od, n), 'edit.cpp', 'vp_desc_' + kind,
                                            [how, V('desc', 8, 4)] + long_num('a', kind, od, n, 'mix', (0, n - 1), False), oracle,
                                            fuel=1000000, weight=n))
    return out


META = {
    'title': 'descriptor',
    'bounds': 'numbers of every descriptor with 0 to 3 digits (thorough 6) of every value (also infinities and NaN that were given up to two digits), and of 17 and 300 digits; setDescriptor with every state, clear, '
              'and the predicates; all seven kinds',
    'outside': 'longer numbers; integers that are no enumerator',
    'assumptions': TRUST,
}
