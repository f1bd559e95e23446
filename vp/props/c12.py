"""C12: construction from digits."""
from .common import *


def oracle(inp, oc):
    c = done(oc)
    if c:
        return c
    desc, ds = inp[0], list(inp[2:])
    r, e = take_num(oc), take_num(oc)
    ds.reverse()
    n = len(r.ds)
    if n > len(ds):
        return [('not more digits than given', False)]
    return [('the sign is the given one', r.desc == desc),
            ('the digits are the given ones, least significant first', c_and(*[c_eq(x, y) for x, y in zip(r.ds, ds)])),
            ('only zero digits are dropped', c_and(*[c_eq(x, 0) for x in ds[n:]])),
            ('no leading zero digit is left', c_gt(r.ds[-1], 0) if r.ds else True),
            ('the default number is a positive zero without digits', e.desc == POS and not e.ds)]


def scenarios(tier):
    out = []
    for kind in ALL:
        for d in (POS, NEG):
            for n in range(9):
                out.append(Scenario('%s construct %s%d' % (kind, sgn(d), n), 'edit.cpp', 'vp_ctor_' + kind,
                                    [d, n] + digits('a', kind, n), oracle, weight=n))
            for n in (17, 40):
                # leading zeroes (the first digits of the list) of several lengths
                for z in (0, 1, 9, n - 1, n):
                    ds = digits('a', kind, n - z, True)
                    ds.reverse()
                    if z == 1 and d == NEG:
                        ds[1:] = [V('m%d' % i, KINDS[kind][1], KINDS[kind][0] - 1) for i in range(n - 2)]
                    out.append(Scenario('%s construct %s%d leading %d' % (kind, sgn(d), n, z), 'edit.cpp', 'vp_ctor_' + kind,
                                        [d, n] + [0] * z + ds, oracle, weight=n))
            # many digits, most of them given
            for n in (260, 520):
                for j, z in enumerate((0, 255, 256, 257, n - 1, n)):
                    if tier == 'quick' and (j + n // 260 + d) % 2:
                        continue
                    a = long_num('a', kind, d, n - z, 'mix', (0, n - z - 1) if z < n else (), z > 0 and z < n)[2:]
                    a.reverse()
                    out.append(Scenario('%s construct %s%d leading %d' % (kind, sgn(d), n, z), 'edit.cpp', 'vp_ctor_' + kind,
                                        [d, n] + [0] * z + a, oracle, weight=n, fuel=1000000))
    return out


META = {
    'title': 'construction',
    'bounds': 'digit lists of 0 to 8 digits with every digit value, both signs, all seven kinds; lists of 17 and 40 digits with 0, 1, 9, all but one and only leading zeroes; lists of 260 and 520 digits (two of them symbolic) with 0, 255 to 257, all but one and only leading zeroes; default construction',
    'outside': 'longer lists; digits not below the base; infinities and NaN with digits',
    'assumptions': TRUST,
}
