"""C09: NaN and infinities propagate."""
from .common import *
from . import c01, c05


def oracle(kind):
    def f(inp, oc):
        c = done(oc)
        if c:
            return c
        op = inp[0]
        a, b = c01.operands(inp)
        r = take_num(oc)

        def is_(d):
            return r.desc == d and not r.ds
        sign = {POS: 1, PINF: 1, NEG: -1, NINF: -1}
        ia, ib = a.desc in (PINF, NINF), b.desc in (PINF, NINF)
        if a.desc == NAN or b.desc == NAN:
            return [('NaN propagates', is_(NAN))]
        if op in (0, 1):
            sb = sign[b.desc] * (1 if op == 0 else -1)
            if ia and ib:
                return [('sum of infinities', is_(a.desc) if sign[a.desc] == sb else is_(NAN))]
            return [('infinity and a finite number', is_(a.desc) if ia else is_(PINF if sb > 0 else NINF))]
        want = PINF if sign[a.desc] == sign[b.desc] else NINF
        if op == 2:
            if ia and ib:
                return [('product of infinities', is_(want))]
            z = c05.is_zero(b if ia else a)
            return [('infinity times zero is NaN', c_implies(z, is_(NAN))),
                    ('infinity times a non-zero number', c_or(z, is_(want)))]
        if ia and ib:
            return [('inf / inf is NaN', is_(NAN))]
        if ib:
            return [('a finite number divided by an infinity is zero', r.finite() and c_and(*[c_eq(d, 0) for d in r.ds]))]
        z = c05.is_zero(b)
        # inf / 0 is an infinity too (C05 speaks about finite dividends only)
        return [('infinity divided by a non-zero number', c_or(z, is_(want)))]
    return f


def scenarios(tier):
    out = []
    for kind in ALL:
        o = oracle(kind)
        for op in ('add', 'sub', 'mul', 'div'):
            for da in range(5):
                for db in range(5):
                    if da < 2 and db < 2:
                        continue
                    top = 3 if tier == 'quick' else 6
                    for na in range(top) if da < 2 else (0,):
                        for nb in range(top) if db < 2 else (0,):
                            for form in (0, 1):
                                out.append(c01.scenario(op, kind, form, da, na, db, nb, orc=o))
            for d in (2, 3, 4):
                for form in (2, 3):
                    out.append(c01.scenario(op, kind, form, d, 0, POS, 0, orc=o))
    return out


META = {
    'title': 'NaN and infinities',
    'bounds': 'every pair of NaN, +inf, -inf and finite numbers of 0 to 2 digits (thorough: 5) of either sign with every digit '
              'value (leading zeroes and zero included), +, -, *, /, binary, assigning and aliased forms, all seven kinds',
    'outside': 'longer finite operands; infinities and NaN that carry digits',
    'assumptions': TRUST,
}
