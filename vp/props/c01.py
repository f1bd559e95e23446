"""C01: addition is exact."""
from .common import *

OPS = {'add': 0, 'sub': 1, 'mul': 2, 'div': 3}
FORMS = {0: 'binary', 1: 'assigning', 2: 'binary, same object', 3: 'assigning, same object'}


def operands(inp):
    a, p = rd_num(inp, 2)
    b, p = rd_num(inp, p)
    if inp[1] >= 2:
        b = a
    return a, b


def oracle(kind, sub):
    base = KINDS[kind][0]

    def f(inp, oc):
        c = done(oc)
        if c:
            return c
        a, b = operands(inp)
        r = take_num(oc)
        want = a.val(base) - b.val(base) if sub else a.val(base) + b.val(base)
        return [('the result is finite', r.finite()),
                ('the result is the exact %s' % ('difference' if sub else 'sum'), c_eq(r.val(base), want))]
    return f


def scenario(op, kind, form, da, na, db, nb, top=False, orc=None, sa=None, sb=None, **kw):
    base = KINDS[kind][0]
    nm = '%s %s %s %s%d%s%d%s' % (kind, op, FORMS[form], sgn(da), na, sgn(db), nb, ' top' if top else '')
    if sa is not None or sb is not None:
        nm += ' significant %s %s' % (sa, sb)
    tape = [OPS[op], form] + num('a', kind, da, na, top, sa) + num('b', kind, db, nb, top, sb)
    kw.setdefault('weight', (na + nb + 1) ** 2)
    kw.setdefault('claims', 'int' if base & (base - 1) else 'bv')
    return Scenario(nm, 'arith.cpp', 'vp_bin_' + kind, tape, orc, **kw)


def sizes(kind, tier):
    """(na, nb) with leading zero digits allowed"""
    q = [(i, j) for i in range(3) for j in range(3)] + [(3, 3), (4, 2), (2, 4), (1, 3), (3, 1)]
    big = {'lowp': [(8, 8), (6, 4), (4, 6)], 'base10': [(8, 8), (6, 4), (4, 6)], 'highp': [(4, 4), (5, 2), (2, 5)],
           'medp': [(5, 5)], 'base2': [(10, 10), (8, 5), (5, 8)], 'base8': [(6, 6)], 'base16': [(5, 5)]}[kind]
    if tier != 'quick':
        big = big + [(n, m) for n in (7, 10) for m in (3, 7, 10)]
        q += [(i, j) for i in range(6) for j in range(6) if (i, j) not in q]
    return q, big


def scenarios(tier, op='add', mk=None):
    out = []
    mk = mk or (lambda kind: oracle(kind, op == 'sub'))
    from . import longs
    for ki, kind in enumerate(ALL):
        for t, n in enumerate(longs.lengths(tier, ki)):
            out += longs.addsub(op, kind, n, mk(kind), tier, t + ki)
        small, big = sizes(kind, tier)
        o = mk(kind)
        for da in (POS, NEG):
            for db in (POS, NEG):
                for i, (na, nb) in enumerate(small):
                    for form in (0, 1):
                        if tier == 'quick' and na + nb > 3 and (i + form + da) % 2:
                            continue
                        out.append(scenario(op, kind, form, da, na, db, nb, orc=o))
                for i, (na, nb) in enumerate(big):
                    out.append(scenario(op, kind, (i + da) % 2, da, na, db, nb, orc=o, limit=120))
            for n in (0, 1, 2, 3):
                for form in (2, 3):
                    out.append(scenario(op, kind, form, da, n, da, 0, orc=o))
    return out


META = {
    'title': 'addition',
    'bounds': 'operands of every size pair up to 2x2 digits (plus 3x3, 4x2, 2x4 and larger pairs up to 10x10 digits '
              'depending on the kind, thorough: all pairs up to 5x5 and up to 10x10), every digit value, leading zeroes '
              'included; all sign combinations; binary, assigning and aliased forms; all seven built-in kinds'
              '; operands of 17 to 300 digits that carry, borrow or cancel through, with up to three symbolic digits each',
    'outside': 'longer operands with more symbolic digits',
    'assumptions': TRUST,
}
