"""C04: division truncates toward zero."""
from .common import *
from . import c01


def oracle(kind):
    base = KINDS[kind][0]

    def f(inp, oc):
        c = done(oc)
        if c:
            return c
        a, b = c01.operands(inp)
        r = take_num(oc)
        if not r.finite():
            return [('the result is finite', False)]
        # |r| * |b| <= |a| < (|r| + 1) * |b| and the sign
        x, y, q = a.mag(base), b.mag(base), r.mag(base)
        sign = [('the sign is that of the quotient', c_or(c_eq(q, 0), r.desc == (NEG if a.desc != b.desc else POS)))]
        return [('quotient times divisor does not exceed the dividend', c_le(q * y, x)),
                ('the remainder is smaller than the divisor', c_lt(x, q * y + y))] + sign
    return f


def sc(kind, form, da, na, db, nb, q=None, sa=None, sb=None, **kw):
    """b has a non-zero digit (sb significant ones)"""
    base = KINDS[kind][0]
    s = c01.scenario('div', kind, form, da, na, db, nb, orc=oracle(kind), sa=sa, sb=nb if sb is None and form < 2 else sb, **kw)
    if form >= 2:
        return s
    if q is not None:
        s.name += ' quotient %d' % q

        def assume(inp, q=q):
            a, b = c01.operands(inp)
            return quotient_is(q, a.ds, b.ds, base, max(na, nb))
        s.assume = assume
    return s


def full(kind, form, da, na, db, nb, **kw):
    kw.setdefault('limit', 100)
    return sc(kind, form, da, na, db, nb, **kw)


def fixed(kind, form, da, na, db, bd, q):
    """concrete divisor digits bd, the dividend anything with the quotient q"""
    base = KINDS[kind][0]
    s = full(kind, form, da, na, db, len(bd), q=q, claims='int', fuel=400000)
    p = len(s.tape) - len(bd)
    s.tape = s.tape[:p] + list(bd)
    s.name += ' divisor %s' % (bd,)
    return s


SIGNS = ((POS, POS), (POS, NEG), (NEG, POS), (NEG, NEG))
DEFAULT = {'highp': 'int', 'medp': 'int'}


def scenarios(tier):
    from . import longs
    out = []
    quick = tier == 'quick'
    for ki, kind in enumerate(ALL):
        base = KINDS[kind][0]
        out += longs.div(kind, oracle(kind), tier, ki)
        pr = dict(prefer=DEFAULT.get(kind, 'bv'), claims=DEFAULT.get(kind, 'bv'))
        n = [ki]

        def sg():
            n[0] += 1
            return SIGNS[n[0] % 4] + ((n[0] // 4) % 2,)
        # every quotient
        allq = {'base2': [(1, 1), (2, 1), (3, 1), (3, 2), (4, 2), (4, 4)], 'base8': [(1, 1), (2, 2)],
                'base10': [(1, 1)], 'base16': [(1, 1)]}.get(kind, [])
        if not quick:
            allq = allq + {'base2': [(6, 3), (5, 5), (8, 2)], 'base8': [(2, 1), (3, 3)],
                           'base10': [(2, 1), (2, 2), (3, 3)], 'base16': [(2, 2), (2, 1)], 'lowp': [(1, 1)]}.get(kind, [])
        for na, nb in allq:
            for da, db in SIGNS if na < 2 or not quick else (SIGNS[n[0] % 4],):
                _, _, f = sg()
                out.append(full(kind, f, da, na, db, nb, weight=(na * base) ** 2, **pr))
        # quotient windows, both operands symbolic
        win = [((1, 1), q) for q in (0, 1, 2, 3, 5)] + [((2, 2), q) for q in (0, 1, 2, 3)] + \
              [((2, 1), q) for q in (0, 1, 2, 7)] + [((3, 2), q) for q in (1, 3)] + [((1, 2), 0), ((1, 3), 0), ((2, 3), 0)]
        if base <= 256:
            win += [((2, 1), base - 1), ((2, 1), base), ((3, 1), base + 1), ((3, 2), base)]
            win += [((4, 3), 2), ((5, 3), base)][:1 if base == 10 else 2] if kind != 'base2' else [((5, 3), 5), ((7, 3), 11), ((8, 4), 16)]
        win += [((0, 1), 0), ((0, 3), 0), ((4, 4), 1)]
        if not quick:
            win += [((5, 5), 1), ((5, 5), 2), ((4, 2), 3), ((4, 1), 9), ((3, 3), 9), ((6, 5), 1)]
            win += [((2, 1), q) for q in range(8, 33)]
        for (na, nb), q in win:
            if q >= base ** (na - nb + 1) and q > 0:
                continue
            da, db, f = sg()
            out.append(full(kind, f, da, na, db, nb, q=q, weight=na * nb * q.bit_length() + 1, **pr))
        # leading zero digits on the divisor (on the dividend they are included above)
        for na, nb, sb, q in ((2, 2, 1, 3), (2, 3, 1, 1), (3, 4, 2, 2), (1, 2, 1, 1), (3, 3, 2, 0)):
            if q < base ** (na - sb + 1):
                da, db, f = sg()
                out.append(full(kind, f, da, na, db, nb, q=q, sb=sb, weight=10, **pr))
        # concrete divisors, large quotients
        big = [base ** 2 - 1, base ** 2, base - 1, base, base // 2, base // 2 + 1, base + 1]
        if not quick:
            big += [base ** 3 - 1, base ** 3 // 3, base * base // 2 + base // 2]
        for q in big:
            for bd in ([1], [base - 1], [base - 1, base - 1], [0, 1], [1, base // 2], [base // 2]):
                if any(d >= base for d in bd) or not any(bd) or bd[-1] == 0:
                    continue
                top = (q + 1) * sum(d * base ** i for i, d in enumerate(bd)) - 1
                na = 1
                while base ** na <= top:
                    na += 1
                if quick and na > 4 or bin(q).count('1') > 17 and bd not in ([1], [0, 1], [base // 2]):
                    continue
                da, db, f = sg()
                out.append(fixed(kind, f, da, na, db, bd, q))
        # the same object on both sides
        for k in (1, 2, 3, 4):
            for f in (2, 3):
                out.append(full(kind, f, (k + f) & 1, k, 0, 0, sa=k, **pr))
        for f in (2, 3):
            out.append(full(kind, f, f & 1, 3, 0, 0, sa=2, **pr))
    return out


META = {
    'title': 'division',
    'bounds': 'every dividend and divisor of base 2 up to 4 by 4 digits and of base 8, 10, 16 up to 1 by 1 (8: 2 by 2) '
              'digits (thorough: larger); for all kinds and sizes up to 5 by 4 digits every dividend and divisor whose '
              'quotient is one of a list of values (0 to 7, around the base); every dividend for some concrete divisors '
              'with quotients around the base and its square; leading zeroes on both sides; sign combinations spread over '
              'the sizes; binary, assigning and aliased forms'
              '; concrete divisors of 5 to 65 digits (thorough 260) with up to three symbolic digits in the dividend',
    'outside': 'longer operands with more symbolic digits; quotients not listed for the larger sizes',
    'assumptions': TRUST,
}
