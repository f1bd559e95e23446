"""Operands of many digits, most of them concrete: lengths the fully symbolic scenarios do not reach."""
from .common import *
from . import c01

DEEP = (9, 16, 17, 20, 32, 33, 48, 64, 65, 100, 127, 128, 129, 200, 256, 257, 300)


def lengths(tier, ki):
    if tier != 'quick':
        return DEEP
    return ((17, 66, 260), (21, 40, 130), (33, 65, 257), (18, 36, 129), (24, 100, 300), (19, 34, 140), (20, 48, 256))[ki % 7]


def pair_scenario(op, kind, form, a, b, nm, orc, **kw):
    """a, b: number cells"""
    base = KINDS[kind][0]
    tape = [c01.OPS[op], form] + a + b
    kw.setdefault('claims', 'int' if base & (base - 1) or op in ('mul', 'div') else 'bv')
    kw.setdefault('prefer', 'int' if op == 'mul' else 'bv')
    kw.setdefault('fuel', 2000000)
    kw.setdefault('weight', len(tape))
    return Scenario('%s %s %s long %s' % (kind, op, c01.FORMS[form], nm), 'arith.cpp', 'vp_bin_' + kind, tape, orc, **kw)


def addsub(op, kind, n, orc, tier='quick', v=0):
    """sums and differences of long numbers: carries and borrows that run through, digits that differ low, in the middle, high"""
    out = []
    k = 0
    same, diff = ((POS, POS), (NEG, NEG)), ((POS, NEG), (NEG, POS))
    if op == 'sub':
        same, diff = diff, same
    h = n // 2
    for nm, signs, x, y in (
            ('carry through', same, ('max', n, (0, -1)), ('max', 1, (0,))),
            ('carry from the middle', same, ('max', n, (h, n - 2)), ('mix', h + 3, (h,))),
            ('equal lengths', same, ('mix', n, (0, h, -1)), ('max', n, (1, h, -1))),
            ('borrow through', diff, ('zero', n, (0, -1)), ('zero', 1, (0,))),
            ('cancel', diff, ('mix', n, (0, h)), ('mix', n, (0, h))),
            ('cancel at the top', diff, ('mix', n, (n - 2, -1)), ('mix', n, (n - 2, -1))),
            ('longer by much', diff, ('zero', n, (h, -1)), ('max', h, (0, -1)))):
        k += 1
        for sw in (0, 1) if tier != 'quick' else ((k + v) % 2,):
            da, db = signs[(k + sw + v) // 2 % 2]
            (p, i, s), (q, j, t) = (x, y) if not sw else (y, x)
            out.append(pair_scenario(op, kind, (k + v) // 3 % 2, long_num('a', kind, da, i, p, s), long_num('b', kind, db, j, q, t),
                                     '%s%d %s%d %s%s' % (sgn(da), i, sgn(db), j, nm, ' swapped' if sw else ''), orc))
    for form in (2, 3) if tier != 'quick' else (2 + v % 2,):
        out.append(pair_scenario(op, kind, form, long_num('a', kind, POS, n, 'mix', (0, h, -1)), [POS, 0], '%d' % n, orc))
    return out


def compare(kind, n, orc, tier='quick', v=0):
    """numbers of n digits that can differ only low, in the middle or high; longer against shorter"""
    out = []
    h = n // 2
    k = 0
    for x, y in ((('mix', n, (0,)), ('mix', n, (0,))), (('max', n, (h, h + 1)), ('max', n, (h, h + 1))),
                 (('zero', n, (n - 2, -1)), ('zero', n, (0, -1))), (('zero', n, (0, h, -1)), ('max', h, (0, -1))),
                 (('mix', n, (1, -1)), ('mix', n - 1, (0, -1))), (('zero', n, (0,)), ('zero', n + 1, (0,)))):
        lead = y[1] == n + 1
        for da, db in ((POS, POS), (NEG, NEG), (POS, NEG)) if tier != 'quick' else (((POS, POS), (NEG, NEG))[(k + v) % 2],):
            k += 1
            for sw in (0, 1) if tier != 'quick' else ((k + v) // 2 % 2,):
                (p, i, s), (q, j, u) = (x, y) if not sw else (y, x)
                a, b = long_num('a', kind, da, i, p, s, not lead), long_num('b', kind, db, j, q, u, not lead)
                out.append(Scenario('%s compare long %d/%d %d/%d %s %d' % (kind, da, i, db, j, p, k), 'arith.cpp', 'vp_cmp_' + kind,
                                    [0] + a + b, orc, fuel=2000000, weight=n))
    return out


def mul(kind, orc, tier='quick', v=0):
    out = []
    k = 0
    big = kind == 'highp'
    szs = ((5, 4), (9, 8), (17, 16), (18, 1), (33, 2), (66, 1), (40, 40)) if not big else ((5, 4), (9, 8), (17, 5), (18, 1), (40, 2), (66, 1))
    if tier != 'quick':
        szs += ((16, 16), (17, 17), (32, 32), (33, 32), (64, 1), (65, 64), (100, 3), (129, 1), (130, 2), (257, 1), (260, 3))
    for i, j in szs:
        for p, q in (('max', 'max'), ('mix', 'zero'), ('zero', 'mix')) if tier != 'quick' else ((('max', 'max'), ('mix', 'max'), ('zero', 'mix'))[(k + v) % 3],):
            k += 1
            s, t = ((0, -1), ()) if k % 2 else ((i // 2,), (0,) if not big and i < 20 else ())
            a, b = long_num('a', kind, k & 1, i, p, s), long_num('b', kind, k >> 1 & 1, j, q, t)
            if (k + v) % 3 == 0:
                a, b = b, a
            out.append(pair_scenario('mul', kind, k % 2, a, b, '%s%d %s%d %s %s' % (sgn(a[0]), a[1], sgn(b[0]), b[1], p, q), orc,
                                     fuel=20000000, limit=120))
    return out


def to_digits(x, base):
    out = []
    while x:
        out.append(x % base)
        x //= base
    return out


def div(kind, orc, tier='quick', v=0):
    """a concrete divisor of many digits and a quotient; digits of the dividend vary as far as the quotient stays"""
    from . import c04
    base = KINDS[kind][0]
    out = []
    k = 0
    cases = [(9, 1), (17, 2), (17, base), (33, 3), (33, 0), (40, base - 1), (20, base + 1), (9, base * base // 3), (64, 1), (65, 0)]
    if base ** 8 < 1 << 70 and not (base == 100 and tier == 'quick'):
        cases.append((5, base ** 7 + base ** 3 + 1))
    if base > 1000:
        # quotients of many one bits take long
        cases = [c for c in cases if bin(c[1]).count('1') < 5]
    if tier == 'quick':
        cases = [c for i, c in enumerate(cases) if (i + v) % 2 == 0]
    else:
        cases += [(n, q) for n in (16, 32, 100, 130, 260) for q in (0, 1, 2, base, base * 3 + 1)]
    for nb, q in cases:
        for pat in (('max', 'mix', 'zero')[(k + v) % 3],) if tier == 'quick' else ('max', 'mix', 'zero'):
            k += 1
            y = sum(d * base ** i for i, d in enumerate(long_digits('b', kind, nb, pat, ())))
            ad = to_digits(y * q + (y - 1 if k % 3 == 0 else y // 2 if k % 3 == 1 or not q else 0), base)
            n = len(ad)
            bd = to_digits(y, base)
            for p in (0,) if q >= base - 1 > 1000 else sorted({0, nb // 2, max(0, nb - 2)}) if q > base else sorted({0, nb // 2, n - 1}):
                if 0 <= p < n:
                    ad[p] = V('a%d' % p, KINDS[kind][1], base - 1, 1 if p == n - 1 else 0)
            da, db = c04.SIGNS[k % 4]
            s = pair_scenario('div', kind, k % 2, [da, n] + ad, [db, nb] + bd, '%s%d %s%d %s quotient %d bits %d' % (
                sgn(da), n, sgn(db), nb, pat, q.bit_length(), q % 1000), orc, fuel=20000000, limit=120)

            def assume(inp, q=q, n=max(n, nb), base=base):
                a, b = c01.operands(inp)
                return quotient_is(q, a.ds, b.ds, base, n)
            s.assume = assume
            out.append(s)
    return out
