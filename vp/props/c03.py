"""C03: multiplication is exact."""
from .common import *
from . import c01


def oracle(kind):
    base = KINDS[kind][0]

    def f(inp, oc):
        c = done(oc)
        if c:
            return c
        a, b = c01.operands(inp)
        r = take_num(oc)
        return [('the result is finite', r.finite()),
                ('the result is the exact product', c_eq(r.val(base), a.val(base) * b.val(base)))]
    return f


def scenarios(tier):
    out = []
    from . import longs
    for ki, kind in enumerate(ALL):
        o = oracle(kind)
        out += longs.mul(kind, o, tier, ki)
        small = [(i, j) for i in range(3) for j in range(3)]
        mid = [(3, 3), (4, 2), (2, 4)]
        big = {'lowp': [(4, 4), (8, 8), (12, 5)], 'medp': [(4, 4), (8, 8)], 'highp': [(3, 3), (4, 2)],
               'base2': [(8, 8), (9, 9)], 'base8': [(6, 6), (9, 9)], 'base10': [(5, 5), (8, 8), (9, 7)],
               'base16': [(4, 4), (8, 8)]}[kind]
        for da in (POS, NEG):
            for db in (POS, NEG):
                for i, (na, nb) in enumerate(small):
                    for form in (0, 1):
                        if tier == 'quick' and na + nb > 2 and (i + form + da) % 2:
                            continue
                        if kind == 'highp' and na and nb:
                            for sa in shapes(na):
                                for sb in shapes(nb):
                                    out.append(c01.scenario('mul', kind, form, da, na, db, nb, orc=o, prefer='int',
                                                            claims='int', sa=sa, sb=sb))
                            continue
                        out.append(c01.scenario('mul', kind, form, da, na, db, nb, orc=o, prefer='int', claims='int'))
                for i, (na, nb) in enumerate(mid):
                    if kind == 'highp':
                        for sa in range(max(0, na - 1), na + 1):
                            for sb in range(max(0, nb - 1), nb + 1):
                                out.append(c01.scenario('mul', kind, (i + db) % 2, da, na, db, nb, orc=o, prefer='int',
                                                        claims='int', sa=sa, sb=sb))
                        continue
                    out.append(c01.scenario('mul', kind, (i + db) % 2, da, na, db, nb, orc=o, prefer='int', claims='int'))
            for i, (na, nb) in enumerate(big):
                # the most significant digits are not zero
                out.append(c01.scenario('mul', kind, i % 2, da, na, POS, nb, top=True, orc=o, prefer='int', claims='int',
                                        limit=120))
            for n in (0, 1, 2, 3):
                for form in (2, 3):
                    for sa in shapes(n) if kind == 'highp' else (None,):
                        out.append(c01.scenario('mul', kind, form, da, n, da, 0, orc=o, prefer='int', claims='int', sa=sa))
    return out


META = {
    'title': 'multiplication',
    'bounds': 'operands of every size pair up to 2x2 digits (plus 3x3, 4x2, 2x4) with leading zeroes, and pairs up to 12x5 or 9x9 digits depending on the kind with non-zero top digits; every digit value; all sign combinations; binary, assigning and aliased forms; all seven built-in kinds'
              '; products up to 66x1 and 40x40 digits (thorough 260x3) with up to two symbolic digits each',
    'outside': 'longer operands with more symbolic digits; large sizes with leading zero digits',
    'assumptions': TRUST,
}
