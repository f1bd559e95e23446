"""C08: finite results of finite operands are in their single representation."""
from .common import *
from . import c01, c04, longs


def oracle(kind):
    base = KINDS[kind][0]

    def f(inp, oc):
        c = done(oc)
        if c:
            return c
        r = take_num(oc)
        return [('the result has only digits below the base, no leading zero digit and is not a negative zero',
                 canonical(r, base))]
    return f


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for ki, kind in enumerate(ALL):
        o = oracle(kind)
        for op in ('add', 'sub'):
            for t, n in enumerate(longs.lengths(tier, ki)):
                if not quick or t == (ki + (op == 'sub')) % 3:
                    out += longs.addsub(op, kind, n, o, tier, t + 1)
        for k, s in enumerate(longs.mul(kind, o, tier, ki + 1) + longs.div(kind, o, tier, ki + 1)):
            if not quick or k % 2:
                s.oracle = o
                out.append(s)
        top = 3 if quick else 5
        big = {'highp': (3, 3), 'base2': (8, 8)}.get(kind, (5, 5))
        for da in (POS, NEG):
            for db in (POS, NEG):
                for na in range(top):
                    for nb in range(top):
                        for op in ('add', 'sub'):
                            out.append(c01.scenario(op, kind, (na + nb + da) % 2, da, na, db, nb, orc=o, claims='bv'))
                        if kind == 'highp':
                            for sa in shapes(na):
                                for sb in shapes(nb):
                                    if quick and (sa + sb + na + nb + da + db) % 2 and sa and sb:
                                        continue
                                    out.append(c01.scenario('mul', kind, (na + nb + da) % 2, da, na, db, nb, orc=o,
                                                            prefer='int', sa=sa, sb=sb))
                        else:
                            out.append(c01.scenario('mul', kind, (na + nb + da) % 2, da, na, db, nb, orc=o, prefer='int'))
                for op in ('add', 'sub', 'mul'):
                    out.append(c01.scenario(op, kind, da, da, big[0], db, big[1], top=True, orc=o, limit=100,
                                            claims='bv' if op != 'mul' else 'int', prefer='bv' if op != 'mul' else 'int'))
        for n in range(4):
            for op in ('add', 'sub', 'mul', 'div'):
                for form in (2, 3):
                    for d in (POS, NEG):
                        if op == 'div':
                            out.append(c04.full(kind, form, d, n, 0, 0, sa=n))
                        else:
                            for sa in shapes(n) if kind == 'highp' else (None,):
                                out.append(c01.scenario(op, kind, form, d, n, POS, 0, orc=o, sa=sa,
                                                        prefer='int' if op == 'mul' else 'bv'))
                        out[-1].oracle = o
    for s in c04.scenarios(tier):
        if s.weight > (60 if quick else 1e9) and 'divisor' not in s.name:
            continue
        kind = s.name.split()[0]
        if 'same object' in s.name or 'divisor' in s.name and s.tape[-1] == KINDS[kind][0] - 1:
            continue
        s.oracle = oracle(kind)
        out.append(s)
    return out


META = {
    'title': 'canonical results',
    'bounds': 'operands of every size pair up to 2x2 digits including leading zeroes, 5x5 (3x3 for 32-bit digits, 8x8 for '
              'base 2) with non-zero top digits for +, -, * (thorough: up to 4x4); for / the operand classes of C04; all '
              'sign combinations, aliased operands, all seven kinds'
              '; the long operands of C01 to C04 (5 to 300 digits, up to three of them symbolic)',
    'outside': 'longer operands with more symbolic digits; operands with digits not below the base',
    'assumptions': TRUST,
}
