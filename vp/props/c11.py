"""C11: memory safety, no undefined behaviour, no leak, termination."""
from .common import *
from . import c01, c04, c06, c13, longs

UB = dict(flags=tuple(build.UBFLAGS), tag='ub', san=True)


def oracle(inp, oc):
    return [('no memory error, trap or endless run', oc.kind == 'ok'), ('no block is leaked', c_eq(oc.leak, 0))]


def mark(s):
    s.flags, s.tag, s.san = UB['flags'], UB['tag'], UB['san']
    s.oracle = oracle
    return s


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for ki, kind in enumerate(ALL):
        ls = []
        for op in ('add', 'sub'):
            for t, n in enumerate(longs.lengths(tier, ki)):
                ls += longs.addsub(op, kind, n, None, tier, t + ki)
        for t, n in enumerate(longs.lengths(tier, ki)):
            ls += longs.compare(kind, n, None, tier, t)
        ls += longs.mul(kind, None, tier, ki) + longs.div(kind, None, tier, ki)
        for k, s in enumerate(ls):
            if not quick or k % 3 == ki % 3:
                out.append(mark(s))
        for op in ('add', 'sub', 'mul'):
            kw = dict(prefer='int', claims='int') if op == 'mul' else {}
            top = 4 if quick else 6
            for na in range(top):
                for nb in range(top):
                    for da, db in ((POS, POS), (POS, NEG)) if quick else c04.SIGNS:
                        if op == 'mul' and (db or kind == 'highp' and na + nb > 4):
                            continue
                        if quick and na + nb == 6 and db == NEG and op == 'add':
                            continue
                        for sa in (shapes(na) if kind == 'highp' and op == 'mul' else (None,)):
                            out.append(mark(c01.scenario(op, kind, (na + nb) % 2, da, na, db, nb, sa=sa,
                                                         sb=nb if sa is not None else None, **kw)))
            for n in range(4):
                for form in (2, 3):
                    out.append(mark(c01.scenario(op, kind, form, POS, n, POS, 0, sa=n, **kw)))
            big = {'highp': (4, 4) if op == 'mul' else (8, 8)}.get(kind, (8, 8))
            out.append(mark(c01.scenario(op, kind, 0, POS, big[0], NEG, big[1], top=True, limit=100, **kw)))
            for d in range(5):
                for e in range(5):
                    if d > 1 or e > 1:
                        out.append(mark(c01.scenario(op, kind, (d + e) % 2, d, 1 if d < 2 else 0, e, 1 if e < 2 else 0, **kw)))
        for d in range(5):
            for e in range(5):
                if d > 1 or e > 1:
                    out.append(mark(c01.scenario('div', kind, (d + e) % 2, d, 1 if d < 2 else 0, e, 1 if e < 2 else 0)))
        for na in range(4):
            for nb in range(3):
                out.append(mark(c01.scenario('div', kind, nb % 2, POS, na, NEG, nb, sb=0)))
                out.append(mark(c01.scenario('div', kind, na % 2, POS, nb, NEG, na, sa=0)))
        for na in range(5):
            for nb in range(5):
                out.append(mark(c06.scenario(kind, POS, na, POS, nb, None)))
                if na == nb:
                    out.append(mark(c06.scenario(kind, NEG, na, NEG, nb, None)))
    for s in c04.scenarios(tier):
        if quick and (s.weight > 60 or 'divisor' in s.name):
            continue
        if 'divisor' in s.name and s.tape[-1] == KINDS[s.name.split()[0]][0] - 1:
            continue
        out.append(mark(s))
    for s in c13.scenarios(tier):
        out.append(mark(s))
    return out


META = {
    'title': 'memory safety and undefined behaviour',
    'bounds': 'operands with digits below the base of every size pair up to 3x3 digits including leading zeroes and 8x8 '
              '(multiplication of 32-bit digits 4x4) for +, -, *, the operand classes of C04 for /, comparisons up to 4x4, '
              'zero divisors, infinities, NaN, aliased operands, copies and moves; every memory access of the IR is checked '
              'against its block, containers with libstdc++ assertions, -fsanitize=undefined traps, leaks at the end; '
              'termination: every path ends within the step limit'
              '; the long operands of C01 to C07 (5 to 300 digits, up to three of them symbolic)',
    'outside': 'longer operands with more symbolic digits; operands with digits not below the base; undefined behaviour the compiler folds away before '
               'its sanitizer sees it',
    'assumptions': TRUST,
}
