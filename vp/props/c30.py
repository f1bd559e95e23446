"""C30: use from several threads."""
from .common import *
from . import c04

OPS = ('+', '-', '*', '/', '+=', '-=', '*=', '/=', 'comparisons', 'copies', 'const access', 'printing', 'mul_naive', 'mul_strassen',
       'kernels in place', 'assertion', 'division by zero')


def oracle(kind):
    base = KINDS[kind][0]

    def f(inp, oc):
        c = done(oc, 'the two threads do not disturb each other')
        if c:
            return c
        op1, op2, own = inp[:3]
        a, p = rd_num(inp, 3)
        b, p = rd_num(inp, p)
        r1, r2 = take_num(oc), take_num(oc)
        for _ in range(2):
            n = oc.take()
            if n > len(oc.out) - oc.pos:
                raise IndexError()
            for _ in range(n):
                oc.take()
        oc.take()
        oc.take()
        oc.take()
        out = [('nothing that another thread may use is written', c_eq(oc.take(), 0)),
               ('the left operand is unchanged', same_num(a, take_num(oc))),
               ('the right operand is unchanged', same_num(b, take_num(oc)))]
        if a.finite() and b.finite():
            for op, r in ((op1, r1), (op2, r2))[:1 if own else 2]:
                if op in (0, 4):
                    out.append(('the sum is exact', c_eq(r.val(base), a.val(base) + b.val(base))))
                elif op in (1, 5):
                    out.append(('the difference is exact', c_eq(r.val(base), a.val(base) - b.val(base))))
        return out
    return f


def scenarios(tier):
    out = []
    quick = tier == 'quick'

    def sc(kind, op1, op2, da, na, db, nb, own=None, q=None, long=False):
        base = KINDS[kind][0]
        div = op1 in (3, 7) or op2 in (3, 7) and not own
        mul = {op1, op2} & {2, 6, 12, 13}
        if long:
            a, b = long_num('a', kind, da, na, 'mix', (0, na // 2, -1)), long_num('b', kind, db, nb, 'max', () if mul else (0, -1))
        else:
            a, b = num('a', kind, da, na, div and na > 1 or bool(mul)), num('b', kind, db, nb, div or bool(mul))
        s = Scenario('%s %s beside %s on %s %s%d %s%d%s' % (kind, OPS[op1], OPS[op2], 'numbers of its own' if own else 'the same numbers',
                                                           '+-nif'[da], na, '+-nif'[db], nb, '' if q is None else ' quotient %d' % q),
                     'conc.cpp', 'vp_both_' + kind, [op1, op2, 1 if own else 0] + a + b + (own or []), oracle(kind),
                     san='threads', weight=na * nb + (20 if div or mul else 0), limit=100, fuel=20000000,
                     prefer='int' if mul and not div else c04.DEFAULT.get(kind, 'bv') if div else 'bv')
        s.claims = 'bv'
        if q is not None and div:
            def assume(inp, q=q, base=base, n=max(na, nb)):
                x, p = rd_num(inp, 3)
                y, p = rd_num(inp, p)
                return quotient_is(q, x.ds, y.ds, base, n)
            s.assume = assume
        out.append(s)
    n = len(OPS)
    for ki, kind in enumerate(ALL):
        base = KINDS[kind][0]
        k = ki
        two = [0, 2, 1, base - 1, 1, 2, base - 1, 1]
        for op1 in range(n):
            # what runs beside it: the same work, and other work
            for op2 in sorted({op1 if op1 != 11 else 10, (op1 * 5 + ki + 2) % n, (op1 + ki + 7) % n}):
                if op2 == 11:
                    continue
                if op1 in (3, 7) and op2 in (2, 6, 12, 13) or op2 in (3, 7) and op1 in (2, 6, 12, 13):
                    continue
                for na, nb in ((1, 1), (2, 1), (2, 2), (3, 2)) + (() if quick else ((1, 3), (3, 3), (4, 3), (5, 5))):
                    k += 1
                    if quick and k % 3 and (na, nb) != (2, 2):
                        continue
                    if op1 == 13 and kind == 'highp' and na + nb > 4:
                        continue
                    q = None
                    if op1 in (3, 7) or op2 in (3, 7):
                        q = (1, 2)[k % 2] if na == nb and base > 2 else 1 if na == nb else 0 if na < nb else 2
                    own = two if k % 4 == 0 and op2 not in (12, 13) else None
                    sc(kind, op1, op2, k & 1, na, k >> 1 & 1, nb, own, q)
            if op1 in (12, 13, 14, 15):
                continue
            for da, na, db, nb in ((NAN, 0, POS, 1), (PINF, 0, NEG, 2), (NEG, 1, NINF, 0), (POS, 0, NEG, 1), (POS, 2, POS, 0)):
                k += 1
                if quick and k % 2:
                    continue
                sc(kind, op1, op1 if op1 != 11 else 8, da, na, db, nb)
        for op1 in (0, 1, 2, 5, 6, 8, 9, 10, 11, 12, 13, 14):
            for na, nb in ((18, 17), (40, 9), (70, 70)):
                k += 1
                if kind == 'highp' and op1 in (2, 6, 12, 13) and na > 20 or kind == 'highp' and op1 == 13:
                    continue
                if quick and k % 3:
                    continue
                sc(kind, op1, (0, 8, 9)[k % 3], k & 1, na, k >> 1 & 1, nb, long=True)
    return out


META = {
    'title': 'use from several threads',
    'bounds': 'two pieces of work out of 17 (the eight arithmetic operators, comparisons, copies, const access, printing, both '
              'multiplication kernels, the addition, subtraction and comparison kernels, an assertion, a division by zero) on the same two '
              'operands of 1 to 3 digits (thorough 5) or on operands of their own, every digit value (for / fixed quotients), also '
              'non-finite and zero operands, and 9 to 70 digits with up to five symbolic; no write to the operands, their digits or a '
              'global variable that is not thread-local or being initialised under its guard: with no such write on any path the two '
              'threads share nothing written, so that every schedule gives the results of the sequential run',
    'outside': 'writing to one number from two threads; printing to one stream from two threads; code synchronised by mutexes or atomics '
               '(reported as undecided or unconfirmed unless the thread sanitizer sees a race)',
    'assumptions': TRUST + ['counterexamples are replayed in two threads under clang\'s thread sanitizer'],
}
