"""C27: laws of integer arithmetic over sequences of operations."""
from .common import *
from . import c04

LAWS = {0: '(a+b)-b=a', 1: '(a-b)+b=a', 2: 'a-b=-(b-a)', 3: 'a-a=0', 4: '(a+b)+c=a+(b+c)', 5: 'a+b=b+a', 6: 'a*b=b*a',
        7: 'a*(b+c)=a*b+a*c', 8: '(a*b)/b=a', 9: 'a-(a/b)*b', 10: 'a+b-c+c-b=a', 11: '(a*b)*c=a*(b*c)', 12: 'a+4b-4b=a',
        13: 'a+b>a iff b>0'}
TWO = (2, 4, 5, 6, 7, 9, 11)


def oracle(kind):
    base = KINDS[kind][0]

    def f(inp, oc):
        e = done(oc)
        if e:
            return e
        law = inp[0]
        a, p = rd_num(inp, 1)
        b, p = rd_num(inp, p)
        c, p = rd_num(inp, p)
        A, B, C = a.val(base), b.val(base), c.val(base)
        if law == 13:
            gt, pos = bit(oc.take()), bit(oc.take())
            x = take_num(oc)
            out = [('a + b > a exactly when b is positive', c_iff(gt, c_gt(B, 0))),
                   ('b > 0 is right', c_iff(pos, c_gt(B, 0))), ('the sum is exact', c_eq(x.val(base), A + B))]
        else:
            x = take_num(oc)
            y = take_num(oc) if law in TWO else None
            X = x.val(base)
            Y = y.val(base) if y else None
            want = {0: A, 1: A, 3: 0, 4: A + B + C, 5: A + B, 6: A * B, 7: A * B + A * C, 8: A, 10: A, 11: A * B * C, 12: A,
                    2: A - B}.get(law)
            out = []
            if want is not None:
                out.append(('the first side has the exact value', c_eq(X, want)))
            if law == 2:
                out.append(('b - a is the opposite of a - b', c_eq(X + Y, 0)))
            elif law == 9:
                ra, rb, rm = a.mag(base), b.mag(base), y.mag(base)
                out += [('the remainder is smaller in magnitude than the divisor', c_lt(rm, rb)),
                        ('the remainder has the sign of the dividend', c_or(c_eq(rm, 0), y.desc == a.desc))]
            elif Y is not None:
                out.append(('both sides are equal', c_eq(X, Y)))
                out.append(('both sides have the same representation', same_num(x, y)))
            if law != 9:
                out.append(('the library compares both sides equal', bit(oc.take())))
            out.append(('results are canonical', c_and(canonical(x, base), canonical(y, base) if y else True)))
        for n, nm in ((a, 'a'), (b, 'b'), (c, 'c')):
            out.append(('%s is unchanged' % nm, same_num(n, take_num(oc))))
        return out
    return f


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for ki, kind in enumerate(ALL):
        base = KINDS[kind][0]
        o = oracle(kind)
        rot = [ki]

        def sc(law, da, na, db, nb, dc=POS, nc=0, q=None, av=None, bv=None, sa=None, sb=None, scc=None, **kw):
            nm = '%s %s %s%d%s%d%s%d' % (kind, LAWS[law], sgn(da), na, sgn(db), nb, sgn(dc), nc)
            A = num('a', kind, da, na, sig=sa)
            if av is not None:
                A = [da, na] + list(av)
                nm += ' a=%s' % (av,)
            B = num('b', kind, db, nb, sig=sb)
            if bv is not None:
                B = [db, nb] + list(bv)
                nm += ' b=%s' % (bv,)
            if (sa, sb, scc) != (None, None, None):
                nm += ' significant %s %s %s' % (sa, sb, scc)
            s = Scenario(nm + ('' if q is None else ' quotient %d' % q), 'chain.cpp', 'vp_chain_' + kind,
                         [law] + A + B + num('c', kind, dc, nc, sig=scc), o,
                         weight=(na + nb + nc + 1) ** 2, limit=100, **kw)
            if q is not None:
                def assume(inp, q=q, n=max(na, nb), base=base):
                    a, p = rd_num(inp, 1)
                    b, p = rd_num(inp, p)
                    return quotient_is(q, a.ds, b.ds, base, n)
                s.assume = assume
            out.append(s)

        def signs(k):
            rot[0] += 1
            return [(rot[0] >> i) & 1 for i in range(k)]
        lin = dict(claims='int') if base & (base - 1) else {}
        n = 3 if quick else 4
        for law in (0, 1, 2, 5, 13, 3, 12):
            for na in range(n):
                for nb in range(n) if law != 3 else (0,):
                    if law == 12 and (na + nb > 2 and base > 2 or max(na, nb) > 1 and base > 2 or na + nb == 2 and base > 1 << 16):
                        continue
                    for da, db in c04.SIGNS:
                        if quick and law not in (0, 2) and na + nb > 2 and (na + nb + da + law) % 2:
                            continue
                        sc(law, da, na, db, nb, **lin)
        for na, nb in [(4, 4), (4, 2), (2, 4)]:
            for law in (0, 2):
                sc(law, *sum(zip(signs(2), (na, nb)), ()), **lin)
        for law in (4, 10):
            for na, nb, nc in [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (0, 1, 2)] + \
                    ([] if quick else [(2, 2, 2), (3, 1, 2), (3, 3, 3)]):
                for m in range(8):
                    if quick and (m + ki + na) % (4 if na + nb + nc > 3 else 2):
                        continue
                    if kind == 'highp' and na + nb + nc > 4:
                        continue
                    sc(law, m & 1, na, m >> 1 & 1, nb, m >> 2 & 1, nc, **lin)
        # products
        ml = dict(prefer='int', claims='int')
        for na, nb in [(1, 1), (2, 1), (2, 2), (1, 3)] + ([] if quick else [(3, 3), (4, 2), (4, 4)]):
            for da, db in c04.SIGNS if na + nb < 3 else [signs(2)]:
                if kind == 'highp':
                    sc(6, da, na, db, nb, sa=na, sb=nb, scc=0, **dict(ml, budget=60))
                else:
                    sc(6, da, na, db, nb, **ml)
        for na, nb, nc in [(1, 1, 1), (1, 2, 1)] + ([] if quick else [(2, 1, 1), (2, 2, 2)]):
            for law in (7, 11):
                da, db, dc = signs(3)
                if kind == 'highp' and law == 7:
                    continue
                if law == 7 and kind in ('lowp', 'medp'):
                    continue
                if law == 11 and (kind in ('highp', 'medp', 'lowp') or kind == 'base16' and na + nb > 2):
                    continue
                if law == 7:
                    dc = db
                sc(law, da, na, db, nb, dc, nc, **(dict(ml, sa=na, sb=nb, scc=nc) if kind == 'highp' else ml))
        # division
        dv = dict(prefer=c04.DEFAULT.get(kind, 'bv'), claims=c04.DEFAULT.get(kind, 'bv'))
        for av in ((1,), (2,), (3,), (5,), (base - 1,), (0, 1), (1, 1)) + (() if quick else ((7,), (6,), (4,), (2, 1))):
            if max(av) >= base or av == (base - 1,) and base > (10 if quick else 256) or av == (0, 1) and base > 256 or \
                    av == (1, 1) and base > 16:
                continue
            for nb in (1, 2) if quick else (1, 2, 3):
                if len(av) > 1 and nb > 1 and base > 2:
                    continue
                da, db = signs(2)
                sc(8, da, len(av), db, nb, av=av, sb=nb, **dv)
        allq = {'base2': [(1, 1), (2, 1), (2, 2), (3, 1)], 'base10': [(1, 1)]}.get(kind, [])
        for na, nb in allq:
            da, db = signs(2)
            sc(9, da, na, db, nb, sb=nb, **dv)
        for (na, nb), qs in {(1, 1): (1, 2, 3, 4, 5, 6, 7), (2, 2): (0, 1, 2, 3), (1, 2): (0,), (2, 1): (2, 5), (3, 3): (1, 2)}.items():
            for q in qs:
                if (na, nb) in allq or q >= base ** (na - nb + 1):
                    continue
                da, db = signs(2)
                sc(9, da, na, db, nb, q=q, sb=nb, **dv)
        # leading zeroes on either side
        for na, nb, sa, sb, q in ((3, 3, 2, 1, 2), (3, 3, 2, 2, 1), (3, 3, 2, 2, 2), (3, 3, 1, 1, 3), (2, 4, 2, 1, 3), (4, 2, 1, 1, 2), (4, 4, 3, 2, 2)):
            if sa != sb and base == 2:
                q = 2
            if q >= base ** (sa - sb + 1):
                continue
            da, db = signs(2)
            sc(9, da, na, db, nb, q=q, sa=sa, sb=sb, **dv)
        # concrete divisors
        for bv, na in [((1, 1), 2), ((base - 1, 1), 2), ((0, 1), 2), ((base - 1,), 2), ((2 % base, base - 1), 3), ((base - 1, base - 1), 2)]:
            for q in (1, 2, 3) if quick else (1, 2, 3, 4, 6, 9):
                if not any(bv) or q > (base ** na - 1) // sum(d * base ** i for i, d in enumerate(bv)):
                    continue
                da, db = signs(2)
                sc(9, da, na, db, len(bv), q=q, bv=bv, claims='int', prefer='int', fuel=400000)
    return out


META = {
    'title': 'laws over sequences of operations',
    'bounds': '14 laws (inverse, opposite, commutative, associative, distributive, cancelling, remainder, repeated accumulation, '
              'monotony) over all digit values of two or three operands of up to 2x2 digits (4x4 for the inverse laws, 1x1 for repeated accumulation, 2x2x1 for '
              'three operands; thorough up to 3x3x3), signs as listed per scenario; for (a*b)/b the listed values of a, for the '
              'remainder the listed quotients; all seven kinds',
    'outside': 'longer operands and other sequences; distributivity for 32-bit digits; associativity of * for 8, 16 and 32-bit digits',
    'assumptions': TRUST,
}
