"""C20: allocation failures."""
from .common import *
from . import c04

OPS = {'add': 0, 'sub': 1, 'mul': 2, 'div': 3}


def oracle(kind):
    base = KINDS[kind][0]

    def f(inp, oc):
        c = done(oc, 'the failure is reported by an exception the caller can catch')
        if c:
            return c
        k, op, form = inp[:3]
        a, p = rd_num(inp, 3)
        b, p = rd_num(inp, p)
        n = len(oc.out)
        # the result comes first when the binary form succeeded
        res = None
        if form == 0 and success(oc, a, b):
            res = take_num(oc)
        how = oc.take()
        a1, b1 = take_num(oc), take_num(oc)
        out = [('nothing is leaked', c_eq(oc.leak, 0)), ('the right operand is unchanged', same_num(b, b1)),
               ('only std::bad_alloc is thrown', how != 2)]
        if form == 0:
            out.append(('the left operand is unchanged', same_num(a, a1)))
        elif how == 1:
            out.append(('the left operand is infinite without digits', a1.desc in (PINF, NINF) and not a1.ds))
        r = res if form == 0 else a1
        if how == 0 and op < 3:
            x, y = a.val(base), b.val(base)
            out.append(('without a failure the result is exact',
                        c_eq(r.val(base), x + y if op == 0 else x - y if op == 1 else x * y)))
        return out
    return f


def success(oc, a, b):
    """the observation has a result before the outcome"""
    # thrown: how, a, b
    n = len(oc.out)
    return not (n == 1 + 2 + len(a.ds) + 2 + len(b.ds) and oc.out[0] in (1, 2) and oc.out[1] == a.desc and
                oc.out[2] == len(a.ds))


def scenarios(tier):
    out = []
    quick = tier == 'quick'

    def sc(kind, op, form, da, na, db, nb, kmax, q=None, sa=None, sb=None, **kw):
        base = KINDS[kind][0]
        s = Scenario('%s %s %s %s%d%s%d allocation fails%s' % (kind, op, ('binary', 'assigning')[form], sgn(da), na, sgn(db), nb,
                                                              '' if q is None else ' quotient %d' % q),
                     'fault.cpp', 'vp_fault_' + kind,
                     [V('k', 64, kmax), OPS[op], form] + num('a', kind, da, na, sig=sa) + num('b', kind, db, nb, sig=sb),
                     oracle(kind), san=True, weight=na + nb + (20 if op in ('mul', 'div') else 0), limit=100, **kw)
        if q is not None:
            def assume(inp):
                a, p = rd_num(inp, 3)
                b, p = rd_num(inp, p)
                return quotient_is(q, a.ds, b.ds, base, max(na, nb))
            s.assume = assume
        out.append(s)
    for ki, kind in enumerate(ALL):
        base = KINDS[kind][0]
        signs = c04.SIGNS
        sizes = [(0, 0), (0, 2), (2, 0), (1, 1), (2, 2), (1, 3), (3, 1), (4, 4)]
        if not quick:
            sizes += [(0, 5), (3, 3), (5, 2), (2, 5), (8, 8)]
        for na, nb in sizes:
            for form in (0, 1):
                for da, db in signs:
                    for op in ('add', 'sub'):
                        sc(kind, op, form, da, na, db, nb, 12)
                for da, db in signs if na + nb < 3 else (signs[(ki + na + form) % 4],):
                    if kind == 'highp':
                        if na + nb <= 4:
                            sc(kind, 'mul', form, da, na, db, nb, 12, sa=na, sb=nb, prefer='int')
                    elif na + nb <= (4 if quick else 6):
                        sc(kind, 'mul', form, da, na, db, nb, 60, prefer='int')
        pr = dict(prefer=c04.DEFAULT.get(kind, 'bv'))
        for (na, nb), q in [((0, 1), 0), ((1, 1), 1), ((1, 1), 0), ((2, 2), 2), ((2, 1), 3), ((1, 2), 0), ((1, 1), 5), ((3, 3), 1)] + \
                ([] if quick else [((2, 1), 7), ((4, 3), 2), ((2, 1), base)]):
            if q and q >= base ** (na - nb + 1):
                continue
            for form in (0, 1):
                for da, db in signs if na + nb < 3 else (signs[(ki + form + q) % 4],):
                    sc(kind, 'div', form, da, na, db, nb, 60, q=q, sb=nb, **pr)
        for na in range(3):
            for form in (0, 1):
                sc(kind, 'div', form, signs[na][0], na, signs[na][1], 2, 12, sb=0)
    return out


META = {
    'title': 'allocation failures',
    'technique': 'symbolic execution of the LLVM IR with the failing allocation as a symbolic variable, claims decided by z3, '
                 'counterexamples replayed natively',
    'bounds': 'any single allocation failing (number 0 to 12 for + and -, 0 to 60 for * and /) for operands of size pairs up to '
              '4x4 digits (+, -), 2x2 (*), and for / up to 3x3 digits with quotients 0 to 5, every digit value, all signs, binary '
              'and assigning forms, all seven kinds',
    'outside': 'longer operands; more than one failure in one operation; comparisons, copies and construction',
    'assumptions': TRUST,
}
