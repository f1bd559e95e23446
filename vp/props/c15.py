"""C15: checked subscripts."""
from .common import *

FORMS = ('const read', 'read', 'write')


def oracle(inp, oc):
    c = done(oc, 'the access ends normally or with the library error')
    if c:
        return c
    form, i, d = inp[:3]
    form &= 3
    a, p = rd_num(inp, 3)
    how, code, got = oc.take(), oc.take(), oc.take()
    r = take_num(oc)
    n = len(a.ds)
    out = [('throws exactly when the index is not below the size', c_iff(c_eq(how, 1), c_ge(i, n))),
           ('nothing else is thrown', c_lt(how, 2)),
           ('the code is the library error', c_implies(c_eq(how, 1), c_eq(code, 2))),
           ('the sign and the size are unchanged', r.desc == a.desc and len(r.ds) == n)]
    if len(r.ds) == n:
        for k in range(n):
            if form == 2:
                out.append(('digit %d after the write' % k, c_or(c_and(c_eq(i, k), c_eq(r.ds[k], d)),
                                                                 c_and(c_not(c_eq(i, k)), c_eq(r.ds[k], a.ds[k])))))
            else:
                out.append(('digit %d is unchanged' % k, c_eq(r.ds[k], a.ds[k])))
                out.append(('digit %d is read' % k, c_implies(c_eq(i, k), c_eq(got, a.ds[k]))))
    return out


def scenarios(tier):
    out = []
    for ki, kind in enumerate(ALL):
        base, bw = KINDS[kind]
        for k, n in enumerate((17, 40, 130) if tier == 'quick' else (17, 40, 130, 257, 300)):
            for form in range(3):
                every = k == 0 and (form + ki) % 3 == 0 or tier != 'quick' and n < 50
                ix = [V('i', 64, (1 << 64) - 1)] if every else [V('i', 64, (1 << 64) - 1, n), 0, n // 2, n - 1][(form + ki) % 2:]
                for j, i in enumerate(ix):
                    out.append(Scenario('%s subscript %s long %d %d%s' % (kind, FORMS[form], n, j, ' every index' if every else ''),
                                        'edit.cpp', 'vp_subscript_' + kind, [form, i, V('d', bw, base - 1)] +
                                        long_num('a', kind, k % 2, n, 'mix', (0, n // 2, n - 1), False), oracle, fuel=1000000,
                                        weight=n * 4))
        for form in range(3):
            for d in range(5):
                for n in range(5 if tier == 'quick' else 9) if d < 2 else (0,):
                    out.append(Scenario('%s subscript %s %d/%d' % (kind, FORMS[form], d, n), 'edit.cpp', 'vp_subscript_' + kind,
                                        [form, V('i', 64, (1 << 64) - 1), V('d', bw, base - 1)] + num('a', kind, d, n),
                                        oracle, weight=n))
                    if d < 2 and n < 3:
                        out.append(Scenario('%s subscript %s %d/%d shortened' % (kind, FORMS[form], d, n), 'edit.cpp',
                                            'vp_subscript_' + kind,
                                            [form + 4, V('i', 64, (1 << 64) - 1), V('d', bw, base - 1)] +
                                            num('a', kind, d, n), oracle, weight=n))
    return out


META = {
    'title': 'checked subscripts',
    'bounds': 'numbers of 0 to 4 digits (thorough 8) of every value and descriptor, every 64-bit index, constant and writable '
              'access, also on numbers that were longer before (0 to 2 digits), of long numbers (17 to 130 digits) the ends, the middle and every index outside, all seven kinds; a read or write outside the digits is a memory error of the symbolic run',
    'outside': 'longer numbers; of long numbers the indices that are not listed',
    'assumptions': TRUST,
}
