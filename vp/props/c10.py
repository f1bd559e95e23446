"""C10: operands are preserved, aliasing is harmless."""
from .common import *
from . import c04, longs

OPS = {'add': 0, 'sub': 1, 'mul': 2, 'div': 3}


def forms(inp, oc):
    c = done(oc)
    if c:
        return c
    a, p = rd_num(inp, 1)
    b, p = rd_num(inp, p)
    r, a1, b1, x, b2 = take_num(oc), take_num(oc), take_num(oc), take_num(oc), take_num(oc)
    ref = oc.take()
    return [('the binary form leaves the left operand', same_num(a, a1)),
            ('the binary form leaves the right operand', same_num(b, b1)),
            ('the assigning form leaves the right operand', same_num(b, b2)),
            ('the assigning form gives the number of the binary form', same_num(r, x)),
            ('the assigning form returns its left operand', c_eq(ref, 1))]


def alias(inp, oc):
    c = done(oc)
    if c:
        return c
    a, p = rd_num(inp, 1)
    want, copy, r, a1, x = take_num(oc), take_num(oc), take_num(oc), take_num(oc), take_num(oc)
    ref = oc.take()
    return [('the copy is unchanged', same_num(a, copy)),
            ('an operand used on both sides is unchanged', same_num(a, a1)),
            ('a op a equals a op copy', same_num(want, r)),
            ('a op= a equals a op copy', same_num(want, x)),
            ('the assigning form returns its left operand', c_eq(ref, 1))]


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for ki, kind in enumerate(ALL):
        ls = []
        for op in ('add', 'sub'):
            for t, n in enumerate(longs.lengths(tier, ki)):
                ls += longs.addsub(op, kind, n, None, tier, t)
        ls += longs.mul(kind, None, tier, ki) + longs.div(kind, None, tier, ki)
        for k, s in enumerate(ls):
            same = s.tape[1] >= 2
            if quick and k % 3 != ki % 3 and not same or s.weight > 400:
                continue
            a, p = rd_num(s.tape, 2)
            s.name += ' forms'
            s.harness, s.entry = 'forms.cpp', ('vp_alias_' if same else 'vp_forms_') + kind
            s.tape = s.tape[:1] + (s.tape[2:p] if same else s.tape[2:])
            s.oracle = alias if same else forms
            if s.assume:
                def assume(inp, f=s.assume):
                    return f(inp[:1] + [0] + inp[1:])
                s.assume = assume
            s.claims = 'bv'
            out.append(s)
        base = KINDS[kind][0]
        for op in ('add', 'sub', 'mul', 'div'):
            for da in range(5):
                for db in range(5):
                    fin = da < 2 and db < 2
                    sz = [(0, 0), (0, 2), (2, 0), (1, 1), (2, 2), (2, 1), (3, 1), (1, 3)] if fin else \
                        [((2, 0)[da > 1], (2, 0)[db > 1])]
                    if not quick and fin:
                        sz += [(3, 3), (4, 2), (2, 4), (4, 4)]
                    for na, nb in sz:
                        sig = [(None, None)]
                        kw = {}
                        if op == 'mul':
                            kw['prefer'] = 'int'
                            if kind == 'highp':
                                sig = [(i, j) for i in shapes(na) for j in shapes(nb)]
                        elif op == 'div' and fin and na and nb:
                            sig = [(None, nb)]
                            if na == 3:
                                continue
                            kw['prefer'] = c04.DEFAULT.get(kind, 'bv')
                            if na < nb:
                                kw['q'] = 0
                            elif na == nb:
                                kw['q'] = 1
                            else:
                                kw['q'] = 3
                        q = kw.pop('q', None)
                        for sa, sb in sig:
                            s = Scenario('%s %s forms %d/%d %d/%d %s' % (kind, op, da, na, db, nb, (sa, sb, q)),
                                         'forms.cpp', 'vp_forms_' + kind,
                                         [OPS[op]] + num('a', kind, da, na, sig=sa) + num('b', kind, db, nb, sig=sb), forms,
                                         weight=na + nb + (5 if op in ('mul', 'div') else 0), limit=100, **kw)
                            if q is not None:
                                def assume(inp, q=q, n=max(na, nb), base=base):
                                    a, p = rd_num(inp, 1)
                                    b, p = rd_num(inp, p)
                                    return quotient_is(q, a.ds, b.ds, base, n)
                                s.assume = assume
                            out.append(s)
                for n in range(4) if da < 2 else (0,):
                    for sa in shapes(n) if op == 'mul' and kind == 'highp' else (n,) if op == 'div' else (None,):
                        out.append(Scenario('%s %s alias %d/%d %s' % (kind, op, da, n, sa), 'forms.cpp', 'vp_alias_' + kind,
                                            [OPS[op]] + num('a', kind, da, n, sig=sa), alias, weight=2 * n,
                                            prefer='int' if op == 'mul' else 'bv'))
                        out[-1].claims = 'bv'
    return out


META = {
    'title': 'operands, aliasing, forms',
    'bounds': 'finite operands of seven size pairs up to 3x1, 2x2, 1x3 digits with every digit value (for / a fixed quotient), '
              'every combination with NaN and infinities, all signs; a op= b against a op b on the same input, a op a and '
              'a op= a against a equal copy for 0 to 3 digits; all seven kinds (thorough: up to 4x4)'
              '; the long operands of C01 to C04 (5 to 300 digits, up to three of them symbolic)',
    'outside': 'longer operands with more symbolic digits',
    'assumptions': TRUST,
}
