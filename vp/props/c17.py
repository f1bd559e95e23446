"""C17, C18: digit types against their wrapped integers."""
from .common import *

TYPES = {'uint8': 8, 'uint16': 16, 'uint32': 32, 'base2_single': 8, 'base2_double': 16, 'base8_single': 16, 'base8_double': 32,
         'base10_single': 32, 'base10_double': 64, 'base16_single': 32, 'base16_double': 64}
GROUPS = {0: '+-&|^', 1: '/%', 2: ('<<', '>>'), 3: '*', 4: 'unary', 5: ('==', '!=', '<', '<=', '>', '>='), 6: 'convert'}


def apply(op, x, y, w):
    if op == '+':
        return X.add(x, y, w)
    if op == '-':
        return X.sub(x, y, w)
    if op == '*':
        return X.mul(x, y, w)
    if op == '&':
        return X.and_(x, y, w)
    if op == '|':
        return X.or_(x, y, w)
    if op == '^':
        return X.xor(x, y, w)
    if op == '/':
        return X.udiv(x, y, w)
    if op == '%':
        return X.urem(x, y, w)
    if op == '<<':
        return X.shl(x, y, w)
    if op == '>>':
        return X.lshr(x, y, w)
    if op == '==':
        return X.eq(x, y, w)
    if op == '!=':
        return X.not_(X.eq(x, y, w))
    if op == '<':
        return X.ult(x, y, w)
    if op == '<=':
        return X.ule(x, y, w)
    if op == '>':
        return X.ult(y, x, w)
    if op == '>=':
        return X.ule(y, x, w)


def to64(v, w):
    return X.zext(v, w, 64) if isinstance(v, E) and w != 64 else v


def oracle(w):
    def f(inp, oc):
        c = done(oc)
        if c:
            return c
        g, x, y = inp
        out = []

        def see(what, v, vw=w):
            o = oc.take()
            out.append((what, c_bit(X.eq(o, to64(v, vw), 64))))
        if g in (0, 1, 2, 3):
            for op in GROUPS[g]:
                v = apply(op, x, y, w)
                for what in ('digit %s digit', 'digit %s integer', 'integer %s digit', 'digit %s= digit'):
                    see(what % op, v)
                see('digit %s= digit returns its target' % op, 1)
                see('the right operand of %s= is unchanged' % op, y)
                see('digit %s= integer' % op, v)
                see('digit %s= integer returns its target' % op, 1)
                see('integer %s= digit' % op, v)
                see('integer %s= digit returns its target' % op, 1)
                see('the left operand of %s is unchanged' % op, x)
                see('the right operand of %s is unchanged' % op, y)
        elif g == 4:
            inc, dec = X.add(x, 1, w), X.sub(x, 1, w)
            for what, v in (('x++', x), ('after x++', inc), ('x--', x), ('after x--', dec), ('++x', inc), ('++x returns x', 1),
                            ('--x', dec), ('--x returns x', 1)):
                see(what, v)
            nx = X.eq(x, 0, w)
            see('!x', X.zext(nx, 1, 64) if isinstance(nx, E) else nx, 64)
            see('+x', x)
            see('-x', X.sub(0, x, w))
            see('~x', X.xor(x, (1 << w) - 1, w))
            see('the operand is unchanged', x)
        elif g == 5:
            for op in GROUPS[5]:
                v = apply(op, x, y, w)
                for what in ('digit %s digit', 'digit %s integer', 'integer %s digit'):
                    see(what % op, v, 1)
                see('the left operand of %s is unchanged' % op, x)
                see('the right operand of %s is unchanged' % op, y)
        else:
            for what, v in (('default value', 0), ('copy', x), ('the copied digit', x), ('move', x), ('from an integer', y),
                            ('from a temporary integer', x), ('copy assignment', x), ('copy assignment returns its target', 1),
                            ('the assigned digit', x), ('move assignment', y), ('move assignment returns its target', 1),
                            ('assignment of an integer', x), ('assignment of an integer returns its target', 1),
                            ('the assigned integer', x), ('assignment of a temporary', y),
                            ('assignment of a temporary returns its target', 1), ('self assignment', y),
                            ('conversion back', y), ('the public member', x), ('independent copies', x),
                            ('assignment', y)):
                see(what, v)
        return out
    return f


def scenarios(tier, groups=(0, 1, 2, 3, 4)):
    out = []
    for t, w in TYPES.items():
        for g in groups:
            y = V('y', w, (1 << w) - 1, 1 if g == 1 else 0) if g != 2 else V('y', w, w - 1)
            out.append(Scenario('%s %s' % (t, ' '.join(GROUPS[g]) if g not in (4, 6) else GROUPS[g]), 'ints.cpp', 'vp_ints_' + t,
                                [g, V('x', w, (1 << w) - 1), y], oracle(w)))
    return out


META = {
    'title': 'digit-type arithmetic',
    'bounds': 'every pair of values of all eleven built-in digit types (8 to 64 bits); divisors not zero, shift counts below the '
              'width; all operand orders and assigning forms',
    'outside': 'operands of mixed integer types, shift counts of the width or more',
    'assumptions': TRUST,
}
