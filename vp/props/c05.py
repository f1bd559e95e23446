"""C05: zero operands."""
from .common import *
from . import c01


def is_zero(n):
    return c_and(*[c_eq(d, 0) for d in n.ds]) if n.ds else True


def oracle(kind):
    base = KINDS[kind][0]

    def f(inp, oc):
        c = done(oc)
        if c:
            return c
        op = inp[0]
        a, b = c01.operands(inp)
        r = take_num(oc)
        if op == 3:
            bz = is_zero(b)
            inf = r.desc == (NINF if a.desc != b.desc else PINF) and not r.ds
            return [('division by zero gives the infinity with the sign', c_implies(bz, inf)),
                    ('a non-zero divisor gives zero', c_or(bz, r.finite() and c_eq(r.val(base), 0)))]
        x, y = a.val(base), b.val(base)
        want = x + y if op == 0 else x - y if op == 1 else Poly.of(0)
        return [('the result is finite', r.finite()), ('the result is exact', c_eq(r.val(base), want))]
    return f


def scenarios(tier):
    out = []
    top = 3 if tier == 'quick' else 6
    for kind in ALL:
        o = oracle(kind)
        for op in ('add', 'sub', 'mul', 'div'):
            for da in (POS, NEG):
                for db in (POS, NEG):
                    i = 0
                    for z in range(3 if tier == 'quick' else 5):        # digits of the zero
                        for n in range(top + 1):
                            i += 1
                            forms = (0, 1) if n < 2 or tier != 'quick' else ((i + da) % 2,)
                            for form in forms:
                                # the zero on the right: the left operand is anything
                                out.append(c01.scenario(op, kind, form, da, n, db, z, orc=o, sb=0, claims='int'))
                                # the zero on the left; for a division the divisor is anything but zero
                                # (x / 0 is the other case)
                                out.append(c01.scenario(op, kind, form, da, z, db, n, orc=o, sa=0, claims='int'))
            for z in range(3):
                for form in (2, 3):
                    out.append(c01.scenario(op, kind, form, z & 1, z, POS, 0, orc=o, sa=0))
    return out


META = {
    'title': 'zero operands',
    'bounds': 'zeroes of 0 to 2 digits with either sign on the left or the right of +, -, *, / (binary, assigning, aliased), '
              'the other operand any value of 0 to 3 digits including leading zeroes (thorough: 4 and 6); all seven kinds',
    'outside': 'longer operands',
    'assumptions': TRUST,
}
