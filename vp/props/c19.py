"""C19: stream output."""
from .common import *


def expected(n):
    if n.desc == PINF:
        return [('t', b'+INF')]
    if n.desc == NINF:
        return [('t', b'-INF')]
    if n.desc == NAN:
        return [('t', b'NaN')]
    out = [('t', b'-')] if n.desc == NEG else []
    if not n.ds:
        return out + [('t', b'0')]
    return out + [('d', d) for d in reversed(n.ds)]


def text_is(obs, want):
    """claim: the observed text is the expected pieces"""
    if not (isinstance(obs, tuple) and obs[0] == 'S'):
        return False
    if isinstance(obs[1], bytes):
        return obs[1] == b''.join(v if k == 't' else str(v).encode() for k, v in want)
    # symbolic text: characters and decimal numbers
    exp = []
    for k, v in want:
        if k == 't':
            exp.extend(('c', b) for b in v)
        elif isinstance(v, E):
            exp.append(('d', v))
        else:
            exp.extend(('c', b) for b in str(v).encode())
    got = []
    for k, v in obs[1]:
        if k != 'c' and not isinstance(v, E):
            got.extend(('c', b) for b in str(v).encode())
        else:
            got.append(('c' if k == 'c' else 'd', v))
    if len(got) != len(exp):
        return False
    out = []
    for (k, v), (k2, v2) in zip(got, exp):
        if k != k2:
            # one decimal digit printed as a character
            if k == 'c' and k2 == 'd' and isinstance(v, E):
                out.append(c_and(c_lt(v2, 10), c_eq(v, Poly.of(v2) + 48)))
                continue
            return False
        out.append(c_eq(v, v2))
    return c_and(*out)


def oracle(inp, oc):
    c = done(oc)
    if c:
        return c
    a, p = rd_num(inp, 0)
    s1 = oc.take()
    ret = oc.take()
    r = take_num(oc)
    s2 = oc.take()
    e = expected(a)
    return [('the text is right', text_is(s1, e)), ('the stream is returned', c_eq(ret, 1)),
            ('the number is unchanged', same_num(a, r)), ('two numbers in a row', text_is(s2, e + e))]


def digit(inp, oc):
    c = done(oc)
    if c:
        return c
    return [('the digit is its decimal number', text_is(oc.take(), [('d', inp[0])]))]


def scenarios(tier):
    out = []
    for kind in ALL:
        base, bw = KINDS[kind]
        for d in range(5):
            for n in range(6 if tier == 'quick' else 12) if d < 2 else (0,):
                out.append(Scenario('%s output %d/%d' % (kind, d, n), 'out.cpp', 'vp_show_' + kind, num('a', kind, d, n), oracle))
        for n, z in ((17, 0), (40, 3), (130, 0), (300, 1)):
            out.append(Scenario('%s output long %d leading %d' % (kind, n, z), 'out.cpp', 'vp_show_' + kind,
                                [n % 2, n] + (long_digits('a', kind, n - z, 'mix', (0, n // 2, -1)) + [0] * z), oracle, fuel=3000000,
                                weight=n))
        if kind in ('base8', 'base10', 'base16'):
            out.append(Scenario('%s digit output' % kind, 'out.cpp', 'vp_digit_' + kind, [V('d', bw, (1 << bw) - 1)], digit))
    return out


META = {
    'title': 'stream output',
    'bounds': 'numbers of every descriptor with 0 to 5 digits (thorough 11) of every value, and of 17 to 300 digits (three of them symbolic); one and two insertions in a row into a '
              'stream in its default format; a 16 or 32-bit digit by itself; all seven kinds',
    'outside': 'longer numbers; streams with other format flags, widths or locales; that libstdc++ prints an unsigned integer in '
               'decimal is assumed',
    'assumptions': TRUST,
}
