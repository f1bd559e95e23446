"""C29: digit types read and write themselves as decimal numbers."""
from .common import *
from .c19 import text_is

DT = {'base2': 8, 'base8': 16, 'base10': 32, 'base16': 32, 'u64': 64}


def parse(cells, pos, w, prev):
    """what reading an unsigned decimal number does: (pos, state ok, eof, value as a polynomial, value too big, read at all)"""
    n = len(cells)
    while pos < n and cells[pos] in (9, 10, 11, 12, 13, 32):
        pos += 1
    v, k = Poly.of(0), 0
    if pos < n and cells[pos] == ord('+'):
        pos += 1
    while pos < n and (cells[pos].__class__ is E or 48 <= cells[pos] <= 57):
        v = v * 10 + (Poly.of(cells[pos]) - 48)
        k += 1
        pos += 1
    return pos, k, pos >= n, v


def oracle(w):
    def f(inp, oc):
        c = done(oc)
        if c:
            return c
        n = inp[1]
        cells = list(inp[2:2 + n])
        ret, eof, fail, v, fail2, v2 = [oc.take() for _ in range(6)]
        pos, k, e, x = parse(cells, 0, w, inp[0])
        top = 1 << w
        out = [('the stream is returned', c_eq(ret, 1))]
        if not k:
            return out + [('reading what is no number fails', c_eq(fail, 1)), ('the next read fails', c_eq(fail2, 1)),
                          ('the value is not invented', c_or(c_eq(v, 0), c_eq(v, inp[0])))]
        fits = c_lt(x, top)
        out += [('reading succeeds exactly when the number fits', c_iff(fits, c_eq(fail, 0))),
                ('the value is the number', c_implies(fits, c_eq(v, x))),
                ('a number that does not fit gives the largest', c_or(fits, c_eq(v, top - 1))),
                ('the end is noticed', c_iff(e, c_eq(eof, 1)))]
        pos, k, e, y = parse(cells, pos, w, inp[0])
        if not k:
            return out + [('there is no second number', c_eq(fail2, 1))]
        both = c_and(fits, c_lt(y, top))
        return out + [('the second number is read from the rest', c_iff(both, c_eq(fail2, 0))),
                      ('the second value is the number', c_implies(both, c_eq(v2, y)))]
    return f


def writes(inp, oc):
    c = done(oc)
    if c:
        return c
    return [('the digit is its decimal number', text_is(oc.take(), [('d', inp[0])])), ('the stream is returned', c_eq(oc.take(), 1)),
            ('the digit is unchanged', c_eq(oc.take(), inp[0]))]


def scenarios(tier):
    out = []
    for k, w in DT.items():
        full = len(str((1 << w) - 1))
        out.append(Scenario('%s digit output' % k, 'in.cpp', 'vp_write_' + k, [V('d', w, (1 << w) - 1)], writes))

        def sc(parts, name, k=k, w=w):
            tape = []
            i = 0
            for p in parts:
                if p.__class__ is int:
                    for _ in range(p):
                        tape.append(V('c%d' % i, 8, 57, 48))
                        i += 1
                else:
                    tape.extend(p.encode())
            out.append(Scenario('%s digit input %s' % (k, name), 'in.cpp', 'vp_read_' + k, [V('p', w, (1 << w) - 1), len(tape)] + tape,
                                oracle(w), prefer='int'))
        for n in range(full + 2 if tier == 'quick' else full + 8):
            sc([n], '%d digits' % n)
            sc([' \t\n', n], 'blanks and %d digits' % n)
            sc([n, '\n', (n + 1) // 2], '%d and %d digits' % (n, (n + 1) // 2))
            sc([n, ' ', full], '%d and %d digits after a blank' % (n, full))
            sc([n, 'x', 1], '%d digits and a letter' % n)
        sc(['+', 2], 'plus sign')
        sc(['x', 2], 'a letter')
        sc(['000', full], 'leading zeroes')
        sc([1, '.5'], 'a point')
    return out


META = {
    'title': 'digit stream input and output',
    'bounds': 'one value of any digit type of 8 to 64 bits written; texts of up to the longest value and one digit more (thorough: 7 '
              'more), of every digit value, with leading blanks, one more number or another character after it, read twice in a row',
    'outside': 'signed and very long texts, other format flags and locales; that libstdc++ prints and parses a 16 to 64-bit unsigned '
               'integer in decimal is assumed',
    'assumptions': TRUST + ['the model of std::istream extraction of unsigned integers and characters in vp/libc.py (cross-checked by '
                            'the replayed witnesses)'],
}
