"""C14: digit editing."""
from .common import *

OPS = ('push_front', 'pop_front', 'push_back', 'pop_back', 'push', 'pop', 'resize', 'resize to', 'set', 'get', 'const get')


def oracle(inp, oc):
    c = done(oc)
    if c:
        return c
    a, p = rd_num(inp, 0)
    steps = inp[p]
    p += 1
    ds = list(a.ds)
    out = []
    for s in range(steps):
        d = inp[p + 2]
        p += 3
        op, pos, size = oc.take(), oc.take(), oc.take()
        got = take_num(oc)
        read = oc.take()
        if op == 0:
            ds.insert(0, d)
        elif op == 1:
            del ds[0]
        elif op == 2:
            ds.append(d)
        elif op == 3:
            ds.pop()
        elif op == 4:
            ds.insert(pos, d)
        elif op == 5:
            del ds[pos]
        elif op in (6, 7):
            fill = d if op == 7 else 0
            ds = ds[:pos] + [fill] * (pos - len(ds))
        elif op == 8:
            ds[pos] = d
        what = 'step %d %s' % (s + 1, OPS[op])
        out.append((what + ': the digits and the sign are right', same_num(Num(a.desc, ds), got)))
        out.append((what + ': size() is the number of digits', c_eq(size, len(ds))))
        if op in (9, 10):
            out.append((what + ': the digit read', c_eq(read, ds[pos])))
    return out


def step(kind, k, op=None, pos=None, npos=4):
    base, bw = KINDS[kind]
    return [V('op%d' % k, 8, 10) if op is None else op, V('pos%d' % k, 8, npos) if pos is None else pos,
            V('d%d' % k, bw, base - 1)]


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for ki, kind in enumerate(ALL):
        for d in (POS, NEG):
            for n in range(5 if quick else 8):
                # every operation at every position
                out.append(Scenario('%s edit %s%d one step' % (kind, sgn(d), n), 'edit.cpp', 'vp_edit_' + kind,
                                    num('a', kind, d, n) + [1] + step(kind, 0, npos=n + 2), oracle, weight=n))
        for n in range(3 if quick else 4):
            for op in range(11):
                if n == 0 and op in (1, 3, 5, 8, 9, 10):
                    continue
                # the first operation fixed, then any operation at any position
                out.append(Scenario('%s edit %d %s, then any' % (kind, n, OPS[op]), 'edit.cpp', 'vp_edit_' + kind,
                                    num('a', kind, (n + op) & 1, n) + [2] + step(kind, 0, op, None, n + 1) +
                                    step(kind, 1, None, None, n + 2), oracle, weight=20 * n + 10, limit=100))
        # long numbers, growth in several steps
        for op in (0, 2, 4):
            out.append(Scenario('%s edit 7 %s five times' % (kind, OPS[op]), 'edit.cpp', 'vp_edit_' + kind,
                                num('a', kind, POS, 7) + [5] + [c for k in range(5) for c in step(kind, k, op, 3)], oracle))
        # any one operation at both ends and in the middle of long numbers
        for n in (17, 40, 260):
            for op in range(11):
                for pos in (0, n // 2, n - 1) if op not in (0, 1, 2, 3) else (0,):
                    if quick and (op + pos + ki + n) % 2:
                        continue
                    out.append(Scenario('%s edit long %d %s %d' % (kind, n, OPS[op], pos), 'edit.cpp', 'vp_edit_' + kind,
                                        long_num('a', kind, op & 1, n, 'mix', (0, n // 2, n - 1), False) + [1] +
                                        step(kind, 0, op, pos), oracle, fuel=1000000, weight=n // 8))
        for n in (20, 300):
            out.append(Scenario('%s edit long %d: insert, remove, read' % (kind, n), 'edit.cpp', 'vp_edit_' + kind,
                                long_num('a', kind, POS, n, 'mix', (0, n // 2, n - 1), False) + [4] + step(kind, 0, 4, n - 3) +
                                step(kind, 1, 5, 2) + step(kind, 2, 0, 0) + step(kind, 3, 10, n - 2), oracle, fuel=2000000, weight=n // 8))
        out.append(Scenario('%s edit 3 grow, shrink, grow' % kind, 'edit.cpp', 'vp_edit_' + kind,
                            num('a', kind, NEG, 3) + [3] + step(kind, 0, 7, 9) + step(kind, 1, 6, 2) + step(kind, 2, 6, 12),
                            oracle))
    return out


META = {
    'title': 'digit editing',
    'bounds': 'numbers of 0 to 4 digits (thorough 7) of every value: any one operation at any position with any digit; of 0 to 2 '
              'digits (thorough 3): any two operations in sequence; of 7 digits: five insertions in sequence; of 17 to 300 digits: one operation at the ends and in the middle; both signs, all '
              'seven kinds',
    'outside': 'longer numbers and sequences; operations outside their documented positions (removing from an empty number, '
               'positions beyond the end)',
    'assumptions': TRUST,
}
