"""C31: memory runs out while numbers are built, copied and edited."""
from .common import *

HOW = ('copy construct', 'copy assign', 'move construct', 'move assign', 'push_front', 'push_back', 'push', 'pop', 'resize', 'clear', 'set',
       'construct', 'set NaN', 'pop_front', 'pop_back', 'get')
# what never needs memory
FREE = (2, 3, 9, 10, 12, 15)


def n_le(*ns):
    return all(x <= y for x, y in zip(ns, ns[1:]))


def oracle(kind):
    base = KINDS[kind][0]

    def f(inp, oc):
        c = done(oc, 'the failure is reported by an exception the caller can catch')
        if c:
            return c
        k, how, pos, d = inp[:4]
        a, p = rd_num(inp, 4)
        ds = list(a.ds)
        r = oc.take()
        out = [('nothing is leaked', c_eq(oc.leak, 0)), ('only std::bad_alloc is thrown', r != 2)]
        if how in FREE:
            out.append(('%s needs no memory' % HOW[how], r == 0))
        want = a
        if r == 0:
            if how == 4:
                ds.insert(0, d)
            elif how == 5:
                ds.append(d)
            elif how == 6:
                ds.insert(pos, d)
            elif how == 7:
                del ds[pos]
            elif how == 8:
                ds = ds[:pos] + [d] * (pos - len(ds))
            elif how == 10:
                ds[pos] = d
            elif how == 13:
                del ds[0]
            elif how == 14:
                ds.pop()
            want = Num(a.desc, ds)
            if how == 9:
                want = Num(POS, [])
            if how == 12:
                want = Num(NAN, [])
        if how == 8 and r == 1:
            got = take_num(oc)
            m = len(got.ds)
            out.append(('no digit is lost after the failure', n_le(len(ds), m, pos) and same_num(Num(a.desc, ds + [d] * (m - len(ds))), got)))
        elif how not in (2, 3):
            out.append(('the number is %s' % ('right' if r == 0 else 'unchanged after the failure'), same_num(want, take_num(oc))))
        if how in (0, 2, 11):
            t = take_num(oc)
            if r == 0 and how != 11:
                out.append(('the copy is right', same_num(a, t)))
            elif r == 0:
                out.append(('the number denotes its digits', c_eq(t.val(base), a.val(base))))
        if how in (1, 3):
            if r == 0:
                out.append(('the target is the source', same_num(a, take_num(oc))))
            out.append(('the target can be assigned again', same_num(a, take_num(oc))))
        out.append(('the number can be assigned again', same_num(a, take_num(oc))))
        s = take_num(oc)
        if a.finite():
            out.append(('and used in arithmetic', c_eq(s.val(base), a.val(base) + a.val(base))))
        return out
    return f


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    k = 0
    for ki, kind in enumerate(ALL):
        base, bw = KINDS[kind]

        def sc(how, pos, d, n, pd, pn, kmax=3, long=False):
            a = long_num('a', kind, d, n, 'mix', (0, n // 2, -1)) if long else num('a', kind, d, n)
            p = long_num('p', kind, pd, pn, 'max', (0,)) if long and pn > 2 else num('p', kind, pd, pn)
            out.append(Scenario('%s %s%s %s%d over %s%d' % (kind, HOW[how], ' %d' % pos if how in (6, 7, 8, 10) else '', '+-nif'[d], n,
                                                           '+-nif'[pd], pn), 'memex.cpp', 'vp_memex_' + kind,
                                [V('k', 64, kmax), how, pos, V('d', bw, base - 1)] + a + p, oracle(kind), weight=n + pn, san=True,
                                limit=100, fuel=3000000))
        for how in range(16):
            for n in range(4 if quick else 6):
                if n == 0 and how in (7, 10, 13, 14) or how == 11 and n > 3:
                    continue
                for pos in sorted({0, n // 2, n - 1, n} if how == 6 else {0, n // 2, n - 1} if how in (7, 10) else
                                  {0, n - 1, n, n + 1, n + 9} if how == 8 else {0}):
                    if pos < 0:
                        continue
                    for pd, pn in ((POS, 0), (NEG, 1), (POS, 5), (PINF, 0), (NAN, 0)) if how in (1, 3) else ((POS, 0),):
                        k += 1
                        if quick and how in (1, 3) and k % 2:
                            continue
                        sc(how, pos, k & 1, n, pd, pn)
            if how in (0, 1, 2, 3, 4, 5, 8):
                for d in (NAN, PINF, NINF):
                    k += 1
                    sc(how, 2, d, 0, k & 1, k % 3)
            if how == 11:
                continue
            for n, pn in ((17, 3), (64, 30), (33, 80)):
                k += 1
                if quick and k % 2:
                    continue
                sc(how, n // 2 if how != 8 else n + 40 * (k & 1), k & 1, n, k >> 1 & 1, pn, long=True)
    return out


META = {
    'title': 'allocation failure in construction, copies and editing',
    'bounds': 'sixteen operations (construction from a list, copies and moves, the editing functions, setDescriptor, clear, const access) '
              'on numbers of 0 to 3 digits (thorough 5), targets of 0 to 5, also non-finite ones; the failing allocation is any of the first '
              'four (or none), every digit value, inserted digit and position; 17 to 64 digits with three symbolic',
    'outside': 'longer numbers with every digit symbolic; containers other than the built-in kinds\' vector',
    'assumptions': TRUST,
}
