"""C28: operations depend on nothing but their operands."""
from .common import *
from . import c04

OPS = ('add', 'sub', 'mul', 'div')
MIDS = ('add', 'sub', 'mul', 'div', 'compare', 'print', 'bad subscript', 'allocation failure', 'edit', 'non-finite')


def oracle(inp, oc):
    c = done(oc)
    if c:
        return c
    mid = inp[1]
    ns = []
    p = 2
    for _ in range(4):
        n, p = rd_num(inp, p)
        ns.append(n)

    def middle():
        if mid < 4 or mid == 8:
            return [take_num(oc)]
        if mid in (4, 5):
            return [oc.take()]
        if mid == 6:
            return [oc.take(), oc.take()]
        if mid == 9:
            return [take_num(oc) for _ in range(4)]
        return []
    r1 = take_num(oc)
    m1 = middle()
    r2 = take_num(oc)
    m2 = middle()
    r3, r4, r5 = take_num(oc), take_num(oc), take_num(oc)
    out = [('the same result after other operations', same_num(r1, r2)),
           ('the same result assigned to a number that held another', same_num(r1, r3)),
           ('the same result in a number that was moved from', same_num(r1, r4)),
           ('the same result in a number that was infinite', same_num(r1, r5))]
    for x, y in zip(m1, m2):
        if isinstance(x, Num):
            out.append(('the same result of the operation between', same_num(x, y)))
        elif isinstance(x, tuple):
            out.append(('the same text', x == y))
        else:
            out.append(('the same answer', c_eq(x, y)))
    for n in ns:
        out.append(('the operands are unchanged', same_num(n, take_num(oc))))
    return out


def scenarios(tier):
    out = []
    quick = tier == 'quick'

    def sc(kind, op, mid, sz, sg, top=False, q=None, qm=None):
        base = KINDS[kind][0]
        div, mdiv = op == 3, mid == 3
        tape = [op, mid]
        for i, nm in enumerate('abcd'):
            t = top
            if i == 1 and div or i == 3 and mdiv:
                t = True
            tape += num(nm, kind, sg >> i & 1, sz[i], t)
        s = Scenario('%s %s, %s between %s%s' % (kind, OPS[op], MIDS[mid], ' '.join('%s%d' % (sgn(sg >> i & 1), sz[i]) for i in range(4)),
                                                ' top' if top else ''),
                     'seq.cpp', 'vp_seq_' + kind, tape, oracle, weight=sum(sz) ** 2 + (20 if div or mdiv else 0), limit=100,
                     prefer='int' if op == 2 or mid in (2, 7) else c04.DEFAULT.get(kind, 'bv') if div or mdiv else 'bv', fuel=400000)
        s.claims = 'bv'
        if div or mdiv:
            if div:
                s.name += ' quotient %d' % q
            if mdiv:
                s.name += ' quotient between %d' % qm

            def assume(inp, q=q, qm=qm, base=base, n=max(sz), div=div, mdiv=mdiv):
                ns = []
                p = 2
                for _ in range(4):
                    x, p = rd_num(inp, p)
                    ns.append(x)
                out = []
                if div:
                    out += quotient_is(q, ns[0].ds, ns[1].ds, base, n)
                if mdiv:
                    out += quotient_is(qm, ns[2].ds, ns[3].ds, base, n)
                return out
            s.assume = assume
        out.append(s)
    k = 0
    for ki, kind in enumerate(ALL):
        for op in range(4):
            for mid in range(10):
                szs = [(1, 1, 1, 1), (2, 2, 2, 2), (2, 1, 1, 2), (1, 2, 3, 3)] + ([] if quick else [(3, 3, 3, 3), (4, 2, 2, 4), (5, 5, 5, 5)])
                for j, sz in enumerate(szs):
                    k += 1
                    if quick and (j + op + mid + ki) % 2:
                        continue
                    sz = list(sz)
                    hard = op == 2 or mid in (2, 7)
                    if hard and sum(sz) > (6 if quick else 8 if kind == 'highp' else 12):
                        continue
                    if quick and sum(sz) > 6 and (j + op + mid // 2 + ki) % 3:
                        continue
                    sg = (k * 7 + j * 3) % 16
                    q = qm = None
                    if op == 3:
                        q = (1, 2, 0)[k % 3] if sz[0] == sz[1] else 0 if sz[0] < sz[1] else 3
                    if mid == 3:
                        qm = (2, 0, 1)[k % 3] if sz[2] == sz[3] else 0 if sz[2] < sz[3] else 2
                    if kind == 'base2':
                        q, qm = q and 1 if sz[0] == sz[1] else q and 2, qm and 1 if sz[2] == sz[3] else qm and 2
                    # the same shapes as the first operation, the same operands but for one
                    sc(kind, op, mid, sz, sg, top=hard, q=q, qm=qm)
    # an operation interrupted at each of its allocations, on two fixed numbers
    for ki, kind in enumerate(ALL):
        base = KINDS[kind][0]
        for op2 in range(4):
            for j in range(8 if quick and op2 < 2 else 14):
                for op in range(4) if not quick else {op2, (j + ki) % 4}:
                    if quick and op != op2 and j % 2:
                        continue
                    sg = (j * 3 + ki + op) % 16
                    c = [base - 1, 1, base // 2, base - 1] if op2 != 3 else [base - 1, base // 2, 1] if base > 2 else [1, 0, 1, 1]
                    d = [base - 1, base - 1, 1] if op2 != 3 else [base - 1, 1] if base > 2 else [0, 1]
                    if op2 == 3 and base > 256:
                        c = [base - 1, base // 2, 11]
                        d = [base - 1, 0, 1]
                    na, nb = ((2, 2), (2, 1), (1, 2))[j % 3] if op != 2 else ((1, 1), (2, 1))[j % 2]
                    q = (1, 2, 3)[j % 3] if na == nb and base > 3 else 1 if na >= nb else 0
                    tape = [op, 16 + 4 * j + op2] + num('a', kind, sg & 1, na, op == 2) + num('b', kind, sg >> 1 & 1, nb, op in (2, 3)) + \
                        [sg >> 2 & 1, len(c)] + c + [sg >> 3 & 1, len(d)] + d
                    s = Scenario('%s %s %s%d %s%d, %s stopped at allocation %d between' % (
                        kind, OPS[op], sgn(sg & 1), na, sgn(sg >> 1 & 1), nb, OPS[op2], j), 'seq.cpp', 'vp_seq_' + kind, tape, oracle,
                        weight=12, limit=100, prefer='int' if op == 2 else c04.DEFAULT.get(kind, 'bv') if op == 3 else 'bv', fuel=4000000)
                    s.claims = 'bv'
                    if op == 3:
                        def assume(inp, q=q, base=base, n=max(na, nb)):
                            a, p = rd_num(inp, 2)
                            b, p = rd_num(inp, p)
                            return quotient_is(q, a.ds, b.ds, base, n)
                        s.assume = assume
                    out.append(s)
    # other shapes of the same total length, and longer first operands
    for ki, kind in enumerate(ALL):
        for j, sz in enumerate([(2, 2, 3, 1), (3, 1, 2, 2), (1, 3, 3, 1), (3, 2, 1, 2)] +
                               ([] if quick else [(3, 3, 5, 1), (4, 2, 3, 3), (1, 4, 4, 1)])):
            if quick and (j + ki) % 2:
                continue
            sc(kind, 2, 2, sz, (ki * 5 + j * 3) % 16, top=True)
            sc(kind, 0, 2, sz, (ki * 3 + j * 5) % 16, top=True)
    # long operands, most digits concrete
    for ki, kind in enumerate(ALL):
        for j, (op, mid, sz) in enumerate(((2, 2, (18, 17, 30, 5)), (0, 2, (40, 40, 20, 3)), (2, 0, (9, 8, 60, 60)), (1, 8, (33, 33, 70, 1)),
                                           (2, 4, (20, 1, 100, 100)), (1, 9, (65, 64, 66, 65)))):
            if quick and (j + ki) % 2:
                continue
            if kind == 'highp':
                sz = tuple(min(x, 12) for x in sz) if 2 in (op, mid) else sz
            tape = [op, mid]
            for i, nm in enumerate('abcd'):
                tape += long_num(nm, kind, (j * 5 + ki * 3) >> i & 1, sz[i], ('mix', 'max', 'zero')[(i + j) % 3],
                                 () if i % 2 and 2 in (op, mid) else (0, sz[i] // 2, -1))
            s = Scenario('%s %s, %s between long %s' % (kind, OPS[op], MIDS[mid], ' '.join('%d' % x for x in sz)), 'seq.cpp',
                         'vp_seq_' + kind, tape, oracle, weight=sum(sz) * 3, limit=100, prefer='int' if 2 in (op, mid) else 'bv', fuel=20000000)
            s.claims = 'bv'
            out.append(s)
    return out


META = {
    'title': 'history independence',
    'bounds': 'an operation of + - * / on operands of 1 to 2 digits (thorough 5), repeated after one of ten kinds of other work '
              '(an arithmetic operation, comparisons, printing, a failing subscript, a failing allocation, editing, non-finite '
              'arithmetic) on two other numbers of 1 to 3 digits, and into used, moved-from and infinite objects; every digit '
              'value (for / fixed quotients), sign combinations spread; all seven kinds; the same with an operation on two fixed numbers of '
              '2 to 4 digits between that runs out of memory at its k-th allocation, k up to 7 or 13',
    'outside': 'longer operands with every digit symbolic (operands of 8 to 100 digits have up to three symbolic digits); longer '
               'histories; several threads',
    'assumptions': TRUST,
}
