"""C26: user-defined bases and containers."""
from .common import *
from . import c01, c03, c04, c06, c08, longs


def scenarios(tier):
    out = []
    quick = tier == 'quick'

    def add(s):
        s.harness = 'bases.cpp'
        out.append(s)
        return s

    def both(orc, kind):
        can = c08.oracle(kind)

        def f(inp, oc):
            a = orc(inp, oc)
            oc.pos = 0
            return a + can(inp, oc)
        return f
    n = 3 if quick else 4
    for ki, kind in enumerate(USER):
        base = KINDS[kind][0]
        osum, odif, omul = [both(o, kind) for o in (c01.oracle(kind, False), c01.oracle(kind, True), c03.oracle(kind))]
        if kind[0] == 'b':
            for op, orc in (('add', osum), ('sub', odif)):
                for t, m in enumerate(longs.lengths(tier, ki)):
                    if not quick or t == (ki + (op == 'sub')) % 3:
                        for s in longs.addsub(op, kind, m, orc, tier, t + ki):
                            add(s)
                    if op == 'add' and (not quick or t == ki % 3):
                        for s in longs.compare(kind, m, c06.oracle(kind, 'order'), tier, t) + \
                                longs.compare(kind, m, c06.oracle(kind, 'equal'), tier, t + 1):
                            add(s)
            for s in longs.mul(kind, omul, tier, ki)[:None if not quick else 5]:
                add(s)
            for s in longs.div(kind, both(c04.oracle(kind), kind), tier, ki):
                add(s)
        k = 0
        for da in (POS, NEG):
            for db in (POS, NEG):
                for na in range(n):
                    for nb in range(n):
                        for op, orc in (('add', osum), ('sub', odif)):
                            k += 1
                            add(c01.scenario(op, kind, k % 2, da, na, db, nb, orc=orc))
                        k += 1
                        add(c01.scenario('mul', kind, k % 2, da, na, db, nb, orc=omul, prefer='int', claims='int'))
                        add(c06.scenario(kind, da, na, db, nb, c06.oracle(kind, 'order')))
                        add(c06.scenario(kind, da, na, db, nb, c06.oracle(kind, 'equal')))
                for na, nb in [(4, 4) if quick and kind[0] == 'f' else (5, 5), (5, 3), (3, 5)] + ([] if quick else [(8, 8), (9, 4)]):
                    add(c01.scenario('add', kind, da, da, na, db, nb, orc=osum, limit=100))
                    add(c01.scenario('sub', kind, db, da, na, db, nb, orc=odif, limit=100))
                    if na * nb <= 81 and da == POS:
                        add(c01.scenario('mul', kind, db, da, na, db, nb, top=True, orc=omul, prefer='int', claims='int', limit=100))
        for form in (2, 3):
            for m in range(3):
                add(c01.scenario('add', kind, form, NEG, m, POS, 0, orc=osum))
                add(c01.scenario('sub', kind, form, NEG, m, POS, 0, orc=odif))
                add(c01.scenario('mul', kind, form, NEG, m, POS, 0, orc=omul, prefer='int', claims='int'))
                if m:
                    add(c04.full(kind, form, NEG, m, POS, 0, sa=m))
        # division: every quotient of small sizes, then classes of quotients
        pr = dict(prefer='int') if kind == 'b1000' else {}
        od = both(c04.oracle(kind), kind)
        sg = [0]

        def signs():
            sg[0] += 1
            return c04.SIGNS[sg[0] % 4]
        allq = {'b3': [(1, 1), (2, 1), (2, 2)], 'b7': [(1, 1)], 'fix10': [(1, 1)]}.get(kind, [])
        if not quick:
            allq = allq + {'b3': [(3, 2), (3, 1)], 'b7': [(2, 2), (2, 1)], 'fix10': [(2, 2)], 'b100': [(1, 1)]}.get(kind, [])
        for na, nb in allq:
            da, db = signs()
            add(c04.full(kind, sg[0] % 2, da, na, db, nb)).oracle = od
        for na, nb in [(1, 2), (0, 1), (2, 3)]:
            da, db = signs()
            add(c04.full(kind, sg[0] % 2, da, na, db, nb)).oracle = od
        for (na, nb), qs in {(1, 1): (1, 2, 3, 5), (2, 1): (2, base - 1, base), (2, 2): (0, 1, 2, 6), (3, 3): (1, 2), (4, 2): (3,)}.items():
            for q in qs:
                if q >= base ** (na - nb + 1) or (na, nb) in allq:
                    continue
                if quick and (q > 12 and kind not in ('b100', 'b256') or na > 2 and kind in ('b100', 'b1000')):
                    continue
                da, db = signs()
                add(c04.full(kind, sg[0] % 2, da, na, db, nb, q=q, **pr)).oracle = od
    return out


META = {
    'title': 'user-defined bases and containers',
    'bounds': 'digit types of base 3, 7, 100, 256 and 1000 declared as in the compression example, and base-10 and 8-bit numbers '
              'in a fixed-capacity container; +, -, *, comparisons for every size pair up to 2x2 digits (thorough 3x3), 5x5 and '
              '5x3; / with every quotient for small sizes of base 3, 7, 10 and the listed quotients for sizes up to 3x3; every '
              'digit value, all sign combinations; long operands as for the built-in kinds (bases 3 to 1000)',
    'outside': 'longer operands; other bases and containers',
    'assumptions': TRUST,
}
