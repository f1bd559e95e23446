"""C13: copies and moves."""
from .common import *

HOW = ('copy construct', 'copy assign', 'self assign', 'move construct', 'move assign')


def oracle(inp, oc):
    c = done(oc)
    if c:
        return c
    how, which, ch = inp[:3]
    src, p = rd_num(inp, 3)
    t = take_num(oc)
    out = [('the target is the source', same_num(src, t))]
    if how < 2:
        out.append(('the source is unchanged', same_num(src, take_num(oc))))
    out.append(('the assignment returns its target', c_eq(oc.take(), 1)))
    if how < 2:
        t2, s2 = take_num(oc), take_num(oc)
        out.append(('changing one leaves the other', same_num(src, t2 if which else s2)))
        if not ch:
            out.append(('nothing else changes', same_num(src, s2 if which else t2)))
    return out


def scenarios(tier):
    out = []
    top = 3 if tier == 'quick' else 6

    def sc(kind, how, which, ch, d, n, pd=None, pn=0):
        tape = [how, which, ch] + num('a', kind, d, n)
        if pd is not None:
            tape += num('p', kind, pd, pn)
        out.append(Scenario('%s %s change %d/%d %d/%d over %s/%d' % (kind, HOW[how], which, ch, d, n, pd, pn), 'edit.cpp',
                            'vp_copies_' + kind, tape, oracle, weight=n + pn))
    for kind in ALL:
        for d in range(5):
            for n in range(top) if d < 2 else (0,):
                sc(kind, 2, 0, 0, d, n)
                sc(kind, 3, 0, 0, d, n)
                sc(kind, 0, 0, 0, d, n)
                for pd in range(5):
                    for pn in range(4) if pd < 2 else (0,):
                        sc(kind, 4, 0, 0, d, n, pd, pn)
                        sc(kind, 1, 0, 0, d, n, pd, pn)
        for which in (0, 1):
            for ch in range(1, 7):
                for n in (1, 2, 3):
                    for d in (POS, NEG):
                        sc(kind, 0, which, ch, d, n)
                        for pn in (0, 1, 4):
                            if d == POS:
                                sc(kind, 1, which, ch, d, n, 1, pn)
        for how in (0, 1, 2, 3, 4):
            for n, pn in ((19, 2), (40, 70), (300, 17), (5, 130)):
                k = len(out)
                tape = [how, k % 2, 1 + k % 6 if how < 2 else 0] + long_num('a', kind, k % 2, n, 'mix', (0, n // 2, n - 2), False)
                if how in (1, 4):
                    tape += long_num('p', kind, k // 2 % 2, pn, 'max', (0, -1))
                out.append(Scenario('%s %s long %d over %d' % (kind, HOW[how], n, pn), 'edit.cpp', 'vp_copies_' + kind, tape, oracle,
                                    fuel=2000000, weight=n))
    return out


META = {
    'title': 'copies and moves',
    'bounds': 'sources of every descriptor with 0 to 2 digits of every value (thorough: 5), targets that held anything of 0 to 3 '
              'digits; after a copy of 1 to 3 digits one side is changed in one of six ways; long numbers (5 to 300 digits, three of them symbolic) over long ones; all seven kinds',
    'outside': 'longer numbers; the state of a moved-from source',
    'assumptions': TRUST,
}
