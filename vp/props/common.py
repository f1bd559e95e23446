"""Shared vocabulary of the property modules."""
from .. import expr as X
from ..expr import E
from ..run import Scenario, V, R
from .. import build
from ..solve import Poly, c_and, c_or, c_not, c_eq, c_ge, c_le, c_gt, c_lt, c_implies, c_iff, c_bit

POS, NEG, NAN, PINF, NINF = 0, 1, 2, 3, 4

# kind: (radix, digit width in bits)
KINDS = {'lowp': (256, 8), 'medp': (65536, 16), 'highp': (1 << 32, 32), 'base2': (2, 8), 'base8': (8, 16),
         'base10': (10, 32), 'base16': (16, 32)}
# user-defined ones (harness bases.cpp)
KINDS.update({'b3': (3, 8), 'b7': (7, 16), 'b100': (100, 8), 'b256': (256, 16), 'b1000': (1000, 32), 'fix10': (10, 32),
              'fixlowp': (256, 8)})
USER = ('b3', 'b7', 'b100', 'b256', 'b1000', 'fix10', 'fixlowp')
ALL = ('lowp', 'medp', 'highp', 'base2', 'base8', 'base10', 'base16')

TRUST = ['clang 18 compiles the sources to LLVM IR faithfully (-O1, no vectorisation); the same sources built with '
         'g++ replay every counterexample and one witness per explored path',
         'the IR semantics of vp/exec.py, vp/codegen.py and the library models of vp/libc.py (operator new/delete, '
         'exceptions, mem*/str*, ostream insertion, cos/sin/floor); cross-checked by the replayed path witnesses '
         'counted as traces_validated_against_impl',
         'z3 5.3']


def digits(name, kind, n, top=False, lo=0, hi=None, w=None):
    """n symbolic digits; top: the most significant one is not zero"""
    base, bw = KINDS[kind]
    w = w or bw
    hi = base - 1 if hi is None else hi
    return [V('%s%d' % (name, i), w, hi, 1 if top and i == n - 1 else lo) for i in range(n)]


def num(name, kind, desc, n, top=False, sig=None):
    """sig: number of significant digits (the others are leading zeroes)"""
    if sig is not None:
        return [desc, n] + digits(name, kind, sig, True) + [0] * (n - sig)
    return [desc, n] + digits(name, kind, n, top)


def shapes(n):
    """significant lengths of n digits"""
    return range(n + 1)


def mag(ds, base):
    """value of a digit list, least significant first"""
    r = Poly.of(0)
    k = 1
    for d in ds:
        r = r + Poly.of(d) * k
        k *= base
    return r


def val(desc, ds, base):
    m = mag(ds, base)
    return -m if desc == NEG else m


class Num(object):
    """a number read from a tape or from the observations"""

    def __init__(self, desc, ds):
        self.desc = desc
        self.ds = ds

    def finite(self):
        return self.desc in (POS, NEG)

    def val(self, base):
        return val(self.desc, self.ds, base)

    def mag(self, base):
        return mag(self.ds, base)


def rd_num(cells, pos):
    """(Num, next position) from a tape"""
    d, n = cells[pos], cells[pos + 1]
    return Num(d, list(cells[pos + 2:pos + 2 + n])), pos + 2 + n


def take_num(oc):
    d = oc.take()
    n = oc.take()
    if n > len(oc.out) - oc.pos:
        raise IndexError()
    return Num(d, [oc.take() for _ in range(n)])


def same_num(a, b):
    """claims: b is exactly a (descriptor and digits)"""
    if len(a.ds) != len(b.ds):
        return False
    return c_and(*([c_eq(a.desc, b.desc)] + [c_eq(x, y) for x, y in zip(a.ds, b.ds)]))


def canonical(r, base):
    """claim: the number is in its single representation"""
    if r.desc in (NAN, PINF, NINF):
        return True
    if r.desc not in (POS, NEG):
        return False
    cs = [c_lt(d, base) for d in r.ds]
    if r.ds:
        cs.append(c_gt(r.ds[-1], 0))
    else:
        cs.append(c_eq(r.desc, POS))
    return c_and(*cs)


def bit(o):
    """claim: the observed truth value"""
    return c_bit(X.ne(o, 0, o.w)) if isinstance(o, E) else bool(o)


def done(oc, what='the operation completes'):
    """[] or the claim that the run ended normally"""
    return [] if oc.kind == 'ok' else [(what, False)]


def sgn(d):
    return '-' if d else '+'


def wide(ds, base, w):
    """the digit list as a term of width w (also on concrete digits)"""
    r = 0
    k = 1
    for d in ds:
        if d.__class__ is E:
            d = X.zext(d, d.w, w)
        r = X.add(r, X.mul(d, k, w), w)
        k *= base
    return r


def quotient_is(q, a, b, base, n):
    """terms: q * b <= a < (q + 1) * b for digit lists of at most n digits"""
    w = max(2, (n + 1) * (base - 1).bit_length() + q.bit_length() + 2)
    x, y = wide(a, base, w), wide(b, base, w)
    return [X.ule(X.mul(y, q, w), x, w), X.ult(x, X.mul(y, q + 1, w), w)]


def long_digits(name, kind, n, pat, sym, top=True):
    """n digits that follow a pattern except for the symbolic ones at the positions sym

    pat: 'max', 'zero' (the top digit is 1), 'mix', or a list of digits that repeats"""
    base, bw = KINDS[kind]
    if isinstance(pat, (list, tuple)):
        ds = [pat[i % len(pat)] % base for i in range(n)]
    elif pat == 'max':
        ds = [base - 1] * n
    elif pat == 'zero':
        ds = [0] * n
    else:
        ds = [(i * i * 37 + i * 11 + 5) // 3 % base for i in range(n)]
    if top and n and not ds[-1]:
        ds[-1] = 1
    for p in sym:
        p = p if p >= 0 else n + p
        if 0 <= p < n:
            ds[p] = V('%s%d' % (name, p), bw, base - 1, 1 if top and p == n - 1 else 0)
    return ds


def long_num(name, kind, desc, n, pat, sym, top=True):
    return [desc, n] + long_digits(name, kind, n, pat, sym, top)
