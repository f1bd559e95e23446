"""IEEE double arithmetic on symbolic values.

An F stands for a double whose exact value is  P(v1..vn) + e  with |e| <= err,
where P is a polynomial over bounded integer (or real) variables with exact
binary fixed-point coefficients and err is a sound bound of all the rounding
committed so far (round-to-nearest, 2^-53 relative per operation).  Constants
stay Python floats, so constant arithmetic is bit-exact.
"""
import math
from fractions import Fraction
from . import expr as X

S = 320                 # fixed-point scale of coefficients
ONE = 1 << S
U = 2.0 ** -53
TINY = 2.0 ** -1000


def up(x):
    return x * (1.0 + 1e-14) + TINY


class Undecided(Exception):
    """the abstraction cannot decide this; carries nothing"""
    pass


class Atom(object):
    """a bounded variable of a polynomial: an integer term or a real input"""
    __slots__ = ('key', 'term', 'lo', 'hi')

    def __init__(self, key, term, lo, hi):
        self.key = key
        self.term = term
        self.lo = lo
        self.hi = hi


_atoms = {}


def reset():
    _atoms.clear()
    _real.clear()


def atom_of(e):
    """integer term -> atom (key is an int so that monomials sort)"""
    while e.op == 'zext' or (e.op == 'trunc' and e.args[0].hi < (1 << e.w)):
        e = e.args[0]
    if e.op == 'var':
        e = X._mk('var', e.args, 64, e.lo, e.hi)
    a = _atoms.get(e.id)
    if a is None:
        a = _atoms[e.id] = Atom(e.id, e, e.lo, e.hi)
    return a


class RealVar(object):
    """a real (double) input"""
    __slots__ = ('name', 'id', 'lo', 'hi')


_real = {}


def real_var(name, lo, hi):
    a = _real.get(name)
    if a is None:
        r = RealVar()
        r.name, r.lo, r.hi = name, lo, hi
        r.id = -1 - len(_real)
        a = _real[name] = Atom(r.id, r, lo, hi)
        _atoms[r.id] = a
    return F({(a.key,): ONE}, 0.0, False)


class F(object):
    __slots__ = ('p', 'err', 'isint', '_b')

    def __init__(self, p, err, isint=False):
        self.p = p
        self.err = err
        self.isint = isint      # value is exactly the integer P
        self._b = None

    def bounds(self):
        """(lo, hi) of the polynomial as floats, rounded outwards"""
        if self._b is None:
            l = h = 0
            for k, c in self.p.items():
                a = b = 1
                for x in k:
                    at = _atoms[x]
                    if at.lo >= 0 and a >= 0:
                        a *= at.lo
                        b *= at.hi
                    else:
                        t = (a * at.lo, a * at.hi, b * at.lo, b * at.hi)
                        a, b = min(t), max(t)
                if c >= 0:
                    l += c * a
                    h += c * b
                else:
                    l += c * b
                    h += c * a
            l = _tofloat(l)
            h = _tofloat(h)
            self._b = (l - abs(l) * 1e-14 - TINY, h + abs(h) * 1e-14 + TINY)
        return self._b

    def mag(self):
        l, h = self.bounds()
        return max(abs(l), abs(h))

    def __eq__(self, o):
        return isinstance(o, F) and self.err == o.err and self.isint == o.isint and self.p == o.p

    def __hash__(self):
        return id(self)


def _tofloat(n):
    """n / 2^S as a float"""
    if isinstance(n, float):
        return n / float(ONE) if abs(n) < 1e300 else n * 2.0 ** -S
    if n == 0:
        return 0.0
    sh = max(0, abs(n).bit_length() - 64)
    return math.ldexp(float(n >> sh), sh - S)


def const(x):
    """Python float -> F"""
    if x != x or x in (float('inf'), float('-inf')):
        raise Undecided()
    fr = Fraction(x)
    n = fr.numerator * ONE
    q, r = divmod(n, fr.denominator)
    return F({(): q} if q else {}, 0.0 if r == 0 else 2.0 ** -S, r == 0 and fr.denominator == 1)


def lift(x):
    return x if isinstance(x, F) else const(x)


def of_int(e, signed, w):
    """uitofp / sitofp of a term"""
    if signed and X.hi(e) >> (w - 1):
        raise Undecided()
    a = atom_of(e)
    err = 0.0 if a.hi < (1 << 53) else up(a.hi * U)
    return F({(a.key,): ONE}, err, err == 0.0)


def _round(p, err):
    r = F(p, 0.0)
    m = r.mag()
    if m > 1e300:
        raise Undecided()
    r.err = up(up(err) + up((m + err) * U))
    return r


def neg(a):
    if not isinstance(a, F):
        return -a
    return F({k: -c for k, c in a.p.items()}, a.err, a.isint)


def add(a, b, sign=1):
    if not isinstance(a, F) and not isinstance(b, F):
        return a + b if sign > 0 else a - b
    if not isinstance(b, F) and b == 0.0:
        return a
    if not isinstance(a, F) and a == 0.0:
        return b if sign > 0 else neg(b)
    a, b = lift(a), lift(b)
    p = dict(a.p)
    for k, c in b.p.items():
        n = p.get(k, 0) + (c if sign > 0 else -c)
        if n:
            p[k] = n
        else:
            p.pop(k, None)
    if not p and a.err == 0.0 and b.err == 0.0:
        return 0.0
    if a.isint and b.isint:
        r = F(p, 0.0, True)
        if r.mag() < 2.0 ** 53:
            return r
    return _round(p, a.err + b.err)


def mul(a, b):
    if not isinstance(a, F) and not isinstance(b, F):
        return a * b
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, F):
            if x == 0.0:
                return 0.0
            if x == 1.0:
                return y
            if x == -1.0:
                return neg(y)
            m, e = math.frexp(x)
            if abs(m) == 0.5 and -60 < e < 60:
                # a power of two: exact
                sh = e - 1
                sg = 1 if m > 0 else -1
                if sh >= 0:
                    p = {k: sg * (c << sh) for k, c in y.p.items()}
                    return F(p, math.ldexp(y.err, sh), y.isint)
                lost = any(c & ((1 << -sh) - 1) for c in y.p.values())
                p = {k: sg * (c >> -sh) for k, c in y.p.items()}
                r = F({k: c for k, c in p.items() if c}, math.ldexp(y.err, sh), False)
                if lost:
                    r.err = up(r.err + 2.0 ** -S * sum(_mono(k) for k in y.p))
                return r
    a, b = lift(a), lift(b)
    p = {}
    for k1, c1 in a.p.items():
        for k2, c2 in b.p.items():
            if not k1:
                k = k2
            elif not k2:
                k = k1
            else:
                k = tuple(sorted(k1 + k2))
                if len(k) > 4:
                    raise Undecided()
            p[k] = p.get(k, 0) + c1 * c2
    q = {}
    trunc_err = 0.0
    mask = ONE - 1
    for k, c in p.items():
        if c & mask:
            trunc_err += _mono(k) * 2.0 ** -S
        n = c >> S
        if n:
            q[k] = n
    ma, mb = a.mag(), b.mag()
    err = up(up(ma * b.err) + up(mb * a.err) + up(a.err * b.err) + up(trunc_err))
    if a.err == 0.0 and b.err == 0.0:
        err = up(trunc_err) if trunc_err else 0.0
    if not q and err == 0.0:
        return 0.0
    if a.isint and b.isint and err == 0.0:
        r = F(q, 0.0, True)
        if r.mag() < 2.0 ** 53:
            return r
    return _round(q, err)


def _mono(k):
    r = 1.0
    for x in k:
        at = _atoms[x]
        r *= max(abs(float(at.lo)), abs(float(at.hi)))
    return up(r)


def div(a, b):
    if not isinstance(a, F) and not isinstance(b, F):
        if b == 0.0:
            if a == 0.0 or a != a:
                return float('nan')
            return math.copysign(float('inf'), a) * math.copysign(1.0, b)
        return a / b
    if isinstance(b, F) or b == 0.0:
        raise Undecided()
    m, e = math.frexp(b)
    if abs(m) == 0.5:
        return mul(a, 1.0 / b)
    fr = 1 / Fraction(b)
    inv = fr.numerator * ONE // fr.denominator
    p = {}
    te = 0.0
    for k, c in a.p.items():
        n = c * inv >> S
        te += _mono(k) * (2.0 ** -S) * (2.0 + abs(_tofloat(c)))
        if n:
            p[k] = n
    return _round(p, up(up(a.err / abs(b)) + up(te)))


def cmp_decided(pred, a, b):
    """True/False if the comparison has one value for all inputs, else None"""
    if not isinstance(a, F) and not isinstance(b, F):
        un = a != a or b != b
        if pred == 'uno':
            return un
        if pred == 'ord':
            return not un
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        o = {'eq': a == b, 'ne': a != b and not un, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]
        return (un or o) if pred[0] == 'u' else o
    # symbolic values are finite numbers
    if pred == 'uno':
        return any(not isinstance(x, F) and x != x for x in (a, b))
    if pred == 'ord':
        return not any(not isinstance(x, F) and x != x for x in (a, b))
    for x in (a, b):
        if not isinstance(x, F) and (x != x or x in (float('inf'), float('-inf'))):
            return None
    d = add(a, b, -1)
    d = lift(d)
    l, h = d.bounds()
    # the subtraction was rounded only in our bookkeeping
    e = lift(a).err + lift(b).err
    l, h = l - up(e), h + up(e)
    p = pred[1:]
    if p == 'lt':
        return True if h < 0 else False if l >= 0 else None
    if p == 'le':
        return True if h <= 0 else False if l > 0 else None
    if p == 'gt':
        return True if l > 0 else False if h <= 0 else None
    if p == 'ge':
        return True if l >= 0 else False if h < 0 else None
    if p == 'eq':
        return False if (l > 0 or h < 0) else None
    if p == 'ne':
        return True if (l > 0 or h < 0) else None
    return None


def _rnd(c):
    """nearest integer of c / 2^S"""
    return (c + (ONE >> 1)) >> S


def floor(a, lemma):
    """floor of a; lemma(lo-side polynomial facts) discharges the residue bound"""
    if not isinstance(a, F):
        return float(math.floor(a))
    if a.isint:
        return a
    n = {}
    res = {}
    for k, c in a.p.items():
        if not k:
            continue
        r = _rnd(c)
        if r:
            n[k] = r * ONE
        d = c - r * ONE
        if d:
            res[k] = d
    rf = F(res, 0.0)
    l, h = rf.bounds()
    c0 = a.p.get((), 0)
    # choose the integer constant so that the residue sits inside [0, 1)
    mid = (_tofloat(c0) + (l + h) / 2)
    k0 = int(math.floor(mid))
    if k0:
        n[()] = k0 * ONE
    rc = c0 - k0 * ONE
    if not lemma(res, rc, a.err):
        raise Undecided()
    r = F(n, 0.0, True)
    if r.mag() >= 2.0 ** 53:
        raise Undecided()
    return r


def to_uint(a, w):
    """fptoui of an exactly integral value -> term of width w; also its lower bound"""
    if not isinstance(a, F):
        if a != a or a < -0.9999999 or a >= 2.0 ** w:
            return None
        return int(a)
    if not a.isint:
        raise Undecided()
    l, h = a.bounds()
    if h >= 2.0 ** w or l <= -1.0:
        return None
    pos = 0
    neg_ = 0
    for k, c in sorted(a.p.items()):
        n = c >> S
        t = 1
        for x in k:
            e = _atoms[x].term
            if isinstance(e, RealVar):
                raise Undecided()
            t = X.mul(t, X.zext(e, e.w, w) if e.w < w else X.trunc(e, e.w, w) if e.w > w else e, w)
        t = X.mul(t, abs(n), w)
        if n > 0:
            pos = X.add(pos, t, w)
        else:
            neg_ = X.add(neg_, t, w)
    return X.sub(pos, neg_, w) if neg_ != 0 else pos
