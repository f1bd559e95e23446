"""Lowering of terms and integer claims to z3, and the two query kinds.

  feasible(pc, cond)   is a branch direction possible?
  prove(pc, claim)     does the claim hold in every model of the path condition?

A claim is a boolean structure over exact integer polynomials of terms (class
Poly below), so that properties are stated over mathematical integers and not
over machine words.  Two lowerings exist: bit-vectors (exact) and mathematical
integers (exact for every operation it supports, products of two symbols are
opaque bounded integers shared by both sides of the claim, which is a sound
over-approximation: 'unsat' is a proof, 'sat' is only a candidate).
"""
import time
import z3
from . import expr as X
from .expr import E


class Stats(object):
    def __init__(self):
        self.feas = 0
        self.feas_s = 0.0
        self.prove = 0
        self.prove_s = 0.0
        self.unknown = 0
        self.proved = 0
        self.trivial = 0
        self.max_q = 0.0


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------------------
# integer polynomials over terms
# ---------------------------------------------------------------------------
def _atom(e):
    """strip value-preserving width changes"""
    while True:
        if e.op == 'zext':
            e = e.args[0]
        elif e.op == 'trunc' and e.args[0].hi < (1 << e.w):
            e = e.args[0]
        else:
            return e


class Poly(object):
    """integer polynomial: {(atoms sorted by id): coefficient}, () is 1"""
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = t or {}

    @staticmethod
    def of(v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, E):
            e = _atom(v)
            if e.op == 'var':
                e = X._mk('var', e.args, 64, e.lo, e.hi)
            return Poly({(e,): 1})
        return Poly({(): v} if v else {})

    def __add__(self, o):
        o = Poly.of(o)
        t = dict(self.t)
        for k, c in o.t.items():
            n = t.get(k, 0) + c
            if n:
                t[k] = n
            else:
                t.pop(k, None)
        return Poly(t)
    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -c for k, c in self.t.items()})

    def __sub__(self, o):
        return self + (-Poly.of(o))

    def __rsub__(self, o):
        return Poly.of(o) + (-self)

    def __mul__(self, o):
        o = Poly.of(o)
        t = {}
        for k1, c1 in self.t.items():
            for k2, c2 in o.t.items():
                k = tuple(sorted(k1 + k2, key=lambda e: e.id))
                n = t.get(k, 0) + c1 * c2
                if n:
                    t[k] = n
                else:
                    t.pop(k, None)
        return Poly(t)
    __rmul__ = __mul__

    def const(self):
        """the constant value, or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def bounds(self):
        l = h = 0
        for k, c in self.t.items():
            a = b = 1
            for e in k:
                a *= e.lo
                b *= e.hi
            if c >= 0:
                l += c * a
                h += c * b
            else:
                l += c * b
                h += c * a
        return l, h

    def eval(self, env, memo):
        r = 0
        for k, c in self.t.items():
            for e in k:
                c *= X.evaluate(e, env, memo)
            r += c
        return r


# claims: True/False, ('eq0', Poly), ('ge0', Poly), ('bit', E),
#         ('and', [..]), ('or', [..]), ('not', c)
def c_and(*cs):
    out = []
    for c in cs:
        if c is True or c == 1 and not isinstance(c, tuple):
            continue
        if c is False or c == 0 and not isinstance(c, tuple):
            return False
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else ('and', out)


def c_or(*cs):
    out = []
    for c in cs:
        if c is False or c == 0 and not isinstance(c, tuple):
            continue
        if c is True or c == 1 and not isinstance(c, tuple):
            return True
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else ('or', out)


def c_not(c):
    if c is True or c is False:
        return not c
    if isinstance(c, int):
        return c == 0
    return ('not', c)


def c_iff(a, b):
    return c_or(c_and(a, b), c_and(c_not(a), c_not(b)))


def c_implies(a, b):
    return c_or(c_not(a), b)


def c_bit(e):
    if isinstance(e, E):
        return ('bit', e)
    return bool(e)


def c_eq(a, b):
    d = Poly.of(a) - Poly.of(b)
    k = d.const()
    if k is not None:
        return k == 0
    l, h = d.bounds()
    if l > 0 or h < 0:
        return False
    return ('eq0', d)


def c_ge(a, b):
    d = Poly.of(a) - Poly.of(b)
    l, h = d.bounds()
    if l >= 0:
        return True
    if h < 0:
        return False
    return ('ge0', d)


def c_le(a, b):
    return c_ge(b, a)


def c_gt(a, b):
    return c_ge(a, Poly.of(b) + 1)


def c_lt(a, b):
    return c_ge(b, Poly.of(a) + 1)


def claim_terms(c, out):
    if isinstance(c, tuple):
        if c[0] in ('eq0', 'ge0'):
            for k in c[1].t:
                out.extend(k)
        elif c[0] == 'bit':
            out.append(c[1])
        elif c[0] == 'near':
            pass
        elif c[0] == 'not':
            claim_terms(c[1], out)
        else:
            for x in c[1]:
                claim_terms(x, out)
    return out


def claim_eval(c, env, memo):
    if not isinstance(c, tuple):
        return bool(c)
    if c[0] == 'eq0':
        return c[1].eval(env, memo) == 0
    if c[0] == 'ge0':
        return c[1].eval(env, memo) >= 0
    if c[0] == 'bit':
        return bool(X.evaluate(c[1], env, memo))
    if c[0] == 'not':
        return not claim_eval(c[1], env, memo)
    if c[0] == 'and':
        return all(claim_eval(x, env, memo) for x in c[1])
    return any(claim_eval(x, env, memo) for x in c[1])


# ---------------------------------------------------------------------------
# bit-vector lowering
# ---------------------------------------------------------------------------
class BV(object):
    name = 'bv'

    def __init__(self):
        self.cache = {}
        self.vars = {}
        self.side = {}      # id -> list of side constraints needed (variable bounds)

    def var(self, e):
        name, lo, hi = e.args
        v = self.vars.get(name)
        if v is None:
            w = max(1, hi.bit_length())
            z = z3.BitVec(name, w)
            side = []
            if hi != (1 << w) - 1:
                side.append(z3.ULE(z, z3.BitVecVal(hi, w)))
            if lo:
                side.append(z3.UGE(z, z3.BitVecVal(lo, w)))
            v = (z, w, side)
            self.vars[name] = v
        return v

    def val(self, a, w):
        """term of width w"""
        if isinstance(a, E):
            return self.low(a)
        return z3.BitVecVal(a, w)

    def boolean(self, e):
        """E of width 1 as z3 Bool"""
        if not isinstance(e, E):
            return z3.BoolVal(bool(e))
        k = ('b', e.id)
        r = self.cache.get(k)
        if r is not None:
            return r
        op = e.op
        if op == 'not':
            r = z3.Not(self.boolean(e.args[0]))
        elif op == 'and':
            r = z3.And(self.boolean(e.args[0]), self.boolean(e.args[1]))
        elif op == 'or':
            r = z3.Or(self.boolean(e.args[0]), self.boolean(e.args[1]))
        elif op == 'xor':
            r = z3.Xor(self.boolean(e.args[0]), self.boolean(e.args[1]))
        elif op == 'ite':
            r = z3.If(self.boolean(e.args[0]), self.boolean(e.args[1]), self.boolean(e.args[2]))
        elif op in ('eq', 'ult', 'ule'):
            a, b = e.args
            w = a.w if isinstance(a, E) else b.w
            if op == 'eq' and w == 1:
                r = self.boolean(a) == self.boolean(b)
            else:
                # compare at the narrowest sufficient width
                za, zb = self.val(a, w), self.val(b, w)
                n = max(X.hi(a).bit_length(), X.hi(b).bit_length(), 1)
                if n < w:
                    za, zb = self.cut(a, za, n, w), self.cut(b, zb, n, w)
                r = za == zb if op == 'eq' else z3.ULT(za, zb) if op == 'ult' else z3.ULE(za, zb)
        else:
            r = self.low(e) == z3.BitVecVal(1, 1)
        self.cache[k] = r
        return r

    def cut(self, a, z, n, w):
        if not isinstance(a, E):
            return z3.BitVecVal(a, n)
        return z3.Extract(n - 1, 0, z)

    def low(self, e):
        r = self.cache.get(e.id)
        if r is not None:
            return r
        w = e.w
        op = e.op
        if op == 'var':
            z, vw, _ = self.var(e)
            if vw < w:
                r = z3.ZeroExt(w - vw, z)
            elif vw > w:
                r = z3.Extract(w - 1, 0, z)
            else:
                r = z
        elif op == 'ite':
            r = z3.If(self.boolean(e.args[0]), self.val(e.args[1], w), self.val(e.args[2], w))
        elif op in ('not', 'eq', 'ult', 'ule') or (w == 1 and op in ('and', 'or', 'xor')):
            r = z3.If(self.boolean(e), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        elif op == 'zext':
            a = e.args[0]
            r = z3.ZeroExt(w - a.w, self.low(a))
        elif op == 'sext':
            a = e.args[0]
            r = z3.SignExt(w - a.w, self.low(a))
        elif op == 'trunc':
            r = z3.Extract(w - 1, 0, self.low(e.args[0]))
        else:
            a, b = self.val(e.args[0], w), self.val(e.args[1], w)
            if op == 'add':
                r = a + b
            elif op == 'sub':
                r = a - b
            elif op == 'mul':
                r = a * b
            elif op in ('udiv', 'urem'):
                # narrow the operation to the bits that can be set
                n = max(X.hi(e.args[0]).bit_length(), X.hi(e.args[1]).bit_length(), 1)
                if n < w:
                    a, b = self.cut(e.args[0], a, n, w), self.cut(e.args[1], b, n, w)
                r = z3.UDiv(a, b) if op == 'udiv' else z3.URem(a, b)
                if n < w:
                    r = z3.ZeroExt(w - n, r)
            elif op == 'sdiv':
                r = a / b
            elif op == 'srem':
                r = z3.SRem(a, b)
            elif op == 'and':
                r = a & b
            elif op == 'or':
                r = a | b
            elif op == 'xor':
                r = a ^ b
            elif op == 'shl':
                r = a << b
            elif op == 'lshr':
                r = z3.LShR(a, b)
            elif op == 'ashr':
                r = a >> b
            else:
                raise Unsupported(op)
        self.cache[e.id] = r
        return r

    def poly(self, p, w):
        """p as a w-bit two's complement term; w must be large enough"""
        acc = None
        c0 = 0
        for k, c in p.t.items():
            if not k:
                c0 = c
                continue
            z = None
            for e in k:
                x = self.low(e)
                n = max(1, e.hi.bit_length())
                if n < e.w:
                    x = z3.Extract(n - 1, 0, x)
                if n < w:
                    x = z3.ZeroExt(w - n, x)
                z = x if z is None else z * x
            a = abs(c)
            if a & (a - 1) == 0:
                if a != 1:
                    z = z << (a.bit_length() - 1)
            else:
                z = z * z3.BitVecVal(a, w)
            if acc is None:
                acc = z if c > 0 else -z
            else:
                acc = acc + z if c > 0 else acc - z
        if acc is None:
            return z3.BitVecVal(c0, w)
        if c0:
            acc = acc + z3.BitVecVal(c0, w)
        return acc

    def claim(self, c):
        if not isinstance(c, tuple):
            return z3.BoolVal(bool(c))
        if c[0] == 'bit':
            return self.boolean(c[1])
        if c[0] == 'not':
            return z3.Not(self.claim(c[1]))
        if c[0] == 'and':
            return z3.And([self.claim(x) for x in c[1]])
        if c[0] == 'or':
            return z3.Or([self.claim(x) for x in c[1]])
        p = c[1]
        # both sides as unsigned sums, no sign bit needed
        pos = Poly({k: v for k, v in p.t.items() if v > 0})
        neg = Poly({k: -v for k, v in p.t.items() if v < 0})
        w = max(pos.bounds()[1].bit_length(), neg.bounds()[1].bit_length(), 1)
        a, b = self.poly(pos, w), self.poly(neg, w)
        if c[0] == 'eq0':
            return a == b
        return z3.UGE(a, b)

    def sides(self, names):
        out = []
        for n in names:
            v = self.vars.get(n)
            if v:
                out.extend(v[2])
        return out

    def model(self, m):
        env = {}
        for name, (z, w, _) in self.vars.items():
            v = m.eval(z, model_completion=False)
            if z3.is_bv_value(v):
                env[name] = v.as_long()
        return env


# ---------------------------------------------------------------------------
# integer lowering
# ---------------------------------------------------------------------------
class INT(object):
    name = 'int'

    def __init__(self):
        self.cache = {}
        self.vars = {}
        self.defs = {}      # id of a term -> list of defining constraints
        self.prods = {}
        self.nonlinear = False
        self.qr = {}

    def var(self, e):
        name, lo, hi = e.args
        v = self.vars.get(name)
        if v is None:
            z = z3.Int(name)
            v = (z, [z >= lo, z <= hi])
            self.vars[name] = v
        return v

    def fresh(self, e, tag):
        return z3.Int('%s!%d' % (tag, e.id))

    def val(self, a):
        if isinstance(a, E):
            return self.low(a)
        return z3.IntVal(a)

    def divmod(self, a, c):
        """quotient and remainder of the term a by the constant c"""
        k = (a.id, c)
        r = self.qr.get(k)
        if r is None:
            q = z3.Int('q!%d!%d' % k)
            m = z3.Int('r!%d!%d' % k)
            z = self.low(a)
            self.defs.setdefault(a.id, []).append(
                (k, [z == c * q + m, m >= 0, m < c, q >= a.lo // c, q <= a.hi // c]))
            r = self.qr[k] = (q, m)
        return r

    def wrap(self, z, e, l, h):
        """z, known to lie in [l, h], reduced to the width of e"""
        m = 1 << e.w
        if l >= 0 and h < m:
            return z
        if l >= 0 and h < 2 * m:
            return z3.If(z >= m, z - m, z)
        if l >= -m and h < m:
            return z3.If(z < 0, z + m, z)
        q = z3.Int('w!%d' % e.id)
        r = z3.Int('v!%d' % e.id)
        self.defs.setdefault(e.id, []).append(
            (('w', e.id), [z == m * q + r, r >= 0, r < m]))
        return r

    def prod(self, es):
        """product of terms (opaque, bounded)"""
        es = sorted([_atom(e) for e in es], key=lambda e: e.id)
        key = tuple(e.args[0] if e.op == 'var' else e.id for e in es)
        p = self.prods.get(key)
        if p is None:
            lo = hi = 1
            for e in es:
                lo *= e.lo
                hi *= e.hi
            if self.nonlinear:
                z = self.low(es[0])
                for e in es[1:]:
                    z = z * self.low(e)
                p = (z, [z >= lo, z <= hi])
            else:
                z = z3.Int('p!' + '!'.join(str(k) for k in key))
                side = [z >= lo, z <= hi]
                if len(es) == 2 and es[0].hi > 0 and es[1].hi > 0:
                    # McCormick: linear facts true of every product of two bounded numbers
                    x, y = self.low(es[0]), self.low(es[1])
                    xl, xh, yl, yh = es[0].lo, es[0].hi, es[1].lo, es[1].hi
                    side += [z >= xl * y + yl * x - xl * yl, z >= xh * y + yh * x - xh * yh,
                             z <= xh * y + yl * x - xh * yl, z <= xl * y + yh * x - xl * yh]
                p = (z, side)
            self.prods[key] = p
        return p

    def boolean(self, e):
        if not isinstance(e, E):
            return z3.BoolVal(bool(e))
        k = ('b', e.id)
        r = self.cache.get(k)
        if r is not None:
            return r
        op = e.op
        if op == 'not':
            r = z3.Not(self.boolean(e.args[0]))
        elif op == 'and':
            r = z3.And(self.boolean(e.args[0]), self.boolean(e.args[1]))
        elif op == 'or':
            r = z3.Or(self.boolean(e.args[0]), self.boolean(e.args[1]))
        elif op == 'xor':
            r = z3.Xor(self.boolean(e.args[0]), self.boolean(e.args[1]))
        elif op == 'ite':
            r = z3.If(self.boolean(e.args[0]), self.boolean(e.args[1]), self.boolean(e.args[2]))
        elif op in ('eq', 'ult', 'ule'):
            a, b = e.args
            w = a.w if isinstance(a, E) else b.w
            if op == 'eq' and w == 1:
                r = self.boolean(a) == self.boolean(b)
            else:
                za, zb = self.val(a), self.val(b)
                r = za == zb if op == 'eq' else za < zb if op == 'ult' else za <= zb
        else:
            r = self.low(e) == 1
        self.cache[k] = r
        return r

    def low(self, e):
        r = self.cache.get(e.id)
        if r is not None:
            return r
        w = e.w
        m = 1 << w
        op = e.op
        if op == 'var':
            r = self.var(e)[0]
        elif op == 'ite':
            r = z3.If(self.boolean(e.args[0]), self.val(e.args[1]), self.val(e.args[2]))
        elif op in ('not', 'eq', 'ult', 'ule') or (w == 1 and op in ('and', 'or', 'xor')):
            r = z3.If(self.boolean(e), z3.IntVal(1), z3.IntVal(0))
        elif op == 'zext':
            r = self.low(e.args[0])
        elif op == 'sext':
            a = e.args[0]
            z = self.low(a)
            r = z3.If(z >= (1 << (a.w - 1)), z + (m - (1 << a.w)), z)
        elif op == 'trunc':
            a = e.args[0]
            if a.hi < m:
                r = self.low(a)
            elif a.hi < 2 * m:
                z = self.low(a)
                r = z3.If(z >= m, z - m, z)
            else:
                r = self.divmod(a, m)[1]
        elif op == 'add':
            a, b = e.args
            if not isinstance(b, E) and b > m // 2 and a.lo < m - b and a.hi < m:
                # x - c written as x + (2^w - c)
                r = self.wrap(self.val(a) - (m - b), e, a.lo - (m - b), a.hi - (m - b))
            else:
                r = self.wrap(self.val(a) + self.val(b), e, X.lo(a) + X.lo(b), X.hi(a) + X.hi(b))
        elif op == 'sub':
            a, b = e.args
            r = self.wrap(self.val(a) - self.val(b), e, X.lo(a) - X.hi(b), X.hi(a) - X.lo(b))
        elif op == 'mul':
            a, b = e.args
            if isinstance(b, E):
                p, side = self.prod([a, b])
                self.defs.setdefault(e.id, []).append((('p', e.id), side))
            else:
                p = b * self.val(a)
            r = self.wrap(p, e, X.lo(a) * X.lo(b), X.hi(a) * X.hi(b))
        elif op in ('udiv', 'urem') and not isinstance(e.args[1], E):
            r = self.divmod(e.args[0], e.args[1])[0 if op == 'udiv' else 1]
        elif op == 'lshr' and not isinstance(e.args[1], E):
            r = self.divmod(e.args[0], 1 << e.args[1])[0]
        elif op == 'and' and not isinstance(e.args[1], E):
            a, b = e.args
            if b & (b + 1) == 0:
                r = self.divmod(a, b + 1)[1]
            else:
                tz = (b & -b).bit_length() - 1
                hi = b >> tz
                if hi & (hi + 1):
                    raise Unsupported('and %x' % b)
                # bits tz .. top
                x = a
                z = self.low(a)
                top = b.bit_length()
                if a.hi >= 1 << top:
                    z = self.divmod(a, 1 << top)[1]
                if tz:
                    z = z - self.divmod(a, 1 << tz)[1]
                r = z
        else:
            raise Unsupported(op)
        self.cache[e.id] = r
        return r

    def poly(self, p, sides):
        acc = []
        for k, c in p.t.items():
            if not k:
                acc.append(z3.IntVal(c))
                continue
            if len(k) == 1:
                z = self.low(k[0])
            else:
                z, s = self.prod(list(k))
                sides.extend(s)
            acc.append(z if c == 1 else c * z)
        return z3.Sum(acc) if acc else z3.IntVal(0)

    def claim(self, c, sides):
        if not isinstance(c, tuple):
            return z3.BoolVal(bool(c))
        if c[0] == 'bit':
            return self.boolean(c[1])
        if c[0] == 'not':
            return z3.Not(self.claim(c[1], sides))
        if c[0] == 'and':
            return z3.And([self.claim(x, sides) for x in c[1]])
        if c[0] == 'or':
            return z3.Or([self.claim(x, sides) for x in c[1]])
        z = self.poly(c[1], sides)
        return z == 0 if c[0] == 'eq0' else z >= 0

    def sides(self, terms):
        out = []
        seen = set()
        stack = [e for e in terms if isinstance(e, E)]
        while stack:
            e = stack.pop()
            if e.id in seen:
                continue
            seen.add(e.id)
            if e.op == 'var':
                v = self.vars.get(e.args[0])
                if v:
                    out.extend(v[1])
                continue
            for a in e.args:
                if isinstance(a, E):
                    stack.append(a)
        for i in seen:
            for _, d in self.defs.get(i, ()):
                out.extend(d)
        return out

    def model(self, m):
        env = {}
        for name, (z, _) in self.vars.items():
            v = m.eval(z, model_completion=False)
            if z3.is_int_value(v):
                env[name] = v.as_long()
        return env


class Prover(object):
    def __init__(self, prefer='bv', budget=60.0, claims='bv'):
        self.claims = claims
        self.bv = BV()
        self.int = INT()
        self.st = Stats()
        self.prefer = prefer
        self.budget = budget
        self.deadline = None
        self.inc = None
        self.lits = {}
        self.inc_vars = set()

    def _left(self, want):
        if self.deadline is None:
            return want
        return max(0.05, min(want, self.deadline - time.time()))

    def _check(self, mode, pc, neg, timeout):
        """(result, env) for pc and not neg-claim; mode 'bv' or 'int'"""
        t0 = time.time()
        try:
            if mode == 'bv':
                s = z3.SolverFor('QF_BV')
                s.set('timeout', int(self._left(timeout) * 1000))
                cs = [self.bv.boolean(p) for p in pc]
                if neg is not None:
                    cs.append(z3.Not(self.bv.claim(neg)))
                terms = list(pc) + (claim_terms(neg, []) if neg is not None else [])
                names = X.variables(terms)
                s.add(*(self.bv.sides(names) + cs))
                low = self.bv
            else:
                s = z3.Solver()
                s.set('timeout', int(self._left(timeout) * 1000))
                sides = []
                cs = [self.int.boolean(p) for p in pc]
                if neg is not None:
                    cs.append(z3.Not(self.int.claim(neg, sides)))
                terms = list(pc) + (claim_terms(neg, []) if neg is not None else [])
                s.add(*(self.int.sides(terms) + sides + cs))
                low = self.int
            r = s.check()
            if r == z3.sat:
                return 'sat', low.model(s.model())
            return ('unsat' if r == z3.unsat else 'unknown'), None
        except Unsupported:
            return 'unknown', None
        finally:
            d = time.time() - t0
            self.st.max_q = max(self.st.max_q, d)

    def lit(self, p):
        """literal of the incremental solver that implies p"""
        l = self.lits.get(p.id)
        if l is None:
            z = self.bv.boolean(p)
            l = z3.Bool('l!%d' % p.id)
            self.inc.add(z3.Implies(l, z))
            for n in X.variables([p]):
                if n not in self.inc_vars:
                    self.inc_vars.add(n)
                    self.inc.add(*self.bv.sides([n]))
            self.lits[p.id] = l
        return l

    def inc_check(self, goal, timeout):
        t0 = time.time()
        if self.inc is None or len(self.lits) > 4000:
            self.inc = z3.SimpleSolver()
            self.lits = {}
            self.inc_vars = set()
        try:
            ls = [self.lit(p) for p in goal]
            self.inc.set('timeout', max(1, int(self._left(timeout) * 1000)))
            r = self.inc.check(*ls)
            if r == z3.sat:
                m = self.inc.model()
                env = {}
                for n in X.variables(goal):
                    z = self.bv.vars[n][0]
                    v = m.eval(z, model_completion=False)
                    if z3.is_bv_value(v):
                        env[n] = v.as_long()
                return 'sat', env
            return ('unsat' if r == z3.unsat else 'unknown'), None
        except Unsupported:
            return 'unknown', None
        finally:
            d = time.time() - t0
            self.st.max_q = max(self.st.max_q, d)
            if d > 0.5 and len(self.lits) > 500:
                self.inc = None     # start afresh: the accumulated definitions cost more than they save

    def feasible(self, pc, cond, timeout=3.0):
        """('sat', env) / ('unsat', None) / ('unknown', None) for pc and cond"""
        t0 = time.time()
        self.st.feas += 1
        goal = [p for p in pc if isinstance(p, E)] + ([cond] if isinstance(cond, E) else [])
        order = ('bv', 'int') if self.prefer == 'bv' else ('int', 'bv')
        res = ('unknown', None)
        for mode in order:
            if mode == 'bv':
                r, env = self.inc_check(goal, timeout)
            else:
                r, env = self._check(mode, goal, None, timeout)
            if r == 'unsat':
                res = (r, None)
                break
            if r == 'sat':
                memo = {}
                if all(X.evaluate(p, env, memo) for p in goal):
                    res = (r, env)
                    break
        else:
            self.st.unknown += 1
        self.st.feas_s += time.time() - t0
        return res

    def prove(self, pc, claim, timeout=None):
        """('proved', None) / ('refuted', env) / ('unknown', None)"""
        if claim is True:
            self.st.trivial += 1
            return 'proved', None
        if isinstance(claim, tuple) and claim[0] == 'near':
            return ('proved' if self.near(*claim[1:]) else 'unknown'), None
        t0 = time.time()
        self.st.prove += 1
        timeout = timeout or self.budget
        order = ('bv', 'int') if self.claims == 'bv' else ('int', 'bv')
        plan = [(order[0], min(1.5, timeout * 0.1)), (order[1], min(3.0, timeout * 0.1)), (order[0], timeout * 0.4),
                (order[1], timeout * 0.4)]
        res = ('unknown', None)
        for mode, t in plan:
            if self.deadline is not None and time.time() > self.deadline:
                break
            r, env = self._check(mode, pc, claim, t)
            if r == 'unsat':
                res = ('proved', None)
                self.st.proved += 1
                break
            if r == 'sat':
                memo = {}
                if all(X.evaluate(p, env, memo) for p in pc) and not claim_eval(claim, env, memo):
                    res = ('refuted', env)
                    break
        else:
            self.st.unknown += 1
        self.st.prove_s += time.time() - t0
        return res

    def near(self, p, err, tol):
        """|P + e| < tol for all variables in their boxes and |e| <= err (fp polynomial P); tol is an integer power of two 2^-k"""
        from . import fp
        k = tol
        sh = k - 1                      # P / (2 tol) + 1/2 in (0, 1)
        res = {m: (c << sh if sh >= 0 else c >> -sh) for m, c in p.items() if m}
        c0 = p.get((), 0)
        rc = (c0 << sh if sh >= 0 else c0 >> -sh) + (fp.ONE >> 1)
        from fractions import Fraction
        return self.residue_lemma(res, rc, Fraction(err) * (Fraction(2) ** sh), fp)

    def residue_lemma(self, res, rc, err, fp):
        """0 <= sum(res) + rc + e < 1 for all monomials in their boxes and |e| <= err (reals)"""
        t0 = time.time()
        self.st.prove += 1
        s = z3.SolverFor('QF_LRA')
        from fractions import Fraction
        # fixed point with 160 fractional bits, everything rounded outwards
        Q = 160
        sh = fp.S - Q
        acc = []
        slack = Fraction(0)
        names = []
        for i, (k, c) in enumerate(res.items()):
            lo = hi = Fraction(1)
            for x in k:
                at = fp._atoms[x]
                t = (lo * Fraction(at.lo), lo * Fraction(at.hi), hi * Fraction(at.lo), hi * Fraction(at.hi))
                lo, hi = min(t), max(t)
            n = c >> sh
            slack += max(abs(lo), abs(hi))
            m = z3.Real('m%d' % i)
            acc.append('(* %s m%d)' % (n if n >= 0 else '(- %d)' % -n, i))
            names.append((i, lo, hi))
        err = Fraction(err) + slack * Fraction(1, 1 << Q) + Fraction(1, 1 << Q)

        def num(fr):
            r = '(/ %d.0 %d.0)' % (abs(fr.numerator), fr.denominator)
            return '(- %s)' % r if fr < 0 else r
        one = 1 << Q
        txt = ['(declare-const e Real)']
        for i, lo, hi in names:
            txt.append('(declare-const m%d Real)(assert (and (>= m%d %s) (<= m%d %s)))' % (i, i, num(lo), i, num(hi)))
        b = -(-err * one // 1)
        b = int(err * one) + 1
        txt.append('(assert (and (>= e (- %d.0)) (<= e %d.0)))' % (b, b))
        n = rc >> sh
        y = '(+ e %s %s)' % (n if n >= 0 else '(- %d)' % -n, ' '.join(acc))
        txt.append('(assert (or (< %s 0) (>= %s %d)))' % (y, y, one))
        s.from_string('\n'.join(txt))
        s.set('timeout', 20000)
        r = s.check()
        self.st.prove_s += time.time() - t0
        if r == z3.unsat:
            self.st.proved += 1
            return True
        if r == z3.unknown:
            self.st.unknown += 1
        return False
