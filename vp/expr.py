"""Bit-vector terms used by the symbolic executor.

A value is either a Python int (a constant, always reduced to its width) or an
E node.  Nodes are hash-consed and carry an unsigned interval [lo, hi]; the
constructors fold constants and use the intervals, so that most branch
conditions are decided without a solver.  Every rewrite below is an equality of
bit-vector terms given the declared ranges of the variables.
"""

_table = {}
_count = [0]


class E(object):
    __slots__ = ('op', 'args', 'w', 'lo', 'hi', 'id', '__weakref__')

    def __repr__(self):
        return show(self, 4)


def show(e, depth=6):
    if not isinstance(e, E):
        return str(e)
    if e.op == 'var':
        return e.args[0]
    if depth <= 0:
        return '...'
    return '(%s.%d %s)' % (e.op, e.w, ' '.join(show(a, depth - 1) for a in e.args))


def _mk(op, args, w, lo, hi):
    key = (op, w) + tuple(a.id if isinstance(a, E) else ('k', a) for a in args)
    n = _table.get(key)
    if n is None:
        n = E()
        n.op = op
        n.args = args
        n.w = w
        n.lo = lo
        n.hi = hi
        _count[0] += 1
        n.id = _count[0]
        _table[key] = n
    return n


def reset():
    _table.clear()


def var(name, w, hi, lo=0):
    if lo == hi:
        return lo
    return _mk('var', (name, lo, hi), w, lo, hi)


def constants(v):
    """the integer constants in a value"""
    if v.__class__ is int:
        yield v
    elif v.__class__ is E:
        seen = set()
        todo = [v]
        while todo:
            e = todo.pop()
            for a in e.args:
                if a.__class__ is int:
                    yield a
                elif a.__class__ is E and a.id not in seen:
                    seen.add(a.id)
                    todo.append(a)


def lo(a):
    return a.lo if isinstance(a, E) else a


def hi(a):
    return a.hi if isinstance(a, E) else a


def leaf_ite(e):
    return isinstance(e, E) and e.op == 'ite' and not isinstance(e.args[1], E) and not isinstance(e.args[2], E)


def _is_ite_tree(e, depth=6):
    """ite tree with constant leaves"""
    if not isinstance(e, E):
        return True
    if e.op != 'ite' or depth == 0:
        return False
    return _is_ite_tree(e.args[1], depth - 1) and _is_ite_tree(e.args[2], depth - 1)


def _map_ite(e, f, w):
    if not isinstance(e, E):
        return f(e)
    return ite(e.args[0], _map_ite(e.args[1], f, w), _map_ite(e.args[2], f, w), w)


def add(a, b, w):
    m = (1 << w) - 1
    if not isinstance(a, E):
        if not isinstance(b, E):
            return (a + b) & m
        a, b = b, a
    if not isinstance(b, E):
        if b == 0:
            return a
        if a.op == 'add' and not isinstance(a.args[1], E):
            # (x + c1) + c2 ; keep the interval if nothing wraps
            return add(a.args[0], (a.args[1] + b) & m, w)
        if _is_ite_tree(a, 3):
            return _map_ite(a, lambda k: (k + b) & m, w)
        l, h = a.lo + b, a.hi + b
        if l > m:
            l -= m + 1
            h -= m + 1
        if h > m:
            l, h = 0, m
        return _mk('add', (a, b), w, l, h)
    if a.id > b.id:
        a, b = b, a
    l, h = a.lo + b.lo, a.hi + b.hi
    if h > m:
        l, h = 0, m
    return _mk('add', (a, b), w, l, h)


def sub(a, b, w):
    m = (1 << w) - 1
    if not isinstance(b, E):
        if not isinstance(a, E):
            return (a - b) & m
        return add(a, (-b) & m, w)
    if a is b:
        return 0
    if isinstance(a, E) and a.op == 'add':
        if a.args[0] is b:
            return a.args[1]
        if a.args[1] is b:
            return a.args[0]
    if not isinstance(a, E) and _is_ite_tree(b, 3):
        return _map_ite(b, lambda k: (a - k) & m, w)
    la, ha = lo(a), hi(a)
    l, h = la - b.hi, ha - b.lo
    if l < 0:
        if h < 0:
            l, h = l + m + 1, h + m + 1
            if l < 0:
                l, h = 0, m
        else:
            l, h = 0, m
    return _mk('sub', (a, b), w, l, h)


def mul(a, b, w):
    m = (1 << w) - 1
    if not isinstance(a, E):
        if not isinstance(b, E):
            return (a * b) & m
        a, b = b, a
    if not isinstance(b, E):
        if b == 0:
            return 0
        if b == 1:
            return a
        if _is_ite_tree(a, 3):
            return _map_ite(a, lambda k: (k * b) & m, w)
        if w == 1:
            return a
    elif a.id > b.id:
        a, b = b, a
    # x * ite(c, k1, k2)
    if isinstance(b, E) and leaf_ite(b):
        return ite(b.args[0], mul(a, b.args[1], w), mul(a, b.args[2], w), w)
    if leaf_ite(a):
        return ite(a.args[0], mul(b, a.args[1], w), mul(b, a.args[2], w), w)
    l, h = a.lo * lo(b), a.hi * hi(b)
    if h > m:
        l, h = 0, m
    return _mk('mul', (a, b), w, l, h)


class DivByZero(Exception):
    pass


def udiv(a, b, w):
    if not isinstance(b, E):
        if b == 0:
            raise DivByZero()
        if not isinstance(a, E):
            return a // b
        if b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
        if a.hi < b:
            return 0
        return _mk('udiv', (a, b), w, a.lo // b, a.hi // b)
    if hi(a) < b.lo:
        return 0
    return _mk('udiv', (a, b), w, lo(a) // b.hi, hi(a) // max(1, b.lo))


def urem(a, b, w):
    if not isinstance(b, E):
        if b == 0:
            raise DivByZero()
        if not isinstance(a, E):
            return a % b
        if a.hi < b:
            return a
        if b & (b - 1) == 0:
            return and_(a, b - 1, w)
        if a.lo // b == a.hi // b:
            return sub(a, (a.lo // b) * b, w)
        return _mk('urem', (a, b), w, 0, b - 1)
    if hi(a) < b.lo:
        return a
    return _mk('urem', (a, b), w, 0, min(hi(a), b.hi - 1))


def _s(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def sdiv(a, b, w):
    m = (1 << w) - 1
    if not isinstance(a, E) and not isinstance(b, E):
        x, y = _s(a, w), _s(b, w)
        if y == 0:
            raise DivByZero()
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q & m
    h = 1 << (w - 1)
    if hi(a) < h and hi(b) < h:
        return udiv(a, b, w)
    return _mk('sdiv', (a, b), w, 0, m)


def srem(a, b, w):
    m = (1 << w) - 1
    if not isinstance(a, E) and not isinstance(b, E):
        x, y = _s(a, w), _s(b, w)
        if y == 0:
            raise DivByZero()
        r = abs(x) % abs(y)
        if x < 0:
            r = -r
        return r & m
    h = 1 << (w - 1)
    if hi(a) < h and hi(b) < h:
        return urem(a, b, w)
    return _mk('srem', (a, b), w, 0, m)


def and_(a, b, w):
    m = (1 << w) - 1
    if not isinstance(a, E):
        if not isinstance(b, E):
            return a & b
        a, b = b, a
    if not isinstance(b, E):
        if b == 0:
            return 0
        if b == m:
            return a
        if b & (b + 1) == 0 and a.hi <= b:
            return a
        if a.op == 'and' and not isinstance(a.args[1], E):
            return and_(a.args[0], a.args[1] & b, w)
        if a.op == 'trunc':
            return trunc(and_(a.args[0], b, a.args[0].w), a.args[0].w, w)
        if _is_ite_tree(a, 3):
            return _map_ite(a, lambda k: k & b, w)
        if b & (b + 1) == 0 and a.op == 'zext':
            x = a.args[0]
            if b == (1 << x.w) - 1:
                return a
        if b & (b + 1) == 0 and a.lo >> b.bit_length() == a.hi >> b.bit_length():
            return sub(a, (a.lo >> b.bit_length()) << b.bit_length(), w)
        if b & (b + 1) == 0:
            return _mk('and', (a, b), w, 0, b)
        # bits above a.hi are zero anyway
        nb = b & ((1 << a.hi.bit_length()) - 1)
        if nb == (1 << a.hi.bit_length()) - 1:
            return a
        if nb == 0:
            return 0
        return _mk('and', (a, nb), w, 0, min(nb, a.hi))
    if a is b:
        return a
    if w == 1:
        if _neg(a) is b:
            return 0
    if a.id > b.id:
        a, b = b, a
    return _mk('and', (a, b), w, 0, min(a.hi, b.hi))


def or_(a, b, w):
    m = (1 << w) - 1
    if not isinstance(a, E):
        if not isinstance(b, E):
            return a | b
        a, b = b, a
    if not isinstance(b, E):
        if b == 0:
            return a
        if b == m:
            return m
    if a is b:
        return a
    if w == 1:
        if _neg(a) is b:
            return 1
    if isinstance(b, E) and a.id > b.id:
        a, b = b, a
    # disjoint bits: a sum
    for x, y in ((a, b), (b, a)):
        tz = _trailing_zeros(x)
        if tz and hi(y) < (1 << tz):
            return add(x, y, w)
    top = (1 << max(hi(a).bit_length(), hi(b).bit_length())) - 1
    return _mk('or', (a, b), w, max(lo(a), lo(b)), min(top, m))


def _trailing_zeros(x):
    if not isinstance(x, E):
        return (x & -x).bit_length() - 1 if x else 64
    if x.op == 'shl' and not isinstance(x.args[1], E):
        return x.args[1]
    if x.op == 'mul' and not isinstance(x.args[1], E):
        k = x.args[1]
        return (k & -k).bit_length() - 1
    if x.op == 'zext':
        return _trailing_zeros(x.args[0])
    if x.op in ('add', 'or'):
        return min(_trailing_zeros(x.args[0]), _trailing_zeros(x.args[1]))
    if x.op == 'and' and not isinstance(x.args[1], E):
        return _trailing_zeros(x.args[1])
    return 0


def _neg(a):
    """node for not a, if it already has an obvious form"""
    if a.op == 'not':
        return a.args[0]
    return not_(a)


def xor(a, b, w):
    m = (1 << w) - 1
    if not isinstance(a, E):
        if not isinstance(b, E):
            return a ^ b
        a, b = b, a
    if not isinstance(b, E):
        if b == 0:
            return a
        if w == 1:
            return not_(a)
        if b == m:
            return sub(m, a, w)
        if _is_ite_tree(a, 3):
            return _map_ite(a, lambda k: k ^ b, w)
    if a is b:
        return 0
    if isinstance(b, E) and a.id > b.id:
        a, b = b, a
    top = (1 << max(hi(a).bit_length(), hi(b).bit_length())) - 1
    return _mk('xor', (a, b), w, 0, min(top, m))


def shl(a, b, w):
    m = (1 << w) - 1
    if not isinstance(b, E):
        if b >= w:
            return 0
        if not isinstance(a, E):
            return (a << b) & m
        if b == 0:
            return a
        return mul(a, 1 << b, w)
    return _mk('shl', (a, b), w, 0, m)


def lshr(a, b, w):
    m = (1 << w) - 1
    if not isinstance(b, E):
        if b >= w:
            return 0
        if not isinstance(a, E):
            return a >> b
        if b == 0:
            return a
        if a.hi >> b == a.lo >> b:
            return a.lo >> b
        if a.op == 'lshr' and not isinstance(a.args[1], E):
            return lshr(a.args[0], a.args[1] + b, w)
        if _is_ite_tree(a, 3):
            return _map_ite(a, lambda k: k >> b, w)
        if b == w - 1 and a.op in ('add', 'sub') and _parts(a, w) is not None:
            return zext(slt(a, 0, w), 1, w)
        return _mk('lshr', (a, b), w, a.lo >> b, a.hi >> b)
    return _mk('lshr', (a, b), w, 0, hi(a))


def ashr(a, b, w):
    m = (1 << w) - 1
    if not isinstance(a, E) and not isinstance(b, E):
        return (_s(a, w) >> min(b, w - 1)) & m
    if hi(a) < 1 << (w - 1):
        return lshr(a, b, w)
    if not isinstance(b, E) and b == w - 1 and _parts(a, w) is not None:
        return ite(slt(a, 0, w), m, 0, w)
    return _mk('ashr', (a, b), w, 0, m)


def zext(a, w0, w):
    if not isinstance(a, E):
        return a
    if w0 == w:
        return a
    if a.op == 'var':
        return _mk('var', a.args, w, a.lo, a.hi)
    if a.op == 'zext':
        return zext(a.args[0], a.args[0].w, w)
    if a.op == 'trunc' and a.args[0].hi < (1 << w0):
        x = a.args[0]
        return zext(x, x.w, w) if x.w <= w else trunc(x, x.w, w)
    if a.op == 'ite' and w0 > 1 and (leaf_ite(a) or _is_ite_tree(a, 3)):
        return _map_ite(a, lambda k: k, w)
    return _mk('zext', (a,), w, a.lo, a.hi)


def sext(a, w0, w):
    if not isinstance(a, E):
        return _s(a, w0) & ((1 << w) - 1)
    if w0 == 1:
        return ite(a, (1 << w) - 1, 0, w)
    if a.hi < 1 << (w0 - 1):
        return zext(a, w0, w)
    if _is_ite_tree(a, 3):
        return _map_ite(a, lambda k: _s(k, w0) & ((1 << w) - 1), w)
    return _mk('sext', (a,), w, 0, (1 << w) - 1)


def trunc(a, w0, w):
    m = (1 << w) - 1
    if not isinstance(a, E):
        return a & m
    if w0 == w:
        return a
    if a.op == 'var' and a.hi <= m:
        return _mk('var', a.args, w, a.lo, a.hi)
    if a.op in ('zext', 'sext'):
        x = a.args[0]
        if x.w == w:
            return x
        if x.w > w:
            return trunc(x, x.w, w)
        return zext(x, x.w, w) if a.op == 'zext' else sext(x, x.w, w)
    if a.op == 'trunc':
        return trunc(a.args[0], a.args[0].w, w)
    if w == 1:
        if a.hi <= 1:
            return ne(a, 0)
        return ne(and_(a, 1, w0), 0)
    if a.op in ('and',) and not isinstance(a.args[1], E) and a.args[1] & m == m and a.hi > m:
        return trunc(a.args[0], w0, w)
    if a.op == 'ite' and _is_ite_tree(a, 3):
        return _map_ite(a, lambda k: k & m, w)
    if a.op in ('add', 'sub', 'mul', 'and', 'or', 'xor') and any(
            isinstance(x, E) and x.op in ('zext', 'sext') and x.args[0].w == w for x in a.args) and all(
            not isinstance(x, E) or x.op in ('zext', 'sext', 'var') for x in a.args):
        # the wide computation of a narrow operation (C++ integer promotion)
        p = [trunc(x, w0, w) for x in a.args]
        return {'add': add, 'sub': sub, 'mul': mul, 'and': and_, 'or': or_, 'xor': xor}[a.op](p[0], p[1], w)
    l, h = a.lo, a.hi
    if l >> w == h >> w:
        l, h = l & m, h & m
    else:
        l, h = 0, m
    return _mk('trunc', (a,), w, l, h)


def ite(c, a, b, w):
    if not isinstance(c, E):
        return a if c else b
    if a is b or (not isinstance(a, E) and not isinstance(b, E) and a == b):
        return a
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if w == 1:
        if not isinstance(a, E) and not isinstance(b, E):
            return c if a else not_(c)
        if not isinstance(a, E):
            return or_(c, b, 1) if a else and_(not_(c), b, 1)
        if not isinstance(b, E):
            return or_(not_(c), a, 1) if b else and_(c, a, 1)
    if isinstance(a, E) and a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, E) and b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b or (not isinstance(a, E) and not isinstance(b, E) and a == b):
        return a
    return _mk('ite', (c, a, b), w, min(lo(a), lo(b)), max(hi(a), hi(b)))


def not_(a):
    if not isinstance(a, E):
        return 1 - a
    if a.op == 'not':
        return a.args[0]
    if a.op == 'ult':
        return ule(a.args[1], a.args[0], _argw(a))
    if a.op == 'ule':
        return ult(a.args[1], a.args[0], _argw(a))
    return _mk('not', (a,), 1, 0, 1)


def _argw(a):
    x = a.args[0]
    return x.w if isinstance(x, E) else a.args[1].w


def eq(a, b, w):
    if not isinstance(a, E):
        if not isinstance(b, E):
            return 1 if a == b else 0
        a, b = b, a
    if a is b:
        return 1
    if hi(a) < lo(b) or hi(b) < lo(a):
        return 0
    if w == 1:
        if not isinstance(b, E):
            return a if b else not_(a)
    if not isinstance(b, E):
        if a.op == 'zext':
            x = a.args[0]
            return eq(x, b, x.w)
        if a.op == 'add' and not isinstance(a.args[1], E):
            return eq(a.args[0], (b - a.args[1]) & ((1 << w) - 1), w)
        if a.op == 'ite' and (not isinstance(a.args[1], E) or not isinstance(a.args[2], E)):
            return ite(a.args[0], eq(a.args[1], b, w), eq(a.args[2], b, w), 1)
        if a.op == 'mul' and not isinstance(a.args[1], E) and a.args[0].hi * a.args[1] < (1 << w):
            if b % a.args[1]:
                return 0
            return eq(a.args[0], b // a.args[1], w)
    else:
        if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w:
            return eq(a.args[0], b.args[0], a.args[0].w)
        if a.op == 'ite' and b.op == 'ite' and _is_ite_tree(a, 3) and _is_ite_tree(b, 3):
            return ite(a.args[0], eq(a.args[1], b, w), eq(a.args[2], b, w), 1)
        if a.op == 'sub' and a.args[0] is b:
            return eq(a.args[1], 0, w)
        if a.id > b.id:
            a, b = b, a
    return _mk('eq', (a, b), 1, 0, 1)


def ne(a, b, w=None):
    if w is None:
        w = a.w if isinstance(a, E) else b.w
    return not_(eq(a, b, w))


def ult(a, b, w):
    if hi(a) < lo(b):
        return 1
    if lo(a) >= hi(b):
        return 0
    if a is b:
        return 0
    if not isinstance(a, E) and not isinstance(b, E):
        return 1 if a < b else 0
    if not isinstance(b, E):
        if b == 1 or b == lo(a) + 1:
            return eq(a, lo(a), w)
        if a.op == 'ite' and _is_ite_tree(a, 3):
            return _map_ite(a, lambda k: 1 if k < b else 0, 1)
    if not isinstance(a, E):
        if a + 1 == b.hi:
            return eq(b, b.hi, w)
        if b.op == 'ite' and _is_ite_tree(b, 3):
            return _map_ite(b, lambda k: 1 if a < k else 0, 1)
    if isinstance(a, E) and a.op == 'zext':
        x = a.args[0]
        if isinstance(b, E):
            if b.op == 'zext' and b.args[0].w == x.w:
                return ult(x, b.args[0], x.w)
        elif b < 1 << x.w:
            return ult(x, b, x.w)
    elif isinstance(b, E) and b.op == 'zext' and not isinstance(a, E):
        x = b.args[0]
        if a < 1 << x.w:
            return ult(a, x, x.w)
    return _mk('ult', (a, b), 1, 0, 1)


def ule(a, b, w):
    if hi(a) <= lo(b):
        return 1
    if lo(a) > hi(b):
        return 0
    if a is b:
        return 1
    if not isinstance(a, E) and not isinstance(b, E):
        return 1 if a <= b else 0
    if not isinstance(b, E):
        return ult(a, b + 1, w) if b + 1 < (1 << w) else 1
    if not isinstance(a, E):
        return ult(a - 1, b, w) if a > 0 else 1
    if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w:
        return ule(a.args[0], b.args[0], a.args[0].w)
    return _mk('ule', (a, b), 1, 0, 1)


def _sum(ts, w):
    r = 0
    for t in ts:
        r = add(r, t, w)
    return r


def _flat(e, w, sign, pos, neg, depth):
    """adds sign * e modulo 2^w to the lists, returns the constant part or None"""
    if not isinstance(e, E):
        return sign * _s(e, w)
    if e.op in ('add', 'sub') and (e.hi >= 1 << (w - 1)) and depth:
        k1 = _flat(e.args[0], w, sign, pos, neg, depth - 1)
        k2 = _flat(e.args[1], w, sign if e.op == 'add' else -sign, pos, neg, depth - 1)
        return None if k1 is None or k2 is None else k1 + k2
    if e.hi >= 1 << (w - 1):
        if not _is_ite_tree(e, 3):
            return None
        ks = []
        _map_ite(e, lambda k: ks.append(_s(k, w)) or 0, w)
        m = min(ks) if sign > 0 else max(ks)
        t = _map_ite(e, lambda k: sign * (_s(k, w) - m), w)
        if isinstance(t, E):
            pos.append(t)
            return sign * m
        return sign * m + t
    (pos if sign > 0 else neg).append(e)
    return 0


def _parts(e, w):
    """(positive terms, negative terms, constant) whose sum is the signed value of e, or None"""
    pos, neg = [], []
    k = _flat(e, w, 1, pos, neg, 6)
    if k is None:
        return None
    h = 1 << (w - 1)
    if sum(t.hi for t in pos) - sum(t.lo for t in neg) + k >= h or sum(t.lo for t in pos) - sum(t.hi for t in neg) + k < -h:
        return None
    return pos, neg, k


def slt(a, b, w):
    h = 1 << (w - 1)
    if not isinstance(a, E) and not isinstance(b, E):
        return 1 if _s(a, w) < _s(b, w) else 0
    if hi(a) < h and hi(b) < h:
        return ult(a, b, w)
    if lo(a) >= h and lo(b) >= h:
        return ult(a, b, w)
    if lo(a) >= h and hi(b) < h:
        return 1
    if hi(a) < h and lo(b) >= h:
        return 0
    if isinstance(a, E) and not isinstance(b, E) and _is_ite_tree(a, 3):
        return _map_ite(a, lambda k: 1 if _s(k, w) < _s(b, w) else 0, 1)
    if isinstance(b, E) and not isinstance(a, E) and _is_ite_tree(b, 3):
        return _map_ite(b, lambda k: 1 if _s(a, w) < _s(k, w) else 0, 1)
    x, y = _parts(a, w), _parts(b, w)
    if x is not None and y is not None:
        # p1 - n1 + k1 < p2 - n2 + k2 without negative numbers
        k = x[2] - y[2]
        l, r = x[0] + y[1] + ([k] if k > 0 else []), y[0] + x[1] + ([-k] if k < 0 else [])
        if sum(hi(t) for t in l) < 2 * h and sum(hi(t) for t in r) < 2 * h:
            return ult(_sum(l, w), _sum(r, w), w)
    # flip the sign bit: unsigned comparison of a + 2^(w-1)
    return ult(add(a, h, w), add(b, h, w), w)


def sle(a, b, w):
    return not_(slt(b, a, w))


# ---------------------------------------------------------------------------
# concrete evaluation
# ---------------------------------------------------------------------------
def evaluate(e, env, memo):
    """value of e under env (variable name -> int)"""
    if not isinstance(e, E):
        return e
    r = memo.get(e.id)
    if r is not None:
        return r
    op = e.op
    w = e.w
    m = (1 << w) - 1
    if op == 'var':
        r = env.get(e.args[0])
        if r is None:
            r = e.args[1]
        memo[e.id] = r
        return r
    if op == 'ite':
        r = evaluate(e.args[1] if evaluate(e.args[0], env, memo) else e.args[2], env, memo)
        memo[e.id] = r
        return r
    a = evaluate(e.args[0], env, memo)
    if op == 'zext':
        r = a
    elif op == 'trunc':
        r = a & m
    elif op == 'not':
        r = 1 - a
    elif op == 'sext':
        r = _s(a, e.args[0].w) & m
    else:
        b = evaluate(e.args[1], env, memo)
        if op == 'add':
            r = (a + b) & m
        elif op == 'sub':
            r = (a - b) & m
        elif op == 'mul':
            r = (a * b) & m
        elif op == 'udiv':
            r = a // b if b else m
        elif op == 'urem':
            r = a % b if b else a
        elif op == 'sdiv':
            r = sdiv(a, b, w) if b else m
        elif op == 'srem':
            r = srem(a, b, w) if b else a
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        elif op == 'xor':
            r = a ^ b
        elif op == 'shl':
            r = (a << b) & m if b < w else 0
        elif op == 'lshr':
            r = a >> b if b < w else 0
        elif op == 'ashr':
            r = (_s(a, w) >> min(b, w - 1)) & m
        elif op == 'eq':
            r = 1 if a == b else 0
        elif op == 'ult':
            r = 1 if a < b else 0
        elif op == 'ule':
            r = 1 if a <= b else 0
        else:
            raise NotImplementedError(op)
    memo[e.id] = r
    return r


def variables(es):
    """all variable nodes below the given terms: name -> (lo, hi)"""
    seen = set()
    out = {}
    stack = [e for e in es if isinstance(e, E)]
    while stack:
        e = stack.pop()
        if e.id in seen:
            continue
        seen.add(e.id)
        if e.op == 'var':
            out[e.args[0]] = (e.args[1], e.args[2])
        else:
            for a in e.args:
                if isinstance(a, E):
                    stack.append(a)
    return out
