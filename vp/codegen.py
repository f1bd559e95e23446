"""Translation of basic blocks to Python functions (one per group of
instructions without side effects, ended by a store, call or terminator)."""
from . import expr as X
from . import fp
from . import ir
from .expr import E
from .fp import F

M64 = (1 << 64) - 1
_cache = {}


class BlockGen(object):
    def __init__(self, ex, cf, b):
        self.ex = ex
        self.cf = cf
        self.b = b
        self.env = {'X': X, 'ex': ex, 'fp': fp, 'F': F, 'E': E}
        self.k = 0
        self.ops = []
        self.src = []
        self.names = []

    def cst(self, v):
        if v.__class__ is int:
            return str(v)
        n = 'k%d' % self.k
        self.k += 1
        self.env[n] = v
        return n

    def val(self, v, t):
        if v[0] == 'r':
            return 'R[%d]' % self.cf.slots[v[1]]
        if v[0] == 'byval':
            raise NotImplementedError('byval')
        if v[0] == 'agg' and any(x[0] == 'r' for _, x in v[1]):
            return '(%s,)' % ','.join(self.val(x, ft) for ft, x in v[1])
        c = self.ex.const(v, t)
        return self.cst(c)

    def emit(self, line):
        self.cur.append('  ' + line)

    def flush(self, attrs=None):
        if not self.cur:
            return
        name = 'op%d' % len(self.names)
        self.names.append((name, attrs))
        self.src.append('def %s(st, R):' % name)
        self.src.extend(self.cur)
        self.cur = []

    def build(self):
        self.cur = []
        for ins in self.b.ins:
            self.gen(ins)
        self.flush()
        code = compile('\n'.join(self.src), '<%s %s>' % (self.cf.name, self.b.name), 'exec')
        exec(code, self.env)
        out = []
        for n, at in self.names:
            f = self.env[n]
            if at:
                for k, v in at.items():
                    setattr(f, k, v)
            out.append(f)
        return out

    # int fast path
    def arith(self, d, op, a, b, w):
        m = (1 << w) - 1
        e = self.emit
        e('a=%s;b=%s' % (a, b))
        f = {'add': 'X.add', 'sub': 'X.sub', 'mul': 'X.mul', 'and': 'X.and_', 'or': 'X.or_', 'xor': 'X.xor'}.get(op)
        if op in ('add', 'sub', 'mul'):
            s = {'add': '+', 'sub': '-', 'mul': '*'}[op]
            e('R[%d]=(a%sb)&%d if a.__class__ is int and b.__class__ is int else %s(a,b,%d)' % (d, s, m, f, w))
        elif op in ('and', 'or', 'xor'):
            s = {'and': '&', 'or': '|', 'xor': '^'}[op]
            e('R[%d]=a%sb if a.__class__ is int and b.__class__ is int else %s(a,b,%d)' % (d, s, f, w))
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            e('if b.__class__ is not int: ex.nonzero(st,b,%d)' % w)
            e('elif b==0: ex.divzero()')
            if op[0] == 's':
                e('ex.sdivov(st,a,b,%d)' % w)
            e('R[%d]=X.%s(a,b,%d)' % (d, op, w))
        elif op in ('shl', 'lshr', 'ashr'):
            e('R[%d]=X.%s(a,b,%d)' % (d, op, w))
        else:
            raise NotImplementedError(op)

    def gen(self, ins):
        ex, cf = self.ex, self.cf
        k = ins[0]
        e = self.emit
        sl = cf.slots
        if k == 'bin':
            _, dst, op, t, a, b, fl = ins
            d = sl[dst]
            if t[0] == 'i':
                return self.arith(d, op, self.val(a, t), self.val(b, t), t[1])
            if t == ('f', 64):
                A, B = self.val(a, t), self.val(b, t)
                e('a=%s;b=%s' % (A, B))
                o = {'fadd': 'fp.add(a,b)', 'fsub': 'fp.add(a,b,-1)', 'fmul': 'fp.mul(a,b)',
                     'fdiv': 'fp.div(a,b)'}.get(op)
                if o:
                    e('R[%d]=%s' % (d, o))
                    return
            return self.unsup('%s %r' % (op, t))
        if k == 'icmp':
            _, dst, p, t, a, b = ins
            w = 64 if t[0] == 'p' else t[1] if t[0] == 'i' else None
            if w is None:
                return self.unsup('icmp')
            d = sl[dst]
            e('a=%s;b=%s' % (self.val(a, t), self.val(b, t)))
            fast = {'eq': 'a==b', 'ne': 'a!=b', 'ult': 'a<b', 'ule': 'a<=b', 'ugt': 'a>b', 'uge': 'a>=b'}.get(p)
            slow = {'eq': 'X.eq(a,b,%d)', 'ne': 'X.ne(a,b,%d)', 'ult': 'X.ult(a,b,%d)', 'ule': 'X.ule(a,b,%d)',
                    'ugt': 'X.ult(b,a,%d)', 'uge': 'X.ule(b,a,%d)', 'slt': 'X.slt(a,b,%d)', 'sle': 'X.sle(a,b,%d)',
                    'sgt': 'X.slt(b,a,%d)', 'sge': 'X.sle(b,a,%d)'}[p] % w
            if fast:
                e('R[%d]=(1 if %s else 0) if a.__class__ is int and b.__class__ is int else %s' % (d, fast, slow))
            else:
                e('R[%d]=%s' % (d, slow))
            return
        if k == 'fcmp':
            _, dst, p, t, a, b = ins
            e('R[%d]=ex.fcmp(st,%r,%s,%s)' % (sl[dst], p, self.val(a, t), self.val(b, t)))
            return
        if k == 'fneg':
            _, dst, t, a = ins
            if t != ('f', 64):
                return self.unsup('fneg')
            e('R[%d]=fp.neg(%s)' % (sl[dst], self.val(a, t)))
            return
        if k == 'cast':
            _, dst, op, t, v, t2 = ins
            d = sl[dst]
            a = self.val(v, t)
            if op in ('bitcast', 'inttoptr', 'ptrtoint'):
                if t == t2 or op != 'bitcast':
                    w1 = 64 if t[0] == 'p' else t[1]
                    w2 = 64 if t2[0] == 'p' else t2[1]
                    if w1 == w2:
                        e('R[%d]=%s' % (d, a))
                    elif w1 > w2:
                        e('R[%d]=X.trunc(%s,%d,%d)' % (d, a, w1, w2))
                    else:
                        e('R[%d]=X.zext(%s,%d,%d)' % (d, a, w1, w2))
                    return
                if t[0] == 'i' and t2 == ('f', 64):
                    e('R[%d]=ex.i2f(%s)' % (d, a))
                    return
                if t == ('f', 64) and t2[0] == 'i':
                    e('R[%d]=ex.as_int(%s,8)' % (d, a))
                    return
                return self.unsup('bitcast')
            if op in ('zext', 'sext', 'trunc'):
                if t[0] != 'i':
                    return self.unsup('vector cast')
                if op == 'zext':
                    e('a=%s' % a)
                    e('R[%d]=a if a.__class__ is int else X.zext(a,%d,%d)' % (d, t[1], t2[1]))
                elif op == 'trunc':
                    e('a=%s' % a)
                    e('R[%d]=a&%d if a.__class__ is int else X.trunc(a,%d,%d)' % (d, (1 << t2[1]) - 1, t[1], t2[1]))
                else:
                    e('R[%d]=X.sext(%s,%d,%d)' % (d, a, t[1], t2[1]))
                return
            if op in ('uitofp', 'sitofp') and t2 == ('f', 64):
                e('R[%d]=ex.itof(%s,%d,%r)' % (d, a, t[1], op == 'sitofp'))
                return
            if op in ('fptoui', 'fptosi') and t == ('f', 64):
                e('R[%d]=ex.ftoi(st,%s,%d,%r)' % (d, a, t2[1], op == 'fptosi'))
                return
            return self.unsup(op)
        if k == 'load':
            _, dst, t, p = ins
            t = ex.mod.resolve(t)
            if t[0] in ('s', 'a', 'vec'):
                return self.unsup('aggregate load')
            n = ex.mod.size(t)
            if t[0] == 'i' and t[1] % 8:
                # i1 and odd widths live in whole bytes
                e('R[%d]=X.trunc(ex.load(st,%s,%d),%d,%d)' % (sl[dst], self.val(p, ir.PTR), n, 8 * n, t[1]))
                return
            e('R[%d]=ex.load(st,%s,%d%s)' % (sl[dst], self.val(p, ir.PTR), n, ',True' if t[0] == 'f' else ''))
            return
        if k == 'store':
            _, t, v, p = ins
            t = ex.mod.resolve(t)
            if t[0] in ('s', 'a', 'vec'):
                return self.unsup('aggregate store')
            n = ex.mod.size(t)
            a = self.val(v, t)
            if t[0] == 'i' and t[1] % 8:
                a = 'X.zext(%s,%d,%d)' % (a, t[1], 8 * n)
            e('ex.store(st,%s,%d,%s)' % (self.val(p, ir.PTR), n, a))
            return self.flush()
        if k == 'alloca':
            _, dst, t, n = ins
            sz = ex.mod.size(t)
            e('a=ex.new_obj(st,%d*%s,"stack")' % (sz, self.val(n, ('i', 64))))
            e('R[%d]=a' % sl[dst])
            e('st.frames[-1].allocas.append(a)')
            return self.flush()
        if k == 'gep':
            _, dst, bt, ops = ins
            off = 0
            terms = []
            for i, (it, iv) in enumerate(ops[1:]):
                if i == 0:
                    sz = ex.mod.size(bt)
                else:
                    r = ex.mod.resolve(bt)
                    if r[0] == 's':
                        fo, bt = ex.mod.field(r, ex.const(iv, it))
                        off += fo
                        continue
                    bt = r[2]
                    sz = ex.mod.size(bt)
                if iv[0] == 'r':
                    s = self.val(iv, it)
                    if it[1] < 64:
                        s = 'X.sext(%s,%d,64)' % (s, it[1])
                    terms.append((s, sz))
                else:
                    off += X._s(ex.const(iv, it), it[1]) * sz
            d = sl[dst]
            base = self.val(ops[0][1], ops[0][0])
            if not terms:
                if off == 0:
                    e('R[%d]=%s' % (d, base))
                else:
                    e('a=%s' % base)
                    e('R[%d]=(a+%d)&%d if a.__class__ is int else X.add(a,%d,64)' % (d, off, M64, off & M64))
                return
            if len(terms) == 1:
                s, sz = terms[0]
                e('a=%s;b=%s' % (base, s))
                e('R[%d]=(a+b*%d+%d)&%d if a.__class__ is int and b.__class__ is int else '
                  'X.add(X.add(a,X.mul(b,%d,64),64),%d,64)' % (d, sz, off, M64, sz, off & M64))
                return
            e('a=X.add(%s,%d,64)' % (base, off & M64))
            for s, sz in terms:
                e('a=X.add(a,X.mul(%s,%d,64),64)' % (s, sz))
            e('R[%d]=a' % d)
            return
        if k == 'select':
            _, dst, t, c, a, b = ins
            t = ex.mod.resolve(t)
            e('c=%s' % self.val(c, ('i', 1)))
            A, B = self.val(a, t), self.val(b, t)
            d = sl[dst]
            if t[0] == 'i':
                e('R[%d]=(%s if c else %s) if c.__class__ is int else X.ite(c,%s,%s,%d)' % (d, A, B, A, B, t[1]))
            elif t[0] == 'vec':
                return self.unsup('vector select')
            else:
                # pointers, doubles: decide
                e('if c.__class__ is not int: c=ex.decide(st,c)')
                e('R[%d]=%s if c else %s' % (d, A, B))
            return
        if k == 'freeze':
            e('R[%d]=%s' % (sl[ins[1]], self.val(ins[3], ins[2])))
            return
        if k == 'extractvalue':
            _, dst, t, v, idx = ins
            e('R[%d]=%s%s' % (sl[dst], self.val(v, t), ''.join('[%d]' % i for i in idx)))
            return
        if k == 'insertvalue':
            _, dst, t, v, et, x, idx = ins
            if len(idx) != 1:
                return self.unsup('nested insertvalue')
            e('a=%s' % self.val(v, t))
            e('R[%d]=a[:%d]+(%s,)+a[%d:]' % (sl[dst], idx[0], self.val(x, et), idx[0] + 1))
            return
        if k == 'br':
            e('return %d' % cf.fn.bidx[ins[1]])
            return self.flush()
        if k == 'condbr':
            _, c, a, b = ins
            ia, ib = cf.fn.bidx[a], cf.fn.bidx[b]
            self.flush()
            e('c=%s' % self.val(c, ('i', 1)))
            e('if c.__class__ is not int: c=ex.decide(st,c)')
            e('return %d if c else %d' % (ia, ib))
            return self.flush({'branch': True})
        if k == 'switch':
            _, t, v, dflt, cases = ins
            self.flush()
            e('c=%s' % self.val(v, t))
            e('if c.__class__ is int:')
            e('  return %s.get(c,%d)' % (self.cst({cv: cf.fn.bidx[l] for cv, l in cases}), cf.fn.bidx[dflt]))
            for cv, l in cases:
                e('if ex.decide(st,X.eq(c,%d,%d)): return %d' % (cv, t[1], cf.fn.bidx[l]))
            e('return %d' % cf.fn.bidx[dflt])
            return self.flush({'branch': True})
        if k == 'ret':
            _, t, v = ins
            self.flush()
            e('return ex.ret(st,%s)' % (self.val(v, t) if v is not None else 'None'))
            return self.flush()
        if k in ('call', 'invoke'):
            return self.gen_call(ins)
        if k == 'landingpad':
            return
        if k == 'resume':
            self.flush()
            e('return ex.resume(st,%s)' % self.val(ins[1], ('x',)))
            return self.flush()
        if k == 'unreachable':
            self.flush()
            e('ex.unreach(st)')
            return self.flush()
        return self.unsup(ins[2] if len(ins) > 2 else k)

    def unsup(self, what):
        self.flush()
        self.emit('ex.unsup(%r)' % str(what))
        self.flush()

    def gen_call(self, ins):
        ex, cf = self.ex, self.cf
        k = ins[0]
        dst, rt, callee, args = ins[1], ins[2], ins[3], ins[4]
        d = cf.slots[dst] if dst else None
        e = self.emit
        name = callee[1] if callee[0] == 'g' else None
        if name is not None and name.startswith('@llvm.'):
            from . import libc
            s = libc.intrinsic(self, name, rt, args)
            if s is not None:
                if s == '':
                    if k == 'invoke':
                        e('return %d' % cf.fn.bidx[ins[6]])
                        self.flush()
                    return
                pure = s[0] != '!'
                if not pure:
                    self.flush()
                    s = s[1:]
                if d is not None:
                    e('R[%d]=%s' % (d, s))
                else:
                    e(s)
                if not pure:
                    self.flush()
                return
            return self.unsup(name)
        self.flush()
        av = []
        for t, v, by in args:
            a = self.val(v, t)
            if by is not None:
                a = 'ex.byval(st,%s,%d)' % (a, ex.mod.size(by))
            av.append(a)
        attrs = None
        n = u = None
        if k == 'invoke':
            n, u = cf.fn.bidx[ins[6]], cf.fn.bidx[ins[7]]
            attrs = {'pad': u}
        if name is not None:
            e('return ex.call(st,%r,(%s),%r,%r,%r)' % (name, ''.join(a + ',' for a in av), d, n, u))
        else:
            e('return ex.call(st,ex.fn_at(st,%s),(%s),%r,%r,%r)' % (
                self.val(callee, ir.PTR), ''.join(a + ',' for a in av), d, n, u))
        self.flush(attrs)
