"""Reader for textual LLVM IR (clang 18, opaque pointers).

Only what the executor needs: types with their sizes, globals with their
initialisers, and functions as lists of basic blocks of parsed instructions.
Function bodies are parsed the first time they are entered.
"""
import re
import struct


class IRError(Exception):
    pass


# ---------------------------------------------------------------------------
# types: ('i', n) ('p',) ('f', 32|64) ('a', n, t) ('s', (t..), packed) ('v',)
#        ('named', name) is resolved through the module
# ---------------------------------------------------------------------------
VOID = ('v',)
PTR = ('p',)
TOK = re.compile(r'''
    c"(?:[^"])*"          |
    %"[^"]*" | @"[^"]*" | "[^"]*" |
    %[-\w.$]+ | @[-\w.$]+ | ![-\w.]* | \#\d+ |
    0x[0-9A-Fa-f]+ | -?\d+\.\d+(?:e[+-]?\d+)? | -?\d+ |
    \.\.\. | [A-Za-z_][\w.]* | [(){}\[\]<>,=*:|]
''', re.X)


def tokens(s):
    return TOK.findall(s)


class Toks(object):
    __slots__ = ('t', 'i')

    def __init__(self, s):
        self.t = tokens(s) if isinstance(s, str) else s
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise IRError('expected %s at %s' % (x, ' '.join(self.t[max(0, self.i - 5):self.i + 8])))

    def end(self):
        return self.i >= len(self.t)


def unq(n):
    """%"a b" -> %a b"""
    if len(n) > 1 and n[1] == '"':
        return n[0] + n[2:-1]
    return n


def parse_type(T):
    x = T.next()
    if x == 'ptr':
        t = PTR
        if T.peek() == 'addrspace':
            raise IRError('addrspace')
    elif x == 'void':
        t = VOID
    elif x[0] == 'i' and x[1:].isdigit():
        t = ('i', int(x[1:]))
    elif x == 'double':
        t = ('f', 64)
    elif x == 'float':
        t = ('f', 32)
    elif x == 'x86_fp80':
        t = ('f', 80)
    elif x == 'half':
        t = ('f', 16)
    elif x in ('metadata', 'label', 'token'):
        t = (x,)
    elif x == '[':
        n = int(T.next())
        T.expect('x')
        e = parse_type(T)
        T.expect(']')
        t = ('a', n, e)
    elif x == '<':
        if T.peek() == '{':
            T.next()
            t = ('s', tuple(parse_fields(T, '}')), True)
            T.expect('>')
        else:
            n = int(T.next())
            T.expect('x')
            e = parse_type(T)
            T.expect('>')
            t = ('vec', n, e)
    elif x == '{':
        t = ('s', tuple(parse_fields(T, '}')), False)
    elif x[0] == '%':
        t = ('named', unq(x))
    elif x == 'opaque':
        t = ('opaque',)
    else:
        raise IRError('type ' + x)
    # function types: "void (ptr, i32)" appear in calls of variadics
    while T.peek() == '(' and t[0] != 'fn':
        T.next()
        args = []
        while not T.accept(')'):
            if T.accept('...'):
                continue
            if T.accept(','):
                continue
            args.append(parse_type(T))
        t = ('fn', t, tuple(args))
    return t


def parse_fields(T, close):
    out = []
    while not T.accept(close):
        if T.accept(','):
            continue
        out.append(parse_type(T))
    return out


# attributes that may precede an operand
PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone',
               'returned', 'signext', 'zeroext', 'inreg', 'immarg', 'nofree', 'nest', 'noalias',
               'swiftself', 'swifterror', 'allocptr', 'allocalign', 'inbounds', 'writable',
               'dead_on_unwind'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype',
                   'captures', 'range', 'nofpclass', 'initializes', 'preallocated', 'inalloca', 'byref'}


def skip_attrs(T):
    """skip parameter attributes; returns the byval type if there is one"""
    byval = None
    while True:
        x = T.peek()
        if x in PARAM_ATTRS:
            T.next()
        elif x in PARAM_ATTRS_ARG:
            T.next()
            if T.peek() == '(':
                if x == 'byval':
                    T.next()
                    byval = parse_type(T)
                    T.expect(')')
                    continue
                d = 0
                while True:
                    y = T.next()
                    if y == '(':
                        d += 1
                    elif y == ')':
                        d -= 1
                        if d == 0:
                            break
            elif x == 'align':
                T.next()
        elif x and x[0] == '"':
            T.next()
            if T.accept('='):
                T.next()
        else:
            return byval


# ---------------------------------------------------------------------------
# operands:  ('r', name)  ('c', int)  ('fc', float)  ('g', name)  ('z',) zero
#            ('u',) undef  ('agg', [..])  ('str', bytes) ('ce', op, ...)
# ---------------------------------------------------------------------------
def fval(x, bits):
    if x.startswith('0x'):
        return struct.unpack('>d', bytes.fromhex(x[2:].zfill(16)))[0]
    return float(x)


CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
         'fpext', 'fptrunc', 'addrspacecast'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
FBINOPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint',
         'nneg', 'inbounds', 'nusw', 'samesign'}


def parse_value(T, t):
    x = T.peek()
    c = x[0]
    if c == '%':
        T.next()
        return ('r', unq(x))
    if c == '@':
        T.next()
        return ('g', unq(x))
    if x in ('true', 'false'):
        T.next()
        return ('c', 1 if x == 'true' else 0)
    if x == 'null':
        T.next()
        return ('c', 0)
    if x in ('undef', 'poison'):
        T.next()
        return ('u',)
    if x == 'zeroinitializer':
        T.next()
        return ('z',)
    if c == 'c' and x[1:2] == '"':
        T.next()
        raw = x[2:-1]
        out = bytearray()
        i = 0
        while i < len(raw):
            if raw[i] == '\\':
                if raw[i + 1] == '\\':
                    out.append(0x5c)
                    i += 2
                    continue
                out.append(int(raw[i + 1:i + 3], 16))
                i += 3
            else:
                out.append(ord(raw[i]))
                i += 1
        return ('str', bytes(out))
    if x in ('[', '{', '<'):
        T.next()
        close = {'[': ']', '{': '}', '<': '>'}[x]
        if x == '<' and T.peek() == '{':
            T.next()
            vals = []
            while not T.accept('}'):
                if T.accept(','):
                    continue
                ft = parse_type(T)
                vals.append((ft, parse_value(T, ft)))
            T.expect('>')
            return ('agg', vals)
        vals = []
        while not T.accept(close):
            if T.accept(','):
                continue
            ft = parse_type(T)
            vals.append((ft, parse_value(T, ft)))
        return ('agg', vals)
    if x == 'getelementptr':
        T.next()
        while T.peek() in FLAGS or T.peek() == 'inrange':
            if T.next() == 'inrange' and T.accept('('):
                while not T.accept(')'):
                    T.next()
        T.expect('(')
        bt = parse_type(T)
        T.expect(',')
        ops = []
        while not T.accept(')'):
            if T.accept(','):
                continue
            T.accept('inrange')
            ot = parse_type(T)
            ops.append((ot, parse_value(T, ot)))
        return ('ce', 'gep', bt, ops)
    if x in CASTS:
        T.next()
        T.expect('(')
        st = parse_type(T)
        v = parse_value(T, st)
        T.expect('to')
        dt = parse_type(T)
        T.expect(')')
        return ('ce', 'cast', x, st, v, dt)
    if x in BINOPS:
        T.next()
        while T.peek() in FLAGS:
            T.next()
        T.expect('(')
        st = parse_type(T)
        a = parse_value(T, st)
        T.expect(',')
        st2 = parse_type(T)
        b = parse_value(T, st2)
        T.expect(')')
        return ('ce', 'bin', x, st, a, b)
    if x in ('dso_local_equivalent', 'no_cfi'):
        T.next()
        return parse_value(T, t)
    T.next()
    if t[0] == 'f':
        return ('fc', fval(x, t[1]))
    if t[0] == 'i':
        return ('c', int(x) & ((1 << t[1]) - 1))
    if t[0] == 'metadata':
        return ('u',)
    raise IRError('value %s of %r' % (x, t))


def typed(T):
    t = parse_type(T)
    by = skip_attrs(T)
    if t[0] == 'metadata':
        # skip the metadata operand
        d = 0
        while not T.end():
            x = T.peek()
            if d == 0 and x in (',', ')'):
                break
            if x == '(':
                d += 1
            if x == ')':
                d -= 1
            T.next()
        return t, ('u',)
    v = parse_value(T, t)
    if by is not None:
        v = ('byval', by, v)
    return t, v


# ---------------------------------------------------------------------------
class Block(object):
    __slots__ = ('name', 'ins', 'idx', 'phis', 'ops', 'succ')

    def __init__(self, name):
        self.name = name
        self.ins = []
        self.phis = []
        self.ops = None
        self.succ = []


class Function(object):
    def __init__(self, name, header, lines, mod):
        self.name = name
        self.header = header
        self.lines = lines
        self.mod = mod
        self.parsed = False
        self.blocks = None

    def parse(self):
        if self.parsed:
            return self
        self.parsed = True
        m = self.header
        # return type and parameters
        at = m.index('@')
        # name may be quoted
        if m[at + 1] == '"':
            pe = m.index('"', at + 2) + 1
        else:
            pe = m.index('(', at)
        T = Toks(m[pe:])
        T.expect('(')
        self.params = []
        self.vararg = False
        n = 0
        while not T.accept(')'):
            if T.accept(','):
                continue
            if T.accept('...'):
                self.vararg = True
                continue
            t = parse_type(T)
            by = skip_attrs(T)
            x = T.peek()
            if x and x[0] == '%':
                T.next()
                nm = unq(x)
            else:
                nm = '%' + str(n)
            n += 1
            self.params.append((t, nm, by))
        h = Toks(m[len('define'):at])
        # the return type is the last type before the name: scan
        self.ret = None
        toks = h.t
        for i in range(len(toks)):
            try:
                T2 = Toks(toks[i:])
                if T2.peek() in ('(', ')'):
                    continue
                t = parse_type(T2)
                if T2.end() and t[0] != 'fn':
                    self.ret = t
                    break
            except (IRError, ValueError, IndexError):
                continue
        self.parse_body()
        return self

    def parse_body(self):
        joined = []
        buf = None
        for ln in self.lines:
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            if buf is not None:
                buf += ' ' + s
                if self._complete(buf):
                    joined.append(buf)
                    buf = None
                continue
            if re.match(r'^([-\w.$]+|"[^"]*"):', s):
                joined.append(s)
                continue
            if 'switch ' in s and s.rstrip().endswith('['):
                buf = s
                continue
            if re.match(r'^(catch|cleanup|filter)\b', s) and joined:
                joined[-1] += ' ' + s
                continue
            if re.match(r'^to label', s):
                joined[-1] += ' ' + s
                continue
            joined.append(s)
        if buf is not None:
            joined.append(buf)
        blocks = []
        cur = None
        nparam = len(self.params)
        for s in joined:
            m = re.match(r'^([-\w.$]+|"[^"]*"):', s)
            if m:
                nm = m.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                cur = Block('%' + nm)
                cur.idx = len(blocks)
                blocks.append(cur)
                continue
            if cur is None:
                # the unnamed entry block takes the next number
                cur = Block('%' + str(nparam))
                cur.idx = 0
                blocks.append(cur)
            ins = self.parse_ins(s)
            if ins is None:
                continue
            if ins[0] == 'phi':
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)
        self.blocks = blocks
        self.bidx = {b.name: b.idx for b in blocks}
        for b in blocks:
            b.succ = self.successors(b)

    @staticmethod
    def _complete(s):
        return s.count('[') == s.count(']') and s.rstrip().endswith(']')

    def successors(self, b):
        if not b.ins:
            return []
        t = b.ins[-1]
        if t[0] == 'br':
            return [t[1]]
        if t[0] == 'condbr':
            return [t[2], t[3]]
        if t[0] == 'switch':
            return [t[3]] + [l for _, l in t[4]]
        if t[0] == 'invoke':
            return [t[6]]          # the normal edge; unwind edges are dynamic
        return []

    def parse_ins(self, s):
        # strip metadata and comments
        k = s.find(', !')
        if k >= 0:
            s = s[:k]
        k = s.find(' ;')
        if k >= 0 and '"' not in s[k:]:
            s = s[:k]
        T = Toks(s)
        dst = None
        if T.peek()[0] == '%' and T.peek(1) == '=':
            dst = unq(T.next())
            T.next()
        op = T.next()
        if op in ('tail', 'musttail', 'notail'):
            op = T.next()
        if op in BINOPS or op in FBINOPS:
            fl = set()
            while T.peek() in FLAGS:
                fl.add(T.next())
            t = parse_type(T)
            a = parse_value(T, t)
            T.expect(',')
            b = parse_value(T, t)
            return ('bin', dst, op, t, a, b, frozenset(fl))
        if op == 'fneg':
            while T.peek() in FLAGS:
                T.next()
            t = parse_type(T)
            return ('fneg', dst, t, parse_value(T, t))
        if op in ('icmp', 'fcmp'):
            while T.peek() in FLAGS:
                T.next()
            p = T.next()
            t = parse_type(T)
            a = parse_value(T, t)
            T.expect(',')
            b = parse_value(T, t)
            return (op, dst, p, t, a, b)
        if op in CASTS:
            while T.peek() in FLAGS:
                T.next()
            t = parse_type(T)
            v = parse_value(T, t)
            T.expect('to')
            return ('cast', dst, op, t, v, parse_type(T))
        if op == 'br':
            if T.peek() == 'label':
                T.next()
                return ('br', unq(T.next()))
            t, c = typed(T)
            T.expect(',')
            T.expect('label')
            a = unq(T.next())
            T.expect(',')
            T.expect('label')
            return ('condbr', c, a, unq(T.next()))
        if op == 'switch':
            t = parse_type(T)
            v = parse_value(T, t)
            T.expect(',')
            T.expect('label')
            d = unq(T.next())
            T.expect('[')
            cs = []
            while not T.accept(']'):
                ct = parse_type(T)
                cv = parse_value(T, ct)
                T.expect(',')
                T.expect('label')
                cs.append((cv[1], unq(T.next())))
            return ('switch', t, v, d, cs)
        if op == 'ret':
            if T.accept('void'):
                return ('ret', VOID, None)
            t = parse_type(T)
            return ('ret', t, parse_value(T, t))
        if op == 'load':
            T.accept('volatile')
            if T.accept('atomic'):
                T.accept('volatile')
            t = parse_type(T)
            T.expect(',')
            _, p = typed(T)
            return ('load', dst, t, p)
        if op == 'store':
            T.accept('volatile')
            if T.accept('atomic'):
                T.accept('volatile')
            t, v = typed(T)
            T.expect(',')
            _, p = typed(T)
            return ('store', t, v, p)
        if op == 'alloca':
            T.accept('inalloca')
            t = parse_type(T)
            n = ('c', 1)
            if T.accept(',') and T.peek() != 'align':
                nt = parse_type(T)
                n = parse_value(T, nt)
            return ('alloca', dst, t, n)
        if op == 'getelementptr':
            while T.peek() in FLAGS:
                T.next()
            bt = parse_type(T)
            ops = []
            while T.accept(','):
                ot = parse_type(T)
                ops.append((ot, parse_value(T, ot)))
            return ('gep', dst, bt, ops)
        if op == 'phi':
            while T.peek() in FLAGS:
                T.next()
            t = parse_type(T)
            ins = []
            while True:
                T.expect('[')
                v = parse_value(T, t)
                T.expect(',')
                b = unq(T.next())
                T.expect(']')
                ins.append((b, v))
                if not T.accept(','):
                    break
            return ('phi', dst, t, ins)
        if op == 'select':
            while T.peek() in FLAGS:
                T.next()
            ct, c = typed(T)
            T.expect(',')
            t, a = typed(T)
            T.expect(',')
            _, b = typed(T)
            return ('select', dst, t, c, a, b)
        if op in ('call', 'invoke'):
            return self.parse_call(T, op, dst)
        if op == 'landingpad':
            t = parse_type(T)
            clauses = []
            cleanup = False
            while not T.end():
                x = T.next()
                if x == 'cleanup':
                    cleanup = True
                elif x in ('catch', 'filter'):
                    ct = parse_type(T)
                    clauses.append((x, parse_value(T, ct)))
                else:
                    raise IRError('landingpad ' + x)
            return ('landingpad', dst, cleanup, clauses)
        if op == 'resume':
            t = parse_type(T)
            return ('resume', parse_value(T, t))
        if op == 'unreachable':
            return ('unreachable',)
        if op == 'extractvalue':
            t, v = typed(T)
            idx = []
            while T.accept(','):
                idx.append(int(T.next()))
            return ('extractvalue', dst, t, v, idx)
        if op == 'insertvalue':
            t, v = typed(T)
            T.expect(',')
            et, e = typed(T)
            idx = []
            while T.accept(','):
                idx.append(int(T.next()))
            return ('insertvalue', dst, t, v, et, e, idx)
        if op == 'freeze':
            t, v = typed(T)
            return ('freeze', dst, t, v)
        if op == 'fence':
            return None
        return ('unsupported', dst, op)

    def parse_call(self, T, op, dst):
        # skip flags, calling conventions and return attributes
        while T.peek() in FLAGS or T.peek() in ('fastcc', 'ccc', 'coldcc', 'tailcc'):
            T.next()
        skip_attrs(T)
        rt = parse_type(T)
        if rt[0] == 'fn':
            rt = rt[1]
        callee = T.next()
        if callee == 'asm':
            return ('unsupported', dst, 'asm')
        if callee[0] in '%@':
            callee = ('g' if callee[0] == '@' else 'r', unq(callee))
        else:
            T.i -= 1
            callee = parse_value(T, PTR)
        T.expect('(')
        args = []
        while not T.accept(')'):
            if T.accept(','):
                continue
            t = parse_type(T)
            by = skip_attrs(T)
            if t[0] == 'metadata':
                d = 0
                while not (d == 0 and T.peek() in (',', ')')):
                    x = T.next()
                    if x in '({[':
                        d += 1
                    if x in ')}]':
                        d -= 1
                args.append((t, ('u',), None))
                continue
            args.append((t, parse_value(T, t), by))
        nounwind = False
        if op == 'invoke':
            while T.peek() != 'to':
                T.next()
            T.expect('to')
            T.expect('label')
            n = unq(T.next())
            T.expect('unwind')
            T.expect('label')
            return ('invoke', dst, rt, callee, args, None, n, unq(T.next()))
        return ('call', dst, rt, callee, args)

    # -- post-dominators (exceptional exits ignored) ---------------------------
    def ipdoms(self):
        if hasattr(self, '_ipd'):
            return self._ipd
        n = len(self.blocks)
        EXIT = n
        succ = [[self.bidx[s] for s in b.succ] for b in self.blocks]
        for b in self.blocks:
            if b.ins and b.ins[-1][0] == 'ret':
                succ[b.idx] = [EXIT]
        # only blocks that reach the exit matter
        pred = [[] for _ in range(n + 1)]
        for i in range(n):
            for s in succ[i]:
                pred[s].append(i)
        order = []
        seen = {EXIT}
        st = [(EXIT, iter(pred[EXIT]))]
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(pred[v])))
                    break
            else:
                order.append(u)
                st.pop()
        order.reverse()
        num = {u: i for i, u in enumerate(order)}
        ip = {EXIT: EXIT}
        ch = True
        while ch:
            ch = False
            for u in order[1:]:
                new = None
                for s in succ[u]:
                    if s in ip:
                        if new is None:
                            new = s
                        else:
                            a, b = s, new
                            while a != b:
                                while num[a] > num[b]:
                                    a = ip[a]
                                while num[b] > num[a]:
                                    b = ip[b]
                            new = a
                if new is not None and ip.get(u) != new:
                    ip[u] = new
                    ch = True
        self._ipd = {u: (None if v == EXIT else v) for u, v in ip.items() if u != EXIT}
        return self._ipd

    # -- registers live at the start of a block --------------------------------
    def live_in(self):
        if hasattr(self, '_live'):
            return self._live
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]     # uses at the end of a block by phis of successors
        for b in self.blocks:
            for p in b.phis:
                dfn[b.idx].add(p[1])
                for src, v in p[3]:
                    if v[0] == 'r' and src in self.bidx:
                        phiuse[self.bidx[src]].add(v[1])
            for ins in b.ins:
                for r in uses(ins):
                    if r not in dfn[b.idx]:
                        use[b.idx].add(r)
                d = defines(ins)
                if d:
                    dfn[b.idx].add(d)
        allsucc = []
        for b in self.blocks:
            s = [self.bidx[x] for x in b.succ]
            for ins in b.ins:
                if ins[0] == 'invoke':
                    s.append(self.bidx[ins[7]])
            allsucc.append(s)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set(phiuse[i])
                for s in allsucc[i]:
                    out |= live[s]
                new = use[i] | (out - dfn[i])
                # the phi results of this block are live at the point right after the phis
                if new != live[i]:
                    live[i] = new
                    ch = True
        # at a merge point phis have already been evaluated
        self._live = [live[i] | {p[1] for p in self.blocks[i].phis} for i in range(n)]
        return self._live


def _vuses(v, out):
    if v is None:
        return
    k = v[0]
    if k == 'r':
        out.append(v[1])
    elif k == 'agg':
        for _, x in v[1]:
            _vuses(x, out)
    elif k == 'byval':
        _vuses(v[2], out)


def uses(ins):
    out = []
    k = ins[0]
    if k == 'bin':
        _vuses(ins[4], out)
        _vuses(ins[5], out)
    elif k in ('icmp', 'fcmp'):
        _vuses(ins[4], out)
        _vuses(ins[5], out)
    elif k == 'cast':
        _vuses(ins[4], out)
    elif k == 'condbr':
        _vuses(ins[1], out)
    elif k == 'switch':
        _vuses(ins[2], out)
    elif k == 'ret':
        _vuses(ins[2], out)
    elif k == 'load':
        _vuses(ins[3], out)
    elif k == 'store':
        _vuses(ins[2], out)
        _vuses(ins[3], out)
    elif k == 'alloca':
        _vuses(ins[3], out)
    elif k == 'gep':
        for _, v in ins[3]:
            _vuses(v, out)
    elif k == 'select':
        for v in ins[3:6]:
            _vuses(v, out)
    elif k in ('call', 'invoke'):
        _vuses(ins[3], out)
        for a in ins[4]:
            _vuses(a[1], out)
    elif k == 'resume':
        _vuses(ins[1], out)
    elif k == 'extractvalue':
        _vuses(ins[3], out)
    elif k == 'insertvalue':
        _vuses(ins[3], out)
        _vuses(ins[5], out)
    elif k in ('freeze', 'fneg'):
        _vuses(ins[3], out)
    return out


def defines(ins):
    if ins[0] in ('br', 'condbr', 'switch', 'ret', 'store', 'resume', 'unreachable'):
        return None
    return ins[1]


# ---------------------------------------------------------------------------
class Module(object):
    def __init__(self, text):
        self.types = {}
        self.globals = {}      # name -> (type, init or None, constant)
        self.tls = set()
        self.aliases = {}
        self.funcs = {}
        self.decls = set()
        self._size = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == '%':
                m = re.match(r'^(%"[^"]*"|%[-\w.$]+) = type (.*)$', ln)
                if m:
                    self.types[unq(m.group(1))] = m.group(2)
            elif c == '@':
                self.parse_global(ln)
            elif ln.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                nm = unq('@' + m.group(1))
                hdr = ln[:ln.rindex('{')]
                self.funcs[nm] = Function(nm, hdr, lines[i:j], self)
                i = j + 1
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                if m:
                    self.decls.add(unq('@' + m.group(1)))

    def parse_global(self, ln):
        m = re.match(r'^(@"[^"]*"|@[-\w.$]+) = (.*)$', ln)
        if not m:
            return
        name, rest = unq(m.group(1)), m.group(2)
        if re.search(r'\balias\b', rest.split('@')[0]):
            t = re.search(r'(@"[^"]*"|@[-\w.$]+)\s*(,.*)?$', rest)
            self.aliases[name] = unq(t.group(1))
            return
        mm = re.search(r'\b(global|constant)\b ', rest)
        if not mm:
            return
        ext = re.search(r'\b(external|extern_weak|available_externally)\b', rest[:mm.start()])
        self.globals[name] = (rest[mm.end():], bool(ext), mm.group(1) == 'constant')
        if 'thread_local' in rest[:mm.start()]:
            self.tls.add(name)

    def global_def(self, name):
        """(type, initialiser value or None, constant)"""
        g = self.globals[name]
        if len(g) == 4:
            return g[0], g[1], g[2]
        body, ext, const = g
        T = Toks(body)
        t = parse_type(T)
        init = None
        if not ext and not T.end() and T.peek() not in (',',):
            init = parse_value(T, t)
        self.globals[name] = (t, init, const, True)
        return t, init, const

    def resolve(self, t):
        while t[0] == 'named':
            d = self.types[t[1]]
            if isinstance(d, str):
                d = parse_type(Toks(d))
                self.types[t[1]] = d
            t = d
        return t

    def layout(self, t):
        """(size, align)"""
        r = self._size.get(t)
        if r is not None:
            return r
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            r = (a, min(a, 16))
        elif k == 'p':
            r = (8, 8)
        elif k == 'f':
            r = {16: (2, 2), 32: (4, 4), 64: (8, 8), 80: (16, 16)}[t[1]]
        elif k == 'a':
            s, a = self.layout(t[2])
            r = (s * t[1], a)
        elif k == 'vec':
            s, a = self.layout(t[2])
            r = (s * t[1], s * t[1])
        elif k == 's':
            off = 0
            al = 1
            for f in t[1]:
                s, a = self.layout(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        elif k == 'named':
            r = self.layout(self.resolve(t))
        elif k == 'opaque':
            r = (0, 1)
        else:
            raise IRError('size of %r' % (t,))
        self._size[t] = r
        return r

    def size(self, t):
        return self.layout(t)[0]

    def field(self, t, i):
        """(offset, type) of field i of the struct t"""
        t = self.resolve(t)
        off = 0
        for k, f in enumerate(t[1]):
            s, a = self.layout(f)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if k == i:
                return off, f
            off += s
        raise IRError('field')
