"""Symbolic executor for LLVM IR modules.

Every register and memory cell holds a Python int, a bit-vector term
(vp.expr.E), a double (float or vp.fp.F) or a tuple.  Control flow forks on
symbolic conditions; the two sides of a branch are run to their post-dominator
and merged again when their heaps have the same shape.  Each state carries a
concrete witness of its path condition, so that only one side of a branch ever
needs a solver query.
"""
import sys
import time
import struct
from . import expr as X
from . import fp
from . import ir
from .expr import E
from .fp import F


class Cnt(int):
    """an observation that stays a constant: paths with different ones are not merged"""

sys.setrecursionlimit(20000)

BIAS = 0x10000
M32 = 0xFFFFFFFF
M64 = (1 << 64) - 1
FBASE = 1 << 61


class ForkOn(Exception):
    def __init__(self, cond, taken, other_env, feasible=True):
        self.cond = cond
        self.taken = taken          # value of cond under the current witness
        self.other_env = other_env  # witness of the other side (None if unknown)


class PathEnd(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind
        self.msg = msg


class Unwind(Exception):
    pass


class Infeasible(Exception):
    pass


class Unsup(Exception):
    """the code uses something this executor does not model"""
    pass


class Obj(object):
    __slots__ = ('id', 'size', 'cells', 'kind', 'ro')

    def __init__(self, oid, size, kind, ro=False):
        self.id = oid
        self.size = size
        self.cells = {}
        self.kind = kind
        self.ro = ro

    def copy(self):
        o = Obj(self.id, self.size, self.kind, self.ro)
        o.cells = dict(self.cells)
        return o


class Frame(object):
    __slots__ = ('cf', 'regs', 'ops', 'bi', 'ip', 'ret', 'normal', 'unwind', 'allocas', 'pads')

    def copy(self):
        f = Frame()
        f.cf = self.cf
        f.regs = self.regs[:]
        f.ops = self.ops
        f.bi = self.bi
        f.ip = self.ip
        f.ret = self.ret
        f.normal = self.normal
        f.unwind = self.unwind
        f.allocas = self.allocas[:]
        return f


class State(object):
    __slots__ = ('frames', 'mem', 'owned', 'pc', 'env', 'memo', 'known', 'out', 'objn', 'exc', 'caught',
                 'steps', 'nalloc', 'armed', 'events', 'tape', 'stream', 'undef', 'maybe', 'gx', 'watch')

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        self.owned = set()
        s.owned = set()
        s.pc = self.pc[:]
        s.env = self.env
        s.memo = self.memo
        s.known = dict(self.known)
        s.out = self.out[:]
        s.objn = self.objn
        s.exc = self.exc
        s.caught = self.caught[:]
        s.steps = self.steps
        s.nalloc = self.nalloc
        s.armed = self.armed
        s.events = self.events[:]
        s.tape = self.tape
        s.stream = self.stream[:]
        s.undef = self.undef
        s.maybe = self.maybe
        s.gx = self.gx
        s.watch = self.watch
        return s


class Done(object):
    """a finished path"""
    __slots__ = ('kind', 'msg', 'pc', 'env', 'out', 'events', 'leaks', 'steps', 'maybe', 'stream', 'nalloc', 'undef')


def addr_of(oid, off=0):
    return (oid << 32) + BIAS + off


# ---------------------------------------------------------------------------
class CompiledFn(object):
    """closures for one function"""

    def __init__(self, ex, fn):
        self.ex = ex
        self.fn = fn.parse()
        self.slots = {}
        self.ptr_slots = set()
        self.width = {}
        self.name = fn.name
        for t, n, by in fn.params:
            self.slot(n, t)
        for b in fn.blocks:
            for p in b.phis:
                self.slot(p[1], p[2])
            for ins in b.ins:
                d = ir.defines(ins)
                if d:
                    self.slot(d, self.type_of(ins))
        self.nslots = len(self.slots)
        self.blocks = [None] * len(fn.blocks)
        self.edges = {}
        self._live = None

    def type_of(self, ins):
        k = ins[0]
        if k in ('bin', 'load', 'freeze', 'fneg'):
            return ins[3] if k == 'bin' else ins[2]
        if k == 'cast':
            return ins[5]
        if k in ('call', 'invoke', 'select'):
            return ins[2]
        if k in ('alloca', 'gep'):
            return ir.PTR
        if k in ('icmp', 'fcmp'):
            return ('i', 1)
        return ('x',)

    def slot(self, name, t=None):
        i = self.slots.get(name)
        if i is None:
            i = self.slots[name] = len(self.slots)
            if t is not None:
                if t[0] == 'p':
                    self.ptr_slots.add(i)
                elif t[0] == 'i':
                    self.width[i] = t[1]
        return i

    def live(self, bi):
        if self._live is None:
            lv = self.fn.live_in()
            self._live = [frozenset(self.slots[r] for r in s if r in self.slots) for s in lv]
        return self._live[bi]

    def block(self, bi):
        b = self.blocks[bi]
        if b is None:
            b = self.blocks[bi] = self.ex.compile_block(self, self.fn.blocks[bi])
        return b

    def edge(self, src, dst):
        k = (src, dst)
        e = self.edges.get(k)
        if e is None:
            sb = self.fn.blocks[src].name
            lst = []
            for p in self.fn.blocks[dst].phis:
                for b, v in p[3]:
                    if b == sb:
                        lst.append((self.slots[p[1]], self.ex.getter(self, v, p[2])))
                        break
                else:
                    raise Unsup('phi edge')
            e = self.edges[k] = lst
        return e


CTRL = ('ctrl',)
UBSAN = {1: 'array bounds', 3: 'division overflow', 10: 'float cast overflow', 12: 'multiplication overflow',
         13: 'negation overflow', 20: 'shift out of bounds', 21: 'subtraction overflow', 0: 'addition overflow',
         22: 'null or misaligned access', 19: 'pointer overflow', 9: 'invalid value', 15: 'invalid value'}


class Exec(object):
    def __init__(self, mod, prover, opts=None):
        self.mod = mod
        self.pv = prover
        o = opts or {}
        self.fuel = o.get('fuel', 60000)
        self.max_paths = o.get('max_paths', 4000)
        self.merge_on = o.get('merge', True)
        self.deadline = o.get('deadline', None)
        self.feas_timeout = o.get('feas_timeout', 3.0)
        self.max_alloc = 1 << 26
        self.cfs = {}
        self.fnaddr = {}
        self.addrfn = {}
        self.gaddr = {}
        self.addr_global = {}
        self.gobj = {}
        self.private = set()        # globals that every thread has for itself, or that the standard library guards
        self.gn = 1
        self.entered = {}
        self.n_forks = 0
        self.n_merges = 0
        self.n_paths = 0
        self.n_ops = 0
        self.n_blocks = 0
        self.leaves = set()
        self.tinfo = {}
        self.typeids = {}
        self.undecided = []
        self.done = []
        self.fp_lemmas = 0
        self.fp_used = False
        self.varsets = {}
        self.pool = []          # witnesses tried before the solver is asked: [env, memo]
        self.pool_hits = 0
        from . import libc
        self.ext = libc.TABLE

    # -- globals ---------------------------------------------------------------
    def global_addr(self, name):
        name = self.mod.aliases.get(name, name)
        a = self.gaddr.get(name)
        if a is not None:
            return a
        if name in self.mod.funcs or name in self.mod.decls:
            a = FBASE + 16 * (len(self.fnaddr) + 1)
            self.fnaddr[name] = a
            self.addrfn[a] = name
            self.gaddr[name] = a
            return a
        if name not in self.mod.globals:
            raise Unsup('global ' + name)
        oid = self.gn
        self.gn += 1
        a = addr_of(oid)
        self.gaddr[name] = a
        self.addr_global[a] = name
        if name == '@vp_ostream':
            self.mod.globals[name] = (('i', 64), None, False, True)
        t, init, const = self.mod.global_def(name)
        from . import libc
        sp = libc.special_global(self, name)
        if sp is not None or name in self.mod.tls:
            self.private.add(oid)
        if sp is not None:
            o = Obj(oid, sp[0], 'global', False)
            o.cells.update(sp[1])
            self.gobj[oid] = o
            return a
        size = self.mod.size(t)
        o = Obj(oid, max(size, 8), 'global', const)
        self.gobj[oid] = o
        if init is not None:
            self.init_cells(o, 0, t, init)
        return a

    def init_cells(self, o, off, t, v):
        t = self.mod.resolve(t)
        k = v[0]
        if k == 'z' or (k == 'c' and v[1] == 0 and t[0] == 'a'):
            self.zero_cells(o, off, t)
        elif k == 'str':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
        elif k == 'agg':
            if t[0] in ('a', 'vec'):
                s = self.mod.size(t[2])
                for i, (ft, x) in enumerate(v[1]):
                    self.init_cells(o, off + i * s, ft, x)
            else:
                for i, (ft, x) in enumerate(v[1]):
                    fo, _ = self.mod.field(t, i)
                    self.init_cells(o, off + fo, ft, x)
        elif k == 'u':
            pass
        else:
            o.cells[off] = (self.mod.size(t), self.const(v, t))

    def zero_cells(self, o, off, t):
        t = self.mod.resolve(t)
        if t[0] == 'a':
            s = self.mod.size(t[2])
            for i in range(t[1]):
                self.zero_cells(o, off + i * s, t[2])
        elif t[0] == 's':
            for i in range(len(t[1])):
                fo, ft = self.mod.field(t, i)
                self.zero_cells(o, off + fo, ft)
        elif t[0] == 'f':
            o.cells[off] = (self.mod.size(t), 0.0)
        else:
            o.cells[off] = (self.mod.size(t), 0)

    def const(self, v, t):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'fc':
            return v[1]
        if k == 'g':
            return self.global_addr(v[1])
        if k == 'u':
            return 0.0 if t[0] == 'f' else self.zero_value(t)
        if k == 'z':
            return self.zero_value(t)
        if k == 'agg':
            return tuple(self.const(x, ft) for ft, x in v[1])
        if k == 'ce':
            if v[1] == 'gep':
                a = self.const(v[3][0][1], v[3][0][0])
                off = 0
                bt = v[2]
                first = True
                for it, iv in v[3][1:]:
                    i = self.const(iv, it)
                    if it[1] < 64 or i >> 63:
                        i = X._s(i, it[1])
                    if first:
                        off += i * self.mod.size(bt)
                        first = False
                    else:
                        r = self.mod.resolve(bt)
                        if r[0] == 's':
                            fo, bt = self.mod.field(r, i)
                            off += fo
                        else:
                            bt = r[2]
                            off += i * self.mod.size(bt)
                return (a + off) & M64
            if v[1] == 'cast':
                x = self.const(v[4], v[3])
                if v[2] == 'trunc':
                    return x & ((1 << v[5][1]) - 1)
                return x
            if v[1] == 'bin':
                a, b = self.const(v[4], v[3]), self.const(v[5], v[3])
                return {'add': X.add, 'sub': X.sub, 'mul': X.mul, 'and': X.and_, 'or': X.or_, 'xor': X.xor,
                        'shl': X.shl, 'lshr': X.lshr, 'ashr': X.ashr}[v[2]](a, b, v[3][1])
        raise Unsup('constant %r' % (v,))

    def zero_value(self, t):
        t = self.mod.resolve(t)
        if t[0] == 'f':
            return 0.0
        if t[0] == 's':
            return tuple(self.zero_value(x) for x in t[1])
        if t[0] == 'a':
            return tuple(self.zero_value(t[2]) for _ in range(t[1]))
        if t[0] == 'vec':
            raise Unsup('vector')
        return 0

    def getter(self, cf, v, t):
        if v[0] == 'r':
            s = cf.slots[v[1]]
            return lambda R: R[s]
        c = self.const(v, t)
        return lambda R: c

    # -- compilation -------------------------------------------------------------
    def compile_block(self, cf, b):
        from .codegen import BlockGen
        return BlockGen(self, cf, b).build()

    def compiled(self, name):
        cf = self.cfs.get(name)
        if cf is None:
            cf = self.cfs[name] = CompiledFn(self, self.mod.funcs[name])
        return cf

    # -- decisions ---------------------------------------------------------------
    def vset(self, e):
        r = self.varsets.get(e.id)
        if r is None:
            r = self.varsets[e.id] = frozenset(X.variables([e]))
        return r

    def slice(self, pc, cond):
        """conjuncts of pc that share variables with cond, transitively"""
        want = set(self.vset(cond))
        rest = list(pc)
        out = []
        ch = True
        while ch and rest:
            ch = False
            nr = []
            for p in rest:
                vs = self.vset(p)
                if vs & want:
                    out.append(p)
                    if not vs <= want:
                        want |= vs
                        ch = True
                    else:
                        pass
                else:
                    nr.append(p)
            rest = nr
        return out

    def decide(self, st, cond):
        if cond.__class__ is int:
            return cond
        k = st.known.get(cond.id)
        if k is not None:
            return k
        v = None
        if st.env is not None:
            v = X.evaluate(cond, st.env, st.memo)
            other = X.not_(cond) if v else cond
            e2 = self.from_pool(st, other)
            if e2 is not None:
                raise ForkOn(cond, v, e2)
            sl = self.slice(st.pc, cond)
            r, env = self.pv.feasible(sl, other, self.feas_timeout)
            if r == 'unsat':
                self.learn(st, cond, v)
                return v
            if r == 'sat':
                e2 = dict(st.env)
                e2.update(env)
                # variables outside the slice keep their values
                self.pool_add(e2)
                raise ForkOn(cond, v, e2)
            raise ForkOn(cond, v, None)
        # no witness: ask about both sides
        sl = self.slice(st.pc, cond)
        r1, e1 = self.pv.feasible(sl, cond, self.feas_timeout)
        if r1 == 'unsat':
            self.learn(st, cond, 0)
            return 0
        r0, e0 = self.pv.feasible(sl, X.not_(cond), self.feas_timeout)
        if r0 == 'unsat':
            self.learn(st, cond, 1)
            return 1
        raise ForkOn(cond, None, None)

    def pool_add(self, env):
        self.pool.append((env, {}))
        if len(self.pool) > 200:
            del self.pool[40:100]

    def from_pool(self, st, cond):
        """a known assignment that satisfies the path condition and cond"""
        ev = X.evaluate
        pc = st.pc
        for env, memo in self.pool:
            if not ev(cond, env, memo):
                continue
            for p in reversed(pc):
                if not ev(p, env, memo):
                    break
            else:
                self.pool_hits += 1
                return env
        return None

    def learn(self, st, cond, v):
        st.known[cond.id] = v
        n = X.not_(cond)
        if n.__class__ is not int:
            st.known[n.id] = 1 - v

    def assume(self, st, cond, v, env):
        """add cond == v to the path condition"""
        c = cond if v else X.not_(cond)
        self.learn(st, cond, v)
        if c.__class__ is int:
            return
        # flatten conjunctions
        stack = [c]
        while stack:
            x = stack.pop()
            if x.__class__ is int:
                continue
            if x.op == 'and' and x.w == 1:
                stack.extend(x.args)
                continue
            if x.op == 'not' and isinstance(x.args[0], E) and x.args[0].op == 'or':
                stack.extend(X.not_(y) for y in x.args[0].args)
                continue
            self.learn(st, x, 1)
            st.pc.append(x)
        if env is not st.env:
            st.env = env
            st.memo = {}
            if env is None:
                st.maybe = True

    def concretize(self, st, e):
        """a single concrete value of the term e (forks over the others)"""
        while e.__class__ is not int:
            if st.env is None:
                r, env = self.pv.feasible(st.pc, X.eq(0, 0, 1), self.feas_timeout)
                if r != 'sat':
                    raise Unsup('concretize')
                st.env = env
                st.memo = {}
            v = X.evaluate(e, st.env, st.memo)
            if self.decide(st, X.eq(e, v, e.w)):
                return v
        return e

    # -- memory ------------------------------------------------------------------
    def obj(self, st, addr, n, write):
        oid = addr >> 32
        o = st.mem.get(oid)
        if o is None:
            o = self.gobj.get(oid)
            if o is None:
                if addr < 4096:
                    raise PathEnd('error', 'null pointer access')
                if oid < st.objn and oid > 0:
                    raise PathEnd('error', 'use after free')
                raise PathEnd('error', 'wild access')
        off = (addr & M32) - BIAS
        if off < 0 or off + n > o.size:
            raise PathEnd('error', 'out of bounds %s at offset %d of a %d-byte %s object' % (
                'write' if write else 'read', off, o.size, o.kind))
        if write:
            if o.ro:
                raise PathEnd('error', 'write to constant')
            if oid not in st.owned:
                if st.watch is not None:
                    self.watched(st, oid, o)
                o = o.copy()
                st.mem[oid] = o
                st.owned.add(oid)
        return o, off

    def watched(self, st, oid, o):
        """a write between vp_watch(1) and vp_watch(0): note it if another thread could see the object"""
        sh, on, guard, hit = st.watch
        if on and not hit and (oid in sh or o.kind == 'global' and oid in self.gobj and oid not in self.private and not guard):
            st.watch = (sh, on, guard, True)

    def load(self, st, addr, n, isf=False):
        if addr.__class__ is not int:
            addr = self.concretize(st, addr)
        # fast path
        o = st.mem.get(addr >> 32)
        if o is not None:
            off = (addr & M32) - BIAS
            c = o.cells.get(off)
            if c is not None and c[0] == n and off >= 0 and off + n <= o.size:
                v = c[1]
                if not isf:
                    if v.__class__ is float and n == 8:
                        return struct.unpack('<Q', struct.pack('<d', v))[0] if False else v
                elif v.__class__ is int:
                    return self.bits_to_float(v, n)
                return v
        o, off = self.obj(st, addr, n, False)
        v = self.load_cells(st, o, off, n)
        if isf and v.__class__ is int:
            return self.bits_to_float(v, n)
        return v

    def bits_to_float(self, v, n):
        if n == 8:
            return struct.unpack('<d', struct.pack('<Q', v))[0]
        if n == 4:
            return struct.unpack('<f', struct.pack('<I', v))[0]
        raise Unsup('float size')

    def load_cells(self, st, o, off, n):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        # compose from bytes
        acc = 0
        w = 8 * n
        i = 0
        fresh = None
        while i < n:
            c = o.cells.get(off + i)
            if c is not None:
                m = min(c[0], n - i)
                v = self.as_int(c[1], c[0])
                if m < c[0]:
                    v = X.trunc(v, 8 * c[0], 8 * m)
                acc = self.put(acc, v, i, m, w)
                i += m
                continue
            # a cell starting earlier
            for j in range(1, 16):
                c = o.cells.get(off + i - j)
                if c is not None:
                    if c[0] > j:
                        m = min(c[0] - j, n - i)
                        v = X.trunc(X.lshr(self.as_int(c[1], c[0]), 8 * j, 8 * c[0]), 8 * c[0], 8 * m)
                        acc = self.put(acc, v, i, m, w)
                        i += m
                        break
                    c = None
                    break
            if c is None:
                # uninitialised byte: any value
                st.undef += 1
                nm = 'undef!%d' % st.undef
                v = X.var(nm, 8, 255)
                acc = self.put(acc, v, i, 1, w)
                # keep the choice: later reads see the same value
                if o.id not in st.owned:
                    o = o.copy()
                    st.mem[o.id] = o
                    st.owned.add(o.id)
                o.cells[off + i] = (1, v)
                if st.env is not None:
                    st.env = dict(st.env)
                    st.env[nm] = 0xA5
                i += 1
        return acc

    def as_int(self, v, n):
        if v.__class__ is int or v.__class__ is E:
            return v
        if v.__class__ is float:
            return struct.unpack('<Q', struct.pack('<d', v))[0] if n == 8 else \
                struct.unpack('<I', struct.pack('<f', v))[0]
        raise Unsup('bytes of a symbolic double')

    def put(self, acc, v, i, m, w):
        if v.__class__ is E:
            v = X.zext(v, 8 * m, w) if 8 * m < w else v
        return X.or_(acc, X.shl(v, 8 * i, w), w)

    def store(self, st, addr, n, v):
        if addr.__class__ is not int:
            addr = self.concretize(st, addr)
        oid = addr >> 32
        if oid in st.owned:
            o = st.mem.get(oid)
            if o is not None:
                off = (addr & M32) - BIAS
                c = o.cells.get(off)
                if c is not None and c[0] == n and off >= 0 and off + n <= o.size and not o.ro:
                    o.cells[off] = (n, v)
                    return
        o, off = self.obj(st, addr, n, True)
        self.put_cell(o, off, n, v)

    def put_cell(self, o, off, n, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        self.clear_range(o, off, n)
        cells[off] = (n, v)

    def clear_range(self, o, off, n):
        cells = o.cells
        for j in range(max(0, off - 15), off):
            c = cells.get(j)
            if c is not None and j + c[0] > off:
                self.split(o, j)
        last = cells
        for j in range(off, off + n):
            c = cells.get(j)
            if c is not None:
                if j + c[0] > off + n:
                    self.split(o, j)
                del cells[j]

    def split(self, o, j):
        n, v = o.cells.pop(j)
        v = self.as_int(v, n)
        for i in range(n):
            o.cells[j + i] = (1, X.trunc(X.lshr(v, 8 * i, 8 * n), 8 * n, 8))

    def copy_mem(self, st, dst, src, n):
        if n.__class__ is not int:
            n = self.concretize(st, n)
        if n == 0:
            return
        if dst.__class__ is not int:
            dst = self.concretize(st, dst)
        if src.__class__ is not int:
            src = self.concretize(st, src)
        so, soff = self.obj(st, src, n, False)
        got = []
        sc = so.cells
        # cells that straddle the ends are split in a private copy
        lo_c = any((sc.get(j) is not None and j + sc[j][0] > soff) for j in range(max(0, soff - 15), soff))
        hi_c = any((sc.get(j) is not None and j + sc[j][0] > soff + n)
                   for j in range(max(soff, soff + n - 15), soff + n))
        if lo_c or hi_c:
            so = so.copy()
            for j in list(so.cells):
                c = so.cells[j]
                if j < soff < j + c[0] or j < soff + n < j + c[0]:
                    self.split(so, j)
            sc = so.cells
        if n < 4 * len(sc) + 64:
            for j in range(soff, soff + n):
                c = sc.get(j)
                if c is not None:
                    got.append((j - soff, c))
        else:
            for j, c in sc.items():
                if soff <= j < soff + n:
                    got.append((j - soff, c))
        do, doff = self.obj(st, dst, n, True)
        self.clear_range(do, doff, n)
        for j, c in got:
            do.cells[doff + j] = c

    def set_mem(self, st, dst, v, n):
        if n.__class__ is not int:
            n = self.concretize(st, n)
        if n == 0:
            return
        if dst.__class__ is not int:
            dst = self.concretize(st, dst)
        o, off = self.obj(st, dst, n, True)
        self.clear_range(o, off, n)
        if v == 0 and v.__class__ is int:
            # zero bytes in words, split on demand
            i = 0
            while i < n:
                m = 8 if n - i >= 8 and (off + i) % 8 == 0 else 1
                o.cells[off + i] = (m, 0)
                i += m
        else:
            for i in range(n):
                o.cells[off + i] = (1, v)

    def new_obj(self, st, size, kind):
        oid = st.objn
        st.objn += 1
        o = Obj(oid, size, kind)
        st.mem[oid] = o
        st.owned.add(oid)
        return addr_of(oid)

    def free_obj(self, st, addr, kind='heap'):
        if addr.__class__ is not int:
            addr = self.concretize(st, addr)
        oid = addr >> 32
        o = st.mem.get(oid)
        if o is None:
            raise PathEnd('error', 'double free' if 0 < oid < st.objn else 'free of a wild pointer')
        if o.kind != kind or (addr & M32) != BIAS:
            raise PathEnd('error', 'free of a pointer that was not allocated')
        if st.watch is not None:
            self.watched(st, oid, o)
        del st.mem[oid]
        st.owned.discard(oid)

    # -- calls -------------------------------------------------------------------
    def call(self, st, name, args, dst, normal, unwind):
        """push a frame or run an external; returns CTRL, a block index or None"""
        name = self.mod.aliases.get(name, name)
        x = self.ext.get(name)
        if x is None:
            f = self.mod.funcs.get(name)
            if f is not None:
                cf = self.cfs.get(name)
                if cf is None:
                    cf = self.compiled(name)
                self.entered[name] = self.entered.get(name, 0) + 1
                if len(st.frames) > 400:
                    raise PathEnd('error', 'unbounded recursion')
                fr = Frame()
                fr.cf = cf
                fr.regs = regs = [None] * cf.nslots
                i = 0
                for a in args:
                    if i < len(cf.fn.params):
                        regs[i] = a
                    i += 1
                fr.bi = 0
                fr.ip = 0
                fr.ops = cf.block(0)
                fr.ret = dst
                fr.normal = normal
                fr.unwind = unwind
                fr.allocas = []
                st.frames.append(fr)
                return CTRL
            from . import libc
            x = libc.lookup(self, name)
            if x is None:
                raise Unsup('external function ' + name)
        r = x(self, st, args)
        if dst is not None:
            st.frames[-1].regs[dst] = r
        return normal          # None for call, a block index for invoke

    def do_ret(self, st, v):
        fr = st.frames.pop()
        for a in fr.allocas:
            oid = a >> 32
            st.mem.pop(oid, None)
            st.owned.discard(oid)
        if not st.frames:
            raise PathEnd('ok')
        up = st.frames[-1]
        if fr.ret is not None:
            up.regs[fr.ret] = v
        if fr.normal is not None:
            self.jump(st, up, fr.normal)

    def jump(self, st, fr, bi):
        ph = fr.cf.edge(fr.bi, bi)
        if ph:
            R = fr.regs
            if len(ph) == 1:
                d, g = ph[0]
                R[d] = g(R)
            else:
                vals = [g(R) for _, g in ph]
                i = 0
                for d, _ in ph:
                    R[d] = vals[i]
                    i += 1
        fr.bi = bi
        fr.ip = 0
        fr.ops = fr.cf.blocks[bi] or fr.cf.block(bi)
        st.steps += 1
        if st.steps > self.fuel:
            raise PathEnd('fuel', 'no end after %d basic blocks' % st.steps)

    # -- helpers of the generated code -------------------------------------------
    def ret(self, st, v):
        self.do_ret(st, v)
        return CTRL

    def divzero(self):
        raise PathEnd('error', 'division by zero')

    def nonzero(self, st, b, w):
        if self.decide(st, X.eq(b, 0, w)):
            raise PathEnd('error', 'division by zero')

    def sdivov(self, st, a, b, w):
        c = X.and_(X.eq(a, 1 << (w - 1), w), X.eq(b, (1 << w) - 1, w), 1)
        if c.__class__ is not int:
            c = self.decide(st, c)
        if c:
            raise PathEnd('error', 'signed division overflow')

    def fcmp(self, st, pred, a, b):
        self.fp_used = True
        r = fp.cmp_decided(pred, a, b)
        if r is None:
            # integers of both sides: compare as terms
            x = self.int_of(a)
            y = self.int_of(b)
            p = pred[1:]
            return {'eq': X.eq(x, y, 64), 'ne': X.ne(x, y, 64), 'lt': X.slt(x, y, 64), 'le': X.sle(x, y, 64),
                    'gt': X.slt(y, x, 64), 'ge': X.sle(y, x, 64)}[p]
        return 1 if r else 0

    def int_of(self, a):
        if a.__class__ is float:
            if a != int(a):
                raise fp.Undecided()
            return int(a) & M64
        if not a.isint or a.mag() >= 2.0 ** 62:
            raise fp.Undecided()
        return fp.to_uint(F(dict(a.p), 0.0, True), 64) if a.bounds()[0] > -1 else self._signed_int(a)

    def _signed_int(self, a):
        pos = F({k: c for k, c in a.p.items() if c > 0}, 0.0, True)
        ng = F({k: -c for k, c in a.p.items() if c < 0}, 0.0, True)
        return X.sub(fp.to_uint(pos, 64), fp.to_uint(ng, 64), 64)

    def i2f(self, a):
        if a.__class__ is int:
            return struct.unpack('<d', struct.pack('<Q', a))[0]
        if a.__class__ is float or a.__class__ is F:
            return a
        raise fp.Undecided()

    def itof(self, a, w, signed):
        self.fp_used = True
        if a.__class__ is int:
            return float(X._s(a, w) if signed else a)
        if X._is_ite_tree(a, 8):
            raise fp.Undecided()
        return fp.of_int(a, signed, w)

    def ftoi(self, st, a, w, signed):
        self.fp_used = True
        if a.__class__ is float:
            if a != a or abs(a) >= 2.0 ** (w - 1 if signed else w) or (a <= -1.0 and not signed):
                raise PathEnd('error', 'double out of range of the integer type')
            return int(a) & ((1 << w) - 1)
        if not a.isint:
            # truncation of a provably non-negative value is its floor
            a = self.ffloor(a)
        l, h = a.bounds()
        if signed and h >= 2.0 ** (w - 1):
            raise fp.Undecided()
        if l <= -1.0:
            if signed:
                raise fp.Undecided()
            raise fp.Undecided()
        r = fp.to_uint(a, w)
        if r is None:
            raise fp.Undecided()
        return r

    def ffloor(self, a):
        if a.__class__ is float:
            import math
            return float(math.floor(a))

        def lemma(res, rc, err):
            self.fp_lemmas += 1
            return self.pv.residue_lemma(res, rc, err, fp)
        return fp.floor(a, lemma)

    def fround(self, kind, a):
        """the other ways to an integral double"""
        import math
        self.fp_used = True
        if a.__class__ is float:
            if a != a or abs(a) >= 2.0 ** 52:
                return a
            if kind == 'trunc':
                r = math.trunc(a)
            elif kind == 'ceil':
                r = math.ceil(a)
            elif kind in ('round', 'lround', 'llround'):
                r = math.floor(abs(a))
                r = (r + 1 if abs(a) - r >= 0.5 else r) * (1 if a >= 0 else -1)
            else:
                r = round(a)
            return math.copysign(float(r), a)
        if a.isint:
            return a
        if kind == 'ceil':
            return fp.neg(self.ffloor(fp.neg(a)))
        if kind == 'trunc':
            r = self.ffloor(a)
            if r.bounds()[0] <= -1.0:
                raise fp.Undecided()
            return r
        # ties are excluded by a slightly larger error
        p = dict(a.p)
        p[()] = p.get((), 0) + fp.ONE // 2
        return self.ffloor(fp.F(p, a.err + 2.0 ** -60))

    def lround(self, st, kind, a, w):
        r = self.fround(kind, a)
        if r.__class__ is not float and r.bounds()[0] <= -1.0:
            raise fp.Undecided()
        return self.ftoi(st, r, w, True)

    def fn_at(self, st, a):
        if a.__class__ is not int:
            a = self.concretize(st, a)
        n = self.addrfn.get(a)
        if n is None:
            raise PathEnd('error', 'call through a wild pointer')
        return n

    def byval(self, st, a, n):
        p = self.new_obj(st, n, 'stack')
        st.frames[-1].allocas.append(p)
        self.copy_mem(st, p, a, n)
        return p

    def resume(self, st, v):
        st.exc = (v[0], st.mem[v[0] >> 32].kind[4:])
        # continue unwinding above this frame
        fr = st.frames.pop()
        for a in fr.allocas:
            st.mem.pop(a >> 32, None)
            st.owned.discard(a >> 32)
        if not st.frames:
            raise PathEnd('throw', st.exc[1])
        self.unwind_from(st, fr.unwind)
        return CTRL

    def unreach(self, st):
        raise PathEnd('error', 'reached unreachable code')

    def unsup(self, what):
        raise Unsup(what)

    def trap(self, k):
        raise PathEnd('error', 'undefined behaviour trap %s' % (UBSAN.get(k, k),))

    def fp_unsup(self):
        raise fp.Undecided()

    def math1(self, f, a):
        import math
        self.fp_used = True
        if a.__class__ is not float:
            raise fp.Undecided()
        return getattr(math, f)(a)

    def fabs(self, st, a):
        if a.__class__ is float:
            return abs(a)
        r = fp.cmp_decided('ole', 0.0, a)
        if r is True:
            return a
        if fp.cmp_decided('ole', a, 0.0) is True:
            return fp.neg(a)
        raise fp.Undecided()

    def ctpop(self, a, w):
        if a.__class__ is int:
            return bin(a).count('1')
        r = 0
        for i in range(max(1, X.hi(a).bit_length())):
            r = X.add(r, X.and_(X.lshr(a, i, w), 1, w), w)
        return r

    def minmax(self, k, a, b, w):
        c = X.ult(a, b, w) if k[0] == 'u' else X.slt(a, b, w)
        return X.ite(c, b, a, w) if k[1:] == 'max' else X.ite(c, a, b, w)

    def iabs(self, a, w):
        return X.ite(X.slt(a, 0, w), X.sub(0, a, w), a, w)

    def ctlz(self, a, w):
        r = w
        for i in range(w):
            r = X.ite(X.ne(X.and_(X.lshr(a, i, w), 1, w), 0, w), w - 1 - i, r, w)
        return r

    def cttz(self, a, w):
        r = w
        for i in range(w - 1, -1, -1):
            r = X.ite(X.ne(X.and_(X.lshr(a, i, w), 1, w), 0, w), i, r, w)
        return r

    def funnel(self, st, k, a, b, c, w):
        if c.__class__ is not int:
            c = self.concretize(st, c)
        c %= w
        if k == 'fshl':
            return X.or_(X.shl(a, c, w), X.lshr(b, w - c, w), w) if c else a
        return X.or_(X.shl(a, w - c, w), X.lshr(b, c, w), w) if c else b

    def with_overflow(self, k, a, b, w):
        s = k[0] == 's'
        n = 2 * w
        xa = X.sext(a, w, n) if s else X.zext(a, w, n)
        xb = X.sext(b, w, n) if s else X.zext(b, w, n)
        f = {'add': X.add, 'sub': X.sub, 'mul': X.mul}[k[1:]]
        r = f(xa, xb, n)
        lo = f(a, b, w)
        back = X.sext(lo, w, n) if s else X.zext(lo, w, n)
        return (lo, X.ne(r, back, n))

    def sat(self, k, a, b, w):
        if k == 'usub':
            return X.ite(X.ult(a, b, w), 0, X.sub(a, b, w), w)
        if k == 'uadd':
            s = X.add(a, b, w)
            return X.ite(X.ult(s, a, w), (1 << w) - 1, s, w)
        raise Unsup(k + '.sat')

    def bswap(self, a, w):
        r = 0
        for i in range(0, w, 8):
            r = X.or_(r, X.shl(X.and_(X.lshr(a, i, w), 255, w), w - 8 - i, w), w)
        return r

    def gobj_new(self, name, size, cells):
        oid = self.gn
        self.gn += 1
        o = Obj(oid, size, 'global')
        o.cells.update(cells)
        self.gobj[oid] = o
        return addr_of(oid)

    def global_name(self, a):
        n = self.addr_global.get(a)
        if n is None:
            raise Unsup('typeinfo address')
        return n

    # -- exceptions --------------------------------------------------------------
    def throw(self, st, obj, tinfo, dtor=0):
        st.exc = (obj, tinfo)
        raise Unwind()

    def unwind_from(self, st, pads):
        """pads: landing pad block index of the throwing call in the top frame, or None"""
        while True:
            if pads is not None:
                fr = st.frames[-1]
                b = fr.cf.fn.blocks[pads]
                lp = b.ins[0]
                if lp[0] != 'landingpad':
                    raise Unsup('landing pad')
                sel = self.match(st.exc[1], lp)
                if sel is not None:
                    self.jump(st, fr, pads)
                    fr.regs[fr.cf.slots[lp[1]]] = (st.exc[0], sel)
                    fr.ip = 0
                    return
            fr = st.frames.pop()
            for a in fr.allocas:
                st.mem.pop(a >> 32, None)
                st.owned.discard(a >> 32)
            if not st.frames:
                raise PathEnd('throw', st.exc[1])
            pads = fr.unwind

    def match(self, thrown, lp):
        _, dst, cleanup, clauses = lp
        for kind, v in clauses:
            if kind == 'catch':
                if v[0] == 'c' and v[1] == 0:
                    return self.typeid(None)
                if v[0] != 'g':
                    raise Unsup('catch clause')
                if v[1] in self.supers(thrown):
                    return self.typeid(v[1])
            else:
                # filter: matches if the thrown type is in none of its entries
                ok = False
                if v[0] == 'agg':
                    for _, x in v[1]:
                        if x[0] == 'g' and x[1] in self.supers(thrown):
                            ok = True
                if not ok:
                    return (-1) & M32
        if cleanup:
            return 0
        return None

    def typeid(self, name):
        i = self.typeids.get(name)
        if i is None:
            i = self.typeids[name] = len(self.typeids) + 1
        return i

    def supers(self, ti):
        r = self.tinfo.get(ti)
        if r is None:
            from . import libc
            r = {ti}
            for b in libc.BASES.get(ti, ()):
                r |= self.supers(b)
            g = self.mod.globals.get(ti)
            if g is not None:
                _, init, _ = self.mod.global_def(ti)
                if init is not None:
                    for n in _global_refs(init):
                        if n.startswith('@_ZTI') and n != ti:
                            r |= self.supers(n)
            self.tinfo[ti] = r
        return r

    # -- the driver --------------------------------------------------------------
    def start(self, name, tape, env, assume=()):
        st = State()
        st.frames = []
        st.mem = {}
        st.owned = set()
        st.pc = []
        st.env = env
        st.memo = {}
        st.known = {}
        st.out = []
        st.objn = 100000
        st.exc = None
        st.caught = []
        st.steps = 0
        st.nalloc = 0
        st.armed = False
        st.events = []
        st.tape = 0
        st.stream = []
        st.undef = 0
        st.maybe = False
        st.gx = None
        st.watch = None
        self.tape = tape
        self.seed_pool(tape)
        for a in assume:
            if a.__class__ is int:
                if not a:
                    return
                continue
            v = X.evaluate(a, st.env, st.memo) if st.env is not None else None
            e = st.env
            if not v:
                r, e2 = self.pv.feasible(st.pc, a, 20.0)
                if r == 'unsat':
                    return
                e = None
                if r == 'sat':
                    e = dict(st.env or {})
                    e.update(e2)
            self.assume(st, a, 1, e)
        self.call(st, '@' + name, [], None, None, None)
        self.explore(st, (0, None))

    def seed_pool(self, tape):
        import random
        rnd = random.Random(12345)
        vs = [v for v in tape if v.__class__ is E and v.op == 'var']
        if not vs:
            return
        for k in range(52):
            env = {}
            for i, v in enumerate(vs):
                n, l, h = v.args
                if k == 0:
                    x = l
                elif k == 1:
                    x = h
                elif k == 2:
                    x = h if i & 1 else l
                elif k == 3:
                    x = l if i & 1 else h
                elif k == 4:
                    x = h if i < len(vs) // 2 else l
                elif k == 5:
                    x = l if i < len(vs) // 2 else h
                elif k < 16:
                    x = rnd.choice((l, min(l + 1, h), h, max(h - 1, l), rnd.randint(l, h)))
                elif k >= 28:
                    x = rnd.choice((l, rnd.randint(l, h))) if k & 1 else rnd.choice((l, l, min(l + 1, h), h))
                else:
                    x = rnd.randint(l, h)
                env[n] = x
            self.pool.append((env, {}))

    def finish(self, st, kind, msg):
        d = Done()
        d.kind = kind
        d.msg = msg
        d.pc = st.pc
        d.env = st.env
        d.out = st.out
        d.events = st.events
        d.steps = st.steps
        d.maybe = st.maybe
        d.stream = st.stream
        d.nalloc = st.nalloc
        d.undef = st.undef
        d.leaks = self.lost_blocks(st)
        self.n_paths += 1
        self.done.append(d)

    def lost_blocks(self, st):
        """sizes of the heap blocks that no global reaches any more"""
        heap = set(i for i, o in st.mem.items() if o.kind == 'heap')
        if not heap:
            return []
        todo = [o for o in st.mem.values() if o.kind == 'global']
        while todo and heap:
            for w, v in todo.pop().cells.values():
                for x in X.constants(v):
                    i = x >> 32
                    if i in heap:
                        heap.discard(i)
                        todo.append(st.mem[i])
        return [st.mem[i].size for i in sorted(heap)]

    def explore(self, st, stop):
        """run st until the frame/block `stop` = (depth, block); returns
        (states that arrived there, states that left the frame otherwise)"""
        depth, target = stop
        work = [st]
        arrived = []
        escaped = []
        while work:
            s = work.pop()
            if self.deadline is not None and time.time() > self.deadline:
                self.undecided.append(('time', s.env))
                continue
            if self.n_paths + len(work) > self.max_paths:
                self.undecided.append(('paths', s.env))
                continue
            try:
                r = self.run(s, depth, target)
            except PathEnd as p:
                self.finish(s, p.kind, p.msg)
                continue
            except Infeasible:
                continue
            except Unsup as u:
                self.undecided.append(('unsupported: ' + str(u), s.env))
                continue
            except fp.Undecided:
                self.undecided.append(('floating point', s.env))
                continue
            except X.DivByZero:
                self.finish(s, 'error', 'division by zero')
                continue
            if r is True:
                arrived.append(s)
                continue
            if r is False:
                escaped.append(s)
                continue
            # a fork
            f = r
            self.n_forks += 1
            s2 = s.copy()
            if f.taken is None:
                self.assume(s, f.cond, 1, None)
                self.assume(s2, f.cond, 0, None)
            else:
                self.assume(s, f.cond, f.taken, s.env)
                self.assume(s2, f.cond, 1 - f.taken, f.other_env)
            fr = s.frames[-1]
            if self.merge_on and f.__class__ is BranchFork:
                J = fr.cf.fn.ipdoms().get(fr.bi, -1)
                if J != -1:
                    d = len(s.frames)
                    inner = (d, J)
                    npc = len(s.pc)
                    got = []
                    for c in (s, s2):
                        a, e = self.explore(c, inner)
                        got.extend(a)
                        for x in e:
                            # left through an exception: it may already be at the outer stop
                            work.append(x)
                    ns = self.merge_all(got, d, J)
                    if J == target and d == depth:
                        arrived.extend(ns)
                    elif J is None and target is None and d == depth:
                        arrived.extend(ns)
                    else:
                        work.extend(ns)
                    continue
            work.append(s)
            work.append(s2)
        return arrived, escaped

    def run(self, st, depth, target):
        """True: at the stop; False: escaped below the stop frame; else a fork"""
        frames = st.frames
        while True:
            n = len(frames)
            if n < depth:
                return target is None and n == depth - 1
            fr = frames[-1]
            if n == depth and fr.bi == target and fr.ip == 0:
                return True
            ops = fr.ops
            ip = fr.ip
            R = fr.regs
            try:
                while True:
                    r = ops[ip](st, R)
                    ip += 1
                    if r is None:
                        continue
                    if r.__class__ is int:
                        self.n_blocks += 1
                        self.jump(st, fr, r)
                        if r == target and n == depth:
                            return True
                        ops = fr.ops
                        ip = 0
                        continue
                    fr.ip = ip
                    break
            except ForkOn as f:
                fr.ip = ip
                if ops[ip].__class__ is BranchOp or getattr(ops[ip], 'branch', False):
                    f.__class__ = BranchFork
                return f
            except Unwind:
                fr.ip = ip
                pad = getattr(ops[ip], 'pad', None)
                self.unwind_from(st, pad)
                frames = st.frames
                if len(frames) < depth:
                    return False
            # control moved to another frame: go on there

    # -- merging -----------------------------------------------------------------
    def merge_all(self, states, d, J):
        if len(states) < 2:
            return states
        out = []
        for s in states:
            for i in range(len(out)):
                m = self.merge(out[i], s, d, J)
                if m is not None:
                    self.n_merges += 1
                    out[i] = m
                    break
            else:
                out.append(s)
        return out

    def merge(self, a, b, d, J):
        n = len(a.frames)
        if n != len(b.frames):
            return None
        if (a.watch != b.watch or a.exc != b.exc or a.caught != b.caught or a.armed != b.armed or a.tape != b.tape or
                len(a.out) != len(b.out) or a.events != b.events or len(a.stream) != len(b.stream) or
                a.undef != b.undef):
            return None
        if a.armed and a.nalloc != b.nalloc:
            return None
        # path condition: common prefix and a disjunction of the rest
        k = 0
        m = min(len(a.pc), len(b.pc))
        while k < m and a.pc[k] is b.pc[k]:
            k += 1
        ca = cb = 1
        for p in a.pc[k:]:
            ca = X.and_(ca, p, 1)
        for p in b.pc[k:]:
            cb = X.and_(cb, p, 1)
        cond = ca
        if cond.__class__ is int:
            return None
        # registers
        regs_new = []
        for i in range(n):
            fa, fb = a.frames[i], b.frames[i]
            if fa.cf is not fb.cf or fa.bi != fb.bi or fa.ip != fb.ip or fa.allocas != fb.allocas:
                return None
            top = i == n - 1 and J is not None
            live = fa.cf.live(J) if top else None
            ra, rb = fa.regs, fb.regs
            ch = None
            for s in range(len(ra)):
                x, y = ra[s], rb[s]
                if x is y:
                    continue
                if top and s not in live:
                    if ch is None:
                        ch = {}
                    ch[s] = None
                    continue
                if x.__class__ is int and y.__class__ is int and x == y:
                    continue
                v = self.mval(cond, x, y, fa.cf.width.get(s), s in fa.cf.ptr_slots)
                if v is NOPE:
                    return None
                if ch is None:
                    ch = {}
                ch[s] = v
            if ch:
                regs_new.append((i, ch))
        outs = []
        for x, y in zip(a.out, b.out):
            if x.__class__ is Cnt or y.__class__ is Cnt:
                if x.__class__ is not y.__class__ or x != y:
                    return None
                outs.append(x)
                continue
            v = self.mval(cond, x, y, 64, False)
            if v is NOPE:
                return None
            outs.append(v)
        for x, y in zip(a.stream, b.stream):
            if x != y:
                return None
        # memory
        changes = []
        ma, mb = a.mem, b.mem
        if len(ma) != len(mb):
            ka, kb = set(ma), set(mb)
            if any(self.gobj.get(o) is None for o in ka ^ kb):
                return None
        for oid, oa in ma.items():
            ob = mb.get(oid)
            if ob is oa:
                continue
            if ob is None:
                ob = self.gobj.get(oid)
                if ob is None:
                    return None
            if oa.size != ob.size or oa.kind != ob.kind:
                return None
            cca, ccb = oa.cells, ob.cells
            new = None
            for off, c in cca.items():
                e = ccb.get(off)
                if e is c:
                    continue
                if e is None:
                    # initialised on one side only: any value will do on the other
                    if oa.kind == 'global':
                        return None
                    continue_ok = self._free_range(ob, off, c[0])
                    if not continue_ok or c[1].__class__ is E and False:
                        return None
                    continue
                if e[0] != c[0]:
                    return None
                v = self.mval(cond, c[1], e[1], 8 * c[0], None)
                if v is NOPE:
                    return None
                if v is not c[1]:
                    if new is None:
                        new = {}
                    new[off] = (c[0], v)
            for off, e in ccb.items():
                if off not in cca:
                    if not self._free_range(oa, off, e[0]):
                        return None
                    if new is None:
                        new = {}
                    new[off] = e
            if new is not None:
                changes.append((oid, new))
        # commit into a
        for i, ch in regs_new:
            R = a.frames[i].regs
            for s, v in ch.items():
                R[s] = v
        for oid, new in changes:
            o = a.mem[oid]
            if oid not in a.owned:
                o = o.copy()
                a.mem[oid] = o
                a.owned.add(oid)
            o.cells.update(new)
        for oid, ob in mb.items():
            if oid not in a.mem:
                a.mem[oid] = ob
        a.out = outs
        a.objn = max(a.objn, b.objn)
        a.steps = max(a.steps, b.steps)
        a.nalloc = max(a.nalloc, b.nalloc)
        a.maybe = a.maybe or b.maybe
        del a.pc[k:]
        rest = X.or_(ca, cb, 1)
        kn = {}
        bk = b.known
        for i, v in a.known.items():
            if bk.get(i) == v:
                kn[i] = v
        a.known = kn
        if rest.__class__ is not int:
            self.assume(a, rest, 1, a.env)
        if a.env is None and b.env is not None:
            a.env, a.memo = b.env, {}
        return a

    def _free_range(self, o, off, n):
        for j in range(max(0, off - 15), off + n):
            c = o.cells.get(j)
            if c is not None and j + c[0] > off:
                return False
        return True

    def mval(self, cond, x, y, w, isptr):
        """merged value of x (if cond) and y, or NOPE"""
        if x is y:
            return x
        cx, cy = x.__class__, y.__class__
        if cx is int and cy is int:
            if x == y:
                return x
            if isptr:
                return NOPE
            if w is None:
                w = 64
            if x >= 1 << 31 or y >= 1 << 31:
                if x >= 1 << 32 or y >= 1 << 32:
                    # addresses and sizes stay concrete; all-ones masks may merge
                    if not ((x in (0, M64)) and (y in (0, M64))):
                        return NOPE
            elif w == 64 and (x > 1 or y > 1):
                return NOPE
            return X.ite(cond, x, y, w)
        if (cx is int or cx is E) and (cy is int or cy is E):
            if isptr:
                return NOPE
            ww = x.w if cx is E else y.w
            if w is not None and ww != w:
                return NOPE
            return X.ite(cond, x, y, ww)
        if cx is float and cy is float and (x == y or (x != x and y != y)):
            return x
        if x.__class__ is F and y.__class__ is F and x == y:
            return x
        if x == y:
            return x
        return NOPE


NOPE = object()


class BranchFork(ForkOn):
    pass


class BranchOp(object):
    pass


def _global_refs(v):
    k = v[0]
    if k == 'g':
        yield v[1]
    elif k == 'agg':
        for _, x in v[1]:
            for r in _global_refs(x):
                yield r
    elif k == 'ce':
        if v[1] == 'gep':
            for _, x in v[3]:
                for r in _global_refs(x):
                    yield r
        elif v[1] == 'cast':
            for r in _global_refs(v[4]):
                yield r
