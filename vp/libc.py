"""Models of the functions the code under test calls but does not define:
allocation, exceptions, memory and string primitives, output streams, the
harness tapes, and the LLVM intrinsics."""
import math
import struct
from . import expr as X
from . import fp
from . import ir
from .expr import E
from .fp import F
from .exec import Cnt

M64 = (1 << 64) - 1
BIAS = 0x10000

# base classes of library exceptions (typeinfo names)
BASES = {
    '@_ZTISt9bad_alloc': ('@_ZTISt9exception',),
    '@_ZTISt20bad_array_new_length': ('@_ZTISt9bad_alloc',),
    '@_ZTISt12length_error': ('@_ZTISt11logic_error',),
    '@_ZTISt12out_of_range': ('@_ZTISt11logic_error',),
    '@_ZTISt16invalid_argument': ('@_ZTISt11logic_error',),
    '@_ZTISt12domain_error': ('@_ZTISt11logic_error',),
    '@_ZTISt11logic_error': ('@_ZTISt9exception',),
    '@_ZTISt13runtime_error': ('@_ZTISt9exception',),
    '@_ZTISt14overflow_error': ('@_ZTISt13runtime_error',),
    '@_ZTISt15underflow_error': ('@_ZTISt13runtime_error',),
    '@_ZTISt11range_error': ('@_ZTISt13runtime_error',),
    '@_ZTISt8bad_cast': ('@_ZTISt9exception',),
}

TABLE = {}


def ext(*names):
    def d(f):
        for n in names:
            TABLE['@' + n] = f
        return f
    return d


# ---------------------------------------------------------------------------
# exceptions
# ---------------------------------------------------------------------------
def throw_std(ex, st, ti):
    a = ex.new_obj(st, 16, 'exc:@' + ti)
    ex.throw(st, a, '@' + ti)


@ext('__cxa_allocate_exception')
def _alloc_exc(ex, st, a):
    return ex.new_obj(st, a[0], 'exc:')


@ext('__cxa_free_exception')
def _free_exc(ex, st, a):
    return None


@ext('__cxa_throw')
def _throw(ex, st, a):
    ti = ex.global_name(a[1])
    o = st.mem[a[0] >> 32]
    if (a[0] >> 32) not in st.owned:
        o = o.copy()
        st.mem[o.id] = o
        st.owned.add(o.id)
    o.kind = 'exc:' + ti
    ex.throw(st, a[0], ti)


@ext('__cxa_begin_catch')
def _begin(ex, st, a):
    st.caught.append(a[0])
    st.exc = None
    return a[0]


@ext('__cxa_end_catch')
def _end(ex, st, a):
    if st.caught:
        st.caught.pop()


@ext('__cxa_get_exception_ptr')
def _getexc(ex, st, a):
    return a[0]


@ext('__cxa_rethrow')
def _rethrow(ex, st, a):
    from .exec import PathEnd
    if not st.caught:
        raise PathEnd('error', 'rethrow without an exception')
    o = st.caught[-1]
    ex.throw(st, o, st.mem[o >> 32].kind[4:])


@ext('_ZSt9terminatev', 'abort', '_ZSt10unexpectedv')
def _term(ex, st, a):
    from .exec import PathEnd
    raise PathEnd('error', 'std::terminate')


@ext('_ZSt21__glibcxx_assert_failPKciS0_S0_', '_ZSt20__replacement_assertPKciS0_S0_', '__assert_fail')
def _assertfail(ex, st, a):
    from .exec import PathEnd
    raise PathEnd('error', 'library assertion failed')


for _n, _t in (('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'),
               ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'),
               ('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'),
               ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'),
               ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
               ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
               ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'),
               ('_ZSt20__throw_domain_errorPKc', '_ZTISt12domain_error'),
               ('_ZSt21__throw_runtime_errorPKc', '_ZTISt13runtime_error'),
               ('_ZSt22__throw_overflow_errorPKc', '_ZTISt14overflow_error'),
               ('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast')):
    TABLE['@' + _n] = (lambda t: lambda ex, st, a: throw_std(ex, st, t))(_t)


@ext('_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev', '_ZNSt9bad_allocD1Ev', '_ZNSt9bad_allocD2Ev', '__cxa_atexit',
     '__cxa_thread_atexit', '__cxa_thread_atexit_impl', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev')
def _nop(ex, st, a):
    return 0


@ext('__cxa_guard_acquire')
def _guard(ex, st, a):
    # first byte says initialised
    w, st.watch = st.watch, None
    o, off = ex.obj(st, a[0], 1, True)
    v = ex.load_cells(st, o, off, 1)
    st.watch = w
    if v:
        return 0
    ex.put_cell(o, off, 1, 1)
    guarded(st, 1)
    return 1


def guarded(st, d):
    if st.watch is not None:
        sh, on, g, hit = st.watch
        st.watch = (sh, on, g + d, hit)
        st.owned.clear()


@ext('__cxa_guard_release')
def _release(ex, st, a):
    guarded(st, -1)


@ext('__cxa_guard_abort')
def _guardabort(ex, st, a):
    w, st.watch = st.watch, None
    o, off = ex.obj(st, a[0], 1, True)
    ex.put_cell(o, off, 1, 0)
    st.watch = w
    guarded(st, -1)


@ext('vp_share')
def _share(ex, st, a):
    sh = st.watch[0] if st.watch else frozenset()
    st.watch = (sh | {a[0] >> 32}, False, 0, False)


@ext('vp_watch')
def _watch(ex, st, a):
    sh, on, g, hit = st.watch or (frozenset(), False, 0, False)
    st.watch = (sh, True, 0, False) if a[0] else None
    st.owned.clear()
    return int(hit)


# ---------------------------------------------------------------------------
# memory
# ---------------------------------------------------------------------------
def allocate(ex, st, n, align=16):
    if n.__class__ is not int:
        n = ex.concretize(st, n)
    if st.armed:
        k = st.nalloc
        if ex.decide(st, X.eq(st.armed[0], k, 64)):
            st.nalloc = k + 1
            throw_std(ex, st, '_ZTISt9bad_alloc')
        st.nalloc = k + 1
    else:
        st.nalloc += 1
    if n > ex.max_alloc:
        throw_std(ex, st, '_ZTISt9bad_alloc')
    return ex.new_obj(st, n, 'heap')


@ext('_Znwm', '_Znam')
def _new(ex, st, a):
    return allocate(ex, st, a[0])


@ext('malloc')
def _malloc(ex, st, a):
    n = a[0] if a[0].__class__ is int else ex.concretize(st, a[0])
    if n > ex.max_alloc:
        return 0
    return ex.new_obj(st, n, 'heap')


@ext('calloc')
def _calloc(ex, st, a):
    n = ex.concretize(st, X.mul(a[0], a[1], 64))
    p = ex.new_obj(st, n, 'heap')
    ex.set_mem(st, p, 0, n)
    return p


@ext('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free')
def _delete(ex, st, a):
    p = a[0]
    if p.__class__ is not int:
        p = ex.concretize(st, p)
    if p:
        ex.free_obj(st, p)


@ext('memcpy', 'memmove')
def _memcpy(ex, st, a):
    ex.copy_mem(st, a[0], a[1], a[2])
    return a[0]


@ext('memset')
def _memset(ex, st, a):
    ex.set_mem(st, a[0], X.trunc(a[1], 32, 8), a[2])
    return a[0]


def byte_at(ex, st, p):
    o, off = ex.obj(st, p, 1, False)
    v = ex.load_cells(st, o, off, 1)
    if v.__class__ is not int and v.__class__ is not E:
        raise fp.Undecided()
    return v


@ext('memcmp', 'bcmp')
def _memcmp(ex, st, a):
    n = ex.concretize(st, a[2])
    p, q = ex.concretize(st, a[0]), ex.concretize(st, a[1])
    r = 0
    for i in range(n - 1, -1, -1):
        x, y = byte_at(ex, st, p + i), byte_at(ex, st, q + i)
        r = X.ite(X.eq(x, y, 8), r, X.ite(X.ult(x, y, 8), (1 << 32) - 1, 1, 32), 32)
    return r


@ext('strlen')
def _strlen(ex, st, a):
    p = ex.concretize(st, a[0])
    n = 0
    while True:
        c = byte_at(ex, st, p + n)
        if c.__class__ is not int:
            c = 0 if ex.decide(st, X.eq(c, 0, 8)) else 1
        if c == 0:
            return n
        n += 1


# ---------------------------------------------------------------------------
# mathematics on constants (the code under test only uses constant angles)
# ---------------------------------------------------------------------------
def math1(f):
    def g(ex, st, a):
        ex.fp_used = True
        if a[0].__class__ is not float:
            raise fp.Undecided()
        return f(a[0])
    return g


TABLE['@cos'] = math1(math.cos)
TABLE['@sin'] = math1(math.sin)
TABLE['@sqrt'] = math1(math.sqrt)
TABLE['@exp'] = math1(math.exp)
TABLE['@log'] = math1(math.log)
TABLE['@log2'] = math1(math.log2)
TABLE['@fabs'] = math1(abs)


@ext('sincos')
def _sincos(ex, st, a):
    if a[0].__class__ is not float:
        raise fp.Undecided()
    ex.store(st, a[1], 8, math.sin(a[0]))
    ex.store(st, a[2], 8, math.cos(a[0]))


@ext('floor')
def _floor(ex, st, a):
    return ex.ffloor(a[0])


for _n in ('round', 'nearbyint', 'rint', 'trunc', 'ceil', 'roundeven'):
    TABLE['@' + _n] = (lambda k: lambda ex, st, a: ex.fround(k, a[0]))(_n)
for _n in ('lround', 'llround', 'lrint', 'llrint'):
    TABLE['@' + _n] = (lambda k: lambda ex, st, a: ex.lround(st, k, a[0], 64))(_n)


# ---------------------------------------------------------------------------
# output streams
# ---------------------------------------------------------------------------
STREAM_SIZE = 320
_names = {}


def stream_obj(ex, name):
    """(size, cells) of a fake std::ostream"""
    vt = ex.gobj_new('vtable for ' + name, 64, {BIAS_OFF(0): (8, 8), 8: (8, 0), 16: (8, 0)})
    ct = ex.gobj_new('ctype for ' + name, 600, dict([(56, (1, 1))] + [(57 + i, (1, i)) for i in range(256)]))
    cells = {0: (8, vt + 24)}
    cells[8] = (8, vt + 24)
    cells[16] = (8, 6)               # precision
    cells[24] = (8, 0)               # width
    cells[32] = (4, 0x1002)          # flags: dec | skipws
    cells[36] = (4, 0)
    cells[40] = (4, 0)               # state good
    cells[248] = (8, ct)
    return STREAM_SIZE, cells


def BIAS_OFF(x):
    return x


# layout of the fake std::istream: vptr, gcount, basic_ios at 16, then position, length and text
ISTATE, IPOS, ILEN, ITEXT, IMAX = 48, 320, 328, 336, 128
EOFBIT, FAILBIT = 2, 4


def istream_obj(ex, name):
    vt = ex.gobj_new('vtable for ' + name, 64, {0: (8, 16), 8: (8, 0), 16: (8, 0)})
    cells = {0: (8, vt + 24), 8: (8, 0), 16: (8, vt + 24), 24: (8, 6), 32: (8, 0), 40: (4, 0x1002), 44: (4, 0), ISTATE: (4, 0),
             IPOS: (8, 0), ILEN: (8, 0)}
    return ITEXT + IMAX, cells


def special_global(ex, name):
    if name == '@vp_itext':
        return istream_obj(ex, name)
    if name in ('@_ZSt4cout', '@_ZSt4cerr', '@_ZSt4clog', '@vp_ostream'):
        return stream_obj(ex, name)
    if name.startswith('@_ZTI') or name.startswith('@_ZTV') or name == '@__dso_handle':
        t = ex.mod.globals[name]
        if t[1] is True or (len(t) == 4 and t[1] is None):
            return 64, {}
    return None


def stream_name(ex, a):
    n = ex.addr_global.get(a)
    if n is None:
        return None
    return n[1:]


def emit(ex, st, a, tok):
    n = stream_name(ex, a)
    if n is None:
        # not one of ours
        from .exec import Unsup
        raise Unsup('stream')
    st.stream.append((n,) + tok)
    # inserting resets the field width
    return a


def emit_bytes(ex, st, a, p, n):
    n = ex.concretize(st, n)
    if n > 4096:
        from .exec import Unsup
        raise Unsup('long string')
    if n:
        p = ex.concretize(st, p)
    for i in range(n):
        emit(ex, st, a, ('c', byte_at(ex, st, p + i)))
    return a


@ext('_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l', '_ZNSo5writeEPKcl')
def _oinsert(ex, st, a):
    return emit_bytes(ex, st, a[0], a[1], a[2])


@ext('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc')
def _ocstr(ex, st, a):
    return emit_bytes(ex, st, a[0], a[1], _strlen(ex, st, [a[1]]))


@ext('_ZNSo3putEc', '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c',
     '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_h',
     '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_a')
def _oput(ex, st, a):
    return emit(ex, st, a[0], ('c', a[1]))


def number(w, signed):
    def f(ex, st, a):
        v = a[1]
        if signed:
            c = X.lshr(v, w - 1, w)
            if c.__class__ is not int:
                c = ex.decide(st, X.eq(c, 1, w))
            if c:
                emit(ex, st, a[0], ('c', ord('-')))
                v = X.sub(0, v, w)
        fl = ex.load(st, a[0] + 32, 4)
        wd = ex.load(st, a[0] + 24, 8)
        if fl != 0x1002 or wd != 0:
            from .exec import Unsup
            raise Unsup('stream format flags')
        return emit(ex, st, a[0], ('n', X.zext(v, w, 64) if w < 64 else v))
    return f


TABLE['@_ZNSo9_M_insertImEERSoT_'] = number(64, False)
TABLE['@_ZNSo9_M_insertIyEERSoT_'] = number(64, False)
TABLE['@_ZNSo9_M_insertIlEERSoT_'] = number(64, True)
TABLE['@_ZNSo9_M_insertIxEERSoT_'] = number(64, True)
TABLE['@_ZNSolsEm'] = number(64, False)
TABLE['@_ZNSolsEy'] = number(64, False)
TABLE['@_ZNSolsEj'] = number(32, False)
TABLE['@_ZNSolsEt'] = number(16, False)
TABLE['@_ZNSolsEl'] = number(64, True)
TABLE['@_ZNSolsEx'] = number(64, True)
TABLE['@_ZNSolsEi'] = number(32, True)
TABLE['@_ZNSolsEs'] = number(16, True)


@ext('_ZNSo5flushEv', '_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_')
def _oflush(ex, st, a):
    return a[0]


@ext('_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_')
def _oendl(ex, st, a):
    return emit(ex, st, a[0], ('c', 10))


# ---------------------------------------------------------------------------
# input streams
# ---------------------------------------------------------------------------
def istream_at(ex, st, a):
    if stream_name(ex, a) != 'vp_itext':
        from .exec import Unsup
        raise Unsup('input stream')
    if ex.load(st, a + 40, 4) != 0x1002:
        from .exec import Unsup
        raise Unsup('stream format flags')
    return a


class Reader(object):
    """the state of an extraction; decisions restart the call, so that nothing is written before commit"""

    def __init__(self, ex, st, a):
        self.ex, self.st = ex, st
        self.s = s = istream_at(ex, st, a)
        self.state = ex.concretize(st, ex.load(st, s + ISTATE, 4))
        self.pos = ex.concretize(st, ex.load(st, s + IPOS, 8))
        n = ex.concretize(st, ex.load(st, s + ILEN, 8))
        self.text = [ex.load(st, s + ITEXT + i, 1) for i in range(n)]
        self.good = False
        if self.state:
            self.state |= FAILBIT
            return
        while not self.end():
            if not (self.within(9, 13) or self.within(32, 32)):
                self.good = True
                return
            self.pos += 1
        self.state |= EOFBIT | FAILBIT

    def end(self):
        return self.pos >= len(self.text)

    def within(self, lo, hi):
        if self.end():
            return False
        c = self.text[self.pos]
        return self.ex.decide(self.st, X.and_(X.ule(lo, c, 8), X.ule(c, hi, 8), 1))

    def commit(self):
        self.ex.store(self.st, self.s + IPOS, 8, self.pos)
        self.ex.store(self.st, self.s + ISTATE, 4, self.state)
        return self.s


def extract(w):
    def f(ex, st, a):
        r = Reader(ex, st, a[0])
        if not r.good:
            return r.commit()
        W = 256
        n = v = 0
        neg = r.within(45, 45)
        if neg or r.within(43, 43):
            r.pos += 1
        while not r.end() and r.within(48, 57):
            v = X.add(X.mul(v, 10, W), X.zext(X.sub(r.text[r.pos], 48, 8), 8, W), W)
            r.pos += 1
            n += 1
            if n > 70:
                from .exec import Unsup
                raise Unsup('long number')
        if r.end():
            r.state |= EOFBIT
        if n == 0:
            v = 0
            r.state |= FAILBIT
        elif ex.decide(st, X.ult((1 << w) - 1, v, W)):
            v = (1 << w) - 1
            r.state |= FAILBIT
        else:
            v = X.trunc(v, W, w)
            if neg:
                v = X.sub(0, v, w)
        ex.store(st, ex.concretize(st, a[1]), w // 8, v)
        return r.commit()
    return f


TABLE['@_ZNSi10_M_extractItEERSiRT_'] = TABLE['@_ZNSirsERt'] = extract(16)
TABLE['@_ZNSi10_M_extractIjEERSiRT_'] = TABLE['@_ZNSirsERj'] = extract(32)
TABLE['@_ZNSi10_M_extractImEERSiRT_'] = TABLE['@_ZNSirsERm'] = extract(64)
TABLE['@_ZNSi10_M_extractIyEERSiRT_'] = TABLE['@_ZNSirsERy'] = extract(64)


@ext('_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_', '_ZStrsISt11char_traitsIcEERSt13basic_istreamIcT_ES5_Rh',
     '_ZStrsISt11char_traitsIcEERSt13basic_istreamIcT_ES5_Ra')
def _ichar(ex, st, a):
    r = Reader(ex, st, a[0])
    if r.good:
        ex.store(st, ex.concretize(st, a[1]), 1, r.text[r.pos])
        r.pos += 1
    return r.commit()


@ext('_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate')
def _iosclear(ex, st, a):
    ex.store(st, a[0] + 32, 4, a[1])


# ---------------------------------------------------------------------------
# harness interface
# ---------------------------------------------------------------------------
@ext('vp_in')
def _vin(ex, st, a):
    i = st.tape
    st.tape += 1
    if i >= len(ex.tape):
        return 0
    v = ex.tape[i]
    if v.__class__ is E:
        return X.zext(v, v.w, 64) if v.w < 64 else v
    return v


@ext('vp_fin')
def _vfin(ex, st, a):
    i = st.tape
    st.tape += 1
    v = ex.tape[i]
    return float(v) if v.__class__ is int else v


@ext('vp_out')
def _vout(ex, st, a):
    st.out.append(a[0])


@ext('vp_cnt')
def _vcnt(ex, st, a):
    v = a[0]
    if v.__class__ is not int:
        v = ex.concretize(st, v)
    st.out.append(Cnt(v))


@ext('vp_fout')
def _vfout(ex, st, a):
    st.out.append(('F', a[0]))


@ext('vp_assume')
def _vassume(ex, st, a):
    from .exec import Infeasible
    c = X.ne(a[0], 0, 32)
    if c.__class__ is not int:
        c = ex.decide(st, c)
    if not c:
        raise Infeasible()


@ext('vp_stream')
def _vstream(ex, st, a):
    ex.mod.globals.setdefault('@vp_ostream', ('i64', True, False))
    return ex.global_addr('@vp_ostream')


@ext('vp_istream')
def _vistream(ex, st, a):
    ex.mod.globals.setdefault('@vp_itext', (('i', 64), None, False, True))
    p = ex.global_addr('@vp_itext')
    n = ex.tape[st.tape]
    if n > IMAX:
        from .exec import Unsup
        raise Unsup('long text')
    _vin(ex, st, [])
    ex.store(st, p + IPOS, 8, 0)
    ex.store(st, p + ILEN, 8, n)
    ex.store(st, p + ISTATE, 4, 0)
    for i in range(n):
        ex.store(st, p + ITEXT + i, 1, X.trunc(_vin(ex, st, []), 64, 8))
    return p


STREAMS = {0: ('vp_ostream',), 1: ('_ZSt4cout',), 2: ('_ZSt4cerr', '_ZSt4clog')}


@ext('vp_stream_out')
def _vsout(ex, st, a):
    w = STREAMS[a[0]]
    toks = tuple(t[1:] for t in st.stream if t[0] in w)
    st.stream = [t for t in st.stream if t[0] not in w]
    st.out.append(('S', toks))


@ext('vp_arm')
def _varm(ex, st, a):
    st.armed = (a[0],)
    st.nalloc = 0


@ext('vp_disarm')
def _vdisarm(ex, st, a):
    st.armed = False


def lookup(ex, name):
    return None


# ---------------------------------------------------------------------------
# intrinsics: a Python expression ('!' prefix: has effects)
# ---------------------------------------------------------------------------
def intrinsic(g, name, rt, args):
    n = name[6:]
    base = n.split('.')[0]
    av = [g.val(v, t) if t[0] not in ('metadata',) and v[0] != 'byval' else '0' for t, v, _ in args]
    w = rt[1] if rt[0] == 'i' else None
    if n.startswith(('lifetime', 'assume', 'dbg', 'experimental.noalias', 'invariant', 'donothing', 'var.annotation',
                     'prefetch', 'sideeffect')):
        return ''
    if n.startswith(('expect', 'threadlocal.address', 'launder.invariant', 'strip.invariant', 'ssa.copy')):
        return av[0]
    if base in ('memcpy', 'memmove'):
        return '!ex.copy_mem(st,%s,%s,%s)' % (av[0], av[1], av[2])
    if base == 'memset':
        return '!ex.set_mem(st,%s,%s,%s)' % (av[0], av[1], av[2])
    if n.startswith('eh.typeid.for'):
        v = args[0][1]
        if v[0] == 'g':
            return g.cst(g.ex.typeid(v[1]))
        return g.cst(g.ex.typeid(None))
    if base == 'trap' or base == 'ubsantrap':
        return '!ex.trap(%s)' % (av[0] if av else '0')
    if n.startswith('is.constant'):
        return '0'
    if n.startswith('objectsize'):
        return g.cst((1 << w) - 1)
    if n.startswith(('stacksave',)):
        return '0'
    if n.startswith(('stackrestore',)):
        return ''
    if w is not None or rt[0] == 's':
        if base == 'ctpop':
            return 'ex.ctpop(%s,%d)' % (av[0], w)
        if base in ('umax', 'umin', 'smax', 'smin'):
            return 'ex.minmax(%r,%s,%s,%d)' % (base, av[0], av[1], w)
        if base == 'abs':
            return 'ex.iabs(%s,%d)' % (av[0], w)
        if base in ('ctlz', 'cttz'):
            return 'ex.%s(%s,%d)' % (base, av[0], w)
        if base in ('fshl', 'fshr'):
            return 'ex.funnel(st,%r,%s,%s,%s,%d)' % (base, av[0], av[1], av[2], w)
        if base in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
            aw = args[0][0][1]
            if '.with.overflow' in n:
                return 'ex.with_overflow(%r,%s,%s,%d)' % (base, av[0], av[1], aw)
            if '.sat' in n:
                return 'ex.sat(%r,%s,%s,%d)' % (base, av[0], av[1], aw)
        if base == 'bswap':
            return 'ex.bswap(%s,%d)' % (av[0], w)
        if base in ('lround', 'llround', 'lrint', 'llrint'):
            return 'ex.lround(st,%r,%s,%d)' % (base, av[0], w)
    if rt == ('f', 64):
        if base == 'floor':
            return 'ex.ffloor(%s)' % av[0]
        if base in ('round', 'nearbyint', 'rint', 'trunc', 'ceil', 'roundeven'):
            return 'ex.fround(%r,%s)' % (base, av[0])
        if base == 'fabs':
            return 'ex.fabs(st,%s)' % av[0]
        if base == 'fmuladd':
            return 'fp.add(fp.mul(%s,%s),%s)' % (av[0], av[1], av[2])
        if base in ('sqrt', 'cos', 'sin'):
            return 'ex.math1(%r,%s)' % (base, av[0])
        if base == 'copysign':
            return 'ex.fp_unsup()'
        return 'ex.fp_unsup()'
    return None


@ext('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', '__pthread_key_create', 'pthread_key_create')
def _lock(ex, st, a):
    return 0            # one thread is followed; what two may share is C30's question
