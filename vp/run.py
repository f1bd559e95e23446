"""Runs the scenarios of one property: symbolic execution, claims to the solver,
counterexamples and undecided paths to the native replay, evidence."""
import json
import os
import random
import re
import subprocess
import sys
import time
import traceback
import pickle
import select
import signal
import struct
from . import build, ir
from . import expr as X
from . import fp
from .expr import E
from .fp import F

HERE = build.HERE
EVID = os.path.join(HERE, 'evidence')


class Scenario(object):
    """one symbolic run: a harness entry, a tape with symbolic cells, an oracle

    tape: ints, V(...) or R(...) cells
    oracle(inp, oc) -> [(label, claim)]; inp is the tape (terms or ints)
    assume(inp) -> [term of width 1]
    """

    def __init__(self, name, harness, entry, tape, oracle, assume=None, prefer='bv', claims=None, flags=(), tag='n', fuel=60000,
                 limit=60.0, budget=30.0, max_paths=4000, feas=3.0, san=False, weight=1.0, merge=True,
                 ltol=0.0, extra=()):
        self.name = name
        self.harness = harness
        self.entry = entry
        self.tape = tape
        self.oracle = oracle
        self.assume = assume
        self.prefer = prefer
        self.claims = claims or prefer
        self.flags = tuple(flags)
        self.tag = tag
        self.fuel = fuel
        self.limit = limit          # seconds of exploration
        self.budget = budget        # seconds per claim
        self.max_paths = max_paths
        self.feas = feas
        self.san = san              # confirm on the sanitizer build as well: True (address, undefined) or 'threads'
        self.weight = weight
        self.merge = merge
        self.extra = extra          # further concrete tapes tried when something is undecided


class V(object):
    """symbolic integer cell"""

    def __init__(self, name, w, hi, lo=0):
        self.name, self.w, self.hi, self.lo = name, w, hi, lo


class R(object):
    """symbolic double cell in [lo, hi]"""

    def __init__(self, name, lo, hi):
        self.name, self.lo, self.hi = name, lo, hi


class Oc(object):
    """what a run did: kind ok/throw/error, observations, leaked blocks"""

    def __init__(self, kind, out, leak, msg=''):
        self.kind = kind
        self.out = out
        self.leak = leak
        self.msg = msg
        self.pos = 0

    def take(self):
        v = self.out[self.pos]
        self.pos += 1
        return v


def symbolic_tape(sc):
    t = []
    for c in sc.tape:
        if isinstance(c, V):
            t.append(X.var(c.name, c.w, c.hi, c.lo))
        elif isinstance(c, R):
            t.append(fp.real_var(c.name, c.lo, c.hi))
        else:
            t.append(c)
    return t


def concrete_tape(sc, env):
    t = []
    for c in sc.tape:
        if isinstance(c, V):
            v = env.get(c.name)
            t.append(c.lo if v is None else v)
        elif isinstance(c, R):
            v = env.get(c.name)
            t.append(float(c.lo if v is None else v))
        else:
            t.append(c)
    return t


def assumed(sc, tape):
    if sc.assume is None:
        return True
    return all(bool(x) for x in sc.assume(tape))


def corner_tapes(sc, n, seed):
    rnd = random.Random(seed)
    vs = [c for c in sc.tape if isinstance(c, (V, R))]
    out = []
    seen = set()
    for k in range(n):
        env = {}
        for i, c in enumerate(vs):
            l, h = c.lo, c.hi
            if isinstance(c, R):
                env[c.name] = rnd.choice((l, h, rnd.uniform(l, h)))
                continue
            if k == 0:
                x = h
            elif k == 1:
                x = l
            elif k == 2:
                x = h if i & 1 else l
            elif k == 3:
                x = l if i & 1 else h
            elif k == 4:
                x = h if i < len(vs) // 2 else l
            elif k == 5:
                x = l if i < len(vs) // 2 else h
            elif k == 6:
                x = min(h, max(l, 1))
            elif k % 2:
                x = rnd.choice((l, min(l + 1, h), h, max(h - 1, l), (l + h) // 2, (l + h + 1) // 2, rnd.randint(l, h)))
            else:
                x = rnd.randint(l, h)
            env[c.name] = x
        t = concrete_tape(sc, env)
        if tuple(t) not in seen and assumed(sc, t):
            seen.add(tuple(t))
            out.append(t)
    return out


# ---------------------------------------------------------------------------
# judging a concrete run
# ---------------------------------------------------------------------------
def judge(sc, tape, res):
    """labels of the claims that fail on a native outcome"""
    kind, outs, leak = res
    if kind == 'assume':
        return []
    if kind == 'none':
        return []           # the replay process itself failed: says nothing
    k = 'ok' if kind == 'ok' else 'throw' if kind == 'throw' else 'error'
    oc = Oc(k, outs, leak, kind)
    try:
        cl = sc.oracle(tape, oc)
    except IndexError:
        return ['the observation has the wrong shape'] if k == 'ok' else ['%s: %s' % (k, kind)]
    bad = []
    for label, c in cl:
        if isinstance(c, tuple):
            from . import solve
            c = solve.claim_eval(c, {}, {})
        if not c:
            bad.append(label if k != 'error' else '%s (%s)' % (label, kind))
    return bad


# ---------------------------------------------------------------------------
# worker
# ---------------------------------------------------------------------------
_mods = {}
_scs = []
_deadline = [None]


def _eval_out(o, env, memo):
    if isinstance(o, E):
        return X.evaluate(o, env, memo)
    if isinstance(o, tuple) and o[0] == 'S':
        s = b''
        for k, v in o[1]:
            v = X.evaluate(v, env, memo)
            s += bytes([v & 255]) if k == 'c' else str(v).encode()
        return ('S', s)
    if isinstance(o, tuple) and o[0] == 'F':
        v = o[1]
        if isinstance(v, F):
            from fractions import Fraction
            r = Fraction(0)
            for k, c in v.p.items():
                m = Fraction(c, fp.ONE)
                for x in k:
                    at = fp._atoms[x]
                    if isinstance(at.term, fp.RealVar):
                        m *= Fraction(env.get(at.term.name, at.lo))
                    else:
                        m *= X.evaluate(at.term, env, memo)
                r += m
            return ('F', float(r), v.err + 1e-300)
        return ('F', v, 0.0)
    return o


def run_scenario(i):
    sc = _scs[i]
    t0 = time.time()
    res = {'i': i, 'name': sc.name, 'cands': [], 'und': [], 'traces': [], 'paths': 0, 'blocks': 0, 'forks': 0,
           'merges': 0, 'ops': 0, 'err': None, 'claims': 0, 'proved': 0, 'trivial': 0, 'funcs': {}, 'kinds': {},
           'feas': 0, 'prove_q': 0, 'solver_s': 0.0, 'max_q': 0.0, 'pool': 0, 'lemmas': 0, 'wit': 0, 'vacuous': False}
    try:
        from . import solve, exec as ex
        X.reset()
        fp.reset()
        pv = solve.Prover(sc.prefer, sc.budget, sc.claims)
        now = time.time()
        dl = now + sc.limit
        if _deadline[0] is not None:
            dl = min(dl, _deadline[0])
        tape = symbolic_tape(sc)
        opts = {'fuel': sc.fuel, 'max_paths': sc.max_paths, 'deadline': dl, 'feas_timeout': sc.feas, 'merge': sc.merge}
        e = ex.Exec(_mods[(sc.harness, sc.tag)], pv, opts)
        e.start(sc.entry, tape, {}, sc.assume(tape) if sc.assume else ())
        pv.deadline = dl + sc.budget
        if _deadline[0] is not None:
            pv.deadline = min(pv.deadline, _deadline[0])
        undset = list(e.undecided)
        for d in e.done:
            res['kinds'][d.kind] = res['kinds'].get(d.kind, 0) + 1
            kind = d.kind if d.kind in ('ok', 'throw') else 'error'
            oc = Oc(kind, d.out, len(d.leaks) if kind == 'ok' else 0, d.msg)
            try:
                cl = sc.oracle(tape, oc)
            except IndexError:
                cl = [('the observation has the wrong shape', False)]
            bad = False
            for label, c in cl:
                res['claims'] += 1
                if c is True or (not isinstance(c, tuple) and c):
                    res['trivial'] += 1
                    res['proved'] += 1
                    continue
                if not isinstance(c, tuple):
                    c = False
                if c is False:
                    # fails on the whole path
                    if d.env is not None:
                        res['cands'].append((label + (': ' + d.msg if d.msg else ''), d.env))
                        bad = True
                        continue
                    r, env = pv.prove(d.pc, False)
                else:
                    memo = {}
                    terms = solve.claim_terms(c, [])
                    vs = X.variables(terms)
                    pc = slice_pc(e, d.pc, set(vs))
                    r, env = pv.prove(pc, c)
                    if r == 'refuted' and d.env is not None:
                        e2 = dict(d.env)
                        e2.update(env)
                        env = e2
                if r == 'proved':
                    res['proved'] += 1
                elif r == 'refuted':
                    res['cands'].append((label, env))
                    bad = True
                else:
                    undset.append(('claim not decided: ' + label, d.env))
            if d.env is not None and len(res['traces']) < 24 and not d.undef:
                res['wit'] += 1
                memo = {}
                outs = [_eval_out(o, d.env, memo) for o in d.out]
                res['traces'].append((concrete_tape(sc, d.env), d.kind, outs))
        if not e.done and not e.undecided:
            res['vacuous'] = True
        res['und'] = [(str(a), b) for a, b in undset]
        res['paths'] = e.n_paths
        res['blocks'] = e.n_blocks
        res['forks'] = e.n_forks
        res['merges'] = e.n_merges
        res['pool'] = e.pool_hits
        res['lemmas'] = e.fp_lemmas
        res['funcs'] = dict(e.entered)
        res['feas'] = pv.st.feas
        res['prove_q'] = pv.st.prove
        res['solver_s'] = pv.st.feas_s + pv.st.prove_s
        res['max_q'] = pv.st.max_q
        res['terms'] = X._count[0]
    except BaseException as x:
        res['err'] = '%s: %s' % (x.__class__.__name__, x)
        res['tb'] = traceback.format_exc()
        res['und'].append(('engine: ' + res['err'], None))
    res['t'] = time.time() - t0
    # only plain data crosses the process boundary
    res['cands'] = [(l, concrete_tape(sc, env)) for l, env in res['cands'][:12]]
    res['und'] = [(l, concrete_tape(sc, env) if env is not None else None) for l, env in res['und'][:60]]
    return res


def slice_pc(e, pc, want):
    rest = list(pc)
    out = []
    ch = True
    while ch and rest:
        ch = False
        nr = []
        for p in rest:
            vs = e.vset(p)
            if not vs or vs & want:
                out.append(p)
                if not vs <= want:
                    want |= vs
                    ch = True
            else:
                nr.append(p)
        rest = nr
    return out


def same_out(a, b):
    """symbolic (evaluated) against native observation"""
    if isinstance(a, tuple) and a[0] == 'F':
        if not (isinstance(b, tuple) and b[0] == 'F'):
            return False
        x, y = a[1], b[1]
        if x != x:
            return y != y
        if x == y:
            return True
        return abs(x - y) <= (a[2] if len(a) > 2 else 0.0) * 1.001 + 1e-12 * max(1.0, abs(x))
    return a == b


# ---------------------------------------------------------------------------
class Worker(object):
    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                work(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2
        self.buf = b''
        self.task = None
        self.count = 0

    def give(self, i):
        self.task = i
        self.count += 1
        self.t0 = time.time()
        os.write(self.w, struct.pack('<i', i))

    def end(self):
        os.close(self.w)
        os.close(self.r)
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)


def work(r, w):
    import resource
    while True:
        b = os.read(r, 4)
        if len(b) < 4:
            return
        res = run_scenario(struct.unpack('<i', b)[0])
        res['rss'] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
        d = pickle.dumps(res)
        d = struct.pack('<Q', len(d)) + d
        o = 0
        while o < len(d):
            o += os.write(w, d[o:o + 65536])


class Farm(object):
    """worker processes; everything happens in the calling thread"""

    def __init__(self, n, todo):
        self.todo = todo
        self.n = n
        self.ws = []
        self.fill()

    def fill(self):
        for w in list(self.ws):
            if w.task is None:
                if not self.todo or w.count >= 400 or w.rss > 900000:
                    self.ws.remove(w)
                    w.end()
                else:
                    w.give(self.todo.pop(0))
        while self.todo and len(self.ws) < self.n:
            w = Worker()
            w.rss = 0
            self.ws.append(w)
            w.give(self.todo.pop(0))

    def next(self, left):
        """the next result, None at the end"""
        stop = time.time() + left
        while True:
            self.fill()
            if not self.ws:
                return None
            now = time.time()
            for w in self.ws:
                # a solver call that ignores its time limit
                if w.task is not None and now - w.t0 > _scs[w.task].limit * 1.5 + 2 * _scs[w.task].budget + 20:
                    i = w.task
                    self.ws.remove(w)
                    w.end()
                    return {'i': i, 'lost': 'a solver call did not return'}
            if now > stop:
                for w in self.ws:
                    i = w.task
                    self.ws.remove(w)
                    w.end()
                    return {'i': i, 'lost': 'no result in time'}
            rs, _, _ = select.select([w.r for w in self.ws], [], [], 2.0)
            for w in self.ws:
                if w.r in rs:
                    b = os.read(w.r, 1 << 20)
                    if not b:
                        i = w.task
                        self.ws.remove(w)
                        w.end()
                        return {'i': i, 'lost': 'the worker died'}
                    w.buf += b
                    if len(w.buf) >= 8:
                        n = struct.unpack('<Q', w.buf[:8])[0]
                        if len(w.buf) >= 8 + n:
                            r = pickle.loads(w.buf[8:8 + n])
                            w.buf = b''
                            w.task = None
                            w.rss = r['rss']
                            return r

    def close(self):
        for w in self.ws:
            w.end()
        self.ws = []


class Runner(object):
    def __init__(self, pid, tier, seed, meta, verbose=False):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.meta = meta
        self.verbose = verbose
        self.t0 = time.time()
        self.b = None
        self.natives = {}
        self.violation = None
        self.unconfirmed = []
        self.mismatch = []
        self.undecided = []
        self.validated = 0
        self.replays = 0
        self.known_hit = []
        self.skipped = 0
        self.known = load_known(pid)
        self.tot = {}
        self.samples = []
        self.funcs = {}
        self.notes = []
        self.slow = []
        self.pending = {}

    def native(self, sc, san=False):
        k = (sc.harness, sc.tag, san)
        n = self.natives.get(k)
        if n is None:
            n = self.natives[k] = build.Native(self.b.native(sc.harness, sc.flags, sc.tag, san))
        return n

    def replay(self, sc, tapes, how, stop_first=True):
        """native runs judged by the oracle; True if a violation was confirmed"""
        if not tapes:
            return False
        found = False
        for san in ((False, sc.san) if sc.san else (False,)):
            try:
                nat = self.native(sc, san)
                res = nat.run(sc.entry, tapes, timeout=max(60, 11 * len(tapes)))
            except (build.BuildError, subprocess.TimeoutExpired) as x:
                self.notes.append('replay of %s failed: %s' % (sc.name, str(x)[:200]))
                continue
            self.replays += len(tapes)
            for t, r in zip(tapes, res):
                bad = judge(sc, t, r)
                if bad:
                    if self.is_known(sc, bad):
                        continue
                    if self.violation is None:
                        self.violation = {'property': self.pid, 'scenario': sc.name, 'harness': sc.harness,
                                          'entry': sc.entry, 'tag': sc.tag, 'flags': list(sc.flags), 'sanitizer': san,
                                          'tape': [x.hex() if isinstance(x, float) else x for x in t],
                                          'failed': bad, 'outcome': [r[0], [str(o) for o in r[1]], r[2]],
                                          'found_by': how}
                    found = True
                    break
            if found:
                break
        return found

    def is_known(self, sc, bad):
        for k in self.known:
            if k['scenario'] == sc.name and any(k['label'] in b for b in bad):
                if k['text'] not in self.known_hit:
                    self.known_hit.append(k['text'])
                return True
        return False

    def run(self, scs):
        global _scs
        _scs = scs
        _mods.clear()
        limit = self.meta.get('deadline', 420 if self.tier == 'quick' else 3000)
        _deadline[0] = self.t0 + limit
        self.b = build.Build()
        try:
            keys = []
            for sc in scs:
                k = (sc.harness, sc.tag)
                if k not in [x[0] for x in keys]:
                    keys.append((k, sc))
            for k, sc in keys:
                self.b.start_module(sc.harness, sc.flags, sc.tag)
            bad = set()
            for k, sc in keys:
                try:
                    _mods[k] = ir.Module(self.b.module(sc.harness, sc.flags, sc.tag))
                except build.BuildError as x:
                    bad.add(k)
                    self.undecided.append('harness %s does not build: %s' % (sc.harness, str(x)[-600:]))
            for k, sc in keys:
                if k not in bad:
                    self.b.start_native(sc.harness, sc.flags, sc.tag)
            order = sorted([i for i in range(len(scs)) if (scs[i].harness, scs[i].tag) not in bad],
                           key=lambda i: -scs[i].weight)
            self.build_s = time.time() - self.t0
            self.explore(order)
        finally:
            self.b.close()
        return self.report()

    def explore(self, order):
        from . import solve, exec as ex, codegen, libc      # loaded once, before the workers fork
        farm = Farm(min(8, os.cpu_count() or 1, max(1, len(order))), list(order))
        try:
            while True:
                left = _deadline[0] + 90 - time.time()
                r = farm.next(left)
                if r is None:
                    break
                if r.get('lost'):
                    sc = _scs[r['i']]
                    self.undecided.append('%s: %s' % (sc.name, r['lost']))
                    self.fallback(sc, [])
                else:
                    self.one(r)
                if self.violation is not None:
                    break
            for q in self.pending.values():
                if self.violation is None:
                    self.validate(q)
        finally:
            farm.close()

    def fallback(self, sc, wit):
        n = 40 if self.tier == 'quick' else 200
        if time.time() > _deadline[0] + 60:
            self.skipped += 1
            return
        tapes = [t for t in wit if t is not None and assumed(sc, t)][:40]
        tapes += corner_tapes(sc, n, self.seed)
        tapes += [list(t) for t in sc.extra]
        self.replay(sc, tapes, 'input of a path the symbolic run left undecided')

    def one(self, r):
        sc = _scs[r['i']]
        if self.verbose:
            print('  %-44s %6.1fs paths %d blocks %d forks %d claims %d/%d feas %d prove %d solver %.1fs max %.1fs %s' % (
                sc.name, r['t'], r['paths'], r['blocks'], r['forks'], r['proved'], r['claims'], r['feas'],
                r['prove_q'], r['solver_s'], r['max_q'], r['kinds']), flush=True)
            for l, t in r['cands'][:3]:
                print('     CAND', l, t)
            for l, t in r['und'][:3]:
                print('     UND', l, t)
            if r['err']:
                print(r.get('tb'))
        for k in ('paths', 'blocks', 'forks', 'merges', 'claims', 'proved', 'trivial', 'feas', 'prove_q', 'solver_s',
                  'pool', 'lemmas', 'wit'):
            self.tot[k] = self.tot.get(k, 0) + r[k]
        self.tot['max_q'] = max(self.tot.get('max_q', 0.0), r['max_q'])
        for f, n in r['funcs'].items():
            self.funcs[f] = self.funcs.get(f, 0) + n
        self.slow.append((round(r['t'], 2), sc.name))
        if r['vacuous']:
            self.undecided.append(sc.name + ': assumptions admit no input')
        # solver counterexamples first
        tried = []
        for l, t in r['cands']:
            if self.replay(sc, [t], 'solver counterexample: ' + l):
                return
            self.unconfirmed.append('%s: %s %s' % (sc.name, l, t))
        if r['und'] or self.unconfirmed and r['cands']:
            for l, _ in r['und'][:5]:
                self.undecided.append('%s: %s' % (sc.name, l))
            self.fallback(sc, [t for _, t in r['und']])
            if self.violation is not None:
                return
        # encoding validation: the witness of every path on the real binary
        if r['traces']:
            q = self.pending.setdefault((sc.harness, sc.tag, sc.entry), [])
            q.extend((sc, t, kind, outs) for t, kind, outs in r['traces'])
            if len(q) >= 400:
                self.validate(q)

    def validate(self, q):
        """run the collected witnesses of one entry natively"""
        batch, q[:] = list(q), []
        if not batch:
            return
        sc = batch[0][0]
        try:
            nat = self.native(sc)
            res = nat.run(sc.entry, [t for _, t, _, _ in batch], timeout=600)
        except (build.BuildError, subprocess.TimeoutExpired) as x:
            self.notes.append('validation of %s failed: %s' % (sc.name, str(x)[:200]))
            return
        for (sc, t, kind, outs), nr in zip(batch, res):
            bad = judge(sc, t, nr)
            if bad and not self.is_known(sc, bad):
                self.replay(sc, [t], 'witness of a symbolic path')
                if self.violation is not None:
                    return
            if kind not in ('ok', 'throw'):
                continue
            if nr[0] == kind and (kind == 'throw' or (len(nr[1]) == len(outs) and
                                                       all(same_out(a, b) for a, b in zip(outs, nr[1])))):
                self.validated += 1
                if len(self.samples) < 3:
                    self.samples.append({'scenario': sc.name, 'input': [str(x) for x in t][:40],
                                         'observed': [str(x) for x in nr[1]][:40]})
            else:
                self.mismatch.append('%s: input %s symbolic %s %s native %s %s' % (
                    sc.name, t, kind, outs, nr[0], nr[1]))
                if self.verbose:
                    print('     MISMATCH', self.mismatch[-1])

    def report(self):
        os.makedirs(EVID, exist_ok=True)
        names = sorted(n for n in self.funcs)
        dem = demangle(names)
        lib = [d for d in dem if not d.startswith(('std::', 'void std::', '__gnu', 'vp_', 'operator', '_', 'bool std::',
                                                    'unsigned', 'int* std', 'decltype', 'void vp', 'cmp<', 'bin<'))
               and not re.match(r'(.* )?std::', d.split('(')[0].split('<')[0])]
        cov = {
            'states': self.tot.get('paths', 0),
            'transitions': self.tot.get('blocks', 0),
            'traces_validated_against_impl': self.validated,
            'samples': self.samples or ['none'],
            'scenarios': len(_scs),
            'functions_encoded': sorted(set(brief(d) for d in lib))[:200],
            'functions_encoded_total': len(names),
            'bounds': self.meta.get('bounds', ''),
            'outside_bounds': self.meta.get('outside', ''),
            'forks': self.tot.get('forks', 0),
            'merges': self.tot.get('merges', 0),
            'claims': self.tot.get('claims', 0),
            'claims_proved': self.tot.get('proved', 0),
            'claims_closed_without_solver_by_term_identity': self.tot.get('trivial', 0),
            'solver_queries_feasibility': self.tot.get('feas', 0),
            'solver_queries_claims': self.tot.get('prove_q', 0),
            'solver_seconds': round(self.tot.get('solver_s', 0.0), 2),
            'longest_query_seconds': round(self.tot.get('max_q', 0.0), 2),
            'fp_residue_lemmas': self.tot.get('lemmas', 0),
            'reachability_witnesses': self.tot.get('wit', 0),
            'undecided': self.undecided[:int(os.environ.get('VP_SLOW', '40'))],
            'undecided_count': len(self.undecided),
            'unconfirmed_counterexamples': self.unconfirmed[:10],
            'encoding_mismatches': self.mismatch[:10],
            'native_replays_of_candidates': self.replays,
            'slowest_scenarios': sorted(self.slow, reverse=True)[:int(os.environ.get("VP_SLOW", "5"))],
            'build_seconds': round(getattr(self, 'build_s', 0.0), 1),
            'notes': self.notes[:10] + (['%d replays of undecided scenarios skipped for time' % self.skipped] if self.skipped else []),
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': self.meta.get('assumptions', []), 'wall_s': round(time.time() - self.t0, 1),
              'violations': 1 if self.violation else 0}
        rp = os.path.join(EVID, 'replay_%s.json' % self.pid)
        if self.violation:
            ev['coverage']['violation'] = self.violation
            with open(rp, 'w') as f:
                json.dump(self.violation, f, indent=1)
        elif os.path.exists(rp):
            os.remove(rp)
        tmp = os.path.join(EVID, '%s.json.tmp' % self.pid)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, '%s.json' % self.pid))
        for k in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        print('%s %s: %d scenarios, %d paths, %d/%d claims proved, %d undecided, %d unconfirmed, %d mismatches, '
              '%d traces validated, solver %.1f s, wall %.1f s' % (
                  self.pid, self.tier, len(_scs), cov['states'], cov['claims_proved'], cov['claims'],
                  len(self.undecided), len(self.unconfirmed), len(self.mismatch), self.validated,
                  cov['solver_seconds'], ev['wall_s']))
        if self.violation:
            v = self.violation
            print('failed: %s' % '; '.join(v['failed']))
            print('scenario %s, entry %s, tape %s, outcome %s' % (v['scenario'], v['entry'], v['tape'], v['outcome']))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


def brief(d):
    """a demangled name without what its template parameters expand to"""
    d = re.sub(r'std::vector<([^<>]|<[^<>]*>)*>', 'vector', d)
    d = d.replace('bn_limits_t', 'limits').replace('unsigned char', 'u8').replace('unsigned short', 'u16')
    d = d.replace('unsigned int', 'u32').replace('unsigned long', 'u64')
    return d if len(d) <= 160 else d[:157] + '...'


def demangle(names):
    if not names:
        return []
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(n.lstrip('@').strip('"') for n in names).encode(),
                           stdout=subprocess.PIPE)
        return p.stdout.decode().split('\n')[:len(names)]
    except OSError:
        return list(names)


def load_known(pid):
    out = []
    try:
        with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property=%s ' % pid):
                    # known: property=C01 scenario=<name> label=<text> | description
                    head, _, text = line.partition('|')
                    w = dict(x.split('=', 1) for x in head.split()[1:] if '=' in x)
                    out.append({'scenario': w.get('scenario', ''), 'label': w.get('label', '').replace('_', ' '),
                                'text': text.strip()})
    except OSError:
        pass
    return out
