"""Builds the code under test from /repo's working tree: LLVM IR of the library
sources and of a harness, linked into one module, and native replay binaries."""
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
HARNESS = os.path.join(HERE, 'harness')

CLANG = shutil.which('clang++-18') or shutil.which('clang++') or 'clang++'
LINK = shutil.which('llvm-link-18') or shutil.which('llvm-link') or 'llvm-link'
IRFLAGS = ['-std=c++11', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
           '-fno-finite-loops', '-fno-pic', '-fno-pie', '-w', '-S', '-emit-llvm']
UBFLAGS = ['-fsanitize=undefined,integer-divide-by-zero,float-cast-overflow',
           '-fno-sanitize=function,vptr,alignment,null,object-size', '-fsanitize-trap=undefined,integer-divide-by-zero,'
           'float-cast-overflow', '-D_GLIBCXX_ASSERTIONS']
ASAN = ['-fsanitize=address,undefined,float-divide-by-zero', '-fno-sanitize-recover=all',
        '-fno-sanitize=float-divide-by-zero', '-D_GLIBCXX_ASSERTIONS', '-g', '-fno-omit-frame-pointer']


class BuildError(Exception):
    pass


class Job(object):
    """a compiler process in the background"""

    def __init__(self, cmd, out):
        self.cmd = cmd
        self.out = out
        self.log = open(out + '.log', 'w+b')
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=self.log, stderr=subprocess.STDOUT)
        self.ok = None

    def result(self, timeout=600):
        if self.ok is None:
            try:
                self.ok = self.p.wait(timeout) == 0
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.ok = False
        if not self.ok:
            self.log.seek(0)
            raise BuildError(' '.join(self.cmd[:3]) + ' ...: ' + self.log.read().decode('utf-8', 'replace')[-2000:])
        return self.out


def run(cmd, out):
    return Job(cmd, out).result()


def sources():
    d = os.path.join(REPO, 'src')
    out = []
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.cpp', '.cc', '.cxx')):
                out.append(os.path.join(root, f))
    return out


class Build(object):
    """one scratch directory; tasks run in parallel"""

    def __init__(self):
        base = os.environ.get('VP_TMP')
        self.dir = tempfile.mkdtemp(prefix='vpbuild.', dir=base)
        self.tasks = {}

    def close(self):
        for t in self.tasks.values():
            if isinstance(t, Job) and t.ok is None:
                t.p.kill()
                t.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

    def _task(self, key, cmd, out):
        t = self.tasks.get(key)
        if t is None:
            t = self.tasks[key] = Job(cmd, out)
        return t

    def ir_of(self, path, flags, tag):
        out = os.path.join(self.dir, '%s.%s.ll' % (os.path.basename(path), tag))
        return self._task(('ir', path, tag), [CLANG] + IRFLAGS + flags + [
            '-I', os.path.join(REPO, 'include'), '-I', HARNESS, path, '-o', out], out)

    def start_module(self, harness, flags=(), tag='n'):
        """compile tasks for the module of one harness file"""
        flags = list(flags)
        return [self.ir_of(p, flags, tag) for p in sources()] + \
               [self.ir_of(os.path.join(HARNESS, harness), flags, tag)]

    def module(self, harness, flags=(), tag='n'):
        """text of the linked module"""
        files = [t.result() for t in self.start_module(harness, flags, tag)]
        out = os.path.join(self.dir, 'linked.%s.%s.ll' % (harness, tag))
        run([LINK, '-S', '-o', out] + files, out)
        with open(out) as f:
            return f.read()

    def obj_of(self, path, flags, tag, cxx):
        out = os.path.join(self.dir, '%s.%s.o' % (os.path.basename(path), tag))
        return self._task(('obj', path, tag), [cxx, '-std=c++11', '-w', '-c'] + flags + [
            '-I', os.path.join(REPO, 'include'), '-I', HARNESS, path, '-o', out], out)

    def start_native(self, harness, flags=(), tag='n', san=False):
        key = ('bin', harness, tag, san)
        flags = [f for f in flags if 'sanitize' not in f]
        flags = flags + ['-DVP_NATIVE']
        if san == 'threads':
            cxx, flags, tg = CLANG, flags + ['-O1', '-g', '-fsanitize=thread', '-pthread'], tag + 'thr'
        elif san:
            cxx, flags, tg = CLANG, flags + ['-O1'] + ASAN, tag + 'san'
        else:
            cxx, flags, tg = 'g++', flags + ['-O1', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern'], tag
        objs = [self.obj_of(p, flags, tg, cxx) for p in sources()]
        objs += [self.obj_of(os.path.join(HARNESS, h), flags, tg, cxx) for h in (harness, 'native.cpp')]
        return key, objs, cxx, san, tg

    def native(self, harness, flags=(), tag='n', san=False):
        key, objs, cxx, san, tg = self.start_native(harness, flags, tag, san)
        if key in self.tasks:
            return self.tasks[key]
        files = [t.result() for t in objs]
        out = os.path.join(self.dir, 'replay.%s.%s' % (harness, tg))
        run([cxx, '-rdynamic', '-o', out] + (['-fsanitize=thread', '-pthread'] if san == 'threads' else
                                             ['-fsanitize=address,undefined'] if san else []) + files + ['-ldl'], out)
        self.tasks[key] = out
        return out


class Native(object):
    """runs tapes on a replay binary"""

    def __init__(self, path, limit=10):
        self.path = path
        self.limit = limit
        self.runs = 0

    def run(self, entry, tapes, timeout=None):
        """outcomes [(kind, outs, leak)] of the tapes (lists of ints/floats)"""
        if not tapes:
            return []
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1'
        env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=98'
        env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=97'
        text = '\n'.join(' '.join(x.hex() if isinstance(x, float) else str(x) for x in t) or ' ' for t in tapes) + '\n'
        self.runs += len(tapes)
        p = subprocess.run([self.path, entry, str(self.limit)], input=text.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, env=env, timeout=timeout)
        res = []
        for line in p.stdout.decode('utf-8', 'replace').split('\n'):
            w = line.split()
            if len(w) < 2 or w[0] != 'end':
                continue
            kind = w[1]
            outs = []
            leak = 0
            for x in w[2:]:
                if x.startswith('leak='):
                    leak = int(x[5:])
                elif x[0] == 'f':
                    outs.append(('F', float.fromhex(x[1:])))
                elif x[0] == 's':
                    outs.append(('S', bytes.fromhex(x[1:])))
                else:
                    outs.append(int(x))
            if kind in ('signal', 'exit'):
                kind = '%s %s' % (kind, outs[0] if outs else '')
                outs = []
            res.append((kind, outs, leak))
        while len(res) < len(tapes):
            res.append(('none', [], 0))
        return res
