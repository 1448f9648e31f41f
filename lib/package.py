"""Packages: the sources each configuration builds define everything they refer to;
create.py reports failing generators."""
import os, re, sys, io, json, time, hashlib, shutil, tempfile, subprocess, contextlib, runpy, types
import z3
import irx, build, kern, prove, check, fork, entry, state, terms as T

# ----- what a configuration builds

def configure(src, maxam, maxder, vec):
    """(list of (source, include directories, definitions), None) or (None, cmake's complaint)"""
    b = os.path.join(build.scratch(), 'cfg-%s-%d-%d-%s' % (os.path.basename(src), maxam, maxder, vec))
    r = build.run(['cmake', '-S', src, '-B', b, '-G', 'Ninja', '-DSIMINT_VECTOR=' + vec, '-DSIMINT_MAXAM=%d' % maxam, '-DSIMINT_MAXDER=%d' % maxder,
                   '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON', '-DCMAKE_C_COMPILER_WORKS=1', '-DCMAKE_CXX_COMPILER_WORKS=1', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5'], check=False)
    if r.returncode:
        return None, (r.stderr + r.stdout).decode(errors='replace')
    out = []
    with open(os.path.join(b, 'compile_commands.json')) as f:
        for e in json.load(f):
            a = e.get('command') or ' '.join(e['arguments'])
            o = e.get('output') or re.search(r' -o (\S+)', a).group(1)
            if not re.search(r'(^|/)simint\.dir/', o) or not e['file'].endswith('.c'):
                continue
            inc = re.findall(r'(?:-I\s*|-isystem\s+)(\S+)', a)
            out.append((e['file'], tuple(inc), tuple(re.findall(r'\s(-D\S+)', a))))
    return out, None

def symbols(path, inc, defs, vec):
    """(defined, referred) external symbols of one compiled file, remembered by its
    preprocessed text"""
    e = subprocess.run(['clang-18', '-E', '-P', '-std=gnu11', '-w'] + ['-I' + i for i in inc] + list(defs) + build.MFLAGS[vec] + [path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if e.returncode:
        return None, e.stderr.decode(errors='replace')
    d = os.path.join(build.scratch(), 'symbols')
    os.makedirs(d, exist_ok=True)
    k = os.path.join(d, hashlib.sha256(vec.encode() + e.stdout).hexdigest())
    if not os.path.exists(k):
        build.put(k, json.dumps(symbols1(e.stdout, vec)))
    with open(k) as f:
        a, b = json.load(f)
    return a, b

def symbols1(text, vec):
    # as the compiler sees it; only unused inline functions go
    p = subprocess.run(['clang-18', '-O1', '-Xclang', '-disable-llvm-passes', '-std=gnu11', '-w', '-x', 'cpp-output'] + build.MFLAGS[vec] + ['-S', '-emit-llvm', '-', '-o', '-'], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        return None, p.stderr.decode(errors='replace')
    o = subprocess.run(['/usr/bin/opt', '-S', '-passes=always-inline,function(sroa,simplifycfg),globaldce'], input=p.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if o.returncode:
        return None, o.stderr.decode(errors='replace')
    d, u = set(), set()
    for l in o.stdout.decode().split('\n'):
        m = re.match(r'(define|declare)\b([^@]*)@("[^"]*"|[\w.$]+)\(', l)
        if m:
            n = m.group(3).strip('"')
            if n.startswith('llvm.'): continue
            if m.group(1) == 'declare': u.add(n)
            elif not re.search(r'\b(internal|private|available_externally)\b', m.group(2)):
                d.add((n, bool(re.search(r'\b(weak|linkonce|common)', m.group(2)))))
            continue
        m = re.match(r'@("[^"]*"|[\w.$]+) = (.*)', l)
        if m and not m.group(1).startswith('llvm.'):
            n = m.group(1).strip('"')
            if re.match(r'(\w+ )*?external\b', m.group(2)): u.add(n)
            elif not re.match(r'(\w+ )*?(internal|private)\b', m.group(2)): d.add((n, bool(re.match(r'(weak|linkonce|common)', m.group(2)))))
    return sorted(d), sorted(u)

_sys = [None]
def system():
    """symbols of the C and math libraries"""
    if _sys[0] is None:
        s = set()
        for l in ('libc.so.6', 'libm.so.6', 'libgomp.so.1'):
            p = build.run(['gcc', '-print-file-name=' + l]).stdout.decode().strip()
            for x in build.run(['nm', '-D', '--defined-only', p], check=False).stdout.decode().split('\n'):
                if x: s.add(x.split()[-1].split('@')[0])
        _sys[0] = s
    return _sys[0]

def table(vals, idx, w):
    return z3.Extract(w - 1, 0, irx.mux(idx, dict(enumerate(vals)), len(vals)))

def link(defs, refs):
    """the solver looks for a reference nothing defines, and for two definitions of a name.
    defs: list of (file, name), refs: list of (file, name)"""
    st = prove.Stats()
    names = sorted({n for _, n in defs} | {n for _, n in refs})
    num = {n: i for i, n in enumerate(names)}
    have = {n for _, n in defs} | system()
    def ask(*e):
        s = z3.SolverFor('QF_BV')
        s.add(*e)
        t = time.time()
        r = s.check()
        st.queries += 1; st.time += time.time() - t
        return s.model() if r == z3.sat else None
    out = []
    r = z3.BitVec('reference', 32)
    sym = table([num[n] for _, n in refs], r, 32)
    dfd = table([1 if n in have else 0 for n in names], sym, 1)
    m = ask(z3.ULT(r, len(refs)), dfd == 0)
    if m is not None:
        k = m.eval(r, model_completion=True).as_long()
        out.append(('undefined', '%s, which %s refers to, is not defined' % (refs[k][1], os.path.basename(refs[k][0]))))
    a, b = z3.BitVecs('definition1 definition2', 32)
    ds = [num[n] for _, n in defs]
    m = ask(z3.ULT(a, b), z3.ULT(b, len(defs)), table(ds, a, 32) == table(ds, b, 32))
    if m is not None:
        k, l = [m.eval(x, model_completion=True).as_long() for x in (a, b)]
        out.append(('twice', '%s is defined in %s and in %s' % (defs[k][1], os.path.basename(defs[k][0]), os.path.basename(defs[l][0]))))
    return out, st

def reallink(files, vec):
    """gcc and the linker on the same sources"""
    d = tempfile.mkdtemp(dir=build.scratch())
    objs = []
    err = ''
    ps = []
    for i, (f, inc, defs) in enumerate(files):
        o = os.path.join(d, '%d.o' % i)
        objs.append(o)
        ps.append((f, subprocess.Popen(['gcc', '-O0', '-std=gnu11', '-w', '-fPIC', '-fopenmp'] + ['-I' + x for x in inc] + list(defs) + build.MFLAGS[vec] + ['-c', f, '-o', o], stderr=subprocess.PIPE, preexec_fn=build.unlimit)))
        if len(ps) >= 8 or i == len(files) - 1:
            for g, p in ps:
                e = p.communicate()[1].decode(errors='replace')
                if p.returncode: return 'does not compile: ' + e[:1500]
            ps = []
    r = build.run(['gcc', '-shared', '-Wl,--no-undefined', '-fopenmp'] + objs + ['-o', os.path.join(d, 'lib.so'), '-lm'], check=False)
    if r.returncode:
        err = 'does not link: ' + r.stderr.decode(errors='replace')[:1500]
    shutil.rmtree(d)
    return err

def script(opts, maxam, maxder, vec):
    return '''#!/bin/bash
# generates the package and builds this configuration (scratch directory: $1)
set -e
D=${1:-$(mktemp -d)}
cmake -S /repo -B $D/gen -G Ninja -DCMAKE_POLICY_VERSION_MINIMUM=3.5 && ninja -C $D/gen
python3 /repo/create.py -n 8 -g $D/gen/generator/ostei -l %d -p %d -d %d -ve %d -vg %d -he %d -hg %d $D/src
cmake -S $D/src -B $D/build -G Ninja -DSIMINT_VECTOR=%s -DSIMINT_MAXAM=%d -DSIMINT_MAXDER=%d -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DBUILD_SHARED_LIBS=ON -DCMAKE_SHARED_LINKER_FLAGS=-Wl,--no-undefined
ninja -C $D/build simint
''' % (tuple(opts) + (vec, maxam, maxder))

def config(opts, src, maxam, maxder, vec):
    res = dict(status='held', detail='', files=0, symbols=0, requests=0, functions=set(), replay=script(opts, maxam, maxder, vec))
    st = prove.Stats()
    def done(s, d):
        res.update(status=s, detail=d, stats=st.as_dict())
        res['functions'] = sorted(res['functions'])
        return res
    files, err = configure(src, maxam, maxder, vec)
    if files is None:
        m = re.search(r'CMake Error.*', err, re.S)
        return done('violated', 'cannot be configured: ' + (m.group(0) if m else err)[:600])
    res['files'] = len(files)
    defs, refs = [], []
    for f, inc, df in files:
        d, u = symbols(f, inc, df, vec)
        if d is None:
            e = reallink([(f, inc, df)], vec)
            if 'compile' in e:
                return done('violated', os.path.basename(f) + ' ' + e)
            return done('inconclusive', 'clang does not compile %s: %s' % (os.path.basename(f), u[:300]))
        defs += [(f, n) for n, weak in sorted(d) if not weak]
        refs += [(f, n) for n in sorted(u)]
    res['symbols'] = len(defs) + len(refs)
    # what a user may ask for is referred to as well: the functions of the headers for any request
    bad, s2 = link(defs, refs)
    st.merge(s2.as_dict())
    if bad:
        e = reallink(files, vec)
        if e:
            return done('violated', '%s; %s' % (bad[0][1], e[:700]))
        return done('inconclusive', '%s, but it links' % bad[0][1])
    return request(done, res, st, src, files, {n for _, n in defs}, maxam, maxder, vec)

def request(done, res, st, src, files, defined, maxam, maxder, vec):
    """every request reaches a kernel that the package's files define"""
    want = ('simint_init', 'simint_eri', 'ostei', 'ostei_init', 'ostei_deriv1_init')
    mods = []
    inc = None
    for f, i, df in files:
        if os.path.basename(f)[:-2] in want and '/gen/' not in f:
            inc = i
            t = build.ll(f, src, vec, extra=['-I' + x for x in i] + list(df), inc=i[0] if i else None)
            mods.append(irx.Module(t, f))
    lib = kern.Lib(src, vec, inc=build.incdir(src, vec, maxam, maxder))
    off = lib.off
    s = z3.SolverFor('QF_BV')
    s.set('timeout', 60000)
    d, a, b, e, f = vs = [z3.BitVec(n, 64) for n in ('deriv', 'l1', 'l2', 'l3', 'l4')]
    s.add(z3.ULE(d, maxder))
    for x in (a, b, e, f):
        s.add(z3.ULE(x, maxam))
    S = lambda x: irx.SymInt(x, s)
    ex = irx.Exec(mods, intercept=entry.Kernels(lambda *x: 7))
    rec = []
    def symcall(ex, p, args):
        rec.append(p)
        return 7
    ex.env['symcall'] = symcall
    bad = m = None
    try:
        ex.call('simint_init')
        def msp(x, y, nm):
            p = lib.msp(ex, nprim=1, nshell12=1, nshell12_clip=1, screen_max=T.var(nm))
            o, z = ex.find(p)
            o.cells[z + off[('MSP', 'am1')]] = (4, S(x))
            o.cells[z + off[('MSP', 'am2')]] = (4, S(y))
            return p
        P, Q = msp(a, b, 'SPmax'), msp(e, f, 'SQmax')
        w, o = ex.new(64, 64, 'work'), ex.new(64, 64, 'out')
        ex.call('simint_compute_eri_deriv', S(d), P, Q, T.ZERO, ex.addr(w), ex.addr(o))
    except irx.Fault as x:
        bad = str(x)
    except irx.Unsupported as x:
        # a single kernel (maximum angular momentum 0 and no derivatives) is called directly
        return done('inconclusive', 'not encoded: %s' % x)
    res['functions'].update(k if isinstance(k, str) else k[-1] for k in ex.calls)
    if bad is None and rec:
        good = [ad for ad, (fn, name) in ex.addrf.items() if name.lstrip('@') in defined]
        t = time.time()
        z = rec[0].z
        r = s.check(z3.And([z != g for g in good]))
        st.queries += 1; st.time += time.time() - t
        if r == z3.sat:
            m = s.model()
            bad = 'the request reaches no kernel of the package'
        elif r == z3.unknown:
            return done('inconclusive', 'no answer from the solver')
    res['requests'] = 1
    if bad is None:
        return done('held', '')
    q = [m.eval(x, model_completion=True).as_long() if m is not None else 0 for x in vs]
    if m is None and s.check() == z3.sat:
        q = [maxder] + [maxam] * 4
    text = state.reqprog('simint_compute_eri_deriv', q[0], q[1:]).replace('prot();', '').replace('#include <stdlib.h>', '#include <stdlib.h>\n#include <string.h>').replace('int main(void) {', 'int main(void) { simint_init();')
    dd = tempfile.mkdtemp(dir=build.scratch())
    p = os.path.join(dd, 'request.c')
    with open(p, 'w') as fo:
        fo.write(text)
    exe = os.path.join(dd, 'request')
    inc = files[0][1]
    r = build.run(['gcc', '-O1', '-std=gnu11', '-w', '-fopenmp'] + ['-I' + x for x in inc] + build.MFLAGS[vec] + [p] + [x[0] for x in files] + ['-o', exe, '-lm'], check=False)
    if r.returncode:
        return done('violated', '%s (order %d, angular momenta %s); %s' % (bad, q[0], q[1:], r.stderr.decode(errors='replace')[:500]))
    r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=build.unlimit)
    shutil.rmtree(dd)
    if r.returncode:
        res['replay'] += '# program that ends with status %d:\n' % r.returncode + ''.join('# ' + l + '\n' for l in text.split('\n'))
        return done('violated', '%s (order %d, angular momenta %s); the program ends with status %d' % (bad, q[0], q[1:], r.returncode))
    return done('inconclusive', '%s, not confirmed natively' % bad)

# ----- failing generators

class Ret:
    """exit status of a generator: symbolic"""
    def __init__(self, z, d): self.z, self.d = z, d
    def _z(self, o): return o.z if isinstance(o, Ret) else o
    def __bool__(self): return self.d(self.z != 0)
    def __eq__(self, o): return self.d(self.z == self._z(o)) if isinstance(o, (int, Ret)) else False
    def __ne__(self, o): return not self == o
    def __lt__(self, o): return self.d(self.z < self._z(o))
    def __le__(self, o): return self.d(self.z <= self._z(o))
    def __gt__(self, o): return self.d(self.z > self._z(o))
    def __ge__(self, o): return self.d(self.z >= self._z(o))
    def __add__(self, o): return Ret(self.z + self._z(o), self.d)
    __radd__ = __add__
    def __mul__(self, o): return Ret(self.z * self._z(o), self.d)
    __rmul__ = __mul__
    def __sub__(self, o): return Ret(self.z - self._z(o), self.d)
    def __neg__(self): return Ret(-self.z, self.d)
    def __abs__(self): return Ret(z3.If(self.z < 0, -self.z, self.z), self.d)
    def __and__(self, o): return self.bits(o, lambda x, y: x & y)
    def __or__(self, o): return self.bits(o, lambda x, y: x | y)
    __rand__, __ror__ = __and__, __or__
    def bits(self, o, f):
        b = f(z3.Int2BV(self.z, 32), z3.Int2BV(z3.IntVal(o) if isinstance(o, int) else o.z, 32))
        return Ret(z3.BV2Int(b, True), self.d)
    def __str__(self): return 'status'
    def __format__(self, f): return 'status'
    __repr__ = __str__
    def __hash__(self): return 0

class Script:
    """create.py executed with symbolic exit statuses of the generators"""
    def __init__(self, opts, gen, most):
        self.opts, self.gen, self.most = opts, gen, most
        self.cache = {}
        self.st = prove.Stats()

    def once(self, decide, s):
        """one path: (exit status, statuses of the calls)"""
        me = self
        out = tempfile.mkdtemp(dir=build.scratch())
        rets = []
        def execute(cmd, kw):
            cmd = [str(x) for x in (cmd if not isinstance(cmd, str) else cmd.split())]
            key = tuple(x.replace(out, '@') for x in cmd)
            if key not in me.cache:
                before = {f: open(f).read() for f in cmd if os.path.isfile(f) and f.startswith(out)}
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                if r.returncode:
                    raise RuntimeError('the generator fails: ' + ' '.join(cmd))
                w = []
                for f in cmd:
                    if f.startswith(out) and os.path.isfile(f):
                        t = open(f).read()
                        w.append((f.replace(out, '@'), t[len(before.get(f, '')):]))
                me.cache[key] = (r.stdout.decode(), w)
            else:
                for f, t in me.cache[key][1]:
                    with open(f.replace('@', out), 'a') as fo:
                        fo.write(t)
            o = kw.get('stdout')
            if hasattr(o, 'write'):
                try: o.write(me.cache[key][0])
                except TypeError: o.write(me.cache[key][0].encode())
            k = len(rets)
            z = z3.Int('status%d' % k)
            s.add(z >= -64, z <= 255)
            s.add(z3.Sum([z3.If(x != 0, 1, 0) for _, x in rets] + [z3.If(z != 0, 1, 0)]) <= me.most)
            r = Ret(z, decide)
            rets.append((' '.join(key), z))
            return r, me.cache[key][0]
        sub = types.ModuleType('subprocess')
        for n in ('PIPE', 'STDOUT', 'DEVNULL', 'CalledProcessError', 'SubprocessError', 'TimeoutExpired'):
            setattr(sub, n, getattr(subprocess, n))
        class Done:
            def __init__(s_, cmd, kw):
                s_.args = cmd
                s_.returncode, s_.stdout = execute(cmd, kw)
                s_.stderr = ''
                s_.pid = 1
            def check_returncode(s_):
                if s_.returncode != 0: raise subprocess.CalledProcessError(1, s_.args)
            def wait(s_, *a, **k): return s_.returncode
            def poll(s_): return s_.returncode
            def communicate(s_, *a, **k): return s_.stdout, ''
            def __enter__(s_): return s_
            def __exit__(s_, *a): return False
        def run(cmd, *a, check=False, **kw):
            r = Done(cmd, kw)
            if check: r.check_returncode()
            return r
        def check_call(cmd, *a, **kw):
            Done(cmd, kw).check_returncode()
            return 0
        def check_output(cmd, *a, **kw):
            r = Done(cmd, kw)
            r.check_returncode()
            return r.stdout
        sub.call = lambda cmd, *a, **kw: Done(cmd, kw).returncode
        sub.run, sub.check_call, sub.check_output, sub.Popen = run, check_call, check_output, lambda cmd, *a, **kw: Done(cmd, kw)
        mp = types.ModuleType('multiprocessing')
        class Res:
            def __init__(s_, v): s_.v = v
            def get(s_, *a, **k): return s_.v
            def ready(s_): return True
            def successful(s_): return True
            def wait(s_, *a): pass
        class Pool:
            def __init__(s_, *a, **k): pass
            def map(s_, f, it, *a, **k): return [f(x) for x in it]
            imap = imap_unordered = map
            def starmap(s_, f, it, *a, **k): return [f(*x) for x in it]
            def apply(s_, f, a=(), k={}): return f(*a, **k)
            def apply_async(s_, f, a=(), k={}, *r, **q): return Res(f(*a, **k))
            def map_async(s_, f, it, *a, **k): return Res([f(x) for x in it])
            def starmap_async(s_, f, it, *a, **k): return Res([f(*x) for x in it])
            def close(s_): pass
            join = terminate = close
            def __enter__(s_): return s_
            def __exit__(s_, *a): return False
        class Lock:
            def acquire(s_, *a, **k): return True
            def release(s_): pass
            def __enter__(s_): return s_
            def __exit__(s_, *a): return False
        class Manager:
            def Lock(s_): return Lock()
            RLock = Lock
            def list(s_, *a): return list(*a)
            def dict(s_, *a): return dict(*a)
            def __enter__(s_): return s_
            def __exit__(s_, *a): return False
        mp.Pool, mp.Manager, mp.Lock, mp.RLock = Pool, Manager, Lock, Lock
        mp.set_start_method = lambda *a, **k: None
        mp.cpu_count = lambda: 8
        mp.get_context = lambda *a: mp
        mp.freeze_support = lambda: None
        pool = types.ModuleType('multiprocessing.pool')
        pool.Pool = pool.ThreadPool = Pool
        mp.pool = pool
        l, p, d, ve, vg, he, hg = self.opts
        argv = ['create.py', '-n', '4', '-g', self.gen, '-l', str(l), '-p', str(p), '-d', str(d), '-ve', str(ve), '-vg', str(vg), '-he', str(he), '-hg', str(hg), out + '/src']
        save = (sys.argv, {n: sys.modules.get(n) for n in ('subprocess', 'multiprocessing', 'multiprocessing.pool')})
        sys.argv = argv
        sys.modules.update({'subprocess': sub, 'multiprocessing': mp, 'multiprocessing.pool': pool})
        import builtins
        def leave(x=None): raise SystemExit(x)
        had = {n: getattr(builtins, n, None) for n in ('quit', 'exit')}
        builtins.quit = builtins.exit = leave
        os_exit = os._exit
        class Left(BaseException): pass
        def hard(x):
            raise Left(x)
        os._exit = hard
        code = 0
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    runpy.run_path(os.path.join(build.REPO, 'create.py'), run_name='__main__')
        except SystemExit as x:
            code = x.code
        except Left as x:
            code = x.args[0]
        except (subprocess.CalledProcessError, AssertionError):
            code = 1
        finally:
            os._exit = os_exit
            sys.argv = save[0]
            for n, m in save[1].items():
                if m is None: sys.modules.pop(n, None)
                else: sys.modules[n] = m
            for n, v in had.items():
                if v is None: delattr(builtins, n)
                else: setattr(builtins, n, v)
            shutil.rmtree(out, ignore_errors=True)
        if code is None: code = 0
        if isinstance(code, str): code = 1
        return code, rets

    def paths(self, maxpaths, deadline):
        stack = [[]]
        n = 0
        while stack:
            pre = stack.pop()
            n += 1
            if n > maxpaths or time.time() > deadline:
                raise fork.TooManyPaths('%d paths' % n)
            s = z3.Solver()
            s.set('timeout', 20000)
            path = []
            def ask(e):
                t = time.time()
                r = s.check(e)
                self.st.queries += 1; self.st.time += time.time() - t
                return r != z3.unsat
            def decide(e):
                e = z3.simplify(e)
                if z3.is_true(e) or z3.is_false(e):
                    return z3.is_true(e)
                if len(path) < len(pre):
                    # the decisions of an earlier run, forced ones included
                    out = pre[len(path)]
                else:
                    t, f = ask(e), ask(z3.Not(e))
                    out = t and not f
                    if t and f:
                        stack.append(list(path) + [True])
                path.append(out)
                s.add(e if out else z3.Not(e))
                return out
            yield self.once(decide, s), s, ask

def failing(opts, gen, most=2, maxpaths=4000, deadline=1e18):
    S = Script(opts, gen, most)
    res = dict(status='held', detail='', paths=0, calls=0, functions=['create.py'])
    def done(s, d, r=''):
        res.update(status=s, detail=d, replay=r, stats=S.st.as_dict())
        return res
    try:
        for (code, rets), s, ask in S.paths(maxpaths, deadline):
            res['paths'] += 1
            res['calls'] = max(res['calls'], len(rets))
            if not rets and code != 0:
                return done('inconclusive', 'create.py ends with status %s before it starts a generator' % code)
            zero = (code.z & 0xff if isinstance(code, int) and False else z3.BoolVal(code % 256 == 0)) if isinstance(code, int) else (code.z % 256 == 0)
            bad = z3.Or([z != 0 for _, z in rets])
            for what, e in (('create.py succeeds although a generator failed', z3.And(zero, bad)), ('create.py fails although every generator succeeded', z3.And(z3.Not(zero), z3.Not(bad)))):
                if ask(e):
                    if s.check(e) != z3.sat:
                        return done('inconclusive', 'no answer from the solver')
                    m = s.model()
                    st = [(c, m.eval(z, model_completion=True).as_long()) for c, z in rets]
                    f = [x for x in st if x[1]]
                    ok, text = real(opts, gen, f)
                    if ok == ('succeeds' in what):
                        return done('violated', '%s: %s' % (what, '; '.join('%s ends with status %d' % x for x in f)[:600] or 'all succeed'), text)
                    return done('inconclusive', '%s, not confirmed by running it' % what)
    except fork.TooManyPaths as x:
        return done('inconclusive', 'too many paths: %s' % x)
    return done('held', '')

def real(opts, gen, fails):
    """create.py with generators that fail for these commands; (succeeded, script)"""
    d = tempfile.mkdtemp(dir=build.scratch())
    g = os.path.join(d, 'gen')
    os.makedirs(g)
    out = os.path.join(d, 'out')
    text = '#!/bin/bash\n# create.py with generators that fail for some commands: it must not exit with status 0\nD=$(mktemp -d); mkdir $D/gen\n# GEN: directory of the generator programs\nGEN=${GEN:-/repo/_build/generator/generator/ostei}\n'
    for n in ('ostei_generator', 'ostei_deriv1_generator', 'ostei_hrr_generator', 'ostei_vrr_generator'):
        cases = ''
        for c, st in fails:
            w = c.split()
            if os.path.basename(w[0]) != n: continue
            base = [os.path.basename(x) for x in w[1:]]
            if st < 0: st = 128 - st
            cases += '  *" %s "*) exit %d;;\n' % (' '.join(w[1:]).split('@')[0].strip() + ' -o ', st) if False else '  "%s") %s;;\n' % (' '.join(base), 'exit %d' % (st & 255) if st else ':')
        body = '#!/bin/bash\nk=""; for x in "$@"; do k="$k ${x##*/}"; done\ncase "${k# }" in\n%sesac\nexec %%s/%s "$@"\n' % (cases, n)
        p = os.path.join(g, n)
        with open(p, 'w') as f:
            f.write(body % gen)
        os.chmod(p, 0o755)
        text += "cat > $D/gen/%s <<'EOF'\n%sEOF\n" % (n, body % '$GEN')
    text += 'export GEN; chmod +x $D/gen/*\n'
    a = ['-l', '-p', '-d', '-ve', '-vg', '-he', '-hg']
    args = [x for n, v in zip(a, opts) for x in (n, str(v))]
    text += 'python3 /repo/create.py -n 4 -g $D/gen %s $D/out > /dev/null; echo "create.py ends with status $?"\n' % ' '.join(args)
    r = build.run(['python3', os.path.join(build.REPO, 'create.py'), '-n', '4', '-g', g] + args + [out], check=False)
    shutil.rmtree(d)
    return r.returncode == 0, text
