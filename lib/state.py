"""Calls keep no state: the library's functions are executed with every object of static
storage and every input read-only; thread-local objects have unknown initial contents."""
import os, time, tempfile, subprocess, random, re
from fractions import Fraction
import z3
import irx, kern, harness, prove, replay, build, check, fork, kernels, memcheck, screening, shells, onee, boys, entry, terms as T

Watch = memcheck.Globals

def mutable(mods):
    """static objects of these modules that are not constant"""
    return sorted(n for m in mods for n, g in m.globals.items() if not g['ext'] and not g['const'])

# ----- replay

GUARD = r'''#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <ucontext.h>
/* memory of its own pages for every allocation, so that inputs can be write-protected */
static struct { char *p; size_t n; int live; } blk[4096]; static int nblk;
static void *pages(size_t n) { n = (n + 4096 + 4095) / 4096 * 4096; char *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED || nblk == 4096) abort(); blk[nblk].p = p; blk[nblk].n = n; blk[nblk++].live = 1; return p; }
int pg_memalign(void **p, size_t a, size_t n) { *p = pages(n); return 0; }
void *pg_malloc(size_t n) { return pages(n); }
void *pg_calloc(size_t n, size_t m) { return pages(n * m); }
void pg_free(void *p) { for (int i = 0; i < nblk; i++) if (blk[i].live && blk[i].p == p) { munmap(p, blk[i].n); blk[i].live = 0; return; } free(p); }
void prot(void) { for (int i = 0; i < nblk; i++) if (blk[i].live) mprotect(blk[i].p, blk[i].n, PROT_READ); }
int runX(void), runY(void);
#ifdef PROTECT
extern char __data_start, _end;
static void fault(int sig, siginfo_t *i, void *u) {
  static const char a[] = "write to shared memory (static object or input)\n", b[] = "invalid access\n";
  int w = i->si_code == SEGV_ACCERR && (((ucontext_t *)u)->uc_mcontext.gregs[REG_ERR] & 2);
  (void)!write(2, w ? a : b, w ? sizeof a - 1 : sizeof b - 1); _exit(w ? 77 : 78); }
static char stack[65536];
int main(void) {
  struct sigaction s; memset(&s, 0, sizeof s); s.sa_sigaction = fault; s.sa_flags = SA_SIGINFO;
  sigaction(SIGSEGV, &s, 0); PRELUDE
  char *lo = (char *)((size_t)&__data_start & ~4095ul), *hi = (char *)(((size_t)&_end + 4095) & ~4095ul);
  /* everything that belongs to this program, but for the tables of the allocator above */
  mprotect(lo, hi - lo, PROT_READ);
  size_t k = (size_t)&blk & ~4095ul, e = ((size_t)(&nblk + 1) + 4095) & ~4095ul;
  runX(); fflush(stdout); _exit(0); }
#else
int main(void) { PRELUDE
#ifdef YFIRST
  runY(); printf("----\n");
#endif
  runX(); printf("----\n"); runY(); printf("----\n"); runX(); fflush(stdout); _exit(0); }
#endif
'''.replace('static struct { char *p; size_t n; int live; } blk[4096]; static int nblk;', '''struct blocks { char *p; size_t n; int live; };
static struct blocks *blk; static int *cnt;
#define nblk (*cnt)
static void setup(void) { char *m = mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); cnt = (int *)m; blk = (struct blocks *)(m + 64); }''').replace('PRELUDE', 'setup(); INIT')
GUARD = re.sub(r'  size_t k = .*\n|static char stack.*\n|  /\* everything.*\n', '', GUARD)

ALLOC = ['-Dposix_memalign=pg_memalign', '-Dmalloc=pg_malloc', '-Dcalloc=pg_calloc', '-Dfree=pg_free']
DECL = '#include <stdlib.h>\n#include <string.h>\n#include <stdio.h>\n#include <stdint.h>\n#include <math.h>\nint pg_memalign(void **, size_t, size_t); void *pg_malloc(size_t); void *pg_calloc(size_t, size_t); void pg_free(void *); void prot(void);\n'

def native(lib, files, X, Y, init='', inc=(), yflags=()):
    """(text of what happened or None, program): X alone with everything shared protected;
    then X, Y, X in one program"""
    d = tempfile.mkdtemp(dir=build.scratch())
    w = lambda n, t: open(os.path.join(d, n), 'w').write(t)
    w('decl.h', '#pragma once\n' + DECL)
    w('x.c', X); w('y.c', Y)
    w('guard.c', GUARD.replace('INIT', init))
    fl = ['-O2', '-g', '-std=gnu11', '-w', '-fopenmp'] + ['-I' + i for i in inc] + ['-I' + lib.inc, '-I' + lib.src] + build.MFLAGS[lib.vec] + list(lib.extra)
    from concurrent.futures import ThreadPoolExecutor
    def comp(a):
        n, src, extra = a
        o = os.path.join(d, '%d.o' % n)
        build.run(['gcc'] + fl + ['-include', os.path.join(d, 'decl.h')] + ALLOC + extra + ['-c', src, '-o', o], timeout=600)
        return o
    todo = [(0, os.path.join(d, 'x.c'), ['-Dmain=runX']), (1, os.path.join(d, 'y.c'), ['-Dmain=runY'] + list(yflags))] + [(k + 2, f, []) for k, f in enumerate(dict.fromkeys(files))]
    with ThreadPoolExecutor(4) as tp:
        objs = list(tp.map(comp, todo))
    prog = '/* %s */\n#ifdef CALLS\n%s\n#else\n%s\n#endif\n' % ('write protection and calls: compile the two parts apart with -Dmain=runX and the library with %s, -Wl,-z,now' % ' '.join(ALLOC), X, GUARD.replace('INIT', init))
    first = None
    for mode in ('protect', 'xyx', 'yxyx'):
        exe = os.path.join(d, mode)
        g = os.path.join(d, mode + '.o')
        build.run(['gcc'] + fl + ({'protect': ['-DPROTECT'], 'yxyx': ['-DYFIRST']}.get(mode, [])) + ['-c', os.path.join(d, 'guard.c'), '-o', g])
        build.run(['gcc', '-fopenmp', '-Wl,-z,now', '-Wl,-z,relro', '-o', exe, g] + objs + ['-lm'])
        try:
            p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, preexec_fn=build.unlimit)
        except subprocess.TimeoutExpired:
            return 'the call does not return', prog
        if mode == 'protect':
            if p.returncode == 77:
                return p.stderr.decode(errors='replace').strip(), prog
        elif p.returncode == 0:
            o = p.stdout.decode().split('----\n')
            if mode == 'xyx':
                first = o[0]
            elif first is not None and len(o) == 4:
                o = [first, o[2], o[1]]     # the first call of a program, and the same call after another one
            if len(o) == 3 and o[0] != o[2]:
                a, b = [(x, y) for x, y in zip(o[0].split('\n'), o[2].split('\n')) if x != y][0]
                return 'the same call gives %s, and %s after another call' % (a, b), prog
    return None, prog

def judge(res, text, r, prog):
    if r:
        res.update(status='violated', detail='%s; replayed: %s' % (text, r), replay=prog)
    else:
        res.update(status='inconclusive', detail=text + '; not reproduced')

def shared(e):
    """is this fault one of this property?"""
    return e.kind in ('readonly', 'uninit')

# ----- two-electron kernels

def kernel(lib, q, deriv, bra, ket, bc, kc, screen, seed, deadline):
    st = prove.Stats()
    fn = kern.kname(q, deriv)
    res = dict(status='held', detail='', paths=0, functions=set(), tls=0)
    mods = lib.link([lib.index()[fn]], stop=('boys_F_split',))
    exr = fork.Explorer(screening.hyps(bra, ket) if screen else [], st, maxpaths=300, deadline=deadline)
    def run(decide):
        r = harness.setup(lib, q, deriv, bra, ket, bc, kc, screen=screen, mods=mods)
        r.ex.decider = decide
        r.watch = Watch(r.ex)
        # unrelated to this property: what work and output held before
        for o in (r.work, r.out):
            o.default = lambda off: T.ZERO
        try:
            harness.execute(r, fn)
        except irx.Fault as e:
            return r, e
        return r, None
    try:
        for (r, fault), path, s in exr.explore(run):
            res['paths'] += 1
            res['functions'].update(k if isinstance(k, str) else k[-1] for k in r.ex.calls)
            res['tls'] += len(r.watch.tls)
            bad = None
            if fault is not None:
                if fault.kind == 'readonly' or (fault.kind == 'uninit' and r.watch.tls):
                    bad = str(fault)
                else:
                    res.update(status='inconclusive', detail='fault: %s' % fault)
            elif r.watch.tls:
                for n in memcheck.undefs(r.res):
                    a = memcheck.differs(n, s, st)
                    if a != 'unsat':
                        bad = 'an output depends on what thread-local memory held before'
                        break
            if bad:
                m = screening.model(s) if screen else {}
                tx = []
                for k in (0, 1):
                    v = replay.geometry(seed + k, bra, ket)
                    scr, tol = None, 0.0
                    if screen:
                        scr = {}
                        for sd, n in (('P', sum(bra)), ('Q', sum(ket))):
                            for i in range(n):
                                scr['S%s@%d' % (sd, i)] = m.get('S%s@%d' % (sd, i), Fraction(0))
                            scr['S%smax' % sd] = m.get('S%smax' % sd, max([scr['S%s@%d' % (sd, i)] for i in range(n)]))
                        tol = m.get('tol', Fraction(0))
                    t = replay.driver(lib, fn, q, deriv, bra, ket, r.bc, r.kc, v, None, tol=tol, screens=scr)
                    tx.append(t.replace('size_t nw =', 'prot(); size_t nw ='))
                import kcheck
                judge(res, bad, *native(lib, kcheck.replay_files(lib, [m_.name for m_ in mods]), tx[0], tx[1]))
                break
    except irx.Unsupported as e:
        res.update(status='inconclusive', detail='not encoded: %s' % e)
    except fork.TooManyPaths as e:
        res.update(status='inconclusive', detail=str(e))
    res['stats'] = st.as_dict()
    res['functions'] = sorted(res['functions'])
    return res

def kernel_all(lib, q, d, some, every, seed, dl):
    own = mutable([lib.module(lib.index()[kern.kname(q, d)])])
    tot = None
    for bra, ket, bc, kc, scr in every if own else some:
        r = kernel(lib, q, d, bra, ket, bc, kc, scr, seed, min(dl, time.time() + 300))
        if r['status'] != 'held':
            r['detail'] = 'bra=%s ket=%s clip=%s,%s%s: %s' % (bra, ket, bc, kc, ' screened' if scr else '', r['detail'])
        if tot is None:
            tot = r
        else:
            for k in ('paths', 'tls'):
                tot[k] += r[k]
            for k in r['stats']:
                if isinstance(r['stats'][k], (int, float)):
                    tot['stats'][k] += r['stats'][k]
            if tot['status'] == 'held' or r['status'] == 'violated':
                for k in ('status', 'detail', 'replay'):
                    if k in r:
                        tot[k] = r[k]
        if tot['status'] == 'violated':
            break
    tot['shapes'] = len(every if own else some)
    return tot

# ----- shells and shell pairs

def pairs(lib, sc, seed, deadline):
    st = prove.Stats()
    lib.wm = memcheck.workmem(lib)
    mods = shells.modules(lib)
    res = dict(status='held', detail='', paths=0, functions=set(), tls=0)
    exr = shells.Ex([], st, maxpaths=3000, deadline=deadline)
    def run(decide):
        m = shells.Machine(lib, mods, decide)
        m.watch = Watch(m.ex)
        shl = m.shells
        def made(sh, tag=''):
            p = shl(sh, tag)
            # the shells are inputs from here on
            sz = lib.off[('SHELL', 'size')]
            m.ex.find(p)[0].ro = True
            for k in range(len(sh)):
                a = m.ptr(p + sz * k, 'ptr', 'SHELL')
                if a.__class__ is int and a:
                    m.ex.find(a)[0].ro = True
            return p
        m.shells = made
        try:
            P = m.run(sc)
            rd = shells.Read(m, P, sc)
            return m, rd, None
        except irx.Fault as e:
            return m, None, e
    try:
        for (m, rd, fault), path, s in exr.explore(run):
            res['paths'] += 1
            res['functions'].update(k if isinstance(k, str) else k[-1] for k in m.ex.calls)
            res['tls'] += len(m.watch.tls)
            bad = None
            if fault is not None:
                if fault.kind == 'readonly' or (fault.kind == 'uninit' and m.watch.tls):
                    bad = str(fault)
                else:
                    res.update(status='inconclusive', detail='fault: %s' % fault)
            elif m.watch.tls:
                rs = [x for x in values(rd) if isinstance(x, T.N)]
                if memcheck.undefs(rs):
                    bad = 'shell pairs depend on what thread-local memory held before'
            if bad:
                judge(res, bad, *pairreplay(lib, mods, sc, s, seed))
                break
    except irx.Unsupported as e:
        res.update(status='inconclusive', detail='not encoded: %s' % e)
    except fork.TooManyPaths as e:
        res.update(status='inconclusive', detail=str(e))
    res['stats'] = st.as_dict()
    res['functions'] = sorted(res['functions'])
    return res

def values(rd):
    for v in vars(rd).values():
        if isinstance(v, T.N):
            yield v
        elif isinstance(v, dict):
            for x in v.values():
                for y in (x if isinstance(x, (list, tuple)) else [x]):
                    yield y
        elif isinstance(v, (list, tuple)):
            for y in v:
                yield y

def pairreplay(lib, mods, sc, s, seed):
    m = screening.model(s)
    tx = []
    for k in (0, 1):
        rnd = random.Random(seed + 5 * k)
        vals = {}
        def v(n):
            if n not in vals:
                if k == 0 and n in m and (n[0] != 'a' or m[n] > 0):
                    vals[n] = m[n]
                else:
                    vals[n] = Fraction(rnd.randrange(16, 256), 64) if n[0] == 'a' else Fraction(rnd.randrange(-128, 128) or 3, 64)
            return vals[n]
        t = shells.cdriver(lib, sc, v, [])
        # structures on the stack are the callers' own; the shells' memory is protected
        tx.append(t.replace('struct simint_multi_shellpair P;', 'prot(); struct simint_multi_shellpair P;'))
    return native(lib, [x.name for x in mods], tx[0], tx[1], yflags=['-Dsimint_compute_eri=eri_y'])

# ----- one-electron integrals

def one(lib, kind, shl, ncen, seed):
    st = prove.Stats()
    res = dict(status='held', detail='', paths=1, functions=set(), tls=0)
    w = []
    fault = None
    try:
        r = onee.Run(lib, kind, shl, ncen, prep=lambda ex: w.append(Watch(ex)))
        res['functions'].update(k if isinstance(k, str) else k[-1] for k in r.ex.calls)
    except irx.Fault as e:
        fault = e
    except irx.Unsupported as e:
        res.update(status='inconclusive', detail='not encoded: %s' % e)
        fault = 0
    tls = w and w[0].tls
    res['tls'] = len(tls or ())
    bad = None
    if fault:
        if fault.kind == 'readonly' or (fault.kind == 'uninit' and tls):
            bad = str(fault)
        else:
            res.update(status='inconclusive', detail='fault: %s' % fault)
    elif fault is None and tls and memcheck.undefs(r.res):
        bad = 'an output depends on what thread-local memory held before'
    if bad:
        tx = []
        for k in (0, 1):
            rnd = random.Random(seed * 77 + k)
            vals = {}
            tx.append(onee.program(kind, shl, ncen, lambda n, lo, hi: vals.setdefault(n, Fraction(rnd.randrange(lo, hi), 64)))[1].replace('double *out =', 'prot(); double *out ='))
        tx = [re.sub(r'double (a\d|c\d|Z|C[xyz])\[\] =', r'static const double \1[] =', t) for t in tx]
        judge(res, bad, *native(lib, [m.name for m in onee.modules(lib, kind)] + ([lib.path('boys/boys_shortgrid.c')] if kind == 'potential' else []), tx[0], tx[1]))
    res['stats'] = st.as_dict()
    res['functions'] = sorted(res['functions'])
    return res

# ----- functions on shells

def shellops(lib, a, b, seed):
    """copy, normalisation, zero shells and release of shells (am, primitives)"""
    st = prove.Stats()
    lib.wm = memcheck.workmem(lib)
    mods = shells.modules(lib)
    res = dict(status='held', detail='', paths=0, functions=set(), tls=0)
    sz = lib.off[('SHELL', 'size')]
    exr = shells.Ex([], st, maxpaths=400)
    def run(decide):
        m = shells.Machine(lib, mods, decide)
        ex = m.ex
        m.watch = Watch(ex)
        rs = []
        try:
            p = m.shells([a, b])
            o = ex.new(3 * sz, 16, 'more shells')
            o.uni8 = False
            q = ex.addr(o)
            ex.call('simint_initialize_shells', 3, q)
            mem = [ex.find(m.ptr(p + sz * k, 'ptr', 'SHELL'))[0] for k in (0, 1)]
            for x in mem + [ex.find(p)[0]]:
                x.ro = True
            for k in (0, 1):
                ex.call('simint_copy_shell', p + sz * k, q + sz * k)
            ex.call('simint_normalize_shells', 2, q)
            ex.call('simint_create_zero_shell', q + 2 * sz)
            for k, n in ((0, a[1]), (1, b[1])):
                rs += [ex.rd(m.ptr(q + sz * k, 'coef', 'SHELL'), i) for i in range(n)] + [ex.rd(m.ptr(q + sz * k, 'alpha', 'SHELL'), i) for i in range(n)]
            for x in mem + [ex.find(p)[0]]:
                x.ro = False
            ex.call('simint_free_shells', 3, q)
            ex.call('simint_free_shells', 2, p)
            return m, rs, None
        except irx.Fault as e:
            return m, None, e
    try:
        for (m, rs, fault), path, s in exr.explore(run):
            res['paths'] += 1
            res['functions'].update(k if isinstance(k, str) else k[-1] for k in m.ex.calls)
            res['tls'] += len(m.watch.tls)
            bad = None
            if fault is not None:
                if fault.kind == 'readonly' or (fault.kind == 'uninit' and m.watch.tls):
                    bad = str(fault)
                else:
                    res.update(status='inconclusive', detail='fault: %s' % fault)
            elif m.watch.tls and memcheck.undefs(rs):
                bad = 'a shell depends on what thread-local memory held before'
            if bad:
                tx = []
                for k in (0, 1):
                    rnd = random.Random(seed + k)
                    N = lambda lo: ', '.join('%r' % (rnd.randrange(lo, 128) / 64.0) for _ in range(max(a[1], b[1])))
                    tx.append('''#include <stdio.h>
#include <stdlib.h>
#include "simint/shell/shell.h"
int main(void) { static const double al[] = {%s}, co[] = {%s}; struct simint_shell p[2], q[3]; simint_initialize_shells(2, p); simint_initialize_shells(3, q);
  simint_create_shell(%d, %d, 0.1, 0.2, 0.3, (double *)al, (double *)co, p); simint_create_shell(%d, %d, 0.4, 0.2, 0.1, (double *)al, (double *)co, p + 1); prot();
  for (int k = 0; k < 2; k++) simint_copy_shell(p + k, q + k);
  simint_normalize_shells(2, q); simint_create_zero_shell(q + 2);
  for (int k = 0; k < 2; k++) for (int i = 0; i < q[k].nprim; i++) printf("%%.17g %%.17g\\n", q[k].alpha[i], q[k].coef[i]);
  simint_free_shells(3, q); simint_free_shells(2, p); return 0; }
'''.replace('%%', '%').replace('%.17g', '%%.17g') % (N(16), N(-128), a[1], a[0], b[1], b[0]))
                judge(res, bad, *native(lib, [x.name for x in mods] + kernelfiles(lib), tx[0], tx[1]))
                break
    except irx.Unsupported as e:
        res.update(status='inconclusive', detail='not encoded: %s' % e)
    except fork.TooManyPaths as e:
        res.update(status='inconclusive', detail=str(e))
    res['stats'] = st.as_dict()
    res['functions'] = sorted(res['functions'])
    return res

def kernelfiles(lib):
    """what the shell functions refer to beyond themselves"""
    have = {m.name for m in shells.modules(lib)}
    return [f for f in lib.libfiles() if f not in have]

# ----- entry points with symbolic requests

def request(lib, maxam, maxder, fn):
    st = prove.Stats()
    res = dict(status='held', detail='', paths=1, functions=set(), tls=0)
    mods, inc = entry.modules(lib, maxam, maxder)
    off = build.offsets(lib.src, lib.vec, inc[1])
    s = z3.Solver()
    s.set('timeout', 60000)
    d, a, b, e, f = [z3.BitVec(n, 64) for n in ('deriv', 'l1', 'l2', 'l3', 'l4')]
    s.add(z3.ULE(d, maxder if 'deriv' in fn else 0))
    for x in (a, b, e, f):
        s.add(z3.ULE(x, maxam))
    S = lambda x: irx.SymInt(x, s)
    ex = irx.Exec(mods, intercept=entry.Kernels(lambda *x: 7))
    ex.env['symcall'] = lambda ex, p, args: 7
    w = None
    try:
        ex.call('simint_init')
        w = Watch(ex)
        def msp(x, y, nm):
            p = lib.msp(ex, nprim=1, nshell12=1, nshell12_clip=1, screen_max=T.var(nm))
            o, z = ex.find(p)
            o.cells[z + off[('MSP', 'am1')]] = (4, S(x))
            o.cells[z + off[('MSP', 'am2')]] = (4, S(y))
            o.ro = True
            return p
        P, Q = msp(a, b, 'SPmax'), msp(e, f, 'SQmax')
        k, o = ex.new(64, 64, 'work'), ex.new(64, 64, 'out')
        ex.call(fn, *(([S(d)] if 'deriv' in fn else []) + [P, Q, T.ZERO, ex.addr(k), ex.addr(o)]))
    except irx.Fault as x:
        if w is not None and (x.kind == 'readonly' or (x.kind == 'uninit' and w.tls)):
            X, Y = reqprog(fn, maxder, (1, 0, 1, 1), 1e-12, 0.1), reqprog(fn, maxder, (0, 0, 1, 0), 1e6, 3.0)
            judge(res, str(x), *native(lib, lib.libfiles(), X, Y, init='simint_init();'))
        else:
            res.update(status='inconclusive', detail='fault: %s' % x)
    except irx.Unsupported as x:
        res.update(status='inconclusive', detail='not encoded: %s' % x)
    res['functions'] = sorted(k if isinstance(k, str) else k[-1] for k in ex.calls)
    res['tls'] = len(w.tls) if w else 0
    res['stats'] = st.as_dict()
    return res

def reqprog(fn, d, q, tol, dist):
    return '''#include <stdio.h>
#include <stdlib.h>
#include "simint/simint.h"
int main(void) {
  struct simint_shell s[4]; struct simint_multi_shellpair P, Q; static const double a = 1.0, c = 1.0; static const int l[4] = {%d, %d, %d, %d};
  simint_initialize_shells(4, s); simint_initialize_multi_shellpair(&P); simint_initialize_multi_shellpair(&Q);
  for (int i = 0; i < 4; i++) simint_create_shell(1, l[i], %g * i, 0.2 * i, 0.3, (double *)&a, (double *)&c, s + i);
  simint_create_multi_shellpair(1, s, 1, s + 1, &P, 2); simint_create_multi_shellpair(1, s + 2, 1, s + 3, &Q, 2); prot();
  double *w = malloc(simint_ostei_workmem(%d, 1)), *o = malloc(12 * 20000 * 8); memset(o, 0, 12 * 20000 * 8);
  int r = %s(%s&P, &Q, %g, w, o); printf("%%d\\n", r); for (int i = 0; i < 9; i++) printf("%%.17g\\n", o[i]); return 0; }
''' % (tuple(q) + (dist, d, fn, '%d, ' % d if 'deriv' in fn else '', tol))

# ----- driver

def timed(f):
    t = time.time()
    r = f()
    r['wall'] = time.time() - t
    return r

def run_jobs(c, jobs, budget, procs=8):
    """jobs: (tag, function of the seed and a deadline, weight)"""
    tot = dict(runs=0, held=0, inconclusive=0, paths=0, thread_local_objects=0, queries=0, solver_s=0.0)
    fs = set()
    for j, s, r in check.tasks(sorted(jobs, key=lambda j: -j[2]), lambda j: timed(j[1]), jobs=procs, deadline=time.time() + budget, memgb=10):
        tot['runs'] += 1
        if s != 'ok':
            tot['inconclusive'] += 1
            c.inc('%s: %s %s' % (j[0], s, r))
            continue
        if os.environ.get('VERIF_TIMES'):
            c.log('%.1f s' % r['wall'], j[0])
        tot['paths'] += r['paths']; tot['thread_local_objects'] += r['tls']
        tot['queries'] += r['stats']['queries']; tot['solver_s'] += r['stats']['time']
        fs.update(r['functions'])
        if r['status'] == 'violated':
            c.violation('state:' + j[0].replace(' ', '_'), '%s: %s' % (j[0], r['detail']), r['replay'], 'c')
        else:
            tot[r['status']] += 1
            if r['status'] != 'held':
                c.inc('%s: %s' % (j[0], r['detail']))
    tot['solver_s'] = round(tot['solver_s'], 2)
    return dict(tot, functions_encoded=len(fs), functions=sorted(fs)[:400])
