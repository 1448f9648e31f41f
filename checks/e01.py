"""E01: requests reach the matching kernel; reported workspace sizes."""
import os, sys, time, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import z3
import check, build, kern, irx, entry, terms as T

WRAP = '''#include "simint/simint.h"
size_t v_worksize(int d, int l) { return simint_ostei_worksize(d, l); }
size_t v_workmem(int d, int l) { return simint_ostei_workmem(d, l); }
size_t v_eri_worksize(int d, int l) { return simint_eri_worksize(d, l); }
size_t v_eri_workmem(int d, int l) { return simint_eri_workmem(d, l); }
'''

def replay(lib, d, q, maxam):
    return '''/* library generated and configured with maximum angular momentum %d; request order %d, angular momenta %s */
#include <stdio.h>
#include <stdlib.h>
#include "simint/simint.h"
int main(void) {
  struct simint_shell s[4]; struct simint_multi_shellpair P, Q; double a = 1.0, c = 1.0; int l[4] = {%d, %d, %d, %d};
  simint_init(); simint_initialize_shells(4, s); simint_initialize_multi_shellpair(&P); simint_initialize_multi_shellpair(&Q);
  for (int i = 0; i < 4; i++) simint_create_shell(1, l[i], 0.1 * i, 0.2 * i, 0.3, &a, &c, s + i);
  simint_create_multi_shellpair(1, s, 1, s + 1, &P, 0); simint_create_multi_shellpair(1, s + 2, 1, s + 3, &Q, 0);
  double *w = malloc(simint_eri_workmem(%d, %d)), *o = malloc(12 * 20000 * 8);
  printf("%%d\\n", simint_compute_eri_deriv(%d, &P, &Q, 0.0, w, o)); return 0; }
''' % ((maxam, d, q) + tuple(q) + (d, maxam, d))

def request(c, lib, maxam, maxder, fn, stats):
    """a symbolic request (order and four angular momenta) after simint_init"""
    tag = '%s/maxam=%d,maxder=%d/%s' % (lib.vec, maxam, maxder, fn)
    mods, inc = entry.modules(lib, maxam, maxder)
    off = build.offsets(lib.src, lib.vec, inc[1])
    s = z3.Solver()
    s.set('timeout', 120000)
    d, a, b, e, f = [z3.BitVec(n, 64) for n in ('deriv', 'l1', 'l2', 'l3', 'l4')]
    s.add(z3.ULE(d, maxder if 'deriv' in fn else 0))
    for x in (a, b, e, f):
        s.add(z3.ULE(x, maxam))
    S = lambda x: irx.SymInt(x, s)
    rec = []
    ex = irx.Exec(mods, intercept=entry.Kernels(lambda *x: 7))
    twice = not fn.endswith('deriv')
    bad = None
    try:
        ex.call('simint_init')
        if twice:
            ex.call('simint_init')
        ids = {}
        for m in mods:
            for n in m.funcs:
                k = entry.kid(n[1:])
                if k is not None:
                    ids[k] = ex.gptr(m, n)
        def symcall(ex, p, args):
            rec.append((p, args))
            return 7
        ex.env['symcall'] = symcall
        def msp(x, y, nm):
            p = lib.msp(ex, nprim=1, nshell12=1, nshell12_clip=1, screen_max=T.var(nm))
            o, z = ex.find(p)
            o.cells[z + off[('MSP', 'am1')]] = (4, S(x))
            o.cells[z + off[('MSP', 'am2')]] = (4, S(y))
            return p
        P, Q = msp(a, b, 'SPmax'), msp(e, f, 'SQmax')
        w, o = ex.new(64, 64, 'work'), ex.new(64, 64, 'out')
        r = ex.call(fn, *(([S(d)] if 'deriv' in fn else []) + [P, Q, T.ZERO, ex.addr(w), ex.addr(o)]))
        def amof(p):
            return [ex.load(p + off[('MSP', x)], irx.I32) for x in ('am1', 'am2')]
        if len(rec) != 1:
            bad = 'not exactly one call of a kernel'
        elif r != 7:
            bad = 'the result of the kernel is not returned'
        elif rec[0][1][3:] != [ex.addr(w), ex.addr(o)]:
            bad = 'work array and output are not passed on'
    except irx.Fault as x:
        bad = str(x)
    except irx.Unsupported as x:
        c.inc('%s: not encoded: %s' % (tag, x))
        return
    qs = 1
    m = None
    t = time.time()
    if bad is None:
        # the structures that the kernel is given
        for args, want in ((rec[0][1][0], (a, b)), (rec[0][1][1], (e, f))):
            g = amof(args)
            for x, y in zip(g, want):
                s.push()
                s.add((x.z if isinstance(x, irx.SymInt) else z3.BitVecVal(x, 64)) != y)
                if s.check() != z3.unsat:
                    bad = 'the kernel is given other shell pairs'
                s.pop()
                qs += 1
        # the solver looks for a request that reaches another kernel
        key = lambda k: (((k[0] * 8 + k[1]) * 8 + k[2]) * 8 + k[3]) * 8 + k[4]
        idx = (((d * 8 + a) * 8 + b) * 8 + e) * 8 + f
        # addresses of kernels renamed to the request each is for; any other address is left
        V = lambda x: z3.BitVecVal(x, 64)
        got = z3.substitute(rec[0][0].z, *[(V(ids[k]), V(key(k))) for k in sorted(ids)])
        q = z3.Then('simplify', 'solve-eqs', 'bit-blast', 'sat').solver()
        q.set('timeout', 200000)
        q.add(*s.assertions())
        q.add(got != idx)
        r = q.check()
        if r == z3.sat:
            m = q.model()
            bad = 'another kernel is called'
        elif r == z3.unknown:
            c.inc('%s: solver gave up' % tag)
        # vacuity: some request reaches the kernel of the largest angular momenta
        if bad is None and s.check(a == maxam, b == maxam, e == maxam, f == maxam, d == 0, got == key((0,) + (maxam,) * 4)) != z3.sat:
            c.inc('%s: no witness' % tag)
        qs += 2
    stats['requests'] += 1
    stats['queries'] += qs
    stats['solver_s'] += time.time() - t
    stats['table_entries'] = stats.get('table_entries', 0) + len(ids if bad is None else ())
    stats['functions'].update(ex.calls)
    if bad:
        v = lambda x: 0 if m is None else m.eval(x, model_completion=True).as_long()
        q = tuple(v(x) for x in (a, b, e, f))
        c.violation('dispatch:%s' % tag, '%s: %s (request: order %d, angular momenta %s)' % (tag, bad, v(d), q), replay(lib, v(d), q, maxam), 'c')

def sizes(c, src, vec, l, d, stats):
    """the reported sizes for every order and angular momentum: the header's function,
    the library's functions and bytes = 8 * doubles agree, no entry is missing, and a
    size is not below that of a smaller angular momentum"""
    lib = kern.Lib(src, vec)
    for maxder in range(d + 1):
        maxam = l
        mods, inc = entry.modules(lib, maxam, maxder, WRAP)
        s = z3.Solver()
        s.set('timeout', 60000)
        dv, a, b = z3.BitVec('order', 64), z3.BitVec('maxam', 64), z3.BitVec('maxam2', 64)
        s.add(z3.ULE(dv, maxder), z3.ULE(a, maxam), z3.ULE(b, maxam))
        tag = 'worksize:%s-l%d-d%d/%s/maxder=%d' % (os.path.basename(src), l, d, vec, maxder)
        try:
            ex = irx.Exec(mods)
            f = {}
            for n in ('v_worksize', 'v_workmem', 'v_eri_worksize', 'v_eri_workmem'):
                f[n] = lambda x, n=n: ex.call(n, irx.SymInt(dv, s), irx.SymInt(x, s)).z
            ws, wm, es, em = [f[n](a) for n in ('v_worksize', 'v_workmem', 'v_eri_worksize', 'v_eri_workmem')]
            ws2 = f['v_worksize'](b)
        except irx.Fault as x:
            c.violation(tag, '%s: %s' % (tag, x), '#include "simint/simint.h"\n/* %s */\n' % x, 'c')
            continue
        except irx.Unsupported as x:
            c.inc('%s: not encoded: %s' % (tag, x))
            continue
        t = time.time()
        for what, g in (('simint_ostei_workmem is not 8 times simint_ostei_worksize', wm == 8 * ws), ('simint_eri_worksize differs from simint_ostei_worksize', es == ws), ('simint_eri_workmem differs from simint_ostei_workmem', em == wm),
                        ('the size shrinks for a larger angular momentum', z3.Implies(z3.ULT(a, b), z3.ULT(ws, ws2))), ('size zero', ws != 0)):
            r = s.check(z3.Not(g))
            stats['queries'] += 1
            if r == z3.sat:
                m = s.model()
                dd, aa = [m.eval(x, model_completion=True).as_long() for x in (dv, a)]
                c.violation(tag, '%s: %s (order %d, angular momentum %d)' % (tag, what, dd, aa), '#include <stdio.h>\n#include "simint/simint.h"\n/* %s */\nint main(void) { printf("%%zu %%zu %%zu %%zu\\n", simint_ostei_worksize(%d, %d), simint_ostei_workmem(%d, %d), simint_eri_worksize(%d, %d), simint_eri_workmem(%d, %d)); return 0; }\n' % ((what,) + (dd, aa) * 4), 'c')
            elif r == z3.unknown:
                c.inc('%s: solver gave up' % tag)
        stats['solver_s'] += time.time() - t
        stats['sizes'] += 1

def body(c):
    stats = dict(requests=0, sizes=0, queries=0, solver_s=0.0, functions=set())
    src = build.source(1, 1, 1)
    src3 = build.source(3, 2, 1)
    lib = kern.Lib(src, 'scalar')
    cfgs = [(7, 1), (3, 1), (0, 0), (5, 0), (1, 1)] if not c.thorough else [(m, d) for m in range(8) for d in (0, 1)]
    for maxam, maxder in cfgs:
        for fn in ('simint_compute_eri_deriv', 'simint_compute_eri') + (('simint_compute_ostei_deriv', 'simint_compute_ostei') if maxam <= 3 else ()):
            request(c, lib, maxam, maxder, fn, stats)
            c.log(fn, maxam, maxder)
    for vec in ('scalar', 'sse', 'avx2', 'commonavx512') + (('avx', 'micavx512') if c.thorough else ()):
        sizes(c, src, vec, 1, 1, stats)
        sizes(c, src3, vec, 3, 1, stats)
    stats['functions'] = sorted(stats['functions'])
    stats['solver_s'] = round(stats['solver_s'], 2)
    c.coverage.update(stats)
    c.coverage['bounds'] = 'all requests (order and four angular momenta symbolic) for the configured maxima %s of the 8 x 2 that the skeleton supports; sizes for packages generated with maximum 1 and 3' % cfgs
    c.assumptions += ['kernels are named after their angular momenta; what a kernel computes is decided by A01 and A02', 'that the reported size suffices is decided by A07']
check.main('E01', body)
