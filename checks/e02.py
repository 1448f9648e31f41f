"""E02: integral calls share no hidden state."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, kern, kernels, harness, state, shells, boys, irx, terms as T
from shells import Scenario

def body(c):
    th = c.thorough
    jobs = []
    dl = time.time() + c.left() - 60
    def add(tag, w, fn, *a):
        jobs.append((tag, lambda: fn(*a), w))
    cfgs = [('general', build.source(2, 2, 1), ('sse', 'commonavx512')), ('inline', build.source(2, 2, 1, ve=20, vg=20, he=20, hg=20), ('avx2',)), ('external', build.source(2, 2, 1, ve=0, vg=5, he=0, hg=20), ('scalar',))]
    if th:
        cfgs += [('general-l3', build.source(3, 3, 1), ('sse', 'avx2', 'scalar')), ('mixed', build.source(3, 2, 1, ve=2, vg=3, he=1, hg=2), ('avx', 'micavx512'))]
    for cfg, src, vecs in cfgs:
        L = 3 if 'l3' in cfg or cfg == 'mixed' else 2
        for nv, vec in enumerate(vecs):
            lib = kern.Lib(src, vec)
            lib.index()
            W, NS = lib.W, lib.NS
            for n, q in enumerate(kernels.quartets(L)):
                for d in (0, 1):
                    if not th and (nv and n % 7 or cfg != 'general' and d and harness.nout(q, d) > 1500 and (n + len(cfg)) % 3):
                        continue
                    small = [((1,), (1,), None, None, False)]
                    big = [((1, 2), (2,) + (1,) * NS, None, None, False), ((1, 2), (2, 1), 1, 2, False)]
                    scr = [((1,), (1, min(W, 4)), None, None, True)]
                    shapes = small + (big if th or n % 9 == 0 and harness.nout(q, d) < 2000 else []) + (scr if max(q) == min(q) == 0 or n % 16 == 1 and harness.nout(q, d) < 400 else [])
                    # a kernel whose module has static objects of its own is run in all these ways
                    add('%s/%s %s' % (cfg, kern.kname(q, d), vec), kernels.weight(q, d, (1,), (1,)) * (1 + 9 * (shapes != small)), state.kernel_all, lib, q, d, shapes, small + big + scr, c.seed, dl)
    src = cfgs[0][1]
    vecs = ('scalar', 'sse', 'avx2') + (('commonavx512', 'avx', 'micavx512') if th else ())
    for tag, lib in shells.libs(src, vecs) + shells.libs(src, ('sse',), (0,)):
        shells.modules(lib)
        W, NS = lib.W, lib.NS
        sc = [Scenario([(2, 2), (1, 2)], [[(0, 1)]]), Scenario([(1, 2), (0, 1)], [[(0, 1)] * (NS + 1)]), Scenario([(1, 2), (1, 2)], [[(0, 1), (0, 0)]]),
              Scenario([(1, 1), (1, 2)], [[(0, 1), (0, 0)]], method=2), Scenario([(1, 1), (1, 2)], [[(0, 1)]], method=1), Scenario([(0, 2), (0, 1)], [[(0, 1), (1, 0)]], method=2),
              Scenario([(1, 2), (0, 1)], [[(0, 1)], [(0, 1), (0, 1)]], cat='multi'), Scenario([(1, 2), (0, 1)], [[(0, 1)], [(0, 1)]], cat='single'), Scenario([(1, 1), (1, 2)], [[(0, 1)], [(1, 0)]], cat='multi', method=2),
              Scenario([(2, 1), (2, 2)], [[(0, 0), (0, 1)]], how='product'), Scenario([(1, 2), (1, 1)], [[(0, 1), (0, 0), (1, 0)]], before=[([(0, 0)] * (NS + 1), 0), ([(0, 1)], 2)])]
        for x in sc:
            add('pairs %s %s' % (tag, x.name()), 300, state.pairs, lib, x, c.seed, min(dl, time.time() + 400))
        for a, b in (((0, 1), (1, 2)), ((3, 3), (7, 1)), ((2, 4), (12, 2))):
            add('shells %s %s %s' % (tag, a, b), 100, state.shellops, lib, a, b, c.seed)
    for nv, vec in enumerate(('sse', 'avx2', 'scalar')):
        lib = kern.Lib(src, vec)
        for kind in ('overlap', 'ke', 'potential'):
            state.onee.modules(lib, kind)
            for l1 in range(4):
                for l2 in range(4):
                    if (l1 + l2 + nv) % 2 == 0 or th:
                        n = [(1, 1), (2, 1), (1, 2), (2, 3)][(l1 + 3 * l2 + nv) % 4] if l1 + l2 < 5 else (1, 1)
                        add('%s %s shells %s %s' % (kind, vec, (l1, n[0]), (l2, n[1])), 200 * (l1 + l2 + 1), state.one, lib, kind, [(l1, n[0]), (l2, n[1])], 1 + (l1 + nv) % 2, c.seed)
    src1 = build.source(1, 1, 1)
    lib = kern.Lib(src1, 'scalar')
    for maxam, maxder in [(1, 1), (1, 0), (3, 1)] + ([(7, 1), (5, 0)] if th else []):
        for fn in ('simint_compute_eri_deriv', 'simint_compute_eri') + (('simint_compute_ostei_deriv', 'simint_compute_ostei') if maxam <= 1 else ()):
            add('request %s maxam=%d maxder=%d' % (fn, maxam, maxder), 3000, state.request, lib, maxam, maxder, fn)
    cov = state.run_jobs(c, jobs, c.left() - 200)
    b = boys.run_orders(c, boys.libs(src1, ('scalar', 'sse') + (('avx2', 'commonavx512') if th else ())), range(0, boys.MAXREQ + 1, 1 if th else 5), 'E02', c.left() - 60)
    cov['boys'] = dict((k, b[k]) for k in ('orders', 'paths', 'queries'))
    cov['queries'] += b['queries']
    cov['functions'] = sorted(set(cov['functions']) | set(b['functions']))
    c.coverage.update(cov)
    # vacuity: a write to a static object and thread-local memory are noticed
    p = os.path.join(build.scratch(), 'vac.c')
    open(p, 'w').write('double a[2]; static double s[2]; static _Thread_local double t[2]; void f(double x) { s[0] = x; a[0] = s[0]; } double g(double x, double *o) { t[1] = x; *o = t[0] + t[1]; return 0; }\n')
    lib = kern.Lib(src1, 'scalar')
    m = irx.Module(lib.text(p), p)
    ex = irx.Exec([m]); state.Watch(ex)
    ok = False
    try:
        ex.call('f', T.var('x'))
    except irx.Fault as e:
        ok = e.kind == 'readonly'
    ex = irx.Exec([m]); w = state.Watch(ex)
    o = ex.new(8, 8, 'o')
    ex.call('g', T.var('x'), ex.addr(o))
    ok = ok and w.tls and state.memcheck.undefs([ex.rd(ex.addr(o), 0)])
    if not ok:
        c.inc('vacuity: a write to a static object was not noticed')
    c.coverage['vacuity'] = 'a write to a static object and a read of thread-local memory are noticed'
    c.coverage['bounds'] = 'angular momenta up to %d; up to NSHELL_SIMD+1 shell pairs; all outcomes of comparisons of data; requests symbolic up to the configured maximum' % (3 if th else 2)
    c.assumptions += ['non-interference: a call that writes only its stack, fresh memory, its workspace and its output, and reads nothing else that calls write, gives the same result under every schedule', 'initialisation (simint_init) is finished before', 'malloc, free and the functions of libm are thread-safe']
check.main('E02', body)
