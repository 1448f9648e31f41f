"""A07: kernels stay within workspace and output, inputs are not modified."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, kern, kernels, memcheck, harness, irx

def body(c):
    th = c.thorough
    jobs = []
    cfgs = [('general', build.source(2, 2, 1), ('sse', 'commonavx512', 'scalar', 'avx2')), ('inline', build.source(2, 2, 1, ve=20, vg=20, he=20, hg=20), ('avx2', 'scalar')),
            ('external', build.source(2, 2, 1, ve=0, vg=5, he=0, hg=20), ('scalar', 'sse')), ('arm', build.source(2, 2, 1), ('asimd', 'sve'))]
    if th:
        cfgs.append(('general-l3', build.source(3, 3, 1), ('sse', 'avx2', 'scalar')))
        cfgs.append(('mixed', build.source(3, 2, 1, ve=2, vg=3, he=1, hg=2), ('avx', 'micavx512')))
    for cfg, src, vecs in cfgs:
        L = 3 if 'l3' in cfg or cfg == 'mixed' else 2
        for nv, vec in enumerate(vecs):
            lib = kern.Lib(src, vec)
            W, NS = lib.W, lib.NS
            first = nv == 0
            for n, q in enumerate(kernels.quartets(L)):
                for d in (0, 1):
                    size = harness.nout(q, d)
                    full = th or (cfg == 'general' and first and (d == 0 or n % 5 == 0)) or max(q) == min(q) and size * NS < 20000
                    if not full and n % (9 if size < 3000 else 23):
                        continue
                    # more shells than a batch holds, and two bra pairs
                    k = NS + 1 if size * NS < (400000 if th else 12000) else 2
                    jobs.append(dict(lib=lib, q=q, deriv=d, cfg=cfg, bra=(1,), ket=(1,) * k))
                    if size < 4000 and (th or n % 6 == 0):
                        jobs.append(dict(lib=lib, q=q, deriv=d, cfg=cfg, bra=(1, 2), ket=(2, 1), bc=1, kc=2))
                        jobs.append(dict(lib=lib, q=q, deriv=d, cfg=cfg, bra=(1,) * 2, ket=(W + 1, 1), kc=1))
            for q, d in (((0, 0, 0, 0), 0), ((1, 0, 1, 1), 0), ((0, 1, 0, 0), 0), ((0, 0, 0, 0), 1), ((1, 0, 0, 1), 1)):
                w = min(W, 4)
                for b, k in (((2,), (1, w)), ((1, 1), (1,)), ((1,), (w + 1, 1))):
                    if not th and (sum(q) + len(k) + nv + d + len(b)) % 2:
                        continue
                    jobs.append(dict(lib=lib, q=q, deriv=d, cfg=cfg, bra=b, ket=k, screen=True))
    # vacuity: with a workspace of one double, the largest kernel must be found out of bounds
    lib = jobs[0]['lib']
    r = harness.setup(lib, (1, 1, 1, 1), 0, (1,), (1,), work=8)
    try:
        harness.execute(r)
        c.inc('vacuity: an undersized workspace was not noticed')
    except irx.Fault:
        c.coverage['vacuity'] = 'undersized workspace is reported'
    res = memcheck.run_jobs(c, jobs, c.left() - 60)
    c.coverage.update(res)
    c.coverage['bounds'] = 'angular momenta up to %d, up to %s shell pairs in a batch, up to 2 bra pairs, up to W+1 primitives; with screening every path for small shells; workspace exactly simint_ostei_workmem(order, largest angular momentum of the quartet)' % (3 if th else 2, 'NSHELL_SIMD+1')
    c.assumptions += kernels.ASSUME[1:] + ['work array aligned as SIMINT_ALLOC does; addresses do not depend on values outside screening (checked: a symbolic address is not encoded)']
check.main('A07', body)
