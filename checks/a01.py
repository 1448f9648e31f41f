"""A01: every electron repulsion kernel of a generated library is exact."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, kern, kernels

def body(c):
    l = 4 if c.thorough else 3
    libs = [(kern.Lib(build.source(l, l, 1), 'scalar'), 'l%d-p%d' % (l, l))]
    jobs = [dict(lib=lib, q=q, deriv=0, cfg=cfg) for lib, cfg in libs for q in kernels.quartets(l)]
    # contracted functions with differing numbers of primitives on both sides
    lib = libs[0][0]
    for q in kernels.quartets(1) + [(2, 1, 2, 1), (2, 2, 1, 1), (3, 0, 2, 1), (1, 3, 0, 2)]:
        jobs.append(dict(lib=lib, q=q, deriv=0, cfg='contracted', bra=(2,), ket=(3,)))
    jobs += kernels.high(0)
    c.coverage.update(kernels.run_jobs(c, jobs, c.left() - 60))
    c.coverage['bounds'] = 'angular momentum <= %d: all %d quartets (general recurrences, scalar build, permuting from %d); one primitive quartet each, kernels of single angular momenta to 5 beyond that (sum <= 6 and two of 4); contractions of 2x3 primitives for l <= 1 and some others; exponents, centers, prefactors and Boys values symbolic reals' % (l, (l + 1)**4, l)
    c.assumptions += kernels.ASSUME
check.main('A01', body)
