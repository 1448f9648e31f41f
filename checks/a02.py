"""A02: every first-derivative kernel of a generated library is exact."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, kern, kernels

def body(c):
    l = 3
    lib = kern.Lib(build.source(l, l, 1), 'scalar')
    jobs = [dict(lib=lib, q=q, deriv=1, cfg='l%d-p%d' % (l, l)) for q in kernels.quartets(l)]
    if not c.thorough:
        jobs = [j for j in jobs if max(j['q']) < 3] + kernels.thin([j for j in jobs if max(j['q']) == 3], 0.55, 6)
    for q in kernels.quartets(1) + [(2, 1, 1, 0), (0, 2, 1, 1)]:
        jobs.append(dict(lib=lib, q=q, deriv=1, cfg='contracted', bra=(2,), ket=(3,)))
    if c.thorough:
        lib4 = kern.Lib(build.source(4, 4, 1), 'scalar')
        jobs += [dict(lib=lib4, q=q, deriv=1, cfg='l4-p4') for q in kernels.quartets(4) if max(q) == 4]
    jobs += kernels.high(1)
    c.coverage.update(kernels.run_jobs(c, jobs, c.left() - 60))
    c.coverage['bounds'] = 'angular momentum <= %d: all twelve coordinates of %s (general recurrences, scalar build); one primitive quartet each, kernels with one g or h shell (sum <= 5); contractions of 2x3 primitives for l <= 1 and some others; exponents, centers, prefactors and Boys values symbolic reals' % ((4, 'all quartets') if c.thorough else (3, 'all quartets of s, p, d and %d quartets with f' % len([j for j in jobs if max(j['q']) == 3])))
    c.assumptions += kernels.ASSUME
check.main('A02', body)
