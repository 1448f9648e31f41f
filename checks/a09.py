"""A09: a generator configured for GAMESS puts components in GAMESS order."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, kern, kernels

def body(c):
    B = 20
    th = c.thorough
    jobs = []
    for name, o in (('gamess-inline', dict(ve=B, vg=B, he=B, hg=B)), ('gamess-external', dict(ve=0, vg=B, he=0, hg=B))):
        lib = kern.Lib(build.source(l=2, p=2 if name[7] == 'e' else 3, d=0, ordering='GAMESS', **o), 'scalar')
        jobs += [dict(lib=lib, q=q, deriv=0, cfg=name) for q in kernels.quartets(2) if kern.kname(q, 0) in lib.index()]
        qs = [q for a in ((3, 0, 0, 0), (3, 1, 0, 0), (3, 2, 0, 0), (3, 3, 0, 0), (3, 1, 1, 0), (4, 0, 0, 0), (4, 1, 0, 0), (5, 0, 0, 0)) for q in kernels.perms(a)] + [(3, 1, 2, 0), (3, 0, 2, 1), (3, 1, 3, 1)]
        only = [(q, 0) for q in qs][::1 if th else 2]
        lib = kern.Lib(build.source(l=5, p=6, d=0, only=only, ordering='GAMESS', **o), 'scalar')
        jobs += [dict(lib=lib, q=q, deriv=0, cfg=name + '5') for q, _ in only if kern.kname(q, 0) in lib.index()]
    # derivatives and run-time recurrences use the tables of skel/simint/recur_lookup.c
    gen = [((0, 0, 0, 0), 0), ((1, 1, 1, 0), 0), ((1, 0, 1, 1), 0), ((2, 0, 0, 0), 0), ((2, 1, 2, 1), 0)]
    der = [((0, 0, 0, 0), 1), ((1, 0, 0, 0), 1), ((1, 1, 1, 0), 1), ((2, 0, 2, 0), 1)]
    lib = kern.Lib(build.source(l=2, p=2, d=1, ordering='GAMESS', only=gen), 'scalar')
    jobs += [dict(lib=lib, q=q, deriv=d, cfg='gamess-general') for q, d in gen]
    lib = kern.Lib(build.source(l=2, p=2, d=1, ordering='GAMESS', ve=B, vg=B, he=B, hg=B, only=der), 'scalar')
    jobs += [dict(lib=lib, q=q, deriv=d, cfg='gamess-inline1') for q, d in der]
    for j in jobs:
        j['order'] = kernels.gamess_order
    c.coverage.update(kernels.run_jobs(c, jobs, c.left() - 60))
    c.coverage['bounds'] = 'generators configured with SIMINT_ORDERING=GAMESS: all kernels with l <= 2, %d with f, g and h, inline and external recurrences; some derivative kernels and kernels with run-time recurrences; one primitive quartet each' % sum('5' in j['cfg'] for j in jobs)
    c.assumptions += kernels.ASSUME + ['GAMESS stores d as xx yy zz xy xz yz and f as xxx yyy zzz xxy xxz xyy yyz xzz yzz xyz; other shells as in the default order']
check.main('A09', body)
