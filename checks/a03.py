"""A03: the generator's options change how integrals are computed, not what they are."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, kern, kernels

def body(c):
    B = 20
    cfgs = [
        ('inline', dict(l=2, p=2, d=1, ve=B, vg=B, he=B, hg=B), 'scalar'),
        ('external', dict(l=2, p=2, d=1, ve=0, vg=B, he=0, hg=B), 'scalar'),
        ('vg5', dict(l=2, p=2, d=1, ve=0, vg=5, he=0, hg=B), 'sse'),
        ('mixed', dict(l=2, p=1, d=1, ve=3, vg=5, he=2, hg=3), 'scalar'),
        ('nopermute', dict(l=2, p=3, d=1, ve=4, vg=7, he=3, hg=5), 'scalar'),
    ]
    if c.thorough:
        cfgs += [('inline3', dict(l=3, p=3, d=1, ve=B, vg=B, he=B, hg=B), 'scalar'),
                 ('external3', dict(l=3, p=2, d=1, ve=0, vg=B, he=0, hg=B), 'scalar'),
                 ('mixed3', dict(l=3, p=4, d=1, ve=4, vg=9, he=3, hg=5), 'scalar'),
                 ('late3', dict(l=3, p=1, d=0, ve=6, vg=10, he=5, hg=6), 'sse')]
    jobs = []
    for name, o, vec in cfgs:
        lib = kern.Lib(build.source(**o), vec)
        big = kernels.quartets(o['l'])
        for q in big:
            for d in range(o['d'] + 1):
                jobs.append(dict(lib=lib, q=q, deriv=d, cfg=name))
    if not c.thorough:
        jobs = kernels.thin([j for j in jobs if j['deriv'] == 0], 0.6, 2) + kernels.thin([j for j in jobs if j['deriv']], 0.4, 5)
    if not c.thorough:
        # the higher terms of the recurrences
        lib = kern.Lib(build.source(l=3, p=3, d=0, ve=0, vg=B, he=0, hg=B), 'scalar')
        jobs += [dict(lib=lib, q=q, deriv=0, cfg='external3') for q in [(3, 0, 3, 0), (3, 1, 2, 0), (3, 3, 1, 0), (1, 0, 3, 3), (0, 3, 0, 3), (3, 2, 3, 1), (3, 3, 3, 3)]]
        lib = kern.Lib(build.source(l=3, p=3, d=0, ve=B, vg=B, he=B, hg=B), 'scalar')
        jobs += [dict(lib=lib, q=q, deriv=0, cfg='inline3') for q in [(3, 0, 3, 0), (3, 1, 2, 0), (3, 2, 0, 0), (0, 0, 3, 2), (3, 3, 1, 0), (3, 2, 2, 1)]]
    for o in (dict(ve=B, vg=B, he=B, hg=B), dict(p=4, ve=0, vg=B, he=0, hg=B)) + ((dict(p=5, ve=4, vg=7, he=3, hg=5), dict(ve=3, vg=6, he=5, hg=6)) if c.thorough else ()):
        for d in (0, 1):
            jobs += kernels.high(d, None if c.thorough else 3 + d, **o)
    c.coverage.update(kernels.run_jobs(c, jobs, c.left() - 60))
    c.coverage['configurations'] = ['%s: %s (%s)' % (n, o, v) for n, o, v in cfgs]
    c.coverage['bounds'] = 'the listed generator options; %s; one primitive quartet each' % ('all quartets and both derivative orders of each' if c.thorough else '%d kernels of both derivative orders' % len(jobs))
    c.assumptions += kernels.ASSUME
check.main('A03', body)
