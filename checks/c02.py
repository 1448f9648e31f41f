"""C02: kinetic energy integrals are exact."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, kern, onee

def body(c):
    src = build.source(2, 2, 1)
    L = 7 if c.thorough else 5
    jobs = []
    for vec in ('sse',) + (('scalar', 'avx2', 'commonavx512') if c.thorough else ()):
        lib = kern.Lib(src, vec)
        for l1 in range(L + 1):
            for l2 in range(L + 1):
                n = (1, 1) if l1 + l2 > 8 else [(1, 1), (2, 1), (1, 2), (2, 3)][(l1 + 3 * l2) % 4]
                jobs.append((vec, lib, 'ke', [(l1, n[0]), (l2, n[1])], 0))
                if c.thorough and l1 + l2 < 7:
                    jobs.append((vec, lib, 'ke', [(l1, 4), (l2, 3)], 0))
    onee.run_jobs(c, jobs, c.left() - 60)
    c.coverage['bounds'] = 'angular momenta 0 to %d on both centers, 1 to 3 (thorough: 4) primitives' % L
check.main('C02', body)
