"""B04: concatenated shell pairs equal shell pairs created together."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, shells
from shells import Scenario

def body(c):
    src = build.source(2, 2, 1)
    jobs = []
    vecs = ('scalar', 'sse', 'avx2', 'commonavx512') + (('avx', 'micavx512') if c.thorough else ())
    sh = [(1, 1), (1, 2), (1, 3)]
    every = [(a, b) for a in range(3) for b in range(3)]
    for nv, (tag, lib) in enumerate(shells.libs(src, vecs) + shells.libs(src, ('sse',), (0,))):
        NS = lib.NS
        sizes = [[1], [1, 1], [2, 1], [1, 2], [NS, 1], [1, NS], [NS - 1, 2], [NS + 1, 1], [NS + 1, NS + 1], [1, NS, NS - 1, 1], [2, 3, 2], [2 * NS + 1, 2]]
        if c.thorough:
            sizes += [[a, b] for a in range(1, 2 * NS + 2) for b in (1, 2, NS, NS + 1)] + [[1, a, 1, a + 1] for a in range(1, NS + 2)]
        for n, z in enumerate(sizes):
            gs, k = [], n
            for x in z:
                gs.append([every[(k + 4 * i) % 9] for i in range(x)])
                k += x * 4 + 1
            jobs.append((tag, lib, Scenario(sh, gs, cat='multi')))
            if n % 3 == 0:
                jobs.append((tag, lib, Scenario(sh, gs, cat='multi', before=[([(0, 2)] * (NS + 1), 2)])))
        for k in sorted({1, 2, 3, NS - 1, NS, NS + 1, 2 * NS + 1}):
            if k:
                jobs.append((tag, lib, Scenario(sh, [[every[(k + 4 * i) % 9]] for i in range(k)], cat='single')))
        one = [(1, 1), (1, 1)]
        for m in (1, 2):
            for z in ([1], [2, 1], [NS, 1], [NS + 1, 2]):
                gs = [[((0, 1), (0, 0), (1, 1))[(i + x) % 3] for i in range(x)] for x in z]
                if sum(z) < 6:
                    jobs.append((tag, lib, Scenario(one, gs, cat='multi', method=m)))
                if max(z) == 1 or sum(z) < 4:
                    jobs.append((tag, lib, Scenario(one, [[g] for x in gs for g in x], cat='single', method=m)))
            # many parts whose values are all the same: no branches on their order
            same = [(0, 0)] * (NS + 1)
            jobs.append((tag, lib, Scenario([(0, 1)], [same[:NS - 1] or [(0, 0)], same], cat='multi', method=m)))
            jobs.append((tag, lib, Scenario([(0, 1)], [[p] for p in same], cat='single', method=m)))
            if nv < 2 or c.thorough:
                jobs.append((tag, lib, Scenario([(0, 2), (0, 1)], [[(0, 1)], [(1, 1)]], cat='multi', method=m)))
                jobs.append((tag, lib, Scenario([(0, 2), (0, 1)], [[(1, 1)], [(1, 0)]], cat='single', method=m)))
                jobs.append((tag, lib, Scenario([(0, 1), (0, 3)], [[(0, 0)] * NS + [(0, 1)], [(0, 0)]], cat='multi', method=m)))
    c.coverage.update(shells.run_jobs(c, jobs, c.left() - 60, 'B04'))
    c.coverage['bounds'] = 'up to 4 parts (joined by simint_cat_multi_shellpair) with up to 2 NSHELL_SIMD + 1 shell pairs each, up to 2 NSHELL_SIMD + 1 parts of one shell pair (simint_cat_shellpairs), 1 to 9 primitive pairs per shell pair, with both screening methods for up to 5 different screening values; values symbolic'
    c.assumptions += shells.ASSUME
check.main('B04', body)
