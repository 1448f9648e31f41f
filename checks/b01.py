"""B01: shell-pair data equal the gaussian product of their shells."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, shells
from shells import Scenario

def body(c):
    src = build.source(2, 2, 1)
    jobs = []
    vecs = ('scalar', 'sse', 'avx2', 'commonavx512') + (('avx', 'micavx512') if c.thorough else ())
    for tag, lib in shells.libs(src, vecs) + shells.libs(src, ('sse',), (0,)):
        for sh, pairs in shells.lists(lib.W, lib.NS, c.thorough):
            jobs.append((tag, lib, Scenario(sh, [pairs])))
        for na, nb in ((1, 1), (2, 1), (1, 3), (2, 2), (3, 2)):
            n = max(na, nb)
            jobs.append((tag, lib, Scenario([(2, 1 + k % 2) for k in range(n)], [[(a, b) for a in range(na) for b in range(nb)]], how='product')))
            jobs.append((tag, lib, Scenario([(0, 2)] * na + [(1, 1 + k % 3) for k in range(nb)], [[(a, na + b) for a in range(na) for b in range(nb)]], how='product')))
        # the data do not depend on what the structure was used for before
        for b in ([([(0, 0)] * (lib.NS + 1), 0)], [([(0, 1)], 2)], [([(0, 1)], 0), ([(1, 1)] * 3, 2)]):
            jobs.append((tag, lib, Scenario([(1, 2), (1, 1)], [[(0, 1), (0, 0), (1, 0)]], before=b)))
    c.coverage.update(shells.run_jobs(c, jobs, c.left() - 60, 'B01'))
    c.coverage['vacuity'] = 'the prefactors and exponents of every used slot are compared; a slot that matches no primitive pair is a failure'
    c.coverage['bounds'] = 'lists of up to %s shell pairs (2 NSHELL_SIMD + 1) with 1 to %d primitives per shell; all centers, coefficients and non-negative exponents (zero shells included) are symbolic' % ('4 NSHELL_SIMD + 1' if c.thorough else '2 NSHELL_SIMD + 1', 5 if c.thorough else 3)
    c.assumptions += shells.ASSUME
check.main('B01', body)
