"""B03: stored screening values are the Schwarz bounds of their primitives."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, shells
from shells import Scenario

def body(c):
    src = build.source(2, 2, 1)
    jobs = []
    vecs = ('sse', 'scalar', 'commonavx512') + (('avx2', 'avx') if c.thorough else ())
    for nv, (tag, lib) in enumerate(shells.libs(src, vecs) + shells.libs(src, ('scalar',), (0,))):
        NS = lib.NS
        for m in (1, 2):
            for l1, l2 in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (2, 2)):
                jobs.append((tag, lib, Scenario([(l1, 1), (l2, 1)], [[(0, 1)]], method=m)))
                if l1 == l2:
                    jobs.append((tag, lib, Scenario([(l1, 2)], [[(0, 0)]], method=m)))
            jobs.append((tag, lib, Scenario([(0, 3), (0, 1)], [[(0, 1)]], method=m)))
            jobs.append((tag, lib, Scenario([(1, 1), (0, 2)], [[(0, 1), (0, 1)]], method=m)))
            jobs.append((tag, lib, Scenario([(0, 1), (0, 2)], [[(0, 1), (1, 0)]], method=m)))
            jobs.append((tag, lib, Scenario([(0, 1), (0, 1)], [[(0, 1), (1, 0), (0, 0), (1, 1)]], method=m)))
            # several batches: sorting starts at the right place after the padding
            jobs.append((tag, lib, Scenario([(0, 1), (0, 3)], [[(0, 0)] * NS + [(0, 1)]], method=m)))
            jobs.append((tag, lib, Scenario([(0, 1), (0, 2)], [[(0, 1)] + [(0, 0)] * (NS - 1) + [(0, 1)]], method=m)))
            if nv == 0 or c.thorough:
                jobs.append((tag, lib, Scenario([(1, 2), (0, 2)], [[(0, 1)]], method=m)))
                jobs.append((tag, lib, Scenario([(0, 1), (0, 2)], [[(0, 1), (1, 1)]], method=m)))
        for k in (1, 2):
            jobs.append((tag, lib, Scenario([(0, 1), (1, k)], [[(0, 1)] * k])))
            jobs.append((tag, lib, Scenario([(0, 1), (0, k)], [[(0, 1)] * k], before=[([(0, 0)] * 2, 2)], method=2)))
        if c.thorough:
            jobs.append((tag, lib, Scenario([(0, 5), (0, 1)], [[(0, 1)]], method=2)))
            jobs.append((tag, lib, Scenario([(0, 4), (0, 1)], [[(0, 1), (1, 1)]], method=1)))
            jobs.append((tag, lib, Scenario([(0, 2), (0, 3)], [[(0, 1)]], method=2)))
    c.coverage.update(shells.run_jobs(c, jobs, c.left() - 60, 'B03'))
    c.coverage['bounds'] = 'up to 4 primitive pairs (thorough: 6) in one shell pair with every order of their screening values; shell pairs before and after a batch boundary; angular momenta up to 2; the diagonal integrals of method 1 are unknowns belonging to the data of the pair (A01 decides their values)'
    c.assumptions += shells.ASSUME + ['screening values of different primitive pairs are treated as unrelated non-negative numbers (more cases than real ones)']
check.main('B03', body)
