"""B02: shell-pair storage is complete, padded and in bounds."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, shells
from shells import Scenario

def body(c):
    src = build.source(2, 2, 1)
    jobs = []
    vecs = ('scalar', 'sse', 'avx2', 'commonavx512') + (('avx', 'micavx512') if c.thorough else ())
    for tag, lib in shells.libs(src, vecs) + shells.libs(src, ('avx2',), (0,)):
        NS = lib.NS
        for sh, pairs in shells.lists(lib.W, NS, c.thorough):
            jobs.append((tag, lib, Scenario(sh, [pairs])))
        # with screening values: one primitive per pair, so that sorting has one path
        one = [(1, 1), (1, 1)]
        for m in (1, 2):
            for k in sorted({1, 2, NS - 1, NS, NS + 1, 2 * NS + 1}):
                jobs.append((tag, lib, Scenario(one, [[((0, 1), (0, 0), (1, 1))[i % 3] for i in range(k)]], method=m)))
            jobs.append((tag, lib, Scenario([(0, 2), (1, 1)], [[(0, 1)]], method=m)))
            jobs.append((tag, lib, Scenario([(0, 2)], [[(0, 0)]], method=m)))
            jobs.append((tag, lib, Scenario([(0, 3), (0, 1)], [[(0, 1)] + [(1, 1)] * NS], method=m)))
        # reuse for smaller and larger lists, with other screening
        for m in (0, 2):
            for b in ([([(0, 0)] * (NS + 1), 0)], [([(0, 1)], 0)], [([(0, 1)], 2)], [([(1, 1)] * (2 * NS + 1), 2)], [([(0, 1)], 0), ([(1, 1)] * 3, 2), ([(0, 0)], 0)]):
                for pairs in ([(0, 1), (0, 0), (1, 0)], [(0, 1)] * (NS + 1), [(0, 0)]):
                    jobs.append((tag, lib, Scenario([(1, 1), (1, 1)], [pairs], before=b, method=m)))
        for na, nb in ((1, 2), (2, 2), (NS, 2), (3, 3)):
            jobs.append((tag, lib, Scenario([(2, 1 + k % 3) for k in range(max(na, nb))], [[(a, b) for a in range(na) for b in range(nb)]], how='product')))
    c.coverage.update(shells.run_jobs(c, jobs, c.left() - 60, 'B02'))
    symbolic(c, src)
    c.coverage['bounds'] = 'lists of up to %s shell pairs with 1 to %d primitives per shell, also after one to three other uses of the structure, without and with both screening methods; values symbolic' % ('4 NSHELL_SIMD + 1' if c.thorough else '2 NSHELL_SIMD + 1', 5 if c.thorough else 3)
    c.assumptions += shells.ASSUME
def symbolic(c, src):
    pass
check.main('B02', body)
