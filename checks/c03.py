"""C03: nuclear attraction integrals are exact."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, kern, onee

def body(c):
    src = build.source(2, 2, 1)
    L = 5 if c.thorough else 3
    jobs = []
    for nv, vec in enumerate(('sse', 'avx2', 'scalar', 'commonavx512') + (('avx', 'micavx512') if c.thorough else ())):
        lib = kern.Lib(src, vec)
        for l1 in range(L + 1 + (nv == 0)):
            for l2 in range(L + 1 + (nv == 0)):
                if nv and not c.thorough and l1 + l2 > 3 or max(l1, l2) > L and l1 + l2 > L + (3 if c.thorough else 1):
                    continue
                n = (1, 1) if l1 + l2 > 5 else [(1, 1), (2, 1), (1, 2), (2, 3)][(l1 + 3 * l2 + nv) % 4]
                jobs.append((vec, lib, 'potential', [(l1, n[0]), (l2, n[1])], (1, 2, 3)[(l1 + l2 + nv) % 3] if l1 + l2 < 6 else 1))
        jobs.append((vec, lib, 'potential', [(1, 1), (1, 1)], 0))
    onee.run_jobs(c, jobs, c.left() - 60)
    c.coverage['bounds'] = 'angular momenta 0 to %d on both centers (one of them %d), 1 to 3 primitives, 0 to 3 charges, SSE, AVX2, scalar and AVX-512 builds' % (L, L + 1)
check.main('C03', body)
