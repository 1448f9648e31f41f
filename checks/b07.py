"""B07: the screening estimates of shell pairs that the library returns."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import time
import check, build, shells, shellscreen as S, memcheck

def body(c):
    src = build.source(2, 2, 1)
    th = c.thorough
    jobs = []
    for nv, (tag, lib) in enumerate(shells.libs(src, ('sse', 'scalar', 'commonavx512') + (('avx2',) if th else ()))):
        lib.index(); memcheck.workmem(lib); shells.modules(lib)
        forms = [(l1, n1, l2, n2) for l1, l2 in ((0, 0), (1, 0), (0, 1), (1, 1), (0, 2)) + (((2, 1),) if nv == 0 or th else ()) for n1, n2 in ((1, 1), (2, 1), (1, 3))]
        for fn in ('simint_shellscreen', 'simint_primscreen'):
            for m in (1, 2, 0, 3):
                for l1, n1, l2, n2 in forms:
                    if (m in (0, 3) and (l1, l2) != (0, 1)) or (m == 2 and (l1, l2) not in ((0, 0), (1, 0), (0, 2))):
                        continue
                    for null in ((False, True) if fn == 'simint_primscreen' else (False,)):
                        jobs.append((tag, lib, S.Job(fn, [(l1, n1), (l2, n2)], (0, 1), m, null)))
                for l, n in ((0, 1), (0, 2), (0, 3), (1, 2)):
                    for null in ((False, True) if fn == 'simint_primscreen' else (False,)):
                        jobs.append((tag, lib, S.Job(fn, [(l, n)], (0, 0), m, null)))
    tot = dict(cases=0, held=0, inconclusive=0, paths=0, queries=0, solver_s=0.0)
    fs = set()
    def go(j):
        return S.run_one(j[1], j[2], c.seed, time.time() + 240)
    for j, s, r in check.tasks(jobs, go, deadline=time.time() + c.left() - 60):
        tag = '%s %s' % (j[0], j[2].name())
        tot['cases'] += 1
        if s != 'ok':
            tot['inconclusive'] += 1
            c.inc('%s: %s %s' % (tag, s, r))
            continue
        tot['paths'] += r['paths']; tot['queries'] += r['stats']['queries']; tot['solver_s'] += r['stats']['time']
        fs.update(r['functions'])
        if r['status'] == 'violated':
            c.violation('screen:%s' % tag.replace(' ', '_'), '%s: %s' % (tag, r['detail']), r['replay'], 'c')
        else:
            tot[r['status']] += 1
            if r['status'] != 'held':
                c.inc('%s: %s' % (tag, r['detail']))
    tot['solver_s'] = round(tot['solver_s'], 2)
    c.coverage.update(tot)
    c.coverage['functions'] = sorted(fs)
    c.coverage['functions_encoded'] = len(fs)
    c.coverage['bounds'] = 'one pair of shells with up to 3 primitives and angular momenta up to (2 1); methods 1, 2 and undefined method numbers; all centers, exponents, coefficients and integrals symbolic'
    c.assumptions += shells.ASSUME + ['allocation succeeds', 'the integrals simint_compute_eri returns are unknowns here (A01 decides them)']
check.main('B07', body)
