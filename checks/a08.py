"""A08: run-time recurrence tables and routines."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, kern, recur

def body(c):
    src = build.source(1, 1, 1, ve=0, vg=1, he=0, hg=1)
    libs = [kern.Lib(src, v) for v in ('scalar', 'avx2') + (('sse', 'commonavx512') if c.thorough else ())]
    for l in libs:
        recur.executor(l)
    # vacuity: the reference must refuse a swapped pair of inputs
    L = libs[0]
    old = recur.layout
    real = recur.Call.ref
    recur.Call.ref = lambda s, comp, n, lane, d, V: real(s, comp, n, lane, d, V) + V('pa', d, 0, lane)
    r = recur.routine(L, 'ostei_general_vrr_I', (2, 0, 1, 0), 1)
    recur.Call.ref = real
    if r['status'] == 'held':
        c.inc('vacuity: a wrong recurrence was accepted')
    c.coverage['vacuity'] = 'a recurrence with an additional term is refused'
    js = recur.jobs(libs, c.thorough)
    c.coverage.update(recur.run_jobs(c, js, c.left() - 40))
    c.coverage['bounds'] = 'tables: every angular momentum to %d, every component (symbolic). Routines: single-center momenta to %d (thorough: all); four centers: sums to %d; one momentum of 13 (thorough: 8, 13, 17) next to another; 1 to 3 blocks; vector builds %s' % (recur.TOP, recur.TOP, 9 if c.thorough else 5, ', '.join(l.vec for l in libs))
    c.assumptions += ['exact real arithmetic; inputs that do not exist are passed as null pointers, the others have exactly the documented size',
                      'any direction with a positive exponent is accepted for a component']
check.main('A08', body)
