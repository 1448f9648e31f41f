"""B05: shells and shell pair structures under every history of operations."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, shells, hist, memcheck

def body(c):
    src = build.source(2, 2, 1)
    th = c.thorough
    tot = {}
    fs = set()
    worlds = []
    libs = dict(shells.libs(src, ('sse', 'scalar') + (('avx2', 'commonavx512') if th else ())))
    for t, lib in libs.items():
        lib.index()
        NS = lib.NS
        if t == 'sse':
            worlds.append((t + ' shells', hist.ShellWorld(lib, 2, 4 if th else 3)))
            if th:
                worlds.append((t + ' 3 shells', hist.ShellWorld(lib, 3, 2)))
        one = ((0, 1),)
        groups = [one, ((0, 1),) * 2, ((0, 1),) * NS, ((0, 1),) * (NS + 1), ((2, 1),), ((2, 2), (0, 0))]
        cats = [(one, ((0, 1),) * (NS + 1)), (((0, 1),) * 2, one)]
        worlds.append((t + ' pairs', hist.PairWorld(lib, 1, groups, cats)))
        if t == 'sse' or th:
            worlds.append((t + ' 2 structures', hist.PairWorld(lib, 2, [one, ((0, 1),) * (NS + 1)] + ([((2, 1),)] if th else []), cats[:1], few=not th)))
    for tag, w in worlds:
        w.modules()
        t = time.time()
        r, f = hist.search(c, w, tag, t + max(20, min(c.left() - 40, 1500 if th else 240)))
        fs |= f
        r['wall_s'] = round(time.time() - t, 1)
        c.log(tag, r)
        tot[tag] = r
    c.coverage['worlds'] = tot
    for k in ('states', 'histories', 'paths', 'queries', 'solver_s'):
        c.coverage[k] = round(sum(r[k] for r in tot.values()), 2)
    c.coverage['functions'] = sorted(fs)
    c.coverage['functions_encoded'] = len(fs)
    c.coverage['bounds'] = '2 shells (thorough: also 3) with up to %d primitives, 1 and 2 shell pair structures with up to NSHELL_SIMD + 1 pairs, histories of any length (the search over states, which are joined where only the symbolic contents differ, is complete where "complete" is true)' % (4 if th else 3)
    c.assumptions += shells.ASSUME + ['allocation succeeds', 'source and destination of a copy are different shells', 'the next operation does not depend on the values of the doubles (no path does, otherwise it forks)']
check.main('B05', body)
