"""F01: completeness of generated packages."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, package

#         l  p  d  ve  vg  he  hg
QUICK = [(0, 0, 1, 0, 0, 0, 0), (1, 1, 1, 0, 0, 0, 0), (2, 2, 1, 0, 5, 0, 20), (2, 2, 1, 20, 20, 20, 20), (2, 1, 1, 0, 20, 0, 20),
         (2, 2, 1, 0, 20, 0, 20), (2, 2, 1, 1, 2, 1, 2), (2, 1, 1, 2, 3, 1, 2), (2, 2, 0, 0, 4, 0, 3), (1, 2, 1, 1, 3, 1, 2), (1, 1, 1, 1, 20, 1, 20),
         (3, 1, 0, 2, 6, 1, 4), (3, 3, 0, 0, 20, 0, 20)]
THOROUGH = QUICK + [(3, 3, 1, 0, 20, 0, 20), (3, 1, 1, 0, 6, 0, 20), (3, 2, 1, 3, 20, 2, 20), (4, 2, 0, 0, 20, 0, 20), (4, 1, 0, 3, 7, 2, 5), (3, 2, 1, 20, 20, 20, 20)] + \
           [(2, p, d, ve, vg, he, hg) for p in (1, 2, 3) for d in (0, 1) for ve, vg in ((0, 3), (1, 4), (3, 6), (20, 2)) for he, hg in ((0, 2), (1, 3), (20, 1))]

def body(c):
    gen = build.generator()
    jobs = []
    for o in (THOROUGH if c.thorough else QUICK):
        jobs.append(('package', o, None, None))
    # option set, largest number of calls that fail
    fails = [((1, 1, 1, 1, 20, 1, 20), 1), ((1, 2, 0, 0, 3, 0, 2), 2)] + ([((1, 1, 1, 1, 20, 1, 20), 2), ((1, 1, 1, 0, 20, 0, 20), 2), ((2, 1, 0, 1, 20, 1, 20), 1)] if c.thorough else [])
    jobs += [('fail', o, most, None) for o, most in fails]
    def go(j):
        kind, o, most, _ = j
        if kind == 'fail':
            return [('failing generators %s, at most %d' % (o, most), package.failing(o, gen, most, deadline=time.time() + max(60, c.left() - 60)))]
        out = []
        try:
            src = build.source(*o)
        except build.BuildError as x:
            return [('package %s' % (o,), dict(status='violated', detail='cannot be generated: %s' % str(x)[-600:], replay=package.script(o, o[0], o[2], 'scalar'), functions=[], files=0, symbols=0, requests=0, stats=package.prove.Stats().as_dict()))]
        for maxder in range(o[2] + 1):
            for maxam in range(o[0] + 1):
                t = time.time()
                out.append(('package %s MAXAM=%d MAXDER=%d' % (o, maxam, maxder), package.config(o, src, maxam, maxder, 'sse' if o[0] == 1 and o[1] == 1 else 'scalar')))
                out[-1][1]['wall'] = time.time() - t
        return out
    tot = dict(configurations=0, held=0, files=0, symbols=0, requests=0, create_py_paths=0, generator_calls=0, queries=0, solver_s=0.0)
    fs = set()
    order = sorted(jobs, key=lambda j: -((j[1][0] + 1) ** 4 * (1 + 3 * j[1][2]) if j[0] == 'package' else 300))
    for j, s, rs in check.tasks(order, go, jobs=8, deadline=time.time() + c.left() - 40, memgb=8):
        if s != 'ok':
            c.inc('%s %s: %s %s' % (j[0], j[1], s, rs))
            continue
        for tag, r in rs:
            if os.environ.get('VERIF_TIMES'): c.log(tag, r.get('wall'))
            tot['configurations'] += 1
            for k in ('files', 'symbols', 'requests'): tot[k] += r.get(k, 0)
            tot['create_py_paths'] += r.get('paths', 0); tot['generator_calls'] += r.get('calls', 0)
            tot['queries'] += r['stats']['queries']; tot['solver_s'] += r['stats']['time']
            fs.update(r['functions'])
            if r['status'] == 'violated':
                c.violation('package:' + tag.replace(' ', '_'), '%s: %s' % (tag, r['detail']), r['replay'], 'sh')
            elif r['status'] == 'held':
                tot['held'] += 1
            else:
                c.inc('%s: %s' % (tag, r['detail']))
    # vacuity: an undefined reference and a double definition are found
    bad, _ = package.link([('a.c', 'f'), ('b.c', 'f')], [('a.c', 'nothing_defines_this')])
    if [b[0] for b in bad] != ['undefined', 'twice']:
        c.inc('vacuity: the link relation does not refuse an undefined reference')
    tot['solver_s'] = round(tot['solver_s'], 2)
    c.coverage.update(tot, functions=sorted(fs))
    c.coverage['bounds'] = 'option sets (l, p, d, ve, vg, he, hg) %s, each with every maximum angular momentum and derivative order; create.py with a symbolic exit status of every generator call for (option set, most calls that fail) %s' % (QUICK if not c.thorough else '%d sets' % len(THOROUGH), fails)
    c.assumptions += ['the generator programs themselves are run, not encoded: option sets outside the list are not covered',
                      'the symbols each source defines and refers to are read off its compiled text']
check.main('F01', body)
