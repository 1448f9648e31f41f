"""Checks over many kernels: shared by A01, A02, A03, A05, A06."""
import time, itertools
import build, kern, kcheck, check, osref

def quartets(l, pred=None):
    qs = [q for q in itertools.product(range(l + 1), repeat=4) if pred is None or pred(q)]
    return qs

def thin(jobs, share, every):
    """the lightest jobs (their share of the list) and every n-th of the others"""
    w = sorted(jobs, key=lambda j: weight(j['q'], j['deriv'], j.get('bra', (1,)), j.get('ket', (1,))))
    k = int(len(w) * share)
    return w[:k] + w[k::every]

def weight(q, deriv, bra, ket):
    n = 1
    for a in q:
        n *= (a + 1) * (a + 2) / 2
    return (n * (12 if deriv else 1) + 20 * (sum(q) + deriv) ** 3 + 30) * max(1, sum(bra) * sum(ket) ** 0.7)

def perms(q):
    return sorted(set(itertools.permutations(q)))

# kernels beyond the angular momenta that whole libraries are generated for
HIGH = {0: [q for a in ((4, 0, 0, 0), (4, 1, 0, 0), (4, 1, 1, 0), (4, 2, 0, 0), (4, 4, 0, 0), (5, 0, 0, 0), (5, 1, 0, 0)) for q in perms(a)],
        1: [q for a in ((4, 0, 0, 0), (4, 1, 0, 0), (5, 0, 0, 0)) for q in perms(a)]}
def high(deriv, pick=None, vec='scalar', p=6, **opts):
    """jobs for single kernels of high angular momentum"""
    only = [(q, deriv) for q in HIGH[deriv]][::pick]
    lib = kern.Lib(build.source(5, p, 1, only=only, **opts), vec)
    return [dict(lib=lib, q=q, deriv=d, cfg='l5 p%d%s' % (p, ''.join(' %s%d' % o for o in sorted(opts.items())))) for q, d in only if lib.index().get(kern.kname(q, d))]

def gamess_order(am):
    """components in the order GAMESS stores them (d and f shells differ)"""
    if am == 2:
        return [(2, 0, 0), (0, 2, 0), (0, 0, 2), (1, 1, 0), (1, 0, 1), (0, 1, 1)]
    if am == 3:
        return [(3, 0, 0), (0, 3, 0), (0, 0, 3), (2, 1, 0), (2, 0, 1), (1, 2, 0), (0, 2, 1), (1, 0, 2), (0, 1, 2), (1, 1, 1)]
    return osref.psi4_order(am)

def run_jobs(c, jobs, budget, procs=8, memgb=12):
    """jobs: list of dicts (lib, q, deriv, bra, ket, bc, kc[, fn]); returns a summary"""
    libs = {}
    jobs = sorted(jobs, key=lambda j: -weight(j['q'], j['deriv'], j.get('bra', (1,)), j.get('ket', (1,))))
    tot = dict(runs=0, proved=0, partial=0, outputs=0, inconclusive=0, lemmas=0, lemma_instances_from_cache=0, queries=0, solver_s=0.0, unknown=0, terms_without_proof=0)
    funcs = set()
    axioms = {}
    samples = []
    # parse the shared files once, before forking
    for j in jobs:
        lib = j['lib']
        if id(lib) not in libs:
            libs[id(lib)] = lib
            for f in ('ostei/ostei_general_vrr.c', 'ostei/ostei_general_hrr.c', 'recur_lookup.c'):
                try:
                    lib.module(lib.path(f))
                except build.BuildError:
                    pass
            lib.index()
    def go(j):
        lib = j['lib']
        name = j.get('fn') or kern.kname(j['q'], j['deriv'])
        f = lib.index().get(name)
        if f is None:
            return dict(status='missing', detail='%s is not defined in the library' % name, name=name)
        r = kcheck.prove_run(lib, j['q'], j['deriv'], j.get('bra', (1,)), j.get('ket', (1,)), j.get('bc'), j.get('kc'), fn=name, roots=[f] + list(j.get('roots', ())), seed=c.seed, order=j.get('order') or osref.psi4_order)
        r['name'] = name
        return r
    for j, s, r in check.tasks(jobs, go, jobs=procs, deadline=time.time() + budget, memgb=memgb):
        name = j.get('fn') or kern.kname(j['q'], j['deriv'])
        tag = '%s/%s bra=%s ket=%s%s%s' % (j.get('cfg', ''), name, j.get('bra', (1,)), j.get('ket', (1,)), '' if j.get('bc') is None else ' braclip=%d' % j['bc'], '' if j.get('kc') is None else ' ketclip=%d' % j['kc'])
        tag += ' ' + j['lib'].vec
        tot['runs'] += 1
        if s != 'ok':
            tot['inconclusive'] += 1
            c.inc('%s: %s %s' % (tag, s, r))
            continue
        if r['status'] == 'missing':
            c.violation('missing:%s' % tag.replace(' ', '_'), '%s: %s' % (tag, r['detail']))
            continue
        st = r['stats']
        tot['queries'] += st['queries']; tot['solver_s'] += st['time']; tot['unknown'] += st['unknown']
        tot['lemmas'] += st['lemmas']; tot['lemma_instances_from_cache'] += st['cached']
        tot['outputs'] += r['outputs']
        tot['terms_without_proof'] += r['failed']
        funcs.update(r['functions'])
        for a, n in st['axioms'].items():
            axioms[a] = axioms.get(a, 0) + n
        if r['status'] == 'violated':
            c.violation('kernel:%s' % tag.replace(' ', '_'), '%s: %s' % (tag, r['detail']), r['replay'], 'c')
        elif r['status'] == 'proved':
            tot['proved'] += 1
            if len(samples) < 5:
                samples.append('%s: %d outputs, %d lemmas, %d solver queries' % (tag, r['outputs'], st['lemmas'], st['queries']))
        elif r['status'] == 'partial':
            tot['partial'] += 1
            c.inc('%s: %s' % (tag, r['detail']))
        else:
            tot['inconclusive'] += 1
            c.inc('%s: %s' % (tag, r['detail']))
    tot['solver_s'] = round(tot['solver_s'], 2)
    return dict(tot, functions_encoded=len(funcs), functions=sorted(f for f in funcs)[:400], axioms_used=axioms, samples=samples)

ASSUME = [
    'double arithmetic is treated as real arithmetic in these proofs; rounding is outside',
    'boys_F_split is an uninterpreted function that satisfies the downward recursion; its accuracy is decided by D01',
    'square roots and exponentials are uninterpreted functions of their arguments',
    'the C compiler: clang-18 -O1 IR after inlining is taken for the code; violations are replayed with gcc -O2',
]
