"""Kernels with symbolic screening values: every feasible path is executed, and on
every path the result must be the sum over a set of primitive quartets that leaves
out only those whose bound is below the tolerance."""
import time, itertools, os
from fractions import Fraction
import z3
import entry as entrylib
import irx, kern, harness, prove, replay, build, check, fork, kernels, terms as T
from osref import *

def hyps(bra, ket):
    R = z3.Real
    h = []
    for s, n in (('P', sum(bra)), ('Q', sum(ket))):
        for i in range(n):
            x = R('S%s@%d' % (s, i))
            h += [x >= 0, x <= R('S%smax' % s)]
    return h + [R('tol') >= 0]

def run_one(lib, q, deriv, bra, ket, bc, kc, fn, seed=1, deadline=None, maxpaths=600):
    st = prove.Stats()
    res = dict(status='proved', paths=0, outputs=0, detail='', functions=set(), omitted=0, full=0)
    mods = lib.link([lib.index()[fn]], stop=('boys_F_split',))
    files = [m.name for m in mods]
    hy = hyps(bra, ket)
    exr = fork.Explorer(hy, st, maxpaths=maxpaths, deadline=deadline)
    cache = {}
    cur = {}
    def run(decide):
        r = harness.setup(lib, q, deriv, bra, ket, bc, kc, screen=True, mods=mods)
        r.ex.decider = decide
        cur['r'] = r
        try:
            harness.execute(r, fn)
        except irx.Fault as e:
            return r, e
        return r, None
    try:
        for (r, fault), path, s in exr.explore(run):
            res['paths'] += 1
            bad = None
            if fault is not None:
                bad = 'fault: %s' % fault
            elif r.ret != r.bc * r.kc:
                bad = 'returned %s' % r.ret
            else:
                bad = one_path(res, st, cache, r, lib, q, deriv, bra, ket, path, s, seed, exr)
            res['functions'].update(k if isinstance(k, str) else k[-1] for k in r.ex.calls)
            if bad and bad[0] == '?':
                res['status'] = 'partial' if res['status'] == 'proved' else res['status']
                res['detail'] = bad[1:]
            elif bad:
                m = model(s)
                c = confirm(lib, files, fn, q, deriv, bra, ket, r.bc, r.kc, m, seed, fault is not None)
                if c:
                    res.update(status='violated', detail='%s; on the path %s; replayed: %s' % (bad, show(path), c[0]), replay=c[1])
                    break
                res.update(status='inconclusive', detail=bad + '; not reproduced')
    except irx.Unsupported as e:
        res.update(status='inconclusive', detail='not encoded: %s' % e)
    except fork.TooManyPaths as e:
        res.update(status='partial', detail=str(e))
    res['stats'] = st.as_dict()
    res['functions'] = sorted(res['functions'])
    return res

def show(path):
    return ' and '.join(('' if o else 'not ') + T.show(c, 3) for c, o in path[:8])[:400]

def solved(s):
    """a model of the assertions, or None"""
    if s.check() == z3.sat:
        return s.model()
    n = z3.Tactic('qfnra-nlsat').solver()
    n.set('timeout', 60000)
    n.add(s.assertions())
    return n.model() if n.check() == z3.sat else None

def model(s):
    m = solved(s)
    if m is None:
        return {}
    out = {}
    for d in m.decls():
        x = m[d]
        if z3.is_rational_value(x):
            out[d.name()] = Fraction(x.numerator_as_long(), x.denominator_as_long())
        elif z3.is_algebraic_value(x):
            a = x.approx(20)
            out[d.name()] = Fraction(a.numerator_as_long(), a.denominator_as_long())
    return out

def one_path(res, st, cache, r, lib, q, deriv, bra, ket, path, s, seed, exr):
    sy = System(seed, bra, ket)
    keyed = {}
    val = prove.simulate(r.res, sy, keyed)
    # primitive quartets that contribute
    inc = set()
    for n in T.cone(r.res):
        if n.op == 'f' and n.a[0] == 'boys':
            c = sy.Tof.get(val[n.a[2].id])
            if c is None:
                return 'a Boys function of an argument that belongs to no primitive quartet'
            inc.add(c)
    want = set()
    for (sname, a, b), ms in sy.members.items():
        if a < r.bc and b < r.kc:
            want.update(ms)
    if inc - want:
        return 'primitive quartets %s do not belong to a computed shell quartet' % sorted(inc - want)
    for i, j in sorted(want - inc):
        res['omitted'] += 1
        pr = z3.Real('SP@%d' % i) * z3.Real('SQ@%d' % j)
        if exr.sat(s, pr >= z3.Real('tol')):
            s.add(pr >= z3.Real('tol'))
            if solved(s) is None:
                return '?bound of an omitted primitive quartet not decided'
            return 'primitive quartet (%d,%d) is omitted although its bound is not below the tolerance' % (i, j)
    if inc == want:
        res['full'] += 1
    key = (tuple(sorted(inc)), tuple(n.id for n in r.res))
    if key in cache:
        return cache[key]
    for k in list(sy.members):
        sy.members[k] = [c for c in sy.members[k] if c in inc]
    gl = harness.goals(sy, q, deriv, r.bc, r.kc)
    tab = prove.label_table(sy, *q, deriv)
    tab.pop(0, None)
    pf = prove.Proof(sy, st, tab)
    zero = [n for n, g in zip(r.res, gl) if g[-1][0] == 'S' and not sy.members[g[-1]]]
    rest = [(n, g) for n, g in zip(r.res, gl) if not (g[-1][0] == 'S' and not sy.members[g[-1]])]
    out = None
    for n in zero:
        if n is not T.ZERO:
            z = prove.Z()
            e = z.tr(n, lambda t: None)
            a, _ = prove.z3prove(z.side, e == 0, st)
            if a != 'proved':
                out = 'an integral without contributing primitives is not zero' if a == 'refuted' else '?zero output not proved'
    try:
        pf.run(rest)
        res['outputs'] += len(rest)
        if pf.failed and out is None:
            out = '?%d terms without a proof' % len(pf.failed)
    except prove.Mismatch as e:
        out = 'output %d is not the sum over the primitives that pass the screening' % e.idx
    cache[key] = out
    return out

def confirm(lib, files, fn, q, deriv, bra, ket, bc, kc, m, seed, asan):
    """the values of the solver's model on the compiled kernel: is its output a sum
    over some set of primitive quartets that has all whose bound is not below?"""
    import kcheck
    v = replay.geometry(seed, bra, ket)
    scr = {}
    for sd, n in (('P', sum(bra)), ('Q', sum(ket))):
        for i in range(n):
            scr['S%s@%d' % (sd, i)] = m.get('S%s@%d' % (sd, i), Fraction(0))
        scr['S%smax' % sd] = m.get('S%smax' % sd, max([scr['S%s@%d' % (sd, i)] for i in range(n)]))
    tol = m.get('tol', Fraction(0))
    text = replay.driver(lib, fn, q, deriv, bra, ket, bc, kc, v, None, tol=tol, screens=scr)
    fl = kcheck.replay_files(lib, files)
    hd = '/* %s with screening; compile with gcc -O2 %s and the library */\n' % (fn, ' '.join(build.MFLAGS[lib.vec]))
    for a in ((True, False) if asan else (False,)):
        ret, out = replay.native(lib, fl, text, asan=a)
        if out is None:
            return str(ret)[:500], hd + text
    if ret != bc * kc:
        return 'returned %s' % ret, hd + text
    sy = System(seed, bra, ket)
    nper = harness.nout(q, deriv)
    k = 0
    cl = harness.cartlist(q)
    for a in range(bc):
        for b in range(kc):
            ms = sy.members[('S', a, b)]
            # floating-point products decide near the tolerance: those are optional
            must = [c for c in ms if float(scr['SP@%d' % c[0]]) * float(scr['SQ@%d' % c[1]]) > float(tol) * (1 + 1e-14) or tol == 0]
            opt = [c for c in ms if c not in must]
            one = {}
            for c in ms:
                one[c] = replay.reference([('1', x + (0,), c) for x in cl] if not deriv else [('D', cen, i, x, c) for x in cl for cen in range(4) for i in range(3)], v, sy)
            got = out[k:k + nper]
            k += nper
            sc = max([abs(x) for o in one.values() for x in o] + [1e-30])
            ok = False
            for n in range(1 << min(len(opt), 12)):
                sel = must + [c for x, c in enumerate(opt) if n >> x & 1]
                if all(abs(sum(one[c][z] for c in sel) - got[z]) <= 1e-9 * sc for z in range(nper)):
                    ok = True
                    break
            if not ok:
                return 'shell quartet (%d,%d): the output is no sum that includes the primitive quartets %s (screening values %s, squared tolerance %s)' % (a, b, must, {x: float(y) for x, y in scr.items()}, float(tol)), hd + text
    return None

def run_jobs(c, jobs, budget, procs=8):
    tot = dict(runs=0, proved=0, partial=0, inconclusive=0, paths=0, outputs=0, omitted_quartets_justified=0, unscreened_paths=0, queries=0, solver_s=0.0, lemmas=0)
    fs = set()
    for j in jobs:
        j['lib'].index()
    def go(j):
        fn = kern.kname(j['q'], j['deriv'])
        return run_one(j['lib'], j['q'], j['deriv'], j['bra'], j['ket'], j.get('bc'), j.get('kc'), fn, seed=c.seed, deadline=time.time() + 240)
    jobs = sorted(jobs, key=lambda j: -kernels.weight(j['q'], j['deriv'], j['bra'], j['ket']))
    for j, s, r in check.tasks(jobs, go, jobs=procs, deadline=time.time() + budget, memgb=10):
        tag = '%s/%s %s bra=%s ket=%s clip=%s,%s' % (j['cfg'], kern.kname(j['q'], j['deriv']), j['lib'].vec, j['bra'], j['ket'], j.get('bc'), j.get('kc'))
        tot['runs'] += 1
        if s != 'ok':
            tot['inconclusive'] += 1
            c.inc('%s: %s %s' % (tag, s, r))
            continue
        tot['paths'] += r['paths']; tot['outputs'] += r['outputs']; tot['omitted_quartets_justified'] += r['omitted']; tot['unscreened_paths'] += r['full']
        tot['queries'] += r['stats']['queries']; tot['solver_s'] += r['stats']['time']; tot['lemmas'] += r['stats']['lemmas']
        fs.update(r['functions'])
        if r['status'] == 'violated':
            c.violation('screen:%s' % tag.replace(' ', '_'), '%s: %s' % (tag, r['detail']), r['replay'], 'c')
        else:
            tot[r['status']] = tot.get(r['status'], 0) + 1
            if r['status'] != 'proved':
                c.inc('%s: %s' % (tag, r['detail']))
    tot['solver_s'] = round(tot['solver_s'], 2)
    return dict(tot, functions_encoded=len(fs), functions=sorted(fs))

def entry(c, lib):
    """simint_compute_ostei / _deriv with symbolic tolerance and maxima: -1 only if
    the product of the maxima is below the squared tolerance; otherwise the kernel
    gets the squared tolerance, both structures, and its result is returned"""
    mods, inc = entrylib.modules(lib, 2, 1)
    off = build.offsets(lib.src, lib.vec)
    st = prove.Stats()
    n = 0
    tol, sp, sq = z3.Real('tol'), z3.Real('SPmax'), z3.Real('SQmax')
    for fn in ('simint_compute_eri', 'simint_compute_eri_deriv', 'simint_compute_ostei', 'simint_compute_ostei_deriv'):
        for deriv in ((0, 1) if 'deriv' in fn else (0,)):
            for q in ((0, 0, 0, 0), (1, 0, 2, 1), (0, 2, 1, 2)):
                ex = fork.Explorer([tol >= 0, sp >= 0, sq >= 0], st)
                def run(decide):
                    rec = []
                    def kern_(ex, k, P, Q, t, w, o):
                        rec.append((k, [ex.rdi(P + lib.off[('MSP', f)]) for f in ('am1', 'am2')] + [ex.rdi(Q + lib.off[('MSP', f)]) for f in ('am1', 'am2')], t, w, o))
                        return 7
                    e = irx.Exec(mods, intercept=entrylib.Kernels(kern_))
                    e.decider = decide
                    ps = [lib.msp(e, am1=x, am2=y, nprim=1, nshell12=1, nshell12_clip=1, screen_max=T.var(nm)) for x, y, nm in ((q[0], q[1], 'SPmax'), (q[2], q[3], 'SQmax'))]
                    w, o = e.new(64, 64, 'work'), e.new(64, 64, 'out')
                    e.call('simint_init')
                    try:
                        r = e.call(fn, *(([deriv] if 'deriv' in fn else []) + [ps[0], ps[1], T.var('tol'), e.addr(w), e.addr(o)]))
                    except irx.Fault as x:
                        return None, 'fault: %s' % x, None, None
                    return r, rec, e.addr(w), e.addr(o)
                for (r, rec, w, o), path, s in ex.explore(run):
                    n += 1
                    bad = None
                    if isinstance(rec, str):
                        bad = rec
                    elif r == (1 << 32) - 1 and not rec:
                        if ex.sat(s, sp * sq >= tol * tol):
                            s.add(sp * sq >= tol * tol)
                            bad = 'reports that everything is screened although the product of the stored maxima is not below the squared tolerance'
                    elif len(rec) != 1 or rec[0][0] != (deriv,) + q or rec[0][1] != list(q) or rec[0][3:] != (w, o):
                        bad = 'the kernel for these angular momenta is not called exactly once with the given shell pairs, work array and output'
                    elif r != 7:
                        bad = 'the result of the kernel is not returned'
                    else:
                        z = prove.Z()
                        t = z.tr(rec[0][2], lambda x: None)
                        s.add(*z.side)
                        if ex.sat(s, t > tol * tol):
                            s.add(t > tol * tol)
                            bad = 'the kernel gets a screening threshold above the squared tolerance'
                    if bad:
                        m = model(s)
                        c.violation('entry:%s:%d' % (fn, deriv), '%s(%s) with %s: %s' % (fn, q, {a: str(b) for a, b in m.items()}, bad), entry_replay(lib, fn, deriv, q, m, bad), 'c')
    c.coverage['entry'] = dict(functions=4, paths=n, queries=st.queries, solver_s=round(st.time, 2))

def entry_replay(lib, fn, deriv, q, m, bad):
    d = {k: float(m.get(k, 0)) for k in ('tol', 'SPmax', 'SQmax')}
    return ('/* %s; link with the library */\n#include <stdio.h>\n#include <stdlib.h>\n#include "simint/simint.h"\n'
            'int main(void) { struct simint_shell s[4]; struct simint_multi_shellpair P, Q; double a = 1.0, c = 1.0; int l[4] = {%d, %d, %d, %d};\n'
            'simint_init(); simint_initialize_shells(4, s); simint_initialize_multi_shellpair(&P); simint_initialize_multi_shellpair(&Q);\n'
            'for (int i = 0; i < 4; i++) simint_create_shell(1, l[i], 0.1 * i, 0.0, 0.0, &a, &c, s + i);\n'
            'simint_create_multi_shellpair(1, s, 1, s + 1, &P, 1); simint_create_multi_shellpair(1, s + 2, 1, s + 3, &Q, 1);\n'
            'double *w = malloc(simint_ostei_workmem(%d, SIMINT_OSTEI_MAXAM) + 64), *o = malloc(12 * 10000 * 8);\n'
            'P.screen_max = %r; Q.screen_max = %r; printf("returned %%d\\n", %s(%s&P, &Q, %r, w, o)); return 0; }\n') % ((bad,) + tuple(q) + (deriv, d['SPmax'], d['SQmax'], fn, '%d, ' % deriv if 'deriv' in fn else '', d['tol']))
