"""Kernels inside exactly the documented memory: workspace of the reported size,
exact output range, read-only inputs and globals, undefined initial contents."""
import time, os
from fractions import Fraction
import z3
import irx, kern, harness, prove, replay, build, check, fork, kernels, screening, terms as T

WRAP = '''#include "simint/ostei/ostei_config.h"
size_t v_workmem(int d, int l) { return simint_ostei_workmem(d, l); }
'''

def workmem(lib):
    """(order, angular momentum) -> bytes, from the real header"""
    if not hasattr(lib, '_wm'):
        p = os.path.join(build.scratch(), 'wm.c')
        build.put(p, '#include <stddef.h>\n' + WRAP)
        lib._wmx = irx.Module(lib.text(p), p)
        lib._wm = {}
    def g(d, l):
        k = (d, l)
        if k not in lib._wm:
            lib._wm[k] = irx.Exec([lib._wmx]).call('v_workmem', d, l)
        return lib._wm[k]
    return g

class Globals:
    """everything static is read-only; what is thread-local is written freely, and its
    contents at the start are unknown"""
    def __init__(self, ex):
        self.ex = ex
        g = ex.gptr
        self.tls = set()
        self.seen = set()
        def gptr(mod, name):
            a = g(mod, name)
            if isinstance(a, int):
                o = ex.objs[a >> irx.SHIFT]
                d = mod.globals.get(name)
                if o.id not in self.seen:
                    self.seen.add(o.id)
                    if d is not None and d.get('tls'):
                        o.ro = False
                        o.cells = {}
                        o.uni8 = False
                        self.tls.add(o.name)
                    else:
                        o.ro = True
            return a
        ex.gptr = gptr
        # objects that exist already (initialisation of the library)
        for a in list(ex.gaddr.values()) + list(ex.faddr.values()):
            if isinstance(a, int):
                ex.objs[a >> irx.SHIFT].ro = True
                self.seen.add(a >> irx.SHIFT)

def run_one(lib, q, deriv, bra, ket, bc, kc, screen, seed=1, deadline=None, maxpaths=400, fn=None):
    st = prove.Stats()
    fn = fn or kern.kname(q, deriv)
    res = dict(status='held', detail='', paths=0, outputs=0, loads=0, undef_queries=0, functions=set())
    mods = lib.link([lib.index()[fn]], stop=('boys_F_split',))
    files = [m.name for m in mods]
    wm = workmem(lib)(deriv, max(q))
    res['work'] = wm
    hy = screening.hyps(bra, ket) if screen else []
    exr = fork.Explorer(hy, st, maxpaths=maxpaths, deadline=deadline)
    def run(decide):
        r = harness.setup(lib, q, deriv, bra, ket, bc, kc, screen=screen, mods=mods, work=wm)
        r.ex.decider = decide
        Globals(r.ex)
        try:
            harness.execute(r, fn)
        except irx.Fault as e:
            return r, e
        return r, None
    try:
        for (r, fault), path, s in exr.explore(run):
            res['paths'] += 1
            res['functions'].update(k if isinstance(k, str) else k[-1] for k in r.ex.calls)
            bad = None
            if fault is not None:
                bad = str(fault)
            else:
                res['outputs'] += len(r.res)
                u = undefs(r.res)
                for n in u:
                    # two runs with different initial contents
                    res['undef_queries'] += 1
                    a = differs(n, s, st)
                    if a == 'sat':
                        bad = 'an output depends on what the workspace or output held before (%s)' % T.show(n, 3)[:200]
                        break
                    if a == 'unknown':
                        res.update(status='inconclusive', detail='dependence on initial contents not decided')
            if bad:
                m = screening.model(s) if screen else {}
                c = confirm(lib, files, fn, q, deriv, bra, ket, r.bc, r.kc, m, seed, screen)
                if c:
                    res.update(status='violated', detail='%s; replayed: %s' % (bad, c[0]), replay=c[1])
                    break
                res.update(status='inconclusive', detail=bad + '; not reproduced')
                break
    except irx.Unsupported as e:
        res.update(status='inconclusive', detail='not encoded: %s' % e)
    except fork.TooManyPaths as e:
        res.update(status='inconclusive', detail=str(e))
    res['stats'] = st.as_dict()
    res['functions'] = sorted(res['functions'])
    return res

def undefs(roots):
    """the roots that have an undefined value below them"""
    bad = set()
    for n in T.cone(roots):
        if n.op == 'undef' or any(isinstance(c, T.N) and c.id in bad for c in n.a):
            bad.add(n.id)
    return [n for n in roots if n.id in bad]

def differs(n, s, st):
    """can two different initial contents give different values?"""
    z = prove.Z()
    e1 = z.tr(n, lambda t: None)
    e2 = z.tr(n, lambda t: z3.Real('undef2!%d' % t.id) if t.op == 'undef' else None)
    q = z3.Solver()
    q.set('timeout', 20000)
    q.add(*s.assertions())
    q.add(*z.side)
    q.add(e1 != e2)
    t = time.time()
    r = q.check()
    st.queries += 1
    st.time += time.time() - t
    return str(r)

def confirm(lib, files, fn, q, deriv, bra, ket, bc, kc, m, seed, screen):
    """exact allocations under ASan; inputs compared afterwards; two initial fillings"""
    import kcheck
    v = replay.geometry(seed, bra, ket)
    scr = None
    tol = 0.0
    if screen:
        scr = {}
        for sd, n in (('P', sum(bra)), ('Q', sum(ket))):
            for i in range(n):
                scr['S%s@%d' % (sd, i)] = m.get('S%s@%d' % (sd, i), Fraction(0))
            scr['S%smax' % sd] = m.get('S%smax' % sd, max([scr['S%s@%d' % (sd, i)] for i in range(n)]))
        tol = m.get('tol', Fraction(0))
    base = replay.driver(lib, fn, q, deriv, bra, ket, bc, kc, v, 'simint_ostei_workmem(%d, %d)' % (deriv, max(q)), tol=tol, screens=scr)
    outs = []
    for fill in ('0xff', '0', '0x3f'):
        t = base.replace('memset(work, 0xff,', 'memset(work, %s,' % fill).replace('memset(out, 0xff,', 'memset(out, %s,' % fill)
        if fill == '0xff':
            t = t.replace('int r = %s(' % fn, 'struct simint_multi_shellpair P0 = snap(P), Q0 = snap(Q); int r = %s(' % fn).replace('printf("ret', 'if (changed(P, P0) || changed(Q, Q0)) { fprintf(stderr, "an input was modified\\n"); return 3; } printf("ret')
            t = t.replace('int main(void){', snap(lib, max(len(bra), len(ket)), screen) + 'int main(void){')
        fl = kcheck.replay_files(lib, files)
        hd = '/* %s inside exactly the documented memory; compile with gcc -fsanitize=address %s and the library */\n' % (fn, ' '.join(build.MFLAGS[lib.vec]))
        ret, out = replay.native(lib, fl, t, asan=True)
        if out is None:
            return str(ret)[:600], hd + t
        outs.append((fill, out, t))
    import math
    for fill, out, t in outs[1:]:
        for i, (a, b) in enumerate(zip(outs[0][1], out)):
            if not (a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-12 * max(abs(a), abs(b))):
                return 'output %d is %r with one and %r with another initial filling' % (i, a, b), hd + t
    if any(math.isnan(a) for a in outs[0][1]):
        return 'outputs are not numbers when the workspace is filled with NaN', hd + outs[0][2]
    return None

def snap(lib, n, screen):
    fs = [f for f in harness.BRAN if (f not in ('alpha2', 'beta2') or ('MSP', f) in lib.off) and (f != 'screen' or screen)]
    s = 'static size_t len(struct simint_multi_shellpair P) { size_t k = 0; for (int i = 0; i < P.nshell12; i++) { k += P.nprim12[i]; if ((i + 1) % SIMINT_NSHELL_SIMD == 0 || i + 1 == P.nshell12) k = SIMINT_SIMD_ROUND(k); } return k; }\n'
    s += 'static struct simint_multi_shellpair snap(struct simint_multi_shellpair P) { struct simint_multi_shellpair R = P; size_t n = len(P);\n'
    for f in fs:
        s += 'R.%s = cp(P.%s, n);\n' % (f, f)
    for x in 'xyz':
        s += 'R.AB_%s = cp(P.AB_%s, P.nshell12);\n' % (x, x)
    s += 'return R; }\nstatic int changed(struct simint_multi_shellpair P, struct simint_multi_shellpair R) { size_t n = len(P); return 0\n'
    for f in fs:
        s += '|| memcmp(P.%s, R.%s, 8 * n)\n' % (f, f)
    for x in 'xyz':
        s += '|| memcmp(P.AB_%s, R.AB_%s, 8 * P.nshell12)\n' % (x, x)
    return s + '; }\n'

def run_jobs(c, jobs, budget, procs=8):
    tot = dict(runs=0, held=0, inconclusive=0, paths=0, outputs=0, undef_queries=0, queries=0, solver_s=0.0)
    fs = set()
    for j in jobs:
        j['lib'].index()
        workmem(j['lib'])
    def go(j):
        return run_one(j['lib'], j['q'], j['deriv'], j['bra'], j['ket'], j.get('bc'), j.get('kc'), j.get('screen'), seed=c.seed, deadline=time.time() + 200)
    jobs = sorted(jobs, key=lambda j: -kernels.weight(j['q'], j['deriv'], j['bra'], j['ket']) * (20 if j.get('screen') else 1))
    for j, s, r in check.tasks(jobs, go, jobs=procs, deadline=time.time() + budget, memgb=10):
        tag = '%s/%s %s bra=%s ket=%s clip=%s,%s%s' % (j['cfg'], kern.kname(j['q'], j['deriv']), j['lib'].vec, j['bra'], j['ket'], j.get('bc'), j.get('kc'), ' screened' if j.get('screen') else '')
        tot['runs'] += 1
        if s != 'ok':
            tot['inconclusive'] += 1
            c.inc('%s: %s %s' % (tag, s, r))
            continue
        for k in ('paths', 'outputs', 'undef_queries'):
            tot[k] += r[k]
        tot['queries'] += r['stats']['queries']; tot['solver_s'] += r['stats']['time']
        fs.update(r['functions'])
        if r['status'] == 'violated':
            c.violation('memory:%s' % tag.replace(' ', '_'), '%s: %s' % (tag, r['detail']), r['replay'], 'c')
        else:
            tot[r['status']] += 1
            if r['status'] != 'held':
                c.inc('%s: %s' % (tag, r['detail']))
    tot['solver_s'] = round(tot['solver_s'], 2)
    return dict(tot, functions_encoded=len(fs), functions=sorted(fs)[:400])
