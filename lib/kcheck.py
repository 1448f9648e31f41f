"""Decide one kernel run: proof of every output, or a confirmed counterexample."""
import time
import irx, kern, harness, prove, replay, build, terms as T
from osref import *

def qname(q, deriv=0):
    return kern.kname(q, deriv)

def prove_run(lib, q, deriv=0, bra=(1,), ket=(1,), bc=None, kc=None, fn=None, mods=None, seed=1, order=psi4_order, work=None, roots=None):
    """dict with status proved / partial / violated / inconclusive and statistics"""
    t0 = time.time()
    st = prove.Stats()
    res = dict(q=q, deriv=deriv, bra=bra, ket=ket, bc=bc, kc=kc, vec=lib.vec)
    if mods is None:
        mods = lib.link(roots or [lib.kfile(q, deriv)], stop=('boys_F_split',))
    res['files'] = [m.name for m in mods]
    r = harness.setup(lib, q, deriv, bra, ket, bc, kc, mods=mods, work=work)
    sy = System(seed, bra, ket)
    gl = harness.goals(sy, q, deriv, r.bc, r.kc, order)
    try:
        harness.execute(r, fn)
    except irx.Fault as e:
        res.update(status='fault', detail='%s: %s' % (e.kind if hasattr(e, 'kind') else 'fault', e))
        return confirm(res, lib, r, sy, gl, None, st, fn, t0)
    except irx.Unsupported as e:
        res.update(status='inconclusive', detail='not encoded: %s' % e)
        return done(res, st, r, t0, 0, [])
    if r.ret != r.bc * r.kc:
        res.update(status='mismatch', detail='returned %s for %d shell quartets' % (r.ret, r.bc * r.kc))
        return confirm(res, lib, r, sy, gl, 0, st, fn, t0)
    tab = prove.label_table(sy, *q, deriv)
    pf = prove.Proof(sy, st, tab)
    try:
        pf.run(list(zip(r.res, gl)))
    except prove.Mismatch as e:
        res.update(status='mismatch', detail='output %d is not %s' % (e.idx, gstr(gl[e.idx])))
        return confirm(res, lib, r, sy, gl, e.idx, st, fn, t0)
    bad = set(id(n) for n, g, w in pf.failed)
    res['status'] = 'proved' if not pf.failed else 'partial'
    if pf.failed:
        res['detail'] = '%d terms without a proof, e.g. %s' % (len(pf.failed), gstr(pf.failed[0][1]))
    return done(res, st, r, t0, len(gl), pf.failed)

def done(res, st, r, t0, n, failed):
    res['outputs'] = n
    res['failed'] = len(failed)
    res['stats'] = st.as_dict()
    res['steps'] = r.ex.steps
    res['functions'] = sorted(set(k if isinstance(k, str) else k[-1] for k in r.ex.calls))
    res['boys'] = max(r.ex.env.get('boys_orders', {0}), default=0)
    res['wall'] = time.time() - t0
    return res

def confirm(res, lib, r, sy, gl, idx, st, fn, t0):
    """counterexample from the solver, replayed on the code compiled by gcc"""
    fault = res['status'] == 'fault'
    files = [f for f in replay_files(lib, res['files'])]
    worst = None
    for k in range(4):
        v = replay.geometry(sy.rnd.randrange(10**9) + k, res['bra'], res['ket'])
        cx = ''
        if not fault and idx is not None and k == 0 and r.ret == r.bc * r.kc:
            try:
                sr, m, d = replay.solver_cex(r.res[idx], gl[idx], v, sy, st)
                cx = 'solver: %s for output %d = %s with %s' % (sr, idx, gstr(gl[idx]), m)
                res['solver'] = sr
            except Exception as e:
                cx = 'solver: not evaluated (%s)' % e
        ref = replay.reference(gl, v, sy)
        sc = max(abs(x) for x in ref) or 1.0
        text = replay.driver(lib, fn or kern.kname(res['q'], res['deriv']), res['q'], res['deriv'], res['bra'], res['ket'], r.bc, r.kc, v, None)
        for asan in ((True, False) if fault else (False,)):
            ret, out = replay.native(lib, files, text, asan=asan)
            if out is None:
                res.update(status='violated', detail=res['detail'] + '; replayed: ' + str(ret)[:600], replay=head(res, lib, cx, files) + text)
                return done(res, st, r, t0, 0, [])
            if ret != r.bc * r.kc:
                res.update(status='violated', detail=res['detail'] + '; the compiled kernel returned %d, expected %d' % (ret, r.bc * r.kc), replay=head(res, lib, cx, files) + text)
                return done(res, st, r, t0, 0, [])
            for i, (a, b) in enumerate(zip(out, ref)):
                if not abs(a - b) <= 1e-9 * sc:
                    res.update(status='violated', detail=res['detail'] + '; replayed: output %d = %s is %.15g, expected %.15g' % (i, gstr(gl[i]), a, b),
                               replay=head(res, lib, cx, files) + text)
                    return done(res, st, r, t0, 0, [])
    res.update(status='inconclusive', detail=res['detail'] + '; not reproduced on the compiled code')
    return done(res, st, r, t0, 0, [])

def replay_files(lib, files):
    fs = list(files)
    for f in ('boys/boys_shortgrid.c', 'boys/boys_longfac.c', 'ostei/ostei.c'):
        p = lib.path(f)
        import os
        if os.path.exists(p) and p not in fs:
            fs.append(p)
    ix = lib.index()
    out = []
    todo = list(fs)
    seen = set()
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        out.append(f)
        m = lib.module(f)
        names = [n for n, fn in m.funcs.items() if not fn.defined and not n.startswith('@llvm.')] + [n for n, g in m.globals.items() if g['ext']]
        for n in names:
            g = ix.get(n[1:])
            if g and g not in seen:
                todo.append(g)
    return out

def head(res, lib, cx, files):
    return '/* %s\n   %s\n   vector build: %s\n   bra shell pairs (primitives): %s  ket: %s\n   compile with: gcc -O2 %s this.c %s\n   (expected values: exact integrals, see /verif/lib/replay.py) */\n' % (
        kern.kname(res['q'], res['deriv']), res['detail'].replace('*/', ''), lib.vec, res['bra'], res['ket'], ' '.join(build.MFLAGS[lib.vec]), ' '.join(f.split('/simint/', 1)[-1] for f in files)) + ('/* %s */\n' % cx.replace('*/', '') if cx else '')
