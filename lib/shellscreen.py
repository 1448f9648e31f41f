"""B07: screening estimates of whole shell pairs, as the library returns them.

The two-electron integrals of the shell pair with itself are unknowns; what the
library passes to simint_compute_eri is compared with the shell pair data of B01."""
import time, random
from fractions import Fraction
import z3
import irx, prove, shells, screening, harness, memcheck, replay, build, fork, check, terms as T
from prove import z3prove
from shells import Scenario, Read, Spec, XYZ, FLD, R

SCHWARZ, FAST = 1, 2

class Machine(shells.Machine):
    """simint_compute_eri of a (contracted) pair with itself"""
    sc = None
    def eri(self, ex, P, Q, tol, work, out):
        rp = Read(self, P, self.sc)
        rq = rp if P == Q else Read(self, Q, self.sc)
        n = harness.ncart(rp.am[0]) * harness.ncart(rp.am[1])
        self.big.append((rp, rq, tol))
        for i in range(n * n):
            ex.store(out + 8 * i, irx.DBL, T.var('I%d' % i), 8)
        ex.access(work, self.lib.wm(0, max(rp.am)), 8 * self.lib.W, True)
        return 1

def z3b(r):
    return {'proved': True, 'refuted': False}.get(r)

def fastsum(spec, sc, n, kind, st):
    """n is the sum (kind 'sum') or the largest (kind 'max') of the [00|00] values of
    all primitive pairs, up to 1e-14 in the constant"""
    p = sc.pairs[0]
    prims = sc.prims(p)
    ref = {ij: spec.ref(p, ij) for ij in prims}
    side = []
    # one shell: all exponents are zero
    E = lambda ij: R('E') if p[0] == p[1] else R('E%d_%d' % ij)
    for ij in prims:
        w = R('w%d_%d' % ij)
        side += [w > 0, w * w * ref[ij]['alpha'] == 1, E(ij) > 0]
    def which(x, f, tag):
        # candidates by exact evaluation, decided by the solver
        for ij in prims:
            if spec.same(x, f(ref[ij]), tag=(p, ij, tag)):
                return ij
        return None
    def leaf(t):
        if t.op == 'f' and t.a[0] == 'exp':
            for k in (2, 1):
                ij = which(t.a[1], lambda r: k * r['arg'], 'exp%d' % k)
                if ij:
                    e = E(ij)
                    if k == 2:
                        return e
                    h = R('H%d_%d' % ij)
                    side.extend([h > 0, h * h == e])
                    return h
        if t.op == 'sqrt' or (t.op == 'f' and t.a[0] == 'sqrt'):
            base, k = t.a[-1], Fraction(1, 2)
        elif t.op == 'f' and t.a[0] == 'pow' and t.a[2].op == 'c':
            base, k = t.a[1], t.a[2].a[0]
        else:
            return None
        if (2 * k).denominator != 1:
            return None
        for s in (-1, 1):
            ij = which(base, (lambda r: r['alpha']) if s == 1 else (lambda r: 1 / r['alpha']), 'base%d' % s)
            if ij:
                w, e = R('w%d_%d' % ij), int(-2 * k * s)
                q = z3.RealVal(1)
                for _ in range(abs(e)):
                    q = q * w
                return q if e >= 0 else 1 / q
        return None
    z = prove.Z()
    e = z.tr(n, leaf)
    t = []
    for i, j in prims:
        w, ca, cb = R('w%d_%d' % (i, j)), R('c%d_%d' % (p[0], i)), R('c%d_%d' % (p[1], j))
        t.append(ca * ca * cb * cb * E((i, j)) * w * w * w * w * w)
    cs = [c.a[0] for c in T.cone([n]) if c.op == 'c' and c.a[0] > 0]
    res = False
    for c in sorted(set(cs + [x * y for x in cs for y in cs] + [x / y for x in cs for y in cs])):
        if abs(float(c) / 24.739429451193148 - 1) >= 1e-6:
            continue
        k = z3.RealVal(str(c))
        if kind == 'sum':
            goal = e == k * sum(t)
        else:
            # every selectable term is one of the estimates; then only their order counts
            g = [R('G%d' % i) for i in range(len(t))]
            found = {}
            def sel(u):
                if u.op in ('*', '/', '+', 'f') and u.id not in found:
                    zu = prove.Z()
                    x = zu.tr(u, leaf)
                    found[u.id] = next((g[i] for i, y in enumerate(t) if z3prove(spec.pos + side + zu.side, x == k * y, st)[0] == 'proved'), False)
                return found.get(u.id) if found.get(u.id) is not False else None
            zs = prove.Z()
            es = zs.tr(n, sel)
            r, _ = z3prove(zs.side + [x >= 0 for x in g], z3.And([es >= x for x in g] + [z3.Or([es == x for x in g])]), st)
            if r == 'proved':
                return shells.constant(c, 'sqrt(2) pi^(5/2)', st)
            goal = z3.And([e >= k * x for x in t] + [z3.Or([e == k * x for x in t])])
        r, _ = z3prove(spec.pos + side + z.side, goal, st)
        if z3b(r) is None:
            # for values of the exponentials, powers and coefficients on their own
            r, _ = z3prove([x for x in side if 'a%d_' % p[0] not in str(x)] + z.side, goal, st)
            r = r if r == 'proved' else None
        res = z3b(r)
        if res:
            return shells.constant(c, 'sqrt(2) pi^(5/2)', st)
        break
    return res

class Job:
    def __init__(self, fn, shells_, pair, method, null=False):
        self.fn, self.method, self.null = fn, method, null
        self.sc = Scenario(shells_, [[pair]])
    def name(self):
        return '%s method=%d shells=%s pair=%d%d%s' % (self.fn, self.method, ','.join('%d:%d' % s for s in self.sc.shells), self.sc.pairs[0][0], self.sc.pairs[0][1], ' without output array' if self.null else '')

def run_one(lib, job, seed=1, deadline=None):
    st = prove.Stats()
    res = dict(status='held', detail='', paths=0, functions=set(), replay='')
    lib.wm = memcheck.workmem(lib)
    mods = shells.modules(lib)
    sc = job.sc
    spec = Spec(sc, st, {}, seed)
    exr = shells.Ex([], st, maxpaths=2000, deadline=deadline)
    ka, kb = sc.pairs[0]
    prims = sc.prims(sc.pairs[0])
    def run(decide):
        m = (Machine if job.fn == 'simint_shellscreen' else shells.Machine)(lib, mods, decide)
        m.sc, m.big, m.hyps = sc, [], []
        ex = m.ex
        try:
            p = m.shells(sc.shells)
            sz = lib.off[('SHELL', 'size')]
            ex.find(p)[0].ro = True
            arg = [p + sz * ka, p + sz * kb]
            out = None
            if job.fn == 'simint_primscreen':
                out = 0 if job.null else ex.addr(ex.new(8 * len(prims), 8, 'output array'))
                arg.append(out)
            v = ex.call(job.fn, *(arg + [job.method]))
            o = [ex.rd(out, i) for i in range(len(prims))] if out else None
            ex.find(p)[0].ro = False
            ex.call('simint_free_shells', m.nsh, p)
            left = [x.name for x in ex.objs[1:] if x.heap and not x.freed]
            return m, v, o, left
        except irx.Fault as e:
            return m, e, None, None
    fast = job.method == FAST
    try:
        for (m, v, o, left), path, s in exr.explore(run):
            res['paths'] += 1
            res['functions'].update(k if isinstance(k, str) else k[-1] for k in m.ex.calls)
            if isinstance(v, irx.Fault):
                bad = [(False, 'fault: %s' % v)]
            else:
                bad = judge(spec, sc, job, lib, m, v, o, left, fast, s, st)
            bad = [x for x in bad if x[0] is not True]
            hard = [t for r, t in bad if r is False]
            if hard:
                c = confirm(lib, mods, job, s, seed)
                if c:
                    res.update(status='violated', detail='%s; replayed: %s' % ('; '.join(hard[:3]), c[0]), replay=c[1])
                    break
            if bad:
                res.update(status='inconclusive', detail='; '.join(t for r, t in bad[:3]) + ('; not reproduced' if hard else ''))
                break
    except irx.Unsupported as e:
        c = confirm(lib, mods, job, None, seed)
        res.update(status='inconclusive', detail='not encoded: %s' % e)
        if c:
            res.update(status='violated', detail='%s; replayed: %s' % (e, c[0]), replay=c[1])
    except fork.TooManyPaths as e:
        res.update(status='inconclusive', detail=str(e))
    res['stats'] = st.as_dict()
    res['functions'] = sorted(res['functions'])
    return res

def judge(spec, sc, job, lib, m, v, o, left, fast, s, st):
    out = []
    if left:
        out.append((False, 'memory not released: %s' % left[:3]))
    if T.has_undef([v]):
        return out + [(False, 'the value returned is not set')]
    ka, kb = sc.pairs[0]
    n1, n2 = (harness.ncart(sc.shells[k][0]) for k in (ka, kb))
    hyp = list(s.assertions())
    if job.fn == 'simint_shellscreen' and fast:
        return out + [(fastsum(spec, sc, v, 'sum', st), 'the value is not the sum of the estimates of the primitive pairs')]
    if job.fn == 'simint_shellscreen':
        if len(m.big) != 1:
            return out + [(False, 'the integrals of the shell pair with itself are calculated %d times' % len(m.big))]
        rp, rq, tol = m.big[0]
        for rd in (rp,) if rp is rq else (rp, rq):
            b, _ = shells.check_struct(rd, sc, lib, spec)
            out += [(None if t[0] == '?' else False, 'shell pair passed to the integral routine: ' + x) for t, x in b]
        if tol is not T.ZERO:
            out.append((None, 'the integrals are calculated with a tolerance'))
        z = prove.Z()
        e = z.tr(v, lambda t: None)
        ab = lambda i: z3.If(R('I%d' % i) >= 0, R('I%d' % i), -R('I%d' % i))
        dom = dominated(v, st)
        for q in sorted({((a * n2 + b) * n1 + a) * n2 + b for a in range(n1) for b in range(n2)}):
            if T.fabs(T.var('I%d' % q)).id in dom:
                continue
            r, _ = z3prove(hyp + z.side, e >= ab(q), st)
            if r != 'proved':
                out.append((z3b(r), 'the value can be below the diagonal integral %d' % q))
                break
        r = member(v, (n1 * n2) ** 2, st)
        if not r:
            r, _ = z3prove(hyp + z.side, z3.Or([e == ab(i) for i in range((n1 * n2) ** 2)]), st)
            r = z3b(r)
        out.append((r, 'the value is not the absolute value of an integral of the block'))
        return out
    prims = sc.prims(sc.pairs[0])
    terms = []
    if fast:
        if o is not None:
            for k, ij in enumerate(prims):
                one = Scenario(sc.shells, sc.groups, method=2)
                rd = type('S', (), dict(f={'screen': [o[k]]}))
                b = shells.screen_defs(spec, one, m, rd, {(0, ij): 0}) if not T.has_undef([o[k]]) else [('B03', 'element %d is not set' % k)]
                out += [(None if t[0] == '?' else False, x) for t, x in b]
            out.append((shells.maxof(spec, v, o, hyp) if False else maxof(v, o, hyp, st), 'the value returned is not the largest value'))
        else:
            out.append((fastsum(spec, sc, v, 'max', st), 'the value returned is not the largest estimate'))
        return out
    # the diagonal integrals of every primitive pair
    diag = []
    one = Scenario(sc.shells, sc.groups, method=1)
    for k, ij in enumerate(prims):
        r1 = dict(spec.ref(sc.pairs[0], ij), w=1)
        kc = None
        for ams, d, c in m.calls:
            if spec.val(d['alpha']) == spec.valref(sc.pairs[0], ij):
                kc = c
        if kc is None:
            return out + [(False, 'the integrals of primitive pair %s are not calculated' % (ij,))]
        diag.append([T.fabs(T.var('I%d_%d' % (kc, ((a * n2 + b) * n1 + a) * n2 + b))) for a in range(n1) for b in range(n2)])
        if o is not None:
            if T.has_undef([o[k]]):
                return out + [(False, 'element %d is not set' % k)]
            rd = type('S', (), dict(f={'screen': [o[k]]}))
            b = shells.screen_defs(spec, one, m, rd, {(0, ij): 0})
            out += [(None if t[0] == '?' else False, x) for t, x in b]
    out.append((maxof(v, [x for d in diag for x in d], hyp, st), 'the value returned is not the largest diagonal integral'))
    return out

def dominated(v, st):
    """terms that v is not below, by one lemma per selection"""
    out, todo = set(), [v]
    while todo:
        t = todo.pop()
        if t.id in out:
            continue
        out.add(t.id)
        if t.op == 'ite':
            x, y = t.a[1], t.a[2]
            z = prove.Z()
            e = z.tr(t, lambda u: R('sel_a') if u is x else R('sel_b') if u is y else None)
            r, _ = z3prove(z.side, z3.And(e >= R('sel_a'), e >= R('sel_b')), st)
            if r == 'proved':
                todo += [x, y]
    return out

def member(v, n, st):
    """v selects one of the |I_i|, or 0 (which is one of them where it is not below
    the diagonal integrals); every selectable term is decided on its own"""
    todo, seen = [v], set()
    while todo:
        t = todo.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'ite':
            todo += [t.a[1], t.a[2]]
            continue
        if t is T.ZERO:
            continue
        vs = [x.a[0] for x in T.cone([t]) if x.op == 'v']
        if len(vs) != 1 or vs[0][0] != 'I':
            return False
        z = prove.Z()
        e, x = z.tr(t, lambda u: None), R(vs[0])
        r, _ = z3prove(z.side, e == z3.If(x >= 0, x, -x), st)
        if r != 'proved':
            return False
    return True

def maxof(v, vals, hyp, st):
    def leaf(t):
        return R('u%d' % t.id) if t.op in ('f', '*', '/', 'sqrt') else None
    z = prove.Z()
    e = z.tr(v, leaf)
    vs = [z.tr(x, leaf) for x in vals]
    pos = [R('u%d' % t.id) >= 0 for t in T.cone([v] + list(vals)) if t.op in ('f', '*', '/', 'sqrt')]
    for x in vs:
        r, _ = z3prove(hyp + z.side + pos, e >= x, st)
        if r != 'proved':
            return z3b(r)
    r, _ = z3prove(hyp + z.side + pos, z3.Or([e == x for x in vs]), st)
    return z3b(r)

# ----- replay

def driver(lib, job, v, big, itab):
    sc = job.sc
    base = shells.cdriver(lib, Scenario(sc.shells, sc.groups, method=1 if job.fn == 'simint_primscreen' else 0), v, itab)
    head, main = base.split('int main(void) {')
    if job.fn == 'simint_shellscreen':
        # the whole block is given, and the shell pair is shown
        i, j = head.index('int simint_compute_eri('), head.index('static void dump(')
        head = head[:i] + head[j:]
        ns, nl = 1, len(harness.layout(sc.counts(), lib.W, lib.NS))
        head += 'static const double block[] = {%s};\nint simint_compute_eri(struct simint_multi_shellpair const *P, struct simint_multi_shellpair const *Q, double t, double *w, double *out) {\n  memset(w, 1, 64); dump((struct simint_multi_shellpair *)P, %d, %d); dump((struct simint_multi_shellpair *)Q, %d, %d);\n  for (int i = 0; i < (int)(sizeof block / 8); i++) out[i] = block[i];\n  return 1; }\n' % (', '.join(replay.hexf(x) for x in big), ns, nl, ns, nl)
    cut = main.index('struct simint_multi_shellpair P;')
    ka, kb = sc.pairs[0]
    n = len(sc.prims(sc.pairs[0]))
    L = main[:cut]
    if job.fn == 'simint_shellscreen':
        L += 'printf("value %%.17g\\n", simint_shellscreen(s + %d, s + %d, %d));\n' % (ka, kb, job.method)
    else:
        L += 'double *o = malloc(%d); printf("value %%.17g\\n", simint_primscreen(s + %d, s + %d, %s, %d));\n' % (8 * n, ka, kb, 'NULL' if job.null else 'o', job.method)
        if not job.null:
            L += 'for (int i = 0; i < %d; i++) printf("out %%.17g\\n", o[i]);\n' % n
        L += 'free(o);\n'
    return head + 'int main(void) {' + L + 'simint_free_shells(%d, s); return 0; }\n' % len(sc.shells)

def confirm(lib, mods, job, s, seed):
    sc = job.sc
    p = sc.pairs[0]
    n1, n2 = (harness.ncart(sc.shells[k][0]) for k in p)
    model = {}
    if s is not None:
        try:
            model = screening.model(s) or {}
        except Exception:
            model = {}
    fl = list(dict.fromkeys(m.name for m in mods))
    fast = job.method == FAST
    for attempt in range(8):
        rnd = random.Random(seed * 77 + attempt)
        vals = {}
        def v(n):
            if n not in vals:
                if attempt == 0 and n in model and (n[0] != 'a' or model[n] > 0):
                    vals[n] = Fraction(model[n])
                else:
                    vals[n] = Fraction(rnd.randrange(16, 256), 64) if n[0] == 'a' else Fraction(rnd.randrange(-128, 128) or 3, 64)
            return vals[n]
        # largest diagonal element at one position after another
        big = [Fraction(rnd.randrange(-1000, 1000), 1000) for _ in range((n1 * n2) ** 2)]
        diag = [((a * n2 + b) * n1 + a) * n2 + b for a in range(n1) for b in range(n2)]
        top = diag[(0, -1)[attempt] if attempt < 2 else rnd.randrange(len(diag))]
        big[top] = Fraction(3 + attempt, 1) * (-1) ** attempt
        if attempt == 2:
            big = [x / 1000 for x in big]
        itab = []
        sch = {}
        K2 = 2 ** 0.5 * 3.141592653589793 ** 2.5
        import math
        A, B = ([float(v('%s%d' % (x, k))) for x in 'XYZ'] for k in p)
        R2 = sum((x - y) ** 2 for x, y in zip(A, B))
        for ij in sc.prims(p):
            a, b = v('a%d_%d' % (p[0], ij[0])), v('a%d_%d' % (p[1], ij[1]))
            I = [Fraction(rnd.randrange(-1000, 1000), 100) for _ in range((n1 * n2) ** 2)]
            itab.append((a + b, I))
            if fast:
                c = float(v('c%d_%d' % (p[0], ij[0])) * v('c%d_%d' % (p[1], ij[1])))
                sch[ij] = K2 * float(a + b) ** -2.5 * math.exp(-2 * float(a * b / (a + b)) * R2) * c * c
            else:
                sch[ij] = max(abs(float(I[q])) for q in diag)
        text = driver(lib, job, v, big, itab)
        hd = '/* %s; compile with gcc -fsanitize=address %s and the files %s */\n' % (job.name(), ' '.join(build.MFLAGS[lib.vec]), ' '.join(fl))
        rc, out = shells.native(lib, fl, text)
        if rc:
            return 'exit %d: %s' % (rc, out[:600]), hd + text
        val = [float(l.split()[1]) for l in out.split('\n') if l.startswith('value')]
        o = [float(l.split()[1]) for l in out.split('\n') if l.startswith('out')]
        near = lambda x, y: abs(x - y) <= 1e-10 * max(abs(x), abs(y), 1e-300)
        if job.fn == 'simint_shellscreen' and fast:
            if not near(val[0], sum(sch.values())):
                return 'the value is %r, the sum of the estimates of the primitive pairs %r' % (val[0], sum(sch.values())), hd + text
        elif job.fn == 'simint_shellscreen':
            lo, hi = float(max(abs(big[q]) for q in diag)), float(max(abs(x) for x in big))
            if not (lo * (1 - 1e-14) <= val[0] <= hi * (1 + 1e-14)):
                return 'the value is %r, the largest diagonal integral of the block %r' % (val[0], lo), hd + text
            d = '\n'.join(l for l in out.split('\n') if not l.startswith('value'))
            k = d.split('head ')[1:]
            if len(k) != 2:
                return 'the integrals of the shell pair are calculated %d times' % (len(k) // 2), hd + text
            for x in k:
                try:
                    b = shells.numeric(lib, sc, v, [], 'head ' + x)
                except Exception as e:
                    b = [('', 'shell pair data are incomplete (%s)' % e)]
                if b:
                    return 'shell pair passed to the integral routine: %s' % b[0][1], hd + text
        else:
            if not near(val[0], max(sch.values())):
                return 'the value is %r, the largest value of the primitive pairs %r' % (val[0], max(sch.values())), hd + text
            for x, ij in zip(o, sc.prims(p)):
                if not near(x, sch[ij]):
                    return 'the value of primitive pair %s is %r, should be %r' % (ij, x, sch[ij]), hd + text
    return None
