"""B06: normalised shells have unit self-overlap."""
import os, sys, math, random, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from fractions import Fraction
import z3, mpmath
import check, build, shells, irx, prove, replay, screening, terms as T
from prove import z3prove

R = z3.Real
PILO, PIHI = shells.PILO, shells.PIHI

class Powers:
    """powers as products of powers of atoms: pow(x y, e) = pow(x, e) pow(y, e).
    Every atom t with exponents that are multiples of g is represented by u = t^g"""
    def __init__(self, n, am, st):
        self.n, self.st = n, st
        self.g = Fraction(2 * am + 3, 4)
        self.side = []
        self.atoms = {}
        self.memo = {}
        a = [R('a%d' % i) for i in range(n)]
        self.ref = [('a%d' % i, a[i]) for i in range(n)] + [('s%d_%d' % (i, j), a[i] + a[j]) for i in range(n) for j in range(i + 1, n)]
        self.hyps = [x > 0 for x in a]
    def unit(self, name, e):
        k = e / self.g
        if k.denominator != 1:
            if name in self.odd and self.odd[name] != e:
                raise irx.Unsupported('exponents %s of one base' % e)
            self.odd[name] = e
            u = R('u_%s_%s' % (name, str(e).replace('/', 'o')))
            self.side.append(u > 0)
            return u
        u = R('u_' + name)
        self.side.append(u > 0)
        k = int(k)
        r = z3.RealVal(1)
        for _ in range(abs(k)):
            r = r * u
        return r if k >= 0 else 1 / r
    odd = {}
    def const(self, c, e):
        if c <= 0:
            raise irx.Unsupported('power of a constant that is not positive')
        if c == 1:
            return z3.RealVal(1)
        if e.denominator not in (1, 2, 4):
            raise irx.Unsupported('exponent %s' % e)
        v = R('k%s_%s' % (str(c).replace('/', 'o'), str(e).replace('/', 'o')))
        p = v
        for _ in range(e.denominator - 1):
            p = p * v
        q = Fraction(c) ** int(e * e.denominator)
        self.side += [v > 0, p == z3.RealVal(str(q))]
        return v
    def atom(self, t):
        """(constant, name) of a base"""
        if t.id not in self.memo:
            vals = {}
            rnd = random.Random(7)
            v = shells.Values(11)
            v.var = lambda n: vals.setdefault(n, Fraction(rnd.randrange(3, 1000), 7))
            for i in range(self.n):
                v.var('a%d' % i)
            x = v(t)
            got = None
            for nm, e in self.ref:
                y = vals[nm] if nm[0] == 'a' else vals['a' + nm[1:].split('_')[0]] + vals['a' + nm.split('_')[1]]
                for c in (Fraction(1), Fraction(2), Fraction(1, 2), Fraction(4), Fraction(1, 4)):
                    if x == c * y:
                        z = prove.Z()
                        r, _ = z3prove(self.hyps + z.side, z.tr(t, lambda q: None) == z3.RealVal(str(c)) * e, self.st)
                        if r == 'proved':
                            got = (c, nm)
                            break
                if got:
                    break
            self.memo[t.id] = got
        return self.memo[t.id]
    def power(self, t, e):
        if t.op == 'c':
            return self.const(t.a[0], e)
        g = self.atom(t)
        if g:
            return self.const(g[0], e) * self.unit(g[1], e)
        if t.op == '*':
            return self.power(t.a[0], e) * self.power(t.a[1], e)
        if t.op == '/':
            return self.power(t.a[0], e) / self.power(t.a[1], e)
        if t.op == 'sqrt':
            return self.power(t.a[0], e / 2)
        if t.op == 'f' and t.a[0] == 'pow' and t.a[2].op == 'c':
            return self.power(t.a[1], e * t.a[2].a[0])
        raise irx.Unsupported('base of a power: ' + T.show(t, 3))
    def leaf(self, t):
        if t.op == 'f' and t.a[0] == 'pow' and t.a[2].op == 'c':
            return self.power(t.a[1], t.a[2].a[0])
        if t.op == 'sqrt':
            try:
                return self.power(t.a[0], Fraction(1, 2))
            except irx.Unsupported:
                return None
        return None

_k = {}
def normconst(k, l, st):
    """k is the self-overlap factor pi^(3/2) (2l-1)!! / 2^l to 1e-14"""
    pi, x = R('pi'), z3.RealVal(str(k))
    df = 1
    for i in range(1, 2 * l, 2):
        df *= i
    f = z3.RealVal(str(Fraction(df, 2 ** l)))
    ref = pi * pi * pi * f * f
    tol = z3.Q(1, 10 ** 14)
    r, _ = z3prove([pi >= PILO, pi <= PIHI], z3.And(x > 0, x * x <= ref * (1 + 2 * tol), x * x >= ref * (1 - 2 * tol)), st)
    return {'proved': True, 'refuted': False}.get(r)

def run(lib, am, n, others, seed):
    """one shell of am with n primitives between the others"""
    st = prove.Stats()
    out = dict(status='held', detail='', queries=0)
    shl = others[:1] + [(am, n)] + others[1:]
    me = len(others[:1])
    m = shells.Machine(lib, shells.modules(lib))
    ex = m.ex
    try:
        sh = m.shells(shl)
        ex.call('simint_normalize_shells', len(shl), sh)
        sz = lib.off[('SHELL', 'size')]
        s = sh + sz * me
        co = [ex.rd(m.ptr(s, 'coef', 'SHELL'), i) for i in range(n)]
        al = [ex.rd(m.ptr(s, 'alpha', 'SHELL'), i) for i in range(n)]
    except irx.Fault as e:
        return bad(lib, shl, me, seed, 'fault: %s' % e, out)
    except irx.Unsupported as e:
        return dict(out, status='inconclusive', detail='not encoded: %s' % e)
    # independence: only the data of this shell occur
    ok = {'a%d_%d' % (me, i) for i in range(n)} | {'c%d_%d' % (me, i) for i in range(n)}
    probs = []
    if T.has_undef(co + al):
        return bad(lib, shl, me, seed, 'a value is not set', out)
    for i, x in enumerate(al):
        if x is not T.var('a%d_%d' % (me, i)):
            probs.append('exponent %d is changed' % i)
    pw = Powers(n, am, st)
    ren = {}
    for i in range(n):
        ren['a%d_%d' % (me, i)] = R('a%d' % i)
        ren['c%d_%d' % (me, i)] = R('c%d' % i)
    # rename the variables of this shell so that the powers know them
    sub = {}
    def name(t):
        for x in T.cone([t]):
            if x.id in sub:
                continue
            if x.op == 'v' and x.a[0] in ok:
                sub[x.id] = T.var(x.a[0][0] + x.a[0].split('_')[1])
            elif x.op == 'v' or x.op == 'c':
                sub[x.id] = x
            else:
                sub[x.id] = T.mk(x.op, tuple(sub[c.id] if isinstance(c, T.N) else c for c in x.a))
        return sub[t.id]
    try:
        co = [name(x) for x in co]
        z = prove.Z()
        zc = [z.tr(x, pw.leaf) for x in co]
        c = [R('c%d' % i) for i in range(n)]
        m_ = Fraction(2 * am + 3, 2)
        p = [pw.unit('a%d' % i, m_ / 2) for i in range(n)]
        def d(i, j):
            if i == j:
                return pw.const(Fraction(2), m_) * pw.unit('a%d' % i, m_)
            return pw.unit('s%d_%d' % (min(i, j), max(i, j)), m_)
        S = sum([c[i] * c[j] * p[i] * p[j] / d(i, j) for i in range(n) for j in range(n)])
        hy = pw.side + z.side + [S > 0]
        vs = {x.a[0] for x in T.cone(co) if x.op == 'v'}
        alien = [v for v in vs if '_' in v]
        if alien:
            probs.append('coefficients depend on %s of another shell' % alien[0])
        # new coefficients are f c_i a_i^(m/2) with one factor f > 0
        f = R('f')
        for i in range(n):
            for j in range(i):
                r, _ = z3prove(hy, zc[i] * c[j] * p[j] == zc[j] * c[i] * p[i], st)
                if r == 'refuted':
                    probs.append('relative weight of primitives %d and %d' % (i, j))
                elif r != 'proved':
                    out.update(status='inconclusive', detail='relative weight: %s' % r)
        # the constant: overlap of the x^l component without it
        k = None
        pt = point(co, n, am, seed)
        df = float(mpmath.fac2(2 * am - 1)) * math.pi ** 1.5 / 2 ** am
        cs = sorted({t.a[0] for t in T.cone(co) if t.op == 'c' and t.a[0] > 0}, key=lambda q: abs(float(q) / df - 1))
        if not probs:
            for kk in cs[:2]:
                kz = z3.RealVal(str(kk))
                # sum c'c'/d = 1/k, given the weights: (c'_i)^2 S = c_i^2 p_i^2 / k
                good = True
                for i in range(n):
                    r, _ = z3prove(hy, z3.And(zc[i] * zc[i] * S * kz == c[i] * c[i] * p[i] * p[i], zc[i] * c[i] >= 0), st)
                    if r != 'proved':
                        good = False
                if good:
                    k = kk
                    break
            if k is None:
                probs.append('the self-overlap is not constant, or its constant is not found')
            else:
                g = normconst(k, am, st)
                if g is False:
                    probs.append('the self-overlap factor of am=%d is %r' % (am, float(k)))
                elif g is None:
                    out.update(status='inconclusive', detail='constant')
        if abs(pt - 1) > 1e-12 and not probs:
            probs.append('self-overlap %r at a point' % pt)
    except irx.Unsupported as e:
        out.update(status='inconclusive', detail='not encoded: %s' % e)
        probs.append('?')
    out['queries'], out['time'] = st.queries, st.time
    out['functions'] = sorted(k if isinstance(k, str) else k[-1] for k in ex.calls)
    if probs:
        return bad(lib, shl, me, seed, '; '.join(probs), out)
    return out

def point(co, n, am, seed):
    """self-overlap in real arithmetic at one point"""
    rnd = random.Random(seed)
    v = {}
    for i in range(n):
        v['a%d' % i] = mpmath.mpf(rnd.randrange(16, 256)) / 64
        v['c%d' % i] = mpmath.mpf(rnd.randrange(16, 256)) / 64
    c = [float_eval(x, v) for x in co]
    K = mpmath.pi ** 1.5 * mpmath.fac2(2 * am - 1) / 2 ** am
    return float(sum(c[i] * c[j] * K / (v['a%d' % i] + v['a%d' % j]) ** (am + mpmath.mpf(3) / 2) for i in range(n) for j in range(n)))

def float_eval(root, v):
    m = {}
    for t in T.cone([root]):
        a = [m[c.id] if isinstance(c, T.N) else c for c in t.a]
        if t.op == 'c': x = mpmath.mpf(a[0].numerator) / a[0].denominator
        elif t.op == 'v': x = v.get(a[0], mpmath.mpf(1.5))
        elif t.op == '+': x = a[0] + a[1]
        elif t.op == '*': x = a[0] * a[1]
        elif t.op == '/': x = a[0] / a[1]
        elif t.op == 'sqrt': x = mpmath.sqrt(a[0])
        elif t.op == 'f' and a[0] == 'pow': x = a[1] ** a[2]
        elif t.op == 'f' and a[0] == 'exp': x = mpmath.exp(a[1])
        else: raise irx.Unsupported('evaluation of ' + t.op)
        m[t.id] = x
    return m[root.id]

def bad(lib, shl, me, seed, text, out):
    """the compiled function on concrete shells"""
    H = replay.hexf
    for attempt in range(3):
        rnd = random.Random(seed * 100 + attempt)
        L = ['#include <stdio.h>', '#include "simint/shell/shell.h"', 'int simint_compute_eri(void) { return 0; }', 'int main(void) { struct simint_shell s[%d]; simint_initialize_shells(%d, s);' % (len(shl), len(shl))]
        data = []
        for k, (am, n) in enumerate(shl):
            a = [Fraction(rnd.randrange(16, 256), 64) for _ in range(n)]
            c = [Fraction(rnd.randrange(16, 256), 64) for _ in range(n)]
            data.append((a, c))
            L.append('{ double a[] = {%s}, c[] = {%s}; simint_create_shell(%d, %d, 0.5, 1.0, 2.0, a, c, s + %d); }' % (', '.join(map(H, a)), ', '.join(map(H, c)), n, am, k))
        L.append('simint_normalize_shells(%d, s);' % len(shl))
        L.append('for (int k = 0; k < %d; k++) for (int i = 0; i < s[k].nprim; i++) printf("%%d %%d %%.17g %%.17g\\n", k, i, s[k].alpha[i], s[k].coef[i]);' % len(shl))
        L.append('simint_free_shells(%d, s); return 0; }' % len(shl))
        prog = '\n'.join(L) + '\n'
        rc, o = shells.native(lib, [m.name for m in shells.modules(lib)], prog)
        hd = '/* shells %s; compile with gcc %s */\n' % (shl, ' '.join(build.MFLAGS[lib.vec]))
        if rc:
            return dict(out, status='violated', detail='%s; replayed: exit %d: %s' % (text, rc, o[:300]), replay=hd + prog)
        got = {}
        for l in o.split('\n'):
            t = l.split()
            if len(t) == 4:
                got[(int(t[0]), int(t[1]))] = (float(t[2]), float(t[3]))
        for k, (am, n) in enumerate(shl):
            a, c = data[k]
            M = mpmath.mpf
            m = am + M(3) / 2
            K = mpmath.pi ** 1.5 * mpmath.fac2(2 * am - 1) / 2 ** am
            S = sum(M(float(c[i])) * float(c[j]) * K * (M(float(a[i])) * float(a[j])) ** (m / 2) / (M(float(a[i])) + float(a[j])) ** m for i in range(n) for j in range(n))
            for i in range(n):
                e = float(c[i]) * M(float(a[i])) ** (m / 2) / mpmath.sqrt(S)
                if got[(k, i)][0] != float(a[i]) or not abs(got[(k, i)][1] - e) <= 1e-12 * abs(e):
                    return dict(out, status='violated', detail='%s; replayed: coefficient %d of shell %d (am %d) is %r, should be %s' % (text, i, k, am, got[(k, i)][1], mpmath.nstr(e, 17)), replay=hd + prog)
    return dict(out, status='inconclusive', detail=text + '; not reproduced')

def body(c):
    src = build.source(2, 2, 1)
    lib = shells.libs(src, ('sse',))[0][1]
    shells.modules(lib)
    lib.index()
    jobs = []
    for am in range(21):
        for n in (1, 2, 3) + ((4, 5) if c.thorough else ()):
            jobs.append((am, n, [] if (am + n) % 3 else [((am + 7) % 21, 2), ((am + 1) % 21, 1)]))
    tot = dict(shells=0, held=0, inconclusive=0, queries=0, solver_s=0.0)
    fs = set()
    for j, s, r in check.tasks(jobs, lambda j: run(lib, *j, seed=c.seed), deadline=time.time() + c.left() - 30):
        tag = 'am=%d nprim=%d%s' % (j[0], j[1], ' among others' if j[2] else '')
        tot['shells'] += 1
        if s != 'ok':
            c.inc('%s: %s %s' % (tag, s, r))
            continue
        tot['queries'] += r['queries']; tot['solver_s'] += r.get('time', 0)
        fs.update(r.get('functions', ()))
        if r['status'] == 'violated':
            c.violation('norm:am=%d,nprim=%d' % j[:2], '%s: %s' % (tag, r['detail']), r['replay'], 'c')
        else:
            tot[r['status']] += 1
            if r['status'] != 'held':
                c.inc('%s: %s' % (tag, r['detail']))
    tot['solver_s'] = round(tot['solver_s'], 2)
    c.coverage.update(tot, functions=sorted(fs), functions_encoded=len(fs), bounds='every angular momentum of the normalisation table (0 to 20), 1 to %d primitives, alone and between other shells' % (5 if c.thorough else 3))
    c.assumptions += ['floating point operations are the exact operations on real numbers (DESIGN.md, arithmetic)', 'pow(x y, e) = pow(x, e) pow(y, e) for positive x, y', 'the self-overlap is positive (primitives are linearly independent)', 'the tabulated factor agrees with the exact one to 1e-14']
check.main('B06', body)
