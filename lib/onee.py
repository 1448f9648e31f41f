"""One-electron integrals: the library's routines on symbolic shells, each intermediate
value proved to be an integral by the recurrences of Obara and Saika."""
import os, time, random
from fractions import Fraction
import z3, mpmath
import irx, kern, prove, replay, build, shells, screening, harness, terms as T
from osref import PR, inv, issq, root, psi4_order, ncart, dec
from prove import z3prove

R = z3.Real
XYZ = 'xyz'
FILES = {'overlap': ('simint_oneelectron.c', 'osoei/osoei_overlap.c', 'osoei/osoei_terms.c', 'recur_lookup.c'),
         'ke': ('simint_oneelectron.c', 'osoei/osoei_ke.c', 'osoei/osoei_terms.c', 'recur_lookup.c'),
         'potential': ('simint_oneelectron.c', 'osoei/osoei_potential.c', 'recur_lookup.c')}

def modules(lib, kind):
    """the entry point and everything it calls"""
    if not hasattr(lib, '_onee'):
        lib._onee = {}
    if kind not in lib._onee:
        fn = 'simint_compute_' + kind
        lib._onee[kind] = lib.link([lib.index()[fn]], stop=('boys_F_split',)) if fn in lib.index() else lib.link([lib.path(f) for f in FILES[kind]], stop=('boys_F_split',))
    return lib._onee[kind]

class Run:
    def __init__(self, lib, kind, shl, ncen, prep=None):
        self.lib, self.kind, self.shl, self.ncen = lib, kind, shl, ncen
        self.ex = ex = irx.Exec(modules(lib, kind), intercept={'boys_F_split': kern.boys_uf(lib.W)})
        if prep:
            prep(ex)
        sz = lib.off[('SHELL', 'size')]
        ps = []
        for k, (am, n) in enumerate(shl):
            o = ex.new(sz, 16, 'shell %d' % k)
            o.uni8 = False
            p = ex.addr(o)
            st = lambda f, ty, v: ex.store(p + lib.off[('SHELL', f)], ty, v)
            st('am', irx.I32, am); st('nprim', irx.I32, n)
            for x, X in zip(XYZ, 'AB'[k] * 3):
                st(x, irx.DBL, T.var(X + x))
            st('alpha', irx.PTR, ex.array([T.var('%s%d' % ('ab'[k], i)) for i in range(n)], align=8, name='exponents of shell %d' % k))
            st('coef', irx.PTR, ex.array([T.var('%s%d' % ('cd'[k], i)) for i in range(n)], align=8, name='coefficients of shell %d' % k))
            o.ro = True
            ps.append(p)
        self.nout = ncart(shl[0][0]) * ncart(shl[1][0])
        self.out = ex.new(8 * self.nout, 8, 'output')
        a = [ex.addr(self.out)]
        if kind == 'potential':
            cs = [ex.array([T.var('%s%d' % (q, i)) for i in range(ncen)], align=8, name=q) for q in ('Z', 'Cx', 'Cy', 'Cz')]
            a = [ncen] + cs + ps + a
        else:
            a = ps + a
        self.ret = ex.call('simint_compute_' + kind, *a)
        self.res = [ex.rd(ex.addr(self.out), i) for i in range(self.nout)]

def pairs(am1, am2):
    return [(a, b) for a in psi4_order(am1) for b in psi4_order(am2)]

class Ref:
    """values modulo PR of everything, at a random point"""
    def __init__(self, kind, shl, ncen, pi, seed):
        rnd = random.Random(seed)
        Q = lambda: rnd.randrange(2, PR - 2)
        self.kind, self.shl, self.ncen, self.pi = kind, shl, ncen, pi
        self.v = v = {}
        for X in 'AB':
            for x in XYZ:
                v[X + x] = Q()
        for k in range(2):
            for i in range(shl[k][1]):
                v['cd'[k] + str(i)] = Q()
        for i in range(ncen):
            for q in ('Z', 'Cx', 'Cy', 'Cz'):
                v['%s%d' % (q, i)] = Q()
        for t in range(100000):
            for k in range(2):
                for i in range(shl[k][1]):
                    v['ab'[k] + str(i)] = Q()
            if all(issq(pi * inv((v['a%d' % i] + v['b%d' % j]) % PR) % PR) for i in range(shl[0][1]) for j in range(shl[1][1])):
                break
        self.unkv = {}
        self.rnd = rnd
        self.tab = {}
        self.lab = {}
        self.defs = {}
        for x in XYZ:
            self.scal('AB' + x, (v['A' + x] - v['B' + x]) % PR, R('A' + x) - R('B' + x))
            self.scal('ABs' + x, (v['A' + x] - v['B' + x]) ** 2 % PR, (R('A' + x) - R('B' + x)) * (R('A' + x) - R('B' + x)))
        self.AB2 = sum((v['A' + x] - v['B' + x]) ** 2 for x in XYZ) % PR
        self.scal('AB2', self.AB2, sum([(R('A' + x) - R('B' + x)) * (R('A' + x) - R('B' + x)) for x in XYZ]))
        l1, l2 = shl[0][0], shl[1][0]
        for i in range(shl[0][1]):
            for j in range(shl[1][1]):
                self.prim(i, j, l1, l2)
    def unk(self, k):
        if k not in self.unkv:
            self.unkv[k] = self.rnd.randrange(2, PR - 2)
        return self.unkv[k]
    def scal(self, name, val, d):
        val %= PR
        self.defs[name] = (val, d)
        self.tab.setdefault(val, ('s', name))
    def label(self, l, val):
        self.lab[l] = val % PR
        self.tab.setdefault(val % PR, ('l', l))
    def prim(self, i, j, l1, l2):
        v = self.v
        a, b = v['a%d' % i], v['b%d' % j]
        za, zb = R('a%d' % i), R('b%d' % j)
        c = '_%d_%d' % (i, j)
        p = (a + b) % PR
        u = inv(p)
        h = u * inv(2) % PR
        mu = a * b * u % PR
        zu = R('u' + c)
        S = self.scal
        S('p' + c, p, za + zb)
        S('u' + c, u, None)
        S('h' + c, h, zu / 2)
        S('mu' + c, mu, za * zb * zu)
        S('ta' + c, a * u, za * zu)
        S('tb' + c, b * u, zb * zu)
        P = {}
        PA, PB = {}, {}
        for x in XYZ:
            P[x] = (a * v['A' + x] + b * v['B' + x]) * u % PR
            zP = (za * R('A' + x) + zb * R('B' + x)) * zu
            S('P' + x + c, P[x], zP)
            PA[x], PB[x] = (P[x] - v['A' + x]) % PR, (P[x] - v['B' + x]) % PR
            S('PA' + x + c, PA[x], zP - R('A' + x))
            S('PB' + x + c, PB[x], zP - R('B' + x))
        ctx = (i, j)
        if self.kind != 'potential':
            sq = root(self.pi * u % PR)
            for d, x in enumerate(XYZ):
                AB2 = (v['A' + x] - v['B' + x]) ** 2 % PR
                s = {}
                base = sq * self.unk(('exp', (-mu * AB2) % PR)) % PR
                def sv(m, n):
                    if m < 0 or n < 0:
                        return 0
                    if (m, n) not in s:
                        if m:
                            s[m, n] = (PA[x] * sv(m - 1, n) + h * ((m - 1) * sv(m - 2, n) + n * sv(m - 1, n - 1))) % PR
                        elif n:
                            s[m, n] = (PB[x] * sv(m, n - 1) + h * (n - 1) * sv(m, n - 2)) % PR
                        else:
                            s[m, n] = base
                    return s[m, n]
                for m in range(l1 + 3):
                    for n in range(l2 + 3):
                        self.label(('S', ctx, d, m, n), sv(m, n))
                if self.kind == 'ke':
                    for m in range(l1 + 2):
                        for n in range(l2 + 2):
                            t = -inv(2) * (4 * b * b * sv(m, n + 2) - 2 * b * (2 * n + 1) * sv(m, n) + n * (n - 1) * sv(m, n - 2)) % PR
                            self.label(('T', ctx, d, m, n), t)
        else:
            K = self.unk(('exp', (-mu * self.AB2) % PR))
            for k in range(self.ncen):
                ck = ctx + (k,)
                cc = c + '_%d' % k
                PC = {}
                for x in XYZ:
                    PC[x] = (P[x] - v['C%s%d' % (x, k)]) % PR
                    S('PC' + x + cc, PC[x], R('P' + x + c) - R('C%s%d' % (x, k)))
                S('PCs' + cc, sum(PC[x] ** 2 for x in XYZ), sum([R('PC' + x + cc) * R('PC' + x + cc) for x in XYZ]))
                arg = p * sum(PC[x] ** 2 for x in XYZ) % PR
                S('arg' + cc, arg, R('p' + c) * R('PCs' + cc))
                mem = {}
                def nv(A, B, m):
                    key = (A, B, m)
                    if key not in mem:
                        r = 0
                        for d in range(3):
                            if A[d] or B[d]:
                                w = A[d] > 0
                                A1, B1 = (dec(A, d), B) if w else (A, dec(B, d))
                                x = XYZ[d]
                                r = (PA if w else PB)[x] * nv(A1, B1, m) - PC[x] * nv(A1, B1, m + 1)
                                if A1[d]:
                                    r += h * A1[d] * (nv(dec(A1, d), B1, m) - nv(dec(A1, d), B1, m + 1))
                                if B1[d]:
                                    r += h * B1[d] * (nv(A1, dec(B1, d), m) - nv(A1, dec(B1, d), m + 1))
                                break
                        else:
                            r = self.unk(('boys', m, arg)) * 2 * self.pi * u * K
                        mem[key] = r % PR
                    return mem[key]
                for la in range(l1 + 2):
                    for lb in range(l2 + 2):
                        if la + lb <= l1 + l2 + 1:
                            for A in psi4_order(la):
                                for B in psi4_order(lb):
                                    for m in range(l1 + l2 - la - lb + 1) if la + lb <= l1 + l2 else ():
                                        self.label(('N', ck, A, B, m), nv(A, B, m))
                # needed by outputs with more functions than l1 + l2 allow: none
    def goal(self, A, B):
        """(coefficient names, labels) of the output"""
        out = []
        for i in range(self.shl[0][1]):
            for j in range(self.shl[1][1]):
                cc = ('c%d' % i, 'd%d' % j)
                if self.kind == 'overlap':
                    out.append((1, cc, [('S', (i, j), d, A[d], B[d]) for d in range(3)]))
                elif self.kind == 'ke':
                    for e in range(3):
                        out.append((1, cc, [('T' if d == e else 'S', (i, j), d, A[d], B[d]) for d in range(3)]))
                else:
                    for k in range(self.ncen):
                        out.append((-1, cc + ('Z%d' % k,), [('N', (i, j, k), A, B, 0)]))
        return out

def simulate(roots, ref):
    memo = {}
    for n in T.cone(roots):
        a = [memo[c.id] if isinstance(c, T.N) else c for c in n.a]
        op = n.op
        if op == 'c': x = n.a[0].numerator % PR * inv(n.a[0].denominator % PR)
        elif op == 'v': x = ref.v[n.a[0]]
        elif op == '+': x = a[0] + a[1]
        elif op == '*': x = a[0] * a[1]
        elif op == '/': x = a[0] * inv(a[1])
        elif op == 'sqrt': x = root(a[0]) if issq(a[0]) else ref.unk(('sqrt', a[0]))
        elif op == 'f' and a[0] == 'boys': x = ref.unk(('boys', int(n.a[1].a[0]), a[2]))
        elif op == 'f': x = ref.unk((a[0],) + tuple(a[1:]))
        else: x = ref.unk((op, n.id))
        memo[n.id] = x % PR
    return memo

def lname(l):
    return str(l).replace(' ', '').replace("'", '')

class Prover:
    def __init__(self, ref, st):
        self.ref, self.st = ref, st
        self.cut = {}
        self.done = {}
        self.bad = []
        self.hyps = []
        for i in range(ref.shl[0][1]):
            for j in range(ref.shl[1][1]):
                self.hyps += [R('a%d' % i) > 0, R('b%d' % j) > 0, R('u_%d_%d' % (i, j)) * (R('a%d' % i) + R('b%d' % j)) == 1]
    def leafexpr(self, n):
        """what a cut node stands for"""
        k = self.cut.get(n.id)
        if k is None:
            return None
        return R(k[1]) if k[0] == 's' else R(lname(k[1]))
    def leaf(self, top):
        def f(t):
            if t is top:
                return None
            e = self.leafexpr(t)
            if e is not None:
                self.need.add(t)
            return e
        return f
    def run(self, roots, memo):
        ref = self.ref
        for n in T.cone(roots):
            if n.op in ('c', 'v'):
                continue
            k = ref.tab.get(memo[n.id])
            if k is not None:
                self.cut[n.id] = k
    def prove(self, n):
        """all cut nodes under n are what they stand for"""
        todo = [n]
        ok = True
        while todo:
            t = todo.pop()
            if t.id in self.done:
                continue
            self.done[t.id] = True
            self.need = set()
            if not self.lemma(t):
                self.bad.append((t, self.cut.get(t.id)))
                ok = False
            todo += self.need
        return ok
    def S(self, name):
        return R(name)
    def scaldefs(self):
        """definitions of the scalars, most basic first"""
        return [R(nm) == d for nm, (v, d) in self.ref.defs.items() if d is not None]
    def eq(self, t, cands, more=()):
        z = prove.Z()
        e = z.tr(t, self.leaf(t))
        for c in cands:
            r, _ = z3prove(z.side, e == c, self.st, 4000)
            if r == 'proved':
                return True
        for c in cands:
            # with the definitions of the scalars written out
            sub = self.expand
            r, _ = z3prove(self.hyps + z.side + list(more), sub(e) == sub(c), self.st, 8000)
            if r == 'proved':
                return True
        return False
    def expand(self, e):
        s = [(R(nm), d) for nm, (v, d) in self.ref.defs.items() if d is not None]
        for _ in range(4):
            e = z3.substitute(e, *s)
        return e
    def lemma(self, t):
        k = self.cut[t.id]
        if k[0] == 's':
            nm = k[1]
            d = self.ref.defs[nm][1]
            if d is None:
                # u = 1/(a + b)
                _, i, j = nm.split('_')
                z = prove.Z()
                e = z.tr(t, self.leaf(t))
                r, _ = z3prove(self.hyps + z.side, self.expand(e) == R(nm), self.st, 8000)
                return r == 'proved'
            return self.eq(t, [d])
        return self.eq(t, list(self.axioms(k[1]))) or self.base(t, k[1])
    def L(self, *l):
        return R(lname(l))
    def axioms(self, l):
        kind, ctx = l[0], l[1]
        c = '_%d_%d' % ctx[:2]
        u, h = R('u' + c), R('h' + c)
        a, b = R('a%d' % ctx[0]), R('b%d' % ctx[1])
        if kind in 'ST':
            _, _, d, i, j = l
            x = XYZ[d]
            PA, PB, AB = R('PA' + x + c), R('PB' + x + c), R('AB' + x)
            def S(m, n, kd=kind):
                return self.L(kd, ctx, d, m, n) if m >= 0 and n >= 0 else z3.RealVal(0)
            if kind == 'T':
                s = lambda m, n: S(m, n, 'S')
                mu = R('mu' + c)
                ta, tb = R('ta' + c), R('tb' + c)
                if j:
                    yield PB * S(i, j - 1) + h * (i * S(i - 1, j - 1) + (j - 1) * S(i, j - 2)) + 2 * mu * s(i, j) - (j - 1) * a * u * s(i, j - 2)
                if i:
                    yield PA * S(i - 1, j) + h * ((i - 1) * S(i - 2, j) + j * S(i - 1, j - 1)) + 2 * mu * s(i, j) - (i - 1) * b * u * s(i - 2, j)
                if not i and not j:
                    yield s(0, 0) * (a - 2 * a * a * (PA * PA + h))
                    yield s(0, 0) * (b - 2 * b * b * (PB * PB + h))
                yield -(4 * b * b * s(i, j + 2) - 2 * b * (2 * j + 1) * s(i, j) + j * (j - 1) * s(i, j - 2)) / 2
                yield -(4 * a * a * s(i + 2, j) - 2 * a * (2 * i + 1) * s(i, j) + i * (i - 1) * s(i - 2, j)) / 2
                # derivative once on each side
                yield (4 * a * b * s(i + 1, j + 1) - 2 * a * j * s(i + 1, j - 1) - 2 * b * i * s(i - 1, j + 1) + i * j * s(i - 1, j - 1)) / 2
                return
            if j:
                yield PB * S(i, j - 1) + h * (i * S(i - 1, j - 1) + (j - 1) * S(i, j - 2))
            if i:
                yield PA * S(i - 1, j) + h * ((i - 1) * S(i - 2, j) + j * S(i - 1, j - 1))
            if j:
                yield S(i + 1, j - 1) + AB * S(i, j - 1)
            if i:
                yield S(i - 1, j + 1) - AB * S(i - 1, j)
        else:
            _, _, A, B, m = l
            cc = c + '_%d' % ctx[2]
            N = lambda A, B, m: self.L('N', ctx, A, B, m)
            for w in (1, 0):
                for d in range(3):
                    if (B if w else A)[d]:
                        x = XYZ[d]
                        A1, B1 = (A, dec(B, d)) if w else (dec(A, d), B)
                        r = R(('PB' if w else 'PA') + x + c) * N(A1, B1, m) - R('PC' + x + cc) * N(A1, B1, m + 1)
                        if A1[d]:
                            r = r + h * A1[d] * (N(dec(A1, d), B1, m) - N(dec(A1, d), B1, m + 1))
                        if B1[d]:
                            r = r + h * B1[d] * (N(A1, dec(B1, d), m) - N(A1, dec(B1, d), m + 1))
                        yield r
            for d in range(3):
                x = XYZ[d]
                if B[d]:
                    A1 = tuple(q + (e == d) for e, q in enumerate(A))
                    yield N(A1, dec(B, d), m) + R('AB' + x) * N(A, dec(B, d), m)
                if A[d]:
                    B1 = tuple(q + (e == d) for e, q in enumerate(B))
                    yield N(dec(A, d), B1, m) - R('AB' + x) * N(dec(A, d), B, m)
    def base(self, t, l):
        """the integral without angular momentum: square root, exponential, Boys function"""
        kind, ctx = l[0], l[1]
        c = '_%d_%d' % ctx[:2]
        pi = z3.RealVal(str(self.ref.pirat))
        lf = self.leaf(t)
        found = {'exp': 0}
        def leaf(n):
            e = lf(n)
            if e is not None:
                return e
            if n.op == 'f' and n.a[0] == 'exp':
                arg = (-R('mu' + c) * R('ABs' + XYZ[l[2]])) if kind != 'N' else -R('mu' + c) * R('AB2')
                if self.eq2(n.a[1], arg):
                    return R('E')
            if n.op == 'sqrt' and kind != 'N' and self.eq2(n.a[0], pi * R('u' + c)):
                return R('Q')
            if n.op == 'f' and n.a[0] == 'boys' and kind == 'N':
                if self.eq2(n.a[2], R('arg' + c + '_%d' % ctx[2])) and int(n.a[1].a[0]) == l[4]:
                    return R('F')
            return None
        z = prove.Z()
        e = z.tr(t, leaf)
        if kind == 'S' and l[3:] == (0, 0):
            g = R('Q') * R('E')
        elif kind == 'N' and l[2] == l[3] == (0, 0, 0):
            g = R('F') * 2 * pi * R('u' + c) * R('E')
        else:
            return False
        hy = [R('Q') > 0, R('Q') * R('Q') == pi * R('u' + c), R('E') > 0]
        r, _ = z3prove(z.side + hy, e == g, self.st, 8000)
        if r != 'proved':
            r, _ = z3prove(self.hyps + z.side + hy, self.expand(e) == self.expand(g), self.st, 8000)
        return r == 'proved'
    def eq2(self, n, d):
        z = prove.Z()
        e = z.tr(n, self.leaf(None))
        r, _ = z3prove(z.side, e == d, self.st, 4000)
        if r != 'proved':
            r, _ = z3prove(self.hyps + z.side, self.expand(e) == self.expand(d), self.st, 8000)
        return r == 'proved'

def findpi(roots, st):
    """the constant used for pi, decided by z3 to be within 1e-14"""
    best = None
    for t in T.cone(roots):
        if t.op == 'c' and t.a[0] > 0:
            for f in (1, 2, 4, Fraction(1, 2)):
                k = t.a[0] / f
                e = abs(float(k) / 3.141592653589793 - 1)
                if e < 1e-2 and (best is None or e < best[0]):
                    best = (e, k)
    if best is None:
        return None, False
    k = z3.RealVal(str(best[1]))
    pi = R('pi')
    r, _ = z3prove([pi >= shells.PILO, pi <= shells.PIHI], z3.And(k <= pi * (1 + z3.Q(1, 10 ** 14)), k >= pi * (1 - z3.Q(1, 10 ** 14))), st)
    return best[1], r == 'proved'

def run_one(lib, kind, shl, ncen, seed=1):
    st = prove.Stats()
    res = dict(status='proved', detail='', outputs=0, lemmas=0)
    try:
        r = Run(lib, kind, shl, ncen)
    except irx.Fault as e:
        return violated(lib, kind, shl, ncen, seed, 'fault: %s' % e, res, None, st)
    except irx.Unsupported as e:
        return dict(res, status='inconclusive', detail='not encoded: %s' % e, stats=st.as_dict())
    res['functions'] = sorted(k if isinstance(k, str) else k[-1] for k in r.ex.calls)
    res['outputs'] = r.nout
    if T.has_undef(r.res):
        return violated(lib, kind, shl, ncen, seed, 'an output depends on memory that was not set', res, None, st)
    pi, ok = findpi(r.res, st)
    probs = []
    if pi is None and all(t is T.ZERO for t in r.res):
        pi, ok = Fraction(355, 113), True
    if pi is None or not ok:
        probs.append('the constant for pi is %s' % (None if pi is None else float(pi)))
        pi = pi or Fraction(355, 113)
    ref = Ref(kind, shl, ncen, pi.numerator * inv(pi.denominator % PR) % PR, seed)
    ref.pirat = pi
    memo = simulate(r.res, ref)
    pv = Prover(ref, st)
    pv.run(r.res, memo)
    for n, (A, B) in enumerate(pairs(shl[0][0], shl[1][0])):
        g = ref.goal(A, B)
        x = 0
        for s, cs, ls in g:
            y = s
            for q in cs:
                y = y * ref.v[q] % PR
            for q in ls:
                y = y * ref.lab[q] % PR
            x += y
        if x % PR != memo[r.res[n].id]:
            probs.append((n, A, B))
            continue
        t = r.res[n]
        z = prove.Z()
        pv.need = set()
        # the output itself may be one of the integrals (zero coefficients apart)
        e = z.tr(t, pv.leaf(t))
        goal = z3.RealVal(0) + sum([s * prod([R(q) for q in cs] + [R(lname(q)) for q in ls]) for s, cs, ls in g])
        rr, _ = z3prove(z.side, e == goal, st, 8000)
        need = list(pv.need)
        for q in need:
            if not pv.prove(q):
                rr = 'unknown'
        if rr != 'proved' and res['status'] == 'proved':
            res.update(status='partial', detail='output %d: %s %s' % (n, rr, [(b[1]) for b in pv.bad[:3]]))
    res['lemmas'] = len(pv.done)
    if probs:
        return violated(lib, kind, shl, ncen, seed, str(probs[0]) if isinstance(probs[0], str) else 'output %d (%s|%s) is not the integral' % probs[0], res, r, st)
    res['stats'] = st.as_dict()
    return res

def prod(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r * x
    return r

def program(kind, shl, ncen, get):
    """a C program that prints the integrals for the values get(name, low, high)"""
    H = replay.hexf
    L = ['#include <stdio.h>', '#include <stdlib.h>', '#include "simint/shell/shell.h"', '#include "simint/simint_oneelectron.h"', '']
    L.append('int main(void) { struct simint_shell s[2];')
    for k, (am, n) in enumerate(shl):
        al = [get('ab'[k] + str(i), 16, 128) for i in range(n)]
        co = [get('cd'[k] + str(i), -128, 128) for i in range(n)]
        cen = [get('AB'[k] + x, -96, 96) for x in XYZ]
        L.append('double a%d[] = {%s}, c%d[] = {%s};' % (k, ', '.join(map(H, al)), k, ', '.join(map(H, co))))
        L.append('s[%d].am = %d; s[%d].nprim = %d; s[%d].x = %s; s[%d].y = %s; s[%d].z = %s; s[%d].alpha = a%d; s[%d].coef = c%d; s[%d].ptr = 0; s[%d].memsize = 0;' % (k, am, k, n, k, H(cen[0]), k, H(cen[1]), k, H(cen[2]), k, k, k, k, k, k))
    N = ncart(shl[0][0]) * ncart(shl[1][0])
    L.append('double *out = malloc(%d * sizeof(double));' % N)
    if kind == 'potential':
        for q in ('Z', 'Cx', 'Cy', 'Cz'):
            L.append('double %s[] = {%s};' % (q, ', '.join(H(get('%s%d' % (q, i), -96, 96)) for i in range(ncen))))
        L.append('int r = simint_compute_potential(%d, Z, Cx, Cy, Cz, s, s + 1, out);' % ncen)
    else:
        L.append('int r = simint_compute_%s(s, s + 1, out);' % kind)
    L.append('for (int i = 0; i < %d; i++) printf("%%.17g\\n", out[i]);' % N)
    L.append('free(out); return r != 1; }')
    return N, '\n'.join(L) + '\n'

def violated(lib, kind, shl, ncen, seed, text, res, r, st):
    H = replay.hexf
    res['status'] = 'inconclusive'
    for attempt in range(3):
        rnd = random.Random(seed * 77 + attempt)
        V = lambda lo, hi: Fraction(rnd.randrange(lo, hi), 64)
        v = {}
        if r is not None and attempt == 0 and isinstance(text, str) and text.startswith('output'):
            res['counterexample'] = solver_point(kind, shl, ncen, r, int(text.split()[1]), v, rnd, st)
        get = lambda n, lo, hi: v.setdefault(n, V(lo, hi))
        N, prog = program(kind, shl, ncen, get)
        hd = '/* %s of shells (am, primitives) %s, %d charges; compile with gcc -fsanitize=address %s */\n' % (kind, shl, ncen, ' '.join(build.MFLAGS[lib.vec]))
        rc, o = shells.native(lib, [m.name for m in modules(lib, kind)], prog, more=[lib.path('boys/boys_shortgrid.c')] if kind == 'potential' else ())
        if rc:
            res.update(status='violated', detail='%s; replayed: exit %d: %s' % (text, rc, o[:300]), replay=hd + prog)
            break
        got = [float(x) for x in o.split()]
        want = exact(kind, shl, ncen, v)
        sc = max([abs(x) for x in want] + [1e-300])
        bad = [k for k in range(N) if not abs(got[k] - float(want[k])) <= 3e-13 * sc]
        if bad:
            k = bad[0]
            res.update(status='violated', detail='%s; replayed: integral %d %s is %r, should be %s' % (text, k, pairs(shl[0][0], shl[1][0])[k], got[k], mpmath.nstr(want[k], 17)), replay=hd + prog)
            break
    else:
        res['detail'] = text + '; not reproduced'
    res['stats'] = st.as_dict()
    return res

def solver_point(kind, shl, ncen, r, n, v, rnd, st):
    """z3: coefficients (between -2 and 2) for which the output differs clearly from the
    integral, at one choice of exponents and centers; they are put into v"""
    lin = ['cd'[k] + str(i) for k in range(2) for i in range(shl[k][1])] + ['Z%d' % i for i in range(ncen)]
    vals = {}
    def num(nm):
        if nm not in vals:
            vals[nm] = Fraction(rnd.randrange(16, 128), 64) if nm[0] in 'ab' else Fraction(rnd.randrange(-96, 96), 64)
        return vals[nm]
    memo = {}
    def point(t):
        """value of a term without coefficients, as a rational number"""
        for q in T.cone([t]):
            if q.id in memo:
                continue
            a = [memo[c.id] if isinstance(c, T.N) else c for c in q.a]
            if any(x is None for x in a):
                memo[q.id] = None
                continue
            F = lambda x: mpmath.mpf(x.numerator) / x.denominator
            with mpmath.workdps(40):
                if q.op == 'c': x = q.a[0]
                elif q.op == 'v': x = None if q.a[0] in lin else num(q.a[0])
                elif q.op == '+': x = a[0] + a[1]
                elif q.op == '*': x = a[0] * a[1]
                elif q.op == '/': x = a[0] / a[1] if a[1] else None
                elif q.op == 'sqrt': x = rat(mpmath.sqrt(F(a[0])))
                elif q.op == 'f' and a[0] == 'exp': x = rat(mpmath.exp(F(a[1])))
                elif q.op == 'f' and a[0] == 'boys': x = rat(replay.boys(int(a[1]), F(a[2])))
                else: x = None
            memo[q.id] = x
        return memo[t.id]
    def leaf(t):
        x = point(t)
        return None if x is None else z3.RealVal(str(x))
    try:
        z = prove.Z()
        e = z.tr(r.res[n], leaf)
        # the exact output is a polynomial in the coefficients: one unit vector at a time
        ref = z3.RealVal(0)
        for i in range(shl[0][1]):
            for j in range(shl[1][1]):
                for k in (range(ncen) if kind == 'potential' else (None,)):
                    w = dict(vals)
                    for X in 'AB':
                        for x in XYZ:
                            w[X + x] = num(X + x)
                    for q in ['a%d' % x for x in range(shl[0][1])] + ['b%d' % x for x in range(shl[1][1])] + ['C%s%d' % (x, q) for x in XYZ for q in range(ncen)]:
                        w[q] = num(q)
                    for q in lin:
                        w[q] = Fraction(int(q in ('c%d' % i, 'd%d' % j, 'Z%s' % k)))
                    c = exact(kind, shl, ncen, w, only=n)
                    t = z3.RealVal(str(rat(c))) * R('c%d' % i) * R('d%d' % j)
                    ref = ref + (t * R('Z%d' % k) if k is not None else t)
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(*z.side)
        s.add([z3.And(R(q) >= -2, R(q) <= 2) for q in lin])
        s.add(z3.Or(e - ref > z3.Q(1, 10 ** 6), ref - e > z3.Q(1, 10 ** 6)))
        t = time.time()
        x = s.check()
        st.queries += 1
        st.time += time.time() - t
        if x != z3.sat:
            return str(x)
        m = s.model()
        for q in lin:
            y = m[R(q)]
            vals[q] = Fraction(y.numerator_as_long(), y.denominator_as_long()) if y is not None and z3.is_rational_value(y) else Fraction(1)
        v.update(vals)
        return 'found'
    except (irx.Unsupported, ValueError, ZeroDivisionError) as e:
        return str(e)

def rat(x):
    return Fraction(mpmath.nstr(x, 30))

def exact(kind, shl, ncen, v, only=None):
    M = mpmath.mpf
    with mpmath.workdps(50):
        f = {k: M(x.numerator) / x.denominator for k, x in v.items()}
        out = []
        A = [f['A' + x] for x in XYZ]
        B = [f['B' + x] for x in XYZ]
        memo = {}
        def s1(i, j, d, m, n):
            if m < 0 or n < 0:
                return M(0)
            k = ('S', i, j, d, m, n)
            if k not in memo:
                a, b = f['a%d' % i], f['b%d' % j]
                p = a + b
                P = (a * A[d] + b * B[d]) / p
                if m:
                    memo[k] = (P - A[d]) * s1(i, j, d, m - 1, n) + ((m - 1) * s1(i, j, d, m - 2, n) + n * s1(i, j, d, m - 1, n - 1)) / (2 * p)
                elif n:
                    memo[k] = (P - B[d]) * s1(i, j, d, m, n - 1) + (n - 1) * s1(i, j, d, m, n - 2) / (2 * p)
                else:
                    memo[k] = mpmath.sqrt(mpmath.pi / p) * mpmath.exp(-a * b / p * (A[d] - B[d]) ** 2)
            return memo[k]
        def t1(i, j, d, m, n):
            b = f['b%d' % j]
            return -(4 * b * b * s1(i, j, d, m, n + 2) - 2 * b * (2 * n + 1) * s1(i, j, d, m, n) + n * (n - 1) * s1(i, j, d, m, n - 2)) / 2
        def n1(i, j, k, a_, b_, m):
            key = ('N', i, j, k, a_, b_, m)
            if key not in memo:
                a, b = f['a%d' % i], f['b%d' % j]
                p = a + b
                P = [(a * A[d] + b * B[d]) / p for d in range(3)]
                C = [f['C%s%d' % (x, k)] for x in XYZ]
                for d in range(3):
                    if a_[d] or b_[d]:
                        w = a_[d] > 0
                        A1, B1 = (dec(a_, d), b_) if w else (a_, dec(b_, d))
                        r = (P[d] - (A if w else B)[d]) * n1(i, j, k, A1, B1, m) - (P[d] - C[d]) * n1(i, j, k, A1, B1, m + 1)
                        if A1[d]:
                            r += A1[d] / (2 * p) * (n1(i, j, k, dec(A1, d), B1, m) - n1(i, j, k, dec(A1, d), B1, m + 1))
                        if B1[d]:
                            r += B1[d] / (2 * p) * (n1(i, j, k, A1, dec(B1, d), m) - n1(i, j, k, A1, dec(B1, d), m + 1))
                        memo[key] = r
                        break
                else:
                    x = p * sum((P[d] - C[d]) ** 2 for d in range(3))
                    F = replay.boys(m, x)
                    memo[key] = 2 * mpmath.pi / p * F * mpmath.exp(-a * b / p * sum((A[d] - B[d]) ** 2 for d in range(3)))
            return memo[key]
        ps = pairs(shl[0][0], shl[1][0])
        for a_, b_ in (ps if only is None else [ps[only]]):
            x = M(0)
            for i in range(shl[0][1]):
                for j in range(shl[1][1]):
                    cc = f['c%d' % i] * f['d%d' % j]
                    s = lambda d: s1(i, j, d, a_[d], b_[d])
                    if kind == 'overlap':
                        x += cc * s(0) * s(1) * s(2)
                    elif kind == 'ke':
                        t = lambda d: t1(i, j, d, a_[d], b_[d])
                        x += cc * (t(0) * s(1) * s(2) + s(0) * t(1) * s(2) + s(0) * s(1) * t(2))
                    else:
                        for k in range(ncen):
                            x -= cc * f['Z%d' % k] * n1(i, j, k, a_, b_, 0)
            out.append(x)
        return out if only is None else out[0]

def run_jobs(c, jobs, budget, procs=8):
    """jobs: (tag, lib, kind, shells, charges)"""
    import check
    tot = dict(runs=0, proved=0, inconclusive=0, outputs=0, lemmas=0, queries=0, solver_s=0.0)
    fs = set()
    for tag, lib, kind, shl, n in jobs:
        modules(lib, kind)
    for j, s, r in check.tasks(sorted(jobs, key=lambda j: -size(j)), lambda j: run_one(j[1], j[2], j[3], j[4], c.seed), jobs=procs, deadline=time.time() + budget):
        tag = '%s shells (am,primitives) %s%s' % (j[0], j[3], ' %d charges' % j[4] if j[2] == 'potential' else '')
        tot['runs'] += 1
        if s != 'ok':
            tot['inconclusive'] += 1
            c.inc('%s: %s %s' % (tag, s, r))
            continue
        tot['outputs'] += r['outputs']; tot['lemmas'] += r['lemmas']
        tot['queries'] += r['stats']['queries']; tot['solver_s'] += r['stats']['time']
        fs.update(r.get('functions', ()))
        if r['status'] == 'violated':
            c.violation('%s:%s:%s:%d' % (j[2], j[0], str(j[3]).replace(' ', ''), j[4]), '%s: %s' % (tag, r['detail']), r['replay'], 'c')
        elif r['status'] == 'proved':
            tot['proved'] += 1
        else:
            tot['inconclusive'] += 1
            c.inc('%s: %s' % (tag, r['detail']))
    tot['solver_s'] = round(tot['solver_s'], 2)
    c.coverage.update(tot, functions=sorted(fs), functions_encoded=len(fs))
    c.assumptions += ['floating point operations are the exact operations on real numbers (DESIGN.md, arithmetic)', 'exponents are positive', 'the recurrence relations of Obara and Saika characterise the integrals']

def size(j):
    (l1, n1), (l2, n2) = j[3]
    return n1 * n2 * ((l1 + 1) * (l2 + 1)) ** (2.5 if j[2] == 'potential' else 1) * max(1, j[4]) + (ncart(l1) * ncart(l2)) / 10
