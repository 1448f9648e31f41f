"""Shells and shell pairs: the library's own functions on symbolic shells, checked
against the gaussian product theorem."""
import time, random, math, os, itertools
from fractions import Fraction
import z3, mpmath
import irx, kern, harness, prove, replay, build, check, fork, memcheck, screening, terms as T
from prove import z3prove

R = z3.Real
XYZ = 'xyz'
FILES = ('shell/shell.c', 'shell/shell_screen.c', 'shell/shell_constants.c')

ASSUME = ['floating point operations are the exact operations on real numbers (DESIGN.md, arithmetic)', 'exp and pow are the mathematical functions', 'exponents are not negative and those of a pair do not add up to zero']

class Scenario:
    """shells: [(am, nprim)]; groups: lists of pairs of shell numbers, each created as one
    structure; how: 'list' (create_multi_shellpair2) or 'product' (create_multi_shellpair:
    the pairs are the product of the first and second members); method: screening;
    before: pair lists created in the same structure before; cat: None, 'multi' or 'single';
    clips and screening of the parts are those of the whole"""
    def __init__(self, shells, groups, how='list', method=0, before=(), cat=None, stash=None):
        self.shells, self.groups, self.how, self.method, self.before, self.cat = shells, groups, how, method, before, cat
        self.pairs = [p for g in groups for p in g]
    def name(self):
        return 'shells=%s groups=%s %s screen=%d%s%s' % (','.join('%d:%d' % s for s in self.shells), '|'.join(' '.join('%d%d' % p for p in g) for g in self.groups), self.how, self.method,
                                                          ' reused(%s)' % ','.join('%d:%d' % (len(b[0]), b[1]) for b in self.before) if self.before else '', ' cat-' + self.cat if self.cat else '')
    def counts(self):
        return [self.np(p) for p in self.pairs]
    def np(self, p):
        n, m = self.shells[p[0]][1], self.shells[p[1]][1]
        return n * (n + 1) // 2 if p[0] == p[1] else n * m
    def prims(self, p):
        n, m = self.shells[p[0]][1], self.shells[p[1]][1]
        return [(i, j) for i in range(n) for j in range(i + 1 if p[0] == p[1] else m)]

def modules(lib, more=(), stop=('simint_compute_eri', 'simint_compute_ostei', 'simint_compute_eri_deriv')):
    if not hasattr(lib, '_shm'):
        lib._shm = {}
    k = (more, stop)
    if k not in lib._shm:
        lib._shm[k] = lib.link([lib.path(f) for f in FILES + tuple(more)], stop=stop)
    return lib._shm[k]

FLD = ['x', 'y', 'z', 'PA_x', 'PA_y', 'PA_z', 'PB_x', 'PB_y', 'PB_z', 'alpha', 'prefac']

class Machine:
    def __init__(self, lib, mods, decider=None):
        self.lib = lib
        self.calls = []
        self.known = {}
        self.ex = irx.Exec(mods, intercept={'simint_compute_eri': self.eri})
        self.ex.decider = decider
        self.start = 0
    def i32(self, p, f, S='MSP'):
        v = self.ex.load(p + self.lib.off[(S, f)], irx.I32)
        if v is irx.UNDEFI:
            raise irx.Fault('uninit', 'field %s is not set' % f)
        return v - (1 << 32) if v >> 31 else v
    def ptr(self, p, f, S='MSP'):
        return self.ex.load(p + self.lib.off[(S, f)], irx.PTR)
    def dbl(self, p, f, S='MSP'):
        return self.ex.load(p + self.lib.off[(S, f)], irx.DBL)
    def eri(self, ex, P, Q, tol, work, out):
        """the integrals over one pair of primitive pairs, as unknowns that belong to
        the data of the pair"""
        if P != Q:
            raise irx.Unsupported('screening integral over two different pairs')
        if self.i32(P, 'nprim') != 1 or self.i32(P, 'nshell12_clip') != 1:
            raise irx.Unsupported('screening integral of a contracted pair')
        ams = self.i32(P, 'am1'), self.i32(P, 'am2')
        d = {f: ex.rd(self.ptr(P, f)) for f in FLD}
        for x in XYZ:
            d['AB_' + x] = ex.rd(self.ptr(P, 'AB_' + x))
        n = (harness.ncart(ams[0]) * harness.ncart(ams[1]))
        key = (ams,) + tuple(x.id for x in d.values())
        k = self.known.setdefault(key, len(self.known))
        self.calls.append((ams, d, k))
        for i in range(n * n):
            ex.store(out + 8 * i, irx.DBL, T.var('I%d_%d' % (k, i)), 8)
        need = self.lib.wm(0, max(ams))
        o, off = ex.access(work, need, 8 * self.lib.W, True)
        if tol is not T.ZERO:
            raise irx.Unsupported('screening integral with a tolerance')
        return 1
    def shells(self, shells, tag=''):
        ex, lib = self.ex, self.lib
        sz = lib.off[('SHELL', 'size')]
        o = ex.new(sz * max(1, len(shells)), 16, 'shells')
        o.uni8 = False
        p = ex.addr(o)
        ex.call('simint_initialize_shells', len(shells), p)
        for k, (am, n) in enumerate(shells):
            al = ex.array([T.var('a%s%d_%d' % (tag, k, i)) for i in range(n)], name='exponents')
            co = ex.array([T.var('c%s%d_%d' % (tag, k, i)) for i in range(n)], name='coefficients')
            ex.call('simint_create_shell', n, am, *[T.var('%s%s%d' % (x, tag, k)) for x in 'XYZ'], al, co, p + sz * k)
        self.sh = p
        self.nsh = len(shells)
        return p
    def list(self, pairs):
        """array AB of copies of the shell structures, as callers build it"""
        ex = self.ex
        sz = self.lib.off[('SHELL', 'size')]
        o = ex.new(sz * 2 * max(1, len(pairs)), 16, 'list of shells')
        o.uni8 = False
        for k, p in enumerate(pairs):
            for m in (0, 1):
                ex.memcpy(ex.addr(o, sz * (2 * k + m)), self.sh + sz * p[m], sz)
        o.ro = True
        return ex.addr(o)
    def pair(self):
        o = self.ex.new(self.lib.off[('MSP', 'size')], 16, 'shell pair structure')
        o.uni8 = False
        p = self.ex.addr(o)
        self.ex.call('simint_initialize_multi_shellpair', p)
        return p
    def create(self, P, pairs, how, method):
        ex = self.ex
        sz = self.lib.off[('SHELL', 'size')]
        if how == 'product':
            As = []
            for a, b in pairs:
                if a not in As:
                    As.append(a)
            Bs = [b for a, b in pairs if a == pairs[0][0]]
            assert [(a, b) for a in As for b in Bs] == list(pairs)
            la = self.list([(a, a) for a in As])
            def arr(ks):
                o = ex.new(sz * len(ks), 16, 'array of shells')
                o.uni8 = False
                for i, k in enumerate(ks):
                    ex.memcpy(ex.addr(o, sz * i), self.sh + sz * k, sz)
                o.ro = True
                return ex.addr(o)
            ex.call('simint_create_multi_shellpair', len(As), arr(As), len(Bs), arr(Bs), P, method)
        else:
            ex.call('simint_create_multi_shellpair2', len(pairs), self.list(pairs), P, method)
    stage = 'shell'
    def run(self, sc):
        self.shells(sc.shells)
        self.stage = 'create'
        if sc.cat is None:
            P = self.pair()
            for b in sc.before:
                self.create(P, b[0], 'list', b[1])
            self.create(P, sc.pairs, sc.how, sc.method)
            self.parts = []
            return P
        parts = []
        for g in sc.groups:
            q = self.pair()
            self.create(q, g, sc.how, sc.method)
            parts.append(q)
        self.parts = parts
        for q in parts:
            self.freeze(q)
        Pout = self.pair()
        for b in sc.before:
            self.create(Pout, b[0], 'list', b[1])
        o = self.ex.new(8 * len(parts), 16, 'array of pointers')
        for k, q in enumerate(parts):
            o.cells[8 * k] = (8, q)
        o.ro = True
        self.stage = 'cat'
        self.ex.call('simint_cat_multi_shellpair' if sc.cat == 'multi' else 'simint_cat_shellpairs', len(parts), self.ex.addr(o), Pout, sc.method)
        return Pout
    def freeze(self, q, ro=True):
        self.ex.find(q)[0].ro = ro
        p = self.ptr(q, 'ptr')
        if p.__class__ is int and p:
            self.ex.find(p)[0].ro = ro
    def finish(self, P):
        """frees everything; what is left is a leak"""
        ex = self.ex
        self.stage = 'free'
        for q in self.parts:
            self.freeze(q, False)
        for q in self.parts + [P]:
            ex.call('simint_free_multi_shellpair', q)
        ex.call('simint_free_shells', self.nsh, self.sh)
        return [o.name for o in ex.objs[1:] if o.heap and not o.freed]

class Read:
    """contents of a shell pair structure"""
    def __init__(self, m, P, sc):
        ex, lib = m.ex, m.lib
        self.am = (m.i32(P, 'am1'), m.i32(P, 'am2'))
        self.nprim = m.i32(P, 'nprim')
        self.nshell = m.i32(P, 'nshell12')
        self.clip = m.i32(P, 'nshell12_clip')
        n = len(sc.pairs)
        pn = m.ptr(P, 'nprim12')
        self.nprim12 = [ex.rdi(pn, i) for i in range(n)]
        self.lay = harness.layout(sc.counts(), lib.W, lib.NS)
        self.AB = [[ex.rd(m.ptr(P, 'AB_' + x), i) for x in XYZ] for i in range(n)]
        fl = list(FLD) + (['alpha2', 'beta2'] if ('MSP', 'alpha2') in lib.off else [])
        self.screened = m.ptr(P, 'screen') != 0
        if self.screened:
            fl.append('screen')
        self.f = {}
        for f in fl:
            p = m.ptr(P, f)
            # the kernels load whole vectors
            ex.access(p, 8 * len(self.lay), 8 * lib.W, False)
            self.f[f] = [ex.rd(p, i) for i in range(len(self.lay))]
        self.smax = m.dbl(P, 'screen_max')

class Values:
    """exact evaluation of terms at a random point"""
    def __init__(self, seed):
        self.rnd = random.Random(seed)
        self.v = {}
        self.memo = {}
        self.uf = {}
    def var(self, n):
        if n not in self.v:
            self.v[n] = Fraction(self.rnd.randrange(16, 256), 64) if n[0] in 'ac' else Fraction(self.rnd.randrange(-256, 256), 64)
        return self.v[n]
    def unk(self, k):
        if k not in self.uf:
            self.uf[k] = Fraction(self.rnd.randrange(1, 1 << 20), 1 << 10)
        return self.uf[k]
    def __call__(self, root):
        m = self.memo
        for n in T.cone([root]):
            if n.id in m:
                continue
            a = [m[c.id] if isinstance(c, T.N) else c for c in n.a]
            op = n.op
            if op == 'c': x = n.a[0]
            elif op == 'v': x = self.var(n.a[0])
            elif op == '+': x = a[0] + a[1]
            elif op == '*': x = a[0] * a[1]
            elif op == '/': x = a[0] / a[1] if a[1] else self.unk(('/', a[0]))
            elif op == 'ite': x = a[1] if a[0] else a[2]
            elif op == '<': x = a[0] < a[1]
            elif op == '<=': x = a[0] <= a[1]
            elif op == '=': x = a[0] == a[1]
            elif op == 'not': x = not a[0]
            elif op == 'and': x = a[0] and a[1]
            elif op == 'or': x = a[0] or a[1]
            elif op == 'abs': x = abs(a[0])
            else: x = self.unk((op,) + tuple(a))
            m[n.id] = x
        return m[root.id]

PILO = z3.RealVal('3.14159265358979323846264338327950288')
PIHI = z3.RealVal('3.14159265358979323846264338327950289')
_const = {}
def constant(k, what, st):
    """is the rational k within 1e-14 (relative) of the mathematical constant?"""
    key = (k, what)
    if key not in _const:
        pi, x = R('pi'), z3.RealVal(str(k))
        e = {'sqrt(2 pi^(5/2))': (4, 4 * pi ** 5), 'sqrt(2) pi^(5/2)': (2, 2 * pi ** 5)}[what]
        y = x ** e[0]
        tol = z3.Q(2 * e[0], 10 ** 14)
        hy = [pi >= PILO, pi <= PIHI]
        r1, _ = z3prove(hy, z3.And(y <= e[1] * (1 + tol), y >= e[1] * (1 - tol)), st)
        _const[key] = (r1 == 'proved' and k > 0)
    return _const[key]

class Spec:
    def __init__(self, sc, st, cache, seed):
        self.sc, self.st, self.cache = sc, st, cache
        self.val = Values(seed)
        self.pos = []
        for k, (am, n) in enumerate(sc.shells):
            self.pos += [R('a%d_%d' % (k, i)) >= 0 for i in range(n)]
        for p in set(sc.pairs):
            self.pos += [R('a%d_%d' % (p[0], i)) + R('a%d_%d' % (p[1], j)) > 0 for i, j in sc.prims(p)]
    def sh(self, k, i):
        return R('a%d_%d' % (k, i)), R('c%d_%d' % (k, i)), [R('%s%d' % (x, k)) for x in 'XYZ']
    def ref(self, p, ij):
        a, ca, A = self.sh(p[0], ij[0])
        b, cb, B = self.sh(p[1], ij[1])
        s = a + b
        r = {'alpha': s}
        R2 = sum([(A[k] - B[k]) * (A[k] - B[k]) for k in range(3)])
        for k, x in enumerate(XYZ):
            c = (a * A[k] + b * B[k]) / s
            r[x] = c
            r['PA_' + x] = c - A[k]
            r['PB_' + x] = c - B[k]
        w = 2 if p[0] == p[1] and ij[0] != ij[1] else 1
        r['arg'] = -(a * b / s) * R2
        r['w'] = w
        r['pre'] = ca * cb / s
        # weighted factors of the derivative: sum over the ordered pairs
        r['a2'] = (2 * a + 2 * b) / 2 if w == 2 else 2 * a
        r['b2'] = (2 * a + 2 * b) / 2 if w == 2 else 2 * b
        return r
    def valref(self, p, ij):
        v = self.val.var
        return v('a%d_%d' % (p[0], ij[0])) + v('a%d_%d' % (p[1], ij[1]))
    def same(self, n, ref, hyps=(), leaf=None, tag=None):
        """n equals ref for all inputs: True / False / None"""
        key = (n.id, tag)
        if tag is not None and key in self.cache:
            return self.cache[key]
        z = prove.Z()
        e = z.tr(n, leaf or (lambda t: None))
        r, _ = z3prove(self.pos + z.side + list(hyps), e == ref, self.st)
        r = {'proved': True, 'refuted': False}.get(r)
        if tag is not None:
            self.cache[key] = r
        return r
    def expleaf(self, arg, tag, mult=1):
        """recognises exp nodes whose argument is mult * arg"""
        def leaf(t):
            if t.op == 'f' and t.a[0] == 'exp':
                if self.same(t.a[1], mult * arg, tag=(tag, 'exp', mult)):
                    return R('E')
            return None
        return leaf
    def expval(self, n):
        return self.val(n)

def bad(l, tag, tri, text):
    if tri is False:
        l.append((tag, text))
    elif tri is None:
        l.append(('?' + tag, text))

def check_struct(rd, sc, lib, spec):
    """B01 (values) and B02 (numbers, layout, padding)"""
    out = []
    one = 'B03' if sc.method else 'B01'
    cnt = sc.counts()
    if (rd.nshell, rd.clip) != (len(sc.pairs),) * 2:
        out.append(('B02', 'nshell12 %d, nshell12_clip %d for %d shell pairs' % (rd.nshell, rd.clip, len(sc.pairs))))
    if rd.nprim != sum(cnt):
        out.append(('B02', 'nprim is %d, the shell pairs have %d primitive pairs' % (rd.nprim, sum(cnt))))
    if rd.nprim12 != cnt:
        out.append(('B02', 'nprim12 is %s, should be %s' % (rd.nprim12, cnt)))
        if sum(rd.nprim12) < sum(cnt):
            out.append((one, 'primitive pairs are missing: nprim12 is %s for shell pairs with %s of them' % (rd.nprim12, cnt)))
        return out, {}
    am = tuple(sc.shells[k][0] for k in sc.pairs[0])
    if rd.am != am:
        out.append(('B01', 'angular momenta %s, should be %s' % (rd.am, am)))
    if rd.screened != bool(sc.method):
        out.append(('B02', 'screening values %s' % ('present without screening' if rd.screened else 'missing')))
        return out, {}
    for s, p in enumerate(sc.pairs):
        for k, x in enumerate(XYZ):
            bad(out, 'B01', spec.same(rd.AB[s][k], R('%s%d' % ('XYZ'[k], p[0])) - R('%s%d' % ('XYZ'[k], p[1])), tag=('AB', p, k)), 'AB_%s of shell pair %d' % (x, s))
    prims = [(s, ij) for s, p in enumerate(sc.pairs) for ij in sc.prims(p)]
    slot = {}
    k = 0
    start = {}
    for s, c in enumerate(cnt):
        start[s] = k
        k += c
    for pos, k in enumerate(rd.lay):
        if k is None:
            for f, arr in rd.f.items():
                n = arr[pos]
                if T.has_undef([n]):
                    out.append(('B02', '%s of unused slot %d is not set' % (f, pos)))
                elif f in ('prefac', 'screen'):
                    bad(out, 'B02', spec.same(n, z3.RealVal(0), tag='zero'), '%s of unused slot %d is not zero' % (f, pos))
                elif f == 'alpha':
                    z = prove.Z()
                    e = z.tr(n, lambda t: None)
                    r, _ = z3prove(spec.pos + z.side, e > 0, spec.st)
                    bad(out, 'B02', {'proved': True, 'refuted': False}.get(r), 'alpha of unused slot %d is not positive' % pos)
            continue
        s = prims[k][0]
        p = sc.pairs[s]
        for f, arr in rd.f.items():
            if T.has_undef([arr[pos]]):
                out.append(('B03' if f == 'screen' else 'B01', '%s of slot %d (shell pair %d) is not set' % (f, pos, s)))
                return out, {}
        # which primitive pair of this shell pair is here
        av = spec.val(rd.f['alpha'][pos])
        cand = [ij for ij in sc.prims(p) if spec.valref(p, ij) == av and (s, ij) not in slot]
        if not cand:
            out.append((one, 'slot %d (shell pair %d) holds no primitive pair of this shell pair, or one that is already there' % (pos, s)))
            continue
        ij = cand[0]
        slot[(s, ij)] = pos
        r = spec.ref(p, ij)
        tag = (p, ij)
        for f in FLD[:-1]:
            bad(out, 'B01', spec.same(rd.f[f][pos], r[f], tag=(tag, f)), '%s of primitive pair %s of shell pair %d (shells %s)' % (f, ij, s, p))
        bad(out, 'B01', prefac(spec, rd.f['prefac'][pos], r, tag), 'prefactor of primitive pair %s of shell pair %d (shells %s)' % (ij, s, p))
        if 'alpha2' in rd.f:
            for f, g in (('alpha2', 'a2'), ('beta2', 'b2')):
                bad(out, 'B01', spec.same(rd.f[f][pos], r[g], tag=(tag, f)), '%s of primitive pair %s of shell pair %d (shells %s)' % (f, ij, s, p))
    return out, slot

def merged(rd, sc, s):
    """has the code found two shells with the same contents and treats them as
    one shell? (allowed only if the path implies that all their contents agree)"""
    cnt = sc.counts()
    if rd.nprim12 == cnt:
        return False
    for n, c, (a, b) in zip(rd.nprim12, cnt, sc.pairs):
        if n != c:
            if a == b or sc.shells[a] != sc.shells[b] or n != sc.shells[a][1] * (sc.shells[a][1] + 1) // 2:
                return False
            ne = [R('%s%d' % (x, a)) != R('%s%d' % (x, b)) for x in 'XYZ'] + [R('%s%d_%d' % (x, a, i)) != R('%s%d_%d' % (x, b, i)) for x in 'ac' for i in range(sc.shells[a][1])]
            if s.check(z3.Or(ne)) != z3.unsat:
                return False
    return True

def prefac(spec, n, r, tag):
    key = (n.id, tag, 'prefac')
    if key in spec.cache:
        return spec.cache[key]
    leaf = spec.expleaf(r['arg'], tag)
    # the constant, by exact evaluation at one point
    ex = [t for t in T.cone([n]) if t.op == 'f' and t.a[0] == 'exp']
    res = False
    if len(ex) >= 1:
        p, ij = tag
        v = spec.val.var
        E = spec.val(ex[0])
        base = v('c%d_%d' % (p[0], ij[0])) * v('c%d_%d' % (p[1], ij[1])) / spec.valref(p, ij) * E
        k = spec.val(n) / base / r['w']
        res = spec.same(n, z3.RealVal(str(k)) * r['w'] * r['pre'] * R('E'), leaf=leaf)
        if res:
            res = constant(k, 'sqrt(2 pi^(5/2))', spec.st)
    spec.cache[key] = res
    return res

def maxof(spec, n, vals, hyps):
    """n is the largest of vals"""
    z = prove.Z()
    memo = [z.tr(x, lambda t: None) for x in [n] + list(vals)]
    e, vs = memo[0], memo[1:]
    goal = z3.And([e >= v for v in vs] + [z3.Or([e == v for v in vs])])
    r, _ = z3prove(list(hyps) + z.side, goal, spec.st)
    return {'proved': True, 'refuted': False}.get(r)

def screen_defs(spec, sc, m, rd, slot):
    """B03: value of the chosen method for exactly that pair; (problems, terms)"""
    out = []
    for (s, ij), pos in slot.items():
        p = sc.pairs[s]
        n = rd.f['screen'][pos]
        r = spec.ref(p, ij)
        key = (n.id, p, ij, 'screenval', tuple(id(c) for c in ()) )
        if sc.method == 2:
            if key not in spec.cache:
                leaf = spec.expleaf(r['arg'], (p, ij), 2)
                def leaf2(t):
                    l = leaf(t)
                    if l is None and t.op == 'f' and t.a[0] == 'pow' and t.a[2].op == 'c':
                        e = t.a[2].a[0]
                        if (2 * e).denominator == 1:
                            # x^(k/2) = sqrt(x)^k
                            z = prove.Z()
                            x = z.tr(t.a[1], lambda u: None)
                            ra = R('root%d' % t.a[1].id)
                            side.extend([ra > 0, ra * ra == x] + z.side)
                            k = int(2 * e)
                            q = z3.RealVal(1)
                            for _ in range(abs(k)):
                                q = q * ra
                            return q if k >= 0 else 1 / q
                    return l
                side = [R('sp') > 0, R('sp') * R('sp') == r['alpha']]
                a, ca, A = spec.sh(p[0], ij[0])
                b, cb, B = spec.sh(p[1], ij[1])
                ref = ca * ca * cb * cb * R('E') / (r['alpha'] * r['alpha'] * R('sp'))
                z = prove.Z()
                e = z.tr(n, leaf2)
                # the constant: tried first as written in constants.h, decided below
                k = None
                cs = [t.a[0] for t in T.cone([n]) if t.op == 'c' and t.a[0] > 0]
                for c in sorted(set(cs + [x * y for x in cs for y in cs] + [x / y for x in cs for y in cs])):
                    if abs(float(c) / 24.739429451193148 - 1) < 1e-6:
                        rr, _ = z3prove(spec.pos + side + z.side, e == z3.RealVal(str(c)) * ref, spec.st)
                        k = {'proved': True, 'refuted': False}.get(rr)
                        if k:
                            k = constant(c, 'sqrt(2) pi^(5/2)', spec.st)
                            break
                spec.cache[key] = k if k is not None else False
            bad(out, 'B03', spec.cache[key], 'screening value of primitive pair %s of shell pair %d is not the diagonal integral' % (ij, s))
        else:
            ok = None
            for ams, d, kc in m.calls:
                if spec.val(d['alpha']) != spec.valref(p, ij):
                    continue
                k2 = ('call', tuple(x.id for x in d.values()), p, ij)
                if k2 not in spec.cache:
                    r1 = dict(r, w=1)
                    g = all(spec.same(d[f], r[f], tag=((p, ij), f)) for f in FLD[:-1]) and prefac_w1(spec, d['prefac'], r1, (p, ij)) \
                        and all(spec.same(d['AB_' + x], R('%s%d' % ('XYZ'[q], p[0])) - R('%s%d' % ('XYZ'[q], p[1])), tag=('AB', p, q)) for q, x in enumerate(XYZ)) and ams == (sc.shells[p[0]][0], sc.shells[p[1]][0])
                    spec.cache[k2] = bool(g)
                if not spec.cache[k2]:
                    continue
                n1, n2 = harness.ncart(ams[0]), harness.ncart(ams[1])
                diag = [T.fabs(T.var('I%d_%d' % (kc, ((a * n2 + b) * n1 + a) * n2 + b))) for a in range(n1) for b in range(n2)]
                k3 = (n.id, kc, 'diag')
                if k3 not in spec.cache:
                    spec.cache[k3] = maxof(spec, n, diag, m.hyps)
                ok = spec.cache[k3]
                if ok:
                    break
            bad(out, 'B03', False if ok is None else ok, 'screening value of primitive pair %s of shell pair %d is not its largest diagonal integral' % (ij, s))
    return out

def prefac_w1(spec, n, r, tag):
    key = (n.id, tag, 'prefac1')
    if key not in spec.cache:
        spec.cache.pop((n.id, tag, 'prefac'), None)
        res = prefac(spec, n, r, tag)
        spec.cache.pop((n.id, tag, 'prefac'), None)
        spec.cache[key] = res
    return spec.cache[key]

def check_screen(spec, sc, m, rd, slot, s):
    out = screen_defs(spec, sc, m, rd, slot)
    vals = [rd.f['screen'][pos] for pos in slot.values()]
    key = ('smax', rd.smax.id, tuple(sorted(v.id for v in vals)))
    hy = m.hyps
    if key not in spec.cache or spec.cache[key] is not True:
        # exponentials are positive: unknown numbers otherwise
        z = prove.Z()
        e = [z.tr(x, lambda t: R('u%d' % t.id) if t.op in ('f', '/', '*') else None) for x in [rd.smax] + vals]
        pos = [R('u%d' % t.id) >= 0 for v in vals for t in [v] if t.op in ('f', '/', '*')]
        r, _ = z3prove(list(s.assertions()) + z.side + pos, z3.And([e[0] >= v for v in e[1:]] + [z3.Or([e[0] == v for v in e[1:]])]), spec.st)
        if r != 'proved':
            r, _ = z3prove(z.side + pos, z3.And([e[0] >= v for v in e[1:]] + [z3.Or([e[0] == v for v in e[1:]])]), spec.st)
        spec.cache[key] = {'proved': True, 'refuted': False}.get(r)
    bad(out, 'B03', spec.cache[key], 'screen_max is not the largest screening value')
    return out

class Ex(fork.Explorer):
    """screening values are free non-negative unknowns for the branch decisions
    (more paths than feasible ones, none fewer)"""
    def z(self, c):
        z, side = prove.Z(), []
        e = z.tr(c, uleaf(side))
        return e, z.side + side

def uleaf(side):
    def leaf(t):
        if t.op in ('f', '/', '*', 'sqrt'):
            u = R('u%d' % t.id)
            side.append(u >= 0)
            return u
        return None
    return leaf

def compare(spec, a, b, sc, s):
    """structure a (joined) against b (created together)"""
    out = []
    for f in ('am', 'nprim', 'nshell', 'clip', 'nprim12', 'screened'):
        if getattr(a, f) != getattr(b, f):
            out.append(('B04', '%s is %s, created together it is %s' % (f, getattr(a, f), getattr(b, f))))
    if out:
        return out
    def eq(x, y, what):
        if x is y:
            return
        k = ('eq', x.id, y.id)
        if spec.cache.get(k) is not True:
            z = prove.Z()
            e, g = z.tr(x, lambda t: None), z.tr(y, lambda t: None)
            r, _ = z3prove(spec.pos + z.side, e == g, spec.st)
            if r != 'proved':
                # with what the branches taken on this path say
                z, side = prove.Z(), []
                l = uleaf(side)
                e, g = z.tr(x, l), z.tr(y, l)
                r, _ = z3prove(list(s.assertions()) + z.side + side, e == g, spec.st)
                k = None
            r = {'proved': True, 'refuted': False}.get(r)
            spec.cache[k] = r
        bad(out, 'B04', r if spec.cache.get(k) is not True else True, '%s differs from shell pairs created together' % what)
    for f in a.f:
        for i, (x, y) in enumerate(zip(a.f[f], b.f[f])):
            eq(x, y, '%s of slot %d' % (f, i))
    for i, (x, y) in enumerate(zip(a.AB, b.AB)):
        for k in range(3):
            eq(x[k], y[k], 'AB_%s of shell pair %d' % (XYZ[k], i))
    eq(a.smax, b.smax, 'screen_max')
    return out

def complete(spec, rd, one, sc):
    """sorting: every slot holds all fields of one slot of the unsorted structure"""
    out = []
    prims = [s for s, n in enumerate(sc.counts()) for _ in range(n)]
    free = {}
    for pos, k in enumerate(one.lay):
        if k is not None:
            free.setdefault(prims[k], []).append(pos)
    for pos, k in enumerate(rd.lay):
        if k is None:
            continue
        s = prims[k]
        if any(T.has_undef([a[pos]]) for a in rd.f.values()):
            out.append(('B03', 'slot %d is not set' % pos))
            continue
        av = spec.val(rd.f['alpha'][pos])
        c = [q for q in free[s] if spec.val(one.f['alpha'][q]) == av]
        if not c:
            out.append(('B03', 'slot %d (shell pair %d) holds no primitive pair of this shell pair, or one that is already there' % (pos, s)))
            continue
        free[s].remove(c[0])
        for f in one.f:
            x, y = rd.f[f][pos], one.f[f][c[0]]
            if x is y:
                continue
            k = ('eq', x.id, y.id)
            if k not in spec.cache:
                z = prove.Z()
                r, _ = z3prove(spec.pos + z.side, z.tr(x, lambda t: None) == z.tr(y, lambda t: None), spec.st)
                spec.cache[k] = {'proved': True, 'refuted': False}.get(r)
            bad(out, 'B03', spec.cache[k], '%s of slot %d (shell pair %d) belongs to another primitive pair' % (f, pos, s))
            if max(sc.counts()) == 1:
                bad(out, 'B02', spec.cache[k], '%s of slot %d (shell pair %d) is overwritten' % (f, pos, s))
    return out

def run_one(lib, sc, want, seed=1, deadline=None, maxpaths=3000):
    st = prove.Stats()
    res = dict(status='held', detail='', paths=0, slots=0, functions=set(), kind='')
    lib.wm = memcheck.workmem(lib)
    mods = modules(lib)
    files = [m.name for m in mods]
    cache = {}
    spec = Spec(sc, st, cache, seed)
    exr = Ex([], st, maxpaths=maxpaths, deadline=deadline)
    def run(decide):
        m = Machine(lib, mods, decide)
        m.hyps = []
        try:
            P = m.run(sc)
            rd = Read(m, P, sc)
            one = None
            if sc.cat or sc.method:
                Q = m.pair()
                m.stage = 'create'
                m.create(Q, sc.pairs, 'list', sc.method if sc.cat else 0)
                one = Read(m, Q, sc)
                m.freeze(Q, True)
                for q in m.parts:
                    m.freeze(q, False)
                m.freeze(Q, False)
                m.parts.append(Q)
            left = m.finish(P)
            return m, rd, one, left, None
        except irx.Fault as e:
            return m, None, None, None, e
    probs = []
    try:
        for (m, rd, one, left, fault), path, s in exr.explore(run):
            res['paths'] += 1
            res['functions'].update(k if isinstance(k, str) else k[-1] for k in m.ex.calls)
            out = []
            slot = {}
            if fault is not None:
                out.append(({'create': 'B02', 'cat': 'B04', 'free': 'B02', 'shell': 'B05'}[m.stage], 'fault: %s' % fault))
            else:
                res['slots'] += len(rd.lay)
                if merged(rd, sc, s):
                    continue
                if not sc.cat:
                    o, slot = check_struct(rd, sc, lib, spec)
                    out += o
                    if sc.method:
                        out += complete(spec, rd, one, sc)
                    if sc.method and not o:
                        out += check_screen(spec, sc, m, rd, slot, s)
                    if not sc.method and not (rd.smax.op == 'c' and rd.smax.a[0] > 10 ** 50):
                        out.append(('B03', 'shell pairs without screening values have the finite maximum %s' % T.show(rd.smax, 3)))
                else:
                    out += compare(spec, rd, one, sc, s)
                if left:
                    out.append(('B05', 'memory not released: %s' % left[:3]))
            hard = [x for t, x in out if t == want]
            if hard:
                c = confirm(lib, files, sc, s, m, seed, want, path)
                text = '; '.join(hard[:4])
                if c:
                    res.update(status='violated', detail='%s (path %s); replayed: %s' % (text, screening.show(path) or 'without branches', c[0]), replay=c[1])
                    break
                res.update(status='inconclusive', detail=text + '; not reproduced')
                break
            soft = [x for t, x in out if t == '?' + want]
            if soft and res['status'] == 'held':
                res.update(status='inconclusive', detail='; '.join(soft[:4]))
            if fault is not None:
                res['faults'] = res.get('faults', 0) + 1
    except irx.Unsupported as e:
        res.update(status='inconclusive', detail='not encoded: %s' % e)
    except fork.TooManyPaths as e:
        res.update(status='inconclusive', detail=str(e))
    res['stats'] = st.as_dict()
    res['functions'] = sorted(res['functions'])
    return res

# ----- replay on the compiled library

def cdriver(lib, sc, v, itab):
    L = ['#include <stdio.h>', '#include <stdlib.h>', '#include <string.h>', '#include "simint/shell/shell.h"', '#include "simint/shell/shell_screen.h"', '#include "simint/vectorization/vectorization.h"', '']
    L.append('/* integrals of primitive pairs needed by the screening: chosen by the solver */')
    L.append('#define NT %d' % len(itab))
    L.append('static const struct { double alpha; double I[%d]; } tab[] = {%s};' % (max([len(x[1]) for x in itab] + [1]), ', '.join('{%s, {%s}}' % (replay.hexf(a), ', '.join(replay.hexf(x) for x in xs)) for a, xs in itab) or '{0}'))
    L.append('int simint_compute_eri(struct simint_multi_shellpair const *P, struct simint_multi_shellpair const *Q, double t, double *w, double *out) {')
    L.append('  int n = (P->am1+1)*(P->am1+2)/2*((P->am2+1)*(P->am2+2)/2); memset(w, 1, 64); int b = -1;')
    L.append('  for (int k = 0; k < NT; k++) if (tab[k].alpha - P->alpha[0] < 1e-9 && P->alpha[0] - tab[k].alpha < 1e-9) b = k;')
    L.append('  for (int i = 0; i < n*n; i++) out[i] = b < 0 ? 1e9 : tab[b].I[i];')
    L.append('  return 1; }')
    L.append('static void dump(struct simint_multi_shellpair *P, int ns, int nl) {')
    L.append('  printf("head %d %d %d %d %d %d %.17g\\n", P->am1, P->am2, P->nprim, P->nshell12, P->nshell12_clip, P->screen != NULL, P->screen_max);')
    L.append('  printf("align %d\\n", (int)(((size_t)P->x | (size_t)P->prefac | (size_t)P->alpha) % (sizeof(double) * SIMINT_SIMD_LEN)));')
    L.append('  printf("nprim12"); for (int i = 0; i < ns; i++) printf(" %d", P->nprim12[i]); printf("\\n");')
    for x in XYZ:
        L.append('  printf("AB_%s"); for (int i = 0; i < ns; i++) printf(" %%.17g", P->AB_%s[i]); printf("\\n");' % (x, x))
    fl = FLD + (['alpha2', 'beta2'] if ('MSP', 'alpha2') in lib.off else []) + (['screen'] if sc.method else [])
    for f in fl:
        L.append('  if (P->%s) { printf("%s"); for (int i = 0; i < nl; i++) printf(" %%.17g", P->%s[i]); printf("\\n"); }' % (f, f, f))
    L.append('}')
    L.append('int main(void) {')
    L.append('struct simint_shell s[%d];' % len(sc.shells))
    L.append('simint_initialize_shells(%d, s);' % len(sc.shells))
    for k, (am, n) in enumerate(sc.shells):
        a = ', '.join(replay.hexf(v('a%d_%d' % (k, i))) for i in range(n))
        c = ', '.join(replay.hexf(v('c%d_%d' % (k, i))) for i in range(n))
        L.append('{ double a[] = {%s}, c[] = {%s}; simint_create_shell(%d, %d, %s, a, c, s + %d); }' % (a, c, n, am, ', '.join(replay.hexf(v('%s%d' % (x, k))) for x in 'XYZ'), k))
    def create(P, pairs, how, method):
        if how == 'product':
            As = []
            for a, b in pairs:
                if a not in As:
                    As.append(a)
            Bs = [b for a, b in pairs if a == pairs[0][0]]
            return '{ struct simint_shell A[] = {%s}, B[] = {%s}; simint_create_multi_shellpair(%d, A, %d, B, &%s, %d); }' % (', '.join('s[%d]' % a for a in As), ', '.join('s[%d]' % b for b in Bs), len(As), len(Bs), P, method)
        return '{ struct simint_shell AB[] = {%s}; simint_create_multi_shellpair2(%d, AB, &%s, %d); }' % (', '.join('s[%d], s[%d]' % p for p in pairs), len(pairs), P, method)
    lay = harness.layout(sc.counts(), lib.W, lib.NS)
    L.append('struct simint_multi_shellpair P; simint_initialize_multi_shellpair(&P);')
    for b in sc.before:
        L.append(create('P', b[0], 'list', b[1]))
    if sc.cat:
        for k, g in enumerate(sc.groups):
            L.append('struct simint_multi_shellpair q%d; simint_initialize_multi_shellpair(&q%d);' % (k, k))
            L.append(create('q%d' % k, g, sc.how, sc.method))
        n = len(sc.groups)
        L.append('{ struct simint_multi_shellpair const *in[] = {%s}; %s(%d, in, &P, %d); }' % (', '.join('&q%d' % k for k in range(n)), 'simint_cat_multi_shellpair' if sc.cat == 'multi' else 'simint_cat_shellpairs', n, sc.method))
        for k in range(n):
            L.append('simint_free_multi_shellpair(&q%d);' % k)
    else:
        L.append(create('P', sc.pairs, sc.how, sc.method))
    L.append('dump(&P, %d, %d);' % (len(sc.pairs), len(lay)))
    if sc.cat or sc.method:
        L.append('simint_free_multi_shellpair(&P); simint_initialize_multi_shellpair(&P);')
        L.append(create('P', sc.pairs, 'list', sc.method if sc.cat else 0))
        L.append('dump(&P, %d, %d);' % (len(sc.pairs), len(lay)))
    L.append('simint_free_multi_shellpair(&P); simint_free_shells(%d, s); return 0; }' % len(sc.shells))
    return '\n'.join(L) + '\n'

def precise(path):
    """model of the decisions of a path with the divisions written out, so that
    equalities between derived quantities are met by the inputs"""
    s = z3.Solver()
    s.set('timeout', 8000)
    z, side = prove.Z(), []
    def leaf(t):
        if t.op in ('f', 'sqrt'):
            u = R('u%d' % t.id)
            side.append(u >= 0)
            return u
        return None
    try:
        for c, out in path:
            e = z.tr(c, leaf)
            s.add(e if out else z3.Not(e))
        s.add(*z.side)
        s.add(*side)
        return screening.model(s) if s.check() == z3.sat else None
    except Exception:
        return None

# inputs on which derived quantities of different primitives or shells coincide
SPECIAL = [lambda n: Fraction(1, 4) if n[0] == 'X' else None, lambda n: Fraction(1, 4) if n[0] == 'Y' else None,
           lambda n: Fraction(1, 4) if n[0] == 'Z' else None, lambda n: Fraction(1, 4) if n[0] in 'XYZ' else None,
           lambda n: Fraction(5, 4) if n[0] == 'a' else None, lambda n: Fraction(3, 4) if n[0] == 'c' else None,
           lambda n: Fraction(5, 4) if n[0] == 'a' and n.endswith('_0') else Fraction(3, 4) if n[0] == 'c' and n.endswith('_0') else Fraction(1, 4) if n[0] in 'XYZ' else None,
           lambda n: Fraction(0) if n[0] == 'c' and n.endswith('_0') else None]

def confirm(lib, files, sc, s, m, seed, want, path=()):
    """the solver's values (and random ones) on the library compiled with ASan"""
    mods = [screening.model(s), precise(path)]
    fl = list(files)
    for attempt in range(4 + len(SPECIAL) + 1):
        rnd = random.Random(seed * 1000 + attempt)
        vals = {}
        spec = SPECIAL[attempt - 5] if attempt >= 5 else lambda n: None
        mod = mods[attempt] if attempt < 2 else {}
        if mod is None:
            continue
        def v(n):
            if n not in vals:
                if n in mod and (n[0] != 'a' or mod[n] > 0):
                    vals[n] = mod[n]
                elif spec(n) is not None:
                    vals[n] = spec(n)
                else:
                    vals[n] = Fraction(rnd.randrange(16, 256), 64) if n[0] in 'a' else Fraction(rnd.randrange(-128, 128) or 3, 64)
            return vals[n]
        for k, (am, n) in enumerate(sc.shells):
            for i in range(n):
                v('a%d_%d' % (k, i))
        itab = []
        if sc.method == 1 or any(b[1] == 1 for b in sc.before):
            seen = set()
            for p in sc.pairs + [x for b in sc.before for x in b[0]]:
                n = harness.ncart(sc.shells[p[0]][0]) * harness.ncart(sc.shells[p[1]][0])
                for i, j in sc.prims(p):
                    al = v('a%d_%d' % (p[0], i)) + v('a%d_%d' % (p[1], j))
                    if al in seen:
                        continue
                    seen.add(al)
                    # the solver's values belong to its own numbering of the calls
                    kc = [c for ams, d, c in m.calls if approx(d['alpha'], v) == al]
                    itab.append((al, [mod.get('I%d_%d' % (kc[0], q), Fraction(rnd.randrange(-1000, 1000), 100)) if kc and attempt < 2 else Fraction(rnd.randrange(-1000, 1000), 100) for q in range(n * n)]))
        text = cdriver(lib, sc, v, itab)
        hd = '/* %s; compile with gcc -fsanitize=address %s and the files %s */\n' % (sc.name(), ' '.join(build.MFLAGS[lib.vec]), ' '.join(os.path.basename(f) for f in fl))
        rc, out = native(lib, fl, text)
        if rc and want not in ('B02', 'B04', 'B05'):
            continue
        if rc:
            return 'exit %d: %s' % (rc, out[:600]), hd + text
        for t, b in numeric(lib, sc, v, itab, out):
            if t == want:
                return b, hd + text
    return None

def approx(n, v):
    x = Values(0)
    x.var = v
    try:
        return x(n)
    except Exception:
        return None

def native(lib, files, text, leaks=True, more=()):
    import tempfile, subprocess
    d = tempfile.mkdtemp(dir=build.scratch())
    c = os.path.join(d, 'replay.c')
    with open(c, 'w') as f:
        f.write(text)
    exe = os.path.join(d, 'replay')
    build.run(['gcc', '-O1', '-g', '-fsanitize=address,bounds,null', '-fno-sanitize-recover=all', '-std=gnu11', '-w', '-I' + lib.inc, '-I' + lib.src] + build.MFLAGS[lib.vec] + [c] + list(dict.fromkeys(list(files) + list(more))) + ['-o', exe, '-lm'])
    p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=%d' % leaks), preexec_fn=build.unlimit)
    return p.returncode, (p.stdout if p.returncode == 0 else p.stderr).decode(errors='replace')

def numeric(lib, sc, v, itab, out):
    """what the compiled library returned, against the definitions in double precision"""
    ds = []
    for l in out.split('\n'):
        t = l.split()
        if not t:
            continue
        if t[0] == 'head':
            ds.append({})
        ds[-1][t[0]] = [float(x) for x in t[1:]]
    d = ds[0]
    r = []
    cnt = sc.counts()
    lay = harness.layout(cnt, lib.W, lib.NS)
    F = lambda n: float(v(n))
    def near(x, y, sc=0.0):
        return abs(x - y) <= 1e-10 * max(abs(x), abs(y), sc, 1e-300)
    h = d['head']
    am = [sc.shells[k][0] for k in sc.pairs[0]]
    if [int(x) for x in h[:6]] != am + [sum(cnt), len(cnt), len(cnt), int(bool(sc.method))]:
        r.append(('B02', 'am1, am2, nprim, nshell12, nshell12_clip, screened are %s, should be %s' % ([int(x) for x in h[:6]], am + [sum(cnt), len(cnt), len(cnt), int(bool(sc.method))])))
    if [int(x) for x in d['nprim12']] != cnt:
        x = 'nprim12 is %s, should be %s' % ([int(x) for x in d['nprim12']], cnt)
        return r + [('B02', x), ('B03' if sc.method else 'B01', x)]
    K = math.sqrt(2.0) * math.pi ** 1.25
    K = math.sqrt(2.0 * math.pi ** 2.5)
    allscr = []
    pos = 0
    start = 0
    used = [i for i, k in enumerate(lay) if k is not None]
    for i, k in enumerate(lay):
        if k is None:
            if d['prefac'][i] != 0 or not d['alpha'][i] > 0 or (sc.method and d['screen'][i] != 0):
                r.append(('B02', 'unused slot %d has prefactor %r, alpha %r%s' % (i, d['prefac'][i], d['alpha'][i], ', screening value %r' % d['screen'][i] if sc.method else '')))
    for s, p in enumerate(sc.pairs):
        A = [F('%s%d' % (x, p[0])) for x in 'XYZ']
        B = [F('%s%d' % (x, p[1])) for x in 'XYZ']
        for k, x in enumerate(XYZ):
            if not near(d['AB_' + x][s], A[k] - B[k]):
                r.append(('B01', 'AB_%s of shell pair %d is %r, should be %r' % (x, s, d['AB_' + x][s], A[k] - B[k])))
        slots = used[start:start + cnt[s]]
        start += cnt[s]
        R2 = sum((A[k] - B[k]) ** 2 for k in range(3))
        free = list(slots)
        for i, j in sc.prims(p):
            a, b = F('a%d_%d' % (p[0], i)), F('a%d_%d' % (p[1], j))
            ca, cb = F('c%d_%d' % (p[0], i)), F('c%d_%d' % (p[1], j))
            w = 2 if p[0] == p[1] and i != j else 1
            e = {'alpha': a + b, 'prefac': w * ca * cb * K / (a + b) * math.exp(-a * b / (a + b) * R2)}
            for k, x in enumerate(XYZ):
                c = (a * A[k] + b * B[k]) / (a + b)
                e[x], e['PA_' + x], e['PB_' + x] = c, c - A[k], c - B[k]
            if 'alpha2' in d:
                e['alpha2'], e['beta2'] = (a + b, a + b) if w == 2 else (2 * a, 2 * b)
            if sc.method == 2:
                e['screen'] = (ca * cb) ** 2 * math.sqrt(2) * math.pi ** 2.5 * (a + b) ** -2.5 * math.exp(-2 * a * b / (a + b) * R2)
            elif sc.method == 1:
                n1, n2 = harness.ncart(sc.shells[p[0]][0]), harness.ncart(sc.shells[p[1]][0])
                I = [x[1] for x in itab if near(float(x[0]), a + b)]
                e['screen'] = max(abs(float(I[0][((m * n2 + n) * n1 + m) * n2 + n])) for m in range(n1) for n in range(n2))
            if sc.method:
                allscr.append(e['screen'])
            ok = [q for q in free if all(near(d[f][q], e[f], 1.0 if f[0] in 'xyzP' else 0.0) for f in e)]
            if not ok:
                q = [q for q in free if near(d['alpha'][q], a + b)]
                if not q:
                    r.append(('B03' if sc.method else 'B01', 'primitive pair (%d,%d) of shell pair %d is missing' % (i, j, s)))
                    continue
                for f in e:
                    if not near(d[f][q[0]], e[f], 1.0 if f[0] in 'xyzP' else 0.0):
                        r.append(('B03' if f == 'screen' else 'B01', 'primitive pair (%d,%d) of shell pair %d: %s is %r, should be %r' % (i, j, s, f, d[f][q[0]], e[f])))
                free.remove(q[0])
                continue
            free.remove(ok[0])
    if not sc.method and h[6] < 1e50:
        r.append(('B03', 'screen_max is %r without screening values' % h[6]))
    if sc.method and not near(h[6], max(allscr)):
        r.append(('B03', 'screen_max is %r, the largest screening value is %r' % (h[6], max(allscr))))
    if d['align'][0]:
        r.append(('B02', 'the arrays are not aligned for whole vectors'))
    if len(ds) > 1 and not sc.cat:
        start = 0
        for s, n in enumerate(cnt):
            sl = used[start:start + n]
            start += n
            fs = [f for f in ds[1] if len(ds[1][f]) == len(lay) and f in FLD + ['alpha2', 'beta2']]
            a, b = (sorted(tuple(x[f][q] for f in fs) for q in sl) for x in (d, ds[1]))
            if a != b and n == 1:
                r.append(('B02', 'shell pair %d has %s; without screening %s' % (s, a[0], b[0])))
            if a != b:
                r.append(('B03', 'the primitive pairs of shell pair %d are %s; without screening they are %s' % (s, a[:3], b[:3])))
    elif len(ds) > 1:
        for f in d:
            for i, (x, y) in enumerate(zip(d[f], ds[1][f])):
                if x != y:
                    r.append(('B04', '%s, element %d is %r; for shell pairs created together it is %r' % (f, i, x, y)))
    return r

def run_jobs(c, jobs, budget, want, procs=8, key='pairs'):
    tot = dict(scenarios=0, held=0, inconclusive=0, paths=0, slots=0, queries=0, solver_s=0.0)
    fs = set()
    for l in {id(j[1]): j[1] for j in jobs}.values():
        l.index()
        memcheck.workmem(l)
        modules(l)
        [f for m in modules(l) for f in [m]]
    def go(j):
        return run_one(j[1], j[2], want, seed=c.seed, deadline=time.time() + (240 if not c.thorough else 1200))
    jobs = sorted(jobs, key=lambda j: -cost(j[2]))
    for j, s, r in check.tasks(jobs, go, jobs=procs, deadline=time.time() + budget, memgb=8):
        tag = '%s %s' % (j[0], j[2].name())
        tot['scenarios'] += 1
        if s != 'ok':
            tot['inconclusive'] += 1
            c.inc('%s: %s %s' % (tag, s, r))
            continue
        for k in ('paths', 'slots'):
            tot[k] += r[k]
        tot['queries'] += r['stats']['queries']; tot['solver_s'] += r['stats']['time']
        fs.update(r['functions'])
        if r['status'] == 'violated':
            c.violation('%s:%s' % (key, tag.replace(' ', '_')), '%s: %s' % (tag, r['detail']), r['replay'], 'c')
        else:
            tot[r['status']] += 1
            if r['status'] != 'held':
                c.inc('%s: %s' % (tag, r['detail']))
    tot['solver_s'] = round(tot['solver_s'], 2)
    return dict(tot, functions_encoded=len(fs), functions=sorted(fs))

def cost(sc):
    k = sum(sc.counts()) * (2 if sc.cat else 1)
    if sc.method:
        for n in sc.counts():
            k *= math.factorial(min(n, 5))
    return k

def libs(src, vecs, maxders=(None,)):
    out = []
    for vec in vecs:
        for d in maxders:
            out.append(('%s%s' % (vec, '' if d is None else ' MAXDER=%d' % d), kern.Lib(src, vec, inc=build.incdir(src, vec, None, d) if d is not None else None)))
    return out

def lists(W, NS, th):
    """shapes of lists without screening: (shells, pairs)"""
    out = []
    for l1, l2 in ((0, 0), (1, 0), (0, 2), (2, 2)):
        for n1, n2 in ((1, 1), (2, 1), (1, 3), (3, 2)):
            if th or (n1 + n2 + l1 + l2) % 2 or l1 == l2 == 0:
                out.append(([(l1, n1), (l2, n2)], [(0, 1)]))
    for n in (1, 2, 3) + ((4, 5) if th else ()):
        out.append(([(1, n)], [(0, 0)]))
        if n > 1:  # different shells of the same form
            out.append(([(1, n), (1, n)], [(0, 1)]))
            out.append(([(0, n), (0, n)], [(0, 1), (0, 0), (1, 0)]))
    sh = [(1, 1), (1, 2), (1, 3)]
    every = [(a, b) for a in range(3) for b in range(3)]
    for k in sorted({2, 3, NS - 1, NS, NS + 1, 2 * NS, 2 * NS + 1} | ({3 * NS, 4 * NS + 1} if th else set())):
        if k < 2:
            continue
        out.append((sh, [every[(i * 4 + k) % 9] for i in range(k)]))
        out.append((sh, [(0, 0) if i % 2 else (1, 1) for i in range(k)]))
    return out
