"""The Boys function: its real code on symbolic arguments (one per lane), with a
symbolic table index; accuracy decided per table cell and for the long range."""
import os, time, random, itertools, math
from fractions import Fraction
import z3, mpmath
import irx, kern, prove, build, fork, replay, memcheck, screening, terms as T
from prove import z3prove

R = z3.Real
TOL = Fraction(1, 10 ** 11)          # the property's limit
TOP = Fraction(9, 10 ** 12)          # for the directly evaluated value, in exact arithmetic
STEP = Fraction(4, 10 ** 15)         # for each step of a recursion
U = Fraction(1, 2 ** 50)             # generous bound on the rounding of an index expression
WRAP = '''#include "simint/boys/boys.h"
void v_boys(double *F, double const *x, int n) { SIMINT_DBLTYPE xv = SIMINT_DBLLOAD(x, 0); boys_F_split((SIMINT_DBLTYPE *)F, xv, n); }
'''
MAXREQ = 29     # 4 * 7 + 1: largest angular momentum with first derivatives

def wrapper(lib):
    p = os.path.join(build.scratch(), 'vboys.c')
    build.put(p, WRAP)
    return p

def modules(lib):
    if not hasattr(lib, '_boys'):
        p = wrapper(lib)
        m = irx.Module(lib.text(p), p)
        ix = lib.index()
        out, todo, seen = [m], [m], set()
        while todo:
            m = todo.pop()
            names = [n for n, fn in m.funcs.items() if not fn.defined and not n.startswith('@llvm.')] + [n for n, g in m.globals.items() if g['ext']]
            for n in names:
                f = ix.get(n[1:])
                if f and f not in seen:
                    seen.add(f)
                    out.append(lib.module(f))
                    todo.append(out[-1])
        lib._boys = out
    return lib._boys

class Cells:
    """symbolic table indices of one run"""
    def __init__(self, explorer):
        self.xr = explorer
        self.bv = z3.Solver()
        self.cell = []      # (name, z3 bit-vector, lo, hi, argument term)
    def ask(self, s, e):
        t = time.time()
        r = s.check(e)
        self.xr.st.queries += 1
        self.xr.st.time += time.time() - t
        return r
    def fptosi(self, ex, x):
        for nm, b, lo, hi, a in self.cell:
            if a is x:
                return irx.SymInt(b, self.bv)
        s = self.xr.s
        z = prove.Z()
        t = z.tr(x, lambda n: None)
        s.add(*z.side)
        def above(k):   # can the index be at least k?
            return self.ask(s, t * (1 + z3.Q(U.numerator, U.denominator)) >= k) != z3.unsat
        if above(1 << 31):
            raise irx.Fault('overflow', 'conversion of an unbounded value to an integer (%s)' % T.show(x, 4))
        if self.ask(s, t < 0) != z3.unsat:
            if self.ask(s, t <= -1) != z3.unsat:
                raise irx.Fault('out-of-bounds', 'a table index can be negative (%s)' % T.show(x, 4))
        lo, hi = 0, 1 << 31
        while hi - lo > 1:
            m = (lo + hi) // 2
            if above(m): lo = m
            else: hi = m
        top = lo
        lo, hi = 0, top
        while lo < hi:
            m = (lo + hi) // 2
            if self.ask(s, t * (1 - z3.Q(U.numerator, U.denominator)) < m + 1) != z3.unsat: hi = m
            else: lo = m + 1
        nm = 'cell%d' % len(self.cell)
        b = z3.BitVec(nm, 64)
        self.bv.add(z3.UGE(b, lo), z3.ULE(b, top))
        self.cell.append((nm, b, lo, top, x))
        return irx.SymInt(b, self.bv)
    def linear(self, e):
        """e = stride * cell + base for one cell"""
        e = z3.simplify(e)
        ev = lambda b, v: z3.simplify(z3.substitute(e, (b, z3.BitVecVal(v, 64))))
        for nm, b, lo, hi, a in self.cell:
            c0, c1 = ev(b, lo), ev(b, lo + 1)
            if z3.is_bv_value(c0) and z3.is_bv_value(c1):
                st = (c1.as_long() - c0.as_long()) & (2 ** 64 - 1)
                if st >> 63: st -= 2 ** 64
                base = (c0.as_long() - st * lo) & (2 ** 64 - 1)
                if self.ask(self.bv, e != z3.BitVecVal(st, 64) * b + z3.BitVecVal(base, 64)) == z3.unsat:
                    return nm, b, lo, hi, st, base
        raise irx.Unsupported('an address that is not linear in one table index')
    def itof(self, ex, x):
        nm, b, lo, hi, st, base = self.linear(x.z)
        if base >> 63: base -= 2 ** 64
        return T.add(T.mul(T.const(st), T.var(nm)), T.const(base))
    def dload(self, ex, p):
        nm, b, lo, hi, st, base = self.linear(p.z)
        a0, a1 = (base + st * lo) & (2 ** 64 - 1), (base + st * hi) & (2 ** 64 - 1)
        oid = a0 >> irx.SHIFT
        if not 0 < oid < len(ex.objs):
            raise irx.Fault('out-of-bounds', 'a table access leaves every object')
        o = ex.objs[oid]
        off0 = a0 - ex.addr(o) - st * lo
        e = b * z3.BitVecVal(st & (2 ** 64 - 1), 64) + z3.BitVecVal(off0 & (2 ** 64 - 1), 64)
        if self.ask(self.bv, z3.Not(z3.And(e >= 0, e <= o.size - 8, e & 7 == 0))) != z3.unsat:
            m = self.bv.model()[b]
            raise irx.Fault('out-of-bounds', 'entry %s of %s: byte %s of %d' % (m, o.name, off0 + st * (m.as_long() if m is not None else lo), o.size))
        if st and not 0 <= off0 <= st - 8:
            raise irx.Fault('out-of-bounds', 'column %d of %s, whose rows have %d entries' % (off0 // 8, o.name, st // 8))
        return T.mk('f', ('tab', T.const(oid), T.const(st), T.const(off0), T.var(nm)))

class Run:
    """boys_F_split at order n; x: one variable per lane"""
    def __init__(self, lib, n, xr, decide):
        W = lib.W
        self.cells = Cells(xr)
        self.ex = ex = irx.Exec(modules(lib))
        ex.decider = decide
        memcheck.Globals(ex)
        ex.env.update(fptosi=self.cells.fptosi, symdload=self.cells.dload, symitof=self.cells.itof)
        self.F = ex.new(8 * W * (n + 1), 64, 'F')
        x = ex.array([T.var('x%d' % l) for l in range(W)], align=64, name='x', ro=True)
        ex.call('v_boys', ex.addr(self.F), x, n)
        self.res = [[ex.rd(ex.addr(self.F), k * W + l) for l in range(W)] for k in range(n + 1)]

def hyps(W):
    """lanes are zero or positive; for wide vectors all even and all odd lanes lie on
    the same sides of the switching point, whatever it is"""
    return [R('x%d' % l) >= 0 for l in range(W)]

def ties(W, cut):
    out = []
    for l in range(2, W):
        if W > 4 or l > 2:
            out.append((R('x%d' % l) < cut) == (R('x%d' % (l % 2)) < cut))
            out.append((R('x%d' % l) > cut) == (R('x%d' % (l % 2)) > cut))
    return out

def orders_paths(lib, n, st, maxpaths=700, deadline=None):
    """all paths: yields (run or None, fault, path, solver)"""
    W = lib.W
    cut = z3.Q(73, 2)
    hy = hyps(W) + (ties(W, cut) if W > 2 else [])
    xr = fork.Explorer(hy, st, maxpaths=maxpaths, deadline=deadline)
    def run(decide):
        try:
            return Run(lib, n, xr, decide), None
        except irx.Fault as e:
            return None, e
    for (r, fault), path, s in xr.explore(run):
        yield r, fault, path, s

# ----- Laurent polynomials over named generators

class Pol(dict):
    pass

def padd(a, b):
    r = Pol(a)
    for k, v in b.items():
        t = r.get(k, 0) + v
        if t: r[k] = t
        else: r.pop(k, None)
    return r

def pmul(a, b):
    r = Pol()
    for k, v in a.items():
        for l, w in b.items():
            m = dict(k)
            for g, e in l:
                m[g] = m.get(g, 0) + e
            # s^2 = 1/x
            if 's' in m and (m['s'] >= 2 or m['s'] < 0):
                q = m['s'] // 2
                m['s'] -= 2 * q
                m['x'] = m.get('x', 0) - q
            m = tuple(sorted((g, e) for g, e in m.items() if e))
            t = r.get(m, 0) + v * w
            if t: r[m] = t
            else: r.pop(m, None)
    return r

def gen(g, e=1):
    return Pol({((g, e),): Fraction(1)})

def pconst(c):
    return Pol({(): Fraction(c)}) if c else Pol()

class NotPoly(Exception):
    pass

def poly(root, leaf):
    """Laurent polynomial of a term; leaf(n) gives the polynomial of a leaf or None"""
    memo = {}
    for n in T.cone([root]):
        l = leaf(n)
        if l is not None:
            memo[n.id] = l
            continue
        if any(isinstance(c, T.N) and c.id not in memo for c in n.a):
            continue
        a = [memo[c.id] for c in n.a if isinstance(c, T.N)]
        if n.op == 'c': p = pconst(n.a[0])
        elif n.op == '+': p = padd(*a)
        elif n.op == '*': p = pmul(*a)
        elif n.op == '/':
            if len(a[1]) != 1:
                continue
            (k, v), = a[1].items()
            if any(g == 'E' or g == 'G' for g, e in k):
                continue
            p = pmul(a[0], Pol({tuple((g, -e) for g, e in k): 1 / v}))
        elif n.op == 'sqrt':
            if len(a[0]) != 1:
                continue
            (k, v), = a[0].items()
            if len(k) != 1 or k[0][0] != 'x' or v != 1:
                continue
            e = -k[0][1]       # sqrt(x^-e) = s^e
            p = pmul(pconst(1), Pol({(('s', e),): Fraction(1)}))
        elif n.op == 'f' and n.a[0] == 'exp':
            if a[-1] != Pol({(('x', 1),): Fraction(-1)}):
                continue
            p = gen('E')
        else:
            continue
        memo[n.id] = p
    if root.id not in memo:
        raise NotPoly(T.show(root, 4))
    return memo[root.id]

def zpoly(p, vs):
    s = []
    for k, v in p.items():
        t = z3.Q(v.numerator, v.denominator)
        for g, e in k:
            for _ in range(e):
                t = t * vs[g]
        s.append(t)
    return z3.Sum(s) if s else z3.RealVal(0)

# ----- the exact function

mpmath.mp.dps = 50
_bf = {}
TOPN = 44
def bf(n, x):
    """F_n(x), x a Fraction, to about 45 digits"""
    k = (n, x)
    if k in _bf:
        return _bf[k]
    if n < TOPN and 0 < x < 60:
        # downward recursion (stable) from one series
        f = bf(TOPN, x)
        X = mpmath.mpf(x.numerator) / x.denominator
        ex = mpmath.exp(-X)
        for m in range(TOPN - 1, -1, -1):
            f = (2 * X * f + ex) / (2 * m + 1)
            _bf[(m, x)] = f
        return _bf[k]
    if k not in _bf:
        if x == 0:
            _bf[k] = mpmath.mpf(1) / (2 * n + 1)
        else:
            X = mpmath.mpf(x.numerator) / x.denominator
            if X < 60 + n:
                # confluent series, all terms positive
                t = s = mpmath.mpf(1) / (2 * n + 1)
                i = 0
                while t > s * mpmath.mpf(10) ** -48:
                    i += 1
                    t = t * 2 * X / (2 * n + 2 * i + 1)
                    s += t
                _bf[k] = s * mpmath.exp(-X)
            else:
                _bf[k] = mpmath.gammainc(n + mpmath.mpf(1) / 2, 0, X) / (2 * X ** (n + mpmath.mpf(1) / 2))
    return _bf[k]

def rat(m, bits=110):
    """a Fraction within 2^-bits (relative) of a positive mpf"""
    f = Fraction(int(mpmath.floor(m * mpmath.mpf(2) ** 400)), 2 ** 400)
    if f == 0:
        return f
    e = f.denominator.bit_length() - f.numerator.bit_length() + bits
    return Fraction(int(f * 2 ** e), 2 ** e) if e > 0 else Fraction(int(f))

def up(m): return rat(m) * (1 + Fraction(1, 2 ** 100)) + Fraction(1, 2 ** 390)
def down(m): return rat(m) * (1 - Fraction(1, 2 ** 100))

K = 10
_cell = {}
def truth(n, X, d):
    """Taylor coefficients of F_n(X - t) in t with the bound of the remainder for
    |t| <= d <= 1/5, as multiples of F_n(X)"""
    i = (X, d)
    if (n, i) not in _cell:
        f0 = bf(n, X)
        c = []
        fac = 1
        for k in range(K + 1):
            if k: fac *= k
            c.append(rat(bf(n + k, X) / f0, 110) / fac)
        rem = up(bf(n + K + 1, X) / f0) * Fraction(13, 10) * d ** (K + 1) / (fac * (K + 1)) + Fraction(1, 2 ** 100)
        _cell[(n, i)] = (X, f0, c, rem)
    return _cell[(n, i)]

def digest(ex, oid):
    """name and contents of a table"""
    o = ex.objs[oid]
    return (o.name, hash(tuple(sorted((k, v[1].id if isinstance(v[1], T.N) else str(v[1])) for k, v in o.cells.items()))))

def structure(ex, roots, names):
    """identity of terms up to the names of the lane's variables"""
    memo, tabs = {}, {}
    def key(n):
        ch = [memo[c.id] if isinstance(c, T.N) else c for c in n.a]
        if n.op == 'v':
            return ('v', names.get(n.a[0], n.a[0]))
        if n.op == 'f' and n.a[0] == 'tab':
            oid = int(n.a[1].a[0])
            if oid not in tabs:
                tabs[oid] = digest(ex, oid)
            return ('tab', tabs[oid], n.a[2].id, n.a[3].id, memo[n.a[4].id])
        if n.op in '+*':
            ch.sort()
        return (n.op,) + tuple(ch)
    num = structure.num
    for n in T.cone(list(roots)):
        k = key(n)
        memo[n.id] = num.setdefault(k, len(num))
    return tuple(memo[r.id] for r in roots)
structure.num = {}

class Decider:
    def __init__(self, st):
        self.st = st
        self.cache = {}
        self.n = dict(cells=0, cell_queries=0, recursion=0, long=0)

    def cellval(self, ex, n, i):
        oid, stv, off = (int(t.a[0]) for t in n.a[1:4])
        v = ex._ld(ex.objs[oid], off + stv * i, irx.DBL)
        if v.op != 'c':
            raise NotPoly('table entry')
        return v.a[0]

    def taylor(self, r, term, lane, n, lo=None):
        """the term against F_n in every table cell: None or (problem, x)"""
        cells = sorted({t.a[4].a[0] for t in T.cone([term]) if t.op == 'f' and t.a[0] == 'tab'} | {t.a[0] for t in T.cone([term]) if t.op == 'v' and t.a[0].startswith('cell')})
        if len(cells) != 1:
            raise NotPoly('%d table indices' % len(cells))
        nm, b, clo, chi, arg = [c for c in r.cells.cell if c[0] == cells[0]][0]
        xn = 'x%d' % lane
        key = ('taylor', n, clo, chi, structure(r.ex, (term, arg), {xn: 'x', nm: 'cell'}))
        if key not in self.cache:
            self.cache[key] = None
            for i in range(clo, chi + 1):
                q = self.cell(r, term, arg, xn, nm, n, i)
                if q:
                    self.cache[key] = q
                    break
        return self.cache[key]

    def cell(self, r, term, arg, xn, nm, n, i):
        # x = X - d
        xd = lambda X: padd(pconst(X), Pol({(('d', 1),): Fraction(-1)}))
        # the middle of the cell: where the argument of the index is i + 1/2
        a = poly(arg, lambda t: gen('x') if t.op == 'v' and t.a[0] == xn else None)
        ks = {k: v for k, v in a.items()}
        sl, c0 = ks.pop((('x', 1),), None), ks.pop((), Fraction(0))
        if ks or not sl or sl < 0:
            raise NotPoly('index expression')
        mid = (i + Fraction(1, 2) - c0) / sl
        half = (Fraction(1, 2) + (i + 2) * U) / sl
        X = Fraction(round(mid * 10), 10)
        S = Fraction(502, 10000)
        if abs(X - mid) + half > S:
            S = Fraction(int((abs(X - mid) + half) * 10000) + 2, 10000)
            if S > Fraction(1, 5):
                raise NotPoly('cells are wider than the reference covers')
        def leaf(t):
            if t.op == 'v':
                if t.a[0] == xn: return xd(X)
                if t.a[0] == nm: return pconst(i)
            if t.op == 'f' and t.a[0] == 'tab':
                return pconst(self.cellval(r.ex, t, i))
            return None
        p = poly(term, leaf)
        if any(g != 'd' or e < 0 for k in p for g, e in k):
            raise NotPoly('not a polynomial in the displacement')
        lo, hi = X - mid - half, X - mid + half     # d = X - x
        if X - hi < 0:
            hi = X
        key = (n, i, lo, hi, tuple(sorted(p.items())))
        self.n['cells'] += 1
        if key in self.cache:
            return self.cache[key]
        self.n['cell_queries'] += 1
        X, f0, c, rem = truth(n, X, S)
        f0l = rat(f0)
        # in units of the tolerance and of the half width: short coefficients,
        # rounded to 2^-20; the rounding goes into the slack
        Q20 = lambda f: Fraction(round(f * 2 ** 20), 2 ** 20)
        dif, tru = [], []
        for k in range(max(K, max([sum(e for g, e in m) for m in p] + [0])) + 1):
            m = (('d', k),) if k else ()
            ck = c[k] if k <= K else 0
            pk = p.get(m, Fraction(0)) / f0l
            dif.append(Q20((pk - ck) / TOP * S ** k))
            tru.append(Q20(ck * S ** k))
        slack = Q20(rem / TOP) + Fraction(2 * len(dif) + 8, 2 ** 20)
        d = R('d')
        def horner(cs):
            while len(cs) > 1 and not cs[-1]:
                cs = cs[:-1]
            e = z3.RealVal(0)
            for v in reversed(cs):
                e = e * d + z3.Q(v.numerator, v.denominator)
            return e
        num = lambda f: z3.Q(f.numerator, f.denominator)
        lim = horner(tru) - num(slack)
        D = horner(dif)
        lo, hi = lo / S, hi / S
        lo, hi = Q20(lo) - Fraction(1, 2 ** 20), Q20(hi) + Fraction(1, 2 ** 20)
        r_, m = z3prove([d >= num(lo), d <= num(hi)], z3.And(D <= lim, -D <= lim), self.st)
        out = None
        if r_ == 'refuted':
            v = m[d]
            v = Fraction(0) if v is None else Fraction(v.numerator_as_long(), v.denominator_as_long()) if z3.is_rational_value(v) else Fraction(v.approx(20).numerator_as_long(), v.approx(20).denominator_as_long())
            out = ('order %d, table cell %d: the relative error exceeds %s' % (n, i, '1e-11'), X - v * S)
        elif r_ == 'unknown':
            out = ('?order %d, table cell %d: not decided' % (n, i), X)
        self.cache[key] = out
        return out

    def recursion(self, r, term, below, lane, k):
        """term = value of order k, below = term of order k + 1"""
        xn = 'x%d' % lane
        def leaf(t):
            if t is below: return gen('G')
            if t.op == 'v' and t.a[0] == xn: return gen('x')
            return None
        p = poly(term, leaf)
        key = ('rec', k, tuple(sorted(p.items())))
        self.n['recursion'] += 1
        if key in self.cache:
            return self.cache[key]
        if any(e < 0 or g not in ('x', 'G', 'E') for m in p for g, e in m):
            raise NotPoly('not the recursion')
        x, G, E, e = R('x'), R('G'), R('E'), R('e')
        code = zpoly(p, dict(x=x, G=G * (1 + e), E=E))
        tru = (2 * x * G + E) / (2 * k + 1)
        ae = z3.If(e >= 0, e, -e)
        lim = (ae + z3.Q(STEP.numerator, STEP.denominator)) * tru
        q, m = z3prove([x >= 0, G > 0, E >= 0, e <= z3.Q(1, 10 ** 11), e >= -z3.Q(1, 10 ** 11)], z3.And(code - tru <= lim, tru - code <= lim), self.st)
        out = None
        if q == 'refuted':
            out = ('order %d does not follow from order %d' % (k, k + 1), None)
        elif q == 'unknown':
            out = ('?order %d: recursion not decided' % k, None)
        self.cache[key] = out
        return out

    def long(self, r, term, lane, n, xmin):
        """the term against F_n for all x >= xmin"""
        xn = 'x%d' % lane
        p = poly(term, lambda t: gen('x') if t.op == 'v' and t.a[0] == xn else None)
        key = ('long', n, xmin, tuple(sorted(p.items())))
        self.n['long'] += 1
        if key in self.cache:
            return self.cache[key]
        if xmin < n + Fraction(1, 2) or xmin <= 0:
            raise NotPoly('the long-range form starts at %s' % xmin)
        # code = A s w^n + E B(w), w = 1/x, s = sqrt(w); other powers of w beside s: not this form
        A, B = Pol(), Pol()
        for m, v in p.items():
            d = dict(m)
            e, sx, xx = d.pop('E', 0), d.pop('s', 0), -d.pop('x', 0)
            if d or (e, sx) not in ((0, 1), (1, 0)) or (sx and xx < n) or xx < 0:
                raise NotPoly('not the long-range form: %s' % (m,))
            (A if sx else B)[((('w', xx - (n if sx else 0)),) if xx - (n if sx else 0) else ())] = v
        # F_n = a w^n F_0 - E b(w),  F_0 = s sqrt(pi)/2 (1 - q), 0 <= q <= erfc(sqrt(x))
        a = Fraction(1)
        b = Pol()
        for i in range(n):
            # F_{i+1} = w/2 ((2i+1) F_i - E)
            a *= Fraction(2 * i + 1, 2)
            b = pmul(padd(pmul(b, pconst(2 * i + 1)), pconst(1)), Pol({(('w', 1),): Fraction(1, 2)}))
        X = mpmath.mpf(xmin.numerator) / xmin.denominator
        hp = rat(mpmath.sqrt(mpmath.pi) / 2)
        q0 = up(mpmath.erfc(mpmath.sqrt(X)))
        kap = up(mpmath.exp(-X) * X ** (n + mpmath.mpf(1) / 2))      # E / (s w^n): decreasing for x >= n + 1/2
        w, eta, q = R('w'), R('eta'), R('q')
        vs = dict(w=w)
        num = lambda f: z3.Q(f.numerator, f.denominator)
        lead = num(a * hp)
        tru = lead * (1 - q) - zpoly(b, vs) * eta
        dif = zpoly(padd(A, pconst(-a * hp)), vs) + lead * q + zpoly(padd(B, b), vs) * eta
        sl = num(a * hp * Fraction(1, 2 ** 80))
        wm = 1 / xmin
        res, m = z3prove([w > 0, w <= num(wm), eta >= 0, eta <= num(kap), q >= 0, q <= num(q0)], z3.And(dif <= num(TOP) * tru - sl, -dif <= num(TOP) * tru - sl), self.st)
        out = None
        if res == 'refuted':
            v = m[w]
            xv = xmin
            if v is not None and z3.is_rational_value(v):
                xv = Fraction(v.denominator_as_long(), v.numerator_as_long())
            out = ('order %d, arguments above %s: the relative error exceeds 1e-11' % (n, float(xmin)), xv)
        elif res == 'unknown':
            out = ('?order %d, long range: not decided' % n, xmin)
        self.cache[key] = out
        return out

def xmin(s, lane):
    o = z3.Optimize()
    o.add(*s.assertions())
    h = o.minimize(R('x%d' % lane))
    if o.check() != z3.sat:
        return Fraction(0)
    v = o.lower(h)
    try:
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    except Exception:
        f = v.children()[0] if v.num_args() else v
        return Fraction(f.numerator_as_long(), f.denominator_as_long())

def check_path(dec, lib, r, path, s, n):
    """list of (problem, x or None)"""
    out = []
    for l in range(lib.W):
        mn = None
        for k in range(n, -1, -1):
            t = r.res[k][l]
            if T.has_undef([t]):
                out.append(('order %d of lane %d is not set' % (k, l), None))
                break
            vs = {c.a[0] for c in T.cone([t]) if c.op == 'v' and c.a[0][0] == 'x'}
            if not vs <= {'x%d' % l}:
                out.append(('order %d of lane %d depends on the argument of another lane' % (k, l), None))
                break
            why = []
            q = 0
            cone = T.cone([t])
            if k < n and any(c is r.res[k + 1][l] for c in cone):
                try:
                    q = dec.recursion(r, t, r.res[k + 1][l], l, k)
                except NotPoly as e:
                    why.append(str(e))
            if q == 0 and any(c.op == 'f' and c.a[0] == 'tab' for c in cone):
                try:
                    q = dec.taylor(r, t, l, k)
                except NotPoly as e:
                    why.append(str(e))
            if q == 0:
                if mn is None:
                    mn = xmin(s, l)
                try:
                    q = dec.long(r, t, l, k, mn)
                except NotPoly as e:
                    why.append(str(e))
            if q == 0:
                q = ('?order %d: form not recognised: %s' % (k, '; '.join(why)), mn)
            if q:
                out.append(('lane %d: %s' % (l, q[0]) if q[0][0] != '?' else q[0], q[1]))
                break
    return out

# ----- replay

def program(lib, n, xs):
    W = lib.W
    return WRAP + '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(void) { static const double xs[][%d] = {%s};
 printf("ret 0\\n");
 for (unsigned k = 0; k < sizeof xs / sizeof xs[0]; k++) { double *x = aligned_alloc(64, 64 * ((%d * 8 + 63) / 64)); memcpy(x, xs[k], sizeof xs[k]);
  double *F = aligned_alloc(64, (8 * %d * %d + 63) / 64 * 64); for (int i = 0; i < %d * %d; i++) F[i] = __builtin_nan("");
  v_boys(F, x, %d); for (int i = 0; i < %d * %d; i++) printf("%%.17g\\n", F[i]); } return 0; }
''' % (W, ', '.join('{%s}' % ', '.join('__builtin_inf()' if x == math.inf else float(x).hex() for x in v) for v in xs), W, W, n + 1, W, n + 1, n, W, n + 1)

def native(lib, n, xs, asan=False):
    """outputs for a list of vectors of arguments"""
    t = program(lib, n, xs)
    fl = [m.name for m in modules(lib)[1:]]
    ret, out = replay.native(lib, fl, t, asan=asan)
    return ret, out, '/* Boys function of order %d; compile with gcc%s %s and %s */\n' % (n, ' -fsanitize=address,bounds' if asan else '', ' '.join(build.MFLAGS[lib.vec]), ' '.join(os.path.basename(f) for f in fl)) + t

def near(x):
    x = float(x)
    r = [x]
    for d in (1e-9, 1e-6, 1e-3, 0.01):
        r += [x - d, x + d]
    r += [math.nextafter(x, 0), math.nextafter(x, 1e9)]
    return [y for y in r if y >= 0]

def wrong(lib, n, cand, path_s=None, seed=1):
    """(text, driver) for arguments whose computed values are off by more than 1e-11"""
    W = lib.W
    rnd = random.Random(seed)
    vecs = []
    for x in cand:
        vecs.append([x] * W)
        if W > 1:
            for l in range(W):
                vecs.append([x if k == l else rnd.choice([rnd.uniform(0, 36), rnd.uniform(37, 60)]) for k in range(W)])
    ret, out, text = native(lib, n, vecs)
    if out is None:
        return str(ret)[:300], text
    for v, vec in enumerate(vecs):
        for k in range(n + 1):
            for l in range(W):
                y = out[(v * (n + 1) + k) * W + l]
                t = bf(k, Fraction(vec[l]))
                if t < mpmath.mpf(10) ** -290:
                    continue
                e = abs(mpmath.mpf(y) - t) / t if y == y else mpmath.inf
                if not e <= mpmath.mpf(10) ** -11:
                    return 'F_%d(%r) requested with order %d is %r, should be %s (relative error %s; lane %d of %s)' % (k, vec[l], n, y, mpmath.nstr(t, 17), mpmath.nstr(e, 3), l, vec), text
    return None

# ----- the checks

def libs(src, vecs):
    out = []
    for v in vecs:
        nv = v.endswith('-novector')
        v = v.replace('-novector', '')
        out.append((v + (' NOVECTOR' if nv else ''), kern.Lib(src, v, extra=('-DSIMINT_BOYS_NOVECTOR',) if nv else ())))
    return out

EDGE = [0.0, 5e-324, 1e-300, 1e-16, 0.04999999999999999, 0.05, 0.1, 0.95, 17.05, 36.4, 36.44999999999999, 36.449999999999996, 36.45, 36.49, math.nextafter(36.5, 0), 36.5, math.nextafter(36.5, 40), 36.6, 40.0, 1e3, 1e8, 1e300, math.inf]

def edge(lib, n, s=None):
    """arguments at the borders (of the table and of the path's constraints s) under
    ASan and bounds checking; text of a crash"""
    W = lib.W
    xs = [[x] * W for x in EDGE]
    for l in range(W if s is not None else 0):
        for side in ('minimize', 'maximize'):
            o = z3.Optimize()
            o.set('timeout', 10000)
            o.add(*s.assertions())
            h = getattr(o, side)(R('x%d' % l))
            if o.check() == z3.sat:
                m = o.model()
                v = m[R('x%d' % l)]
                try:
                    f = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
                    xs += [[x] * W for x in near(f)]
                    xs += [[x if k == l else EDGE[(3 * k) % 20] for k in range(W)] for x in near(f)]
                except Exception:
                    pass
    if W > 1:
        xs += [[EDGE[(i + 7 * l) % len(EDGE)] for l in range(W)] for i in range(len(EDGE))]
        xs += [[EDGE[(i if l == m else 15 + i % 6) % len(EDGE)] for l in range(W)] for i in range(17) for m in range(W)]
    ret, out, text = native(lib, n, xs, asan=True)
    if out is None:
        return str(ret)[:800], text
    return None

def run_group(c, ns, L, what):
    """several orders that share cached decisions"""
    st = prove.Stats()
    dec = Decider(st)
    out = None
    for n in ns:
        r = run_order(c, n, L, what, st, dec)
        if out is None:
            out = r
        else:
            for k in ('viol', 'inc'):
                out[k] += r[k]
            for k in ('paths', 'faults', 'values', 'loads'):
                out[k] += r[k]
            out['functions'] = sorted(set(out['functions']) | set(r['functions']))
            out['stats'], out['dec'] = r['stats'], r['dec']
    out['n'] = len(ns)
    return out

def run_order(c, n, L, what, st, dec):
    res = dict(viol=[], inc=[], paths=0, faults=0, values=0, loads=0, functions=set())
    dl = time.time() + (250 if not c.thorough else 1500)
    for tag, lib in L:
        bad = {}
        try:
            for r, fault, path, s in orders_paths(lib, n, st, deadline=dl):
                res['paths'] += 1
                if r is not None:
                    res['functions'].update(k if isinstance(k, str) else k[-1] for k in r.ex.calls)
                    res['loads'] += sum(1 for x in T.cone([t for row in r.res for t in row]) if x.op == 'f' and x.a[0] == 'tab')
                    res['values'] += (n + 1) * lib.W
                if fault is not None:
                    res['faults'] += 1
                    if what == 'D02' or (what == 'E02' and fault.kind in ('readonly', 'uninit')):
                        bad.setdefault('%s: %s' % (fault.kind, fault), (screening.show(path), None, s))
                    continue
                if what == 'E02' and memcheck.undefs([t for row in r.res for t in row]):
                    bad.setdefault('a value depends on what thread-local memory held before', (screening.show(path), None, s))
                if what == 'D01':
                    for p, x in check_path(dec, lib, r, path, s, n):
                        bad.setdefault(p, (screening.show(path), x, s))
        except irx.Unsupported as e:
            res['inc'].append('%s order %d: not encoded: %s' % (tag, n, e))
        except fork.TooManyPaths as e:
            res['inc'].append('%s order %d: %s' % (tag, n, e))
        for p, (pt, x, s) in list(bad.items())[:3]:
            if p[0] == '?':
                # undecided: the arguments of interest are still tried on the real code, as a hint only
                res['inc'].append('%s order %d: %s' % (tag, n, p[1:]))
                continue
            if what == 'D01':
                cand = near(x) if x is not None else []
                m = screening.model(s)
                cand += [float(v) for k, v in m.items() if k[0] == 'x' and v >= 0] + [0.0, 1e-3, 20.0, 36.4, 36.49, 36.5, 37.0, 45.0, 1e3]
                y = wrong(lib, n, cand, seed=c.seed)
            elif what == 'D02':
                y = edge(lib, n, s)
                if not y:
                    y = wrong(lib, n, EDGE[:-2], seed=c.seed)
            else:
                import state
                cand = [float(v) for k, v in screening.model(s).items() if k[0] == 'x' and v >= 0] + [0.3, 20.0, 36.0, 36.6, 50.0]
                pr = [program(lib, n, [[x] * lib.W for x in q]).replace('v_boys', 'v_boys_' + y) for y, q in (('x', cand), ('y', cand[::-1] + [1.0, 40.0]))]
                y = state.native(lib, [m.name for m in modules(lib)[1:]], pr[0], pr[1])
                y = y if y[0] else None
            if y:
                res['viol'].append(('%s:order%d' % (tag.replace(' ', '_'), n), '%s, order %d: %s (path %s); replayed: %s' % (tag, n, p, pt or 'without branches', y[0]), y[1]))
            else:
                res['inc'].append('%s order %d: %s; not reproduced' % (tag, n, p))
    res['stats'] = st.as_dict()
    res['dec'] = dec.n
    res['functions'] = sorted(res['functions'])
    return res

def run_orders(c, L, orders, what, budget, procs=8):
    tot = dict(orders=0, paths=0, values=0, table_reads=0, queries=0, solver_s=0.0, cells=0, cell_queries=0, recursion_steps=0, long_range=0)
    fs = set()
    for tag, lib in L:
        lib.index()
        modules(lib)
    orders = list(orders)
    if what == 'D01':
        for i in range(366):
            bf(0, Fraction(i, 10))
    groups = ([[n] for n in orders if n <= 3] if what != 'D01' else [[n for n in orders if n <= 3][::-1]]) + [[n] for n in orders[::-1] if n > 3]
    for n, s, r in check_tasks([g for g in groups if g], lambda g: run_group(c, g, L, what), procs, time.time() + budget):
        if s != 'ok':
            c.inc('orders %s: %s %s' % (n, s, r))
            continue
        tot['orders'] += r['n']
        tot['paths'] += r['paths']; tot['values'] += r['values']; tot['table_reads'] += r['loads']
        tot['queries'] += r['stats']['queries']; tot['solver_s'] += r['stats']['time']
        for a, b in (('cells', 'cells'), ('cell_queries', 'cell_queries'), ('recursion_steps', 'recursion'), ('long_range', 'long')):
            tot[a] += r['dec'][b]
        fs.update(r['functions'])
        for k, t, rep in r['viol']:
            c.violation(k, t, rep, 'c')
        for t in r['inc']:
            c.inc(t)
    tot['solver_s'] = round(tot['solver_s'], 2)
    return dict(tot, functions=sorted(fs), functions_encoded=len(fs))

def check_tasks(items, fn, procs, deadline):
    import check
    return check.tasks(items, fn, jobs=procs, deadline=deadline, memgb=8)
