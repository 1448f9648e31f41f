"""Reference: two-electron integrals over primitive cartesian gaussians.

The mathematical object is the auxiliary integral [ab|cd]^(m) of Obara and
Saika, with [00|00]^(m) = K_P K_Q (p+q)^(-1/2) F_m(rho |P-Q|^2).  It satisfies
the vertical recurrences (on any of the four centers) and the horizontal
relations, which are the axioms used in the lemmas.  Values are computed modulo
a prime at a random point to guess which integral a term of the program is.
"""
import random
from fractions import Fraction

PR = (1 << 61) - 1

def inv(x):
    return pow(x, PR - 2, PR)

def psi4_order(am):
    """xx, xy, xz, yy, yz, zz, ..."""
    out = []
    for i in range(am + 1):
        x = am - i
        for j in range(i + 1):
            out.append((x, i - j, j))
    return out

def ncart(am):
    return (am + 1) * (am + 2) // 2

Z3 = (0, 0, 0)

def dec(v, d):
    l = list(v); l[d] -= 1
    return tuple(l)

def inc(v, d):
    l = list(v); l[d] += 1
    return tuple(l)

# ---------------------------------------------------------------- axioms
# An axiom for the integral X is a list of (coefficient, label); the statement
# is X = sum coefficient * label.  A coefficient is a tuple
# (int factor, name1, name2, ...): a product of named scalars.
CEN = 'ABCD'
def vrr(a, b, c, d, m, center, i):
    """expand [abcd]^m at a center with a nonzero component i"""
    v = [a, b, c, d]
    v[center] = dec(v[center], i)
    bra = center < 2
    out = []
    pv = ('PA', 'PB', 'QC', 'QD')[center] + 'xyz'[i]
    out.append(((1, pv), (v[0], v[1], v[2], v[3], m)))
    # (W-P) = -(rho/p) PQ ; (W-Q) = +(rho/q) PQ
    out.append((((-1, 'rop', 'PQ' + 'xyz'[i]) if bra else (1, 'roq', 'PQ' + 'xyz'[i])), (v[0], v[1], v[2], v[3], m + 1)))
    same = (0, 1) if bra else (2, 3)
    oth = (2, 3) if bra else (0, 1)
    h = 'h2p' if bra else 'h2q'
    r = 'rop' if bra else 'roq'
    for s in same:
        k = v[s][i]
        if k:
            w = list(v)
            w[s] = dec(w[s], i)
            out.append(((k, h), tuple(w) + (m,)))
            out.append(((-k, h, r), tuple(w) + (m + 1,)))
    for s in oth:
        k = v[s][i]
        if k:
            w = list(v)
            w[s] = dec(w[s], i)
            out.append(((k, 'h2pq'), tuple(w) + (m + 1,)))
    return out

def axioms(lab):
    """all axiom instances with lab on the left-hand side"""
    a, b, c, d, m = lab
    v = [a, b, c, d]
    for cen in range(4):
        for i in range(3):
            if v[cen][i]:
                yield ('vrr' + CEN[cen], vrr(a, b, c, d, m, cen, i))
    for i in range(3):
        x = 'xyz'[i]
        # (a,b) = (a+1,b-1) + AB (a,b-1)
        if b[i]:
            yield ('hrrJ', [((1,), (inc(a, i), dec(b, i), c, d, m)), ((1, 'AB' + x), (a, dec(b, i), c, d, m))])
        if d[i]:
            yield ('hrrL', [((1,), (a, b, inc(c, i), dec(d, i), m)), ((1, 'CD' + x), (a, b, c, dec(d, i), m))])
        if a[i]:
            yield ('hrrI', [((1,), (dec(a, i), inc(b, i), c, d, m)), ((-1, 'AB' + x), (dec(a, i), b, c, d, m))])
        if c[i]:
            yield ('hrrK', [((1,), (a, b, dec(c, i), inc(d, i), m)), ((-1, 'CD' + x), (a, b, dec(c, i), d, m))])

BRA = ('p', 'h2p', 'a2', 'b2', 'KP', 'PAx', 'PAy', 'PAz', 'PBx', 'PBy', 'PBz', 'Px', 'Py', 'Pz')
KET = ('q', 'h2q', 'c2', 'd2', 'KQ', 'QCx', 'QCy', 'QCz', 'QDx', 'QDy', 'QDz', 'Qx', 'Qy', 'Qz')
BRAS = frozenset(BRA)
KETS = frozenset(KET)
ABS = frozenset(('ABx', 'ABy', 'ABz'))
CDS = frozenset(('CDx', 'CDy', 'CDz'))

def issq(x):
    return pow(x, (PR - 1) // 2, PR) == 1

def root(x):
    return pow(x, (PR + 1) // 4, PR)

class System:
    """Shell pairs with primitives: bra pair s has bra[s] primitive pairs, ket
    pair t has ket[t].  Primitive pairs are numbered across the shell pairs.  A
    context is a primitive quartet (i, j) or a contracted quartet ('S', s, t).
    All quantities have values modulo PR, consistent with the geometry
    (P = (aA+bB)/(a+b), PB = PA + AB, ...)."""
    def __init__(self, seed, bra=(1,), ket=(1,)):
        r = self.rnd = random.Random(seed)
        R = lambda: r.randrange(2, PR - 2)
        self.v = v = {}
        self.bra, self.ket = bra, ket
        self.bp = [s for s, n in enumerate(bra) for _ in range(n)]
        self.kp = [t for t, n in enumerate(ket) for _ in range(n)]
        ps = []
        for side, shells, prims, NM in (('b', bra, self.bp, ('A', 'B', 'P', 'p', 'a2', 'b2', 'KP', 'h2p', 'PA', 'PB', 'AB')),
                                        ('k', ket, self.kp, ('C', 'D', 'Q', 'q', 'c2', 'd2', 'KQ', 'h2q', 'QC', 'QD', 'CD'))):
            nA, nB, nP, npp, na2, nb2, nK, nh, nPA, nPB, nAB = NM
            for s in range(len(shells)):
                for x in 'xyz':
                    A, B = R(), R()
                    v['%s%s@%s%d' % (nA, x, side, s)] = A
                    v['%s%s@%s%d' % (nB, x, side, s)] = B
                    v['%s%s@%d' % (nAB, x, s)] = (A - B) % PR
            for i, s in enumerate(prims):
                while 1:
                    ea, eb = R(), R()
                    p = (ea + eb) % PR
                    if side == 'b' or all(issq((p + o) % PR) for o in ps):
                        break
                if side == 'b':
                    ps.append(p)
                at = '@%d' % i
                v[npp + at] = p
                v[na2 + at] = 2 * ea % PR
                v[nb2 + at] = 2 * eb % PR
                v[nK + at] = R()
                v[nh + at] = inv(2 * p % PR)
                for x in 'xyz':
                    A, B = v['%s%s@%s%d' % (nA, x, side, s)], v['%s%s@%s%d' % (nB, x, side, s)]
                    P = (ea * A + eb * B) * inv(p) % PR
                    v[nP + x + at] = P
                    v[nPA + x + at] = (P - A) % PR
                    v[nPB + x + at] = (P - B) % PR
        self.F = {}
        self.ctx = [(i, j) for i in range(len(self.bp)) for j in range(len(self.kp))]
        self.Tof = {}
        self.s = {}
        for i, j in self.ctx:
            p, q = v['p@%d' % i], v['q@%d' % j]
            at = '@%d,%d' % (i, j)
            self.s[i, j] = root((p + q) % PR)
            ipq = inv((p + q) % PR)
            v['rho' + at] = p * q * ipq % PR
            v['rop' + at] = q * ipq % PR
            v['roq' + at] = p * ipq % PR
            v['h2pq' + at] = inv(2 * (p + q) % PR)
            t = 0
            for x in 'xyz':
                d = v['PQ' + x + at] = (v['P%s@%d' % (x, i)] - v['Q%s@%d' % (x, j)]) % PR
                t += d * d
            T_ = v['T' + at] = v['rho' + at] * t % PR
            self.Tof[T_] = (i, j)
            self.F[i, j] = [R() for _ in range(64)]
        self.members = {}
        for i, j in self.ctx:
            self.members.setdefault(('S', self.bp[i], self.kp[j]), []).append((i, j))
        self.memo = {}
        self._names = {}

    def name(self, n, ctx):
        """full name of a named scalar in a context"""
        k = (n, ctx)
        r = self._names.get(k)
        if r is None:
            S = ctx[0] == 'S'
            if n in ABS:
                r = '%s@%d' % (n, ctx[1] if S else self.bp[ctx[0]])
            elif n in CDS:
                r = '%s@%d' % (n, ctx[2] if S else self.kp[ctx[1]])
            elif S:
                raise ValueError(n)
            elif n in BRAS:
                r = '%s@%d' % (n, ctx[0])
            elif n in KETS:
                r = '%s@%d' % (n, ctx[1])
            else:
                r = '%s@%d,%d' % (n, ctx[0], ctx[1])
            self._names[k] = r
        return r

    def coef(self, co, ctx):
        x = co[0]
        for n in co[1:]:
            x = x * self.v[self.name(n, ctx)] % PR
        return x % PR

    def sctx(self, s, t):
        """context of a contracted quartet (the primitive one if there is only one)"""
        m = self.members[('S', s, t)]
        return m[0] if len(m) == 1 else ('S', s, t)

    def integral(self, lab, ctx):
        if ctx[0] == 'S':
            return self.contracted('1', lab, ctx)
        k = (lab, ctx)
        r = self.memo.get(k)
        if r is not None:
            return r
        a, b, c, d, m = lab
        if b != Z3:
            i = 0 if b[0] else 1 if b[1] else 2
            e = [((1,), (inc(a, i), dec(b, i), c, d, m)), ((1, 'AB' + 'xyz'[i]), (a, dec(b, i), c, d, m))]
        elif d != Z3:
            i = 0 if d[0] else 1 if d[1] else 2
            e = [((1,), (a, b, inc(c, i), dec(d, i), m)), ((1, 'CD' + 'xyz'[i]), (a, b, c, dec(d, i), m))]
        elif a != Z3:
            i = 0 if a[0] else 1 if a[1] else 2
            e = vrr(a, b, c, d, m, 0, i)
        elif c != Z3:
            i = 0 if c[0] else 1 if c[1] else 2
            e = vrr(a, b, c, d, m, 2, i)
        else:
            v = self.v
            r = v['KP@%d' % ctx[0]] * v['KQ@%d' % ctx[1]] % PR * inv(self.s[ctx]) % PR * self.F[ctx][m] % PR
            self.memo[k] = r
            return r
        t = 0
        for co, l in e:
            t += self.coef(co, ctx) * self.integral(l, ctx)
        t %= PR
        self.memo[k] = t
        return t

    def contracted(self, f, lab, ctx):
        k = (f, lab, ctx)
        r = self.memo.get(k)
        if r is None:
            r = 0
            for c in self.members[ctx]:
                x = self.integral(lab, c)
                if f != '1':
                    x = x * self.v[self.name(f, c)] % PR
                r += x
            r = self.memo[k] = r % PR
        return r

    def goal(self, g):
        """value of a goal: (factor, label, ctx) or ('D', center, direction, abcd, ctx)"""
        if g[0] == 'D':
            t = 0
            for co, h in dterms(g):
                t += co[0] * self.goal(h)
            return t % PR
        f, lab, ctx = g
        if ctx[0] == 'S':
            return self.contracted(f, lab, ctx)
        x = self.integral(lab, ctx)
        return x if f == '1' else x * self.v[self.name(f, ctx)] % PR

EXPN = ('a2', 'b2', 'c2', 'd2')
def dterms(g):
    """('D', center, direction, abcd, ctx) -> [(coefficient, goal)]"""
    _, cen, i, abcd, ctx = g
    up = list(abcd); up[cen] = inc(abcd[cen], i)
    t = [((1,), (EXPN[cen], tuple(up) + (0,), ctx))]
    if abcd[cen][i]:
        dn = list(abcd); dn[cen] = dec(abcd[cen], i)
        t.append(((-abcd[cen][i],), ('1', tuple(dn) + (0,), ctx)))
    return t

def gstr(g):
    if g[0] == 'D':
        return 'd/d%s%s %s %s' % (CEN[g[1]], 'xyz'[g[2]], lstr(g[3] + (0,)), cstr(g[4]))
    return (g[0] + '*' if g[0] != '1' else '') + lstr(g[1]) + cstr(g[2])

def cstr(c):
    return ' of shell pairs (%d,%d)' % c[1:] if c[0] == 'S' else ' of primitives (%d,%d)' % c

def lstr(lab):
    f = lambda t: 'x' * t[0] + 'y' * t[1] + 'z' * t[2] or 's'
    return '[%s %s|%s %s]' % (f(lab[0]), f(lab[1]), f(lab[2]), f(lab[3])) + ('(%d)' % lab[4] if lab[4] else '')
