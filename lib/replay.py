"""Counterexamples: exact evaluation, solver query, and replay on the compiled code."""
import os, random, subprocess
from fractions import Fraction
import mpmath, z3
import build, kern, harness, terms as T
from osref import *
from prove import canon

mpmath.mp.dps = 40

def geometry(seed, bra, ket):
    """rational physical inputs in the naming of osref.System"""
    r = random.Random(seed)
    R = lambda lo, hi: Fraction(r.randrange(int(lo * 64), int(hi * 64)), 64)
    v = {}
    for side, counts, NM in (('b', bra, ('A', 'B', 'P', 'p', 'a2', 'b2', 'KP', 'h2p', 'PA', 'PB', 'AB')), ('k', ket, ('C', 'D', 'Q', 'q', 'c2', 'd2', 'KQ', 'h2q', 'QC', 'QD', 'CD'))):
        nA, nB, nP, npp, na2, nb2, nK, nh, nPA, nPB, nAB = NM
        i = 0
        for s, n in enumerate(counts):
            A = [R(-1, 1) for _ in 'xyz']
            B = [R(-1, 1) for _ in 'xyz']
            for k, x in enumerate('xyz'):
                v['%s%s@%d' % (nAB, x, s)] = A[k] - B[k]
            for _ in range(n):
                ea, eb = R(0.25, 2), R(0.25, 2)
                at = '@%d' % i
                v[npp + at] = ea + eb
                v[na2 + at] = 2 * ea
                v[nb2 + at] = 2 * eb
                v[nK + at] = R(0.5, 2)
                v[nh + at] = 1 / (2 * (ea + eb))
                for k, x in enumerate('xyz'):
                    P = (ea * A[k] + eb * B[k]) / (ea + eb)
                    v[nP + x + at] = P
                    v[nPA + x + at] = P - A[k]
                    v[nPB + x + at] = P - B[k]
                i += 1
    for i in range(sum(bra)):
        for j in range(sum(ket)):
            p, q = v['p@%d' % i], v['q@%d' % j]
            at = '@%d,%d' % (i, j)
            v['rho' + at] = p * q / (p + q)
            v['rop' + at] = q / (p + q)
            v['roq' + at] = p / (p + q)
            v['h2pq' + at] = 1 / (2 * (p + q))
            for x in 'xyz':
                v['PQ' + x + at] = v['P%s@%d' % (x, i)] - v['Q%s@%d' % (x, j)]
            v['T' + at] = v['rho' + at] * sum(v['PQ' + x + at] ** 2 for x in 'xyz')
    return v

def boys(m, x):
    """F_m(x) to full working precision"""
    x = mpmath.mpf(x.numerator) / x.denominator if isinstance(x, Fraction) else mpmath.mpf(x)
    if x == 0:
        return mpmath.mpf(1) / (2 * m + 1)
    a = mpmath.mpf(2 * m + 1) / 2
    if x < 1e-8:
        return sum((-x) ** k / mpmath.factorial(k) / (2 * m + 2 * k + 1) for k in range(8))
    return mpmath.gammainc(a, 0, x) / (2 * x ** a)

class Numeric:
    """reference integrals with numbers: base(m, ctx) supplies the s-type ones"""
    def __init__(self, sy, v, num, base):
        self.sy, self.v, self.num, self.base = sy, v, num, base
        self.memo = {}
        self.cv = {}
    def c(self, n, ctx):
        k = self.sy.name(n, ctx)
        r = self.cv.get(k)
        if r is None:
            r = self.cv[k] = self.num(self.v[k])
        return r
    def coef(self, co, ctx):
        x = self.num(Fraction(co[0]))
        for n in co[1:]:
            x = x * self.c(n, ctx)
        return x
    def integral(self, lab, ctx):
        if ctx[0] == 'S':
            return sum((self.integral(lab, c) for c in self.sy.members[ctx][1:]), self.integral(lab, self.sy.members[ctx][0]))
        k = (lab, ctx)
        r = self.memo.get(k)
        if r is not None:
            return r
        a, b, c, d, m = lab
        if b != Z3:
            i = 0 if b[0] else 1 if b[1] else 2
            e = [((1,), (inc(a, i), dec(b, i), c, d, m)), ((1, 'AB' + 'xyz'[i]), (a, dec(b, i), c, d, m))]
        elif d != Z3:
            i = 0 if d[0] else 1 if d[1] else 2
            e = [((1,), (a, b, inc(c, i), dec(d, i), m)), ((1, 'CD' + 'xyz'[i]), (a, b, c, dec(d, i), m))]
        elif a != Z3:
            i = 0 if a[0] else 1 if a[1] else 2
            e = vrr(a, b, c, d, m, 0, i)
        elif c != Z3:
            i = 0 if c[0] else 1 if c[1] else 2
            e = vrr(a, b, c, d, m, 2, i)
        else:
            r = self.memo[k] = self.base(m, ctx)
            return r
        t = None
        for co, l in e:
            y = self.coef(co, ctx) * self.integral(l, ctx)
            t = y if t is None else t + y
        self.memo[k] = t
        return t
    def goal(self, g):
        if g[0] == 'D':
            t = None
            for co, h in dterms(g):
                y = self.goal(h) * self.num(Fraction(co[0]))
                t = y if t is None else t + y
            return t
        f, lab, ctx = g
        if f == '1':
            return self.integral(lab, ctx)
        cs = self.sy.members[ctx] if ctx[0] == 'S' else [ctx]
        t = None
        for c in cs:
            y = self.integral(lab, c) * self.c(f, c)
            t = y if t is None else t + y
        return t

class Poly:
    """polynomials over opaque symbols with rational coefficients"""
    __slots__ = ('d',)
    def __init__(self, d):
        self.d = d
    def __add__(self, o):
        d = dict(self.d)
        for k, x in o.d.items():
            y = d.get(k, 0) + x
            if y:
                d[k] = y
            else:
                d.pop(k, None)
        return Poly(d)
    def __mul__(self, o):
        d = {}
        for k, x in self.d.items():
            for l, y in o.d.items():
                m = tuple(sorted(k + l))
                z = d.get(m, 0) + x * y
                if z:
                    d[m] = z
                else:
                    d.pop(m, None)
        return Poly(d)

def pconst(f):
    return Poly({(): Fraction(f)} if f else {})

def psym(n):
    return Poly({(n,): Fraction(1)})

def evalpoly(root, v, sy):
    """program term at concrete rational inputs; Boys values, roots and unknown
    functions stay symbols"""
    memo = {}
    vals = {}
    tof = {v['T@%d,%d' % c]: c for c in sy.ctx}
    side = {}
    for n in T.cone([root]):
        op = n.op
        if op == 'c':
            x = pconst(n.a[0])
        elif op == 'v':
            x = pconst(v[n.a[0]]) if n.a[0] in v else psym('var:%s' % n.a[0])
        elif op == '+':
            x = memo[n.a[0].id] + memo[n.a[1].id]
        elif op == '*':
            x = memo[n.a[0].id] * memo[n.a[1].id]
        elif op == '/' and set(memo[n.a[1].id].d) <= {()} and memo[n.a[1].id].d:
            x = memo[n.a[0].id] * pconst(1 / memo[n.a[1].id].d[()])
        elif op == 'f' and n.a[0] == 'boys' and n.a[1].op == 'c' and set(memo[n.a[2].id].d) <= {()} and memo[n.a[2].id].d.get((), Fraction(0)) in tof:
            x = psym('F%d@%d,%d' % ((int(n.a[1].a[0]),) + tof[memo[n.a[2].id].d.get((), Fraction(0))]))
        elif op == 'sqrt' and set(memo[n.a[0].id].d) <= {()}:
            # canonical: sqrt(v) with v = r * sqrt(1/(p+q))-class is kept as symbol of v
            val = memo[n.a[0].id].d.get((), Fraction(0))
            nm = 'sqrt:%s' % val
            side[nm] = val
            x = psym(nm)
        else:
            x = psym('%s:%d' % (op, n.id))
        memo[n.id] = x
    return memo[root.id], side

def refpoly(g, v, sy):
    def base(m, ctx):
        pq = v['p@%d' % ctx[0]] + v['q@%d' % ctx[1]]
        return pconst(v['KP@%d' % ctx[0]] * v['KQ@%d' % ctx[1]]) * psym('sqrt:%s' % (1 / pq)) * psym('F%d@%d,%d' % (m,) + ctx if False else 'F%d@%d,%d' % ((m,) + ctx))
    return Numeric(sy, v, pconst, base).goal(g)

def solver_cex(node, g, v, sy, st):
    """z3: with these inputs, are there values of the Boys functions for which the
    program's term differs from the integral?"""
    e, side = evalpoly(node, v, sy)
    d = e + refpoly(g, v, sy) * pconst(-1)
    sym = {}
    hy = []
    def S(n):
        if n not in sym:
            s = sym[n] = z3.Real(n)
            if n[:5] == 'sqrt:':
                f = Fraction(n[5:])
                hy.append(s >= 0)
                hy.append(s * s == z3.RealVal(str(f)))
            elif n[0] == 'F' and n[1].isdigit():
                hy.append(s > 0)
                hy.append(s <= 1)
        return sym[n]
    ex = z3.RealVal(0)
    for k, c in d.d.items():
        t = z3.RealVal(str(c))
        for n in k:
            t = t * S(n)
        ex = ex + t
    from prove import z3prove
    r, m = z3prove(hy, ex == 0, st, timeout=20000)
    return r, m, d

def mpnum(f):
    return mpmath.mpf(f.numerator) / f.denominator

def reference(gs, v, sy):
    """reference values with the true Boys function"""
    bm = {}
    def base(m, ctx):
        k = (m, ctx)
        if k not in bm:
            pq = v['p@%d' % ctx[0]] + v['q@%d' % ctx[1]]
            bm[k] = mpnum(v['KP@%d' % ctx[0]] * v['KQ@%d' % ctx[1]]) / mpmath.sqrt(mpnum(pq)) * boys(m, v['T@%d,%d' % ctx])
        return bm[k]
    N = Numeric(sy, v, mpnum, base)
    return [float(N.goal(g)) for g in gs]

def driver(lib, fn, q, deriv, bra, ket, bc, kc, v, worklen, tol=0.0, screens=None, nout=None):
    """a C program that calls the kernel on these inputs"""
    W, NS = lib.W, lib.NS
    L = ['#include <stdio.h>', '#include <stdlib.h>', '#include <string.h>', '#include <stdint.h>', '#include "simint/shell/shell.h"', '#include "simint/vectorization/vectorization.h"', '#include "simint/ostei/ostei.h"', '']
    L.append('int %s(struct simint_multi_shellpair, struct simint_multi_shellpair, double, double * restrict, double * restrict);' % fn)
    L.append('static void *mem(size_t n){ void *p = NULL; if (posix_memalign(&p, 64, n ? n : 1)) abort(); return p; }')
    L.append('static double *cp(const double *x, size_t n){ double *p = mem(8*n); memcpy(p, x, 8*n); return p; }')
    L.append('int main(void){')
    for S, names, AB, counts, am1, am2, clip in (('P', harness.BRAN, 'AB', bra, q[0], q[1], bc), ('Q', harness.KETN, 'CD', ket, q[2], q[3], kc)):
        lay = harness.layout(counts, W, NS)
        L.append('struct simint_multi_shellpair %s; memset(&%s, 0, sizeof(%s));' % (S, S, S))
        L.append('%s.am1=%d; %s.am2=%d; %s.nprim=%d; %s.nshell12=%d; %s.nshell12_clip=%d;' % (S, am1, S, am2, S, sum(counts), S, len(counts), S, clip))
        for fld, nm in names.items():
            if fld in ('alpha2', 'beta2') and ('MSP', fld) not in lib.off:
                continue
            if fld == 'screen' and screens is None:
                continue
            src = screens if fld == 'screen' else v
            vals = [harness.PADV.get(fld, 0) if k is None else src['%s@%d' % (nm, k)] for k in lay]
            L.append('{ static const double x[] = {%s}; %s.%s = cp(x, %d); }' % (', '.join(hexf(x) for x in vals), S, fld, len(vals)))
        for x in 'xyz':
            L.append('{ static const double x[] = {%s}; %s.AB_%s = cp(x, %d); }' % (', '.join(hexf(v['%s%s@%d' % (AB, x, s)]) for s in range(len(counts))), S, x, len(counts)))
        L.append('{ static const int x[] = {%s}; %s.nprim12 = mem(sizeof x); memcpy(%s.nprim12, x, sizeof x); }' % (', '.join(map(str, counts)), S, S))
        if screens is not None:
            L.append('%s.screen_max = %s;' % (S, hexf(screens['S%smax' % S])))
    nout = nout or harness.nout(q, deriv) * bc * kc
    wl = worklen or 'simint_ostei_workmem(%d, SIMINT_OSTEI_MAXAM)' % deriv
    L.append('size_t nw = (size_t)(%s); double *work = mem(nw); memset(work, 0xff, nw);' % wl)
    L.append('double *out = mem(8*%d); memset(out, 0xff, 8*%d);' % (nout, nout))
    L.append('int r = %s(P, Q, %s, work, out);' % (fn, hexf(tol)))
    L.append('printf("ret %d\\n", r); for (int i = 0; i < %d; i++) printf("%%.17g\\n", out[i]); return 0; }'.replace('%d; i++', '%d; i++' % nout).replace('"ret %d', '"ret %%d') % () if False else
             'printf("ret %%d\\n", r); for (int i = 0; i < %d; i++) printf("%%.17g\\n", out[i]); return 0; }' % nout)
    return '\n'.join(L) + '\n'

def hexf(x):
    if isinstance(x, Fraction):
        x = x.numerator / x.denominator
    x = float(x)
    return x.hex()

def native(lib, files, text, asan=False, name='replay', tmo=120, flags=()):
    """compile the driver with the library's files (gcc -O2) and run it"""
    import tempfile
    d = tempfile.mkdtemp(dir=build.scratch())
    c = os.path.join(d, name + '.c')
    with open(c, 'w') as f:
        f.write(text)
    exe = os.path.join(d, name)
    opt = ['-O1', '-fsanitize=address,bounds,null', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'] if asan else ['-O2']
    build.run(['gcc'] + opt + ['-g', '-std=gnu11', '-w', '-fopenmp', '-I' + lib.inc, '-I' + lib.src] + build.MFLAGS[lib.vec] + list(lib.extra) + list(flags) + [c] + list(files) + ['-o', exe, '-lm'], timeout=600)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
    try:
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tmo, env=env, preexec_fn=build.unlimit)
    except subprocess.TimeoutExpired:
        return 'timeout', None
    if p.returncode != 0:
        return 'crash %d: %s' % (p.returncode, p.stderr.decode(errors='replace')[:1500]), None
    ls = p.stdout.decode().split('\n')
    ret = int(ls[0].split()[1])
    return ret, [float(x) for x in ls[1:] if x]
