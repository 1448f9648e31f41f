"""Histories: shells and shell pair structures under every sequence of operations.
The operation of each step and its arguments are variables; z3 decides which are left on
every path.  States that differ only in the (symbolic) contents are joined, so that the
search ends and covers histories of any length."""
import time, random, copy
from fractions import Fraction
import z3
import irx, fork, prove, replay, shells, screening, build, memcheck, terms as T
from prove import z3prove
from shells import Machine, XYZ

# ----- state of the machine up to the values of doubles

def canon(ex, roots):
    names, out, todo = {}, [], []
    def name(p):
        oid = p >> irx.SHIFT
        if not (0 < oid < len(ex.objs)):
            return ('int', p)
        if oid not in names:
            names[oid] = len(names)
            todo.append(oid)
        return ('ptr', names[oid], (p & irx.OFFMASK) - irx.OFFBIAS)
    for r in roots:
        name(r)
    done = set()
    while todo:
        oid = todo.pop(0)
        if oid in done:
            continue
        done.add(oid)
        o = ex.objs[oid]
        cells = []
        if not o.freed and not o.ro and not o.heap:
            for off in sorted(o.cells):
                sz, v = o.cells[off]
                if isinstance(v, T.N):
                    continue        # contents: free
                if v.__class__ is int and sz == 8 and v >> irx.SHIFT:
                    v = name(v)
                elif v.__class__ is not int:
                    v = 'undefined'
                cells.append((off, sz, v))
        out.append((names[oid], o.size, o.freed, tuple(cells)))
    heap = sum(1 for o in ex.objs[1:] if o.heap and not o.freed)
    return tuple(sorted(out, key=str)), heap

def statics(ex):
    r = []
    for k, a in sorted(ex.gaddr.items(), key=str):
        if isinstance(a, int) and isinstance(k, tuple):
            o = ex.objs[a >> irx.SHIFT]
            if not o.ro and not o.name.startswith('function'):
                r.append(a)
    return r

class Ghost:
    def __init__(self):
        self.live = False

class ShellWorld:
    """nshell shells; operations of simint/shell/shell.h"""
    def __init__(self, lib, nshell, maxp):
        self.lib, self.ns, self.mp = lib, nshell, maxp
        self.ops = []
        for w in range(nshell):
            self.ops += [('create', w, n) for n in range(1, maxp + 1)]
            self.ops += [('allocate', w, n) for n in range(1, maxp + 1)]
            self.ops += [('copy', f, w) for f in range(nshell) if f != w]
            self.ops += [('free', w), ('normalize', w), ('zero', w)]
        self.ops += [('normalizeall',), ('freeall',)]
        self.kind = 'shells'
    def modules(self):
        return shells.modules(self.lib)
    def start(self, decide):
        m = Machine(self.lib, self.modules(), decide)
        ex = m.ex
        self.sz = self.lib.off[('SHELL', 'size')]
        o = ex.new(self.sz * self.ns, 16, 'shells')
        o.uni8 = False
        m.sh = ex.addr(o)
        ex.call('simint_initialize_shells', self.ns, m.sh)
        m.g = [Ghost() for _ in range(self.ns)]
        m.step = 0
        return m
    def enabled(self, m, op):
        if op[0] in ('copy', 'normalize'):
            return m.g[op[1]].live
        if op[0] == 'normalizeall':
            return all(g.live for g in m.g)
        return True
    def am(self, k):
        return (3 * k + 1) % 7
    def apply(self, m, op):
        ex, k = m.ex, m.step
        A = lambda w: m.sh + self.sz * w
        off = self.lib.off
        new = lambda n: dict(al=[T.var('a%d_%d' % (k, i)) for i in range(n)], co=[T.var('c%d_%d' % (k, i)) for i in range(n)], cen=[T.var('%s%d' % (x, k)) for x in 'XYZ'], am=self.am(k))
        def put(w, **d):
            g = m.g[w]
            g.live = True
            g.al, g.co, g.cen, g.am = d['al'], d['co'], d['cen'], d['am']
        o = op[0]
        if o == 'create':
            d = new(op[2])
            ex.call('simint_create_shell', op[2], d['am'], *d['cen'], ex.array(d['al'], name='exponents'), ex.array(d['co'], name='coefficients'), A(op[1]))
            put(op[1], **d)
        elif o == 'allocate':
            # contents are then given through the structure
            w, n = op[1], op[2]
            d = new(n)
            ex.call('simint_allocate_shell', n, A(w))
            ex.store(A(w) + off[('SHELL', 'nprim')], irx.I32, n)
            ex.store(A(w) + off[('SHELL', 'am')], irx.I32, d['am'])
            for x, v in zip(XYZ, d['cen']):
                ex.store(A(w) + off[('SHELL', x)], irx.DBL, v)
            for f in ('al', 'co'):
                p = ex.load(A(w) + off[('SHELL', {'al': 'alpha', 'co': 'coef'}[f])], irx.PTR)
                for i in range(n):
                    ex.store(p + 8 * i, irx.DBL, d[f][i])
            put(w, **d)
        elif o == 'copy':
            ex.call('simint_copy_shell', A(op[1]), A(op[2]))
            g = m.g[op[1]]
            put(op[2], al=g.al, co=g.co, cen=g.cen, am=g.am)
        elif o == 'free':
            ex.call('simint_free_shell', A(op[1]))
            m.g[op[1]].live = False
        elif o == 'freeall':
            ex.call('simint_free_shells', self.ns, A(0))
            for g in m.g:
                g.live = False
        elif o == 'zero':
            ex.call('simint_create_zero_shell', A(op[1]))
            put(op[1], al=[T.ZERO], co=[T.ONE], cen=[T.ZERO] * 3, am=0)
        elif o in ('normalize', 'normalizeall'):
            ws = [op[1]] if o == 'normalize' else list(range(self.ns))
            ex.call('simint_normalize_shells', len(ws), A(ws[0]))
            for w in ws:
                g = m.g[w]
                p = ex.load(A(w) + off[('SHELL', 'coef')], irx.PTR)
                g.co = [ex.rd(p, i) for i in range(len(g.al))]
                if T.has_undef(g.co):
                    raise irx.Fault('uninit', 'coefficients of shell %d after normalization' % w)
        m.step += 1
    def problems(self, m, op, eq):
        ex, off = m.ex, self.lib.off
        out = []
        for w, g in enumerate(m.g):
            if not g.live:
                continue
            s = m.sh + self.sz * w
            rd = lambda f: m.i32(s, f, 'SHELL')
            if (rd('nprim'), rd('am')) != (len(g.al), g.am):
                out.append('shell %d has nprim %d, am %d, was given %d, %d' % (w, rd('nprim'), rd('am'), len(g.al), g.am))
                continue
            for x, v in zip(XYZ, g.cen):
                if not eq(m.dbl(s, x, 'SHELL'), v):
                    out.append('center %s of shell %d is not what it was given' % (x, w))
            for f, vs in (('alpha', g.al), ('coef', g.co)):
                p = m.ptr(s, f, 'SHELL')
                if not all(eq(ex.rd(p, i), v) for i, v in enumerate(vs)):
                    out.append('%s of shell %d is not what it was given' % (f, w))
        return out
    def end(self, m):
        ex = m.ex
        for _ in (0, 1):
            # freeing a freed shell is allowed
            ex.call('simint_free_shells', self.ns, m.sh)
    def roots(self, m):
        return [m.sh]
    def extra(self, m):
        return tuple((g.live, len(g.al) if g.live else 0) for g in m.g)
    def program(self, lib, ops, v):
        L = ['#include <stdio.h>', '#include <string.h>', '#include "simint/shell/shell.h"', 'int simint_compute_eri(void) { return 0; }', 'struct simint_shell s[%d];' % self.ns,
             'static struct { int live, nprim, am; double cen[3], a[%d], c[%d]; } g[%d];' % (self.mp, self.mp, self.ns),
             'static void bad(int step, int w, const char *what) { printf("bad after step %d: %s of shell %d is not what it was given\\n", step, what, w); }',
             'static void look(int step) { for (int w = 0; w < %d; w++) if (g[w].live) {' % self.ns,
             '  if (s[w].nprim != g[w].nprim || s[w].am != g[w].am) { bad(step, w, "nprim or am"); continue; }',
             '  if (s[w].x != g[w].cen[0] || s[w].y != g[w].cen[1] || s[w].z != g[w].cen[2]) bad(step, w, "center");',
             '  for (int i = 0; i < g[w].nprim; i++) { if (s[w].alpha[i] != g[w].a[i]) bad(step, w, "alpha"); if (s[w].coef[i] != g[w].c[i]) bad(step, w, "coef"); } } }',
             'int main(void) {', 'simint_initialize_shells(%d, s);' % self.ns]
        H = replay.hexf
        for k, op in enumerate(ops):
            o = op[0]
            if o in ('create', 'allocate', 'zero'):
                w = op[1]
                n = op[2] if o != 'zero' else 1
                a = [v('a%d_%d' % (k, i)) for i in range(n)] if o != 'zero' else [0]
                c = [v('c%d_%d' % (k, i)) for i in range(n)] if o != 'zero' else [1]
                cen = [v('%s%d' % (x, k)) for x in 'XYZ'] if o != 'zero' else [0, 0, 0]
                am = self.am(k) if o != 'zero' else 0
                arr = lambda xs: ', '.join(H(x) for x in xs)
                L.append('{ double a[] = {%s}, c[] = {%s}, x[] = {%s};' % (arr(a), arr(c), arr(cen)))
                if o == 'create':
                    L.append('simint_create_shell(%d, %d, x[0], x[1], x[2], a, c, &s[%d]);' % (n, am, w))
                elif o == 'zero':
                    L.append('simint_create_zero_shell(&s[%d]);' % w)
                else:
                    L.append('simint_allocate_shell(%d, &s[%d]); s[%d].nprim = %d; s[%d].am = %d; s[%d].x = x[0]; s[%d].y = x[1]; s[%d].z = x[2]; memcpy(s[%d].alpha, a, sizeof a); memcpy(s[%d].coef, c, sizeof c);' % (n, w, w, n, w, am, w, w, w, w, w))
                L.append('g[%d].live = 1; g[%d].nprim = %d; g[%d].am = %d; memcpy(g[%d].cen, x, sizeof x); memcpy(g[%d].a, a, sizeof a); memcpy(g[%d].c, c, sizeof c); }' % (w, w, n, w, am, w, w, w))
            elif o == 'copy':
                L.append('simint_copy_shell(&s[%d], &s[%d]); g[%d] = g[%d];' % (op[1], op[2], op[2], op[1]))
            elif o == 'free':
                L.append('simint_free_shell(&s[%d]); g[%d].live = 0;' % (op[1], op[1]))
            elif o == 'freeall':
                L.append('simint_free_shells(%d, s); for (int w = 0; w < %d; w++) g[w].live = 0;' % (self.ns, self.ns))
            else:
                a, n = (op[1], 1) if o == 'normalize' else (0, self.ns)
                L.append('simint_normalize_shells(%d, &s[%d]); for (int w = %d; w < %d; w++) for (int i = 0; i < g[w].nprim; i++) g[w].c[i] = s[w].coef[i];' % (n, a, a, a + n))
            L.append('look(%d);' % k)
        L.append('simint_free_shells(%d, s); simint_free_shells(%d, s); return 0; }' % (self.ns, self.ns))
        return '\n'.join(L) + '\n'

class PairWorld:
    """npair structures over fixed shells that are released before the structures are read"""
    def __init__(self, lib, npair, groups, cats, am=(1, 1), few=False):
        self.lib, self.np, self.groups, self.cats = lib, npair, groups, cats
        self.shl = [(am[0], 1), (am[1], 1), (am[0], 2)]
        self.ops = []
        for w in range(npair):
            for g in groups:
                self.ops.append(('create', w, g, 0))
                if all(p[0] < 2 and p[1] < 2 for p in g):
                    self.ops.append(('create', w, g, 2))
            if not few:
                self.ops += [('product', w, ((0, 1), (0, 0)), 0), ('alloc', w, groups[-1], 0)]
            self.ops += [('cat', w, c, me) for c in cats for me in ((2,) if few else (0, 2))]
            self.ops += [('free', w)]
        self.ops += [('freeall',)]
        self.kind = 'pairs'
    def modules(self):
        return shells.modules(self.lib)
    def start(self, decide):
        m = Machine(self.lib, self.modules(), decide)
        ex = m.ex
        self.sz = self.lib.off[('MSP', 'size')]
        o = ex.new(self.sz * self.np, 16, 'shell pair structures')
        o.uni8 = False
        m.P = ex.addr(o)
        ex.call('simint_initialize_multi_shellpairs', self.np, m.P)
        m.g = [None] * self.np
        m.step = 0
        return m
    def enabled(self, m, op):
        return True
    def fill(self, m, P, op):
        """the operation, from shells created for it and released afterwards"""
        ex, o = m.ex, op[0]
        m.shells(self.shl)
        sh = m.sh
        if o == 'create' or o == 'product':
            m.create(P, list(op[2]), 'list' if o == 'create' else 'product', op[3])
        elif o == 'alloc':
            # room first, then filled
            l = m.list(list(op[2]))
            ex.call('simint_allocate_multi_shellpair2', len(op[2]), l, P, op[3])
            ex.call('simint_fill_multi_shellpair2', len(op[2]), m.list(list(op[2])), P, op[3])
        elif o == 'cat':
            parts = []
            for g in op[2]:
                q = m.pair()
                m.create(q, list(g), 'list', op[3])
                m.freeze(q)
                parts.append(q)
            a = ex.new(8 * len(parts), 16, 'array of pointers')
            for k, q in enumerate(parts):
                a.cells[8 * k] = (8, q)
            a.ro = True
            ex.call('simint_cat_multi_shellpair', len(parts), ex.addr(a), P, op[3])
            for q in parts:
                m.freeze(q, False)
                ex.call('simint_free_multi_shellpair', q)
        ex.call('simint_free_shells', len(self.shl), sh)
    def flat(self, op):
        return [p for g in op[2] for p in g] if op[0] == 'cat' else list(op[2])
    def apply(self, m, op):
        ex = m.ex
        if op[0] == 'free':
            ex.call('simint_free_multi_shellpair', m.P + self.sz * op[1])
            m.g[op[1]] = None
        elif op[0] == 'freeall':
            ex.call('simint_free_multi_shellpairs', self.np, m.P)
            m.g = [None] * self.np
        else:
            self.fill(m, m.P + self.sz * op[1], op)
            m.g[op[1]] = op
        m.step += 1
    def read(self, m, P, op):
        return shells.Read(m, P, shells.Scenario(self.shl, [self.flat(op)], method=op[3]))
    def problems(self, m, op, eq):
        out = []
        for w, o in enumerate(m.g):
            if o is None:
                continue
            a = self.read(m, m.P + self.sz * w, o)
            q = m.pair()
            self.fill(m, q, o)
            b = self.read(m, q, o)
            m.ex.call('simint_free_multi_shellpair', q)
            for f in ('am', 'nprim', 'nshell', 'clip', 'nprim12', 'screened'):
                if getattr(a, f) != getattr(b, f):
                    out.append('%s of structure %d is %s, in a new structure it is %s' % (f, w, getattr(a, f), getattr(b, f)))
            if out:
                continue
            for f in a.f:
                for i, (x, y) in enumerate(zip(a.f[f], b.f[f])):
                    if T.has_undef([x]) and not T.has_undef([y]) or not T.has_undef([x, y]) and not eq(x, y):
                        out.append('%s, slot %d of structure %d differs from a new structure' % (f, i, w))
                        break
            for x, y in zip(a.AB, b.AB):
                if not all(eq(i, j) for i, j in zip(x, y)):
                    out.append('AB of structure %d differs from a new structure' % w)
                    break
            if not eq(a.smax, b.smax):
                out.append('screen_max of structure %d differs from a new structure' % w)
        return out
    def end(self, m):
        for _ in (0, 1):
            m.ex.call('simint_free_multi_shellpairs', self.np, m.P)
    def roots(self, m):
        return [m.P]
    def extra(self, m):
        return tuple(m.g)
    def program(self, lib, ops, v):
        W, NS = lib.W, lib.NS
        H = replay.hexf
        L = ['#include <stdio.h>', '#include <string.h>', '#include "simint/shell/shell.h"', 'int simint_compute_eri(void) { return 0; }', 'static struct simint_multi_shellpair P[%d];' % self.np, 'static struct simint_shell s[%d];' % len(self.shl)]
        L.append('static void begin(void) { simint_initialize_shells(%d, s);' % len(self.shl))
        for k, (am, n) in enumerate(self.shl):
            L.append('{ double a[] = {%s}, c[] = {%s}; simint_create_shell(%d, %d, %s, a, c, s + %d); }' % (', '.join(H(v('a%d_%d' % (k, i))) for i in range(n)), ', '.join(H(v('c%d_%d' % (k, i))) for i in range(n)), n, am, ', '.join(H(v('%s%d' % (x, k))) for x in 'XYZ'), k))
        L.append('}')
        alls = [o for o in self.ops if o[0] not in ('free', 'freeall')]
        num = {}
        L.append('static void fill(struct simint_multi_shellpair *p, int op) { begin(); switch (op) {')
        ls = lambda g: '{%s}' % ', '.join('s[%d], s[%d]' % q for q in g)
        for o in alls:
            key = (o[0],) + o[2:]
            if key in num:
                continue
            num[key] = len(num)
            L.append('case %d: {' % num[key])
            if o[0] == 'create':
                L.append('struct simint_shell AB[] = %s; simint_create_multi_shellpair2(%d, AB, p, %d);' % (ls(o[2]), len(o[2]), o[3]))
            elif o[0] == 'product':
                L.append('simint_create_multi_shellpair(1, s, 2, (struct simint_shell []){s[1], s[0]}, p, %d);' % o[3])
            elif o[0] == 'alloc':
                L.append('struct simint_shell AB[] = %s; simint_allocate_multi_shellpair2(%d, AB, p, %d); simint_fill_multi_shellpair2(%d, AB, p, %d);' % (ls(o[2]), len(o[2]), o[3], len(o[2]), o[3]))
            else:
                for i, g in enumerate(o[2]):
                    L.append('struct simint_multi_shellpair q%d; simint_initialize_multi_shellpair(&q%d); { struct simint_shell AB[] = %s; simint_create_multi_shellpair2(%d, AB, &q%d, %d); }' % (i, i, ls(g), len(g), i, o[3]))
                n = len(o[2])
                L.append('struct simint_multi_shellpair const *in[] = {%s}; simint_cat_multi_shellpair(%d, in, p, %d);' % (', '.join('&q%d' % i for i in range(n)), n, o[3]))
                L += ['simint_free_multi_shellpair(&q%d);' % i for i in range(n)]
            L.append('break; }')
        L.append('} simint_free_shells(%d, s); }' % len(self.shl))
        fl = shells.FLD + (['alpha2', 'beta2'] if ('MSP', 'alpha2') in lib.off else []) + ['screen']
        L.append('static void same(int step, int w, struct simint_multi_shellpair *a, int op, int ns, int nl) { struct simint_multi_shellpair q; simint_initialize_multi_shellpair(&q); fill(&q, op);')
        for f in ('am1', 'am2', 'nprim', 'nshell12', 'nshell12_clip', 'screen_max'):
            L.append('if (a->%s != q.%s) printf("bad after step %%d: %s of structure %%d differs from a new structure\\n", step, w);' % (f, f, f))
        for f in ('nprim12', 'AB_x', 'AB_y', 'AB_z'):
            L.append('for (int i = 0; i < ns; i++) if (a->%s[i] != q.%s[i]) printf("bad after step %%d: %s of structure %%d differs from a new structure\\n", step, w);' % (f, f, f))
        for f in fl:
            L.append('if (!a->%s != !q.%s) printf("bad after step %%d: %s present in structure %%d\\n", step, w);' % (f, f, f))
            L.append('else if (a->%s) for (int i = 0; i < nl; i++) if (a->%s[i] != q.%s[i]) printf("bad after step %%d: %s of structure %%d differs from a new structure\\n", step, w);' % (f, f, f, f))
        L.append('simint_free_multi_shellpair(&q); }')
        L.append('int main(void) { simint_initialize_multi_shellpairs(%d, P);' % self.np)
        g = [None] * self.np
        for k, op in enumerate(ops):
            if op[0] == 'free':
                L.append('simint_free_multi_shellpair(&P[%d]);' % op[1])
                g[op[1]] = None
            elif op[0] == 'freeall':
                L.append('simint_free_multi_shellpairs(%d, P);' % self.np)
                g = [None] * self.np
            else:
                L.append('fill(&P[%d], %d);' % (op[1], num[(op[0],) + op[2:]]))
                g[op[1]] = op
            import harness
            for w, o in enumerate(g):
                if o is not None:
                    sc = shells.Scenario(self.shl, [self.flat(o)])
                    L.append('same(%d, %d, &P[%d], %d, %d, %d);' % (k, w, w, num[(o[0],) + o[2:]], len(sc.pairs), len(harness.layout(sc.counts(), W, NS))))
        L.append('simint_free_multi_shellpairs(%d, P); simint_free_multi_shellpairs(%d, P); return 0; }' % (self.np, self.np))
        return '\n'.join(L) + '\n'

# ----- search

worlds = {}

def expand(world, pre, seed, deadline):
    """all operations after the operations pre: (list of (key, ops), problem or None, numbers)"""
    st = prove.Stats()
    fs, nxt = set(), []
    nops = len(world.ops)
    op = T.var('op')
    exr = shells.Ex([z3.Real('op') >= 0, z3.Real('op') < nops, z3.Or([z3.Real('op') == k for k in range(nops)])], st, maxpaths=100000, deadline=deadline)
    # the machine is set up once and put back before each path
    m = worlds.get(id(world))
    if m is None:
        m = worlds[id(world)] = world.start(None)
        world.first = (m.ex.snapshot(), list(m.g))
    m.ex.restore(world.first[0])
    m.ex.calls = {}
    m.g, m.step = [copy.copy(g) for g in world.first[1]], 0
    for o, taken in pre:
        # the branches taken by the operations before stay assumed
        it = iter(taken)
        def again(ex, c):
            out = next(it)
            e, side = exr.z(c)
            exr.hyps += side + [e if out else z3.Not(e)]
            return out
        m.ex.decider = again
        world.apply(m, o)
    base = (m.ex.snapshot(), m.g, m.step)
    def run(decide):
        m.ex.restore(base[0])
        rec = []
        def note(ex, c):
            out = decide(ex, c)
            rec.append((c, out))
            return out
        m.ex.decider = note
        m.g, m.step = [copy.copy(g) for g in base[1]], base[2]
        # which operation comes next: bisected, so that z3 decides at each fork
        lo, hi = 0, nops - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if decide(m.ex, T.mk('<=', (op, T.const(Fraction(mid))))):
                hi = mid
            else:
                lo = mid + 1
        o = world.ops[lo]
        if not world.enabled(m, o):
            return m, None, [], None, ()
        probs = []
        def eq(x, y):
            if x is y:
                return True
            if T.has_undef([x]):
                return False
            hy = list(exr.hyps)
            for c, out in rec:
                e, side = exr.z(c)
                hy += side + [e if out else z3.Not(e)]
            z, side = prove.Z(), []
            l = shells.uleaf(side)
            g = z.tr(x, l) == z.tr(y, l)
            r, _ = z3prove(hy + z.side + side, g, st)
            return r == 'proved'
        taken = ()
        try:
            world.apply(m, o)
            taken = tuple(x for _, x in rec)
            key = (canon(m.ex, world.roots(m) + statics(m.ex)), world.extra(m))
            probs = world.problems(m, o, eq)
            world.end(m)
            left = [x.name for x in m.ex.objs[1:] if x.heap and not x.freed]
            if left:
                probs.append('memory not released: %s' % left[:3])
        except irx.Fault as e:
            key = None
            probs.append('fault: %s' % e)
        return m, o, probs, key, taken
    paths = 0
    for (m, o, probs, key, taken), path, s in exr.explore(run):
        paths += 1
        fs.update(k if isinstance(k, str) else k[-1] for k in m.ex.calls)
        if o is None:
            continue
        if probs:
            return nxt, ([x for x, _ in pre] + [o], probs), dict(paths=paths, queries=st.queries, time=st.time), fs
        nxt.append((key, list(pre) + [(o, taken)]))
    return nxt, None, dict(paths=paths, queries=st.queries, time=st.time), fs

def confirm(world, ops, seed):
    files = [m.name for m in world.modules()]
    for attempt in range(2):
        rnd = random.Random(seed + attempt)
        vals = {}
        def v(n):
            if n not in vals:
                vals[n] = Fraction(rnd.randrange(16, 256), 64)
            return vals[n]
        text = world.program(world.lib, ops, v)
        hd = '/* history: %s\n   compile with gcc -fsanitize=address %s */\n' % (show(ops), ' '.join(build.MFLAGS[world.lib.vec]))
        rc, out = shells.native(world.lib, files, text)
        if rc:
            return 'exit %d: %s' % (rc, ' '.join(out.split()[:60])), hd + text
        if 'bad' in out:
            return out.split('\n')[0], hd + text
    return None

def show(ops):
    return ', '.join('%s(%s)' % (o[0], ','.join(str(x) for x in o[1:])) for o in ops)

def search(c, world, tag, deadline, procs=8, maxstates=20000):
    import check
    tot = dict(states=0, histories=0, paths=0, queries=0, solver_s=0.0, depth=0, complete=False)
    fs = set()
    seen = {None}
    level = [[]]
    while level:
        todo = level
        level = []
        n = max(1, min(20, len(todo) // (procs * 3)))
        chunks = [todo[i:i + n] for i in range(0, len(todo), n)]
        def go(ch):
            return [expand(world, pre, c.seed, deadline) for pre in ch]
        for ch, s, r in check.tasks(list(range(len(chunks))), lambda i: go(chunks[i]), jobs=procs, deadline=deadline, memgb=8):
            if s != 'ok':
                c.inc('%s: %s %s' % (tag, s, str(r)[-300:]))
                tot['aborted'] = True
                continue
            for nxt, prob, d, f in r:
                tot['paths'] += d['paths']; tot['queries'] += d['queries']; tot['solver_s'] += d['time']
                fs |= f
                if prob:
                    x = confirm(world, prob[0], c.seed)
                    if x:
                        c.violation('%s:%s' % (world.kind, show(prob[0]).replace(' ', '')), '%s: %s: %s; replayed: %s' % (tag, show(prob[0]), '; '.join(prob[1][:3]), x[0]), x[1], 'c')
                    else:
                        c.inc('%s: %s: %s; not reproduced' % (tag, show(prob[0]), prob[1][:3]))
                    tot['aborted'] = True
                    return tot, fs
                for key, ops in nxt:
                    tot['histories'] += 1
                    if key not in seen:
                        seen.add(key)
                        level.append(ops)
        tot['depth'] += 1
        tot['states'] = len(seen) - 1
        if len(seen) > maxstates:
            c.inc('%s: more than %d states' % (tag, maxstates))
            return tot, fs
    tot['complete'] = not tot.get('aborted')
    return tot, fs
