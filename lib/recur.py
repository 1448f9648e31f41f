"""The run-time recurrence tables and the routines driven by them."""
import os, time, random, itertools
from fractions import Fraction
import z3
import irx, kern, prove, build, check, replay, terms as T

TOP = 18
WRAP = '''#include "simint/recur_lookup.h"
#include "simint/ostei/ostei_general.h"
int t_start(int am) { return am_recur_map[am]; }
int t_ijk(int am, int n, int d) { return recurinfo_array[am_recur_map[am] + n].ijk[d]; }
int t_dir(int am, int n) { return recurinfo_array[am_recur_map[am] + n].dir; }
int t_idx(int am, int n, int d, int k) { return recurinfo_array[am_recur_map[am] + n].idx[d][k]; }
#define D SIMINT_DBLTYPE
#define L(a, i) SIMINT_DBLLOAD(a, (i) * SIMINT_SIMD_LEN)
#define PRE D PQ[3], P[3]; for (int z = 0; z < 3; z++) { PQ[z] = L(pq, z); P[z] = L(pa, z); }
#define T1(n) void c_##n(int i, int j, int k, int l, int m, double const *s, double const *pq, double const *pa, D const *t1, D const *t2, D const *t3, D const *t4, D const *t5, D *o) { PRE n(i + j + k + l, m, L(s, 0), L(s, 1), PQ, P, t1, t2, o); }
#define T5(n) void c_##n(int i, int j, int k, int l, int m, double const *s, double const *pq, double const *pa, D const *t1, D const *t2, D const *t3, D const *t4, D const *t5, D *o) { PRE n(i, j, k, l, m, L(s, 0), L(s, 1), L(s, 2), PQ, P, t1, t2, t3, t4, t5, o); }
#define TH(n) void c_##n(int i, int j, int k, int l, double const *a, double const *t1, double const *t2, double *o) { n(i, j, k, l, a, t1, t2, o); }
T1(ostei_general_vrr1_I) T1(ostei_general_vrr1_J) T1(ostei_general_vrr1_K) T1(ostei_general_vrr1_L)
T5(ostei_general_vrr_I) T5(ostei_general_vrr_J) T5(ostei_general_vrr_K) T5(ostei_general_vrr_L)
TH(ostei_general_hrr_I) TH(ostei_general_hrr_J) TH(ostei_general_hrr_K) TH(ostei_general_hrr_L)
'''

def modules(lib):
    if not hasattr(lib, '_recur'):
        p = os.path.join(build.scratch(), 'vrecur.c')
        build.put(p, WRAP)
        lib._recurw = p
        m = irx.Module(lib.text(p), p)
        ix = lib.index()
        out, todo, seen = [m], [m], set()
        while todo:
            m = todo.pop()
            names = [n for n, fn in m.funcs.items() if not fn.defined and not n.startswith('@llvm.')] + [n for n, g in m.globals.items() if g['ext']]
            for n in names:
                f = ix.get(n[1:])
                if f and f not in seen:
                    seen.add(f)
                    out.append(lib.module(f))
                    todo.append(out[-1])
        lib._recur = out
        lib._recurf = sorted(seen)
    return lib._recur

def executor(lib):
    """the compiled code with its tables in memory"""
    if not hasattr(lib, '_recurx'):
        ex = irx.Exec(modules(lib))
        ex.call('t_idx', 0, 0, 0, 0)
        lib._recurx = (ex, ex.snapshot())
    ex, s = lib._recurx
    ex.restore(s)
    ex.calls = {}
    return ex

def nc(a):
    return (a + 1) * (a + 2) // 2 if a >= 0 else 0

def comps(a):
    return [(x, y, a - x - y) for x in range(a, -1, -1) for y in range(a - x, -1, -1)]

def pos(c):
    """place of a component in the documented order"""
    a = sum(c)
    return (a - c[0]) * (a - c[0] + 1) // 2 + (a - c[0] - c[1]) if min(c) >= 0 else -1

# ----- tables

def sx(v):
    """an int result as a z3 integer value (32 bits, signed)"""
    return z3.SignExt(32, z3.Extract(31, 0, v.z)) if v.__class__ is irx.SymInt else z3.BitVecVal(v if v < 1 << 31 else v - (1 << 32), 64)

def table(lib, am):
    """all entries of one angular momentum, the component symbolic"""
    st = prove.Stats()
    res = dict(status='held', detail='', functions=set(), outputs=0)
    s = z3.Solver()
    s.set('timeout', 120000)
    n = z3.BitVec('n', 64)
    s.add(z3.ULT(n, nc(am)))
    N = irx.SymInt(n, s)
    ex = executor(lib)
    try:
        e = [sx(ex.call('t_ijk', am, N, d)) for d in range(3)]
        dr = sx(ex.call('t_dir', am, N))
        idx = [[sx(ex.call('t_idx', am, N, d, k)) for k in range(3)] for d in range(3)]
    except irx.Fault as x:
        res.update(status='violated', detail='table of angular momentum %d: %s' % (am, x), replay=tabprog(am))
        r = tabnative(lib, am, asan=True)
        if r is None or r[0] != 'crash':
            res.update(status='inconclusive', detail='fault without native confirmation: %s' % x)
        res['stats'] = st.as_dict()
        return res
    # exponents within 0..am is the first goal; after it 12 bits are enough
    lowb = lambda x: z3.Extract(11, 0, x)
    e12 = [lowb(x) for x in e]
    def at(c):
        t = c[1] + c[2]
        r = z3.BitVecVal(0, 12)
        for k in range(1, am + 3):
            r = z3.If(t == k, z3.BitVecVal(k * (k + 1) // 2, 12), r)
        return r + c[2]
    goals = [('the exponents are not a component of this angular momentum', z3.And([x >= 0 for x in e] + [x <= am for x in e] + [e[0] + e[1] + e[2] == am])),
             ('the component is not in its documented place', at(e12) == lowb(n))]
    if am:
        goals.append(('the direction has no positive exponent', z3.And(dr >= 0, dr <= 2, z3.If(dr == 0, e[0], z3.If(dr == 1, e[1], e[2])) > 0)))
    for d in range(3):
        for k, step in enumerate((-1, -2, 1)):
            c = [e12[i] + (step if i == d else 0) for i in range(3)]
            goals.append(('index of the component with exponent %d changed by %+d' % (d, step), idx[d][k] == z3.SignExt(52, z3.If(c[d] < 0, z3.BitVecVal(-1, 12), at(c)))))
    for what, g in goals:
        t = time.time()
        s = z3.SolverFor('QF_BV')
        s.set('timeout', 120000)
        s.add(z3.ULT(n, nc(am)))
        s.add(*[h for _, h in goals[:1] if g is not h])
        s.add(z3.Not(g))
        r = s.check()
        st.queries += 1; st.time += time.time() - t
        res['outputs'] += 1
        if r == z3.sat:
            m = s.model()[n]
            m = m.as_long() if m is not None else 0
            k, rows = tabnative(lib, am)
            bad = k != 'ok' or wrong(am, m, rows)
            if bad:
                res.update(status='violated', detail='entry %d of angular momentum %d: %s; the compiled table has %s' % (m, am, what, rows[m] if k == 'ok' else k), replay=tabprog(am))
            else:
                res.update(status='inconclusive', detail='entry %d of angular momentum %d: %s, not confirmed natively' % (m, am, what))
            break
        if r == z3.unknown:
            st.unknown += 1
            res.update(status='inconclusive', detail='angular momentum %d, %s: no answer' % (am, what))
    res['functions'] = sorted(k if isinstance(k, str) else k[-1] for k in ex.calls) + ['recurinfo_array', 'am_recur_map']
    res['stats'] = st.as_dict()
    return res

def wrong(am, m, rows):
    r = rows[m]
    e = tuple(r[:3])
    if sum(e) != am or min(e) < 0 or pos(e) != m:
        return True
    if am and not (0 <= r[3] <= 2 and e[r[3]] > 0):
        return True
    for d in range(3):
        for k, step in enumerate((-1, -2, 1)):
            c = list(e); c[d] += step
            if r[4 + 3 * d + k] != pos(c):
                return True
    return False

def tabprog(am):
    return '''#include <stdio.h>
#include "simint/recur_lookup.h"
/* entries of angular momentum %d: exponents, direction, index of the component lowered once, twice and raised in x, y, z */
int main(void) {
  printf("ret 0\\n");
  for (int n = 0; n < %d; n++) {
    struct RecurInfo const *r = recurinfo_array + am_recur_map[%d] + n;
    printf("%%d\\n%%d\\n%%d\\n%%d\\n", r->ijk[0], r->ijk[1], r->ijk[2], r->dir);
    for (int d = 0; d < 3; d++) for (int k = 0; k < 3; k++) printf("%%d\\n", r->idx[d][k]);
  }
  return 0; }
''' % (am, nc(am), am)

def tabnative(lib, am, asan=False):
    r, o = replay.native(lib, lib._recurf, tabprog(am), asan=asan, name='table')
    if o is None:
        return 'crash', r
    o = [int(x) for x in o]
    return 'ok', [o[i:i + 13] for i in range(0, len(o), 13)]

# ----- routines

CEN = 'IJKL'

def layout(fn, q):
    """angular momenta of the inputs theta1.. of a routine (None: not used)"""
    low = lambda *cs: tuple(q[i] - (2 if cs.count(i) == 2 else 1 if i in cs else 0) for i in range(4))
    if fn.startswith('ostei_general_hrr_'):
        c = CEN.index(fn[-1])
        p = c ^ 1
        up = list(low(c)); up[p] += 1
        return [tuple(up), low(c)]
    c = CEN.index(fn[-1])
    if 'vrr1' in fn:
        return [low(c), low(c, c)]
    # own center once; then the centers of the own side in order (own: twice); then the other side
    own, oth = ((0, 1), (2, 3)) if c < 2 else ((2, 3), (0, 1))
    return [low(c)] + [low(c, x) for x in own] + [low(c, x) for x in oth]

class Call:
    """one call: inputs, reference"""
    def __init__(self, fn, q, num_n, W):
        self.fn, self.q, self.W = fn, q, W
        self.hrr = 'hrr' in fn
        self.n = 1 if self.hrr else num_n
        self.c = CEN.index(fn[-1])
        self.th = layout(fn, q)
        self.one = 'vrr1' in fn
        self.L = 1 if self.hrr else W
        self.size = []
        for t in self.th:
            k = 1
            for a in t: k *= nc(a)
            self.size.append(k)      # 0: does not exist
        self.cart = 1
        for a in q: self.cart *= nc(a)
        self.cs = [comps(a) for a in q]
        self.strides = []
        for t in self.th:
            s = [1] * 4
            for i in (2, 1, 0): s[i] = s[i + 1] * nc(t[i + 1])
            self.strides.append(s)
    def blocks(self):
        return 1 if self.hrr else self.n + 1
    def entry(self, k, t, n):
        return n * self.size[k] + sum(s * pos(c) for s, c in zip(self.strides[k], t))
    def low(self, comp, *cs):
        out = [list(c) for c in comp]
        for i, d, s in cs: out[i][d] += s
        return [tuple(c) for c in out]
    def ref(self, comp, n, lane, d, V):
        """the recurrence in direction d; V gives the values of the inputs"""
        c = self.c
        if self.hrr:
            p = c ^ 1
            t = V('th', 0, self.entry(0, self.low(comp, (c, d, -1), (p, d, 1)), 0), lane)
            u = V('th', 1, self.entry(1, self.low(comp, (c, d, -1)), 0), lane)
            w = V('pa', d, 0, lane)
            return t - w * u if c in (0, 2) else t + w * u
        E = lambda k, t: (V('th', k, self.entry(k, t, n), lane), V('th', k, self.entry(k, t, n + 1), lane))
        t1 = self.low(comp, (c, d, -1))
        a, b = E(0, t1)
        r = V('pa', d, 0, lane) * a + V('pq', d, 0, lane) * b
        h, ap = V('s', 0, 0, lane), V('s', 1, 0, lane)
        own = (c,) if self.one else ((0, 1) if c < 2 else (2, 3))
        oth = () if self.one else ((2, 3) if c < 2 else (0, 1))
        k = 0
        for x in own:
            k += 1
            m = comp[x][d] - (1 if x == c else 0)
            if m > 0:
                a, b = E(k, self.low(comp, (c, d, -1), (x, d, -1)))
                r = r + m * h * (a + ap * b)
        for x in oth:
            k += 1
            m = comp[x][d]
            if m > 0:
                a, b = E(k, self.low(comp, (c, d, -1), (x, d, -1)))
                r = r + m * V('s', 2, 0, lane) * b
        return r
    def outputs(self):
        """(index, components, n, lane)"""
        for n in range(self.n):
            for i, comp in enumerate(itertools.product(*self.cs)):
                for lane in range(self.L):
                    yield (n * self.cart + i) * self.L + lane, comp, n, lane

def nm(kind, i, j, lane):
    return '%s_%d_%d_%d' % (kind, i, j, lane)

def routine(lib, fn, q, num_n, seed=1):
    st = prove.Stats()
    C = Call(fn, q, num_n, lib.W)
    res = dict(status='held', detail='', functions=set(), outputs=0)
    ex = executor(lib)
    L = C.L
    def arr(kind, i, cnt):
        return ex.array([T.var(nm(kind, i, j, l)) for j in range(cnt) for l in range(L)], align=8 * L, name='%s%d' % (kind, i + 1))
    th = [arr('th', k, C.size[k] * C.blocks()) if C.size[k] else 0 for k in range(len(C.th))]
    def vec(kind, cnt):
        return ex.array([T.var(nm(kind, i, 0, l)) for i in range(cnt) for l in range(L)], align=64, name=kind)
    out = ex.new(8 * C.cart * C.n * L, 8 * L, 'output')
    try:
        if C.hrr:
            ex.call('c_' + fn, *q, vec('pa', 3), *th, ex.addr(out))
        else:
            th += [0] * (5 - len(th))
            ex.call('c_' + fn, *q, C.n, vec('s', 3), vec('pq', 3), vec('pa', 3), *th, ex.addr(out))
    except irx.Fault as x:
        r = native(lib, C, seed, asan=True)
        if r[0] == 'crash':
            res.update(status='violated', detail='%s; confirmed with a memory checker: %s' % (x, r[1].split('\n')[0][:300]), replay=program(C, seed)[0])
        else:
            r = native(lib, C, seed)
            if r[0] == 'differs':
                res.update(status='violated', detail='%s; %s' % (x, r[1]), replay=program(C, seed)[0])
            else:
                res.update(status='inconclusive', detail='fault without native confirmation: %s' % x)
        return finish(res, ex, st)
    # numeric run to choose the direction of each component
    rnd = random.Random(seed)
    P = (1 << 61) - 1
    num = {}
    def value(x):
        if x not in num: num[x] = rnd.randrange(1, P)
        return num[x]
    class M:
        __slots__ = ('v',)
        def __init__(s, v): s.v = v % P
        def __add__(s, o): return M(s.v + o.v)
        def __sub__(s, o): return M(s.v - o.v)
        def __mul__(s, o): return M(s.v * (o.v if o.__class__ is M else o))
        __rmul__ = __mul__
    outs = []
    for i, comp, n, lane in C.outputs():
        t = ex.rd(ex.addr(out), i)
        if T.has_undef([t]):
            r = native(lib, C, seed)
            if r[0] == 'differs':
                res.update(status='violated', detail='output %d depends on undefined memory; %s' % (i, r[1]), replay=program(C, seed)[0])
            else:
                res.update(status='inconclusive', detail='output %d depends on undefined memory, not confirmed natively' % i)
            return finish(res, ex, st)
        outs.append((i, comp, n, lane, t))
    ev = {}
    for t in T.cone([o[4] for o in outs]):
        a = [ev[c.id] for c in t.a if isinstance(c, T.N)]
        if t.op == 'c': v = t.a[0].numerator * pow(t.a[0].denominator, P - 2, P)
        elif t.op == 'v': v = value(t.a[0])
        elif t.op == '+': v = a[0] + a[1]
        elif t.op == '*': v = a[0] * a[1]
        elif t.op == '/': v = a[0] * pow(a[1], P - 2, P)
        else:
            res.update(status='inconclusive', detail='not encoded: %s' % T.show(t, 3))
            return finish(res, ex, st)
        ev[t.id] = v % P
    z = prove.Z()
    group = []
    def flush():
        if not group:
            return True
        g = z3.And([z3.simplify(e, som=True) == 0 for e, _ in group])
        r, m = prove.z3prove([], g, st)
        group.clear()
        if r == 'proved':
            return True
        if r == 'unknown':
            res.update(status='inconclusive', detail='no answer from the solver')
            return False
        r = native(lib, C, seed)
        if r[0] == 'differs':
            res.update(status='violated', detail='the solver refutes the recurrence; ' + r[1], replay=program(C, seed)[0])
        else:
            res.update(status='inconclusive', detail='refuted by the solver, not confirmed natively (%s)' % r[0])
        return False
    for i, comp, n, lane, t in outs:
        res['outputs'] += 1
        ds = [d for d in range(3) if comp[C.c][d] > 0]
        pick = ds[0]
        for d in ds:
            if C.ref(comp, n, lane, d, lambda *a: M(value(nm(*a)))).v == ev[t.id]:
                pick = d
                break
        ref = C.ref(comp, n, lane, pick, lambda *a: z3.Real(nm(*a)))
        group.append((z.tr(t, lambda x: None) - ref, i))
        if len(group) >= 40 and not flush():
            break
    else:
        flush()
    return finish(res, ex, st)

def finish(res, ex, st):
    res['functions'] = sorted(k if isinstance(k, str) else k[-1] for k in ex.calls)
    res['stats'] = st.as_dict()
    return res

def program(C, seed):
    """driver with small integers as data: results are exact"""
    rnd = random.Random(seed)
    L = C.L
    num = {}
    src = ['#include <stdio.h>', '#include <stdlib.h>', '#include "simint/ostei/ostei_general.h"',
           'static double *mem(long n) { return aligned_alloc(%d, n * 8); }' % max(8 * L, 8), '#define L(a, i) SIMINT_DBLLOAD(a, (i) * SIMINT_SIMD_LEN)', 'int main(void) {']
    src.append('  unsigned seed = %du; ' % (seed * 7919 + 17))
    # the same small generator in C and here
    state = [seed * 7919 + 17]
    def nxt():
        state[0] = (state[0] * 1103515245 + 12345) & 0xffffffff
        return (state[0] >> 16) % 1021 - 510
    src.append('#define NX ((seed = seed * 1103515245u + 12345u), (double)((int)((seed >> 16) %% 1021) - 510))' % ())
    def block(name, kind, i, cnt):
        src.append('  double *%s = mem(%d); for (int i = 0; i < %d; i++) %s[i] = NX;' % (name, cnt * L, cnt * L, name))
        for j in range(cnt):
            for l in range(L): num[nm(kind, i, j, l)] = nxt()
    for k in range(len(C.th)):
        if C.size[k]: block('t%d' % (k + 1), 'th', k, C.size[k] * C.blocks())
        else: src.append('  double *t%d = NULL;' % (k + 1))
    def vecs(name, kind, cnt):
        src.append('  double *%s = mem(%d); for (int i = 0; i < %d; i++) %s[i] = NX;' % (name, cnt * L, cnt * L, name))
        for i in range(cnt):
            for l in range(L): num[nm(kind, i, 0, l)] = nxt()
    vecs('pa', 'pa', 3)
    if not C.hrr:
        vecs('pq', 'pq', 3); vecs('s', 's', 3)
    tot = C.cart * C.n * L
    src.append('  double *o = mem(%d); for (int i = 0; i < %d; i++) o[i] = 0.0 / 0.0;' % (tot, tot))
    if C.hrr:
        src.append('  %s(%d, %d, %d, %d, pa, t1, t2, o);' % ((C.fn,) + tuple(C.q)))
    else:
        src.append('  SIMINT_DBLTYPE PQ[3], P[3]; for (int z = 0; z < 3; z++) { PQ[z] = L(pq, z); P[z] = L(pa, z); }')
        th = ', '.join('(SIMINT_DBLTYPE *)t%d' % (k + 1) for k in range(len(C.th)))
        if C.one:
            src.append('  %s(%d, %d, L(s, 0), L(s, 1), PQ, P, %s, (SIMINT_DBLTYPE *)o);' % (C.fn, sum(C.q), C.n, th))
        else:
            src.append('  %s(%d, %d, %d, %d, %d, L(s, 0), L(s, 1), L(s, 2), PQ, P, %s, (SIMINT_DBLTYPE *)o);' % ((C.fn,) + tuple(C.q) + (C.n, th)))
    src.append('  printf("ret 0\\n"); for (int i = 0; i < %d; i++) printf("%%.17g\\n", o[i]); return 0; }' % tot)
    return '\n'.join(src) + '\n', num

def native(lib, C, seed, asan=False):
    text, num = program(C, seed)
    r, o = replay.native(lib, lib._recurf, text, asan=asan, name='recur')
    if o is None:
        return 'crash', str(r)
    for i, comp, n, lane in C.outputs():
        ds = [d for d in range(3) if comp[C.c][d] > 0]
        want = [C.ref(comp, n, lane, d, lambda *a: num[nm(*a)]) for d in ds]
        if not any(o[i] == w for w in want):
            return 'differs', 'component %s of block %d (lane %d) is %r; the recurrence gives %s' % (comp, n, lane, o[i], ' or '.join(map(str, want)))
    return 'same', ''

# ----- jobs

def jobs(libs, thorough):
    out = []
    base = libs[0]
    for am in range(TOP + 1):
        out.append(('table am=%d' % am, lambda am=am: table(base, am), 3 + am * am / 30))
    small = [q for q in itertools.product(range(5), repeat=4) if 0 < sum(q) <= (9 if thorough else 5)]
    lim = 8000 if thorough else 700
    for lib in libs:
        wide = lib is not base
        def add(fn, q, n):
            k = 1
            for a in q: k *= nc(a)
            out.append(('%s%s n=%d %s' % (fn, q, n, lib.vec), lambda: routine(lib, fn, q, n), k * n * (1 if 'hrr' in fn else lib.W) / 150))
        for c in range(4):
            for i in range(1, TOP + 1):
                q = tuple(i if x == c else 0 for x in range(4))
                if (not wide and (thorough or i < 6 or i % 4 == 2)) or i in (1, 2, 7):
                    add('ostei_general_vrr1_' + CEN[c], q, 2 if wide or i > 4 else 3)
                    add('ostei_general_vrr_' + CEN[c], q, 2)
                if not wide and i < TOP:
                    add('ostei_general_hrr_' + CEN[c], q, 1)
            for q in small:
                k = 1
                for a in q: k *= nc(a)
                if q[c] == 0 or k > (120 if wide else lim):
                    continue
                if wide and (sum(q) > 4 or max(q) > 2):
                    continue
                add('ostei_general_vrr_' + CEN[c], q, 2)
                if not wide:
                    add('ostei_general_hrr_' + CEN[c], q, 1)
            # one large angular momentum next to others
            for big in (() if wide else (8, 13, 17) if thorough else (13,)):
                for x in range(4):
                    if x == c: continue
                    for a, b in ((big, 1), (2, min(big, 17))):
                        q = [0] * 4
                        q[c] = a; q[x] = b
                        add('ostei_general_vrr_' + CEN[c], tuple(q), 1)
                        if x == c ^ 1 and a < TOP: add('ostei_general_hrr_' + CEN[c], tuple(q), 1)
    return out

def run_jobs(c, js, budget, procs=8):
    tot = dict(runs=0, held=0, inconclusive=0, outputs=0, queries=0, solver_s=0.0)
    fs = set()
    # many small jobs: chunks of about equal weight
    js = sorted(js, key=lambda j: -j[2])
    chunks, cur, w = [], [], 0
    for j in js:
        cur.append(j); w += j[2] + 0.3
        if w > 30:
            chunks.append(cur); cur, w = [], 0
    if cur: chunks.append(cur)
    def go(ch):
        out = []
        for tag, f, _ in ch:
            t = time.time()
            try:
                r = f()
            except irx.Unsupported as x:
                r = dict(status='inconclusive', detail='not encoded: %s' % x, functions=[], outputs=0, stats=prove.Stats().as_dict())
            r['wall'] = time.time() - t
            out.append((tag, r))
        return out
    for ch, s, rs in check.tasks(chunks, go, jobs=procs, deadline=time.time() + budget, memgb=8):
        if s != 'ok':
            tot['inconclusive'] += len(ch); tot['runs'] += len(ch)
            c.inc('%d runs from %s: %s %s' % (len(ch), ch[0][0], s, rs))
            continue
        for tag, r in rs:
            tot['runs'] += 1
            if os.environ.get('VERIF_TIMES'):
                c.log('%.1f s' % r['wall'], tag)
            tot['outputs'] += r['outputs']
            tot['queries'] += r['stats']['queries']; tot['solver_s'] += r['stats']['time']
            fs.update(r['functions'])
            if r['status'] == 'violated':
                c.violation('recur:' + tag.replace(' ', '_'), '%s: %s' % (tag, r['detail']), r['replay'], 'c')
            else:
                tot[r['status']] += 1
                if r['status'] != 'held':
                    c.inc('%s: %s' % (tag, r['detail']))
    tot['solver_s'] = round(tot['solver_s'], 2)
    return dict(tot, functions_encoded=len(fs), functions=sorted(fs))
