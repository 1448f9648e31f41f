"""Labelled cut-point proofs that a term of the program equals an integral.

guess:  evaluate the terms modulo a prime at a random point and look the value
        up among the values of the reference integrals;
decide: for every guessed term, z3 shows that the piece of program between this
        term and the next labelled terms is an instance of an axiom of
        osref.py (or the definition of the base integrals).
"""
import time
import z3
import terms as T
from osref import *

class Stats:
    def __init__(self):
        self.queries = 0; self.time = 0.0; self.lemmas = 0; self.cached = 0
        self.unknown = 0; self.labels = 0; self.scalars = 0
        self.axioms = {}
    def as_dict(self):
        return dict(self.__dict__)
    def merge(self, d):
        for k, v in d.items():
            if k == 'axioms':
                for a, n in v.items():
                    self.axioms[a] = self.axioms.get(a, 0) + n
            else:
                setattr(self, k, getattr(self, k) + v)

def z3num(f):
    return z3.RealVal(str(f.numerator) + '/' + str(f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)

class Z:
    """translation of terms to z3 with user supplied leaves"""
    def __init__(self):
        self.side = []
        self.n = 0
    def tr(self, root, leaf):
        memo = {}
        stack = [root]
        while stack:
            n = stack[-1]
            if n.id in memo:
                stack.pop()
                continue
            l = leaf(n)
            if l is not None:
                memo[n.id] = l
                stack.pop()
                continue
            ch = [c for c in n.a if isinstance(c, T.N)]
            miss = [c for c in ch if c.id not in memo]
            if miss:
                stack.extend(miss)
                continue
            a = [memo[c.id] for c in ch]
            op = n.op
            if op == 'c':
                r = z3num(n.a[0])
            elif op == '+':
                r = a[0] + a[1]
            elif op == '*':
                r = a[0] * a[1]
            elif op == '/':
                r = a[0] / a[1]
            elif op == 'sqrt':
                s = z3.Real('sqrt!%d' % n.id)
                self.side += [s >= 0, s * s == a[0]]
                r = s
            elif op == 'v':
                r = z3.Real(n.a[0])
            elif op == 'f':
                f = z3.Function(n.a[0], *([z3.RealSort()] * (len(a) + 1)))
                r = f(*a)
            elif op == 'ite':
                r = z3.If(a[0], a[1], a[2])
            elif op == '<':
                r = a[0] < a[1]
            elif op == '<=':
                r = a[0] <= a[1]
            elif op == '=':
                r = a[0] == a[1]
            elif op == 'not':
                r = z3.Not(a[0])
            elif op == 'and':
                r = z3.And(a[0], a[1])
            elif op == 'or':
                r = z3.Or(a[0], a[1])
            elif op == 'abs':
                r = z3.If(a[0] >= 0, a[0], -a[0])
            elif op == 'undef':
                r = z3.Real('undef!%d' % n.id)
            else:
                raise ValueError(op)
            memo[n.id] = r
            stack.pop()
        return memo[root.id]

def z3prove(hyps, goal, stats, timeout=20000):
    """'proved', 'refuted' (with model) or 'unknown'"""
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*hyps)
    s.add(z3.Not(goal))
    t = time.time()
    r = s.check()
    stats.queries += 1
    stats.time += time.time() - t
    if r == z3.unsat:
        return 'proved', None
    if r == z3.sat:
        return 'refuted', s.model()
    stats.unknown += 1
    return 'unknown', None

# scalar vocabulary
R = z3.Real
_def = {}
def sdef(full):
    """z3 definition of a named scalar in terms of the kernel's inputs"""
    r = _def.get(full)
    if r is not None:
        return r
    n, at = full.split('@')
    ij = at.split(',')
    if len(ij) == 2:
        p, q = R('p@' + ij[0]), R('q@' + ij[1])
        if n == 'h2pq':
            r = 1 / (2 * (p + q))
        elif n == 'rop':
            r = q / (p + q)
        elif n == 'roq':
            r = p / (p + q)
        elif n == 'rho':
            r = p * q / (p + q)
        elif n[:2] == 'PQ':
            r = R('P%s@%s' % (n[2], ij[0])) - R('Q%s@%s' % (n[2], ij[1]))
        else:
            raise KeyError(full)
    elif n == 'h2p':
        r = 1 / (2 * R('p@' + at))
    elif n == 'h2q':
        r = 1 / (2 * R('q@' + at))
    else:
        r = R(full)
    _def[full] = r
    return r

MULTS = [Fraction(k) for k in (1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, -6, 7, -7, 8, -8)] + [Fraction(1, 2), Fraction(-1, 2)]

class Scalars:
    """recognises scalar terms (no integral inside) as small products of named scalars"""
    def __init__(self, sy, stats):
        self.sy = sy
        self.stats = stats
        self.tab = {}
        v = sy.v
        prods = [(n,) for n in v if n[0] not in 'ABCD' or n[:2] in ('AB', 'CD')]
        prods = [p for p in prods if p[0][0] not in 'T']
        for i, j in sy.ctx:
            at = '@%d,%d' % (i, j)
            for x in 'xyz':
                prods += [('rop' + at, 'PQ' + x + at), ('roq' + at, 'PQ' + x + at)]
            prods += [('h2p@%d' % i, 'rop' + at), ('h2q@%d' % j, 'roq' + at)]
        for pr in prods:
            b = 1
            for n in pr:
                b = b * v[n] % PR
            for k in MULTS:
                x = b * (k.numerator % PR) % PR * inv(k.denominator) % PR
                self.tab.setdefault(x, (k,) + pr)
        self.done = {}
        self.geo = []
        for i, s in enumerate(sy.bp):
            for x in 'xyz':
                self.geo.append(R('PB%s@%d' % (x, i)) == R('PA%s@%d' % (x, i)) + R('AB%s@%d' % (x, s)))
        for j, t in enumerate(sy.kp):
            for x in 'xyz':
                self.geo.append(R('QD%s@%d' % (x, j)) == R('QC%s@%d' % (x, j)) + R('CD%s@%d' % (x, t)))
        self.pos = [R('p@%d' % i) > 0 for i in range(len(sy.bp))] + [R('q@%d' % j) > 0 for j in range(len(sy.kp))]

    def name(self, n, val):
        """(factor, names...) if n is provably that product, else None"""
        r = self.done.get(n.id, 0)
        if r != 0:
            return r
        r = None
        g = self.tab.get(val)
        if g is not None:
            if n.op == 'v':
                r = g if len(g) == 2 and g[1] == n.a[0] and g[0] == 1 else (Fraction(1), n.a[0])
            else:
                vs = set(x.a[0] for x in T.cone([n]) if x.op == 'v') | set(g[1:])
                # rename to one canonical context so that the query is shared
                key, ren = canon_key(n, g)
                r0 = _stmpl.get(key)
                if r0 is None:
                    zz = Z()
                    e = zz.tr(n, lambda t: None)
                    ref = z3num(g[0])
                    for nm in g[1:]:
                        ref = ref * sdef(nm)
                    self.stats.scalars += 1
                    hy = self.pos + zz.side
                    st, _ = z3prove(hy, e == ref, self.stats)
                    if st != 'proved':
                        st, _ = z3prove(hy + self.geo, e == ref, self.stats)
                    r0 = _stmpl[key] = st == 'proved'
                else:
                    self.stats.cached += 1
                if r0:
                    r = g
        self.done[n.id] = r
        return r

_stmpl = {}

def canon_key(n, g):
    """text of n = g with context indices renamed in order of appearance"""
    ren = {}
    def nm(full):
        b, at = full.split('@') if '@' in full else (full, '')
        if b in BRAS or b in ABS:
            side = 'b' if b in BRAS else 'B'
        elif b in KETS or b in CDS:
            side = 'k' if b in KETS else 'K'
        else:
            side = ''
        out = []
        for q, x in enumerate(at.split(',')):
            sd = side or 'bk'[q]
            out.append('%s%d' % (sd, ren.setdefault((sd, x), len(ren))))
        return b + '@' + ','.join(out)
    ids = {}
    out = []
    for x in T.cone([n]):
        ids[x.id] = len(ids)
        out.append('%s %s' % (x.op, ' '.join(str(ids[c.id]) if isinstance(c, T.N) else nm(c) if x.op == 'v' else str(c) for c in x.a)))
    return '\n'.join(out) + ' = %s %s' % (g[0], ' '.join(nm(x) for x in g[1:])), ren

def simulate(roots, sy, keyed, memo=None):
    """value modulo PR of every node below roots; keyed: values of everything the
    theory does not know (unknown inputs, undefined values, comparisons)"""
    val = memo if memo is not None else {}
    v = sy.v
    def unknown(k):
        x = keyed.get(k)
        if x is None:
            x = keyed[k] = sy.rnd.randrange(PR)
        return x
    for n in T.cone(roots):
        if n.id in val:
            continue
        op = n.op
        if op == 'c':
            f = n.a[0]
            x = f.numerator % PR * inv(f.denominator % PR) % PR if f.denominator != 1 else f.numerator % PR
        elif op == 'v':
            x = v.get(n.a[0])
            if x is None:
                x = unknown(('v', n.a[0]))
        elif op == '+':
            x = (val[n.a[0].id] + val[n.a[1].id]) % PR
        elif op == '*':
            x = val[n.a[0].id] * val[n.a[1].id] % PR
        elif op == '/':
            x = val[n.a[0].id] * inv(val[n.a[1].id]) % PR
        elif op == 'sqrt':
            y = val[n.a[0].id]
            x = root(y) if issq(y) or y == 0 else unknown(('sqrt', y))
        elif op == 'f' and n.a[0] == 'boys' and n.a[1].op == 'c' and val[n.a[2].id] in sy.Tof:
            x = sy.F[sy.Tof[val[n.a[2].id]]][int(n.a[1].a[0])]
        else:
            x = unknown((op,) + tuple(val[c.id] if isinstance(c, T.N) else c for c in n.a))
        val[n.id] = x
    return val

class Mismatch(Exception):
    def __init__(self, idx, want, node):
        Exception.__init__(self, 'output %s is not %s' % (idx, want))
        self.idx = idx; self.want = want; self.node = node

FAC = ('1', 'a2', 'b2', 'c2', 'd2')

def canon(g):
    """a derivative without lowering term is a scaled integral"""
    if g[0] == 'D' and not g[3][g[1]][g[2]]:
        return dterms(g)[0][1]
    return g

def translation(cen, i, abcd, ctx):
    return [((-1,), canon(('D', c, i, abcd, ctx))) for c in range(4) if c != cen]

_tmpl = {}

class Proof:
    def __init__(self, sy, stats, labels):
        """labels: dict value -> goal"""
        self.sy = sy
        self.st = stats
        self.tab = labels
        self.sc = Scalars(sy, stats)
        self.proved = set()
        self.failed = []
        self.keyed = {}
        self.val = {}
        self.hasb = set()

    def run(self, outs):
        """outs: list of (node, goal); raises Mismatch if an output has another value"""
        outs = [(n, canon(g)) for n, g in outs]
        nodes = [n for n, g in outs]
        simulate(nodes, self.sy, self.keyed, self.val)
        for n, g in outs:
            if g[0] == 'D':
                self.tab.setdefault(self.sy.goal(g), g)
        # which nodes contain a Boys function
        hasb = self.hasb
        for n in T.cone(nodes):
            if n.op == 'f' and n.a[0] == 'boys':
                hasb.add(n.id)
            elif any(isinstance(c, T.N) and c.id in hasb for c in n.a):
                hasb.add(n.id)
        for k, (n, g) in enumerate(outs):
            if self.val[n.id] != self.sy.goal(g):
                raise Mismatch(k, g, n)
        todo = list(outs)
        while todo:
            n, g = todo.pop()
            if (n.id, g) in self.proved:
                continue
            self.proved.add((n.id, g))
            ok = self.lemma(n, g, todo)
            if not ok:
                self.failed.append((n, g, 'no axiom'))
        return not self.failed

    def leaves(self, n, root):
        """labelled leaves below n (not descending into them)"""
        out = {}
        seen = set()
        stack = [n]
        while stack:
            x = stack.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.id not in self.hasb:
                continue
            if x is not root:
                g = self.tab.get(self.val[x.id])
                if g is not None:
                    out[x.id] = (x, g)
                    continue
            if x.op == 'f':
                out[x.id] = (x, None)
                continue
            for c in x.a:
                if isinstance(c, T.N):
                    stack.append(c)
        return out

    def candidates(self, g):
        """axioms for goal g as lists of (coef, goal); coefficients are (int, full names...)"""
        sy = self.sy
        if g[0] == 'D':
            if g[4][0] == 'S':
                yield 'contract', [((1,), canon(g[:4] + (c,))) for c in sy.members[g[4]]]
            ctx = g[4]
            yield 'deriv', dterms(g)
            yield 'translation', translation(g[1], g[2], g[3], ctx)
            return
        f, lab, ctx = g
        if ctx[0] == 'S':
            yield 'contract', [((1,), (f, lab, c)) for c in sy.members[ctx]]
        elif f != '1':
            yield 'scale', [((1, sy.name(f, ctx)), ('1', lab, ctx))]
        S = ctx[0] == 'S'
        for nm, ax in axioms(lab):
            if S and nm[0] == 'v':
                continue
            yield nm, [((co[0],) + tuple(sy.name(x, ctx) for x in co[1:]), (f, l, ctx)) for co, l in ax]
        if f != '1' and lab[4] == 0:
            c = FAC.index(f) - 1
            for i in range(3):
                if lab[c][i] == 1:
                    dn = list(lab[:4]); dn[c] = dec(lab[c], i)
                    yield 'translation', translation(c, i, tuple(dn), ctx)
        if f != '1' and not S:
            for nm, ax in axioms(lab):
                yield nm + '*', [((co[0],) + tuple(sy.name(x, ctx) for x in co[1:] + (f,)), ('1', l, ctx)) for co, l in ax]

    def lemma(self, n, g, todo):
        st = self.st
        lv = self.leaves(n, n)
        bare = any(x[1] is None for x in lv.values())
        if g[0] != 'D' and g[1][:4] == (Z3, Z3, Z3, Z3) and g[2][0] != 'S' and bare:
            return self.base(n, g)
        if bare:
            return False
        need = set(x[1] for x in lv.values())
        for nm, ax in self.candidates(g):
            labs = set(h for co, h in ax)
            if not need <= labs:
                continue
            if self.check(n, lv, ax, nm):
                for x, gg in lv.values():
                    todo.append((x, gg))
                st.lemmas += 1
                st.axioms[nm] = st.axioms.get(nm, 0) + 1
                return True
        # identical label reached through another node (e.g. 0 + x, or a copy)
        if need == {g}:
            if self.check(n, lv, [((1,), g)], 'copy'):
                for x, gg in lv.values():
                    todo.append((x, gg))
                return True
        # combine axioms of the goal with axioms of its leaves
        return self.deep(n, lv, g, need, todo)

    def deep(self, n, lv, g, need, todo):
        if g[0] == 'D':
            return False
        eqs = []
        seen = set()
        front = [g] + list(need)
        for _ in range(2):
            nxt = []
            for gg in front:
                if gg in seen or gg[0] == 'D':
                    continue
                seen.add(gg)
                for nm, ax in self.candidates(gg):
                    if nm.endswith('*'):
                        continue
                    eqs.append((gg, ax))
                    for co, h in ax:
                        nxt.append(h)
            front = nxt
        if len(eqs) > 400:
            return False
        # relevant equations only: those all of whose labels are known or bridge
        zv = {}
        def L(gg):
            if gg not in zv:
                zv[gg] = z3.Real('L%d' % len(zv))
            return zv[gg]
        sy = {}
        def S(nm):
            if nm not in sy:
                sy[nm] = z3.Real(nm)
            return sy[nm]
        hy = []
        for gg, ax in eqs:
            r = z3.RealVal(0)
            for co, h in ax:
                t = z3.RealVal(co[0])
                for nm in co[1:]:
                    t = t * S(nm)
                r = r + t * L(h)
            hy.append(L(gg) == r)
        hy += self.sc.geo
        e = Z().tr(n, lambda t: L(lv[t.id][1]) if t.id in lv else self.scalar_leaf(t, S))
        r, _ = z3prove(hy, e == L(g), self.st, timeout=3000)
        if r == 'proved':
            for x, gg in lv.values():
                todo.append((x, gg))
            self.st.lemmas += 1
            self.st.axioms['closure'] = self.st.axioms.get('closure', 0) + 1
            return True
        return False

    def scalar_leaf(self, t, S):
        if t.id in self.hasb or t.op == 'c':
            return None
        nm = self.sc.name(t, self.val[t.id])
        if nm is None:
            return None
        r = z3num(nm[0]) if nm[0] != 1 else None
        for x in nm[1:]:
            r = S(x) if r is None else r * S(x)
        return r

    def check(self, n, lv, ax, nm):
        """z3: the program piece equals the right-hand side of the axiom"""
        names = {}
        key = []
        def sid(x):
            r = names.get(x)
            if r is None:
                r = names[x] = 's%d' % len(names)
            return r
        # canonical text of both sides
        def text(t):
            if t.id in lv:
                return sid(lv[t.id][1])
            if t.op == 'c':
                return str(t.a[0])
            if t.id not in self.hasb:
                s = self.sc.name(t, self.val[t.id])
                if s is not None:
                    return '(%s %s)' % (s[0], ' '.join(sid(x) for x in s[1:]))
                if t.op == 'v':
                    return sid(t.a[0])
            return '(%s %s)' % (t.op, ' '.join(text(c) if isinstance(c, T.N) else str(c) for c in t.a))
        k = text(n) + ' = ' + ' '.join('(%d %s %s)' % (co[0], ' '.join(sid(x) for x in co[1:]), sid(h)) for co, h in ax)
        r = _tmpl.get(k)
        if r:
            self.st.cached += 1
            return r
        k2 = (k, tuple(names))
        if k2 in _tmpl:
            self.st.cached += 1
            return _tmpl[k2]
        zv = {}
        def V(x):
            r = zv.get(x)
            if r is None:
                r = zv[x] = z3.Real(sid(x))
            return r
        e = Z().tr(n, lambda t: V(lv[t.id][1]) if t.id in lv else (self.scalar_leaf(t, V)))
        rhs = z3.RealVal(0)
        for co, h in ax:
            t = z3.RealVal(co[0])
            for x in co[1:]:
                t = t * V(x)
            rhs = rhs + t * V(h)
        if r is None:
            r, _ = z3prove([], e == rhs, self.st, timeout=5000)
            _tmpl[k] = r == 'proved'
            if r == 'proved':
                return True
        # with the definitions of the scalars
        hy = []
        for x, zz in zv.items():
            if isinstance(x, str) and '@' in x:
                hy.append(zz == sdef(x))
        hy = hy + self.sc.pos + self.sc.geo
        r, _ = z3prove(hy, e == rhs, self.st, timeout=5000)
        _tmpl[k2] = r == 'proved'
        return _tmpl[k2]

    def base(self, n, g):
        """[00|00]^(m) = KP KQ (p+q)^(-1/2) F_m(T); also proves the Boys argument"""
        f, lab, ctx = g
        m = lab[4]
        st = self.st
        bo = [x for x in T.cone([n]) if x.op == 'f' and x.a[0] == 'boys']
        if len(bo) != 1 or bo[0].a[1].op != 'c' or bo[0].a[1].a[0] != m:
            return False
        key, _ = canon_key(n, (1, self.sy.name('p', ctx), self.sy.name('q', ctx)))
        key = ('base', f, key)
        r = _stmpl.get(key)
        if r is None:
            r = _stmpl[key] = self.base1(n, f, ctx, bo[0])
        else:
            st.cached += 1
        if r:
            st.lemmas += 1
            st.axioms['base'] = st.axioms.get('base', 0) + 1
        return r

    def base1(self, n, f, ctx, bo):
        st = self.st
        sy = self.sy
        nm = lambda x: sdef(sy.name(x, ctx))
        p, q = nm('p'), nm('q')
        z = Z()
        arg = z.tr(bo.a[2], lambda t: None)
        Td = nm('rho') * sum((nm('PQ' + x) * nm('PQ' + x) for x in 'xyz'), z3.RealVal(0))
        r, _ = z3prove(self.sc.pos + z.side, arg == Td, st)
        if r != 'proved':
            return False
        # pull out the prefactor, whatever its shape
        z2 = Z()
        F = R('F!')
        e = z2.tr(n, lambda t: F if t is bo else None)
        s = R('s!')
        ref = nm('KP') * nm('KQ') * s * F
        if f != '1':
            ref = ref * nm(f)
        hy = self.sc.pos + z2.side + [s > 0]
        r, _ = z3prove(hy + [s * s * (p + q) == 1], e == ref, st, timeout=10000)
        if r != 'proved':
            # help: substitute p + q = 1/s^2
            r, _ = z3prove(hy + [q == 1 / (s * s) - p], e == ref, st, timeout=10000)
        return r == 'proved'

def label_table(sy, la, lb, lc, ld, der):
    """value -> goal for the integrals a kernel may contain"""
    L1 = la + lb + der
    L2 = lc + ld + der
    tab = {}
    facs = FAC[1:] if der else ()
    Lm = la + lb + lc + ld + der
    carts = [psi4_order(l) for l in range(L1 + L2 + 2)]
    prim, hor = [], []
    # primitive integrals with m
    for bj in (0, 1):
        for kj in (0, 1):
            for l1 in range(L1 + 1):
                if bj and l1 == 0:
                    continue
                for l2 in range(L2 + 1):
                    if kj and l2 == 0:
                        continue
                    if l1 + l2 > Lm:
                        continue
                    for u in carts[l1]:
                        b = (Z3, u) if bj else (u, Z3)
                        for w in carts[l2]:
                            k = (Z3, w) if kj else (w, Z3)
                            prim.append((b + k, Lm - l1 - l2))
    # horizontal classes
    def pairs(L, l0, l1):
        out = []
        for x in range(L + 1):
            for y in range(L + 1 - x):
                if not ((x >= l0 - der and y <= l1 + der) or (y >= l1 - der and x <= l0 + der)):
                    continue
                for u in carts[x]:
                    for w in carts[y]:
                        out.append((u, w))
        return out
    def fin(l0, l1):
        s = {(l0, l1)}
        if der:
            s |= {(l0 + 1, l1), (l0 - 1, l1), (l0, l1 + 1), (l0, l1 - 1)}
        return [(u, w) for x, y in s if x >= 0 and y >= 0 for u in carts[x] for w in carts[y]]
    def vtypes(L):
        return [(u, Z3) for x in range(L + 1) for u in carts[x]] + [(Z3, u) for x in range(1, L + 1) for u in carts[x]]
    bp, kp = pairs(L1, la, lb), pairs(L2, lc, ld)
    bf, kf = fin(la, lb), fin(lc, ld)
    hor = set()
    for b in bp:
        if b[0] != Z3 and b[1] != Z3:
            for k in vtypes(L2):
                hor.add(b + k)
            for k in kf:
                hor.add(b + k)
    for k in kp:
        if k[0] != Z3 and k[1] != Z3:
            for b in vtypes(L1):
                hor.add(b + k)
            for b in bf:
                hor.add(b + k)
    hor = [t for t in hor if sum(map(sum, t)) <= Lm]
    def put(abcd, m, ctx, scaled):
        lab = abcd + (m,)
        g = ('1', lab, ctx)
        x = sy.goal(g)
        tab.setdefault(x, g)
        if scaled:
            if ctx[0] == 'S':
                for f in facs:
                    g = (f, lab, ctx)
                    tab.setdefault(sy.goal(g), g)
            else:
                for f in facs:
                    tab.setdefault(x * sy.v[sy.name(f, ctx)] % PR, (f, lab, ctx))
    single = [len(sy.members[('S', sy.bp[i], sy.kp[j])]) == 1 for i, j in sy.ctx]
    for ctx, one in zip(sy.ctx, single):
        for t, mm in prim:
            for m in range(mm + 1):
                put(t, m, ctx, m == 0)
        if one:
            for t in hor:
                put(t, 0, ctx, True)
    for s in range(len(sy.bra)):
        for t in range(len(sy.ket)):
            ctx = sy.sctx(s, t)
            if ctx[0] == 'S':
                for lab, mm in prim:
                    put(lab, 0, ctx, True)
                for lab in hor:
                    put(lab, 0, ctx, True)
    return tab
