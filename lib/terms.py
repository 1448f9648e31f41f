"""Hash-consed terms over the reals.

Every symbolic value of the program is a node of one shared DAG.  Floating
point operations are interpreted as the exact operations on real numbers (see
DESIGN.md, "arithmetic").  Smart constructors only apply ring identities with
constants; everything else is left to the solver.
"""
from fractions import Fraction

class N:
    __slots__ = ('op', 'a', 'id')
    def __repr__(self):
        return show(self, 4)

_tab = {}
_nodes = []

def mk(op, a):
    k = (op,) + tuple(x.id if isinstance(x, N) else x for x in a) if op != 'c' else ('c', a[0])
    n = _tab.get(k)
    if n is None:
        n = N()
        n.op = op
        n.a = a
        n.id = len(_nodes)
        _nodes.append(n)
        _tab[k] = n
    return n

def nodecount():
    return len(_nodes)

def const(f):
    if not isinstance(f, Fraction):
        f = Fraction(f)
    return mk('c', (f,))

def var(name):
    return mk('v', (name,))

ZERO = const(0)
ONE = const(1)
MONE = const(-1)

def isc(n):
    return n.op == 'c'

_fresh = [0]
def undef(why='undef'):
    _fresh[0] += 1
    return mk('undef', (_fresh[0], why))

def fresh(prefix='t'):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]))

def add(x, y):
    if x.op == 'c':
        if y.op == 'c':
            return const(x.a[0] + y.a[0])
        if x.a[0] == 0:
            return y
    elif y.op == 'c' and y.a[0] == 0:
        return x
    if x.id > y.id:
        x, y = y, x
    return mk('+', (x, y))

def mul(x, y):
    if x.op == 'c':
        if y.op == 'c':
            return const(x.a[0] * y.a[0])
        if x.a[0] == 0 and y.op != 'undef':
            return ZERO
        if x.a[0] == 1:
            return y
    elif y.op == 'c':
        if y.a[0] == 0 and x.op != 'undef':
            return ZERO
        if y.a[0] == 1:
            return x
    if x.id > y.id:
        x, y = y, x
    return mk('*', (x, y))

def neg(x):
    if x.op == 'c':
        return const(-x.a[0])
    if x.op == '*' and x.a[0].op == 'c':
        return mul(const(-x.a[0].a[0]), x.a[1])
    if x.op == '*' and x.a[1].op == 'c':
        return mul(const(-x.a[1].a[0]), x.a[0])
    return mul(MONE, x)

def sub(x, y):
    if x is y and x.op != 'undef':
        return ZERO
    return add(x, neg(y))

def div(x, y):
    if y.op == 'c' and y.a[0] != 0:
        return mul(const(1 / y.a[0]), x)
    if x.op == 'c' and x.a[0] == 0 and y.op not in ('undef', 'c'):
        return ZERO
    return mk('/', (x, y))

def sqrt(x):
    if x.op == 'c' and x.a[0] in (0, 1):
        return x
    return mk('sqrt', (x,))

def uf(name, *args):
    return mk('f', (name,) + args)

def fabs(x):
    if x.op == 'c':
        return const(abs(x.a[0]))
    return mk('abs', (x,))

def lt(x, y):
    if x.op == 'c' and y.op == 'c':
        return x.a[0] < y.a[0]
    if x is y:
        return False
    return mk('<', (x, y))

def le(x, y):
    if x.op == 'c' and y.op == 'c':
        return x.a[0] <= y.a[0]
    if x is y:
        return True
    return mk('<=', (x, y))

def eq(x, y):
    if x is y:
        return True
    if x.op == 'c' and y.op == 'c':
        return x.a[0] == y.a[0]
    if x.id > y.id:
        x, y = y, x
    return mk('=', (x, y))

def bnot(b):
    if b is True or b is False:
        return not b
    if b.op == 'not':
        return b.a[0]
    return mk('not', (b,))

def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return mk('and', (a, b))

def bor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return mk('or', (a, b))

def ite(c, x, y):
    if c is True:
        return x
    if c is False:
        return y
    if x is y:
        return x
    return mk('ite', (c, x, y))

def show(n, d=6):
    if not isinstance(n, N):
        return repr(n)
    if n.op == 'c':
        f = n.a[0]
        return str(f) if f.denominator < 10**6 else '%.17g' % float(f)
    if n.op == 'v':
        return str(n.a[0])
    if d == 0:
        return '#%d' % n.id
    return '(%s %s)' % (n.op, ' '.join(show(x, d - 1) if isinstance(x, N) else str(x) for x in n.a))

def children(n):
    return [x for x in n.a if isinstance(x, N)]

def cone(roots, stop=()):
    """All nodes reachable from roots (children first), not descending below
    nodes whose id is in stop."""
    seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        if n.id in stop:
            continue
        for c in n.a:
            if isinstance(c, N) and c.id not in seen:
                stack.append((c, False))
    return out

def has_undef(roots, stop=()):
    for n in cone(roots, stop):
        if n.op == 'undef':
            return n
    return None
