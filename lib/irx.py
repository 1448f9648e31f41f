"""Symbolic executor for LLVM IR (text form, clang/opt 18).

Integers, pointers and control structure are executed concretely (32/64 bit
wrap-around semantics, with nsw/nuw overflow reported); every double is a term
of terms.py, i.e. symbolic.  A branch on a symbolic condition asks
Exec.decide(), which the driver (Paths) uses to explore all feasible sides.
Memory is a set of objects with byte bounds; out-of-bounds, misaligned,
use-after-free, writes to read-only inputs and reads of uninitialised memory
are detected.
"""
import re, struct, sys
from fractions import Fraction
import terms as T

sys.setrecursionlimit(20000)

class Unsupported(Exception):
    """the executor cannot interpret this: the run is inconclusive"""

class Fault(Exception):
    """the program performed an invalid operation"""
    def __init__(self, kind, msg):
        Exception.__init__(self, kind + ': ' + msg)
        self.kind = kind

class Prune(Exception):
    """current path abandoned (infeasible or over budget)"""

M64 = (1 << 64) - 1
OFFBIAS = 1 << 30
SHIFT = 40
OFFMASK = (1 << SHIFT) - 1

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el', 'size', 'align', 'offs', 'packed')
    def __init__(self, k, n=0, el=None):
        self.k = k; self.n = n; self.el = el
        self.size = self.align = 0
        self.offs = None
    def __repr__(self):
        return '%s(%s,%s)' % (self.k, self.n, self.el)

def _ity(n):
    t = Ty('i', n)
    t.size = max(1, (n + 7) // 8)
    t.align = t.size if t.size in (1, 2, 4, 8, 16) else 8
    return t

VOID = Ty('void')
PTR = Ty('ptr'); PTR.size = PTR.align = 8
DBL = Ty('d'); DBL.size = DBL.align = 8
FLT = Ty('f32'); FLT.size = FLT.align = 4
I1 = _ity(1); I8 = _ity(8); I32 = _ity(32); I64 = _ity(64)
_ints = {1: I1, 8: I8, 32: I32, 64: I64}
META = Ty('meta')

class UndefI:
    """an undefined integer/pointer"""
    __slots__ = ()
    def __repr__(self):
        return 'UndefI'
UNDEFI = UndefI()

class SymInt:
    """a symbolic 64-bit integer: z3 term and the solver with what is known about it.
    Narrower values are kept zero-extended.  A test on it must be decided by what is
    known; anything else is not encoded."""
    __slots__ = ('z', 's')
    def __init__(self, z, s):
        self.z = z; self.s = s
    def _z(self, o):
        import z3
        return o.z if o.__class__ is SymInt else z3.BitVecVal(o & ((1 << 64) - 1), 64)
    def __add__(self, o): return SymInt(self.z + self._z(o), self.s)
    __radd__ = __add__
    def __sub__(self, o): return SymInt(self.z - self._z(o), self.s)
    def __rsub__(self, o): return SymInt(self._z(o) - self.z, self.s)
    def __mul__(self, o): return SymInt(self.z * self._z(o), self.s)
    __rmul__ = __mul__
    def __and__(self, o): return SymInt(self.z & self._z(o), self.s)
    __rand__ = __and__
    def __or__(self, o): return SymInt(self.z | self._z(o), self.s)
    __ror__ = __or__
    def __rshift__(self, o):
        import z3
        return SymInt(z3.LShR(self.z, self._z(o)), self.s)
    def __lshift__(self, o): return SymInt(self.z << self._z(o), self.s)
    def sext(self, n):
        import z3
        return SymInt(z3.SignExt(64 - n, z3.Extract(n - 1, 0, self.z)), self.s)
    def forced(self, c):
        import z3
        if self.s.check(c) == z3.unsat:
            return False
        if self.s.check(z3.Not(c)) == z3.unsat:
            return True
        raise Unsupported('test of a symbolic integer: %s' % c)
    def __bool__(self):
        return self.forced(self.z != 0)
    def __lt__(self, o):
        import z3
        u = o.__class__ is int and o >= 1 << 63
        return self.forced(z3.ULT(self.z, self._z(o)) if u else self.z < self._z(o))
    def __ge__(self, o): return not self < o
    def __le__(self, o):
        import z3
        u = o.__class__ is int and o >= 1 << 63
        return self.forced(z3.ULE(self.z, self._z(o)) if u else self.z <= self._z(o))
    def __gt__(self, o): return not self <= o
    def __eq__(self, o): return self.forced(self.z == self._z(o))
    def __ne__(self, o): return not self == o
    __hash__ = None

_tok = re.compile(r'''\s*(?:(%(?:"[^"]*"|[-\w.$]+))|(@(?:"[^"]*"|[-\w.$]+))|(c"(?:[^"])*")|("(?:[^"])*")|(0x[0-9A-Fa-fKLMHR]+)|(-?\d+\.\d+(?:[eE][-+]?\d+)?)|(-?\d+)|(\.\.\.)|([A-Za-z_$][\w.$]*:?)|(![\w.]*)|(\#\d+)|([()\[\]{}<>,=*|:]))''')

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    m = _tok.match
    while i < n:
        r = m(s, i)
        if not r:
            if s[i:].strip() == '':
                break
            raise Unsupported('cannot tokenize: ' + s[i:i+60])
        out.append(r.group(r.lastindex))
        i = r.end()
    return out

_ATTRS = set('''noundef nonnull noalias nocapture readonly writeonly readnone zeroext signext inreg returned nofree
nuw nsw exact inbounds nneg disjoint fast nnan ninf nsz arcp contract afn reassoc tail musttail notail volatile
fastcc ccc coldcc dso_local local_unnamed_addr unnamed_addr immarg allocptr allocalign swiftself nest noundef samesign writable dead_on_unwind'''.split())

def mux(idx, tab, size):
    """value of tab (index -> int) at a symbolic index, as a tree over its bits"""
    import z3
    bits = max(1, (size - 1).bit_length())
    lev = [tab.get(i) for i in range(1 << bits)]
    lev = [None if x is None else z3.BitVecVal(x, 64) for x in lev]
    for k in range(bits):
        b = z3.Extract(k, k, idx) == 1
        nxt = []
        for i in range(0, len(lev), 2):
            x, y = lev[i], lev[i + 1]
            nxt.append(y if x is None else x if y is None or x.eq(y) else z3.If(b, y, x))
        lev = nxt
    return lev[0] if lev[0] is not None else z3.BitVecVal(0, 64)

class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'mod')
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None
    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x
    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported('expected %s got %s in %s' % (x, y, ' '.join(self.t)))
    def skip_attrs(self, got=None):
        while self.i < len(self.t):
            x = self.t[self.i]
            if x in _ATTRS:
                if got is not None:
                    got.add(x)
                self.i += 1
            elif x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'memory', 'initializes', 'nofpclass'):
                self.i += 1
                if x == 'align' and self.peek() and re.match(r'\d', self.peek()):
                    v = int(self.next())
                    if got is not None:
                        got.add(('align', v))
                elif self.peek() == '(':
                    d = 0
                    while True:
                        y = self.next()
                        if y == '(':
                            d += 1
                        elif y == ')':
                            d -= 1
                            if d == 0:
                                break
            elif x in ('byval', 'sret', 'elementtype', 'preallocated', 'inalloca', 'byref'):
                self.i += 1
                self.expect('(')
                t = self.type()
                self.expect(')')
                if got is not None:
                    got.add((x, t))
            else:
                break
    def type(self):
        x = self.next()
        if x == 'double':
            return DBL
        if x == 'ptr':
            return PTR
        if x == 'void':
            return VOID
        if x[0] == 'i' and x[1:].isdigit():
            n = int(x[1:])
            t = _ints.get(n)
            if t is None:
                t = _ints[n] = _ity(n)
            return t
        if x == '<':
            if self.peek() == '{':
                t = self.type()
                raise Unsupported('packed struct')
            if self.peek() == 'vscale':
                raise Unsupported('scalable vector')
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            t = Ty('v', n, e)
            t.size = n * e.size if e.k != 'i' or e.n >= 8 else (n + 7) // 8
            t.align = t.size
            return t
        if x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Ty('a', n, e)
            t.size = n * e.size
            t.align = e.align
            return t
        if x == '{':
            els = []
            if not self.accept('}'):
                while True:
                    els.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            return _struct(els)
        if x[0] == '%':
            t = self.mod.types.get(x)
            if t is None:
                raise Unsupported('unknown type ' + x)
            if isinstance(t, str):
                t = P(tokenize(t), self.mod).type()
                self.mod.types[x] = t
            return t
        if x == 'float':
            return FLT
        if x in ('metadata',):
            return META
        if x in ('label',):
            return Ty('label')
        raise Unsupported('type ' + x)

def _struct(els):
    t = Ty('s', len(els), els)
    off = 0
    al = 1
    offs = []
    for e in els:
        off = (off + e.align - 1) // e.align * e.align
        offs.append(off)
        off += e.size
        al = max(al, e.align)
    t.size = (off + al - 1) // al * al
    t.align = al
    t.offs = offs
    return t

def _hexd(s):
    return struct.unpack('>d', struct.pack('>Q', int(s, 16)))[0]

_dcache = {}
def dconst(f):
    n = _dcache.get(f)
    if n is None:
        if f != f or f in (float('inf'), float('-inf')):
            n = T.var('fp!%r' % f)
        else:
            n = T.const(Fraction(f))
        _dcache[f] = n
    return n

def d2bits(n):
    if isinstance(n, T.N) and n.op == 'c':
        f = float(n.a[0])
        if Fraction(f) == n.a[0]:
            return struct.unpack('<Q', struct.pack('<d', f))[0]
    return None

def bits2d(b):
    return dconst(struct.unpack('<d', struct.pack('<Q', b))[0])

# ---------------------------------------------------------------- module
class Func:
    __slots__ = ('name', 'params', 'ret', 'lines', 'code', 'nregs', 'attrs', 'defined', 'mod', 'vararg')

class Module:
    def __init__(self, text, name=''):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.name = name
        self._parse(text)

    def _parse(self, text):
        cur = None
        for line in text.split('\n'):
            if cur is not None:
                if line.startswith('}'):
                    cur = None
                    continue
                if line:
                    cur.lines.append(line)
                continue
            if not line or line[0] in ';!':
                continue
            if line[0] == '%':
                m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', line)
                self.types[m.group(1)] = m.group(2)
                continue
            if line[0] == '@':
                self._global(line)
                continue
            if line.startswith('define ') or line.startswith('declare '):
                f = Func()
                f.defined = line.startswith('define')
                f.mod = self
                m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', line)
                f.name = m.group(1)
                head = line[:m.start()]
                rest = line[m.end() - 1:]
                # parameters: up to matching paren
                d = 0
                for k, ch in enumerate(rest):
                    if ch == '(':
                        d += 1
                    elif ch == ')':
                        d -= 1
                        if d == 0:
                            break
                f.params = rest[1:k]
                f.ret = head.split('define', 1)[1] if f.defined else head.split('declare', 1)[1]
                f.lines = []
                f.code = None
                f.attrs = None
                self.funcs[f.name] = f
                if f.defined:
                    cur = f
                continue

    def _global(self, line):
        line = re.sub(r', !\w+ !\d+', '', line)
        m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)$', line)
        name, rest = m.group(1), m.group(2)
        ext = ' external ' in ' ' + rest or 'extern_weak' in rest
        m2 = re.search(r'\b(global|constant|alias)\b', rest)
        if m2.group(1) == 'alias':
            return
        self.globals[name] = dict(ext=ext, const=m2.group(1) == 'constant', body=rest[m2.end():], internal='internal' in rest[:m2.start()] or 'private' in rest[:m2.start()], tls='thread_local' in rest[:m2.start()], mod=self)


class Obj:
    __slots__ = ('id', 'size', 'align', 'ro', 'name', 'freed', 'cells', 'uni8', 'heap', 'default', 'onread', 'written', 'loads')
    def __init__(self, id, size, align, name):
        self.id = id; self.size = size; self.align = align; self.name = name
        self.ro = False
        self.freed = False
        self.heap = False
        self.cells = {}
        self.uni8 = True
        self.default = None   # function off -> value for never written 8-byte cells
        self.written = None   # optional set of written offsets
        self.onread = self.loads = None
    def copy(self):
        o = Obj(self.id, self.size, self.align, self.name)
        o.ro, o.freed, o.heap, o.uni8, o.default, o.onread, o.loads = self.ro, self.freed, self.heap, self.uni8, self.default, self.onread, self.loads
        o.cells = dict(self.cells)
        o.written = None if self.written is None else set(self.written)
        return o


class Exec:
    """One machine: a set of linked modules and a memory."""

    def __init__(self, mods, extern=None, intercept=None, maxsteps=None):
        self.mods = mods
        self.extern = dict(EXTERN)
        if extern:
            self.extern.update(extern)
        self.intercept = {} if intercept is None else intercept
        self.fn = {}
        for m in mods:
            for n, f in m.funcs.items():
                if f.defined:
                    if (m, n) not in self.fn:
                        self.fn[(m, n)] = f
                        if 'internal' not in f.ret:
                            self.fn.setdefault(n, f)
        self.code = {}
        self.reset()
        self.steps = 0
        self.maxsteps = maxsteps
        self.check_uninit_int = True
        self.calls = {}
        self.sincefork = None

    def reset(self):
        self.objs = [None]
        self.gaddr = {}
        self.faddr = {}
        self.addrf = {}
        self.pc = []
        self.decider = None
        self.log = []
        self.env = {}

    def snapshot(self):
        """memory and bookkeeping, to be given to restore (compiled code is kept)"""
        return ([None] + [o.copy() for o in self.objs[1:]], dict(self.gaddr), dict(self.faddr), dict(self.addrf), list(self.log))

    def restore(self, s):
        self.objs = [None] + [o.copy() for o in s[0][1:]]
        self.gaddr, self.faddr, self.addrf = dict(s[1]), dict(s[2]), dict(s[3])
        self.log = list(s[4])
        self.pc = []

    # ----- memory
    def new(self, size, align=16, name='', heap=False):
        o = Obj(len(self.objs), size, align, name)
        o.heap = heap
        self.objs.append(o)
        return o

    def addr(self, o, off=0):
        return (o.id << SHIFT) + OFFBIAS + off

    def find(self, p):
        if p.__class__ is not int:
            raise Fault('uninit', 'use of an undefined pointer')
        oid = p >> SHIFT
        if oid == 0 or oid >= len(self.objs):
            raise Fault('badptr', 'invalid pointer %#x' % p)
        return self.objs[oid], (p & OFFMASK) - OFFBIAS

    def access(self, p, size, align, write):
        o, off = self.find(p)
        if o.freed:
            raise Fault('use-after-free', o.name)
        if off < 0 or off + size > o.size:
            raise Fault('out-of-bounds', '%s of %d bytes at offset %d of %s (size %d)' % ('write' if write else 'read', size, off, o.name, o.size))
        if align > 1 and (off % align or o.align % align):
            raise Fault('misaligned', '%s of alignment %d at offset %d of %s (alignment %d)' % ('write' if write else 'read', align, off, o.name, o.align))
        if write and o.ro:
            raise Fault('readonly', 'write to %s at offset %d' % (o.name, off))
        return o, off

    def _split(self, o):
        # leave the uniform representation
        o.uni8 = False

    def _bytes(self, o, off):
        """the single byte at off, as int or None"""
        for s in range(off, max(off - 16, -1), -1):
            c = o.cells.get(s)
            if c is not None:
                sz, v = c
                if s + sz <= off:
                    return None
                if isinstance(v, T.N):
                    b = d2bits(v)
                    if b is None:
                        raise Unsupported('byte access to a symbolic double')
                    v = b
                if v.__class__ is not int:
                    return UNDEFI
                return (v >> (8 * (off - s))) & 255
        return None

    def rdcell(self, o, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        if c is None and o.uni8 and size == 8 and off % 8 == 0:
            if o.default is not None:
                v = o.default(off)
                if v is not None:
                    o.cells[off] = (8, v)
                return v
            return None
        # slow path
        v = 0
        anyb = False
        for k in range(size):
            b = self._bytes(o, off + k)
            if b is None or b is UNDEFI:
                if anyb:
                    return UNDEFI
                # all must be missing
                for k2 in range(size):
                    if self._bytes(o, off + k2) is not None:
                        return UNDEFI
                return None
            anyb = True
            v |= b << (8 * k)
        return v

    def wrcell(self, o, off, size, v):
        if o.written is not None:
            o.written.add(off)
        if o.uni8:
            if size == 8 and off % 8 == 0:
                o.cells[off] = (8, v)
                return
            o.uni8 = False
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v)
            return
        # explode overlapping cells
        for s in range(max(off - 16, 0), off + size):
            c = cells.get(s)
            if c is not None and s + c[0] > off:
                if s >= off and s + c[0] <= off + size:
                    del cells[s]
                else:
                    sz, ov = c
                    del cells[s]
                    if isinstance(ov, T.N):
                        b = d2bits(ov)
                        # the other bytes of a symbolic double are unknown from here on
                        ov = b
                    for k in range(sz):
                        if ov.__class__ is int:
                            cells[s + k] = (1, (ov >> (8 * k)) & 255)
        for s in range(off, off + size):
            cells.pop(s, None)
        cells[off] = (size, v)

    def symload(self, p, ty):
        """load through a symbolic address inside one object: an array of its cells"""
        import z3
        if p.s.check() != z3.sat:
            raise Prune('infeasible')
        a0 = p.s.model().eval(p.z, model_completion=True).as_long()
        oid = a0 >> SHIFT
        if p.s.check(z3.LShR(p.z, SHIFT) != oid) != z3.unsat or not 0 < oid < len(self.objs):
            raise Fault('out-of-bounds', 'a symbolic index leaves %s' % (self.objs[oid].name if 0 < oid < len(self.objs) else 'every object'))
        o = self.objs[oid]
        base = self.addr(o)
        off = z3.simplify(p.z - base)
        n = ty.size
        r = p.s.check(z3.Not(z3.And(z3.ULE(off, o.size - n), off & (n - 1) == 0)))
        if r != z3.unsat:
            raise Fault('out-of-bounds', 'read of %d bytes at a symbolic offset of %s (size %d): %s' % (n, o.name, o.size, p.s.model() if r == z3.sat else r))
        tab = {}
        known = []
        lo, hi = 0, o.size
        if o.size > 256 * n:    # only the part that can be reached
            def first(a, b, c):     # smallest k in [a, b] with c(k)
                while a < b:
                    m = (a + b) // 2
                    if c(m): b = m
                    else: a = m + 1
                return a
            lo = first(0, o.size - n, lambda k: p.s.check(z3.ULE(off, k)) != z3.unsat)
            hi = first(lo, o.size - n, lambda k: p.s.check(z3.UGT(off, k)) == z3.unsat) + n
            lo -= lo % n
            off = z3.simplify(off - lo)
            hi -= lo
        for k in range(0, hi, n):
            v = self.rdcell(o, lo + k, n)
            if v.__class__ is int:
                tab[k // n] = v
            elif v.__class__ is SymInt:
                raise Unsupported('symbolic load of symbolic contents')
            else:
                known.append(off != k)
        if known and p.s.check(z3.Not(z3.And(known))) != z3.unsat:
            raise Fault('uninit', 'read of an entry of %s that was never written: %s' % (o.name, p.s.model()))
        return SymInt(mux(z3.UDiv(off, z3.BitVecVal(n, 64)) if n & (n - 1) else z3.LShR(off, n.bit_length() - 1), tab, hi // n), p.s)

    def load(self, p, ty, align=1):
        k = ty.k
        if p.__class__ is SymInt and k in ('i', 'ptr'):
            return self.symload(p, ty)
        if k == 'v':
            o, off = self.access(p, ty.size, align, False)
            es = ty.el.size
            return [self._ld(o, off + i * es, ty.el) for i in range(ty.n)]
        if k == 's':
            return [self.load(p + ty.offs[i], ty.el[i], 1) for i in range(ty.n)]
        if k == 'a':
            return [self.load(p + ty.el.size * i, ty.el, 1) for i in range(ty.n)]
        o, off = self.access(p, ty.size, align, False)
        return self._ld(o, off, ty)

    def _ld(self, o, off, ty):
        v = self.rdcell(o, off, ty.size)
        if ty.k == 'd':
            if v is None:
                v = T.undef('%s+%d' % (o.name, off))
                o.cells[off] = (8, v) if o.uni8 else o.cells.get(off, (8, v))
                return v
            if v.__class__ is int:
                return bits2d(v)
            if v is UNDEFI:
                return T.undef('%s+%d' % (o.name, off))
            return v
        if ty.k == 'f32':
            raise Unsupported('float')
        if v is None:
            return UNDEFI
        if isinstance(v, T.N):
            if v.op == 'undef':
                return UNDEFI
            if ty.k == 'i' and ty.n == 64:
                return v      # a double moved through an integer register
            if ty.k == 'ptr':
                return v
            b = d2bits(v)
            if b is None:
                raise Unsupported('integer load of a symbolic double')
            return b
        return v

    def store(self, p, ty, v, align=1):
        k = ty.k
        if k == 'v':
            o, off = self.access(p, ty.size, align, True)
            es = ty.el.size
            if ty.el.k == 'i' and ty.el.n < 8:
                raise Unsupported('store of mask vector')
            for i in range(ty.n):
                self.wrcell(o, off + i * es, es, v[i])
            return
        if k == 's':
            for i in range(ty.n):
                self.store(p + ty.offs[i], ty.el[i], v[i])
            return
        if k == 'a':
            for i in range(ty.n):
                self.store(p + ty.el.size * i, ty.el, v[i])
            return
        o, off = self.access(p, ty.size, align, True)
        if k == 'i' and ty.n == 1:
            v = self.boolint(v)
        self.wrcell(o, off, ty.size, v)

    def memcpy(self, d, s, n, what='memcpy'):
        if n == 0:
            return
        if n.__class__ is not int:
            raise Fault('uninit', 'memcpy with undefined length')
        if n >= 1 << 62:
            raise Fault('out-of-bounds', 'memcpy of negative length')
        so, soff = self.access(s, n, 1, False)
        do, doff = self.access(d, n, 1, True)
        moves = []
        if so.uni8 and soff % 8 == 0 and n % 8 == 0:
            for k in range(0, n, 8):
                v = self.rdcell(so, soff + k, 8)
                if v is not None:
                    moves.append((doff + k, 8, v))
                else:
                    moves.append((doff + k, 8, UNDEFI))
        else:
            k = 0
            while k < n:
                c = so.cells.get(soff + k)
                if c is not None and k + c[0] <= n:
                    moves.append((doff + k, c[0], c[1]))
                    k += c[0]
                elif c is None and so.uni8 and (soff + k) % 8 == 0 and k + 8 <= n:
                    v = self.rdcell(so, soff + k, 8)
                    moves.append((doff + k, 8, UNDEFI if v is None else v))
                    k += 8
                else:
                    b = self._bytes(so, soff + k)
                    if b is None:
                        b = UNDEFI
                    moves.append((doff + k, 1, b))
                    k += 1
        for off, sz, v in moves:
            self.wrcell(do, off, sz, v)

    def memset(self, d, val, n):
        if n == 0:
            return
        if n.__class__ is not int or n >= 1 << 62:
            raise Fault('out-of-bounds', 'memset with bad length')
        o, off = self.access(d, n, 1, True)
        val &= 255
        v8 = int.from_bytes(bytes([val]) * 8, 'little')
        if off % 8 == 0 and o.uni8:
            m = n - n % 8
            if o.written is not None:
                o.written.update(range(off, off + m, 8))
            cells = o.cells
            for k in range(off, off + m, 8):
                cells[k] = (8, v8)
            for k in range(m, n):
                self.wrcell(o, off + k, 1, val)
        else:
            k = 0
            while k < n:
                if (off + k) % 4 == 0 and k + 4 <= n:
                    self.wrcell(o, off + k, 4, v8 & 0xffffffff)
                    k += 4
                else:
                    self.wrcell(o, off + k, 1, val)
                    k += 1

    # convenience for drivers
    def array(self, vals, align=64, name='', ro=True):
        """vals: list of doubles (terms or python floats)"""
        o = self.new(8 * len(vals), align, name)
        for i, v in enumerate(vals):
            if v is not None:
                o.cells[8 * i] = (8, v if isinstance(v, T.N) else dconst(float(v)))
        o.ro = ro
        return self.addr(o)

    def iarray(self, vals, align=64, name='', ro=True):
        o = self.new(4 * len(vals), align, name)
        o.uni8 = False
        for i, v in enumerate(vals):
            o.cells[4 * i] = (4, v & 0xffffffff)
        o.ro = ro
        return self.addr(o)

    def rd(self, p, i=0):
        return self.load(p + 8 * i, DBL)

    def rdi(self, p, i=0):
        v = self.load(p + 4 * i, I32)
        if v is UNDEFI:
            return v
        return v - (1 << 32) if v >> 31 else v

    # ----- decisions
    def decide(self, c, hint=''):
        if c is True or c is False:
            return c
        if c.__class__ is int:
            return bool(c & 1)
        if c is UNDEFI or c.op == 'undef':
            raise Fault('uninit', 'branch on an undefined value')
        if self.decider is None:
            raise Unsupported('symbolic branch: ' + T.show(c, 5))
        return self.decider(self, c)

    def boolint(self, c):
        if c is True:
            return 1
        if c is False:
            return 0
        if isinstance(c, T.N):
            return 1 if self.decide(c) else 0
        return c

    # ----- globals and functions
    def gptr(self, mod, name):
        key = (mod, name)
        a = self.gaddr.get(key)
        if a is not None:
            return a
        g = mod.globals.get(name)
        f = mod.funcs.get(name)
        if f is not None:
            if not f.defined:
                f = self.fn.get(name)
            key2 = name if f is None else (f.mod, name)
            a = self.faddr.get(key2)
            if a is None:
                o = self.new(1, 16, 'function ' + name)
                o.ro = True
                a = self.addr(o)
                self.faddr[key2] = a
                self.addrf[a] = (f, name)
            self.gaddr[key] = a
            return a
        if g is None:
            raise Unsupported('unknown global ' + name)
        if g['ext']:
            for m in self.mods:
                g2 = m.globals.get(name)
                if g2 is not None and not g2['ext'] and not g2['internal']:
                    a = self.gptr(m, name)
                    self.gaddr[key] = a
                    return a
            h = self.env.get(name)
            if h is not None:
                a = h(self)
                self.gaddr[key] = a
                return a
            raise Unsupported('undefined external global ' + name)
        if not g['internal']:
            # common definition may exist in several modules under the same name
            k2 = name
            a = self.gaddr.get(k2)
            if a is not None:
                self.gaddr[key] = a
                return a
            self.gaddr[k2] = None
        p = P(tokenize(g['body']), mod)
        p.skip_attrs()
        ty = p.type()
        al = ty.align
        mm = re.search(r', align (\d+)', g['body'])
        if mm:
            al = int(mm.group(1))
        o = self.new(ty.size, al, name)
        a = self.addr(o)
        self.gaddr[key] = a
        if not g['internal']:
            self.gaddr[name] = a
        self._init(o, 0, ty, p, mod)
        o.ro = g['const']
        return a

    def _init(self, o, off, ty, p, mod):
        t = p.peek()
        if t == 'zeroinitializer':
            p.next()
            if ty.k == 'a' or ty.k == 's' or ty.k == 'v' or True:
                a = self.addr(o, off)
                self.memset(a, 0, ty.size)
            return
        if t in ('undef', 'poison'):
            p.next()
            return
        if ty.k in ('a', 'v'):
            if t.startswith('c"'):
                p.next()
                s = t[2:-1]
                k = 0
                i = 0
                while i < len(s):
                    if s[i] == '\\':
                        b = int(s[i+1:i+3], 16)
                        i += 3
                    else:
                        b = ord(s[i])
                        i += 1
                    self.wrcell(o, off + k, 1, b)
                    k += 1
                return
            p.next()
            for k in range(ty.n):
                if k:
                    p.expect(',')
                et = p.type()
                self._init(o, off + k * ty.el.size, et, p, mod)
            p.next()
            return
        if ty.k == 's':
            p.expect('{')
            for k in range(ty.n):
                if k:
                    p.expect(',')
                et = p.type()
                self._init(o, off + ty.offs[k], et, p, mod)
            p.expect('}')
            return
        c = Compiler(self, mod, None)
        v = c.operand(p, ty)
        v = v(None) if callable(v) else v
        if v is UNDEFI:
            return
        self.wrcell(o, off, ty.size, v)

    def getcode(self, f):
        c = self.code.get(f)
        if c is None:
            c = Compiler(self, f.mod, f).compile()
            self.code[f] = c
        return c

    def call(self, name, *args):
        if not name.startswith('@'):
            name = '@' + name
        f = self.fn.get(name)
        if f is None:
            for m in self.mods:
                f = self.fn.get((m, name))
                if f is not None:
                    break
        if f is None:
            raise Unsupported('no function ' + name)
        return self.callf(f, list(args))

    def callany(self, f, name, args):
        h = self.intercept.get(name[1:])
        if h is not None:
            return h(self, *args)
        if f is not None:
            return self.callf(f, args)
        h = self.extern.get(name[1:])
        if h is None:
            h = builtin(name[1:])
            if h is None:
                raise Unsupported('call to unknown function ' + name)
            self.extern[name[1:]] = h
        return h(self, *args)

    def callf(self, f, args):
        code = self.getcode(f)
        self.calls[f.name] = self.calls.get(f.name, 0) + 1
        nregs, blocks, params, _ = code
        R = [None] * nregs
        frame = []
        R[0] = frame
        for (slot, byval), a in zip(params, args):
            if byval is not None:
                if a is UNDEFI:
                    raise Fault('uninit', 'byval of undefined pointer')
                o = self.new(byval.size, max(16, byval.align), 'byval argument of ' + f.name)
                self.memcpy(self.addr(o), a, byval.size)
                a = self.addr(o)
                frame.append(o)
            R[slot] = a
        b = 0
        prev = -1
        steps = self.steps
        maxsteps = self.maxsteps
        while True:
            phis, body, term = blocks[b]
            if phis is not None:
                ph = phis.get(prev)
                if ph is None:
                    raise Unsupported('phi without edge')
                if len(ph) == 1:
                    s, v = ph[0]
                    R[s] = v(R)
                else:
                    vals = [v(R) for s, v in ph]
                    for (s, v), x in zip(ph, vals):
                        R[s] = x
            for ins in body:
                ins(R)
            if maxsteps is not None:
                self.steps += len(body) + 1
                if self.steps > maxsteps:
                    raise Unsupported('step limit')
            prev = b
            b = term(R)
            if b.__class__ is tuple:
                for o in frame:
                    o.freed = True
                return b[0]


# ---------------------------------------------------------------- compiler
_icmp = {
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
    'ult': lambda a, b: a < b, 'ule': lambda a, b: a <= b,
    'ugt': lambda a, b: a > b, 'uge': lambda a, b: a >= b,
}
_icmps = {
    'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b,
    'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b,
}

def _isnanv(x):
    return x.op == 'v' and isinstance(x.a[0], str) and x.a[0].startswith('fp!')

def fcmp(pred, a, b):
    if _isnanv(a) or _isnanv(b):
        if a.op == 'v' and a.a[0] == 'fp!inf' and pred in ('ogt', 'oge', 'une'):
            return True
        if b.op == 'v' and b.a[0] == 'fp!inf' and pred in ('olt', 'ole', 'une'):
            return True
        raise Unsupported('comparison with inf/nan')
    if a.op == 'undef' or b.op == 'undef':
        return T.undef('comparison')
    p = pred[1:]
    if p == 'lt':
        return T.lt(a, b)
    if p == 'le':
        return T.le(a, b)
    if p == 'gt':
        return T.lt(b, a)
    if p == 'ge':
        return T.le(b, a)
    if p == 'eq':
        return T.eq(a, b)
    if p == 'ne':
        return T.bnot(T.eq(a, b))
    if pred == 'ord':
        return True
    if pred == 'uno':
        return False
    if pred == 'true':
        return True
    if pred == 'false':
        return False
    raise Unsupported('fcmp ' + pred)

def _needint(v, what):
    if v.__class__ is int:
        return v
    if v is True:
        return 1
    if v is False:
        return 0
    if v is UNDEFI:
        raise Fault('uninit', what + ' of an undefined integer')
    if isinstance(v, T.N):
        b = d2bits(v)
        if b is not None:
            return b
        raise Unsupported(what + ' of symbolic bits')
    if v.__class__ is SymInt:
        return v
    raise Unsupported(what + ' of ' + repr(v))


class Compiler:
    def __init__(self, ex, mod, f):
        self.ex = ex; self.mod = mod; self.f = f
        self.slots = {}
        self.n = 1

    def slot(self, name):
        s = self.slots.get(name)
        if s is None:
            s = self.slots[name] = self.n
            self.n += 1
        return s

    # operand: returns function R -> value
    def operand(self, p, ty):
        v = self.operand0(p, ty)
        return v

    def const(self, p, ty):
        pass

    def operand0(self, p, ty):
        x = p.next()
        if x[0] == '%':
            s = self.slot(x)
            return lambda R: R[s]
        v = self.constant(x, p, ty)
        if v.__class__ is tuple and v[0] == 'lazy':
            fn = v[1]
            return lambda R: fn()
        return lambda R: v

    def constant(self, x, p, ty):
        k = ty.k
        if x[0] == '@':
            ex = self.ex; mod = self.mod
            return ('lazy', lambda: ex.gptr(mod, x))
        if x == 'null':
            return 0
        if x in ('undef', 'poison'):
            return self.undefv(ty)
        if x == 'zeroinitializer':
            return self.zero(ty)
        if x == 'true':
            return True
        if x == 'false':
            return False
        if k == 'd':
            if x.startswith('0x'):
                return dconst(_hexd(x))
            return dconst(float(x))
        if k == 'i':
            if re.match(r'-?\d+$', x):
                return int(x) & ((1 << ty.n) - 1)
        if k == 'v' and x == '<':
            out = []
            lazy = False
            for i in range(ty.n):
                if i:
                    p.expect(',')
                et = p.type()
                c = self.constant(p.next(), p, et)
                if c.__class__ is tuple:
                    lazy = True
                out.append(c)
            p.expect('>')
            if lazy:
                return ('lazy', lambda: [c[1]() if c.__class__ is tuple else c for c in out])
            return out
        if k in ('a', 's') and x in '[{':
            out = []
            for i in range(ty.n):
                if i:
                    p.expect(',')
                et = p.type()
                out.append(self.constant(p.next(), p, et))
            p.next()
            return out
        if x == 'getelementptr':
            p.skip_attrs()
            p.expect('(')
            bt = p.type()
            p.expect(',')
            pt = p.type()
            base = self.constant(p.next(), p, pt)
            idx = []
            while p.accept(','):
                p.skip_attrs()
                it = p.type()
                c = self.constant(p.next(), p, it)
                idx.append((c, it))
            p.expect(')')
            off = 0
            cur = bt
            for n, (c, it) in enumerate(idx):
                c = c - (1 << it.n) if c >> (it.n - 1) else c
                if n == 0:
                    off += c * bt.size
                elif cur.k == 's':
                    off += cur.offs[c]
                    cur = cur.el[c]
                else:
                    cur = cur.el
                    off += c * cur.size
            if base.__class__ is tuple:
                fn = base[1]
                return ('lazy', lambda: fn() + off)
            return base + off
        if x in ('inttoptr', 'ptrtoint', 'bitcast'):
            p.expect('(')
            t1 = p.type()
            c = self.constant(p.next(), p, t1)
            p.expect('to')
            p.type()
            p.expect(')')
            return c
        raise Unsupported('constant %s of type %r' % (x, ty))

    def undefv(self, ty):
        if ty.k == 'd':
            return T.undef('undef constant')
        if ty.k == 'v':
            return [self.undefv(ty.el) for _ in range(ty.n)]
        if ty.k == 'a':
            return [self.undefv(ty.el) for _ in range(ty.n)]
        if ty.k == 's':
            return [self.undefv(e) for e in ty.el]
        return UNDEFI

    def zero(self, ty):
        if ty.k == 'd':
            return T.ZERO
        if ty.k in 'va':
            return [self.zero(ty.el) for _ in range(ty.n)]
        if ty.k == 's':
            return [self.zero(e) for e in ty.el]
        if ty.k == 'i' and ty.n == 1:
            return False
        return 0

    def tyop(self, p):
        p.skip_attrs()
        t = p.type()
        p.skip_attrs()
        return t, self.operand(p, t)

    def compile(self):
        f = self.f
        p = P(tokenize(f.params), self.mod)
        params = []
        idx = 0
        while p.peek() is not None:
            if p.peek() == '...':
                break
            t = p.type()
            got = set()
            p.skip_attrs(got)
            bv = None
            for g in got:
                if g.__class__ is tuple and g[0] == 'byval':
                    bv = g[1]
            nm = p.peek()
            if nm is not None and nm[0] == '%':
                p.next()
            else:
                nm = '%%%d' % idx
            params.append((self.slot(nm), bv))
            idx += 1
            if not p.accept(','):
                break
        # split into blocks
        blocks = []
        labels = {}
        cur = []
        first = True
        names = []
        lines = f.lines
        i = 0
        entry = '%%%d' % len(params)
        name = None
        raw = []
        while i < len(lines):
            l = lines[i]
            m = re.match(r'([-\w.$]+|"[^"]*"):', l)
            if m and not l.startswith(' '):
                if raw or name is not None:
                    blocks.append((name if name is not None else entry, raw))
                elif name is None and not raw and blocks == []:
                    pass
                name = '%' + m.group(1)
                raw = []
                i += 1
                continue
            if l.lstrip().startswith(';'):
                i += 1
                continue
            s = l.strip()
            if s.startswith('switch ') and not s.endswith(']') and ' ]' not in s:
                while ']' not in lines[i]:
                    i += 1
                    s += ' ' + lines[i].strip()
            raw.append(s)
            i += 1
        blocks.append((name if name is not None else entry, raw))
        for n, (nm, _) in enumerate(blocks):
            labels[nm] = n
        self.labels = labels
        out = []
        for nm, raw in blocks:
            phis = {}
            body = []
            term = None
            for s in raw:
                r = self.instr(s)
                if r is None:
                    continue
                kind, v = r
                if kind == 'phi':
                    slot, inc = v
                    for lab, val in inc:
                        phis.setdefault(labels[lab], []).append((slot, val))
                elif kind == 'i':
                    body.append(v)
                else:
                    term = v
            if term is None:
                raise Unsupported('block without terminator')
            out.append((phis or None, body, term))
        return (self.n, out, params, labels)

    def instr(self, s):
        k = s.find(', !')
        if k >= 0:
            s = s[:k]
        p = P(tokenize(s), self.mod)
        dst = None
        if p.peek(1) == '=':
            dst = self.slot(p.next())
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        h = getattr(self, 'op_' + op, None)
        if h is None:
            raise Unsupported('instruction ' + s[:100])
        return h(p, dst, op, s)

    # ----- integer arithmetic
    def _intbin(self, p, dst, op, s):
        got = set()
        p.skip_attrs(got)
        ty = p.type()
        a = self.operand(p, ty)
        p.expect(',')
        b = self.operand(p, ty)
        if ty.k == 'v':
            n = ty.el.n
            fn1 = self._intfn(op, n, got)
            cnt = ty.n
            def run(R):
                x = a(R); y = b(R)
                R[dst] = [fn1(x[i], y[i]) for i in range(cnt)]
            return 'i', run
        fn = self._intfn(op, ty.n, got)
        def run(R):
            R[dst] = fn(a(R), b(R))
        return 'i', run

    def _intfn(self, op, n, got):
        mask = (1 << n) - 1
        half = 1 << (n - 1)
        full = 1 << n
        nsw = 'nsw' in got
        nuw = 'nuw' in got
        ex = self.ex
        if n == 1:
            if op == 'and':
                return lambda x, y: T.band(_b(x), _b(y))
            if op == 'or':
                return lambda x, y: T.bor(_b(x), _b(y))
            if op == 'xor':
                def fx(x, y):
                    x = _b(x); y = _b(y)
                    if y is True:
                        return T.bnot(x)
                    if x is True:
                        return T.bnot(y)
                    if y is False:
                        return x
                    if x is False:
                        return y
                    return ex.decide(x) != ex.decide(y)
                return fx
        def sg(x):
            return x - full if x & half else x
        def ov(msg):
            raise Fault('overflow', msg)
        if op == 'add':
            def f(x, y):
                if x.__class__ is not int or y.__class__ is not int:
                    x = _needint(x, op); y = _needint(y, op)
                if nsw:
                    r = sg(x) + sg(y)
                    if not -half <= r < half:
                        ov('signed add')
                return (x + y) & mask
        elif op == 'sub':
            def f(x, y):
                if x.__class__ is not int or y.__class__ is not int:
                    x = _needint(x, op); y = _needint(y, op)
                if nsw:
                    r = sg(x) - sg(y)
                    if not -half <= r < half:
                        ov('signed sub')
                return (x - y) & mask
        elif op == 'mul':
            def f(x, y):
                if x.__class__ is not int or y.__class__ is not int:
                    x = _needint(x, op); y = _needint(y, op)
                if nsw:
                    r = sg(x) * sg(y)
                    if not -half <= r < half:
                        ov('signed mul')
                return (x * y) & mask
        elif op in ('udiv', 'urem'):
            def f(x, y):
                x = _needint(x, op); y = _needint(y, op)
                if y == 0:
                    raise Fault('div0', op)
                return x // y if op == 'udiv' else x % y
        elif op in ('sdiv', 'srem'):
            def f(x, y):
                x = sg(_needint(x, op)); y = sg(_needint(y, op))
                if y == 0:
                    raise Fault('div0', op)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == 'sdiv' else x - q * y) & mask
        elif op == 'shl':
            def f(x, y):
                x = _needint(x, op); y = _needint(y, op)
                if y >= n:
                    ov('shift amount')
                if nsw:
                    r = sg(x) << y
                    if not -half <= r < half:
                        ov('signed shl')
                return (x << y) & mask
        elif op == 'lshr':
            def f(x, y):
                x = _needint(x, op); y = _needint(y, op)
                if y >= n:
                    ov('shift amount')
                return x >> y
        elif op == 'ashr':
            def f(x, y):
                x = _needint(x, op); y = _needint(y, op)
                if y >= n:
                    ov('shift amount')
                return (sg(x) >> y) & mask
        elif op == 'and':
            f = lambda x, y: _needint(x, op) & _needint(y, op)
        elif op == 'or':
            f = lambda x, y: _needint(x, op) | _needint(y, op)
        elif op == 'xor':
            def f(x, y):
                if n == 64 and isinstance(x, T.N) and y == half:
                    return T.neg(x)
                return _needint(x, op) ^ _needint(y, op)
        return f

    op_add = op_sub = op_mul = op_udiv = op_sdiv = op_urem = op_srem = _intbin
    op_shl = op_lshr = op_ashr = op_and = op_or = op_xor = _intbin

    def _fbin(self, p, dst, op, s):
        p.skip_attrs()
        ty = p.type()
        a = self.operand(p, ty)
        p.expect(',')
        b = self.operand(p, ty)
        if (ty.el if ty.k == 'v' else ty).k != 'd':
            raise Unsupported('float arithmetic')
        f = {'fadd': T.add, 'fsub': T.sub, 'fmul': T.mul, 'fdiv': T.div}[op]
        if op == 'fdiv':
            ex = self.ex
            def f(x, y):
                if y.op == 'c' and y.a[0] == 0:
                    raise Fault('fdiv0', 'floating-point division by zero')
                return T.div(x, y)
        if ty.k == 'v':
            def run(R):
                R[dst] = list(map(f, a(R), b(R)))
        else:
            def run(R):
                R[dst] = f(a(R), b(R))
        return 'i', run
    op_fadd = op_fsub = op_fmul = op_fdiv = _fbin

    def op_fneg(self, p, dst, op, s):
        ty, a = self.tyop(p)
        if ty.k == 'v':
            def run(R):
                R[dst] = [T.neg(x) for x in a(R)]
        else:
            def run(R):
                R[dst] = T.neg(a(R))
        return 'i', run

    def op_icmp(self, p, dst, op, s):
        p.skip_attrs()
        pred = p.next()
        ty = p.type()
        a = self.operand(p, ty)
        p.expect(',')
        b = self.operand(p, ty)
        et = ty.el if ty.k == 'v' else ty
        n = 64 if et.k == 'ptr' else et.n
        ex = self.ex
        if pred in _icmp:
            f0 = _icmp[pred]
            def f(x, y):
                if x.__class__ is int and y.__class__ is int:
                    return f0(x, y)
                if isinstance(x, T.N) and x.op not in ('c', 'v', '+', '*') or isinstance(x, T.N) or isinstance(y, T.N):
                    x = ex.boolint(x) if n == 1 else x
                    y = ex.boolint(y) if n == 1 else y
                return f0(_needint(x, 'icmp'), _needint(y, 'icmp'))
        else:
            f0 = _icmps[pred]
            half = 1 << (n - 1); full = 1 << n
            def f(x, y):
                if x.__class__ is not int or y.__class__ is not int:
                    x = _needint(x, 'icmp'); y = _needint(y, 'icmp')
                return f0(x - full if x & half else x, y - full if y & half else y)
        if ty.k == 'v':
            def run(R):
                R[dst] = list(map(f, a(R), b(R)))
        else:
            def run(R):
                R[dst] = f(a(R), b(R))
        return 'i', run

    def op_fcmp(self, p, dst, op, s):
        p.skip_attrs()
        pred = p.next()
        p.skip_attrs()
        ty = p.type()
        a = self.operand(p, ty)
        p.expect(',')
        b = self.operand(p, ty)
        if ty.k == 'v':
            def run(R):
                R[dst] = [fcmp(pred, x, y) for x, y in zip(a(R), b(R))]
        else:
            def run(R):
                R[dst] = fcmp(pred, a(R), b(R))
        return 'i', run

    def op_select(self, p, dst, op, s):
        p.skip_attrs()
        ct, c = self.tyop(p)
        p.expect(',')
        t1, a = self.tyop(p)
        p.expect(',')
        t2, b = self.tyop(p)
        ex = self.ex
        def sel(cv, x, y, k):
            if cv is True or cv is False:
                return x if cv else y
            if cv.__class__ is int:
                return x if cv & 1 else y
            if x is y:
                return x
            if k == 'd' and ex.env.get('ite', True) and isinstance(cv, T.N) and cv.op != 'undef':
                return T.ite(cv, x, y)
            if k == 'i1' and isinstance(cv, T.N) and cv.op != 'undef':
                x = _b(x); y = _b(y)
                return T.bor(T.band(cv, x), T.band(T.bnot(cv), y))
            return x if ex.decide(cv) else y
        k = 'i1' if (t1.k == 'i' and t1.n == 1) else t1.k
        if ct.k == 'v':
            ek = t1.el.k
            def run(R):
                cv = c(R)
                R[dst] = [sel(q, x, y, ek) for q, x, y in zip(cv, a(R), b(R))]
        else:
            def run(R):
                cv = c(R)
                if cv is True:
                    R[dst] = a(R)
                elif cv is False:
                    R[dst] = b(R)
                elif t1.k == 'v' and isinstance(cv, T.N):
                    R[dst] = [sel(cv, x, y, t1.el.k) for x, y in zip(a(R), b(R))]
                else:
                    R[dst] = sel(cv, a(R), b(R), k)
        return 'i', run

    # ----- control
    def op_br(self, p, dst, op, s):
        if p.peek() == 'label':
            p.next()
            L = p.next()
            labels = self.labels
            t = labels[L]
            return 't', lambda R: t
        p.next()
        c = self.operand(p, I1)
        p.expect(',')
        p.next()
        l1 = self.labels[p.next()]
        p.expect(',')
        p.next()
        l2 = self.labels[p.next()]
        ex = self.ex
        def run(R):
            v = c(R)
            if v is True:
                return l1
            if v is False:
                return l2
            return l1 if ex.decide(v) else l2
        return 't', run

    def op_switch(self, p, dst, op, s):
        ty, v = self.tyop(p)
        p.expect(',')
        p.next()
        d = self.labels[p.next()]
        p.expect('[')
        tab = {}
        while not p.accept(']'):
            t = p.type()
            c = int(p.next()) & ((1 << t.n) - 1)
            p.expect(',')
            p.next()
            tab[c] = self.labels[p.next()]
        def run(R):
            x = _needint(v(R), 'switch')
            return tab.get(x, d)
        return 't', run

    def op_ret(self, p, dst, op, s):
        t = p.type()
        if t.k == 'void':
            r = (None,)
            return 't', lambda R: r
        v = self.operand(p, t)
        return 't', lambda R: (v(R),)

    def op_unreachable(self, p, dst, op, s):
        def run(R):
            raise Fault('unreachable', 'unreachable executed')
        return 't', run

    def op_phi(self, p, dst, op, s):
        p.skip_attrs()
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = self.operand(p, ty)
            p.expect(',')
            lab = p.next()
            p.expect(']')
            inc.append((lab, v))
            if not p.accept(','):
                break
        return 'phi', (dst, inc)

    # ----- memory
    def op_alloca(self, p, dst, op, s):
        ty = p.type()
        n = None
        al = ty.align
        while p.accept(','):
            if p.peek() == 'align':
                p.next()
                al = int(p.next())
            else:
                t = p.type()
                n = self.operand(p, t)
        ex = self.ex
        nm = 'local variable of ' + self.f.name[1:]
        def run(R):
            sz = ty.size
            if n is not None:
                c = _needint(n(R), 'alloca')
                if c >= 1 << 40:
                    raise Fault('overflow', 'negative variable length array')
                sz *= c
            o = ex.new(sz, max(al, 16), nm)
            R[0].append(o)
            R[dst] = ex.addr(o)
        return 'i', run

    def _align(self, p):
        al = 1
        while p.peek() in ORDERINGS:
            p.next()
        while p.accept(','):
            if p.peek() == 'align':
                p.next()
                al = int(p.next())
            else:
                p.next()
        return al

    def op_load(self, p, dst, op, s):
        p.accept('atomic')
        p.skip_attrs()
        ty = p.type()
        p.expect(',')
        pt, a = self.tyop(p)
        al = self._align(p)
        ex = self.ex
        load = ex.load
        if ty.k == 'd':
            def run(R):
                q = a(R)
                if q.__class__ is SymInt:
                    h = ex.env.get('symdload')
                    if h is None:
                        raise Unsupported('load of a double at a symbolic address')
                    R[dst] = h(ex, q)
                    return
                o, off = ex.access(q, 8, al, False)
                c = o.cells.get(off)
                if c is not None and c[0] == 8 and c[1].__class__ is T.N:
                    R[dst] = c[1]
                else:
                    R[dst] = ex._ld(o, off, ty)
        elif ty.k == 'i' and ty.n == 1:
            def run(R):
                v = load(a(R), ty, al)
                R[dst] = v if v is UNDEFI else bool(v & 1)
        else:
            def run(R):
                R[dst] = load(a(R), ty, al)
        return 'i', run

    def op_store(self, p, dst, op, s):
        p.accept('atomic')
        p.skip_attrs()
        ty = p.type()
        v = self.operand(p, ty)
        p.expect(',')
        pt, a = self.tyop(p)
        al = self._align(p)
        store = self.ex.store
        def run(R):
            store(a(R), ty, v(R), al)
        return 'i', run

    def op_fence(self, p, dst, op, s):
        return None

    def op_atomicrmw(self, p, dst, op, s):
        p.skip_attrs()
        what = p.next()
        pt, a = self.tyop(p)
        p.expect(',')
        ty, v = self.tyop(p)
        al = self._align(p)
        ex = self.ex
        if ty.k != 'i':
            what = ''
        def run(R):
            q, x = a(R), v(R)
            ex.access(q, ty.size, al, True)
            old = ex.load(q, ty, al)
            R[dst] = old
            if old.__class__ is not int or x.__class__ is not int or what not in ATOMIC:
                raise Unsupported('atomicrmw ' + s[:60])
            ex.store(q, ty, ATOMIC[what](old, x) & ((1 << ty.n) - 1), al)
        return 'i', run

    def op_cmpxchg(self, p, dst, op, s):
        p.accept('weak')
        p.skip_attrs()
        pt, a = self.tyop(p)
        p.expect(',')
        ty, c = self.tyop(p)
        p.expect(',')
        ty, v = self.tyop(p)
        al = self._align(p)
        ex = self.ex
        def run(R):
            q, x, y = a(R), c(R), v(R)
            ex.access(q, ty.size, al, True)
            old = ex.load(q, ty, al)
            if old.__class__ is not int or x.__class__ is not int:
                raise Unsupported('cmpxchg ' + s[:60])
            if old == x:
                ex.store(q, ty, y, al)
            R[dst] = [old, old == x]
        return 'i', run

    def op_getelementptr(self, p, dst, op, s):
        p.skip_attrs()
        bt = p.type()
        p.expect(',')
        pt, base = self.tyop(p)
        if pt.k == 'v':
            raise Unsupported('vector gep')
        const = 0
        dyn = []
        cur = bt
        first = True
        while p.accept(','):
            p.skip_attrs()
            it = p.type()
            tok = p.peek()
            if tok[0] == '%':
                iv = self.operand(p, it)
                c = None
            else:
                c = int(p.next())
            if first:
                sz = bt.size
                first = False
            elif cur.k == 's':
                const += cur.offs[c]
                cur = cur.el[c]
                continue
            else:
                cur = cur.el
                sz = cur.size
            if c is not None:
                const += c * sz
            else:
                dyn.append((iv, it.n, sz))
        if not dyn:
            def run(R):
                b = base(R)
                if b.__class__ is not int:
                    if b is UNDEFI:
                        R[dst] = UNDEFI
                        return
                    b = _needint(b, 'gep')
                R[dst] = b + const
        elif len(dyn) == 1:
            iv, n, sz = dyn[0]
            half = 1 << (n - 1); full = 1 << n
            def run(R):
                b = base(R)
                x = iv(R)
                if b.__class__ is not int or x.__class__ is not int:
                    if b is UNDEFI or x is UNDEFI:
                        R[dst] = UNDEFI
                        return
                    x = _needint(x, 'gep')
                    b = _needint(b, 'gep')
                R[dst] = b + const + (x - full if x & half else x) * sz
        else:
            def run(R):
                b = base(R)
                r = b + const
                for iv, n, sz in dyn:
                    x = _needint(iv(R), 'gep')
                    if x >> (n - 1):
                        x -= 1 << n
                    r += x * sz
                R[dst] = r
        return 'i', run

    # ----- casts
    def _cast(self, p, dst, op, s):
        p.skip_attrs()
        t1, a = self.tyop(p)
        p.expect('to')
        t2 = p.type()
        ex = self.ex
        e1 = t1.el if t1.k == 'v' else t1
        e2 = t2.el if t2.k == 'v' else t2
        if op == 'sext':
            h = 1 << (e1.n - 1); fl = 1 << e1.n; m2 = (1 << e2.n) - 1
            def f(x):
                if x.__class__ is not int:
                    if x is UNDEFI:
                        return x
                    x = ex.boolint(x) if e1.n == 1 else _needint(x, op)
                    if x.__class__ is SymInt:
                        try:
                            return (x - fl if x & h else x) & m2
                        except Unsupported:
                            return x.sext(e1.n) & m2
                return (x - fl if x & h else x) & m2
        elif op == 'zext':
            def f(x):
                if x.__class__ is not int:
                    if x is UNDEFI:
                        return x
                    if e1.n == 1:
                        return ex.boolint(x)
                    return _needint(x, op)
                return x
        elif op == 'trunc':
            m2 = (1 << e2.n) - 1
            one = e2.n == 1
            def f(x):
                if x is UNDEFI:
                    return x
                x = _needint(x, op) & m2
                return bool(x) if one else x
        elif op == 'sitofp':
            h = 1 << (e1.n - 1); fl = 1 << e1.n
            def f(x):
                if x is UNDEFI:
                    return T.undef('sitofp')
                x = ex.boolint(x) if e1.n == 1 else _needint(x, op)
                if x.__class__ is SymInt:
                    g = ex.env.get('symitof')
                    if g is None:
                        raise Unsupported('conversion of a symbolic integer')
                    return g(ex, x)
                return T.const(x - fl if x & h else x)
        elif op == 'uitofp':
            def f(x):
                if x is UNDEFI:
                    return T.undef('uitofp')
                x = ex.boolint(x) if e1.n == 1 else _needint(x, op)
                return T.const(x)
        elif op in ('fptosi', 'fptoui'):
            m2 = (1 << e2.n) - 1
            def f(x):
                if x.op == 'c':
                    v = x.a[0]
                    r = int(v)
                    lim = 1 << (e2.n - 1)
                    if op == 'fptosi' and not -lim <= r < lim:
                        raise Fault('overflow', 'fptosi out of range')
                    return r & m2
                h = ex.env.get('fptosi')
                if h is None:
                    raise Unsupported('symbolic fptosi')
                return h(ex, x) & m2
        elif op == 'bitcast':
            if t1.k == 'd' and t2.k == 'i':
                f = lambda x: x
            elif t1.k == 'i' and t2.k == 'd':
                f = lambda x: x if isinstance(x, T.N) else bits2d(_needint(x, op))
            elif t1.k == t2.k == 'v' and e1.size == e2.size:
                if e1.k == 'i' and e2.k == 'd':
                    f = lambda x: x if isinstance(x, T.N) else (T.undef('bitcast') if x is UNDEFI else bits2d(_needint(x, op)))
                else:
                    f = lambda x: x
            elif t1.k == 'i' and t2.k == 'v' and e2.k == 'i' and e2.n == 1:
                def run(R):
                    x = _needint(a(R), op)
                    R[dst] = [bool((x >> i) & 1) for i in range(t2.n)]
                return 'i', run
            elif t1.k == 'v' and t2.k == 'i' and e1.n == 1:
                def run(R):
                    v = a(R)
                    R[dst] = sum(ex.boolint(b) << i for i, b in enumerate(v))
                return 'i', run
            else:
                raise Unsupported('bitcast ' + s)
        elif op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            f = lambda x: x
        elif op in ('fpext', 'fptrunc'):
            raise Unsupported('float conversion')
        if t1.k == 'v':
            def run(R):
                R[dst] = [f(x) for x in a(R)]
        else:
            def run(R):
                R[dst] = f(a(R))
        return 'i', run
    op_sext = op_zext = op_trunc = op_sitofp = op_uitofp = op_fptosi = op_fptoui = _cast
    op_bitcast = op_ptrtoint = op_inttoptr = op_fpext = op_fptrunc = op_addrspacecast = _cast

    def op_freeze(self, p, dst, op, s):
        t, a = self.tyop(p)
        def run(R):
            R[dst] = a(R)
        return 'i', run

    # ----- vectors
    def op_extractelement(self, p, dst, op, s):
        t, a = self.tyop(p)
        p.expect(',')
        it, i = self.tyop(p)
        n = t.n
        def run(R):
            k = _needint(i(R), op)
            if k >= n:
                raise Fault('out-of-bounds', 'extractelement index')
            R[dst] = a(R)[k]
        return 'i', run

    def op_insertelement(self, p, dst, op, s):
        t, a = self.tyop(p)
        p.expect(',')
        et, v = self.tyop(p)
        p.expect(',')
        it, i = self.tyop(p)
        n = t.n
        def run(R):
            k = _needint(i(R), op)
            if k >= n:
                raise Fault('out-of-bounds', 'insertelement index')
            r = list(a(R))
            r[k] = v(R)
            R[dst] = r
        return 'i', run

    def op_shufflevector(self, p, dst, op, s):
        t, a = self.tyop(p)
        p.expect(',')
        t2, b = self.tyop(p)
        p.expect(',')
        mt = p.type()
        x = p.peek()
        if x == 'zeroinitializer':
            mask = [0] * mt.n
        elif x in ('undef', 'poison'):
            mask = [-1] * mt.n
        else:
            p.expect('<')
            mask = []
            for i in range(mt.n):
                if i:
                    p.expect(',')
                p.type()
                y = p.next()
                mask.append(-1 if y in ('undef', 'poison') else int(y))
        n = t.n
        el = t.el
        und = self.undefv
        def run(R):
            x = a(R)
            y = b(R) if any(m >= n for m in mask) else None
            R[dst] = [und(el) if m < 0 else (x[m] if m < n else y[m - n]) for m in mask]
        return 'i', run

    def op_extractvalue(self, p, dst, op, s):
        t, a = self.tyop(p)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        def run(R):
            v = a(R)
            for i in idx:
                v = v[i]
            R[dst] = v
        return 'i', run

    def op_insertvalue(self, p, dst, op, s):
        t, a = self.tyop(p)
        p.expect(',')
        et, v = self.tyop(p)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        def run(R):
            def ins(x, ix):
                x = list(x)
                x[ix[0]] = v(R) if len(ix) == 1 else ins(x[ix[0]], ix[1:])
                return x
            R[dst] = ins(a(R), idx)
        return 'i', run

    # ----- call
    def op_call(self, p, dst, op, s):
        p.skip_attrs()
        rt = p.type()
        p.skip_attrs()
        if p.peek() == '(':
            d = 0
            while True:
                y = p.next()
                if y == '(':
                    d += 1
                elif y == ')':
                    d -= 1
                    if d == 0:
                        break
        callee = p.next()
        if callee == 'asm':
            raise Unsupported('inline assembly')
        p.expect('(')
        args = []
        while not p.accept(')'):
            t = p.type()
            if t.k == 'meta':
                # debug info / metadata argument
                while p.peek() not in (',', ')'):
                    p.next()
                args.append(lambda R: None)
            else:
                p.skip_attrs()
                args.append(self.operand(p, t))
            p.accept(',')
        ex = self.ex
        if callee[0] == '@':
            nm = callee[1:]
            if nm.startswith('llvm.'):
                h = intrinsic(nm)
                if h == 'nop':
                    return None
                if h is None:
                    raise Unsupported('intrinsic ' + nm)
                if len(args) == 1:
                    a0 = args[0]
                    def run(R):
                        r = h(ex, a0(R))
                        if dst is not None:
                            R[dst] = r
                else:
                    def run(R):
                        r = h(ex, *[a(R) for a in args])
                        if dst is not None:
                            R[dst] = r
                return 'i', run
            f = self.mod.funcs.get(callee)
            if f is None or not f.defined:
                f = ex.fn.get(callee)
            def run(R):
                r = ex.callany(f, callee, [a(R) for a in args])
                if dst is not None:
                    R[dst] = r
            return 'i', run
        s_ = self.slot(callee)
        def run(R):
            a = R[s_]
            if a.__class__ is SymInt:
                r = ex.env['symcall'](ex, a, [q(R) for q in args])
                if dst is not None:
                    R[dst] = r
                return
            t = ex.addrf.get(a)
            if t is None:
                raise Fault('badcall', 'call through invalid function pointer %r' % (a,))
            r = ex.callany(t[0], t[1], [q(R) for q in args])
            if dst is not None:
                R[dst] = r
        return 'i', run


def _b(x):
    if x is True or x is False:
        return x
    if x.__class__ is int:
        return bool(x & 1)
    if x is UNDEFI:
        raise Fault('uninit', 'boolean operation on undefined value')
    return x

# ---------------------------------------------------------------- intrinsics
def _vec(f):
    def g(ex, *a):
        if a[0].__class__ is list:
            return [f(*x) for x in zip(*a)]
        return f(*a)
    return g

def _fma(a, b, c):
    return T.add(T.mul(a, b), c)

def _sx(x, n):
    return x - (1 << n) if x >> (n - 1) else x

def _fmax(a, b):
    return T.ite(T.lt(b, a), a, b)

def _fmin(a, b):
    return T.ite(T.lt(a, b), a, b)

_icache = {}
ORDERINGS = ('unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst')
ATOMIC = {'xchg': lambda a, b: b, 'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}

def intrinsic(nm):
    h = _icache.get(nm)
    if h is None and nm not in _icache:
        h = _intrinsic(nm)
        _icache[nm] = h
    return h

def _intrinsic(nm):
    if nm.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.prefetch', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.stackrestore', 'llvm.va_end')):
        return 'nop'
    if nm.startswith('llvm.threadlocal.address'):
        return lambda ex, p: p
    if nm.startswith('llvm.stacksave'):
        return lambda ex: 0
    if nm.startswith(('llvm.memcpy', 'llvm.memmove')):
        return lambda ex, d, s, n, v: ex.memcpy(d, s, n)
    if nm.startswith('llvm.memset'):
        return lambda ex, d, c, n, v: ex.memset(d, _needint(c, 'memset'), n)
    if nm.startswith(('llvm.fmuladd.', 'llvm.fma.')):
        return _vec(_fma)
    if nm.startswith('llvm.sqrt.'):
        return _vec(T.sqrt)
    if nm.startswith('llvm.fabs.'):
        return _vec(T.fabs)
    if nm.startswith('llvm.exp.'):
        return _vec(lambda x: T.uf('exp', x))
    if nm.startswith('llvm.pow.'):
        return _vec(powt)
    m = re.match(r'llvm\.(smax|smin|umax|umin)\.i(\d+)$', nm)
    if m:
        n = int(m.group(2))
        k = m.group(1)
        def f(ex, a, b):
            a = _needint(a, nm); b = _needint(b, nm)
            if k[0] == 's':
                r = (max if k == 'smax' else min)(_sx(a, n), _sx(b, n))
                return r & ((1 << n) - 1)
            return (max if k == 'umax' else min)(a, b)
        return f
    m = re.match(r'llvm\.abs\.i(\d+)$', nm)
    if m:
        n = int(m.group(1))
        return lambda ex, a, z: abs(_sx(_needint(a, nm), n)) & ((1 << n) - 1)
    if nm == 'llvm.x86.avx.hadd.pd.256':
        return lambda ex, a, b: [T.add(a[0], a[1]), T.add(b[0], b[1]), T.add(a[2], a[3]), T.add(b[2], b[3])]
    if nm == 'llvm.x86.sse3.hadd.pd':
        return lambda ex, a, b: [T.add(a[0], a[1]), T.add(b[0], b[1])]
    if nm in ('llvm.x86.avx.max.pd.256', 'llvm.x86.sse2.max.pd'):
        return _vec(_fmax)
    if nm in ('llvm.x86.avx.min.pd.256', 'llvm.x86.sse2.min.pd'):
        return _vec(_fmin)
    if nm == 'llvm.x86.avx512.max.pd.512':
        return lambda ex, a, b, r: [_fmax(x, y) for x, y in zip(a, b)]
    if nm == 'llvm.x86.avx512.min.pd.512':
        return lambda ex, a, b, r: [_fmin(x, y) for x, y in zip(a, b)]
    m = re.match(r'llvm\.vector\.reduce\.fadd\.v\d+f64$', nm)
    if m:
        def f(ex, s, v):
            for x in v:
                s = T.add(s, x)
            return s
        return f
    m = re.match(r'llvm\.vector\.reduce\.(fmax|fmin)\.v\d+f64$', nm)
    if m:
        g = _fmax if m.group(1) == 'fmax' else _fmin
        def f(ex, v):
            r = v[0]
            for x in v[1:]:
                r = g(x, r)
            return r
        return f
    if nm.startswith(('llvm.maxnum.f64', 'llvm.maxnum.v')):
        return _vec(_fmax)
    if nm.startswith(('llvm.minnum.f64', 'llvm.minnum.v')):
        return _vec(_fmin)
    m = re.match(r'llvm\.masked\.load\.v(\d+)f64\.p0$', nm)
    if m:
        n = int(m.group(1))
        def f(ex, p, al, mask, pas):
            out = []
            for i in range(n):
                out.append(ex.load(p + 8 * i, DBL, 8) if ex.decide(mask[i]) else pas[i])
            return out
        return f
    m = re.match(r'llvm\.masked\.store\.v(\d+)f64\.p0$', nm)
    if m:
        n = int(m.group(1))
        def f(ex, v, p, al, mask):
            for i in range(n):
                if ex.decide(mask[i]):
                    ex.store(p + 8 * i, DBL, v[i], 8)
        return f
    m = re.match(r'llvm\.masked\.gather\.v(\d+)f64\.v\d+p0$', nm)
    if m:
        n = int(m.group(1))
        def f(ex, ps, al, mask, pas):
            return [ex.load(ps[i], DBL, 8) if ex.decide(mask[i]) else pas[i] for i in range(n)]
        return f
    if nm.startswith('llvm.trap') or nm.startswith('llvm.ubsantrap'):
        def f(ex, *a):
            raise Fault('trap', 'trap executed')
        return f
    if nm.startswith('llvm.expect'):
        return lambda ex, a, b: a
    if nm.startswith('llvm.is.constant'):
        return lambda ex, a: False
    if nm.startswith('llvm.objectsize'):
        return lambda ex, *a: M64
    m = re.match(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)$', nm)
    if m:
        n = int(m.group(3)); sgn = m.group(1) == 's'; o = m.group(2)
        def f(ex, a, b):
            x, y = (_sx(a, n), _sx(b, n)) if sgn else (a, b)
            r = x + y if o == 'add' else x - y if o == 'sub' else x * y
            w = r & ((1 << n) - 1)
            ok = (_sx(w, n) if sgn else w) == r
            return [w, not ok]
        return f
    if nm.startswith('llvm.rint') or nm.startswith('llvm.floor'):
        return None
    return None

# ---------------------------------------------------------------- libc
_half = Fraction(1, 2)
def powt(x, y):
    """pow; integer and half-integer constant exponents expand exactly"""
    if y.op == 'c':
        e = y.a[0]
        if x.op == 'c' and e.denominator == 1 and x.a[0] != 0:
            return T.const(x.a[0] ** int(e))
    return T.uf('pow', x, y)

def _malloc(ex, n):
    n = _needint(n, 'malloc')
    if n >= 1 << 38:
        raise Fault('overflow', 'allocation of %d bytes' % n)
    o = ex.new(n, 16, 'heap block of %d bytes' % n, heap=True)
    return ex.addr(o)

def _calloc(ex, a, b):
    p = _malloc(ex, _needint(a, 'calloc') * _needint(b, 'calloc'))
    ex.memset(p, 0, a * b)
    return p

def _memalign(ex, pp, al, n):
    n = _needint(n, 'posix_memalign')
    if n >= 1 << 38:
        raise Fault('overflow', 'allocation of %d bytes' % n)
    o = ex.new(n, al, 'heap block of %d bytes' % n, heap=True)
    ex.store(pp, PTR, ex.addr(o), 8)
    return 0

def _aligned_alloc(ex, al, n):
    o = ex.new(_needint(n, 'aligned_alloc'), al, 'heap block of %d bytes' % n, heap=True)
    return ex.addr(o)

def _free(ex, p):
    if p == 0:
        return
    o, off = ex.find(p)
    if not o.heap:
        raise Fault('badfree', 'free of ' + o.name)
    if o.freed:
        raise Fault('double-free', o.name)
    if off != 0:
        raise Fault('badfree', 'free of interior pointer')
    o.freed = True

def _abort(ex, *a):
    raise Fault('abort', 'abort/assert/exit called')

def _realloc(ex, p, n):
    q = _malloc(ex, n)
    if p:
        o, off = ex.find(p)
        ex.memcpy(q, p, min(n, o.size))
        _free(ex, p)
    return q

EXTERN = {
    'malloc': _malloc, 'calloc': _calloc, 'posix_memalign': _memalign, 'free': _free, 'realloc': _realloc,
    'aligned_alloc': _aligned_alloc, 'memalign': _aligned_alloc,
    'memcpy': lambda ex, d, s, n: (ex.memcpy(d, s, n), d)[1],
    'memmove': lambda ex, d, s, n: (ex.memcpy(d, s, n), d)[1],
    'memset': lambda ex, d, c, n: (ex.memset(d, c, n), d)[1],
    'sqrt': lambda ex, x: T.sqrt(x),
    'fabs': lambda ex, x: T.fabs(x),
    'fmax': lambda ex, x, y: _fmax(x, y),
    'fmin': lambda ex, x, y: _fmin(x, y),
    'exp': lambda ex, x: T.uf('exp', x),
    'log': lambda ex, x: T.uf('log', x),
    'pow': lambda ex, x, y: powt(x, y),
    'printf': lambda ex, *a: 0, 'puts': lambda ex, *a: 0, 'putchar': lambda ex, *a: 0, 'fprintf': lambda ex, *a: 0,
    'abort': _abort, 'exit': _abort, '__assert_fail': _abort,
    '_ZGVdN4v_exp': lambda ex, v: [T.uf('exp', x) for x in v],
    '_ZGVbN2v_exp': lambda ex, v: [T.uf('exp', x) for x in v],
    '_ZGVeN8v_exp': lambda ex, v: [T.uf('exp', x) for x in v],
    '_ZGVdN4vv_pow': lambda ex, v, w: [powt(x, y) for x, y in zip(v, w)],
    '_ZGVbN2vv_pow': lambda ex, v, w: [powt(x, y) for x, y in zip(v, w)],
    '_ZGVeN8vv_pow': lambda ex, v, w: [powt(x, y) for x, y in zip(v, w)],
}

def builtin(nm):
    return None
