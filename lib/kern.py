"""Running the library's kernels in the symbolic executor."""
import os, re, glob
import build, irx, terms as T

XYZ = 'xyz'

def kname(q, deriv=0):
    return ('ostei_deriv1_' if deriv else 'ostei_') + '_'.join(build.AMC[i] for i in q)

class Lib:
    """a generated source tree at one vector width; modules are compiled on demand"""
    def __init__(self, src, vec='scalar', inc=None, extra=(), passes=build.BASEPASSES):
        self.src = src; self.vec = vec
        self.inc = inc or build.incdir(src, vec)
        self.extra = list(extra)
        self.passes = passes
        self.off = build.offsets(src, vec, self.inc if inc else None)
        self.W = self.off[('C', 'SIMD_LEN')]
        self.NS = self.off[('C', 'NSHELL_SIMD')]
        self.texts = {}
        self.mods = {}
        self._index = None

    def path(self, rel):
        return os.path.join(self.src, 'simint', rel)

    def text(self, path):
        if path not in self.texts:
            self.texts[path] = build.ll(path, self.src, self.vec, inc=self.inc, extra=self.extra, passes=self.passes)
        return self.texts[path]

    def module(self, path):
        if path not in self.mods:
            self.mods[path] = irx.Module(self.text(path), path)
        return self.mods[path]

    def libfiles(self):
        """the C files that the library's build compiles"""
        with open(self.src + '/simint/CMakeLists.txt') as f:
            t = f.read()
        fs = [self.path(x) for x in re.findall(r'^\s*([\w/]+\.c)\s*$', t, re.M)]
        fs += sorted(glob.glob(self.path('ostei/gen/*.c')))
        return [f for f in fs if os.path.exists(f)]

    def index(self):
        """function name -> file that defines it (by scanning definitions)"""
        if self._index is None:
            ix = {}
            for f in self.libfiles():
                with open(f) as fo:
                    t = fo.read()
                for m in re.finditer(r'^(?:(?:static|inline|const|extern|double|int|void|size_t|SIMINT_DBLTYPE|unsigned|struct\s+\w+|\*)\s*)*\b([A-Za-z_]\w*)\s*\([^;{}]*\)\s*\{', t, re.M):
                    ix.setdefault(m.group(1), f)
                for m in re.finditer(r'^(?:(?:const|extern|struct|static)\s+)*\w+\s+(?:const\s+)?(\w+)\s*(?:\[[^\]]*\]\s*)+=', t, re.M):
                    ix.setdefault(m.group(1), f)
            self._index = ix
        return self._index

    def link(self, roots, stop=()):
        """modules reachable from the root files"""
        out = []
        seen = set()
        todo = list(roots)
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            m = self.module(f)
            out.append(m)
            ix = self.index()
            names = [n for n, fn in m.funcs.items() if not fn.defined and not n.startswith('@llvm.')]
            names += [n for n, g in m.globals.items() if g['ext']]
            for n in names:
                if n[1:] in stop:
                    continue
                g = ix.get(n[1:])
                if g and g not in seen:
                    todo.append(g)
        return out

    def kfile(self, q, deriv=0):
        return self.path('ostei/gen/%s.c' % kname(q, deriv))

    # ----- structures
    def msp(self, ex, **f):
        """a struct simint_multi_shellpair in executor memory"""
        o = ex.new(self.off[('MSP', 'size')], 16, 'shell pair structure')
        o.uni8 = False
        for k, v in f.items():
            off = self.off.get(('MSP', k))
            if off is None:
                continue
            if k in ('am1', 'am2', 'nprim', 'nshell12', 'nshell12_clip'):
                o.cells[off] = (4, v & 0xffffffff)
            else:
                o.cells[off] = (8, v)
        return ex.addr(o)

def rnd(n, w):
    return (n + w - 1) // w * w

PRIMF = ('x', 'y', 'z', 'PA_x', 'PA_y', 'PA_z', 'PB_x', 'PB_y', 'PB_z', 'alpha', 'alpha2', 'beta2', 'prefac', 'screen')

def boys_uf(W):
    """summary of boys_F_split: F_k(x) for k <= n as uninterpreted functions"""
    def h(ex, F, x, n):
        xs = x if x.__class__ is list else [x]
        if len(xs) != W:
            raise irx.Unsupported('boys argument width')
        if n >> 31:
            raise irx.Fault('boys', 'negative order')
        ex.env.setdefault('boys_orders', set()).add(n)
        for k in range(n + 1):
            for l in range(W):
                ex.store(F + 8 * (k * W + l), irx.DBL, T.uf('boys', T.const(k), xs[l]), 8 * W if l == 0 else 8)
    return h
