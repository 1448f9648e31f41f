"""The entry points of the library with all kernels replaced by recorders."""
import os, re, itertools
import z3
import irx, kern, prove, build, check, fork, terms as T

KRE = re.compile(r'ostei_(?:deriv(\d)_)?(\w)_(\w)_(\w)_(\w)$')

def kid(name):
    """(deriv, l1, l2, l3, l4) of a kernel's name"""
    m = KRE.match(name)
    if not m:
        return None
    return (int(m.group(1) or 0),) + tuple(build.AMC.index(x) for x in m.groups()[1:])

class Kernels(dict):
    """intercepts every kernel"""
    def __init__(self, fn, **more):
        dict.__init__(self, **more)
        self.fn = fn
        self.h = {}
    def get(self, name, d=None):
        if name in self:
            return self[name]
        k = kid(name)
        if k is None:
            return d
        if name not in self.h:
            self.h[name] = lambda ex, P, Q, t, w, o: self.fn(ex, k, P, Q, t, w, o)
        return self.h[name]

FILES = ('simint_init.c', 'simint_eri.c', 'ostei/ostei.c', 'ostei/ostei_init.c', 'ostei/ostei_deriv1_init.c')

def headers(lib, maxam, maxder):
    """an include directory for this configuration in which every kernel is declared"""
    b = build.incdir(lib.src, lib.vec, maxam, maxder)
    d = os.path.join(build.scratch(), 'entry-%s-%d-%d' % (lib.vec, maxam, maxder), 'simint', 'ostei', 'gen')
    top = os.path.dirname(os.path.dirname(os.path.dirname(d)))
    if not os.path.isdir(top):
        tmp = '%s.tmp%d' % (top, os.getpid())
        d = tmp + d[len(top):]
        os.makedirs(d)
        for dv, nm in ((0, 'ostei_generated.h'), (1, 'ostei_deriv1_generated.h')):
            with open(os.path.join(d, nm), 'w') as f:
                f.write('#pragma once\n#include "simint/shell/shell.h"\n')
                for q in itertools.product(range(maxam + 1), repeat=4):
                    f.write('int %s(struct simint_multi_shellpair const, struct simint_multi_shellpair const, double, double * restrict, double * restrict);\n' % kern.kname(q, dv))
        build.settle(tmp, top)
    return [top, b]

def modules(lib, maxam, maxder, wrapper=None):
    inc = headers(lib, maxam, maxder)
    out = []
    for f in FILES:
        p = lib.path(f)
        if os.path.exists(p):
            out.append(irx.Module(build.ll(p, lib.src, lib.vec, extra=['-I' + i for i in inc], inc=inc[0]), p))
    if wrapper:
        p = os.path.join(build.scratch(), 'wrapper%d.c' % abs(hash(wrapper)))
        build.put(p, wrapper)
        out.append(irx.Module(build.ll(p, lib.src, lib.vec, extra=['-I' + i for i in inc], inc=inc[0]), p))
    return out, inc
