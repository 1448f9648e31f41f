"""Runs one kernel of the library on symbolic shell pairs and states its goals."""
import irx, kern, terms as T, prove
from osref import *

BRAN = dict(x='Px', y='Py', z='Pz', PA_x='PAx', PA_y='PAy', PA_z='PAz', PB_x='PBx', PB_y='PBy', PB_z='PBz', alpha='p', alpha2='a2', beta2='b2', prefac='KP', screen='SP')
KETN = dict(x='Qx', y='Qy', z='Qz', PA_x='QCx', PA_y='QCy', PA_z='QCz', PB_x='QDx', PB_y='QDy', PB_z='QDz', alpha='q', alpha2='c2', beta2='d2', prefac='KQ', screen='SQ')
PADV = dict(alpha=1, alpha2=1, beta2=1)

def layout(counts, W, NS):
    """positions of primitive pairs: [(index or None)] with the documented padding:
    after every NS shell pairs and at the end, up to a multiple of W"""
    out = []
    k = 0
    for s, n in enumerate(counts):
        for _ in range(n):
            out.append(k)
            k += 1
        if (s + 1) % NS == 0 or s + 1 == len(counts):
            while len(out) % W:
                out.append(None)
    return out

def pairs(lib, ex, names, AB, counts, am1, am2, clip, deriv, screen):
    """a struct simint_multi_shellpair with symbolic contents"""
    lay = layout(counts, lib.W, lib.NS)
    f = {}
    al = 8 * lib.W if lib.W > 1 else 16
    for fld, nm in names.items():
        if fld in ('alpha2', 'beta2') and ('MSP', fld) not in lib.off:
            continue
        if fld == 'screen' and not screen:
            f['screen'] = 0
            continue
        pad = T.const(PADV.get(fld, 0))
        vals = [pad if k is None else T.var('%s@%d' % (nm, k)) for k in lay]
        f[fld] = ex.array(vals, align=max(al, 64), name=nm, ro=True)
    for i, x in enumerate('xyz'):
        f['AB_' + x] = ex.array([T.var('%s%s@%d' % (AB, x, s)) for s in range(len(counts))], name=AB + x, ro=True)
    f['nprim12'] = ex.iarray(list(counts), name='nprim12', ro=True)
    f['screen_max'] = screen if screen else T.var(AB + 'screen_max_unset')
    p = lib.msp(ex, am1=am1, am2=am2, nprim=sum(counts), nshell12=len(counts), nshell12_clip=clip, **f)
    return p

def nout(q, deriv):
    n = 12 if deriv else 1
    for l in q:
        n *= ncart(l)
    return n

def cartlist(q, order=psi4_order):
    cs = [order(l) for l in q]
    return [(a, b, c, d) for a in cs[0] for b in cs[1] for c in cs[2] for d in cs[3]]

def goals(sy, q, deriv, bc, kc, order=psi4_order):
    g = []
    cl = cartlist(q, order)
    for s in range(bc):
        for t in range(kc):
            ctx = sy.sctx(s, t)
            for abcd in cl:
                if deriv:
                    for cen in range(4):
                        for i in range(3):
                            g.append(('D', cen, i, abcd, ctx))
                else:
                    g.append(('1', abcd + (0,), ctx))
    return g

class Run:
    pass

def setup(lib, q, deriv=0, bra=(1,), ket=(1,), bc=None, kc=None, screen=None, work=None, mods=None, stop=('boys_F_split',), slack=0, intercept=None):
    """executor, arguments and output array for kernel q"""
    bc = len(bra) if bc is None else bc
    kc = len(ket) if kc is None else kc
    if mods is None:
        mods = lib.link([lib.kfile(q, deriv)], stop=stop)
    ic = {}
    uf = kern.boys_uf(lib.W)
    for s in ('boys_F_split', 'boys_F_split_small_n', 'boys_F_split_large_n'):
        if s in stop:
            ic[s] = uf
    ic.update(intercept or {})
    ex = irx.Exec(mods, intercept=ic)
    r = Run()
    r.ex, r.q, r.deriv, r.bra, r.ket, r.bc, r.kc, r.lib = ex, q, deriv, bra, ket, bc, kc, lib
    scb = sck = None
    if screen:
        scb, sck = T.var('SPmax'), T.var('SQmax')
    r.P = pairs(lib, ex, BRAN, 'AB', bra, q[0], q[1], bc, deriv, scb)
    r.Q = pairs(lib, ex, KETN, 'CD', ket, q[2], q[3], kc, deriv, sck)
    r.tol = T.var('tol') if screen else T.ZERO
    al = max(8 * lib.W, 16)
    r.work = ex.new(work if work is not None else 8 * 4000000, 64, 'work array')
    r.nper = nout(q, deriv)
    r.n = r.nper * bc * kc
    r.out = ex.new(8 * (r.n + slack), 64, 'output array')
    return r

def execute(r, fn=None):
    ex = r.ex
    r.ret = ex.call(fn or kern.kname(r.q, r.deriv), r.P, r.Q, r.tol, ex.addr(r.work), ex.addr(r.out))
    r.res = [ex.rd(ex.addr(r.out), i) for i in range(r.n)]
    return r
