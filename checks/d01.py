"""D01: Boys function values are accurate over the whole range."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, boys, prove
from fractions import Fraction

def body(c):
    src = build.source(1, 1, 1)
    L = boys.libs(src, ('scalar', 'sse', 'avx2', 'commonavx512', 'sse-novector') + (('avx', 'micavx512', 'asimd', 'sve', 'avx2-novector') if c.thorough else ()))
    # vacuity: a value that is off by 2e-11 (relative) must be refused
    st = prove.Stats()
    d = boys.Decider(st)
    import terms as T
    n = 3
    class R: pass
    x = T.var('x0')
    import mpmath
    a = Fraction(15, 16) * boys.rat(mpmath.sqrt(mpmath.pi)) * (1 + Fraction(2, 10 ** 11))
    w = T.div(T.ONE, x)
    t = T.mul(T.const(a), T.mul(T.sqrt(w), T.mul(w, T.mul(w, w))))
    if d.long(None, t, 0, 3, Fraction(73, 2)) is None:
        c.inc('vacuity: a wrong factor was accepted')
    c.coverage['vacuity'] = 'a long-range factor that is off by 2e-11 is refused'
    c.coverage.update(boys.run_orders(c, L, range(boys.MAXREQ + 1 if not c.thorough else 32), 'D01', c.left() - 40))
    c.coverage['bounds'] = 'orders 0 to %d; every table cell with a symbolic position inside it; every argument from the switching point on; vector builds %s (beyond 4 lanes: even and odd lanes on common sides of the switching point)' % (31 if c.thorough else boys.MAXREQ, ', '.join(t for t, l in L))
    c.assumptions += ['exact real arithmetic on the compiled code, with the table and constants as the rounded doubles they are: the value evaluated directly is within 9e-12, a recursion step adds at most 4e-15; rounding of the operations is left the remaining 8e-13',
                      'reference: Taylor series of the exact function about the cell centers with mpmath values (50 digits) and bounded remainder; upward recursion with bounds on exp(-x) and erfc for the long range',
                      'exp is the exact exponential function']
check.main('D01', body)
