"""D02: Boys table look-ups never leave the table."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, boys

def body(c):
    src = build.source(1, 1, 1)
    L = boys.libs(src, ('scalar', 'sse', 'avx', 'avx2', 'commonavx512', 'micavx512', 'asimd', 'sve', 'sse-novector'))
    c.coverage.update(boys.run_orders(c, L, range(boys.MAXREQ + 1), 'D02', c.left() - 40))
    # vacuity: an order whose columns do not exist must be refused
    lib = L[0][1]
    import prove
    st = prove.Stats()
    bad = [f for n in (32,) for r, f, p, s in boys.orders_paths(lib, n, st) if f is not None]
    if not bad:
        c.inc('vacuity: order 32 was accepted')
    c.coverage['vacuity'] = 'order 32, which the tables do not support, is reported: %s' % (bad[0] if bad else '')
    c.coverage['bounds'] = 'orders 0 to %d; every argument >= 0 per lane (the index is over-approximated with a relative error of 2^-50 for its rounding); vector builds %s (beyond 4 lanes: even and odd lanes on common sides of the switching point)' % (boys.MAXREQ, ', '.join(t for t, l in L))
    c.assumptions += ['arguments are numbers (no NaN)', 'comparisons of doubles are exact; index expressions are evaluated with a relative error below 2^-50']
check.main('D02', body)
