"""A06: screening omits a primitive quartet only if its bound is below the tolerance."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, kern, kernels, screening

def body(c):
    src = build.source(2, 2, 1)
    inl = build.source(2, 2, 1, ve=20, vg=20, he=20, hg=20)
    jobs = []
    vecs = ['scalar', 'sse', 'avx2', 'commonavx512', 'asimd', 'sve'] + (['avx', 'micavx512'] if c.thorough else [])
    for cfg, s in (('general', src), ('inline', inl)):
        for vec in vecs:
            lib = kern.Lib(s, vec)
            W = min(lib.W, 4)   # more lanes only multiply equal tests
            shapes = [((1,), (W + 1,), None, None), ((2,), (1, 1), None, None), ((1, 1), (1,), None, None), ((1,), (1, W), None, None), ((1,), (W - 1 or 1, 2), None, 1)]
            if c.thorough:
                shapes += [((2,), (W + 1,), None, None), ((1,), (1, 1, W), None, None), ((1,), tuple([1] * (lib.NS + 1)), None, None)]
            qs = [((0, 0, 0, 0), 0), ((1, 0, 0, 0), 0), ((0, 0, 0, 1), 0), ((1, 0, 1, 1), 0), ((0, 0, 0, 0), 1), ((1, 0, 0, 1), 1)]
            if c.thorough:
                qs += [((2, 1, 1, 0), 0), ((0, 2, 2, 0), 0), ((1, 1, 1, 1), 1), ((0, 0, 2, 1), 1)]
            for n, (q, d) in enumerate(qs):
                for k, (b, t, bc, kc) in enumerate(shapes):
                    if cfg == 'inline' and (k + n) % 2 and not c.thorough:
                        continue
                    jobs.append(dict(lib=lib, q=q, deriv=d, cfg=cfg, bra=b, ket=t, bc=bc, kc=kc))
    r = screening.run_jobs(c, jobs, c.left() - 60)
    c.coverage.update(r)
    screening.entry(c, kern.Lib(src, 'scalar'))
    c.coverage['bounds'] = 'up to 2 bra primitives and W+1 ket primitives in up to 2 shell pairs per side; all outcomes of all comparisons with symbolic screening values, maxima and tolerance; builds %s' % ', '.join(vecs)
    c.assumptions += kernels.ASSUME + ['stored screening values are not negative and not above the stored maximum (B03)', 'padding has screening value 0 (B02)']
check.main('A06', body)
