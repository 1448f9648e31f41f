"""A05: batches of shell pairs, contraction and clipping."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, kern, kernels

def body(c):
    rnd = random.Random(c.seed)
    jobs = []
    trees = [('general', build.source(2, 2, 1)), ('inline', build.source(2, 2, 1, ve=20, vg=20, he=20, hg=20))]
    vecs = ['scalar', 'sse', 'avx2'] + (['avx', 'commonavx512', 'asimd', 'sve'] if c.thorough else [])
    for cfg, s in trees:
        for vec in vecs:
            lib = kern.Lib(s, vec)
            W, NS = lib.W, lib.NS
            one = lambda n: tuple([1] * n)
            odd = lambda n: tuple(1 + (i % 3 == 1) for i in range(n))
            shapes = [  # bra, ket, bra clip, ket clip
                (one(NS + 1), (2,), None, None),           # bra pairs behind a padded batch
                ((2,) + one(NS), one(2), None, None),
                ((1,), one(NS + 1), None, None),           # two batches on the ket side
                ((1,), odd(NS + 2), None, None),
                ((1, 2), (3,) + one(NS), None, NS + 1),
                ((2, 1, 1), (2, 1, 2), 2, 1),              # clipped on both sides
                ((1, 1), odd(NS + 1), 1, NS),
                ((1,), (1, W + 1, 2), None, 2),
                ((W + 2,), (2 * W + 1,), None, None),
                ((1, 3), (W, W), None, None),
            ]
            if c.thorough:
                for _ in range(6):
                    b = tuple(rnd.randint(1, 3) for _ in range(rnd.randint(1, NS + 1)))
                    k = tuple(rnd.randint(1, W + 1) for _ in range(rnd.randint(1, NS + 1)))
                    shapes.append((b, k, rnd.randint(1, len(b)), rnd.randint(1, len(k))))
            qs = [((0, 0, 0, 0), 0), ((1, 0, 0, 0), 0), ((0, 0, 1, 0), 0), ((0, 1, 0, 0), 0), ((1, 1, 0, 1), 0), ((1, 0, 1, 0), 0), ((0, 0, 0, 0), 1), ((0, 0, 1, 0), 1), ((1, 1, 1, 0), 1), ((2, 0, 1, 0), 0), ((0, 2, 0, 1), 0)]
            for n, (q, d) in enumerate(qs):
                for k, (b, t, bc, kc) in enumerate(shapes):
                    if c.thorough or k == 0 or (sum(q) + d <= 1) or (n + k) % 3 == 0:
                        jobs.append(dict(lib=lib, q=q, deriv=d, cfg=cfg, bra=b, ket=t, bc=bc, kc=kc))
    c.coverage.update(kernels.run_jobs(c, jobs, c.left() - 60))
    c.coverage['bounds'] = 'up to SIMINT_NSHELL_SIMD+2 shell pairs per side with up to 2W+1 primitives, clips; builds %s' % ', '.join(vecs)
    c.assumptions += kernels.ASSUME
check.main('A05', body)
