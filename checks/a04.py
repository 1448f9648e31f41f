"""A04: the vector builds compute the same integrals in every lane."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import check, build, kern, kernels

VECS = ['sse', 'avx', 'avx2', 'commonavx512', 'micavx512', 'asimd', 'sve']
def body(c):
    src = build.source(2, 2, 1)
    ext = build.source(2, 2, 1, ve=0, vg=5, he=0, hg=20)
    inl = build.source(2, 2, 1, ve=20, vg=20, he=20, hg=20)
    jobs = []
    for vec in VECS:
        for cfg, s in (('general', src), ('external', ext), ('inline', inl)):
            lib = kern.Lib(s, vec)
            W = lib.W
            shapes = [((1,), (W + 1,)), ((2,), (1, W - 1, 1)), ((1, 1), (W - 1, 2))]
            qs = kernels.quartets(1) + [(2, 0, 2, 0), (2, 1, 1, 0), (0, 2, 0, 2), (2, 2, 0, 0), (0, 0, 1, 2), (1, 1, 2, 2)]
            for n, q in enumerate(qs):
                for d in (0, 1):
                    if d and not c.thorough and sum(q) > 4:
                        continue
                    for k, (b, t) in enumerate(shapes):
                        if c.thorough or (n + k + d) % 3 == 0 and (sum(q) < 4 or (n + len(vec)) % 3 == 0):
                            jobs.append(dict(lib=lib, q=q, deriv=d, cfg=cfg, bra=b, ket=t))
    # compilers without clang's extensions take other branches of the headers
    for vec in VECS:
        lib = kern.Lib(src, vec, extra=('-U__clang__', '-U__GNUC__') if c.thorough else ('-U__clang__',))
        for q, d in (((0, 0, 0, 0), 0), ((1, 0, 1, 0), 1), ((1, 1, 1, 1), 0)):
            jobs.append(dict(lib=lib, q=q, deriv=d, cfg='gcc', bra=(2,), ket=(lib.W - 1, 2)))
    if not c.thorough:
        jobs = kernels.thin(jobs, 0.8, 4)
    c.coverage.update(kernels.run_jobs(c, jobs, c.left() - 60))
    c.coverage['bounds'] = 'builds %s; general, external and inline recurrences with l <= 2; kets that straddle vectors (W+1 | 1,W-1,1 | W-1,2 primitives); every lane symbolic' % ', '.join(VECS)
    c.assumptions += kernels.ASSUME + ["ASIMD and SVE builds (512 bits): the instructions are definitions in lib/arm that follow the Arm C language extensions; the library's headers and code over them are real"]
check.main('A04', body)
