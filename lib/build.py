"""Builds everything a check needs from /repo's working tree, in a scratch
directory that is removed at exit."""
import resource, os, sys, subprocess, tempfile, shutil, atexit, re

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SKEL = os.path.join(REPO, 'skel')
AMC = 'spdfghiklmnoqrtuvwxyzabceSPDFGHIKLMNOQRTUVWXYZABCE0123456789'

def unlimit():
    """programs that are started do not inherit the memory limit of a worker"""
    h = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (h, h))

class BuildError(Exception):
    pass

_scratch = [None]
def scratch():
    if _scratch[0] is None:
        base = os.environ.get('TMPDIR', '/tmp')
        d = tempfile.mkdtemp(prefix='simint-verif-', dir=base)
        _scratch[0] = d
        pid = os.getpid()
        def clean():
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    return _scratch[0]

def put(path, text):
    """writes a file at once (several workers may do so)"""
    t = '%s.%d' % (path, os.getpid())
    with open(t, 'w') as f:
        f.write(text)
    os.replace(t, path)

def run(cmd, cwd=None, env=None, timeout=800, check=True, inp=None):
    e = dict(os.environ)
    e.update(CC='gcc', CXX='g++', FC='gfortran', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', LC_ALL='C')
    for k in ('CFLAGS', 'CXXFLAGS', 'FFLAGS', 'LDFLAGS', 'CMAKE_BUILD_TYPE'):
        e.pop(k, None)
    if env:
        e.update(env)
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=inp, preexec_fn=unlimit)
    if check and r.returncode != 0:
        raise BuildError('%s\n%s\n%s' % (' '.join(map(str, cmd)), r.stdout.decode(errors='replace')[-3000:], r.stderr.decode(errors='replace')[-3000:]))
    return r

_gen = {}
def generator(ordering=None):
    """directory with the generator programs, built from /repo/generator"""
    d = _gen.get(ordering)
    if d:
        return d
    b = os.path.join(scratch(), 'gen' + (ordering or ''))
    cmd = ['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=None', '-DCMAKE_CXX_FLAGS=-O1', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5']
    if ordering:
        cmd.append('-DSIMINT_ORDERING=' + ordering)
    run(cmd)
    run(['ninja', '-C', b])
    _gen[ordering] = os.path.join(b, 'generator', 'ostei')
    return _gen[ordering]

FILTER = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
/* stands in for one generator program: runs it for the listed quartets only */
int main(int argc, char **argv)
{
    char key[64] = "", *out = NULL, line[64];
    for (int i = 1; i < argc; i++)
    {
        if (!strcmp(argv[i], "-q") && i + 4 < argc)
            snprintf(key, sizeof key, "%s %s %s %s", argv[i+1], argv[i+2], argv[i+3], argv[i+4]);
        if (!strcmp(argv[i], "-o") && i + 1 < argc)
            out = argv[i+1];
    }
    FILE *f = fopen(LIST, "r");
    while (f && fgets(line, sizeof line, f))
    {
        line[strcspn(line, "\n")] = 0;
        if (!strcmp(line, key))
            key[0] = 0;
    }
    if (key[0] == 0 || out == NULL || (f = fopen(out, "w")) == NULL)
    {
        argv[0] = PROG;
        execv(PROG, argv);
        return 99;
    }
    fclose(f);
    return 0;
}
"""

def filtered(g, only, d):
    """a directory of generator programs that create empty files for all but the listed (quartet, derivative)"""
    os.makedirs(d)
    for p, dv in (('ostei_generator', 0), ('ostei_deriv1_generator', 1)):
        put('%s/%s.list' % (d, p), ''.join('%d %d %d %d\n' % q for q, v in only if v == dv))
        put('%s/%s.c' % (d, p), FILTER)
        run(['gcc', '-O1', '-w', '-DLIST="%s/%s.list"' % (d, p), '-DPROG="%s/%s"' % (g, p), '%s/%s.c' % (d, p), '-o', '%s/%s' % (d, p)])
    for p in ('ostei_hrr_generator', 'ostei_vrr_generator'):
        os.symlink(os.path.join(g, p), os.path.join(d, p))
    return d

_src = {}
def source(l=2, p=2, d=1, ve=0, vg=0, he=0, hg=0, ordering=None, only=None):
    """create.py's output for one set of options; only: kernels [(quartet, derivative)]
    whose files are wanted (the others are empty)"""
    key = (l, p, d, ve, vg, he, hg, ordering)
    if only is not None:
        only = tuple(only)
        key += ('only%d' % len(_src), only)
    k0 = key
    if only is not None:
        for k in _src:
            if k[:8] == key[:8] and k[-1] == only:
                return _src[k]
        key = key[:-1]
    elif key in _src:
        return _src[key]
    out = os.path.join(scratch(), 'src-' + '-'.join(map(str, key)))
    g = generator(ordering)
    if only is not None:
        g = filtered(g, only, out + '.gen')
    cmd = ['python3', os.path.join(REPO, 'create.py'), '-n', '8', '-g', g, '-l', str(l), '-p', str(p), '-d', str(d)]
    for n, v in (('-ve', ve), ('-vg', vg), ('-he', he), ('-hg', hg)):
        if v:
            cmd += [n, str(v)]
    r = run(cmd + [out])
    with open(out + '.log', 'wb') as f:
        f.write(r.stdout)
    _src[k0] = out
    return out

WIDTH = {'scalar': 1, 'sse': 2, 'avx': 4, 'avx2': 4, 'commonavx512': 8, 'micavx512': 8}
MFLAGS = {'scalar': [], 'sse': ['-msse2'], 'avx': ['-mavx'], 'avx2': ['-mavx2', '-mfma'],
          'commonavx512': ['-mavx512f', '-mavx512cd', '-mavx512dq', '-mavx512bw', '-mavx512vl', '-mfma'],
          'micavx512': ['-mavx512f', '-mavx512cd', '-mfma'],
          # Arm builds: the library's headers over definitions of the instructions
          'asimd': ['-isystem', os.path.join(HERE, 'arm')], 'sve': ['-isystem', os.path.join(HERE, 'arm'), '-mavx512f', '-mavx512dq']}

import threading
_lock = threading.Lock()
def incdir(src, vec, maxam=None, maxder=None):
    with _lock:
        return _incdir(src, vec, maxam, maxder)

def _incdir(src, vec, maxam, maxder):
    """an include directory with the configured headers (what cmake would configure)"""
    b = os.path.join(scratch(), "inc-%s-%s-%s-%s" % (os.path.basename(src), vec, maxam, maxder))
    final = b
    if os.path.isdir(final):
        return final
    b = '%s.tmp%d' % (b, os.getpid())
    os.makedirs(b + '/simint/vectorization')
    with open(os.path.join(src, 'simint/vectorization/vector_config.h.in')) as f:
        t = f.read()
    t += '#define SIMINT_' + vec.upper() + '\n'
    os.makedirs(b + "/simint/ostei", exist_ok=True)
    with open(os.path.join(src, "simint/ostei/ostei_config.h.in")) as f:
        c = f.read()
    mav = open(os.path.join(src, "cmake/MaxAvailable.cmake")).read()
    l = re.search(r"MAXAM_AVAILABLE (\d+)", mav).group(1) if maxam is None else str(maxam)
    d = re.search(r"MAXDER_AVAILABLE (\d+)", mav).group(1) if maxder is None else str(maxder)
    c = c.replace("@SIMINT_MAXAM@", l).replace("@SIMINT_MAXDER@", d)
    with open(b + "/simint/ostei/ostei_config.h", "w") as f:
        f.write(c)
    with open(b + '/simint/vectorization/vector_config.h', 'w') as f:
        f.write(t)
    return settle(b, final)

def settle(tmp, final):
    """a finished directory gets its name; another worker may have been faster"""
    try:
        os.rename(tmp, final)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return final

BASEPASSES = 'always-inline,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,early-cse)'

def ll(cfile, src, vec='scalar', extra=(), passes=BASEPASSES, inc=None):
    """LLVM IR text of one C file of the generated tree"""
    inc = inc or incdir(src, vec)
    p1 = subprocess.Popen(['clang-18', '-O1', '-Xclang', '-disable-llvm-passes', '-std=gnu11', '-ffp-contract=off', '-Wno-everything',
                           '-I' + inc, '-I' + src] + MFLAGS[vec] + list(extra) + ['-S', '-emit-llvm', cfile, '-o', '-'],
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    p2 = subprocess.Popen(['/usr/bin/opt', '-S', '-passes=' + passes], stdin=p1.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    p1.stdout.close()
    out, e2 = p2.communicate()
    e1 = p1.stderr.read()
    p1.wait()
    if p1.returncode or p2.returncode:
        raise BuildError('clang/opt %s: %s %s' % (cfile, e1.decode()[-2000:], e2.decode()[-2000:]))
    return out.decode()

def native(cfiles, src, out, vec='scalar', flags=(), inc=None, cc='gcc'):
    """shared library for replays, compiled the way users do (gcc -O2)"""
    inc = inc or incdir(src, vec)
    run([cc, '-O2', '-g', '-std=gnu11', '-fPIC', '-shared', '-w', '-fopenmp', '-I' + inc, '-I' + src] + MFLAGS[vec] + list(flags) + list(cfiles) + ['-o', out, '-lm', '-lmvec'])
    return out

_off = {}
def offsets(src, vec='scalar', inc=None):
    """field offsets of the library's structures, obtained from the compiler"""
    key = (src, vec, inc)
    if key in _off:
        return _off[key]
    f1 = 'am nprim x y z alpha coef memsize ptr'.split()
    f2 = 'am1 am2 nprim nshell12 nshell12_clip nprim12 AB_x AB_y AB_z x y z PA_x PA_y PA_z PB_x PB_y PB_z alpha alpha2 beta2 prefac screen screen_max memsize ptr'.split()
    c = '#include <stddef.h>\n#include "simint/shell/shell.h"\n#include "simint/vectorization/vectorization.h"\n'
    c += 'const size_t K_SHELL_size = sizeof(struct simint_shell);\nconst size_t K_MSP_size = sizeof(struct simint_multi_shellpair);\n'
    c += 'const size_t K_C_SIMD_LEN = SIMINT_SIMD_LEN;\nconst size_t K_C_NSHELL_SIMD = SIMINT_NSHELL_SIMD;\n'
    for f in f1:
        c += 'const size_t K_SHELL_%s = offsetof(struct simint_shell, %s);\n' % (f, f)
    for f in f2:
        if f in ('alpha2', 'beta2'):
            c += '#if SIMINT_OSTEI_MAXDER > 0\n'
        c += 'const size_t K_MSP_%s = offsetof(struct simint_multi_shellpair, %s);\n' % (f, f)
        if f in ('alpha2', 'beta2'):
            c += '#endif\n'
    p = os.path.join(scratch(), 'off%d-%d.c' % (os.getpid(), len(_off)))
    with open(p, 'w') as fo:
        fo.write(c)
    t = ll(p, src, vec, inc=inc, passes='globaldce')
    out = {}
    for m in re.finditer(r'@K_(SHELL|MSP|C)_(\w+) = .*constant i64 (\d+)', t):
        out[(m.group(1), m.group(2))] = int(m.group(3))
    _off[key] = out
    return out
