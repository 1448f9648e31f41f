"""Frame of a check: tiers, parallel tasks, evidence, known findings, verdict."""
import os, sys, json, time, pickle, select, signal, traceback, resource, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = time.time()

class Check:
    def __init__(self, pid, level='other'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.violations = []
        self.known = []
        self.inconclusive = []
        self.coverage = {}
        self.assumptions = []
        self.budget = float(os.environ.get('VERIF_BUDGET', '780' if self.tier == 'quick' else '7200'))
        self.findings = load_findings(pid)
        self.repdir = os.path.join(VERIF, 'evidence', 'replay')

    thorough = property(lambda s: s.tier == 'thorough')

    def left(self):
        return self.budget - (time.time() - T0)

    def log(self, *a):
        print('[%7.1f]' % (time.time() - T0), *a, flush=True)

    def violation(self, key, text, replay=None, ext='txt'):
        """key identifies the failing input, call site or history"""
        for k, what in self.findings:
            if k == key or (k.endswith('*') and key.startswith(k[:-1])):
                if k not in [x[0] for x in self.known]:
                    self.known.append((k, what))
                return
        os.makedirs(self.repdir, exist_ok=True)
        n = len(self.violations) + 1
        path = os.path.join(self.repdir, '%s-%d.%s' % (self.pid, n, ext))
        if n <= 20:
            with open(path, 'w') as f:
                f.write(replay if replay is not None else text + '\n')
        self.violations.append((key, text, path))
        self.log('violated:', key, '-', text.split('\n')[0][:300])

    def inc(self, what):
        self.inconclusive.append(what)
        if len(self.inconclusive) <= 20:
            self.log('inconclusive:', str(what)[:400])

    def finish(self):
        cov = dict(self.coverage)
        cov.setdefault('explanation', 'bounded symbolic execution of the compiled code, decided by an SMT solver')
        cov['inconclusive'] = len(self.inconclusive)
        cov['inconclusive_items'] = [str(x)[:300] for x in self.inconclusive[:20]]
        cov['known_findings'] = len(self.known)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - T0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
        os.replace(p + '.tmp', p)
        for k, what in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        if self.violations:
            for k, text, path in self.violations[:20]:
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
                print('  ' + text.replace('\n', '\n  ')[:1500])
            sys.stdout.flush()
            sys.exit(1)
        print('held: property=%s (%d inconclusive) %.1f s' % (self.pid, len(self.inconclusive), time.time() - T0))
        sys.stdout.flush()
        sys.exit(0)

def load_findings(pid):
    """KNOWN_FINDINGS: lines 'finding: property=<id> key=<key> <what fails>'"""
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
                if m and m.group(1) == pid:
                    out.append((m.group(2), m.group(3).strip()))
    return out

def main(pid, body, level='other'):
    """run body(check); errors of the check itself end with exit status 2"""
    c = Check(pid, level)
    try:
        body(c)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print('error: the check of %s did not complete' % pid)
        if c.violations:
            c.finish()
        sys.stdout.flush()
        sys.exit(2)
    c.finish()

def tasks(items, fn, jobs=8, deadline=None, tmo=None, memgb=8):
    """fn(item) in a forked process per item; yields (item, 'ok', value) or
    (item, 'error'|'timeout'|'killed', text) as they finish"""
    todo = list(items)[::-1]
    run = {}
    def start():
        it = todo.pop()
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for o in run.values():
                    try:
                        os.close(o[1])
                    except OSError:
                        pass
                os.setpgid(0, 0)
                resource.setrlimit(resource.RLIMIT_AS, (int(memgb * 2**30), resource.getrlimit(resource.RLIMIT_AS)[1]))
                sys.setrecursionlimit(20000)
                try:
                    v = ('ok', fn(it))
                except MemoryError:
                    v = ('killed', 'out of memory')
                except BaseException as e:
                    v = ('error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:]))
                data = pickle.dumps(v)
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        os.close(w)
        run[pid] = (it, r, [], time.time())
    try:
        while todo or run:
            while todo and len(run) < jobs and not (deadline and time.time() > deadline):
                start()
            if todo and not run:
                break
            fds = {o[1]: p for p, o in run.items()}
            rd, _, _ = select.select(list(fds), [], [], 1.0)
            for fd in rd:
                p = fds[fd]
                it, _, buf, ts = run[p]
                d = os.read(fd, 1 << 20)
                if d:
                    buf.append(d)
                    continue
                os.close(fd)
                _, st = os.waitpid(p, 0)
                del run[p]
                try:
                    v = pickle.loads(b''.join(buf))
                except Exception:
                    v = ('killed', 'worker ended with status %d' % st)
                yield it, v[0], v[1]
            now = time.time()
            for p in list(run):
                it, fd, buf, ts = run[p]
                if (tmo and now - ts > tmo) or (deadline and now > deadline + 5):
                    kill(p)
                    os.close(fd)
                    os.waitpid(p, 0)
                    del run[p]
                    yield it, 'timeout', '%.0f s' % (now - ts)
        for it in todo[::-1]:
            yield it, 'timeout', 'not started'
    finally:
        for p, o in run.items():
            kill(p)

def kill(p):
    for f in (os.killpg, os.kill):
        try:
            f(p, signal.SIGKILL)
        except OSError:
            pass
