"""Path exploration: runs a symbolic execution once per feasible path."""
import time
import z3
import irx, prove, terms as T

class TooManyPaths(Exception):
    pass

class Infeasible(Exception):
    pass

class Explorer:
    """run(decider) is called once per path; the decider asks z3 which outcomes of
    a branch condition the path condition (with hyps) admits"""
    def __init__(self, hyps, stats, maxpaths=2000, timeout=20000, deadline=None):
        self.hyps, self.st, self.maxpaths, self.timeout = list(hyps), stats, maxpaths, timeout
        self.paths = 0
        self.forced = 0
        self.pruned = 0
        self.deadline = deadline

    def z(self, c):
        z = prove.Z()
        e = z.tr(c, lambda t: None)
        return e, z.side

    def sat(self, s, *e):
        t = time.time()
        r = s.check(*e)
        self.st.queries += 1
        self.st.time += time.time() - t
        if r == z3.unknown:
            n = z3.Tactic('qfnra-nlsat').solver()
            n.set('timeout', self.timeout)
            n.add(s.assertions())
            n.add(*e)
            t = time.time()
            r = n.check()
            self.st.queries += 1
            self.st.time += time.time() - t
            if r == z3.unknown:
                self.st.unknown += 1
        return r != z3.unsat

    def explore(self, run):
        """yields (value, path) where path = list of (term, outcome) of the decisions
        with two feasible outcomes"""
        stack = [[]]
        while stack:
            pre = stack.pop()
            self.paths += 1
            if self.paths > self.maxpaths or (self.deadline and time.time() > self.deadline):
                raise TooManyPaths('%d paths' % self.paths)
            s = z3.Solver()
            s.set('timeout', self.timeout)
            s.add(*self.hyps)
            self.s = s
            path, trace = [], []
            known = {}
            def decide(ex, c):
                if c.id in known:
                    return known[c.id]
                e, side = self.z(c)
                s.add(*side)
                if len(trace) < len(pre):
                    # the decisions of an earlier run, forced ones included
                    out, forked = pre[len(trace)]
                else:
                    t, f = self.sat(s, e), self.sat(s, z3.Not(e))
                    if not (t or f):
                        raise Infeasible()
                    out, forked = (False, True) if t and f else (t, False)
                    if forked:
                        stack.append(trace + [(True, True)])
                    else:
                        self.forced += 1
                trace.append((out, forked))
                known[c.id] = out
                if forked:
                    path.append((c, out))
                    s.add(e if out else z3.Not(e))
                return out
            try:
                v = run(decide)
            except Infeasible:
                self.pruned += 1
                continue
            yield v, path, s
