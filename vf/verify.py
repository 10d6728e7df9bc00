"""Verification of one function against its contract: all paths, all alias partitions."""
import z3, time, os, sys, json, traceback
from .ir import Unsupported
from .core import *
from .loops import Loops
from . import spec as S

class Result:
    def __init__(self, name):
        self.name = name
        self.obs = {}        # (label, cls, line) -> dict
        self.unsupported = []
        self.paths = 0
        self.exits = 0
        self.solver_time = 0.0
        self.wall = 0.0
        self.assumed = set(); self.called = set(); self.inlined = set()
        self.invs = {}
        self.partitions = 0
        self.file = None
        self.aborted = 0
    def to_json(self):
        return dict(name=self.name, obs=list(self.obs.values()), unsupported=self.unsupported, paths=self.paths, exits=self.exits,
                    solver_time=round(self.solver_time, 3), wall=round(self.wall, 3), assumed=sorted(self.assumed), called=sorted(self.called),
                    inlined=sorted(self.inlined), invs=self.invs, partitions=self.partitions, file=self.file)

class VRun:
    def __init__(self, prog, sp, fn, res, ob_timeout=8000, limit=240, maxpaths=3000):
        self.prog, self.sp, self.fn, self.res = prog, sp, fn, res
        slow = ob_timeout > 8000
        self.feas_timeout = (100 if not slow else 1000) if sp.lean else 1500
        self.nodiv = {}
        self.rlimit = 3000000 if not slow else 30000000
        self.qcache = {}
        self.feas_short = self.feas_timeout if sp.lean else 250
        self.unknowns = 0
        self.ob_timeout = ob_timeout
        self.max_steps = 60000
        self.check_overflow = False
        self.solver_time = 0.0
        self.called, self.assumed, self.inlined = res.called, res.assumed, res.inlined
        self.limit = limit
        self.maxpaths = maxpaths
        self.deadline = time.time() + limit
    def push(self, d):
        self.work.append(d)
    def covered_entry(self, c):
        pass
    def covered_exit(self, c):
        t0 = time.time()
        r = c.solver.check()
        self.solver_time += time.time() - t0
        if r != z3.unsat:
            self.exits += 1
    def obligation(self, c, cond, label, cls):
        if time.time() > self.deadline:
            raise Unsupported('time limit')
        if self.discovery:
            return
        key = (label, cls, c.line)
        o = self.pobs.setdefault(key, dict(fn=self.res.name, label=label, cls=cls, line=c.line, n=0, status='proved', time=0.0, backend=None, detail=None, loopy=False))
        o['n'] += 1
        if cond is True:
            o['backend'] = o['backend'] or 'simplifier'
            return
        t0 = time.time()
        st, be, model = self.solve(c, cond)
        dt = time.time() - t0
        o['time'] += dt
        self.solver_time += dt
        o['backend'] = be
        if st != 'proved':
            rank = {'proved': 0, 'unknown': 1, 'failed': 2}
            if rank[st] > rank[o['status']] or (o['loopy'] and not c.loopy and rank[st] >= rank[o['status']]):
                o['status'] = st
                o['loopy'] = c.loopy
                o['detail'] = dict(path=[list(map(str, t)) for t in c.trace[-40:]], model=model, partition=self.part)
    def solve(self, c, cond):
        neg = z3.BoolVal(True) if cond is False else z3.Not(cond)
        if c.gsolver is not None and cond is not False:
            from . import relax
            if relax.portfolio(c.solver.assertions(), cond, 10*self.rlimit, text=self.sp.text):
                return 'proved', 'z3', None
        s = c.solver
        s.push(); s.add(neg)
        s.set('timeout', 800)
        r = s.check()
        model = None
        if r == z3.sat:
            model = self.model_str(s.model())
        s.pop()
        s.set('timeout', self.feas_timeout)
        if r == z3.unsat:
            return 'proved', 'z3', None
        if r == z3.sat:
            return 'failed', 'z3', model
        from . import relax
        if relax.linear_unsat(c, neg):
            return 'proved', 'z3-linear', None
        # fresh solver
        s2 = z3.Solver()
        s2.set('timeout', self.ob_timeout)
        for f in c.pcs:
            s2.add(f)
        s2.add(neg)
        r = s2.check()
        if r == z3.unsat:
            return 'proved', 'z3-fresh', None
        if r == z3.sat:
            return 'failed', 'z3-fresh', self.model_str(s2.model())
        if relax.prove_unsat(c.pcs, neg, self.ob_timeout):
            return 'proved', 'z3-nra', None
        r = self.cvc5(s2)
        if r == 'unsat':
            return 'proved', 'cvc5', None
        return 'unknown', 'z3+cvc5', None
    def cvc5(self, s):
        import subprocess, tempfile
        txt = s.to_smt2()
        if len(txt) > 3000000:
            return 'unknown'
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % self.ob_timeout, '--nl-ext-tplanes', '-'], input='(set-logic ALL)\n' + txt,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=self.ob_timeout/1000 + 5)
            return p.stdout.split('\n')[0].strip()
        except Exception:
            return 'unknown'
    def model_str(self, m):
        out = []
        for d in m.decls():
            if d.arity() == 0:
                t = str(m[d])
                if len(t) < 120:
                    out.append('%s = %s' % (d.name(), t))
        return sorted(out)[:120]
    def run(self):
        res = self.res
        t0 = time.time()
        parts = S.partitions(self.sp)
        res.partitions = len(parts)
        for part in parts:
            self.part = part
            try:
                self.run_partition(part)
            except Unsupported as e:
                res.unsupported.append('%s%s: %s' % (res.name, ('' if not part else ' ' + str(part)), e))
            for k, o in self.pobs.items():
                if k in res.obs:
                    p = res.obs[k]
                    p['n'] += o['n']; p['time'] += o['time']
                    rank = {'proved': 0, 'unknown': 1, 'failed': 2}
                    if rank[o['status']] > rank[p['status']] or (rank[o['status']] == rank[p['status']] and p['loopy'] and not o['loopy']):
                        for f in ('status', 'detail', 'loopy', 'backend'):
                            p[f] = o[f]
                else:
                    res.obs[k] = o
        res.solver_time = self.solver_time
        res.wall = time.time() - t0
        return res
    def run_partition(self, part):
        self.loops = Loops(self.sp.templates)
        self.pobs = {}
        from .core import loops_of
        self.discovery = bool(loops_of(self.fn))
        for attempt in range(80):
            self.pobs = {}
            self.exits = 0
            self.work = [[]]
            self.loops.new_pass()
            n = 0
            try:
                while self.work:
                    if time.time() > self.deadline:
                        raise Unsupported('time limit')
                    d = self.work.pop()
                    n += 1
                    if n > self.maxpaths:
                        raise Unsupported('too many paths')
                    c = Ctx(self.prog, self, d)
                    try:
                        S.run_body(c, self.sp, self.fn, part)
                    except (PathEnd, Infeasible):
                        pass
                    except CxxThrow as e:
                        S.on_throw(c, self.sp, e)
                    except Unsupported as e:
                        # an unsupported path is only a problem when it is feasible
                        if c.solver.check() == z3.unsat:
                            continue
                        e.args = ('%s (line %s)' % (e, c.line),)
                        raise
                if self.discovery:
                    # the invariants are stable: now generate and discharge the obligations
                    self.discovery = False
                    continue
                break
            except Restart:
                self.discovery = True
                continue
        else:
            raise Unsupported('loop invariants did not stabilise')
        self.res.paths += n
        self.res.exits += self.exits
        for k, v in self.loops.invs.items():
            self.res.invs['%s@%s' % k] = v

def verify(prog, sp, **kw):
    fn = prog.find(sp.symbol)
    res = Result(sp.name)
    if fn is None:
        res.unsupported.append('%s: no definition found' % sp.name)
        return res
    fn.module.body(fn.name)
    res.file = fn.module.rel
    v = VRun(prog, sp, fn, res, **kw)
    v.pobs = {}
    try:
        v.run()
    except Unsupported as e:
        res.unsupported.append('%s: %s' % (sp.name, e))
    except Exception as e:
        res.unsupported.append('%s: internal error %s' % (sp.name, traceback.format_exc()[-1500:]))
    return res
