#!/opt/veriftools/pyvenv/bin/python
"""run.py <property>: verifies the contracts that decide the property against /repo's current sources, looks for
concrete failing inputs, writes evidence/<property>.json.  Exit 0: held.  Exit 1: VIOLATION line printed."""
import os, sys, time, json, subprocess, tempfile, shutil, multiprocessing, signal, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
T0 = time.time()
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = 'thorough' if (os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in sys.argv) else 'quick'

from vf import prog, verify, spec as S, props, hbuild, lib as L

OBT = 8000

def worker(a):
    name, limit = a
    signal.alarm(limit + 60)
    r = verify.verify(PROG, props.find(name), limit=limit, ob_timeout=OBT)
    return r.to_json()

def verify_all(names, limit):
    """every function in its own process"""
    out = {}
    ctx = multiprocessing.get_context('fork')
    pending = list(names)
    running = []
    while pending or running:
        while pending and len(running) < 8:
            n = pending.pop(0)
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(n, limit, wr))
            p.start(); wr.close()
            running.append((n, p, rd, time.time()))
        time.sleep(0.02)
        keep = []
        for n, p, rd, t in running:
            if rd.poll():
                try:
                    out[n] = rd.recv()
                except EOFError:
                    out[n] = dict(name=n, obs=[], unsupported=['%s: verifier process ended' % n], paths=0, exits=0, solver_time=0, wall=0, assumed=[], called=[], inlined=[], invs={}, partitions=0, file=None)
                p.join()
            elif not p.is_alive():
                out[n] = dict(name=n, obs=[], unsupported=['%s: verifier process died' % n], paths=0, exits=0, solver_time=0, wall=0, assumed=[], called=[], inlined=[], invs={}, partitions=0, file=None)
            elif time.time() - t > limit + 90:
                p.kill(); p.join()
                out[n] = dict(name=n, obs=[], unsupported=['%s: time limit' % n], paths=0, exits=0, solver_time=0, wall=0, assumed=[], called=[], inlined=[], invs={}, partitions=0, file=None)
            else:
                keep.append((n, p, rd, t))
        running = keep
    return out

def child(n, limit, wr):
    try:
        wr.send(worker((n, limit)))
    finally:
        wr.close()

class Hunt:
    """concrete search for failing inputs, several seeds in parallel"""
    def __init__(self, prop, work, budget, nproc):
        self.prop, self.work, self.budget, self.nproc = prop, work, budget, nproc
        self.procs = []
        self.err = None
        self.done = False
    def start(self):
        cfg = props.PROPS[self.prop]
        self.san = cfg.get('san', False)
        bins = hbuild.build(os.path.join(self.work, 'hb'), cfg['harness'], self.san)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:allocator_may_return_null=0', UBSAN_OPTIONS='print_stacktrace=1', LC_ALL='C')
        k = 0
        for h in cfg['harness']:
            n = max(1, self.nproc // len(cfg['harness']))
            for i in range(n):
                note = os.path.join(self.work, 'note%d' % k)
                out = open(os.path.join(self.work, 'out%d' % k), 'w+b')
                cmd = [bins[h], self.prop, str(SEED*1000 + i), str(self.budget), note]
                p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, env=env, cwd=self.work)
                self.procs.append((h, SEED*1000 + i, p, out, note))
                k += 1
    def finish(self):
        if self.done:
            return
        self.done = True
        self.cases = self.nontriv = 0
        self.undecided = 0
        self.fails = []
        self.samples = []
        end = time.time() + self.budget + 240
        for h, seed, p, out, note in self.procs:
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill(); p.wait()
                rc = None
            out.seek(0)
            t = out.read().decode('latin1')
            case = open(note, 'rb').read().decode('latin1').strip() if os.path.exists(note) else ''
            if case and len(self.samples) < 4:
                self.samples.append(case[:600])
            for l in t.splitlines():
                if l.startswith('CASES '):
                    f = l.split()
                    self.cases += int(f[1]); self.nontriv += int(f[3])
            if rc is None or rc == 77 or 'LeakSanitizer has encountered a fatal error' in t or 'failed to allocate' in t or 'out-of-memory' in t or 'allocation-size-too-big' in t or 'Unable to allocate' in t or rc == -9:
                self.undecided += 1
                continue
            if rc != 0:
                self.fails.append(dict(harness=h, seed=seed, exit=rc, output=t[-6000:], input=case))

def known_findings():
    p = os.path.join(HERE, 'known_findings.txt')
    kf = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING:'):
                kf.append(l)
    return kf

def main():
    global PROG
    prop = next(a for a in sys.argv[1:] if not a.startswith('-'))
    cfg = props.PROPS[prop]
    work = tempfile.mkdtemp(prefix='verif_%s_' % prop, dir=os.environ.get('VERIF_TMP', '/tmp'))
    try:
        rc = check(prop, cfg, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def check(prop, cfg, work):
    global PROG
    roots = props.roots(prop)
    budget = cfg.get('budget', 25) if TIER == 'quick' else cfg.get('thorough', 300)
    hunt = Hunt(prop, work, budget, 4 if roots else 8)
    hunt.start()
    ir_s = 0
    res = {}
    if roots:
        t = time.time()
        PROG = prog.Program(os.path.join(work, 'ir'), cxx=props.needs_cxx(roots))
        ir_s = time.time() - t
        limit = 150 if TIER == 'quick' else 600
        todo = list(roots)
        while todo:
            # the closure over contracted callees: their contracts are relied upon, so they are verified too
            res.update(verify_all(todo, limit))
            todo = sorted({c for r in res.values() for c in r['called'] if c in S.SPECS and not S.SPECS[c].assumed and c not in res and c in [x for x in S.SPECS]})
        # an obligation that was not discharged is tried again with more time, on an otherwise idle machine
        again = [n for n, r in res.items() if any(o['status'] != 'proved' for o in r['obs']) or any('time limit' in u for u in r['unsupported'])]
        if again:
            hunt.finish()
            global OBT
            OBT = 25000
            res.update(verify_all(again, 2*limit))
    rootset = {props.find(n).name for n in roots}
    byname = {r['name']: r for r in res.values()}
    obligations = discharged = 0
    bad, other, unsup, backends = [], [], [], {}
    vac = []
    for n, r in byname.items():
        if not r['unsupported'] and (r['exits'] == 0 or not r['obs']) and n in rootset:
            vac.append(n)
        unsup += r['unsupported']
        for o in r['obs']:
            obligations += o['n']
            if o['status'] == 'proved':
                discharged += o['n']
                backends[o['backend']] = backends.get(o['backend'], 0) + o['n']
            elif n in rootset and o['cls'] in cfg['cls']:
                bad.append(o)
            else:
                other.append(o)
    hunt.finish()
    # ------------------------------------------------------------------ verdict
    viol = []
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    rp = os.path.join(HERE, 'evidence', 'replay', prop + '.txt')
    known = [k for k in known_findings() if 'property=%s ' % prop in k]
    rc = 0
    if hunt.fails:
        f = hunt.fails[0]
        with open(rp, 'w') as g:
            g.write('property %s is violated by /repo\'s current sources\n\nfailing input:\n%s\n\noutput of harness/%s (seed %d, exit status %s):\n%s\n' % (prop, f['input'], f['harness'], f['seed'], f['exit'], f['output']))
            g.write('\nreproduce: python3-vt %s/vf/hbuild.py-built harness %s run as  <binary> %s %d %d <notefile>\n' % (HERE, f['harness'], prop, f['seed'], hunt.budget))
            for o in bad:
                g.write('\nfailed obligation: %s: %s (%s, line %s): %s\n' % (o['fn'], o['label'], o['cls'], o['line'], o['status']))
        for o in bad[:8]:
            print('failed obligation: %s: %s [%s] line %s (%s)' % (o['fn'], o['label'], o['cls'], o['line'], o['status']))
        print('failing input: ' + f['input'][:1000])
        print('\n'.join(l for l in f['output'].splitlines()[-12:]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
    elif bad:
        with open(rp, 'w') as g:
            g.write('property %s: obligations generated from /repo\'s current sources are not discharged\n' % prop)
            for o in bad:
                g.write('\nobligation: %s: %s\n class %s, line %s, verdict %s, back end %s\n%s\n' % (o['fn'], o['label'], o['cls'], o['line'], o['status'], o['backend'], json.dumps(o['detail'], indent=1)[:6000]))
            g.write('\n%d concrete cases were run against the real code without finding a failing input\n' % hunt.cases)
        for o in bad[:8]:
            print('failed obligation: %s: %s [%s] line %s (%s)' % (o['fn'], o['label'], o['cls'], o['line'], o['status']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        rc = 1
    for k in known:
        print(k)
    assumed = sorted({a for r in byname.values() for a in r['assumed']})
    inlined = sorted({a for r in byname.values() for a in r['inlined']})
    level = 'proof' if roots else 'exploration'
    cov = {}
    if roots:
        cov.update(obligations=obligations, discharged=discharged,
                   checker_cmd='python3-vt %s/run.py %s (z3 %s, cvc5 on demand) on LLVM IR that clang produces from /repo on every run' % (HERE, prop, __import__('z3').get_version_string()),
                   trusted_base=['clang-18 front end and mem2reg', 'the verifier vf/ (LLVM IR semantics, heap model)', 'z3 / cvc5'] + ['assumed contract: ' + a for a in assumed],
                   functions_under_contract={n: dict(file=r['file'], obligations=sum(o['n'] for o in r['obs']), discharged=sum(o['n'] for o in r['obs'] if o['status'] == 'proved'),
                                                     paths=r['paths'], reached_exits=r['exits'], alias_partitions=r['partitions'], wall_s=r['wall'], root=n in rootset) for n, r in sorted(byname.items())},
                   inlined_functions=inlined, backends=backends, solver_s=round(sum(r['solver_time'] for r in byname.values()), 2),
                   loop_invariants={n: r['invs'] for n, r in byname.items() if r['invs']},
                   not_discharged=[dict(fn=o['fn'], label=o['label'], cls=o['cls'], line=o['line'], status=o['status'], counts=o in bad) for o in bad + other][:60],
                   out_of_reach_this_run=[u[-400:] for u in unsup], vacuous=vac, ir_s=round(ir_s, 2))
    cov.update(evaluations=hunt.cases, distinct_nontrivial=hunt.nontriv,
               rule='bounded: random and boundary inputs of the replay programs %s, %d processes, %s s each; a case is non-trivial when it involves an irrational element, at least two roots, or a nonconstant polynomial' % (', '.join(cfg['harness']), len(hunt.procs), hunt.budget),
               samples=hunt.samples, inconclusive_processes=hunt.undecided)
    ass = ['FLINT functions behave as their assumed contracts state (vf/lib.py)', 'machine integers of type slong used as precisions, lengths and exponents do not overflow unless an obligation of class ovf says so',
           'functions listed under out_of_reach_this_run are covered by the bounded replay only'] if roots else ['bounded check only: no contract decides this property yet']
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=ass, wall_s=round(time.time() - T0, 2), violations=rc)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as g:
        json.dump(ev, g, indent=1)
    print('%s: %d functions under contract, %d/%d obligations discharged, %d out of reach, %d concrete cases, %.1f s' %
          (prop, len(byname), discharged, obligations, len(unsup), hunt.cases, time.time() - T0))
    return rc

if __name__ == '__main__':
    main()
