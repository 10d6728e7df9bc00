"""Loop invariants.

A loop is cut at its header.  What the body modifies is discovered by comparing the state at
the back edge with the state at the header (and restarting when something new shows up);
exactly that is havocked.  The invariant is the largest inductive subset (Houdini) of a set
of candidates over the abstraction (values represented by elements, enclosures, integer
relations, Horner sums), so it does not depend on how the loop happens to be written.
Only what is proved on entry and re-proved on every back edge is ever assumed.
"""
import z3
from . import relax
from .ir import Unsupported
from .core import *
from .core import addoff, off_div
from . import lib as L
from .lib import Z, Ball, Arf, Mag, NfElem, NfCore, Fmpz, Mpz, same_val, term_eq, ball

class LS:
    pass

def snap(ctx):
    d = {}
    for k, r in ctx.regions.items():
        if r.kind == 'global' and r.const:
            continue
        d[k] = (r, dict(r.cells), r.vec, r.alive)
    return d

class Loops:
    def __init__(self, templates=None):
        self.mod = {}
        self.dead = {}
        self.visited = set()
        self.templates = templates
        self.invs = {}
    def new_pass(self):
        self.visited = set()

    # ---- candidates: list of (label, formula)
    def candidates(self, ctx, fr, key, ls):
        out = []
        # integer values
        ints = []
        for n in ls.phis:
            if ('phi', n) in self.mod[key]:
                v = fr.env[n]
                if isinstance(v, int) and not isinstance(v, bool) or (is_sym(v) and z3.is_int(v)):
                    ints.append((n, Z(v), ls.entry_phi[n]))
        for m in sorted(self.mod[key], key=str):
            if m[0] == 'cell' and m[1] in ctx.regions:
                c = ctx.regions[m[1]].cells.get(m[2])
                e = ls.entry_cell.get((m[1], m[2]))
                if c and e is not None and (isinstance(c[0], int) or (is_sym(c[0]) and z3.is_int(c[0]))) and not isinstance(e, Obj) and e is not UNDEF and not isinstance(e, Ptr):
                    ints.append(('%s+%s' % (m[1], m[2]), Z(c[0]), e))
                elif c and isinstance(c[0], Fmpz) and isinstance(e, Fmpz):
                    ints.append(('%s+%s' % (m[1], m[2]), Z(c[0].v), e.v))
        base = []
        for nm, t in ctx.ghost.get('ints', []):
            base.append((nm, Z(t)))
        ents = []
        for n, v, e in ints:
            if isinstance(e, int) or (is_sym(e) and z3.is_int(e)):
                ents.append((n, v, Z(e)))
        lean = ctx.sp.lean and ctx.sp.lean != 'ints'
        for n, v, e in ents if not lean else ():
            for k in (-1, 0, 1, 2):
                out.append(('%s >= %d' % (n, k), v >= k))
            out.append(('%s >= entry' % n, v >= e))
            out.append(('%s <= entry' % n, v <= e))
            for nm, t in base:
                out.append(('%s >= %s' % (n, nm), v >= t))
                out.append(('%s <= %s' % (n, nm), v <= t))
                out.append(('%s < %s' % (n, nm), v < t))
        for i in range(len(ents) if not lean else 0):
            for j in range(i):
                (n, v, e), (n2, v2, e2) = ents[i], ents[j]
                out.append(('%s-%s const' % (n, n2), v - v2 == e - e2))
                out.append(('%s+%s const' % (n, n2), v + v2 == e + e2))
                out.append(('%s <= %s' % (n, n2), v <= v2))
                out.append(('%s >= %s' % (n, n2), v >= v2))
        # enclosures
        for m in sorted(self.mod[key], key=str):
            if m[0] != 'cell' or m[1] not in ctx.regions:
                continue
            reg = ctx.regions[m[1]]
            c = reg.cells.get(m[2])
            if c is None:
                continue
            o = c[0]
            e = ls.entry_cell.get((m[1], m[2]))
            nm = '%s+%s' % (m[1], m[2])
            if isinstance(o, NfElem) and isinstance(e, NfElem) and o.val is not None and e.val is not None:
                out.append((nm + ' value kept', o.val == e.val))
            if isinstance(o, Mag):
                mm = reg.cells.get(m[2] - 32)
                if mm is None or not isinstance(mm[0], Arf):
                    continue
                b = Ball(mm[0], o)
                own = reg.cells.get(m[2] - 64)
                if own and isinstance(own[0], NfElem) and own[0].val is not None:
                    out.append((nm + ' contains its value', b.has(own[0].val), ('pt', m, own[0].val)))
                for i, q in enumerate(ctx.ghost.get('points', [])):
                    out.append(('%s contains point %d' % (nm, i), b.has(q), ('pt', m, q)))
                em, er = ls.entry_cell.get((m[1], m[2] - 32)), e
                if not isinstance(em, Arf) and ls.entry_regs.get(m[1]):
                    x = ls.entry_regs[m[1]].get(m[2] - 32)
                    em = x[0] if x else None
                if isinstance(em, Arf) and isinstance(er, Mag):
                    eb = Ball(em, er)
                    out.append((nm + ' inside entry ball', z3.Or(z3.Not(eb.fin()), z3.And(b.fin(), b.lo >= eb.lo, b.hi <= eb.hi))))
                    out.append((nm + ' finite', b.fin()))
                    fin = [ctx.args_view[q.name].fin() for q in ctx.sp.params if q.kind == 'arb' and q.mode == 'in' and q.name in ctx.args_view]
                    if fin:
                        out.append((nm + ' finite if the arguments are', z3.Implies(z3.And(fin), b.fin())))
                for (arr, n, x) in ctx.ghost.get('horner', []):
                    for (pn, v, ee) in ents:
                        for d in (0, 1):
                            for w, t in (('%s+%d' % (pn, d), L.H(arr, v + d, Z(n), x)), ('len-%s-%d' % (pn, d), L.H(arr, Z(n) - v - d, Z(n), x))):
                                out.append(('%s contains Horner(%s,%s)' % (nm, w, x), b.has(t), ('pt', m, t)))
            if isinstance(o, Fmpz):
                for (arr, n, x) in ctx.ghost.get('zhorner', []):
                    for (pn, v, ee) in ents:
                        for d in (0, 1):
                            out.append(('%s == Horner(%s+%d,%s)' % (nm, pn, d, x), R(o.v) == L.H(arr, v + d, Z(n), x)))
        if self.templates:
            ctx.dead_labels = self.dead[key]
            ls.modset = self.mod[key]
            for x in self.templates(ctx, fr, ls, ents):
                out.append(x)
        dead = self.dead.setdefault(key, set())
        return [c for c in out if c[0] not in dead]

    def eval_phis(self, ctx, fr, header):
        vals = {}
        for ins in fr.fn.blocks[header]:
            if ins.op != 'phi':
                break
            for v, lab in ins.args:
                if lab == fr.pred:
                    vals[ins.res] = ctx.val(fr, ins.ty, v)
                    break
            else:
                raise Unsupported('phi')
        return vals

    def enter(self, ctx, fr, header, body, key):
        M = self.mod.setdefault(key, set())
        dead = self.dead.setdefault(key, set())
        ls = LS()
        if ctx.ghost.get('words'):
            for r in ctx.regions.values():
                if r.alive and getattr(r, 'untyped', False) and not r.cells:
                    ctx.as_i64(r)
        vals = self.eval_phis(ctx, fr, header)
        ls.phis = list(vals)
        ls.entry_phi = dict(vals)
        fr.env.update(vals)
        ls.entry_cell = {}
        ls.entry_vec = {k: r.vec.arr for k, r in ctx.regions.items() if r.alive and r.vec is not None}
        ls.entry_regs = {k: dict(r.cells) for k, r in ctx.regions.items() if r.alive}
        for m in M:
            if m[0] == 'cell' and m[1] in ctx.regions:
                c = ctx.regions[m[1]].cells.get(m[2])
                ls.entry_cell[(m[1], m[2])] = c[0] if c else None
        if not ctx.replaying():
            bad = self.check(ctx, self.candidates(ctx, fr, key, ls))
            while bad:
                dead.update(bad)
                if key in self.visited:
                    raise Restart()
                bad = self.check(ctx, self.candidates(ctx, fr, key, ls)) if ctx.gsolver is not None else []
        self.visited.add(key)
        # havoc
        for n in ls.phis:
            if ('phi', n) in M:
                fr.env[n] = self.havoc_val(ctx, ls.entry_phi[n], n, M)
        for m in sorted(M, key=str):
            if m[0] == 'cell' and m[1] in ctx.regions:
                reg = ctx.regions[m[1]]
                c = reg.cells.get(m[2])
                if c is None:
                    continue
                v, s = c
                if isinstance(v, Obj):
                    nv = v.havoc(ctx)
                    if isinstance(nv, Mag):
                        nv.pts = []
                elif isinstance(v, Ptr):
                    st = [x[3] for x in M if x[0] == 'cellstep' and x[1:3] == m[1:3]]
                    if len(st) != 1 or v.reg is None:
                        raise Unsupported('pointer modified in a loop')
                    nv = Ptr(v.reg, addoff(v.off, ctx.fresh('lp') * st[0]))
                elif isinstance(v, bool):
                    nv = ctx.fresh('lb', 'Bool')
                elif v is UNDEF:
                    nv = UNDEF
                elif isinstance(v, int) or (is_sym(v) and z3.is_int(v)):
                    nv = ctx.fresh('lc')
                else:
                    raise Unsupported('havoc of %r' % (v,))
                reg.cells[m[2]] = (nv, s)
            elif m[0] == 'vec' and m[1] in ctx.regions and ctx.regions[m[1]].vec is not None:
                r = ctx.regions[m[1]]
                r.vec = r.vec.with_(arr=ctx.fresh_arr('lv'))
            elif m[0] == 'veclen' and m[1] in ctx.regions and ctx.regions[m[1]].vec is not None:
                r = ctx.regions[m[1]]
                r.vec = r.vec.with_(length=ctx.fresh('ll'))
        for m in M:
            if m[0] == 'cell' and m[1] in ctx.regions:
                reg = ctx.regions[m[1]]
                o = reg.cells.get(m[2])
                if o and isinstance(o[0], Mag):
                    mm = reg.cells.get(m[2] - 32)
                    if mm and isinstance(mm[0], Arf):
                        ctx.assume(L.wf_ball(mm[0], o[0]))
                if o and isinstance(o[0], NfElem):
                    pass
        cs = self.candidates(ctx, fr, key, ls)
        for cnd in cs:
            ctx.assume(cnd[1])
            if len(cnd) > 2 and cnd[2][0] == 'pt':
                m = cnd[2][1]
                o = ctx.regions[m[1]].cells[m[2]][0]
                o.pts = L.dedupe(o.pts + [cnd[2][2]])
        self.invs[key] = [c[0] for c in cs]
        ls.head_env = {n: fr.env[n] for n in ls.phis}
        ls.head = snap(ctx)
        ls.toks = [t for t in ctx.toks if t.alive]
        if not hasattr(ctx, 'lstate'):
            ctx.lstate = {}
        ctx.lstate[key] = ls
        ctx.loopy = True
        fr.skip_phi = True

    def havoc_val(self, ctx, v, n, M):
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return ctx.fresh('lb_' + n, 'Bool')
        if isinstance(v, int) or (is_sym(v) and z3.is_int(v)):
            return ctx.fresh('l_' + n)
        if v is UNDEF:
            return ctx.fresh('l_' + n)
        if isinstance(v, Ptr) and v.reg is not None:
            st = [m[2] for m in M if m[0] == 'step' and m[1] == n]
            if len(st) == 1:
                return Ptr(v.reg, addoff(v.off, ctx.fresh('l_' + n) * st[0]))
        raise Unsupported('loop variable %s: %r' % (n, v))

    def check(self, ctx, cands):
        bad = []
        todo = []
        for c in cands:
            f = simp(c[1])
            if f is True:
                continue
            if f is False:
                bad.append(c[0]); continue
            todo.append((c[0], ctx.undiv(f)))
        if not todo:
            return bad
        if ctx.gsolver is not None:
            return bad + self.check_lean(ctx, todo)
        ctx.solver.push()
        ctx.solver.add(z3.Or([z3.Not(f) for _, f in todo]))
        ctx.solver.set('timeout', ctx.vrun.feas_timeout*(5 if ctx.sp.lean else 1))
        r = ctx.solver.check()
        ctx.solver.pop()
        if r == z3.unsat:
            return bad
        if r == z3.unknown and relax.linear_unsat(ctx, z3.Or([z3.Not(f) for _, f in todo])):
            return bad
        for l, f in todo:
            if r == z3.unknown and relax.linear_unsat(ctx, z3.Not(f)):
                continue
            if not ctx.implied(f):
                bad.append(l)
        return bad

    def check_lean(self, ctx, todo):
        """the quantifier-free part of the path condition first; the whole of it for what remains, under a deterministic limit"""
        bad = []
        quant = lambda f: relax.has_quantifier(f, ctx.vrun.qcache)
        for l, f in todo:
            if not quant(f) and ctx._feasible(z3.Not(f)) and not relax.portfolio(ctx.solver.assertions(), f, ctx.ghost.get('effort', 1)*ctx.vrun.rlimit//10, 1, ctx.vrun.sp.text):
                bad.append(l)
        if bad:
            return bad                     # the caller starts over without these candidates and checks all the others again
        for l, f in todo:
            if quant(f) and not relax.portfolio(ctx.solver.assertions(), f, ctx.vrun.rlimit//3):
                bad.append(l)
        return bad

    def back(self, ctx, fr, header, key):
        ls = ctx.lstate[key]
        M = self.mod[key]
        changed = False
        vals = self.eval_phis(ctx, fr, header)
        for n in ls.phis:
            if not same_val(vals[n], ls.head_env[n]):
                if ('phi', n) not in M:
                    M.add(('phi', n)); changed = True
                    a, b = vals[n], ls.head_env[n]
                    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg:
                        d = simp(a.off - b.off) if (is_sym(a.off) or is_sym(b.off)) else a.off - b.off
                        if a.reg.vec is not None and a.reg.vec.esize == 1:
                            M.add(('step', n, 1))
                        elif isinstance(d, int):
                            M.add(('step', n, abs(d)))
                        else:
                            for g in (16, 8):
                                try:
                                    off_div(d, g)
                                except Unsupported:
                                    continue
                                M.add(('step', n, g))
                                break
        for k, (r, cells, vec, alive) in ls.head.items():
            if not alive or not r.alive:
                continue
            if r.kind == 'alloca' and not r.alive:
                continue
            for o, (v, s) in r.cells.items():
                h = cells.get(o)
                if h is None:
                    if ('cell', k, o) not in M:
                        # initialised inside the loop: becomes garbage at the header
                        if isinstance(v, Obj) and v.tok is not None:
                            ctx.prove(False, 'object initialised on every iteration of a loop and not released', 'mem')
                        ls2 = ('kill', k, o)
                        if ls2 not in M:
                            M.add(ls2)
                    continue
                if not same_val(v, h[0]):
                    if ('cell', k, o) not in M:
                        if isinstance(v, Mag) and isinstance(h[0], Mag) and v.same(h[0]):
                            pass
                        if isinstance(v, Ptr) and isinstance(h[0], Ptr) and v.reg is h[0].reg and v.reg is not None and v.reg.vec is not None and v.reg.vec.esize == 1:
                            M.add(('cellstep', k, o, 1))
                        M.add(('cell', k, o)); changed = True
            for o in cells:
                if o not in r.cells:
                    if isinstance(cells[o][0], Obj) and cells[o][0].tok is not None:
                        ctx.prove(False, 'object released on every iteration of a loop', 'mem')
            if r.vec is not None and vec is not None and not (r.vec.arr is vec.arr or r.vec.arr.eq(vec.arr)):
                if ('vec', k) not in M:
                    M.add(('vec', k)); changed = True
            if r.vec is not None and vec is not None and not term_eq(r.vec.length, vec.length) :
                if r.vec.kind != 'fmpz' or not ctx.ghost.get('realloc'):
                    raise Unsupported('vector reallocated in a loop')
                if ('veclen', k) not in M:
                    M.add(('veclen', k)); changed = True
        a = sorted(t.what for t in ls.toks)
        b = sorted(t.what for t in ctx.toks if t.alive)
        if a != b:
            ctx.prove(False, 'a loop iteration acquires and releases the same resources', 'mem')
        saved = dict(fr.env)
        fr.env.update(vals)
        bad = self.check(ctx, self.candidates(ctx, fr, key, ls)) if not changed else []
        fr.env.clear(); fr.env.update(saved)
        if bad:
            self.dead[key].update(bad); changed = True
        if changed:
            raise Restart()
