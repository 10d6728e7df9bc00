"""Symbolic executor / verification condition generator over LLVM IR.

One *path* is executed at a time; branching is by re-execution with a prefix of recorded
decisions, so that contracts written in Python may themselves branch (ctx.decide).
Loops are cut at their headers: everything the body modifies is havocked, the candidate
invariants that survive (Houdini) are assumed, and they are re-proved on the back edge.
Calls to functions that have a contract use the contract only; helper functions of /repo
without a contract are executed in place.
"""
import z3, time, re
from . import relax
from .ir import Unsupported, Module

I64MIN = -(1 << 63)
BYTE_LOAD = BYTE_STORE = CTYPE_LOAD = CTYPE_BIT = None     # byte strings, see cstr.py
I64MAX = (1 << 63) - 1
DINF = 1 << 1100

class PathEnd(Exception):
    pass

class Infeasible(Exception):
    pass

class Restart(Exception):
    pass

class Undef:
    def __repr__(self):
        return 'undef'
UNDEF = Undef()

class Ptr:
    __slots__ = ('reg', 'off')
    def __init__(self, reg, off):
        self.reg, self.off = reg, off
    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.reg.key if self.reg else None, self.off)

NULL = Ptr(None, 0)

class FnPtr:
    __slots__ = ('name',)
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return 'Fn(%s)' % self.name

class Region:
    def __init__(self, key, kind, size=None, name=None):
        self.key, self.kind, self.size = key, kind, size
        self.name = name or str(key)
        self.cells = {}
        self.vec = None        # VecContent
        self.alive = True
        self.const = False
        self.tok = None
    def __repr__(self):
        return 'Region(%s)' % (self.key,)

class Vec:
    """content of a symbolically indexed array region"""
    __slots__ = ('kind', 'esize', 'arr', 'length', 'extra')
    def __init__(self, kind, esize, arr, length, extra=None):
        self.kind, self.esize, self.arr, self.length, self.extra = kind, esize, arr, length, extra
    def with_(self, **kw):
        v = Vec(self.kind, self.esize, self.arr, self.length, self.extra)
        for k, x in kw.items():
            setattr(v, k, x)
        return v

class Tok:
    """resource token: one allocation that must be released exactly once"""
    __slots__ = ('what', 'alive', 'key')
    def __init__(self, what, key):
        self.what, self.alive, self.key = what, True, key
    def __repr__(self):
        return 'Tok(%s,%s)' % (self.what, self.key)

class Obj:
    """abstract library object stored in memory"""
    size = 8
    tok = None
    def load(self, ctx, reg, base, rel, ty, size):
        raise Unsupported('raw load from %s at +%d' % (type(self).__name__, rel))

def is_sym(x):
    return isinstance(x, z3.ExprRef)

def as_int(x):
    if isinstance(x, bool):
        return 1 if x else 0
    return x

def simp(x):
    if isinstance(x, z3.ExprRef):
        y = z3.simplify(x)
        if z3.is_int_value(y):
            return y.as_long()
        if z3.is_true(y):
            return True
        if z3.is_false(y):
            return False
        return y
    return x

def R(x):
    if isinstance(x, int):
        return z3.RealVal(x)
    if z3.is_int(x):
        return z3.ToReal(x)
    return x

def wrap(x, n):
    """signed n-bit wrap of a mathematical integer"""
    if isinstance(x, int):
        m = 1 << n
        x %= m
        return x - m if x >= m >> 1 else x
    m = 1 << n
    h = m >> 1
    return z3.If(z3.And(x >= -h, x < h), x, ((x + h) % m) - h)

def unsigned(x, n):
    if isinstance(x, int):
        return x % (1 << n)
    return z3.If(x < 0, x + (1 << n), x)

class Ob:
    __slots__ = ('fn', 'label', 'cls', 'line', 'status', 'time', 'detail', 'backend', 'path', 'loopy')
    def __init__(self, fn, label, cls, line):
        self.fn, self.label, self.cls, self.line = fn, label, cls, line
        self.status = None; self.time = 0; self.detail = None; self.backend = None; self.path = None; self.loopy = False
    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}

class Frame:
    def __init__(self, fn, key):
        self.fn, self.key = fn, key
        self.env = {}
        self.block = None
        self.pred = None
        self.allocas = []

_loopcache = {}
def loops_of(f):
    """natural loop headers and bodies of a function: dict header -> set(blocks)"""
    k = id(f)
    if k in _loopcache:
        return _loopcache[k]
    succ = {}
    for b in f.order:
        t = f.blocks[b][-1]
        if t.op == 'br':
            succ[b] = [t.args[0]] if t.extra == 'u' else [t.args[1], t.args[2]]
        elif t.op == 'switch':
            succ[b] = [t.args[1]] + [c[1] for c in t.args[2]]
        elif t.op == 'invoke':
            succ[b] = [t.extra['normal'], t.extra['unwind']]
        else:
            succ[b] = []
    # dominators (simple iterative)
    pred = {b: [] for b in f.order}
    for b in f.order:
        for s in succ[b]:
            pred[s].append(b)
    entry = f.order[0]
    dom = {b: set(f.order) for b in f.order}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in f.order:
            if b == entry:
                continue
            ps = [dom[p] for p in pred[b]]
            n = (set.intersection(*ps) if ps else set(f.order)) | {b}
            if n != dom[b]:
                dom[b] = n; ch = True
    loops = {}
    for b in f.order:
        for s in succ[b]:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(pred[x])
    _loopcache[k] = loops
    return loops

class Ctx:
    """execution of one path"""
    def __init__(self, prog, vrun, decisions):
        self.prog = prog
        self.vrun = vrun
        self.decisions = list(decisions)
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', vrun.feas_timeout)
        # lean contracts: feasibility is decided with the quantifier-free part of the path condition only (an over-approximation of the
        # feasible paths) and with a deterministic resource limit
        self.gsolver = None
        if vrun.sp.lean:
            self.gsolver = z3.Solver()
            self.gsolver.set('rlimit', vrun.rlimit)
            if vrun.sp.text:
                self.gsolver.set('arith.solver', 2)
        self.regions = {}
        self.globals = {}
        self.nfresh = 0
        self.toks = []
        self.line = None
        self.stack = []
        self.trace = []
        self.cutloops = []      # (frame key, header)
        self.ghost = {}
        self.pcs = []
        self.steps = 0
        self.fields = {}
        self.loopy = False
        self.static_loaded = set()
        self.ptoks = []
        self.divcache = {}
        self.divs = []
        self.maydie = set()
        self.abort_ok = False
        self.throw_ok = False
    def aborted(self):
        if self.abort_ok is False:
            self.prove(False, 'abort() or a failed assertion is unreachable', 'abort')
        elif self.abort_ok is not True:
            self.prove(self.abort_ok, 'abort() is only reached in the documented case', 'abort')
        raise PathEnd()
    def snapshot(self):
        return {k: (r, dict(r.cells), r.vec, r.alive) for k, r in self.regions.items()}
    # ---------- logic
    def fresh(self, base, sort='Int'):
        self.nfresh += 1
        n = '%s!%d' % (base, self.nfresh)
        return {'Int': z3.Int, 'Real': z3.Real, 'Bool': z3.Bool}[sort](n)
    def fresh_arr(self, base, rng='Int'):
        self.nfresh += 1
        return z3.Array('%s!%d' % (base, self.nfresh), z3.IntSort(), z3.IntSort() if rng == 'Int' else z3.RealSort())
    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        c = self.undiv(c)
        self.pcs.append(c)
        self.solver.add(c)
        self.gadd(c)
    def assume_raw(self, c):
        """as assume, for formulas without quotients and quantifiers"""
        self.pcs.append(c)
        self.solver.add(c)
        if self.gsolver is not None:
            self.gsolver.add(c)
    def gadd(self, c):
        if self.gsolver is not None and is_sym(c) and not relax.has_quantifier(c, self.vrun.qcache):
            self.gsolver.add(c)
    def undiv(self, e):
        """replace real quotients x/y by constants q with y != 0 -> q*y = x"""
        if not isinstance(e, z3.ExprRef):
            return e
        k = e.get_id()
        if k in self.vrun.nodiv:
            return e
        h = self.divcache.get(k)
        if h is not None:
            return h[0]
        kids = e.children()
        if z3.is_quantifier(e) or not kids:
            r = e
        else:
            ch = [self.undiv(x) for x in kids]
            if e.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
                q = self.fresh('q', 'Real')
                x, y = ch
                for q2, x2, y2 in self.divs[-8:]:
                    g = z3.Implies(z3.And(x == x2, y == y2, y != 0), q == q2)
                    self.pcs.append(g); self.solver.add(g); self.gadd(g)
                self.divs.append((q, x, y))
                f = z3.And(z3.Implies(y != 0, q*y == x), z3.Implies(y > 0, z3.And((q > 0) == (x > 0), (q < 0) == (x < 0))),
                           z3.Implies(y < 0, z3.And((q > 0) == (x < 0), (q < 0) == (x > 0))))
                self.pcs.append(f); self.solver.add(f); self.gadd(f)
                r = q
            elif all(a is b or a.eq(b) for a, b in zip(ch, kids)):
                r = e
            else:
                r = e.decl()(*ch)
        if r is e:
            self.vrun.nodiv[k] = e         # no quotient inside (the reference keeps the identifier valid)
        else:
            self.divcache[k] = (r, e)
        return r
    def replaying(self):
        return self.pos < len(self.decisions)
    def decide(self, cond, what=''):
        cond = simp(cond)
        if isinstance(cond, (bool, int)):
            return bool(cond)
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
        else:
            t = self._feasible(cond)
            f = self._feasible(z3.Not(cond))
            if not t and not f:
                raise Infeasible()
            d = t
            if t and f:
                self.vrun.push(self.decisions + [False])
            self.decisions.append(d)
            self.pos += 1
        self.trace.append((self.line, d))
        self.assume(cond if d else z3.Not(cond))
        return d
    def _feasible(self, c):
        c = self.undiv(c)
        t0 = time.time()
        if self.gsolver is not None:
            self.gsolver.push()
            if not (is_sym(c) and relax.has_quantifier(c, self.vrun.qcache)):
                self.gsolver.add(c)
            r = self.gsolver.check()
            self.gsolver.pop()
            self.vrun.solver_time += time.time() - t0
            return r != z3.unsat
        self.solver.push()
        self.solver.add(c)
        # quantified path conditions often end in 'unknown': do not wait long for each of them
        self.solver.set('timeout', self.vrun.feas_timeout if self.vrun.unknowns < 4 else self.vrun.feas_short)
        r = self.solver.check()
        self.vrun.unknowns += r == z3.unknown
        self.vrun.solver_time += time.time() - t0
        self.solver.pop()
        return r != z3.unsat
    def implied(self, c):
        """is c implied by the path condition (used for view resolution, not for obligations)"""
        c = simp(c)
        if isinstance(c, bool):
            return c
        return not self._feasible(z3.Not(c))
    def prove(self, cond, label, cls='post'):
        """obligation"""
        cond = simp(cond)
        if is_sym(cond):
            cond = self.undiv(cond)
        if self.replaying():
            if cond is not True and cond is not False:
                self.assume(cond)
            elif cond is False:
                raise PathEnd()
            return
        self.vrun.obligation(self, cond, label, cls)
        if cond is False:
            # keep exploring would be meaningless
            raise PathEnd()
        if cond is not True:
            self.assume(cond)
    def fail(self, label, cls='mem'):
        self.prove(False, label, cls)
    # ---------- memory
    def region(self, key, kind, size=None, name=None):
        k = key
        n = 0
        while k in self.regions:
            n += 1
            k = '%s#%d' % (key, n)
        r = Region(k, kind, size, name)
        self.regions[k] = r
        return r
    def newtok(self, what):
        t = Tok(what, '%s@%s' % (what, self.line))
        self.toks.append(t)
        return t
    def norm(self, p):
        if isinstance(p, Ptr) and is_sym(p.off):
            o = simp(p.off)
            if not is_sym(o):
                return Ptr(p.reg, o)
        return p
    def check_ptr(self, p, what):
        if not isinstance(p, Ptr):
            if p is UNDEF:
                self.fail('%s through an uninitialised pointer' % what)
            raise Unsupported('%s through %r' % (what, p))
        if p.reg is None:
            self.fail('%s through a null pointer' % what)
        if not p.reg.alive:
            self.fail('%s through a dangling pointer (%s)' % (what, p.reg.name))
        return self.norm(p)
    def cover(self, reg, off):
        """cell covering byte off: (base, val, size) or None"""
        if reg.kind == 'global' and reg.key not in self.static_loaded:
            self.load_global(reg)
        c = reg.cells.get(off)
        if c is not None:
            return off, c[0], c[1]
        for b, (v, s) in reg.cells.items():
            if b < off < b + s:
                return b, v, s
        return None
    def load(self, p, ty, size):
        p = self.check_ptr(p, 'load')
        reg = p.reg
        if reg.vec is not None:
            return self.vec_load(p, ty, size)
        if getattr(reg, 'ctype', False):
            return CTYPE_LOAD(self, p.off)
        if is_sym(p.off) and size == 8 and getattr(reg, 'untyped', False):
            self.as_i64(reg)
            return self.vec_load(p, ty, size)
        if is_sym(p.off):
            raise Unsupported('symbolic offset load from %s' % reg.name)
        c = self.cover(reg, p.off)
        if c is None:
            if reg.kind == 'global' and self.load_global(reg):
                return self.load(p, ty, size)
            if reg.kind == 'global' and ty[0] == 'ptr':
                # an external object such as stderr: opaque
                q = Ptr(self.region('*' + reg.name, 'extern', None, '*' + str(reg.name)), 0)
                reg.cells[p.off] = (q, 8)
                return q
            if reg.lazy if hasattr(reg, 'lazy') else False:
                return reg.lazy(self, reg, p.off, ty, size)
            if reg.size is not None and p.off + size > reg.size:
                self.fail('load out of bounds of %s' % reg.name)
            self.fail('read of uninitialised memory (%s+%d)' % (reg.name, p.off))
        b, v, s = c
        if isinstance(v, Obj):
            return v.load(self, reg, b, p.off - b, ty, size)
        if b == p.off and s == size:
            return v
        if isinstance(v, int) and b <= p.off and p.off + size <= b + s:
            u = (v % (1 << (8*s))) >> (8*(p.off - b))
            return wrap(u & ((1 << (8*size)) - 1), 8*size)
        if b == p.off and size < s and is_sym(v):
            return wrap(v, 8*size)
        # composite of smaller constant cells
        tot = 0; o = p.off; ok = True
        while o < p.off + size:
            d = reg.cells.get(o)
            if d is None or not isinstance(d[0], int) or o + d[1] > p.off + size:
                ok = False; break
            tot |= (d[0] % (1 << (8*d[1]))) << (8*(o - p.off))
            o += d[1]
        if ok:
            return wrap(tot, 8*size)
        if v is UNDEF:
            return UNDEF
        raise Unsupported('partial load %s+%d size %d over cell %d/%d %r' % (reg.name, p.off, size, b, s, v))
    def purge(self, reg, off, size):
        for b in list(reg.cells):
            v, s = reg.cells[b]
            if b < off + size and off < b + s:
                if b >= off and b + s <= off + size:
                    del reg.cells[b]
                elif isinstance(v, int):
                    # split a constant cell into bytes
                    del reg.cells[b]
                    u = v % (1 << (8*s))
                    for k in range(s):
                        o = b + k
                        if not (off <= o < off + size):
                            reg.cells[o] = (wrap((u >> (8*k)) & 255, 8), 1)
                elif isinstance(v, Obj):
                    v = v.split(self, reg, b)
                    return self.purge(reg, off, size)
                elif v is UNDEF:
                    del reg.cells[b]
                else:
                    raise Unsupported('partial overwrite')
    def store(self, p, v, size):
        p = self.check_ptr(p, 'store')
        reg = p.reg
        if reg.const:
            self.fail('store to constant memory')
        if reg.vec is not None:
            return self.vec_store(p, v, size)
        if is_sym(p.off) and size == 8 and getattr(reg, 'untyped', False):
            self.as_i64(reg)
            return self.vec_store(p, v, size)
        if is_sym(p.off):
            raise Unsupported('symbolic offset store to %s' % reg.name)
        c = self.cover(reg, p.off)
        if c is not None and isinstance(c[1], Obj) and hasattr(c[1], 'store'):
            if c[1].store(self, reg, c[0], p.off - c[0], v, size):
                return
        if reg.size is not None and not is_sym(reg.size) and (p.off + size > reg.size or p.off < 0):
            self.fail('store out of bounds of %s' % reg.name)
        self.purge(reg, p.off, size)
        reg.cells[p.off] = (v, size)
    def put(self, p, obj, size=None):
        """place an abstract object"""
        p = self.check_ptr(p, 'write')
        if is_sym(p.off):
            raise Unsupported('object at symbolic offset')
        size = size or obj.size
        if p.reg.size is not None and not is_sym(p.reg.size) and (p.off + size > p.reg.size or p.off < 0):
            self.fail('object out of bounds of %s' % p.reg.name)
        self.purge(p.reg, p.off, size)
        p.reg.cells[p.off] = (obj, size)
    def get(self, p):
        p = self.check_ptr(p, 'read')
        if is_sym(p.off):
            raise Unsupported('object at symbolic offset')
        c = p.reg.cells.get(p.off)
        if c is None and p.reg.kind == 'global' and self.load_global(p.reg):
            c = p.reg.cells.get(p.off)
        return c[0] if c else None
    def vec_index(self, p, size, what):
        v = p.reg.vec
        off = p.off
        if v.esize == 1:
            idx = off
        elif isinstance(off, int):
            if off % v.esize:
                raise Unsupported('misaligned vector access')
            idx = off // v.esize
        else:
            idx = simp(off_div(off, v.esize))
        self.prove(z3.And(R0(idx) >= 0, R0(idx) < R0(v.length)) if (is_sym(idx) or is_sym(v.length)) else (0 <= idx < v.length),
                   '%s within bounds of %s' % (what, p.reg.name), 'mem')
        return idx
    def vec_load(self, p, ty, size):
        v = p.reg.vec
        if v.esize != size:
            raise Unsupported('vector element size %d/%d' % (v.esize, size))
        if v.kind == 'fmpz':
            raise Unsupported('raw read of fmpz vector')
        i = self.vec_index(p, size, 'read')
        x = z3.Select(v.arr, i)
        n = 8*size
        if v.kind == 'u8':
            self.assume_raw(z3.And(x >= -128, x < 128))
            BYTE_LOAD(self, p.reg, i)
        else:
            self.assume(z3.And(x >= -(1 << (n-1)), x < (1 << (n-1))))
        return x
    def vec_store(self, p, val, size):
        v = p.reg.vec
        if v.esize != size:
            raise Unsupported('vector element size')
        i = self.vec_index(p, size, 'write')
        if val is UNDEF:
            self.fail('store of an undefined value')
        p.reg.vec = v.with_(arr=z3.Store(v.arr, i, val) if v.kind != 'u8' else z3.simplify(z3.Store(v.arr, i, val)))
        if v.kind == 'u8':
            BYTE_STORE(self, p.reg, v.arr, i, val)
    def as_i64(self, reg):
        """freshly allocated memory used as an array of words"""
        n = reg.msize
        if reg.cells:
            raise Unsupported('mixed use of allocated memory')
        reg.vec = Vec('i64', 8, self.fresh_arr('words'), simp(unsigned(n, 64) / 8) if is_sym(n) else n // 8)
        reg.untyped = False
    def memcpy(self, d, s, n):
        if is_sym(n):
            n = simp(n)
            if is_sym(n):
                if isinstance(s, Ptr) and s.reg is not None and s.reg.vec is not None and s.reg.vec.kind == 'u8':
                    from .cstr import byte_memcpy
                    return byte_memcpy(self, d, s, n)
                raise Unsupported('symbolic memcpy')
        if n == 0:
            return
        d = self.check_ptr(d, 'memcpy'); s = self.check_ptr(s, 'memcpy')
        if s.reg.kind == 'global':
            self.load_global(s.reg)
        if s.reg.vec is not None or d.reg.vec is not None or is_sym(d.off) or is_sym(s.off):
            raise Unsupported('memcpy on vector')
        if s.reg is d.reg and s.off == d.off:
            return
        moved = []
        for b, (v, sz) in list(s.reg.cells.items()):
            if s.off <= b and b + sz <= s.off + n:
                moved.append((b - s.off, v, sz))
            elif b < s.off + n and s.off < b + sz:
                raise Unsupported('memcpy splits a cell')
        self.purge(d.reg, d.off, n)
        for o, v, sz in moved:
            d.reg.cells[d.off + o] = (v, sz)
    # ---------- globals
    def global_ptr(self, mod, name):
        while name in mod.aliases:
            name = mod.aliases[name]
        if name in mod.funcs or name in mod.decls:
            return FnPtr(name)
        key = '@' + name
        g = mod.globals.get(name)
        if g and g.get('alias'):
            v = self.const(mod, ('ptr',), g['init'])
            return v
        if key not in self.regions:
            r = Region(key, 'global', None, name)
            self.regions[key] = r
            r.mod = mod
            r.gname = name
            if g is not None:
                try:
                    r.size = mod.sizeof(g['ty'])
                except Unsupported:
                    r.size = None
        return Ptr(self.regions[key], 0)
    def load_global(self, reg):
        if reg.key in self.static_loaded:
            return False
        self.static_loaded.add(reg.key)
        g = reg.mod.globals.get(reg.gname)
        if not g or g['init'] is None:
            return False
        if reg.gname.startswith('_ZGV'):
            # guard of a static local: initialised by an earlier call or not
            reg.cells[0] = (1 if self.decide(self.fresh('guard', 'Bool')) else 0, 1)
            return True
        if reg.gname.startswith('_ZZ') and not g['const'] and g['ty'][0] == 'ptr' and g['init'][0] in ('null', 'zeroinitializer'):
            # static local pointer that is set on first use
            if self.decide(self.fresh('static', 'Bool')):
                self.ghost['env'] = True
                reg.cells[0] = (Ptr(self.region('*' + reg.gname, 'extern', None, 'static'), 0), 8)
            else:
                reg.cells[0] = (NULL, 8)
            return True
        try:
            self._ginit(reg.mod, reg, 0, g['ty'], g['init'])
        except Unsupported:
            return False
        reg.frozen = dict(reg.cells) if reg.gname.startswith('_ZZ') else None
        return True
    def _ginit(self, mod, reg, off, ty, v):
        t = mod.resolve(ty)
        if t[0] == 'struct':
            offs = mod.layout(ty)[2]
            for i, e in enumerate(t[1]):
                self._ginit(mod, reg, off + offs[i], e, v[1][i][1] if v[0] == 'agg' else v)
        elif t[0] == 'arr':
            s = mod.sizeof(t[2])
            if v[0] == 'cstr':
                bs = cstr_bytes(v[1])
                for i, c in enumerate(bs):
                    reg.cells[off+i] = (wrap(c, 8), 1)
            else:
                for i in range(t[1]):
                    self._ginit(mod, reg, off + i*s, t[2], v[1][i][1] if v[0] == 'agg' else v)
        else:
            reg.cells[off] = (self.const(mod, t, v), mod.sizeof(t))
    def const(self, mod, ty, v):
        k = v[0]
        if k == 'int':
            if ty[0] == 'i':
                if ty[1] == 1:
                    return bool(v[1])
                return wrap(v[1], ty[1])
            return v[1]
        if k == 'null':
            return NULL
        if k in ('undef', 'poison'):
            return UNDEF
        if k == 'zeroinitializer':
            t = mod.resolve(ty)
            if t[0] == 'i':
                return False if t[1] == 1 else 0
            if t[0] == 'ptr':
                return NULL
            if t[0] == 'struct':
                return [self.const(mod, e, v) for e in t[1]]
            if t[0] == 'arr':
                return [self.const(mod, t[2], v) for _ in range(t[1])]
            if t[0] in ('double', 'float'):
                return self.fp_const('0.0')
        if k == 'glob':
            return self.global_ptr(mod, v[1])
        if k == 'gep':
            base = self.const(mod, v[2][0][0], v[2][0][1])
            return self.gep(mod, v[1], base, [self.const(mod, t, x) for t, x in v[2][1:]])
        if k == 'cast':
            return self.const(mod, v[2], v[3])
        if k == 'agg':
            return [self.const(mod, t, x) for t, x in v[1]]
        if k == 'fp':
            return self.fp_const(v[1])
        raise Unsupported('constant %s' % (v,))
    def fp_const(self, s):
        import struct
        if s.startswith('0x'):
            if s[2] in 'KLMHR':
                raise Unsupported('fp constant')
            x = struct.unpack('>d', int(s, 16).to_bytes(8, 'big'))[0]
        else:
            x = float(s)
        # doubles are ordered reals, infinities lie beyond everything finite; the sign of zero is not modelled
        if x != x:
            raise Unsupported('nan')
        if x in (float('inf'), float('-inf')):
            return z3.RealVal(DINF if x > 0 else -DINF)
        from fractions import Fraction
        f = Fraction(x)
        return z3.RealVal('%d/%d' % (f.numerator, f.denominator))
    def gep(self, mod, sty, base, idx):
        if not isinstance(base, Ptr):
            raise Unsupported('gep on %r' % (base,))
        off = base.off
        s = mod.sizeof(sty)
        off = addoff(off, mulc(idx[0], s))
        ty = sty
        for x in idx[1:]:
            t = mod.resolve(ty)
            if t[0] == 'struct':
                off = addoff(off, mod.layout(ty)[2][x])
                ty = t[1][x]
            elif t[0] == 'arr':
                off = addoff(off, mulc(x, mod.sizeof(t[2])))
                ty = t[2]
            else:
                raise Unsupported('gep into %s' % (t,))
        return Ptr(base.reg, off)
    # ---------- values
    def val(self, fr, ty, v):
        if v[0] == 'loc':
            if v[1] not in fr.env:
                raise Unsupported('undefined local %s' % v[1])
            return fr.env[v[1]]
        return self.const(fr.fn.module, ty, v)
    # ---------- execution
    def call_ir(self, f, args, key):
        """execute a defined function in place; returns value or raises CxxThrow"""
        if len(self.stack) > 60:
            raise Unsupported('call depth')
        mod = f.module
        mod.body(f.name)
        fr = Frame(f, key)
        for (ty, nm, at), a in zip(f.params, args):
            fr.env[nm] = a
        fr.block = f.order[0]
        self.stack.append(fr)
        try:
            return self._run(fr)
        finally:
            self.stack.pop()
            for r in fr.allocas:
                r.alive = False
    def _run(self, fr):
        f = fr.fn
        loops = loops_of(f)
        while True:
            if fr.block in loops and not self.sp.custom:
                self.at_header(fr, fr.block, loops[fr.block])
            blk = f.blocks[fr.block]
            # phis (parallel)
            i = 0
            if not fr.__dict__.pop('skip_phi', False):
                news = {}
                while blk[i].op == 'phi':
                    ins = blk[i]
                    for v, lab in ins.args:
                        if lab == fr.pred:
                            news[ins.res] = self.val(fr, ins.ty, v)
                            break
                    else:
                        raise Unsupported('phi')
                    i += 1
                fr.env.update(news)
            else:
                while blk[i].op == 'phi':
                    i += 1
            nxt = None
            for ins in blk[i:]:
                self.steps += 1
                if self.steps > self.vrun.max_steps:
                    raise Unsupported('step limit')
                if ins.line:
                    self.line = ins.line
                r = self.step(fr, ins)
                if r is not None:
                    nxt = r
                    break
            if nxt is None:
                raise Unsupported('fell off block')
            if nxt[0] == 'ret':
                return nxt[1]
            fr.pred = fr.block
            fr.block = nxt[1]
    def step(self, fr, ins):
        op = ins.op
        mod = fr.fn.module
        env = fr.env
        if op == 'load':
            p = self.val(fr, ('ptr',), ins.args[0])
            t = mod.resolve(ins.ty)
            v = self.load(p, t, mod.sizeof(t)) if t[0] in ('i', 'ptr', 'double', 'float') else self.load_agg(p, ins.ty, mod)
            if t[0] == 'i' and t[1] == 1 and not isinstance(v, (bool, z3.BoolRef)) and v is not UNDEF:
                v = (v != 0)
            env[ins.res] = v
        elif op == 'store':
            v = self.val(fr, ins.ty, ins.args[0])
            p = self.val(fr, ('ptr',), ins.args[1])
            t = mod.resolve(ins.ty)
            if t[0] in ('struct', 'arr'):
                self.store_agg(p, v, ins.ty, mod)
            else:
                self.store(p, v, mod.sizeof(t))
        elif op == 'alloca':
            sz = mod.sizeof(ins.ty)
            if ins.args[0] is not None:
                n = self.val(fr, ins.args[0][0], ins.args[0][1])
                if is_sym(n):
                    raise Unsupported('vla')
                sz *= n
            r = self.region('%s/%s' % (fr.key, ins.res), 'alloca', sz, ins.res)
            fr.allocas.append(r)
            env[ins.res] = Ptr(r, 0)
        elif op == 'getelementptr':
            vals = [self.val(fr, t, v) for t, v in ins.args]
            env[ins.res] = self.norm(self.gep(mod, ins.ty, vals[0], vals[1:]))
        elif op in ('call', 'invoke'):
            return self.do_call(fr, ins)
        elif op == 'br':
            if ins.extra == 'u':
                return ('br', ins.args[0])
            c = self.val(fr, ('i', 1), ins.args[0])
            if c is UNDEF:
                self.fail('branch on an uninitialised value')
            return ('br', ins.args[1] if self.decide(c) else ins.args[2])
        elif op == 'ret':
            if not ins.args:
                return ('ret', None)
            return ('ret', self.val(fr, ins.ty, ins.args[0]))
        elif op == 'icmp':
            a = self.val(fr, ins.ty, ins.args[0]); b = self.val(fr, ins.ty, ins.args[1])
            env[ins.res] = self.icmp(ins.extra, ins.ty, a, b)
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a = self.val(fr, ins.ty, ins.args[0]); b = self.val(fr, ins.ty, ins.args[1])
            env[ins.res] = self.arith(op, ins.ty, a, b, ins.extra)
        elif op in ('sext', 'zext', 'trunc'):
            v = self.val(fr, ins.extra, ins.args[0])
            env[ins.res] = self.cast(op, ins.extra, ins.ty, v)
        elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            v = self.val(fr, ins.extra if op != 'freeze' else ins.ty, ins.args[0])
            env[ins.res] = v
        elif op == 'select':
            c = self.val(fr, ('i', 1), ins.args[0])
            if self.decide(c):
                env[ins.res] = self.val(fr, ins.ty, ins.args[1])
            else:
                env[ins.res] = self.val(fr, ins.ty, ins.args[2])
        elif op == 'switch':
            c = self.val(fr, ins.ty, ins.args[0])
            if c is UNDEF:
                self.fail('switch on an uninitialised value')
            for k, lab in ins.args[2]:
                k = wrap(k, ins.ty[1])
                if self.decide(c == k):
                    return ('br', lab)
            return ('br', ins.args[1])
        elif op == 'unreachable':
            raise PathEnd()
        elif op == 'extractvalue':
            v = self.val(fr, ins.ty, ins.args[0])
            for i in ins.extra:
                v = v[i]
            env[ins.res] = v
        elif op == 'insertvalue':
            v = self.val(fr, ins.ty, ins.args[0])
            if v is UNDEF:
                t = mod.resolve(ins.ty)
                v = [UNDEF]*len(t[1]) if t[0] == 'struct' else [UNDEF]*t[1]
            v = list(v)
            if len(ins.extra) != 1:
                raise Unsupported('insertvalue')
            v[ins.extra[0]] = self.val(fr, ins.args[1][0], ins.args[1][1])
            env[ins.res] = v
        elif op == 'landingpad':
            env[ins.res] = [self.exc_ptr(), self.exc_selector(ins)]
        elif op == 'resume':
            raise CxxThrow(self.cur_exc)
        elif op == 'atomicrmw':
            p = self.val(fr, ('ptr',), ins.args[0]); x = self.val(fr, ins.ty, ins.args[1])
            old = self.load(p, ins.ty, mod.sizeof(ins.ty))
            if ins.extra == 'add':
                nw = self.arith('add', ins.ty, old, x, set())
            elif ins.extra == 'sub':
                nw = self.arith('sub', ins.ty, old, x, set())
            elif ins.extra == 'xchg':
                nw = x
            else:
                raise Unsupported('atomicrmw ' + ins.extra)
            self.store(p, nw, mod.sizeof(ins.ty))
            env[ins.res] = old
        elif op == 'fence':
            pass
        elif op in ('fcmp', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            env[ins.res] = self.prog.fp_op(self, fr, ins)
        else:
            raise Unsupported('instruction %s' % (ins.extra if op == 'unsupported' else op))
        return None
    cur_exc = None
    def exc_ptr(self):
        return Ptr(self.region('exc', 'heap', None, 'exception'), 0)
    def exc_selector(self, ins):
        exc = self.cur_exc
        for i, c in enumerate(ins.extra):
            if c[0] == 'catch':
                if c[1][0] == 'null':
                    return 1 + i
                if c[1][0] == 'glob' and self.prog.exc_matches(exc, c[1][1]):
                    return self.prog.typeid(c[1][1])
        return 0
    def load_agg(self, p, ty, mod):
        t = mod.resolve(ty)
        if t[0] == 'struct':
            offs = mod.layout(ty)[2]
            return [self.load_any(Ptr(p.reg, addoff(p.off, o)), e, mod) for o, e in zip(offs, t[1])]
        if t[0] == 'arr':
            s = mod.sizeof(t[2])
            return [self.load_any(Ptr(p.reg, addoff(p.off, i*s)), t[2], mod) for i in range(t[1])]
        raise Unsupported('aggregate load')
    def load_any(self, p, ty, mod):
        t = mod.resolve(ty)
        if t[0] in ('struct', 'arr'):
            return self.load_agg(p, ty, mod)
        return self.load(p, t, mod.sizeof(t))
    def store_agg(self, p, v, ty, mod):
        t = mod.resolve(ty)
        if t[0] == 'struct':
            offs = mod.layout(ty)[2]
            for o, e, x in zip(offs, t[1], v):
                self.store_any(Ptr(p.reg, addoff(p.off, o)), x, e, mod)
        else:
            s = mod.sizeof(t[2])
            for i, x in enumerate(v):
                self.store_any(Ptr(p.reg, addoff(p.off, i*s)), x, t[2], mod)
    def store_any(self, p, v, ty, mod):
        t = mod.resolve(ty)
        if t[0] in ('struct', 'arr'):
            return self.store_agg(p, v, ty, mod)
        self.store(p, v, mod.sizeof(t))
    def icmp(self, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            self.fail('comparison of an uninitialised value')
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, int) and a == 0:
                a = NULL
            if isinstance(b, int) and b == 0:
                b = NULL
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                eq = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            elif not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise Unsupported('pointer/integer comparison')
            elif a.reg is b.reg:
                if pred in ('eq', 'ne'):
                    eq = simp(a.off == b.off) if (is_sym(a.off) or is_sym(b.off)) else (a.off == b.off)
                else:
                    op = pred[1:]
                    x, y = a.off, b.off
                    return simp({'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[op]())
            else:
                eq = self.prog.region_eq(self, a, b)
            if pred == 'eq':
                return eq
            if pred == 'ne':
                return (not eq) if isinstance(eq, bool) else z3.Not(eq)
            raise Unsupported('pointer order')
        n = ty[1]
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            if isinstance(a, bool) and isinstance(b, bool):
                r = (a == b)
            else:
                r = z3.simplify(toB(a) == toB(b))
            if pred == 'eq':
                return simp(r) if is_sym(r) else r
            if pred == 'ne':
                return simp(z3.Not(r)) if is_sym(r) else (not r)
            raise Unsupported('i1 order')
        if pred in ('eq', 'ne'):
            r = (a == b)
            if pred == 'ne':
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return simp(r)
        s = pred[0]; o = pred[1:]
        if s == 'u':
            a = unsigned(a, n); b = unsigned(b, n)
        r = {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[o]()
        return simp(r)
    def arith(self, op, ty, a, b, fl):
        if a is UNDEF or b is UNDEF:
            self.fail('arithmetic on an uninitialised value')
        n = ty[1]
        if n == 1:
            a, b = toB(a), toB(b)
            if op == 'and':
                return simp(z3.And(a, b))
            if op == 'or':
                return simp(z3.Or(a, b))
            if op == 'xor':
                return simp(z3.Xor(a, b))
            raise Unsupported('i1 arith')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg:
                return simp(a.off - b.off) if (is_sym(a.off) or is_sym(b.off)) else a.off - b.off
            if op == 'add' and isinstance(a, Ptr) and isinstance(b, int):
                return Ptr(a.reg, addoff(a.off, b))
            if op == 'add' and isinstance(b, Ptr) and isinstance(a, int):
                return Ptr(b.reg, addoff(b.off, a))
            if op == 'and' and isinstance(b, int) and isinstance(a, Ptr) and b == 1:
                return 0
            raise Unsupported('pointer arithmetic')
        conc = isinstance(a, int) and isinstance(b, int)
        if op in ('add', 'sub', 'mul'):
            r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b}[op]()
            if conc:
                return wrap(r, n)
            if 'nsw' in fl:
                if op == 'sub' and isinstance(a, int) and a == 0:
                    self.prove(b != -(1 << (n-1)), 'negation does not overflow', 'ovf')
                elif self.vrun.check_overflow:
                    self.prove(z3.And(r >= -(1 << (n-1)), r < (1 << (n-1))), 'signed %s does not overflow' % op, 'ovf')
                return simp(r)
            return simp(wrap(r, n))
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            if op[0] == 'u':
                a, b = unsigned(a, n), unsigned(b, n)
            self.prove(b != 0 if is_sym(b) else (b != 0), 'division by zero', 'mem')
            if conc:
                q = abs(a)//abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return wrap(q if op.endswith('div') else a - q*b, n)
            A = a if is_sym(a) else z3.IntVal(a)
            B = b if is_sym(b) else z3.IntVal(b)
            if isinstance(b, int) and b > 0:
                q = z3.If(A >= 0, A / B, -((-A) / B))
            else:
                aq = z3.If(A >= 0, A, -A) / z3.If(B >= 0, B, -B)
                q = z3.If((A < 0) == (B < 0), aq, -aq)
            return simp(q if op.endswith('div') else A - q*B)
        if conc:
            m = (1 << n) - 1
            ua, ub = a & m, b & m
            if op == 'and':
                r = ua & ub
            elif op == 'or':
                r = ua | ub
            elif op == 'xor':
                r = ua ^ ub
            elif op == 'shl':
                r = ua << ub
            elif op == 'lshr':
                r = ua >> ub
            elif op == 'ashr':
                r = a >> ub
            return wrap(r, n)
        if isinstance(a, int) and not isinstance(b, int) and op in ('and', 'or', 'xor'):
            a, b = b, a
        if op == 'and' and isinstance(b, int):
            t = CTYPE_BIT(a, b) if CTYPE_BIT else None
            if t is not None:
                return t
            if b > 0 and (b & (b + 1)) == 0:
                return simp(unsigned(a, n) % (b + 1))
            if b > 0 and (b & (b - 1)) == 0:
                return simp(((a / b) % 2) * b)
            if b == 0:
                return 0
            if b == -1:
                return a
        if op == 'xor' and isinstance(b, int) and b == -1:
            return simp(-a - 1)
        if op == 'or' and isinstance(b, int) and b == 0:
            return a
        if op == 'shl' and isinstance(b, int):
            return simp(wrap(a * (1 << b), n)) if 'nsw' not in fl else simp(a * (1 << b))
        if op == 'ashr' and isinstance(b, int):
            return simp(a / (1 << b))
        if op == 'lshr' and isinstance(b, int):
            return simp(unsigned(a, n) / (1 << b))
        raise Unsupported('bit operation %s' % op)
    def cast(self, op, fty, ty, v):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, (Ptr, FnPtr)):
            return v
        n = fty[1]
        if n == 1:
            if isinstance(v, bool):
                x = 1 if v else 0
                return -x if op == 'sext' else x
            return z3.If(v, z3.IntVal(1 if op != 'sext' else -1), z3.IntVal(0))
        if op == 'sext':
            return v
        if op == 'zext':
            return simp(unsigned(v, n))
        if op == 'trunc':
            if ty[1] == 1:
                return simp((v % 2) == 1) if is_sym(v) else bool(v & 1)
            return simp(wrap(v, ty[1]))
    # ---------- calls
    def do_call(self, fr, ins):
        mod = fr.fn.module
        callee = ins.extra['callee']
        if callee[0] == 'glob':
            fv = self.global_ptr(mod, callee[1])
            if not isinstance(fv, FnPtr):
                raise Unsupported('call of global object')
            name = fv.name
        else:
            fv = self.val(fr, ('ptr',), callee)
            if not isinstance(fv, FnPtr):
                raise Unsupported('indirect call through %r' % (fv,))
            name = fv.name
        args = []
        for ty, v, at in ins.args:
            if v is None:
                args.append(None)
                continue
            x = self.val(fr, ty, v)
            if 'byval' in at:
                r = self.region('%s/byval' % fr.key, 'alloca', mod.sizeof(at['byval']), 'byval')
                self.memcpy(Ptr(r, 0), x, mod.sizeof(at['byval']))
                x = Ptr(r, 0)
            args.append(x)
        key = '%s/%s' % (fr.key, ins.res or ('c%d' % id_of(fr.fn, ins)))
        try:
            r = self.prog.call(self, mod, name, args, key, ins)
        except CxxThrow as e:
            if ins.op == 'invoke':
                self.cur_exc = e.what
                self.trace.append((self.line, 'throw'))
                return ('br', ins.extra['unwind'])
            raise
        if ins.res is not None:
            fr.env[ins.res] = r
        if ins.op == 'invoke':
            return ('br', ins.extra['normal'])
        return None
    # ---------- loops
    def at_header(self, fr, header, body):
        key = (fr.key, header)
        for k, frm in self.cutloops:
            if k == key and frm is fr:
                if fr.pred in body:
                    self.loop_back(fr, header, key)
                    raise PathEnd()
                # re-entry from outside after leaving the loop (e.g. inner loop of an outer one)
                self.cutloops = [c for c in self.cutloops if not (c[0] == key and c[1] is fr)]
                break
        self.vrun.loops.enter(self, fr, header, body, key)
        self.cutloops.append((key, fr))
    def loop_back(self, fr, header, key):
        self.vrun.loops.back(self, fr, header, key)

_ids = {}
def id_of(fn, ins):
    k = id(ins)
    if k not in _ids:
        n = 0
        for b in fn.order:
            for x in fn.blocks[b]:
                n += 1
                _ids[id(x)] = n
    return _ids[k]

class CxxThrow(Exception):
    def __init__(self, what):
        self.what = what

def toB(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.BoolVal(x != 0)
    return x

def R0(x):
    return z3.IntVal(x) if isinstance(x, int) else x

def mulc(x, s):
    if isinstance(x, int):
        return x * s
    if s == 1:
        return x
    return x * s

def addoff(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return a + b

def off_div(off, s):
    """off is a sum of multiples of s (checked syntactically)"""
    if isinstance(off, int):
        if off % s:
            raise Unsupported('misaligned')
        return off // s
    off = z3.simplify(off)
    def go(e):
        if z3.is_int_value(e):
            v = e.as_long()
            if v % s:
                raise Unsupported('misaligned')
            return z3.IntVal(v // s)
        if z3.is_add(e):
            r = go(e.arg(0))
            for i in range(1, e.num_args()):
                r = r + go(e.arg(i))
            return r
        if z3.is_mul(e):
            for i in range(e.num_args()):
                a = e.arg(i)
                if z3.is_int_value(a) and a.as_long() % s == 0:
                    r = z3.IntVal(a.as_long() // s)
                    for j in range(e.num_args()):
                        if j != i:
                            r = r * e.arg(j)
                    return r
        raise Unsupported('misaligned symbolic offset')
    return z3.simplify(go(off))

def cstr_bytes(s):
    assert s[0] == 'c'
    s = s[2:-1]
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return out
