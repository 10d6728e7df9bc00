"""Sound relaxation for nonlinear goals: integers become reals, uninterpreted terms become constants,
quantified facts are dropped, and only facts connected with the goal are kept.  Unsatisfiability of the
relaxed set implies unsatisfiability of the original one."""
import z3

class Drop(Exception):
    pass

class Relax:
    def __init__(self):
        self.cache = {}
        self.n = 0
        self.consts = {}
        self.tri = []
    def const(self, e):
        k = e.get_id()
        if k not in self.consts:
            self.n += 1
            s = e.sort()
            nm = 'u!%d' % self.n
            if s.kind() == z3.Z3_BOOL_SORT:
                v = z3.Bool(nm)
            elif s.kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT):
                v = z3.Real(nm)
                if s.kind() == z3.Z3_INT_SORT:
                    self.tri.append(z3.Or(v <= -1, v == 0, v >= 1))
            else:
                raise Drop()
            self.consts[k] = (v, e)
        return self.consts[k][0]
    def tr(self, e):
        k = e.get_id()
        if k in self.cache:
            r = self.cache[k][0]
            if r is None:
                raise Drop()
            return r
        try:
            r = self.tr1(e)
        except Drop:
            self.cache[k] = (None, e)
            raise
        self.cache[k] = (r, e)
        return r
    def tr1(self, e):
        if z3.is_quantifier(e):
            raise Drop()
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        if z3.is_rational_value(e) or z3.is_true(e) or z3.is_false(e):
            return e
        d = e.decl().kind()
        ch = e.children()
        if d == z3.Z3_OP_TO_REAL:
            return self.tr(ch[0])
        if d in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_TO_INT, z3.Z3_OP_IS_INT, z3.Z3_OP_REM):
            return self.const(e)
        c = [self.tr(x) for x in ch]
        if d == z3.Z3_OP_ADD: 
            r = c[0]
            for x in c[1:]: r = r + x
            return r
        if d == z3.Z3_OP_MUL:
            r = c[0]
            for x in c[1:]: r = r * x
            return r
        if d == z3.Z3_OP_SUB:
            r = c[0]
            for x in c[1:]: r = r - x
            return r
        if d == z3.Z3_OP_UMINUS: return -c[0]
        if d == z3.Z3_OP_DIV: return c[0] / c[1]
        if d == z3.Z3_OP_LE: return c[0] <= c[1]
        if d == z3.Z3_OP_LT: return c[0] < c[1]
        if d == z3.Z3_OP_GE: return c[0] >= c[1]
        if d == z3.Z3_OP_GT: return c[0] > c[1]
        if d == z3.Z3_OP_EQ: return c[0] == c[1]
        if d == z3.Z3_OP_DISTINCT: return z3.Distinct(*c)
        if d == z3.Z3_OP_AND: return z3.And(*c)
        if d == z3.Z3_OP_OR: return z3.Or(*c)
        if d == z3.Z3_OP_NOT: return z3.Not(c[0])
        if d == z3.Z3_OP_IMPLIES: return z3.Implies(*c)
        if d == z3.Z3_OP_ITE: return z3.If(*c)
        if d == z3.Z3_OP_IFF or d == z3.Z3_OP_XOR:
            return (c[0] == c[1]) if d == z3.Z3_OP_IFF else z3.Xor(*c)
        raise Drop()

def vars_of(e, cache):
    k = e.get_id()
    if k in cache:
        return cache[k]
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        r = frozenset([e.decl().name()])
    else:
        r = frozenset().union(*[vars_of(x, cache) for x in e.children()]) if e.children() else frozenset()
    cache[k] = r
    return r

def prove_unsat(facts, goal, budget=12000):
    """goal: negated conclusion"""
    rx = Relax()
    try:
        g = rx.tr(goal)
    except Drop:
        return False
    fs = []
    for f in facts:
        stack = [f]
        while stack:
            h = stack.pop()
            if z3.is_and(h):
                stack += h.children(); continue
            try:
                fs.append(rx.tr(h))
            except Drop:
                pass
    fs += rx.tri
    cache = {}
    fv = [(f, vars_of(f, cache)) for f in fs]
    have = set(vars_of(g, cache))
    sel, rest = [], fv
    tried = -1
    for hop in range(5):
        new = [(f, v) for f, v in rest if v & have or not v]
        rest = [(f, v) for f, v in rest if not (v & have or not v)]
        sel += new
        if len(sel) == tried:
            break
        tried = len(sel)
        for mk in (lambda: z3.SolverFor('QF_NRA'), lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'simplify', 'smt').solver()):
            s = mk()
            s.set('timeout', budget // 4)
            s.add(g)
            s.add([f for f, v in sel])
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return True
            if r == z3.sat:
                break
        for f, v in new:
            have |= v
    return False

# ------------------------------------------------------------------ linear relaxation
# nonlinear products become applications of uninterpreted functions: what is left is decided by
# linear arithmetic with congruence, which is fast and complete for such goals
NLR = z3.Function('nl!r', z3.RealSort(), z3.RealSort(), z3.RealSort())
NLI = z3.Function('nl!i', z3.IntSort(), z3.IntSort(), z3.IntSort())

class Linear:
    def __init__(self):
        self.cache = {}
    def tr(self, e):
        k = e.get_id()
        h = self.cache.get(k)
        if h is not None:
            return h[0]
        r = self.tr1(e)
        self.cache[k] = (r, e)
        return r
    def tr1(self, e):
        if z3.is_quantifier(e) or z3.is_var(e) or not e.children():
            return e
        ch = [self.tr(x) for x in e.children()]
        if e.decl().kind() == z3.Z3_OP_MUL:
            nums = [x for x in ch if z3.is_rational_value(x) or z3.is_int_value(x)]
            rest = sorted([x for x in ch if not (z3.is_rational_value(x) or z3.is_int_value(x))], key=lambda x: x.get_id())
            if len(rest) > 1:
                f = NLR if z3.is_real(e) else NLI
                r = rest[0]
                for x in rest[1:]:
                    r = f(r, x)
                for x in nums:
                    r = x * r
                return r
        if all(a.eq(b) for a, b in zip(ch, e.children())):
            return e
        return e.decl()(*ch)

def has_quantifier(e, cache):
    k = e.get_id()
    if k not in cache:
        cache[k] = (z3.is_quantifier(e) or any(has_quantifier(x, cache) for x in e.children()), e)
    return cache[k][0]

def linear_unsat(c, goal, timeout=1500):
    """is goal inconsistent with the path condition in the linear relaxation"""
    lin = c.__dict__.setdefault('linear', Linear())
    if 'linsolver' not in c.__dict__:
        c.linsolver = z3.Solver(); c.linpos = 0
    s = c.linsolver
    s.set('timeout', timeout)
    while c.linpos < len(c.pcs):
        f = c.pcs[c.linpos]
        c.linpos += 1
        if has_quantifier(f, lin.__dict__.setdefault('qc', {})):
            continue
        try:
            s.add(lin.tr(f))
        except z3.Z3Exception:
            pass
    s.push()
    s.add(lin.tr(goal))
    r = s.check()
    s.pop()
    return r == z3.unsat

CONFIGS = [(True, {'mbqi': False, 'relevancy': 0}), (False, {'mbqi': False}), (True, {'mbqi': False, 'auto_config': False})]
# nearly no arithmetic
TEXT = (True, {'mbqi': False, 'arith.solver': 2})
def portfolio(facts, goal, rlimit, n=3, text=False):
    """is the goal implied?  Instantiation by triggers only (a missing instance ends in 'unknown' at once instead of a model search),
    several configurations, deterministic limits"""
    for simple, opts in ([TEXT] if text else []) + CONFIGS[:n]:
        s = z3.SimpleSolver() if simple else z3.Solver()
        for k, v in opts.items():
            s.set(k, v)
        s.set('rlimit', rlimit)
        s.add(facts)
        s.add(z3.Not(goal))
        if s.check() == z3.unsat:
            return True
    return False
