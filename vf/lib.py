"""Assumed contracts of the dependencies (FLINT, GMP, libc).

Everything in this file is an ASSUMPTION about code outside /repo.  Each contract states
what the FLINT/GMP/libc manual documents; `python3-vt -m vf.validate` samples them against
the installed libraries.

Abstract values
  Fmpz(v)              an integer (mathematical)
  Arf(v,k)             k: 0 finite, 1 +inf, 2 -inf, 3 NaN
  Mag(v,inf,pts)       nonnegative radius; pts = ghost list of reals that ops track
  an arb_t             = Arf at +0 and Mag at +32
  NfElem(val,nf)       exact element, val = real number it represents
  NfCore(gamma,...)    the inside of an nf_t
"""
import z3
from .ir import Unsupported
from .core import (Obj, Ptr, NULL, FnPtr, Region, Vec, Tok, UNDEF, R, R0, is_sym, simp, toB, unsigned, wrap,
                   PathEnd, Infeasible, addoff, I64MIN, I64MAX, DINF)

A = {}          # name -> contract
NOTES = {}

def lib(*names):
    def d(f):
        for n in names:
            A[n] = f
        return f
    return d

IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
ArrS = z3.ArraySort(IntS, IntS)
H = z3.Function('H', ArrS, IntS, IntS, RealS, RealS)      # H(c,i,n,x) = sum_{j=i}^{n-1} c[j] x^(j-i)
RAT = z3.Function('RAT', RealS, BoolS)
CANON = z3.Function('CANON', IntS, IntS, BoolS)
NUMR, DENR = z3.Function('NUMR', RealS, IntS), z3.Function('DENR', RealS, IntS)   # of a rational number, in lowest terms
POW = z3.Function('POW', RealS, IntS, RealS)
RELACC = z3.Function('RELACC', RealS, IntS, RealS, BoolS, IntS)
POW2 = z3.Function('POW2', IntS, RealS)
PolyS = z3.DeclareSort('Poly')
PV = z3.Function('PV', ArrS, IntS, IntS, PolyS)            # the polynomial with coefficients c[i], ..., c[i+n-1]
EV = z3.Function('EV', PolyS, RealS, RealS)                # its value at a point
NRO = z3.Function('NRO', PolyS, RealS, RealS, IntS)        # number of its real roots in the open interval
SQF = z3.Function('SQF', PolyS, BoolS)                     # nonzero and without multiple roots
ROOT = z3.Function('ROOT', ArrS, IntS, RealS, RealS, RealS) # some root of the polynomial in [lo,hi], if there is one
ROLLE = z3.Function('ROLLE', ArrS, IntS, RealS, RealS, RealS) # some root of the derivative in [lo,hi], if there is one
IRRED = z3.Function('IRRED', ArrS, IntS, IntS, BoolS)            # irreducible over the rationals
ISO = z3.Function('ISO', ArrS, IntS, RealS, RealS, BoolS)   # at most one root of the polynomial in [lo,hi]

def Z(x):
    return z3.IntVal(x) if isinstance(x, int) else x

def b2i(c):
    if isinstance(c, bool):
        return 1 if c else 0
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))

def sgn_of(x):
    x = R(x) if isinstance(x, int) else x
    return z3.If(x > 0, z3.IntVal(1), z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0)))

# ------------------------------------------------------------------ objects
class Fmpz(Obj):
    size = 8
    kind = 'fmpz'
    def __init__(self, v, tok=None):
        self.v, self.tok = v, tok
    def havoc(self, c):
        return Fmpz(c.fresh('z'), self.tok)
    def same(self, o):
        return isinstance(o, Fmpz) and term_eq(self.v, o.v)

class Arf(Obj):
    size = 32
    kind = 'arf'
    def __init__(self, v, k, tok=None):
        self.v, self.k, self.tok = v, k, tok
    def havoc(self, c):
        k = c.fresh('k'); c.assume(z3.And(k >= 0, k <= 3))
        return Arf(c.fresh('m', 'Real'), k, self.tok)
    def same(self, o):
        return isinstance(o, Arf) and term_eq(self.v, o.v) and term_eq(self.k, o.k)

class Mag(Obj):
    size = 16
    kind = 'mag'
    def __init__(self, v, inf, pts=(), tok=None):
        self.v, self.inf, self.pts, self.tok = v, inf, list(pts), tok
    def havoc(self, c):
        v = c.fresh('r', 'Real'); c.assume(v >= 0)
        return Mag(v, c.fresh('ri', 'Bool'), self.pts, self.tok)
    def same(self, o):
        return isinstance(o, Mag) and term_eq(self.v, o.v) and term_eq(self.inf, o.inf)

class Mpz(Obj):
    size = 16
    kind = 'mpz'
    def __init__(self, v, tok=None):
        self.v, self.tok = v, tok
    def havoc(self, c):
        return Mpz(c.fresh('z'), self.tok)
    def same(self, o):
        return isinstance(o, Mpz) and term_eq(self.v, o.v)

class NfCore(Obj):
    size = 72
    kind = 'nfcore'
    def __init__(self, gamma, lin, quad, plen, tok=None):
        self.gamma, self.lin, self.quad, self.plen, self.tok = gamma, lin, quad, plen, tok
    def same(self, o):
        return o is self
    def havoc(self, c):
        raise Unsupported('field modified in a loop')

class NfElem(Obj):
    size = 32
    kind = 'nfelem'
    def __init__(self, val, nf, tok=None, views=None):
        self.val, self.nf, self.tok = val, nf, tok
        self.views = views or {}
    def havoc(self, c):
        v = c.fresh('val', 'Real')
        return new_elem_obj(c, v, self.nf, self.tok)
    def same(self, o):
        return isinstance(o, NfElem) and o.nf is self.nf and (o is self or (self.val is not None and o.val is not None and term_eq(self.val, o.val)))
    def which(self, c):
        if 'raw' in self.views:
            return self.views['raw']
        if c.decide(self.nf.lin, 'linear field'):
            return 'lin'
        if c.decide(self.nf.quad, 'quadratic field'):
            return 'quad'
        return 'poly'
    def view(self, c, w):
        if w in self.views:
            return self.views[w]
        v = self.val
        if w == 'lin':
            n, d = c.fresh('lnum'), c.fresh('lden')
            c.assume(z3.And(d > 0, v == R(n)/R(d), v*R(d) == R(n), CANON(n, d)))
            c.assume(z3.And((v > 0) == (n > 0), (v < 0) == (n < 0), n == NUMR(v), d == DENR(v)))
            r = [n, d]
        elif w == 'quad':
            a, b, d = c.fresh('q0'), c.fresh('q1'), c.fresh('qden')
            g = self.nf.gamma
            c.assume(z3.And(d > 0, v == (R(a) + R(b)*g)/R(d), RAT(v) == (b == 0)))
            c.assume(z3.Implies(b == 0, z3.And(v == R(a)/R(d), v*R(d) == R(a), (v > 0) == (a > 0), (v < 0) == (a < 0), CANON(a, d))))
            c.assume(z3.Implies(v == 0, z3.And(a == 0, b == 0)))
            c.assume(z3.Implies(b == 0, z3.And(a == NUMR(v), d == DENR(v))))
            r = [a, b, z3.IntVal(0), d]
        else:
            arr = c.fresh_arr('ecoef'); n = c.fresh('elen'); d = c.fresh('eden')
            g = self.nf.gamma
            reg = c.region('coeffs', 'heap', None, 'coefficients')
            al = c.fresh('ealloc')
            c.assume(z3.And(n >= 0, n < self.nf.plen, al >= n, al >= 1, al >= 2*self.nf.plen - 3, d > 0))
            c.assume(z3.And(v == H(arr, 0, n, g)/R(d), RAT(v) == (n <= 1), (v == 0) == (n == 0)))
            c.assume(z3.Implies(n > 0, arr[n-1] != 0))
            a0 = arr[0]
            c.assume(z3.Implies(n == 1, z3.And(v == R(a0)/R(d), v*R(d) == R(a0), (v > 0) == (a0 > 0), (v < 0) == (a0 < 0), CANON(a0, d))))
            c.assume(z3.And(z3.Implies(n == 1, z3.And(a0 == NUMR(v), d == DENR(v))), z3.Implies(n == 0, z3.And(NUMR(v) == 0, d == 1, DENR(v) == 1))))
            reg.vec = Vec('fmpz', 8, arr, al)
            reg.const = True
            r = [reg, n, d, al]
        # a canonical representation of an integer has denominator one
        c.assume(z3.And(z3.Implies(z3.IsInt(v), z3.And(d == 1, RAT(v))), d == DEN(v, self.nf.gamma)))
        self.views[w] = r
        return r
    def zref(self, c, rel):
        """index into the current view of the fmpz at byte rel"""
        w = self.which(c)
        if w == 'lin':
            if rel in (0, 8):
                return w, rel // 8
        elif w == 'quad':
            if rel in (0, 8, 16, 24):
                return w, rel // 8
        else:
            if rel == 24:
                return w, 2
        c.fail('integer access at +%d of an element of a %s field' % (rel, w))
    def load(self, c, reg, base, rel, ty, size):
        w = self.which(c)
        if w == 'poly':
            v = self.view(c, w)
            if rel == 0 and size == 8:
                return Ptr(v[0], 0)
            if rel == 16 and size == 8:
                return v[1]
            if rel == 8 and size == 8:
                return v[3]
            raise Unsupported('raw load from element')
        c.fail('polynomial access to an element of a %s field' % w)

def term_eq(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        return False
    return a == b

def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, Obj):
        return a.same(b) and a.tok is b.tok if isinstance(b, Obj) else False
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.reg is b.reg and term_eq(a.off, b.off)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if type(a) in (int, bool) and type(b) in (int, bool):
        return a == b
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        return term_eq(a, b)
    return False

def new_elem_obj(c, val, nf, tok):
    e = NfElem(val, nf, tok)
    c.assume(z3.Implies(nf.lin, RAT(val)))
    return e

# ------------------------------------------------------------------ fmpz access
def rd_z(c, p):
    p = c.check_ptr(p, 'read of fmpz')
    if p.reg.vec is not None:
        v = p.reg.vec
        if v.kind != 'fmpz':
            raise Unsupported('fmpz in %s vector' % v.kind)
        i = c.vec_index(p, 8, 'read')
        if v.extra is not None:
            v.extra(c, v, i)
        touch_index(c, v.arr, i)
        return z3.Select(v.arr, Z(i))
    if is_sym(p.off):
        raise Unsupported('fmpz at symbolic offset')
    cv = c.cover(p.reg, p.off)
    if cv is None:
        c.fail('use of an uninitialised fmpz (%s+%d)' % (p.reg.name, p.off))
    b, o, s = cv
    if isinstance(o, Fmpz):
        return o.v
    if isinstance(o, NfElem):
        w, i = o.zref(c, p.off - b)
        return o.view(c, w)[i]
    if isinstance(o, int) and s == 8 and b == p.off:
        if -(1 << 62) < o < (1 << 62):
            return z3.IntVal(o)
    raise Unsupported('not an fmpz: %r' % (o,))

def wr_z(c, p, v):
    """assign to an initialised fmpz"""
    v = Z(v)
    p = c.check_ptr(p, 'write of fmpz')
    if p.reg.const:
        raise Unsupported('write into coefficients of an element')
    if p.reg.vec is not None:
        vec = p.reg.vec
        if vec.kind != 'fmpz':
            raise Unsupported('fmpz in %s vector' % vec.kind)
        i = c.vec_index(p, 8, 'write')
        p.reg.vec = vec.with_(arr=z3.Store(vec.arr, Z(i), v))
        return
    if is_sym(p.off):
        raise Unsupported('fmpz at symbolic offset')
    cv = c.cover(p.reg, p.off)
    if cv is None:
        c.fail('assignment to an uninitialised fmpz (%s+%s)' % (p.reg.name, p.off))
    b, o, s = cv
    if isinstance(o, Fmpz):
        p.reg.cells[b] = (Fmpz(v, o.tok), 8)
        return
    if isinstance(o, NfElem):
        w, i = o.zref(c, p.off - b)
        vs = list(o.view(c, w))
        vs[i] = v
        p.reg.cells[b] = (NfElem(None, o.nf, o.tok, {'raw': w, w: vs}), s)
        return
    if isinstance(o, int) and s == 8:
        p.reg.cells[b] = (Fmpz(v), 8)
        return
    raise Unsupported('not an fmpz: %r' % (o,))

def touch_index(c, arr, i):
    for f in c.ghost.get('unfold', ()):
        f(c, arr, i)
    touch_horner(c, arr, i)

def touch_horner(c, arr, i):
    """Horner unfolding at an index that is read (definition of H)"""
    for (n, x) in c.ghost.get('hpts', []):
        i_ = Z(i)
        inst = (arr.get_id(), i_.get_id(), n.get_id(), x.get_id())
        if inst in c.ghost.setdefault('hinst', set()):
            continue
        c.ghost['hinst'].add(inst)
        c.assume(z3.Implies(z3.And(i_ >= 0, i_ < n), H(arr, i_, n, x) == R(z3.Select(arr, i_)) + x*H(arr, i_+1, n, x)))
        c.assume(H(arr, n, n, x) == 0)

def add_hpt(c, n, x):
    l = c.ghost.setdefault('hpts', [])
    n = Z(n)
    for a, b in l:
        if a.eq(n) and b.eq(x):
            return
    l.append((n, x))

def elem(c, p, what='use'):
    p = c.check_ptr(p, what + ' of element')
    if is_sym(p.off):
        raise Unsupported('element at symbolic offset')
    o = c.get(p)
    if o is None or o is UNDEF:
        c.fail('use of an uninitialised number field element (%s)' % p.reg.name)
    if not isinstance(o, NfElem):
        raise Unsupported('not an element: %r' % (o,))
    if o.val is None:
        w = o.views['raw']
        v = o.views[w]
        if w == 'lin':
            n, d = v
            c.prove(z3.And(d > 0, CANON(n, d)), 'element of a linear field is a canonical fraction', 'post')
            val = R(n)/R(d)
            c.assume(RAT(val))
            c.assume(z3.And((val > 0) == (n > 0), (val < 0) == (n < 0), val*R(d) == R(n)))
            o2 = NfElem(val, o.nf, o.tok, {'lin': [n, d]})
        else:
            raise Unsupported('raw quadratic element')
        p.reg.cells[p.off] = (o2, 32)
        return o2
    return o

def put_elem(c, p, val, nf, tokfrom):
    o = new_elem_obj(c, val, nf, tokfrom.tok)
    c.put(p, o, 32)
    return o

def core(c, p):
    """NfCore of an nf_t pointer"""
    p = c.check_ptr(p, 'use of number field')
    o = c.get(Ptr(p.reg, addoff(p.off, 32)))
    if not isinstance(o, NfCore):
        if o is None or o is UNDEF:
            c.fail('use of an uninitialised number field')
        raise Unsupported('not a field')
    return o

def same_field(c, o, nf, what):
    if o.nf is not nf:
        c.prove(False, '%s: element used with another number field' % what, 'pre')

def arf_at(c, p):
    p = c.check_ptr(p, 'use of arf')
    o = c.get(p)
    if o is None or o is UNDEF:
        c.fail('use of an uninitialised arf/arb (%s+%s)' % (p.reg.name, p.off))
    if not isinstance(o, Arf):
        raise Unsupported('not an arf: %r' % (o,))
    return o

def mag_at(c, p):
    p = c.check_ptr(p, 'use of mag')
    o = c.get(p)
    if o is None or o is UNDEF:
        c.fail('use of an uninitialised mag (%s+%s)' % (p.reg.name, p.off))
    if not isinstance(o, Mag):
        raise Unsupported('not a mag')
    return o

class Ball:
    def __init__(self, m, r):
        self.m, self.r = m, r
    @property
    def lo(self):
        return self.m.v - self.r.v
    @property
    def hi(self):
        return self.m.v + self.r.v
    def fin(self):
        return z3.And(Z(self.m.k) == 0, z3.Not(toB(self.r.inf)))
    def has(self, p):
        return z3.Or(toB(self.r.inf), Z(self.m.k) == 3, z3.And(Z(self.m.k) == 0, self.m.v - self.r.v <= p, p <= self.m.v + self.r.v))
    def pts(self):
        l = list(self.r.pts)
        if term_eq(self.r.v, RZERO):
            l.insert(0, self.m.v)
        return dedupe(l)
    def relacc(self):
        return RELACC(self.m.v, Z(self.m.k), self.r.v, toB(self.r.inf))

RZERO = z3.RealVal(0)

def dedupe(l, lim=10):
    out = []
    for x in l:
        x = z3.simplify(x) if isinstance(x, z3.ExprRef) else z3.RealVal(x)
        if not any(x.eq(y) for y in out):
            out.append(x)
    return out[:lim]

def ball(c, p):
    p = c.check_ptr(p, 'use of arb')
    return Ball(arf_at(c, p), mag_at(c, Ptr(p.reg, addoff(p.off, 32))))

def wf_ball(m, r):
    return z3.And(r.v >= 0, Z(m.k) >= 0, Z(m.k) <= 3, z3.Implies(Z(m.k) != 0, toB(r.inf)))

def set_ball(c, p, mv, k, rv, inf, pts):
    """overwrite an initialised arb"""
    old = ball(c, p)
    m = Arf(mv, k, old.m.tok)
    r = Mag(rv, inf, dedupe(pts), old.r.tok)
    p = c.norm(p)
    p.reg.cells[p.off] = (m, 32)
    p.reg.cells[p.off+32] = (r, 16)
    return Ball(m, r)

def fresh_ball(c, p, facts, name='b'):
    """result of a rounding operation: facts = list of (guard, point)"""
    mv = c.fresh(name + 'm', 'Real'); k = c.fresh(name + 'k'); rv = c.fresh(name + 'r', 'Real'); inf = c.fresh(name + 'i', 'Bool')
    b = set_ball(c, p, mv, k, rv, inf, [x for g, x in facts])
    c.assume(wf_ball(b.m, b.r))
    for g, x in facts:
        if g is True:
            c.assume(b.has(x))
        else:
            c.assume(z3.Implies(g, b.has(x)))
    return b

def need_prec(c, prec, what):
    if isinstance(prec, int):
        c.prove(prec >= 2, '%s: working precision at least 2 bits' % what, 'pre')
    else:
        c.prove(prec >= 2, '%s: working precision at least 2 bits' % what, 'pre')

# ------------------------------------------------------------------ fmpz contracts
@lib('fmpz_init')
def _(c, p):
    c.put(p, Fmpz(z3.IntVal(0), c.newtok('fmpz')), 8)

@lib('fmpz_init2')
def _(c, p, n):
    c.put(p, Fmpz(z3.IntVal(0), c.newtok('fmpz')), 8)

@lib('fmpz_init_set')
def _(c, p, q):
    c.put(p, Fmpz(Z(rd_z(c, q)), c.newtok('fmpz')), 8)

@lib('fmpz_init_set_si')
def _(c, p, v):
    c.put(p, Fmpz(Z(v), c.newtok('fmpz')), 8)

@lib('fmpz_init_set_ui')
def _(c, p, v):
    c.put(p, Fmpz(Z(unsigned(v, 64)), c.newtok('fmpz')), 8)

def kill(c, p, o, what):
    if o.tok is not None:
        if not o.tok.alive:
            c.fail('%s released twice' % what)
        if o.tok.key.startswith('ro@') or o.tok.key.startswith('param@') and o.tok.what == 'borrowed':
            c.fail('%s: release of something not owned' % what)
        o.tok.alive = False
    p.reg.cells.pop(p.off, None)

@lib('fmpz_clear')
def _(c, p):
    p = c.check_ptr(p, 'fmpz_clear')
    if p.reg.vec is not None:
        raise Unsupported('fmpz_clear in vector')
    o = c.get(p)
    if o is None or o is UNDEF:
        c.fail('fmpz_clear of something not initialised')
    if not isinstance(o, Fmpz):
        raise Unsupported('fmpz_clear')
    if o.tok is not None and o.tok.what == 'fmpz-readonly':
        c.fail('fmpz_clear of a readonly view')
    kill(c, p, o, 'fmpz')

@lib('fmpz_zero')
def _(c, p): wr_z(c, p, 0)
@lib('fmpz_one')
def _(c, p): wr_z(c, p, 1)
@lib('fmpz_set', 'fmpz_abs', 'fmpz_neg')
def _(c, p, q): pass
A['fmpz_set'] = lambda c, p, q: wr_z(c, p, rd_z(c, q))
A['fmpz_neg'] = lambda c, p, q: wr_z(c, p, -rd_z(c, q))
def _abs(c, p, q):
    v = rd_z(c, q)
    wr_z(c, p, z3.If(v >= 0, v, -v))
A['fmpz_abs'] = _abs
A['fmpz_set_si'] = lambda c, p, v: wr_z(c, p, v)
A['fmpz_set_ui'] = lambda c, p, v: wr_z(c, p, unsigned(v, 64))
A['fmpz_add'] = lambda c, p, a, b: wr_z(c, p, rd_z(c, a) + rd_z(c, b))
A['fmpz_sub'] = lambda c, p, a, b: wr_z(c, p, rd_z(c, a) - rd_z(c, b))
A['fmpz_mul'] = lambda c, p, a, b: wr_z(c, p, rd_z(c, a) * rd_z(c, b))
A['fmpz_addmul'] = lambda c, p, a, b: wr_z(c, p, rd_z(c, p) + rd_z(c, a) * rd_z(c, b))
A['fmpz_submul'] = lambda c, p, a, b: wr_z(c, p, rd_z(c, p) - rd_z(c, a) * rd_z(c, b))
A['fmpz_add_ui'] = lambda c, p, a, b: wr_z(c, p, rd_z(c, a) + unsigned(b, 64))
A['fmpz_sub_ui'] = lambda c, p, a, b: wr_z(c, p, rd_z(c, a) - unsigned(b, 64))
A['fmpz_mul_ui'] = lambda c, p, a, b: wr_z(c, p, rd_z(c, a) * unsigned(b, 64))
A['fmpz_add_si'] = lambda c, p, a, b: wr_z(c, p, rd_z(c, a) + b)
A['fmpz_sub_si'] = lambda c, p, a, b: wr_z(c, p, rd_z(c, a) - b)
A['fmpz_mul_si'] = lambda c, p, a, b: wr_z(c, p, rd_z(c, a) * b)
A['fmpz_sgn'] = lambda c, p: sgn_of(rd_z(c, p))
A['fmpz_is_zero'] = lambda c, p: b2i(rd_z(c, p) == 0)
A['fmpz_is_one'] = lambda c, p: b2i(rd_z(c, p) == 1)
A['fmpz_is_pm1'] = lambda c, p: b2i(z3.Or(rd_z(c, p) == 1, rd_z(c, p) == -1))
A['fmpz_equal'] = lambda c, p, q: b2i(rd_z(c, p) == rd_z(c, q))
A['fmpz_equal_si'] = lambda c, p, q: b2i(rd_z(c, p) == Z(q))
A['fmpz_equal_ui'] = lambda c, p, q: b2i(rd_z(c, p) == Z(unsigned(q, 64)))
A['fmpz_cmp'] = lambda c, p, q: sgn_of(rd_z(c, p) - rd_z(c, q))
A['fmpz_cmp_si'] = lambda c, p, q: sgn_of(rd_z(c, p) - Z(q))
A['fmpz_cmp_ui'] = lambda c, p, q: sgn_of(rd_z(c, p) - Z(unsigned(q, 64)))
A['fmpz_is_even'] = lambda c, p: b2i(rd_z(c, p) % 2 == 0)
A['fmpz_is_odd'] = lambda c, p: b2i(rd_z(c, p) % 2 == 1)
A['fmpz_fits_si'] = lambda c, p: b2i(z3.And(rd_z(c, p) >= I64MIN, rd_z(c, p) <= I64MAX))
A['fmpz_abs_fits_ui'] = lambda c, p: b2i(z3.And(rd_z(c, p) > -(1 << 64), rd_z(c, p) < (1 << 64)))

@lib('fmpz_get_si')
def _(c, p):
    v = rd_z(c, p)
    r = c.fresh('si')
    c.assume(z3.And(r >= I64MIN, r <= I64MAX, z3.Implies(z3.And(v >= I64MIN, v <= I64MAX), r == v)))
    return r

@lib('fmpz_get_ui')
def _(c, p):
    v = rd_z(c, p)
    r = c.fresh('ui')
    c.assume(z3.And(r >= I64MIN, r <= I64MAX, z3.Implies(z3.And(v >= 0, v < (1 << 64)), unsigned(r, 64) == v)))
    return r

@lib('fmpz_swap')
def _(c, p, q):
    a, b = rd_z(c, p), rd_z(c, q)
    wr_z(c, p, b); wr_z(c, q, a)

def zdiv(kind):
    def f(c, p, a, b):
        n, d = rd_z(c, a), rd_z(c, b)
        c.prove(d != 0, 'division by a nonzero integer', 'pre')
        q = c.fresh('quo')
        int_split(c, q)
        t = R(n)/R(d)
        if kind == 'f':
            c.assume(z3.And(R(q) <= t, t < R(q) + 1))
            c.assume(z3.If(d > 0, z3.And(q*d <= n, n < (q+1)*d), z3.And(q*d >= n, n > (q+1)*d)))
        elif kind == 'c':
            c.assume(z3.And(R(q) >= t, t > R(q) - 1))
            c.assume(z3.If(d > 0, z3.And(q*d >= n, n > (q-1)*d), z3.And(q*d <= n, n < (q-1)*d)))
        elif kind == 't':
            c.assume(z3.If(t >= 0, z3.And(R(q) <= t, t < R(q) + 1), z3.And(R(q) >= t, t > R(q) - 1)))
        elif kind == 'x':
            c.assume(z3.Implies(n % d == 0, q*d == n))
            if z3.is_app(d) and d.decl().name() == 'GCD' and z3.is_mul(n) and any(u.eq(v) for u in n.children() for v in d.children()):
                c.assume(q*d == n)               # gcd(x, y) divides every multiple of x
        wr_z(c, p, q)
    return f
A['fmpz_fdiv_q'] = zdiv('f')
A['fmpz_cdiv_q'] = zdiv('c')
A['fmpz_tdiv_q'] = zdiv('t')
A['fmpz_divexact'] = zdiv('x')

@lib('fmpz_gcd')
def _(c, p, a, b):
    x, y = rd_z(c, a), rd_z(c, b)
    g = GCD(x, y)
    c.assume(z3.And(g >= 0, (g == 0) == z3.And(x == 0, y == 0)))
    u, v = c.fresh('u'), c.fresh('v')
    c.assume(z3.And(x == g*u, y == g*v))
    wr_z(c, p, g)

GCD = z3.Function('GCD', IntS, IntS, IntS)
LCM = z3.Function('LCM', IntS, IntS, IntS)

@lib('fmpz_lcm')
def _(c, p, a, b):
    x, y = rd_z(c, a), rd_z(c, b)
    l = LCM(x, y)
    c.assume(z3.And(l >= 0, z3.Implies(z3.And(x != 0, y != 0), l > 0)))
    g = GCD(x, y)
    c.assume(z3.Implies(z3.And(x > 0, y > 0), l * g == x * y))
    wr_z(c, p, l)

@lib('fmpz_mul_2exp')
def _(c, p, a, e):
    x = rd_z(c, a)
    if isinstance(e, int):
        wr_z(c, p, x * (1 << e))
    else:
        r = c.fresh('sh')
        c.assume(R(r) == R(x) * POW2(e))
        wr_z(c, p, r)

@lib('fmpz_clog_ui', 'fmpz_flog_ui', 'fmpz_bits')
def _(c, p, b=None):
    r = c.fresh('lg')
    c.assume(z3.And(r >= 0, r <= (1 << 62)))
    return r

VAL2 = z3.Function('VAL2', IntS, IntS)                     # exponent of the highest power of two dividing a nonzero integer
P2 = z3.Function('P2', IntS, IntS)                         # 2^k for k >= 0
FDIV2 = z3.Function('FDIV2', IntS, IntS, IntS)             # floor(x / 2^e)
@lib('fmpz_val2')
def _(c, p):
    x = rd_z(c, p)
    r = VAL2(x)
    c.assume(z3.And(r >= 0, r <= (1 << 62), z3.Implies(x >= 1, P2(r) <= x)))
    lemmas(c, 'val2', x)
    return r
@lib('fmpz_fdiv_q_2exp')
def _(c, f, g, e):
    x = rd_z(c, g)
    e = unsigned(e, 64)
    r = FDIV2(x, Z(e))
    c.assume(z3.Implies(Z(e) == 0, r == x))
    c.assume(z3.Implies(x >= 0, r >= 0))
    wr_z(c, f, r)
def lemmas(c, op, *args):
    """instances of the theory of the contract that is being verified"""
    f = c.ghost.get('lemmas')
    if f is not None:
        f(c, op, *args)
def sub_vec(c, p, n, what):
    """(region, element index) of a part of a coefficient vector"""
    from .core import off_div
    p = c.check_ptr(p, what)
    if p.reg.vec is None or p.reg.vec.kind != 'fmpz':
        raise Unsupported(what)
    o = off_div(p.off, 8)
    c.prove(z3.And(Z(o) >= 0, Z(n) >= 0, Z(o) + Z(n) <= Z(p.reg.vec.length)), '%s within bounds' % what, 'mem')
    if p.reg.const:
        raise Unsupported('write into coefficients of an element')
    return p.reg, Z(o)
RATV = z3.Function('RATV', IntS, IntS, RealS)              # n / d
MUL2 = z3.Function('MUL2', RealS, IntS, RealS)             # x 2^e
def q_2exp(s):
    def f(c, r, x, e):
        n, d = rd_z(c, x), rd_z(c, Ptr(x.reg, addoff(x.off, 8)))
        e = Z(unsigned(e, 64))
        c.prove(d > 0, 'positive denominator', 'pre')
        n2, d2 = c.fresh('n2'), c.fresh('d2')
        c.assume(z3.And(d2 > 0, CANON(n2, d2), RATV(n2, d2) == MUL2(RATV(n, d), s*e), z3.Implies(d == 1, RATV(n, d) == R(n)), z3.Implies(e == 0, RATV(n2, d2) == RATV(n, d))))
        wr_z(c, r, n2); wr_z(c, Ptr(r.reg, addoff(r.off, 8)), d2)
        lemmas(c, 'q2exp', n, d, n2, d2, s*e)
    return f
A['fmpq_mul_2exp'] = q_2exp(1)
A['fmpq_div_2exp'] = q_2exp(-1)
SC = z3.Function('SC', PolyS, IntS, PolyS)                 # a positive multiple of P(2^e x)
TS = z3.Function('TS', PolyS, IntS, PolyS)                 # P(x + c)
C0Z = z3.Function('C0Z', PolyS, BoolS)                     # the constant coefficient is zero
def pv_def(c, arr, o, n):
    """the polynomial in a vector; its constant coefficient"""
    P = PV(arr, Z(o), Z(n))
    c.assume(z3.Implies(Z(n) >= 1, C0Z(P) == (arr[Z(o)] == 0)))
    return P
@lib('_fmpz_poly_scale_2exp')
def _(c, p, n, e):
    reg, o = sub_vec(c, p, n, '_fmpz_poly_scale_2exp')
    a, n = reg.vec.arr, Z(n)
    b = c.fresh_arr('sc')
    c.assume(pv_def(c, b, o, n) == SC(pv_def(c, a, o, n), Z(e)))
    c.assume(z3.Implies(n >= 1, z3.And((b[o] == 0) == (a[o] == 0), (b[o+n-1] == 0) == (a[o+n-1] == 0))))
    lemmas(c, 'scale', PV(a, o, n), PV(b, o, n), Z(e))
    for y in c.ghost.get('evpts', []):
        k = c.fresh('k2', 'Real')
        c.assume(z3.And(k > 0, H(b, o, o + n, y) == k*H(a, o, o + n, y*POW2(Z(e)))))
    reg.vec = reg.vec.with_(arr=b)
@lib('_fmpz_poly_taylor_shift')
def _(c, p, x, n):
    reg, o = sub_vec(c, p, n, '_fmpz_poly_taylor_shift')
    x = rd_z(c, x)
    a, n = reg.vec.arr, Z(n)
    b = c.fresh_arr('ts')
    c.assume(pv_def(c, b, o, n) == TS(pv_def(c, a, o, n), x))
    c.assume(z3.Implies(n >= 1, b[o+n-1] == a[o+n-1]))
    lemmas(c, 'shift', PV(a, o, n), PV(b, o, n), x)
    lemmas(c, 'shiftv', a, o, n, b, x)
    for y in c.ghost.get('evpts', []):
        c.assume(H(b, o, o + n, y) == H(a, o, o + n, y + R(x)))
    reg.vec = reg.vec.with_(arr=b)

@lib('fmpz_init_set_readonly')
def _(c, p, m):
    v = mpz_at(c, m)
    c.put(p, Fmpz(v.v, c.newtok('fmpz-readonly')), 8)

@lib('fmpz_clear_readonly')
def _(c, p):
    p = c.check_ptr(p, 'fmpz_clear_readonly')
    o = c.get(p)
    if not isinstance(o, Fmpz) or o.tok is None or o.tok.what != 'fmpz-readonly':
        c.fail('fmpz_clear_readonly of something that is not a readonly view')
    kill(c, p, o, 'fmpz')

@lib('fmpq_init_set_readonly')
def _(c, p, m):
    a = mpz_at(c, m); b = mpz_at(c, Ptr(m.reg, addoff(m.off, 16)))
    c.put(p, Fmpz(a.v, c.newtok('fmpz-readonly')), 8)
    c.put(Ptr(p.reg, addoff(p.off, 8)), Fmpz(b.v, c.newtok('fmpz-readonly')), 8)

@lib('fmpq_clear_readonly')
def _(c, p):
    A['fmpz_clear_readonly'](c, p)
    A['fmpz_clear_readonly'](c, Ptr(p.reg, addoff(p.off, 8)))

def mpz_at(c, p):
    p = c.check_ptr(p, 'use of mpz')
    o = c.get(p)
    if o is None or o is UNDEF:
        c.fail('use of an uninitialised mpz')
    if not isinstance(o, Mpz):
        raise Unsupported('not an mpz: %r' % (o,))
    return o

def wr_mpz(c, p, v):
    o = mpz_at(c, p)
    p = c.norm(p)
    p.reg.cells[p.off] = (Mpz(Z(v), o.tok), 16)

@lib('__gmpz_init')
def _(c, p): c.put(p, Mpz(z3.IntVal(0), c.newtok('mpz')), 16)
@lib('__gmpz_init_set')
def _(c, p, q): c.put(p, Mpz(mpz_at(c, q).v, c.newtok('mpz')), 16)
@lib('__gmpz_init_set_si')
def _(c, p, v): c.put(p, Mpz(Z(v), c.newtok('mpz')), 16)
@lib('__gmpz_init_set_ui')
def _(c, p, v): c.put(p, Mpz(Z(unsigned(v, 64)), c.newtok('mpz')), 16)
@lib('__gmpz_clear')
def _(c, p):
    p = c.check_ptr(p, 'mpz_clear')
    o = c.get(p)
    if not isinstance(o, Mpz):
        c.fail('mpz_clear of something not initialised')
    kill(c, p, o, 'mpz')
A['__gmpz_set'] = lambda c, p, q: wr_mpz(c, p, mpz_at(c, q).v)
A['__gmpz_set_si'] = lambda c, p, v: wr_mpz(c, p, v)
A['__gmpz_set_ui'] = lambda c, p, v: wr_mpz(c, p, unsigned(v, 64))
A['__gmpz_neg'] = lambda c, p, q: wr_mpz(c, p, -mpz_at(c, q).v)
A['__gmpz_cmp'] = lambda c, p, q: sgn_of(mpz_at(c, p).v - mpz_at(c, q).v)
A['fmpz_get_mpz'] = lambda c, m, p: wr_mpz(c, m, rd_z(c, p))
A['fmpz_set_mpz'] = lambda c, p, m: wr_z(c, p, mpz_at(c, m).v)

@lib('__gmpq_init')
def _(c, p):
    c.put(p, Mpz(z3.IntVal(0), c.newtok('mpz')), 16)
    c.put(Ptr(p.reg, addoff(p.off, 16)), Mpz(z3.IntVal(1), c.newtok('mpz')), 16)
@lib('__gmpq_clear')
def _(c, p):
    A['__gmpz_clear'](c, p)
    A['__gmpz_clear'](c, Ptr(p.reg, addoff(p.off, 16)))
@lib('__gmpq_equal')
def _(c, p, q):
    return b2i(z3.And(mpz_at(c, p).v == mpz_at(c, q).v, mpz_at(c, Ptr(p.reg, addoff(p.off, 16))).v == mpz_at(c, Ptr(q.reg, addoff(q.off, 16))).v))

# ------------------------------------------------------------------ fmpq
def den(p):
    return Ptr(p.reg, addoff(p.off, 8))

def rd_q(c, p):
    n, d = rd_z(c, p), rd_z(c, den(c.check_ptr(p, 'use of fmpq')))
    c.prove(d > 0, 'denominator of a rational is positive', 'pre')
    return R(n)/R(d)

def wr_q(c, p, q):
    """store the canonical fraction of the real (rational) q"""
    n, d = c.fresh('qn'), c.fresh('qd')
    c.assume(z3.And(d > 0, R(n)/R(d) == q, R(n) == q*R(d), CANON(n, d)))
    wr_z(c, p, n); wr_z(c, den(p), d)

@lib('fmpq_init')
def _(c, p):
    c.put(p, Fmpz(z3.IntVal(0), c.newtok('fmpz')), 8)
    c.put(den(p), Fmpz(z3.IntVal(1), c.newtok('fmpz')), 8)
@lib('fmpq_clear')
def _(c, p):
    A['fmpz_clear'](c, p); A['fmpz_clear'](c, den(p))
@lib('fmpq_zero')
def _(c, p):
    wr_z(c, p, 0); wr_z(c, den(p), 1)
@lib('fmpq_one')
def _(c, p):
    c.assume(CANON(1, 1))
    wr_z(c, p, 1); wr_z(c, den(p), 1)
@lib('fmpq_set')
def _(c, p, q):
    a, b = rd_z(c, q), rd_z(c, den(q))
    wr_z(c, p, a); wr_z(c, den(p), b)
@lib('fmpq_neg')
def _(c, p, q):
    a, b = rd_z(c, q), rd_z(c, den(q))
    c.assume(z3.And(CANON(a, b) == CANON(-a, b), z3.Implies(Z(b) == 1, CANON(a, b))))
    wr_z(c, p, -a); wr_z(c, den(p), b)
@lib('fmpq_set_fmpz')
def _(c, p, q):
    a = rd_z(c, q)
    c.assume(CANON(a, 1))
    wr_z(c, p, a); wr_z(c, den(p), 1)
@lib('fmpq_set_si')
def _(c, p, a, b):
    b = unsigned(b, 64)
    c.prove(Z(b) != 0, 'nonzero denominator', 'pre')
    wr_q(c, p, R(Z(a))/R(Z(b)))
@lib('fmpq_set_fmpz_frac')
def _(c, p, a, b):
    x, y = rd_z(c, a), rd_z(c, b)
    c.prove(y != 0, 'nonzero denominator', 'pre')
    wr_q(c, p, R(x)/R(y))
@lib('_fmpq_canonicalise')
def _(c, p, q):
    x, y = rd_z(c, p), rd_z(c, q)
    c.prove(y != 0, 'nonzero denominator', 'pre')
    n, d = c.fresh('cn'), c.fresh('cd')
    c.assume(z3.And(d > 0, R(n)/R(d) == R(x)/R(y), R(n)*R(y) == R(x)*R(d), CANON(n, d)))
    wr_z(c, p, n); wr_z(c, q, d)
A['fmpq_canonicalise'] = lambda c, p: A['_fmpq_canonicalise'](c, p, den(p))
A['fmpq_is_zero'] = lambda c, p: b2i(rd_z(c, p) == 0)
A['fmpq_sgn'] = lambda c, p: sgn_of(rd_z(c, p))
A['fmpq_is_one'] = lambda c, p: b2i(z3.And(rd_z(c, p) == 1, rd_z(c, den(p)) == 1))
A['fmpq_equal'] = lambda c, p, q: b2i(z3.And(rd_z(c, p) == rd_z(c, q), rd_z(c, den(p)) == rd_z(c, den(q))))
def qop(f):
    def g(c, p, a, b):
        wr_q(c, p, f(rd_q(c, a), rd_q(c, b)))
    return g
A['fmpq_add'] = qop(lambda a, b: a + b)
A['fmpq_sub'] = qop(lambda a, b: a - b)
A['fmpq_mul'] = qop(lambda a, b: a * b)
@lib('fmpq_div')
def _(c, p, a, b):
    x, y = rd_q(c, a), rd_q(c, b)
    c.prove(y != 0, 'division by a nonzero rational', 'pre')
    wr_q(c, p, x/y)
@lib('fmpq_inv')
def _(c, p, a):
    x = rd_q(c, a)
    c.prove(x != 0, 'division by a nonzero rational', 'pre')
    wr_q(c, p, 1/x)

@lib('_fmpq_cmp')
def _(c, an, ad, bn, bd):
    a, b, x, y = rd_z(c, an), rd_z(c, ad), rd_z(c, bn), rd_z(c, bd)
    c.prove(z3.And(b > 0, y > 0), 'positive denominators', 'pre')
    r = c.fresh('cmp')
    p, q = R(a)/R(b), R(x)/R(y)
    c.assume(z3.And((r > 0) == (p > q), (r < 0) == (p < q)))
    c.assume(z3.And(r >= -(1 << 31) + 1, r < (1 << 31)))
    return r
A['fmpq_cmp'] = lambda c, p, q: A['_fmpq_cmp'](c, p, den(p), q, den(q))

# ------------------------------------------------------------------ arf / mag
@lib('arf_init')
def _(c, p): c.put(p, Arf(RZERO, z3.IntVal(0), c.newtok('arf')), 32)
@lib('mag_init')
def _(c, p): c.put(p, Mag(RZERO, z3.BoolVal(False), [], c.newtok('mag')), 16)
@lib('arf_clear')
def _(c, p):
    p = c.check_ptr(p, 'arf_clear')
    o = c.get(p)
    if o is None or o is UNDEF:
        c.fail('arf_clear of something not initialised')
    if not isinstance(o, Arf):
        raise Unsupported('arf_clear')
    kill(c, p, o, 'arf')
@lib('mag_clear')
def _(c, p):
    p = c.check_ptr(p, 'mag_clear')
    o = c.get(p)
    if o is None or o is UNDEF:
        c.fail('mag_clear of something not initialised')
    if not isinstance(o, Mag):
        raise Unsupported('mag_clear')
    kill(c, p, o, 'mag')
@lib('arb_init')
def _(c, p):
    A['arf_init'](c, p); A['mag_init'](c, Ptr(p.reg, addoff(p.off, 32)))
@lib('arb_clear')
def _(c, p):
    A['arf_clear'](c, p); A['mag_clear'](c, Ptr(p.reg, addoff(p.off, 32)))

def wr_arf(c, p, v, k=0):
    o = arf_at(c, p)
    p = c.norm(p)
    if isinstance(v, int):
        v = z3.RealVal(v)
    p.reg.cells[p.off] = (Arf(v, Z(k), o.tok), 32)

def wr_mag(c, p, v, inf=False, pts=None):
    o = mag_at(c, p)
    p = c.norm(p)
    p.reg.cells[p.off] = (Mag(v, toB(inf), o.pts if pts is None else pts, o.tok), 16)

A['arf_zero'] = lambda c, p: wr_arf(c, p, 0)
A['arf_one'] = lambda c, p: wr_arf(c, p, 1)
A['mag_zero'] = lambda c, p: wr_mag(c, p, RZERO)
A['mag_one'] = lambda c, p: wr_mag(c, p, z3.RealVal(1))
def _arfset(c, p, q):
    o = arf_at(c, q); wr_arf(c, p, o.v, o.k)
A['arf_set'] = _arfset
def _arfneg(c, p, q):
    o = arf_at(c, q); wr_arf(c, p, -o.v, z3.If(Z(o.k) == 1, z3.IntVal(2), z3.If(Z(o.k) == 2, z3.IntVal(1), Z(o.k))))
A['arf_neg'] = _arfneg
def _arfabs(c, p, q):
    o = arf_at(c, q); wr_arf(c, p, z3.If(o.v >= 0, o.v, -o.v), z3.If(Z(o.k) == 2, z3.IntVal(1), Z(o.k)))
A['arf_abs'] = _arfabs
A['arf_set_si'] = lambda c, p, v: wr_arf(c, p, R(Z(v)))
A['arf_set_ui'] = lambda c, p, v: wr_arf(c, p, R(Z(unsigned(v, 64))))
A['arf_set_fmpz'] = lambda c, p, q: wr_arf(c, p, R(rd_z(c, q)))
@lib('arf_swap')
def _(c, p, q):
    a, b = arf_at(c, p), arf_at(c, q)
    p, q = c.norm(p), c.norm(q)
    p.reg.cells[p.off] = (b, 32); q.reg.cells[q.off] = (a, 32)
@lib('mag_swap')
def _(c, p, q):
    a, b = mag_at(c, p), mag_at(c, q)
    p, q = c.norm(p), c.norm(q)
    p.reg.cells[p.off] = (b, 16); q.reg.cells[q.off] = (a, 16)
@lib('arb_swap')
def _(c, p, q):
    A['arf_swap'](c, p, q)
    A['mag_swap'](c, Ptr(p.reg, addoff(p.off, 32)), Ptr(q.reg, addoff(q.off, 32)))
A['arf_is_inf'] = lambda c, p: b2i(z3.Or(Z(arf_at(c, p).k) == 1, Z(arf_at(c, p).k) == 2))
A['arf_is_nan'] = lambda c, p: b2i(Z(arf_at(c, p).k) == 3)
A['arf_is_finite'] = lambda c, p: b2i(Z(arf_at(c, p).k) == 0)
A['arf_is_zero'] = lambda c, p: b2i(z3.And(Z(arf_at(c, p).k) == 0, arf_at(c, p).v == 0))
A['arf_is_pos_inf'] = lambda c, p: b2i(Z(arf_at(c, p).k) == 1)
A['arf_is_neg_inf'] = lambda c, p: b2i(Z(arf_at(c, p).k) == 2)
A['arf_is_special'] = lambda c, p: b2i(z3.Or(Z(arf_at(c, p).k) != 0, arf_at(c, p).v == 0))
A['arf_is_one'] = lambda c, p: b2i(z3.And(Z(arf_at(c, p).k) == 0, arf_at(c, p).v == 1))
A['mag_is_inf'] = lambda c, p: b2i(toB(mag_at(c, p).inf))
A['mag_is_finite'] = lambda c, p: b2i(z3.Not(toB(mag_at(c, p).inf)))
A['mag_is_zero'] = lambda c, p: b2i(z3.And(z3.Not(toB(mag_at(c, p).inf)), mag_at(c, p).v == 0))
A['arf_equal'] = lambda c, p, q: b2i(z3.And(Z(arf_at(c, p).k) == Z(arf_at(c, q).k), z3.Or(Z(arf_at(c, p).k) != 0, arf_at(c, p).v == arf_at(c, q).v)))
@lib('arf_sgn')
def _(c, p):
    o = arf_at(c, p)
    return z3.If(Z(o.k) == 0, sgn_of(o.v), z3.If(Z(o.k) == 1, z3.IntVal(1), z3.If(Z(o.k) == 2, z3.IntVal(-1), z3.IntVal(0))))
@lib('arf_cmp')
def _(c, p, q):
    a, b = arf_at(c, p), arf_at(c, q)
    r = c.fresh('acmp')
    c.assume(z3.And(r >= -1, r <= 1))
    c.assume(z3.Implies(z3.And(Z(a.k) == 0, Z(b.k) == 0), r == sgn_of(a.v - b.v)))
    c.assume(z3.Implies(z3.And(Z(a.k) == 2, Z(b.k) != 2, Z(b.k) != 3), r == -1))
    c.assume(z3.Implies(z3.And(Z(a.k) == 1, Z(b.k) != 1, Z(b.k) != 3), r == 1))
    c.assume(z3.Implies(z3.And(Z(a.k) == 0, Z(b.k) == 1), r == -1))
    c.assume(z3.Implies(z3.And(Z(a.k) == 0, Z(b.k) == 2), r == 1))
    c.assume(z3.Implies(z3.And(Z(a.k) == Z(b.k), Z(a.k) != 0), r == 0))
    return r

@lib('arf_floor')
def _(c, p, q):
    o = arf_at(c, q)
    n = c.fresh('fl')
    c.assume(z3.And(R(n) <= o.v, o.v < R(n) + 1))
    wr_arf(c, p, R(n), o.k)
@lib('arf_ceil')
def _(c, p, q):
    o = arf_at(c, q)
    n = c.fresh('ce')
    c.assume(z3.And(R(n) >= o.v, o.v > R(n) - 1))
    wr_arf(c, p, R(n), o.k)

def int_split(c, n):
    """valid trichotomy instances that help the solver with integers pinned between reals"""
    l = c.ghost.setdefault('intsplit', [])
    for m in l:
        c.assume(z3.Or(n <= m - 1, n == m, n >= m + 1))
    l.append(n)

def round_int(c, v, rnd):
    n = c.fresh('ri')
    int_split(c, n)
    fl = z3.And(R(n) <= v, v < R(n) + 1)
    ce = z3.And(R(n) >= v, v > R(n) - 1)
    rnd = Z(rnd)
    c.assume(z3.If(rnd == 2, fl, z3.If(rnd == 3, ce, z3.If(rnd == 0, z3.If(v >= 0, fl, ce), z3.If(rnd == 1, z3.If(v >= 0, ce, fl),
             z3.And(v - R(n) <= z3.RealVal('1/2'), R(n) - v <= z3.RealVal('1/2')))))))
    return n
@lib('arf_get_fmpz')
def _(c, p, q, rnd):
    o = arf_at(c, q)
    c.prove(Z(o.k) == 0, 'arf_get_fmpz of a finite number', 'pre')
    n = round_int(c, o.v, rnd)
    wr_z(c, p, n)
    return b2i(R(n) != o.v)
@lib('arf_get_si')
def _(c, q, rnd):
    o = arf_at(c, q)
    c.prove(Z(o.k) == 0, 'arf_get_si of a finite number', 'pre')
    n = round_int(c, o.v, rnd)
    c.prove(z3.And(n >= I64MIN, n <= I64MAX), 'arf_get_si fits', 'pre')
    return n
@lib('arf_get_fmpq')
def _(c, p, q):
    o = arf_at(c, q)
    c.prove(Z(o.k) == 0, 'arf_get_fmpq of a finite number', 'pre')
    wr_q(c, p, o.v)
@lib('arf_abs_bound_lt_2exp_fmpz')
def _(c, p, q):
    o = arf_at(c, q)
    n = c.fresh('e2')
    # assumption: exponents of numbers that occur fit in a machine word
    c.assume(z3.And(n > -(1 << 60), n < (1 << 60)))
    c.assume(z3.Implies(z3.And(Z(o.k) == 0, z3.Or(o.v >= 1, o.v <= -1)), n >= 1))
    c.assume(z3.Implies(z3.And(Z(o.k) == 0, o.v != 0), POW2(n) > z3.If(o.v >= 0, o.v, -o.v)))
    wr_z(c, p, n)
@lib('arf_bits')
def _(c, q):
    arf_at(c, q)
    n = c.fresh('bits')
    c.assume(z3.And(n >= 0, n < (1 << 62)))
    return n

def rnd_rel(res, exact, rnd, prec):
    """what a rounded result satisfies (direction only)"""
    rnd = Z(rnd)
    away = z3.If(exact >= 0, res >= exact, res <= exact)
    tow = z3.If(exact >= 0, z3.And(res <= exact, res >= 0), z3.And(res >= exact, res <= 0))
    base = z3.And(z3.Implies(rnd == 2, res <= exact), z3.Implies(rnd == 3, res >= exact), z3.Implies(rnd == 1, away), z3.Implies(rnd == 0, tow),
                  z3.Implies(exact == 0, res == 0), z3.Implies(exact > 0, res > 0), z3.Implies(exact < 0, res < 0),
                  z3.Implies(exact >= 1, res >= 1), z3.Implies(exact <= 1, res <= 1), z3.Implies(exact >= -1, res >= -1), z3.Implies(exact <= -1, res <= -1))
    return z3.And(base, z3.Implies(Z(prec) == I64MAX, res == exact))

def arf_op(f, n):
    def g(c, z, *a):
        args, prec, rnd = a[:-2], a[-2], a[-1]
        vs = [f[1][i](c, x) for i, x in enumerate(args)]
        need_prec(c, prec, f[2])
        ex = f[0](*[v for v, k in vs])
        allfin = z3.And([Z(k) == 0 for v, k in vs])
        r = c.fresh('ar', 'Real'); k = c.fresh('ark'); inex = c.fresh('inex')
        c.assume(z3.And(k >= 0, k <= 3))
        g_ = allfin if len(f) < 4 else z3.And(allfin, f[3](*[v for v, kk in vs]))
        c.assume(z3.Implies(g_, z3.And(k == 0, rnd_rel(r, ex, rnd, prec))))
        wr_arf(c, z, r, k)
        return inex
    return g
def _ra(c, p):
    o = arf_at(c, p); return (o.v, o.k)
def _rz(c, p): return (R(rd_z(c, p)), 0)
def _rs(c, v): return (R(Z(v)), 0)
def _ru(c, v): return (R(Z(unsigned(v, 64))), 0)
for suf, rd in (('', _ra), ('_fmpz', _rz), ('_si', _rs), ('_ui', _ru)):
    A['arf_add' + suf] = arf_op((lambda a, b: a + b, [_ra, rd], 'arf_add' + suf), 2)
    A['arf_sub' + suf] = arf_op((lambda a, b: a - b, [_ra, rd], 'arf_sub' + suf), 2)
    A['arf_mul' + suf] = arf_op((lambda a, b: a * b, [_ra, rd], 'arf_mul' + suf), 2)
    A['arf_div' + suf] = arf_op((lambda a, b: a / b, [_ra, rd], 'arf_div' + suf, lambda a, b: b != 0), 2)
A['arf_mul_rnd_any'] = A['arf_mul']
A['arf_mul_rnd_down'] = lambda c, z, x, y, prec, rnd=0: A['arf_mul'](c, z, x, y, prec, 0)
A['arf_set_round'] = arf_op((lambda a: a, [_ra], 'arf_set_round'), 1)
A['arf_set_round_fmpz'] = arf_op((lambda a: a, [_rz], 'arf_set_round_fmpz'), 1)
@lib('arf_mul_2exp_si')
def _(c, p, q, e):
    o = arf_at(c, q)
    f = pow2(c, e)
    wr_arf(c, p, o.v * f, o.k)

def pow2(c, e):
    e = simp(e) if is_sym(e) else e
    if isinstance(e, int):
        if abs(e) > 4096:
            raise Unsupported('2^%d' % e)
        return z3.RealVal(2)**0 if False else (z3.RealVal(1 << e) if e >= 0 else z3.RealVal('1/%d' % (1 << -e)))
    t = POW2(e)
    c.assume(t > 0)
    return t

@lib('mag_mul_2exp_si')
def _(c, p, q, e):
    o = mag_at(c, q)
    t = mag_at(c, p)
    f = pow2(c, e)
    p = c.norm(p)
    p.reg.cells[p.off] = (Mag(simp(o.v*f), o.inf, [], t.tok), 16)
@lib('arf_set_mag')
def _(c, p, q):
    o = mag_at(c, q)
    wr_arf(c, p, o.v, b2i(toB(o.inf)))
@lib('arf_set_si_2exp_si')
def _(c, p, m, e):
    wr_arf(c, p, R(Z(m))*pow2(c, e), 0)

# conversion to double: ROUND(x, mode) is the correctly rounded double
ROUND = z3.Function('ROUND', z3.RealSort(), z3.IntSort(), z3.RealSort())
EXPO = z3.Function('EXPO', z3.RealSort(), z3.IntSort())
def absr(x):
    return z3.If(x >= 0, x, -x)
def add_round(c, x, rnd):
    """facts about rounding (monotonicity, meaning of the modes, sticky bits) at x"""
    rnd = Z(rnd)
    l = c.ghost.setdefault('rounds', [])
    t = ROUND(x, rnd)
    c.assume(z3.And(t >= -DINF, t <= DINF, z3.Implies(x == 0, t == 0), z3.Implies(x >= 0, t >= 0), z3.Implies(x <= 0, t <= 0)))
    c.assume(z3.Implies(x > 0, z3.And(z3.Implies(rnd == 1, t == ROUND(x, 3)), z3.Implies(rnd == 0, t == ROUND(x, 2)))))
    c.assume(z3.Implies(x < 0, z3.And(z3.Implies(rnd == 1, t == ROUND(x, 2)), z3.Implies(rnd == 0, t == ROUND(x, 3)))))
    for y in l:
        for r in (rnd, z3.IntVal(2), z3.IntVal(3)):
            a, b = ROUND(x, r), ROUND(y, r)
            c.assume(z3.And(z3.Implies(x <= y, a <= b), z3.Implies(x >= y, a >= b)))
            for d, p, v in c.ghost.get('trunc', []):
                # d has p >= 55 bits: no rounding boundary of doubles lies strictly between d and its successor
                ulp = POW2(EXPO(d) - p)
                inside = lambda z: z3.And(absr(z) > absr(d), absr(z) < absr(d) + ulp, (z > 0) == (d > 0))
                c.assume(z3.Implies(z3.And(d != 0, Z(p) >= 55, inside(x), inside(y)), a == b))
    l.append(x)
    return t
@lib('arf_get_d')
def _(c, p, rnd):
    o = arf_at(c, p)
    t = add_round(c, o.v, rnd)
    c.prove(Z(o.k) != 3, 'arf_get_d: not a nan', 'pre')
    return z3.If(Z(o.k) == 0, t, z3.If(Z(o.k) == 1, z3.RealVal(DINF), z3.RealVal(-DINF)))
@lib('fmpz_set_d')
def _(c, p, x):
    x = z3.simplify(x)
    if not z3.is_rational_value(x) or x.denominator_as_long() != 1 or abs(x.numerator_as_long()) >= DINF:
        raise Unsupported('fmpz_set_d')
    wr_z(c, p, z3.IntVal(x.numerator_as_long()))
@lib('arf_abs_bound_lt_2exp_si')
def _(c, p):
    o = arf_at(c, p)
    e = EXPO(o.v)
    # assumption: exponents of numbers that occur fit in a machine word
    c.assume(z3.And(e > -(1 << 60), e < (1 << 60)))
    c.assume(z3.Implies(o.v != 0, z3.And(absr(o.v) < POW2(e), absr(o.v)*2 >= POW2(e))))
    r = c.fresh('e2s')
    c.assume(z3.Implies(z3.And(Z(o.k) == 0, o.v != 0), r == e))
    return r
@lib('arf_set_fmpq')
def _(c, p, q, prec, rnd):
    x = rd_q(c, q)
    x = c.undiv(x)
    d = c.fresh('afq', 'Real'); inex = c.fresh('inex')
    need_prec(c, prec, 'arf_set_fmpq')
    c.assume(rnd_rel(d, x, rnd, prec))
    c.assume((inex == 0) == (d == x))
    c.assume(z3.Implies(z3.And(Z(rnd) == 0, x != 0), z3.And(absr(x) < absr(d) + POW2(EXPO(d) - Z(prec)))))
    for k in range(0, 4):
        e = z3.simplify(EXPO(d) - Z(prec) - k)
        c.assume(z3.And(POW2(e) > 0, POW2(e) == 2*POW2(z3.simplify(e - 1))))
    c.ghost.setdefault('trunc', []).append((d, Z(prec), x))
    wr_arf(c, p, d, 0)
    return inex

def live_arfs(c):
    for k, r in c.regions.items():
        if r.alive:
            for o, (v, s) in r.cells.items():
                if isinstance(v, Arf):
                    yield '%s+%s' % (k, o), v

@lib('mag_cmp_2exp_si')
def _(c, p, e):
    o = mag_at(c, p)
    t = pow2(c, e)
    return z3.If(toB(o.inf), z3.IntVal(1), sgn_of(o.v - t))

# ------------------------------------------------------------------ arb
def rdb(c, p):
    return ball(c, p)

def cross(c, ops, f, guard=None):
    """facts of a ball operation: all combinations of tracked points"""
    facts = []
    combos = [[]]
    for kind, x in ops:
        nxt = []
        if kind == 'b':
            for q in x.pts():
                for co in combos:
                    nxt.append(co + [(x.has(q), q)])
        else:
            for co in combos:
                nxt.append(co + [(True, x)])
        combos = nxt
    for co in combos[:16]:
        gs = [g for g, q in co if g is not True]
        vals = [q for g, q in co]
        if guard is not None:
            gs.append(guard(*vals))
        g = z3.And(gs) if gs else True
        facts.append((g, f(*vals)))
    return facts

def opnd(c, kind, x):
    if kind == 'b':
        return ('b', ball(c, x))
    if kind == 'z':
        return ('r', R(rd_z(c, x)))
    if kind == 's':
        return ('r', R(Z(x)))
    if kind == 'u':
        return ('r', R(Z(unsigned(x, 64))))
    if kind == 'f':
        o = arf_at(c, x)
        c.prove(Z(o.k) == 0, 'finite arf operand', 'pre')
        return ('r', o.v)
    if kind == 'q':
        return ('r', rd_q(c, x))
    raise Unsupported(kind)

def fin_prop(c, nb, ops, guard=None, prec=None):
    """ring operations on finite balls give finite balls; so does division by a ball that excludes zero"""
    if guard is None and prec is not None and c.ghost.get('exactness'):
        # with ARF_PREC_EXACT, ring operations on exact numbers are exact
        c.assume(z3.Implies(z3.And([Z(prec) == I64MAX] + [z3.And(x.fin(), x.r.v == 0) for k, x in ops if k == 'b']), z3.And(nb.fin(), nb.r.v == 0)))
    g = [x.fin() for k, x in ops if k == 'b']
    if guard is not None:
        k, x = ops[-1]
        if k == 'b':
            g.append(z3.Or(x.lo > 0, x.hi < 0))
        else:
            g.append(x != 0)
    c.assume(z3.Implies(z3.And(g), nb.fin()) if g else nb.fin())

def arb_bin(name, kinds, f, guard=None):
    def g(c, z, x, y, prec):
        ox, oy = opnd(c, kinds[0], x), opnd(c, kinds[1], y)
        need_prec(c, prec, name)
        ball(c, z)
        facts = cross(c, [ox, oy], f, guard)
        nb = fresh_ball(c, z, facts)
        fin_prop(c, nb, [ox, oy], guard, prec)
    A[name] = g
ADD = lambda a, b: a + b
SUB = lambda a, b: a - b
MUL = lambda a, b: a * b
DIV = lambda a, b: a / b
NZ = lambda a, b: b != 0
for suf, k in (('', 'b'), ('_fmpz', 'z'), ('_si', 's'), ('_ui', 'u'), ('_arf', 'f')):
    arb_bin('arb_add' + suf, 'b' + k, ADD)
    arb_bin('arb_sub' + suf, 'b' + k, SUB)
    arb_bin('arb_mul' + suf, 'b' + k, MUL)
    arb_bin('arb_div' + suf, 'b' + k, DIV, NZ)
arb_bin('arb_fmpz_div_fmpz', 'zz', DIV, NZ)
def _acc_div(base):
    def g(c, z, x, y, prec):
        n, d = rd_z(c, x), rd_z(c, y)
        base(c, z, x, y, prec)
        # assumption: a correctly rounded quotient of integers loses at most three bits
        c.assume(z3.Implies(z3.And(n != 0, d != 0), ball(c, z).relacc() >= Z(prec) - 3))
    return g
A['arb_fmpz_div_fmpz'] = _acc_div(A['arb_fmpz_div_fmpz'])
arb_bin('arb_ui_div', 'ub', DIV, NZ)

@lib('arb_addmul', 'arb_submul')
def _(c, z, x, y, prec): raise Unsupported('addmul')
def _am(name, kinds, s):
    def g(c, z, x, y, prec):
        oz, ox, oy = opnd(c, 'b', z), opnd(c, 'b', x), opnd(c, kinds, y)
        need_prec(c, prec, name)
        nb = fresh_ball(c, z, cross(c, [oz, ox, oy], lambda a, b, d: a + s*b*d))
        fin_prop(c, nb, [oz, ox, oy], None, prec)
    A[name] = g
for suf, k in (('', 'b'), ('_fmpz', 'z'), ('_si', 's'), ('_ui', 'u')):
    _am('arb_addmul' + suf, k, 1); _am('arb_submul' + suf, k, -1)

@lib('arb_inv')
def _(c, z, x, prec):
    ox = opnd(c, 'b', x); need_prec(c, prec, 'arb_inv'); ball(c, z)
    fresh_ball(c, z, cross(c, [ox], lambda a: 1/a, lambda a: a != 0))
@lib('arb_pow_ui')
def _(c, z, x, e, prec):
    ox = opnd(c, 'b', x); need_prec(c, prec, 'arb_pow_ui'); ball(c, z)
    n = unsigned(e, 64)
    fin_prop(c, fresh_ball(c, z, cross(c, [ox], lambda a: powr(c, a, n))), [ox])
def powr(c, a, n):
    if isinstance(n, int) and n <= 3:
        return [z3.RealVal(1), a, a*a, a*a*a][n]
    n = Z(n)
    t = POW(a, n)
    c.assume(z3.And(POW(a, 0) == 1, POW(a, 1) == a))
    return t
@lib('arb_sqr')
def _(c, z, x, prec):
    ox = opnd(c, 'b', x); need_prec(c, prec, 'arb_sqr'); ball(c, z)
    fin_prop(c, fresh_ball(c, z, cross(c, [ox], lambda a: a*a)), [ox])
@lib('arb_neg')
def _(c, z, x):
    b = ball(c, x)
    set_ball(c, z, -b.m.v, z3.If(Z(b.m.k) == 1, z3.IntVal(2), z3.If(Z(b.m.k) == 2, z3.IntVal(1), Z(b.m.k))), b.r.v, b.r.inf, [-q for q in b.r.pts])
@lib('arb_neg_round')
def _(c, z, x, prec):
    ox = opnd(c, 'b', x); need_prec(c, prec, 'arb_neg_round')
    fresh_ball(c, z, cross(c, [ox], lambda a: -a))
@lib('arb_set')
def _(c, z, x):
    b = ball(c, x)
    set_ball(c, z, b.m.v, b.m.k, b.r.v, b.r.inf, b.r.pts)
@lib('arb_set_round')
def _(c, z, x, prec):
    ox = opnd(c, 'b', x); need_prec(c, prec, 'arb_set_round')
    src = ox[1]
    nb = fresh_ball(c, z, cross(c, [ox], lambda a: a))
    fin_prop(c, nb, [ox])
    # assumption: rounding to prec bits costs at most two bits of relative accuracy
    a0 = src.relacc()
    mn = z3.If(a0 <= Z(prec), a0, Z(prec))
    c.assume(nb.relacc() >= mn - 2)
    c.assume(z3.Implies(a0 > Z(prec), nb.relacc() >= Z(prec) - 2))
def exact_ball(c, z, v):
    if isinstance(v, int):
        v = z3.RealVal(v)
    return set_ball(c, z, v, z3.IntVal(0), RZERO, z3.BoolVal(False), [v])
A['arb_zero'] = lambda c, z: exact_ball(c, z, 0) and None
A['arb_one'] = lambda c, z: exact_ball(c, z, 1) and None
A['arb_set_si'] = lambda c, z, v: exact_ball(c, z, R(Z(v))) and None
A['arb_set_ui'] = lambda c, z, v: exact_ball(c, z, R(Z(unsigned(v, 64)))) and None
A['arb_set_fmpz'] = lambda c, z, v: exact_ball(c, z, R(rd_z(c, v))) and None
@lib('arb_set_arf')
def _(c, z, x):
    o = arf_at(c, x)
    set_ball(c, z, o.v, o.k, RZERO, z3.BoolVal(False), [o.v])
@lib('arb_set_fmpq')
def _(c, z, q, prec):
    v = rd_q(c, q); need_prec(c, prec, 'arb_set_fmpq'); ball(c, z)
    b = fresh_ball(c, z, [(True, v)])
    c.assume(z3.And(b.fin(), z3.Implies(v > 0, b.lo > 0), z3.Implies(v < 0, b.hi < 0)))    # rounded to prec bits
@lib('arb_set_round_fmpz')
def _(c, z, q, prec):
    v = R(rd_z(c, q)); need_prec(c, prec, 'arb_set_round_fmpz')
    fresh_ball(c, z, [(True, v)])
@lib('arb_get_mid_arb')
def _(c, z, x):
    b = ball(c, x)
    set_ball(c, z, b.m.v, b.m.k, RZERO, z3.BoolVal(False), [b.m.v])
@lib('arb_indeterminate')
def _(c, z):
    ball(c, z)
    set_ball(c, z, RZERO, z3.IntVal(3), RZERO, z3.BoolVal(True), [])
@lib('arb_mul_2exp_si')
def _(c, z, x, e):
    b = ball(c, x)
    t = pow2(c, e)
    set_ball(c, z, b.m.v*t, b.m.k, b.r.v*t, b.r.inf, [q*t for q in b.r.pts])
@lib('arb_add_error_2exp_si')
def _(c, z, e):
    b = ball(c, z)
    t = pow2(c, e)
    rv = c.fresh('er', 'Real')
    c.assume(rv >= b.r.v + t)
    set_ball(c, z, b.m.v, b.m.k, rv, b.r.inf, b.r.pts)
@lib('arb_root_ui')
def _(c, z, x, n, prec):
    ox = opnd(c, 'b', x); need_prec(c, prec, 'arb_root_ui'); ball(c, z)
    n = unsigned(n, 64)
    c.prove(Z(n) > 0, 'root of positive order', 'pre')
    facts = []
    for g, q in cross(c, [ox], lambda a: a):
        r = c.fresh('root', 'Real')
        c.assume(z3.Implies(q >= 0, z3.And(r >= 0, POW(r, Z(n)) == q)))
        facts.append((z3.And(toB(g), q >= 0), r))
    b = ox[1]
    lo, fin = b.lo, b.fin()
    nb = fresh_ball(c, z, facts)
    c.assume(z3.Implies(z3.And(fin, z3.Or(lo > 0, Z(n) == 1)), nb.fin()))
A['arb_contains_zero'] = lambda c, x: b2i(ball(c, x).has(RZERO))
def _nonzero(c, x):
    b = ball(c, x)
    return b2i(z3.Not(b.has(RZERO)))
A['arb_is_nonzero'] = _nonzero
def _ispos(c, x):
    b = ball(c, x); return b2i(z3.And(b.fin(), b.lo > 0))
def _isneg(c, x):
    b = ball(c, x); return b2i(z3.And(b.fin(), b.hi < 0))
A['arb_is_positive'] = _ispos
A['arb_is_negative'] = _isneg
A['arb_is_nonnegative'] = lambda c, x: b2i(z3.And(ball(c, x).fin(), ball(c, x).lo >= 0))
A['arb_is_nonpositive'] = lambda c, x: b2i(z3.And(ball(c, x).fin(), ball(c, x).hi <= 0))
A['arb_is_finite'] = lambda c, x: b2i(ball(c, x).fin())
A['arb_is_exact'] = lambda c, x: b2i(z3.And(z3.Not(toB(ball(c, x).r.inf)), ball(c, x).r.v == 0))
A['arb_is_zero'] = lambda c, x: b2i(z3.And(ball(c, x).fin(), ball(c, x).r.v == 0, ball(c, x).m.v == 0))
def _lt(c, x, y):
    a, b = ball(c, x), ball(c, y); return b2i(z3.And(a.fin(), b.fin(), a.hi < b.lo))
A['arb_lt'] = _lt
A['arb_gt'] = lambda c, x, y: _lt(c, y, x)
A['arb_le'] = lambda c, x, y: b2i(z3.And(ball(c, x).fin(), ball(c, y).fin(), ball(c, x).hi <= ball(c, y).lo))
A['arb_ge'] = lambda c, x, y: A['arb_le'](c, y, x)
def _overlaps(c, x, y):
    a, b = ball(c, x), ball(c, y)
    return b2i(z3.Or(z3.Not(a.fin()), z3.Not(b.fin()), z3.And(a.lo <= b.hi, b.lo <= a.hi)))
A['arb_overlaps'] = _overlaps
def _contains(c, x, y):
    a, b = ball(c, x), ball(c, y)
    r = c.fresh('cont', 'Bool')
    c.assume(z3.Implies(z3.And(a.fin(), b.fin()), r == z3.And(a.lo <= b.lo, b.hi <= a.hi)))
    c.assume(z3.Implies(z3.And(a.fin(), z3.Not(b.fin())), z3.Not(r)))
    c.assume(z3.Implies(toB(a.r.inf), r))
    return b2i(r)
A['arb_contains'] = _contains
def _aeq(c, x, y):
    a, b = ball(c, x), ball(c, y)
    return b2i(z3.And(Z(a.m.k) == Z(b.m.k), toB(a.r.inf) == toB(b.r.inf), z3.Or(Z(a.m.k) != 0, a.m.v == b.m.v), z3.Or(toB(a.r.inf), a.r.v == b.r.v)))
A['arb_equal'] = _aeq
A['arb_contains_fmpq'] = lambda c, x, q: b2i(ball(c, x).has(rd_q(c, q)))
A['arb_contains_fmpz'] = lambda c, x, q: b2i(ball(c, x).has(R(rd_z(c, q))))
A['arb_contains_si'] = lambda c, x, q: b2i(ball(c, x).has(R(Z(q))))
A['arb_contains_arf'] = lambda c, x, q: b2i(ball(c, x).has(arf_at(c, q).v))

@lib('arb_contains_int')
def _(c, x):
    b = ball(c, x)
    r = c.fresh('cint', 'Bool'); n = c.fresh('cn')
    int_split(c, n)
    c.assume(z3.Implies(r, b.has(R(n))))
    c.assume(z3.Implies(z3.Not(r), z3.And(b.fin(), R(n) < b.lo, b.hi < R(n) + 1)))
    return b2i(r)
@lib('arb_get_unique_fmpz')
def _(c, z, x):
    b = ball(c, x)
    r = c.fresh('uniq', 'Bool'); n = c.fresh('un'); m = c.fresh('um')
    int_split(c, n); int_split(c, m)
    old = rd_z(c, z)
    c.assume(z3.Implies(r, z3.And(b.fin(), b.has(R(n)), b.lo > R(n) - 1, b.hi < R(n) + 1)))
    c.assume(z3.Implies(z3.Not(r), z3.Or(z3.Not(b.fin()), z3.And(R(m) < b.lo, b.hi < R(m) + 1), z3.And(R(m) >= b.lo, R(m) + 1 <= b.hi))))
    c.assume(z3.Implies(z3.Not(r), n == old))
    wr_z(c, z, n)
    return b2i(r)
@lib('arb_get_interval_arf')
def _(c, l, r, x, prec):
    b = ball(c, x)
    need_prec(c, prec, 'arb_get_interval_arf')
    lv, rv = c.fresh('il', 'Real'), c.fresh('ir', 'Real')
    c.assume(z3.Implies(b.fin(), z3.And(lv <= b.lo, rv >= b.hi)))
    c.assume(z3.Implies(z3.And(b.fin(), Z(prec) == I64MAX), z3.And(lv == b.lo, rv == b.hi)))
    wr_arf(c, l, lv, z3.If(b.fin(), z3.IntVal(0), z3.If(Z(b.m.k) == 3, z3.IntVal(3), z3.IntVal(2))))
    wr_arf(c, r, rv, z3.If(b.fin(), z3.IntVal(0), z3.If(Z(b.m.k) == 3, z3.IntVal(3), z3.IntVal(1))))
def _bound(which):
    def f(c, l, x, prec):
        b = ball(c, x)
        need_prec(c, prec, 'arb_get_%sbound_arf' % which)
        v = c.fresh('bd', 'Real')
        k = c.fresh('bk')
        c.assume(z3.Implies(b.fin(), z3.And(k == 0, (v <= b.lo) if which == 'l' else (v >= b.hi))))
        c.assume(z3.And(k >= 0, k <= 3))
        wr_arf(c, l, v, k)
    return f
A['arb_get_lbound_arf'] = _bound('l')
A['arb_get_ubound_arf'] = _bound('u')
@lib('arb_get_abs_ubound_arf')
def _(c, l, x, prec):
    b = ball(c, x)
    need_prec(c, prec, 'arb_get_abs_ubound_arf')
    v = c.fresh('au', 'Real'); k = c.fresh('ak')
    c.assume(z3.Implies(b.fin(), z3.And(k == 0, v >= b.hi, v >= -b.lo)))
    c.assume(z3.And(k >= 0, k <= 3, v >= 0))
    wr_arf(c, l, v, k)
@lib('arb_set_interval_arf')
def _(c, z, l, r, prec):
    a, b = arf_at(c, l), arf_at(c, r)
    need_prec(c, prec, 'arb_set_interval_arf')
    ok = z3.And(Z(a.k) == 0, Z(b.k) == 0)
    c.prove(z3.Implies(ok, a.v <= b.v), 'interval end points are ordered', 'pre')
    nb = fresh_ball(c, z, [(ok, a.v), (ok, b.v)])
    g = c.ghost.get('points', [])
    for q in g:
        c.assume(z3.Implies(z3.And(ok, a.v <= q, q <= b.v), nb.has(q)))
    nb.r.pts = dedupe(nb.r.pts + list(g))
@lib('arb_intersection')
def _(c, z, x, y, prec):
    a, b = ball(c, x), ball(c, y)
    need_prec(c, prec, 'arb_intersection')
    r = c.fresh('isec', 'Bool')
    c.assume(z3.Implies(z3.And(a.fin(), b.fin()), r == z3.And(a.lo <= b.hi, b.lo <= a.hi)))
    pts = dedupe(a.pts() + b.pts() + c.ghost.get('points', []))
    old = ball(c, z)
    facts = [(z3.And(r, a.has(q), b.has(q)), q) for q in pts]
    fresh_ball(c, z, facts)
    return b2i(r)
@lib('arb_union')
def _(c, z, x, y, prec):
    a, b = ball(c, x), ball(c, y)
    need_prec(c, prec, 'arb_union')
    pts = dedupe(a.pts() + b.pts())
    fresh_ball(c, z, [(z3.Or(a.has(q), b.has(q)), q) for q in pts])
A['arb_rel_accuracy_bits'] = lambda c, x: rel_acc(c, x)
A['arb_rel_error_bits'] = lambda c, x: simp(-rel_acc(c, x))
def rel_acc(c, x):
    b = ball(c, x)
    t = b.relacc()
    c.assume(z3.And(t >= -(1 << 62), t <= (1 << 62)))
    c.assume(z3.Implies(z3.Not(b.fin()), t <= -(1 << 60)))
    return t

# ------------------------------------------------------------------ nf_elem
def nfop(name, fn, arity, guard=None):
    """fn on reals; operand kinds given by arity string of e (elem) z q s u"""
    def g(c, z, *rest):
        nf = core(c, rest[-1])
        args = rest[:-1]
        vals = []
        oz = elem(c, z)
        same_field(c, oz, nf, name)
        for k, x in zip(arity, args):
            if k == 'e':
                o = elem(c, x); same_field(c, o, nf, name); vals.append(o.val)
            else:
                vals.append(opnd(c, k, x)[1])
        if guard is not None:
            c.prove(guard(*vals), '%s: nonzero divisor' % name, 'pre')
        v = fn(*vals)
        put_elem(c, z, v, nf, oz)
        if guard is None and name.startswith('nf_elem_set') and arity in ('z', 's', 'u', 'q'):
            c.assume(RAT(v))
        es = [x for k, x in zip(arity, vals) if k == 'e']
        qs = [x for k, x in zip(arity, vals) if k != 'e']
        if len(es) == 1 and len(qs) == 1 and name != 'nf_elem_pow':
            if 'mul' in name or 'div' in name:
                c.assume(RAT(v) == z3.Or(qs[0] == 0, RAT(es[0])))
            else:
                c.assume(RAT(v) == RAT(es[0]))
        elif len(es) == 1 and not qs:
            c.assume(RAT(v) == RAT(es[0]))
        elif len(es) == 2:
            c.assume(z3.Implies(z3.And([RAT(x) for x in es]), RAT(v)))
    A[name] = g
nfop('nf_elem_add', ADD, 'ee')
nfop('nf_elem_sub', SUB, 'ee')
nfop('nf_elem_mul', MUL, 'ee')
nfop('nf_elem_div', DIV, 'ee', NZ)
nfop('nf_elem_neg', lambda a: -a, 'e')
nfop('nf_elem_set', lambda a: a, 'e')
nfop('nf_elem_inv', lambda a: 1/a, 'e', lambda a: a != 0)
for s, k in (('fmpz', 'z'), ('fmpq', 'q'), ('si', 's')):
    nfop('nf_elem_add_' + s, ADD, 'e' + k)
    nfop('nf_elem_sub_' + s, SUB, 'e' + k)
    nfop('nf_elem_scalar_mul_' + s, MUL, 'e' + k)
    nfop('nf_elem_scalar_div_' + s, DIV, 'e' + k, NZ)
    nfop('nf_elem_%s_sub' % s, lambda a, b: a - b, k + 'e')
for s, k in (('fmpz', 'z'), ('fmpq', 'q'), ('si', 's'), ('ui', 'u')):
    nfop('nf_elem_set_' + s, lambda a: a, k)
    def mk(k, s):
        def g(c, x, y, nf):
            n = core(c, nf); o = elem(c, x); same_field(c, o, n, 'nf_elem_equal_' + s)
            return b2i(o.val == opnd(c, k, y)[1])
        A['nf_elem_equal_' + s] = g
    mk(k, s)
nfop('nf_elem_zero', lambda: RZERO, '')
nfop('nf_elem_one', lambda: z3.RealVal(1), '')
@lib('nf_elem_pow')
def _(c, z, x, e, nfp):
    nf = core(c, nfp); o = elem(c, x); oz = elem(c, z)
    same_field(c, o, nf, 'nf_elem_pow'); same_field(c, oz, nf, 'nf_elem_pow')
    put_elem(c, z, powr(c, o.val, unsigned(e, 64)), nf, oz)
@lib('nf_elem_gen')
def _(c, z, nfp):
    nf = core(c, nfp); oz = elem(c, z)
    put_elem(c, z, nf.gamma, nf, oz)
@lib('nf_elem_init')
def _(c, z, nfp):
    nf = core(c, nfp)
    o = new_elem_obj(c, RZERO, nf, c.newtok('nf_elem'))
    c.put(z, o, 32)
@lib('nf_elem_clear')
def _(c, z, nfp):
    nf = core(c, nfp)
    z = c.check_ptr(z, 'nf_elem_clear')
    o = c.get(z)
    if o is None or o is UNDEF:
        c.fail('nf_elem_clear of something not initialised')
    if not isinstance(o, NfElem):
        raise Unsupported('nf_elem_clear')
    same_field(c, o, nf, 'nf_elem_clear')
    kill(c, z, o, 'nf_elem')
@lib('nf_elem_swap')
def _(c, x, y, nfp=None):
    a, b = elem(c, x), elem(c, y)
    x, y = c.norm(x), c.norm(y)
    x.reg.cells[x.off] = (b, 32); y.reg.cells[y.off] = (a, 32)
@lib('nf_elem_equal')
def _(c, x, y, nfp):
    nf = core(c, nfp); a, b = elem(c, x), elem(c, y)
    same_field(c, a, nf, 'nf_elem_equal'); same_field(c, b, nf, 'nf_elem_equal')
    return b2i(a.val == b.val)
def pred(name, f):
    def g(c, x, nfp):
        nf = core(c, nfp); a = elem(c, x); same_field(c, a, nf, name)
        return b2i(f(a.val))
    A[name] = g
pred('nf_elem_is_zero', lambda v: v == 0)
pred('nf_elem_is_one', lambda v: v == 1)
pred('nf_elem_is_rational', lambda v: RAT(v))
pred('nf_elem_is_integer', lambda v: z3.IsInt(v))
@lib('nf_elem_is_rational')
def _(c, x, nfp):
    nf = core(c, nfp); a = elem(c, x); same_field(c, a, nf, 'nf_elem_is_rational')
    c.assume(z3.Implies(a.val == 0, RAT(a.val)))
    return b2i(RAT(a.val))
@lib('nf_elem_is_gen')
def _(c, x, nfp):
    nf = core(c, nfp); a = elem(c, x)
    return b2i(a.val == nf.gamma)
@lib('nf_elem_set_fmpq_poly')
def _(c, z, pol, nfp):
    nf = core(c, nfp); oz = elem(c, z); same_field(c, oz, nf, 'nf_elem_set_fmpq_poly')
    q = poly(c, pol)
    d = rd_z(c, Ptr(pol.reg, addoff(pol.off, 24)))
    put_elem(c, z, H(q.arr, 0, Z(q.len), nf.gamma)/R(d), nf, oz)
CONTENTV = z3.Function('CONTENTV', ArrS, IntS, IntS)
@lib('_fmpz_poly_content')
def _(c, r, p, n):
    p = c.check_ptr(p, 'content')
    if p.reg.vec is None or p.off != 0:
        raise Unsupported('content of %r' % (p,))
    c.prove(z3.And(Z(n) >= 0, Z(n) <= Z(p.reg.vec.length)), 'content within bounds', 'mem')
    g = CONTENTV(p.reg.vec.arr, Z(n))
    c.assume(g >= 0)
    wr_z(c, r, g)
@lib('nf_elem_get_den')
def _(c, d, x, nfp):
    nf = core(c, nfp); a = elem(c, x)
    v = elem_den(c, a)
    wr_z(c, d, v)

DEN = z3.Function('DEN', RealS, RealS, IntS)      # denominator of an element (canonical representation)
def elem_den(c, a):
    c.assume(z3.And(DEN(a.val, a.nf.gamma) > 0, z3.Implies(RAT(a.val), DEN(a.val, a.nf.gamma) == DENR(a.val))))
    return DEN(a.val, a.nf.gamma)

# ------------------------------------------------------------------ polynomials
class Poly:
    def __init__(self, reg, arr, length, alloc):
        self.reg, self.arr, self.len, self.alloc = reg, arr, length, alloc

def poly(c, p):
    p = c.check_ptr(p, 'use of polynomial')
    cp = c.load(p, ('ptr',), 8)
    n = c.load(Ptr(p.reg, addoff(p.off, 16)), ('i', 64), 8)
    al = c.load(Ptr(p.reg, addoff(p.off, 8)), ('i', 64), 8)
    if not isinstance(cp, Ptr) or cp.reg is None or cp.reg.vec is None:
        raise Unsupported('polynomial with coefficients %r' % (cp,))
    if cp.off != 0:
        raise Unsupported('polynomial coefficients at offset')
    return Poly(cp.reg, cp.reg.vec.arr, n, al)

def set_poly(c, p, arr, length):
    q = poly(c, p)
    al = c.fresh('alloc')
    c.assume(z3.And(al >= Z(length), al >= Z(q.alloc)))
    q.reg.vec = q.reg.vec.with_(arr=arr, length=al)
    c.store(Ptr(p.reg, addoff(p.off, 16)), length, 8)
    c.store(Ptr(p.reg, addoff(p.off, 8)), al, 8)

def poly_init(c, p, rational):
    reg = c.region('poly', 'heap', None, 'polynomial coefficients')
    reg.vec = Vec('fmpz', 8, c.fresh_arr('pc'), 0)
    reg.tok = c.newtok('poly')
    c.store(p, Ptr(reg, 0), 8)
    c.store(Ptr(p.reg, addoff(p.off, 8)), 0, 8)
    c.store(Ptr(p.reg, addoff(p.off, 16)), 0, 8)
    if rational:
        c.put(Ptr(p.reg, addoff(p.off, 24)), Fmpz(z3.IntVal(1), None), 8)
A['fmpz_poly_init'] = lambda c, p: poly_init(c, p, False)
A['fmpq_poly_init'] = lambda c, p: poly_init(c, p, True)
A['fmpz_poly_init2'] = lambda c, p, n: (poly_init(c, p, False), A['fmpz_poly_fit_length'](c, p, n))[1]
def poly_clear(c, p, rational):
    q = poly(c, p)
    if q.reg.tok is not None:
        if not q.reg.tok.alive:
            c.fail('polynomial released twice')
        q.reg.tok.alive = False
    q.reg.alive = False
    for o in (0, 8, 16) + ((24,) if rational else ()):
        p.reg.cells.pop(p.off + o, None)
A['fmpz_poly_clear'] = lambda c, p: poly_clear(c, p, False)
A['fmpq_poly_clear'] = lambda c, p: poly_clear(c, p, True)
@lib('fmpz_poly_fit_length', 'fmpq_poly_fit_length')
def _(c, p, n):
    q = poly(c, p)
    if isinstance(n, int) and isinstance(q.alloc, int):
        al = max(n, q.alloc)
    else:
        al = c.fresh('alloc')
        c.assume(z3.And(al >= Z(n), al >= Z(q.alloc)))
    q.reg.vec = q.reg.vec.with_(length=al)
    c.store(Ptr(p.reg, addoff(p.off, 8)), al, 8)
@lib('_fmpz_poly_set_length', '_fmpq_poly_set_length')
def _(c, p, n):
    q = poly(c, p)
    c.prove(z3.And(Z(n) >= 0, Z(n) <= Z(q.alloc)), 'polynomial length within allocation', 'pre')
    c.store(Ptr(p.reg, addoff(p.off, 16)), n, 8)
A['fmpz_poly_length'] = lambda c, p: c.load(Ptr(p.reg, addoff(p.off, 16)), ('i', 64), 8)
A['fmpq_poly_length'] = A['fmpz_poly_length']
A['fmpz_poly_is_zero'] = lambda c, p: b2i(Z(poly(c, p).len) == 0)
A['fmpq_poly_is_zero'] = A['fmpz_poly_is_zero']
def _deg(c, p):
    n = A['fmpz_poly_length'](c, p)
    return simp(n - 1) if is_sym(n) else n - 1
A['fmpz_poly_degree'] = _deg
A['fmpq_poly_degree'] = _deg
@lib('fmpz_poly_set')
def _(c, p, q):
    b = poly(c, q)
    if p.reg is q.reg and term_eq(p.off, q.off):
        return
    set_poly(c, p, b.arr, b.len)
@lib('fmpz_poly_zero')
def _(c, p):
    q = poly(c, p)
    for y in c.ghost.get('evpts', []):
        c.assume(z3.And(H(q.arr, 0, 0, y) == 0, LOWC(q.arr, 0) > I64MAX))
    c.store(Ptr(p.reg, addoff(p.off, 16)), 0, 8)
@lib('fmpq_poly_zero')
def _(c, p):
    q = poly(c, p)
    c.store(Ptr(p.reg, addoff(p.off, 16)), 0, 8)
    wr_z(c, Ptr(p.reg, addoff(p.off, 24)), 1)
    c.assume(DENP(RZERO) == 1)
    for y in c.ghost.get('evpts', []):
        c.assume(H(q.arr, 0, 0, y) == 0)
@lib('fmpz_poly_swap')
def _(c, p, q):
    for o in (0, 8, 16):
        a = c.load(Ptr(p.reg, p.off + o), ('i', 64), 8); b = c.load(Ptr(q.reg, q.off + o), ('i', 64), 8)
        c.store(Ptr(p.reg, p.off + o), b, 8); c.store(Ptr(q.reg, q.off + o), a, 8)
@lib('fmpq_poly_equal')
def _(c, p, q):
    a, b = poly(c, p), poly(c, q)
    r = c.fresh('peq', 'Bool')
    da, db = rd_z(c, Ptr(p.reg, p.off + 24)), rd_z(c, Ptr(q.reg, q.off + 24))
    c.assume(z3.Implies(r, z3.And(Z(a.len) == Z(b.len), da == db)))
    j = z3.Int('j')
    c.assume(z3.Implies(r, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < Z(a.len)), a.arr[j] == b.arr[j]))))
    c.assume(r == SAMEPOLY(a.arr, Z(a.len), da, b.arr, Z(b.len), db))
    # equal polynomials have equal values
    for y in dedupe(list(c.ghost.get('evpts', [])), 20):
        c.assume(z3.Implies(r, H(a.arr, 0, Z(a.len), y) == H(b.arr, 0, Z(b.len), y)))
    return b2i(r)
# denominator of the canonical form of the rational polynomial with the given value at a transcendental point
DENP = z3.Function('DENP', RealS, IntS)
SAMEPOLY = z3.Function('SAMEPOLY', ArrS, IntS, IntS, ArrS, IntS, IntS, BoolS)

@lib('fmpq_poly_set_coeff_si', 'fmpq_poly_set_coeff_ui', 'fmpq_poly_set_coeff_fmpz', 'fmpq_poly_set_coeff_fmpq')
def _(c, p, n, v): raise Unsupported('set_coeff')
def q_setcoeff(kind):
    def f(c, p, n, v):
        q = poly(c, p)
        dp = Ptr(p.reg, addoff(p.off, 24))
        d0 = rd_z(c, dp)
        x = opnd(c, kind, v)[1]
        c.prove(Z(n) >= 0, 'coefficient index is nonnegative', 'pre')
        arr = c.fresh_arr('sc'); ln = c.fresh('scl'); d = c.fresh('scd')
        n_ = Z(n)
        j = z3.Int('j')
        c.assume(z3.And(d > 0, ln >= 0, z3.Implies(x != 0, ln == z3.If(Z(q.len) > n_ + 1, Z(q.len), n_ + 1)),
                        z3.Implies(z3.And(x == 0, Z(q.len) != n_ + 1), ln == Z(q.len)),
                        z3.Implies(z3.And(x == 0, Z(q.len) == n_ + 1), ln <= n_),
                        z3.Implies(ln > 0, arr[ln-1] != 0)))
        # exact value of the new coefficient vector at every tracked point
        for y in c.ghost.get('evpts', []):
            old = H(q.arr, 0, Z(q.len), y)/R(d0)
            oc = z3.If(z3.And(n_ < Z(q.len)), R(q.arr[n_])/R(d0), RZERO)
            c.assume(H(arr, 0, ln, y)/R(d) == old + (x - oc)*powr(c, y, n))
        c.assume(z3.Implies(Z(q.len) == 0, z3.Implies(x == 0, ln == 0)))
        for y in c.ghost.get('evpts', []):
            c.assume(H(q.arr, 0, 0, y) == 0)
        if 'y0' in c.ghost and 'monv' in c.ghost:
            # the same, with products named; y0 is transcendental, so only the zero polynomial vanishes there
            mv, y = c.ghost['monv'], c.ghost['y0']
            oc = c.fresh('oc', 'Real')
            c.assume(z3.And(oc == z3.If(n_ < Z(q.len), R(q.arr[n_])/R(d0), RZERO), mv(RZERO, n_, y) == 0))
            c.assume(H(arr, 0, ln, y)/R(d) == H(q.arr, 0, Z(q.len), y)/R(d0) + mv(x, n_, y) - mv(oc, n_, y))
            c.assume(z3.And((H(arr, 0, ln, y)/R(d) == 0) == (ln == 0), z3.Implies(n_ < ln, R(arr[n_])/R(d) == x), z3.Implies(n_ >= ln, x == 0)))
        set_poly(c, p, arr, ln)
        wr_z(c, dp, d)
    return f
A['fmpq_poly_set_coeff_si'] = q_setcoeff('s')
A['fmpq_poly_set_coeff_ui'] = q_setcoeff('u')
A['fmpq_poly_set_coeff_fmpz'] = q_setcoeff('z')
A['fmpq_poly_set_coeff_fmpq'] = q_setcoeff('q')
@lib('fmpq_poly_add')
def _(c, r, p, q):
    a, b = poly(c, p), poly(c, q)
    da, db = rd_z(c, Ptr(p.reg, addoff(p.off, 24))), rd_z(c, Ptr(q.reg, addoff(q.off, 24)))
    poly(c, r)
    arr = c.fresh_arr('pa'); ln = c.fresh('pal'); d = c.fresh('pad')
    m = z3.If(Z(a.len) > Z(b.len), Z(a.len), Z(b.len))
    c.assume(z3.And(d > 0, ln >= 0, ln <= m, z3.Implies(ln > 0, arr[ln-1] != 0)))
    for y in c.ghost.get('evpts', []):
        c.assume(H(arr, 0, ln, y)/R(d) == H(a.arr, 0, Z(a.len), y)/R(da) + H(b.arr, 0, Z(b.len), y)/R(db))
    if 'y0' in c.ghost:
        c.assume(d == DENP(H(arr, 0, ln, c.ghost['y0'])/R(d)))
    set_poly(c, r, arr, ln)
    wr_z(c, Ptr(r.reg, addoff(r.off, 24)), d)
@lib('fmpz_poly_set_coeff_fmpz')
def _(c, p, n, v):
    q = poly(c, p)
    x, n_ = rd_z(c, v), Z(n)
    c.prove(n_ >= 0, 'coefficient index is nonnegative', 'pre')
    arr = c.fresh_arr('zc'); ln = c.fresh('zcl'); oc = c.fresh('oc')
    c.assume(z3.And(ln >= 0, z3.Implies(x != 0, ln == z3.If(Z(q.len) > n_ + 1, Z(q.len), n_ + 1)),
                    z3.Implies(z3.And(x == 0, Z(q.len) != n_ + 1), ln == Z(q.len)),
                    z3.Implies(z3.And(x == 0, Z(q.len) == n_ + 1), ln <= n_),
                    z3.Implies(ln > 0, arr[ln-1] != 0), z3.Implies(n_ < ln, arr[n_] == x)))
    # coefficients below the first nonzero one are zero
    c.assume(z3.And(oc == z3.If(n_ < Z(q.len), q.arr[n_], 0), z3.Implies(n_ < LOWC(q.arr, Z(q.len)), oc == 0), LOWC(q.arr, 0) > I64MAX))
    c.assume(z3.And(z3.Or(LOWC(arr, ln) >= LOWC(q.arr, Z(q.len)), LOWC(arr, ln) >= n_)))
    for y in c.ghost.get('evpts', []):
        mv = c.ghost.get('monv')
        c.assume(H(q.arr, 0, 0, y) == 0)
        if mv is not None:
            c.assume(z3.And(mv(RZERO, n_, y) == 0, H(arr, 0, ln, y) == H(q.arr, 0, Z(q.len), y) + mv(R(x), n_, y) - mv(R(oc), n_, y)))
        else:
            c.assume(H(arr, 0, ln, y) == H(q.arr, 0, Z(q.len), y) + (R(x) - R(oc))*powr(c, y, n))
    set_poly(c, p, arr, ln)
LOWC = z3.Function('LOWC', ArrS, IntS, IntS)       # index of the first nonzero coefficient
A['fmpq_poly_gen'] = lambda c, p: (A['fmpq_poly_zero'](c, p), A['fmpq_poly_set_coeff_si'](c, p, 1, 1))[1]

@lib('nf_init')
def _(c, p, q):
    b = poly(c, q)
    d = rd_z(c, Ptr(q.reg, addoff(q.off, 24)))
    p = c.check_ptr(p, 'nf_init')
    n = Z(b.len)
    c.prove(n >= 2, 'nf_init: the polynomial is not constant', 'pre')
    reg = c.region('nfpol', 'heap', None, 'defining polynomial')
    al = c.fresh('alloc'); c.assume(al >= n)
    reg.vec = Vec('fmpz', 8, b.arr, al)
    reg.tok = c.newtok('poly')
    P = lambda o: Ptr(p.reg, addoff(p.off, o))
    c.store(P(0), Ptr(reg, 0), 8); c.store(P(8), al, 8); c.store(P(16), b.len, 8)
    c.put(P(24), Fmpz(d, c.newtok('fmpz')), 8)
    # the root is ghost state; functions that build a field name it (ghost 'newgamma'), nf_init itself knows nothing about it
    g = c.ghost.get('newgamma')
    if g is None:
        g = c.fresh('gamma', 'Real')
    c.ghost.setdefault('newfields', set()).add((p.reg.key, p.off))
    lin, quad = (n == 2), (n == 3)
    mon = c.fresh('monic'); c.assume(z3.And(mon >= 0, mon <= 1))
    c.put(P(32), NfCore(g, lin, quad, n, c.newtok('nf')), 72)
    c.store(P(104), z3.If(lin, z3.IntVal(2), z3.If(quad, z3.IntVal(4), z3.IntVal(0))) + mon, 8)
@lib('nf_clear')
def _(c, p):
    k = core(c, p)
    P = lambda o: Ptr(p.reg, addoff(p.off, o))
    kill(c, P(32), k, 'number field')
    z = c.get(P(24))
    kill(c, P(24), z, 'number field')
    q = poly(c, p)
    if q.reg.tok is not None:
        q.reg.tok.alive = False
    q.reg.alive = False
    for o in (0, 8, 16, 104):
        p.reg.cells.pop(p.off + o, None)

@lib('nf_elem_get_fmpq_poly')
def _(c, p, x, nfp):
    o = elem(c, x)
    same_field(c, o, core(c, nfp), 'nf_elem_get_fmpq_poly')
    q = poly(c, p)
    v, g = o.val, o.nf.gamma
    arr = c.fresh_arr('gp'); n = c.fresh('gpl'); d = c.fresh('gpd')
    c.assume(z3.And(d > 0, n >= 0, n < o.nf.plen, v == H(arr, 0, n, g)/R(d), RAT(v) == (n <= 1), (v == 0) == (n == 0), z3.Implies(n > 0, arr[n-1] != 0)))
    a0 = arr[0]
    c.assume(z3.Implies(n == 1, z3.And(v == R(a0)/R(d), v*R(d) == R(a0), (v > 0) == (a0 > 0), (v < 0) == (a0 < 0), CANON(a0, d))))
    c.assume(z3.Implies(n == 1, z3.And(a0 == NUMR(v), d == DENR(v))))
    c.assume(z3.Implies(n == 0, z3.And(d == 1, NUMR(v) == 0, DENR(v) == 1, CANON(0, 1))))
    c.assume(z3.Implies(z3.IsInt(v), z3.And(d == 1, RAT(v))))
    c.assume(d == DEN(v, g))
    set_poly(c, p, arr, n)
    wr_z(c, Ptr(p.reg, addoff(p.off, 24)), d)

DERIV = z3.Function('DERIV', ArrS, IntS, ArrS)
@lib('_fmpz_poly_derivative')
def _(c, d, p, n):
    if not (p.off == 0 and d.off == 0):
        raise Unsupported('derivative at offset')
    v = p.reg.vec; w = d.reg.vec
    c.prove(z3.And(Z(n) <= Z(v.length), Z(n) - 1 <= Z(w.length)), 'derivative vectors long enough', 'mem')
    d.reg.vec = w.with_(arr=DERIV(v.arr, Z(n)))

@lib('_fmpz_vec_init')
def _(c, n):
    reg = c.region('vec', 'heap', None, 'vector')
    j = z3.Int('j')
    reg.vec = Vec('fmpz', 8, z3.K(IntS, z3.IntVal(0)), n)
    reg.tok = c.newtok('vec')
    reg.veclen = n
    return Ptr(reg, 0)
@lib('_fmpz_vec_clear')
def _(c, p, n):
    p = c.check_ptr(p, '_fmpz_vec_clear')
    if p.reg.tok is None or p.off != 0:
        c.fail('_fmpz_vec_clear of something else')
    c.prove(Z(n) == Z(p.reg.veclen), '_fmpz_vec_clear with the allocated length', 'mem')
    p.reg.tok.alive = False
    p.reg.alive = False
@lib('_fmpz_vec_set')
def _(c, d, s, n):
    d = c.check_ptr(d, '_fmpz_vec_set'); s = c.check_ptr(s, '_fmpz_vec_set')
    dv, sv = d.reg.vec, s.reg.vec
    if dv is None or sv is None:
        raise Unsupported('_fmpz_vec_set')
    from .core import off_div
    do, so = off_div(d.off, 8), off_div(s.off, 8)
    c.prove(z3.And(Z(do) >= 0, Z(do) + Z(n) <= Z(dv.length)), '_fmpz_vec_set destination within bounds', 'mem')
    c.prove(z3.And(Z(so) >= 0, Z(so) + Z(n) <= Z(sv.length)), '_fmpz_vec_set source within bounds', 'mem')
    if isinstance(do, int) and do == 0 and isinstance(so, int) and so == 0:
        arr = c.fresh_arr('vs')
        j = z3.Int('j')
        c.assume(z3.ForAll([j], z3.If(z3.And(j >= 0, j < Z(n)), arr[j] == sv.arr[j], arr[j] == dv.arr[j])))
        for y in c.ghost.get('evpts', []):
            c.assume(H(arr, 0, Z(n), y) == H(sv.arr, 0, Z(n), y))
        c.assume(PV(arr, 0, Z(n)) == PV(sv.arr, 0, Z(n)))
        d.reg.vec = dv.with_(arr=arr)
        lemmas(c, 'copy', sv.arr, Z(so), arr, Z(n))
    else:
        arr = c.fresh_arr('vs')
        j = z3.Int('j')
        c.assume(PV(arr, Z(do), Z(n)) == PV(sv.arr, Z(so), Z(n)))
        c.assume(z3.ForAll([j], z3.If(z3.And(j >= Z(do), j < Z(do) + Z(n)), arr[j] == sv.arr[j - Z(do) + Z(so)], arr[j] == dv.arr[j])))
        c.assume(z3.Implies(Z(n) >= 1, z3.And(arr[Z(do)] == sv.arr[Z(so)], arr[Z(do)+Z(n)-1] == sv.arr[Z(so)+Z(n)-1])))
        d.reg.vec = dv.with_(arr=arr)
        if isinstance(do, int) and do == 0:
            lemmas(c, 'copy', sv.arr, Z(so), arr, Z(n))
SUMV = z3.Function('SUMV', ArrS, IntS, IntS)
@lib('_fmpz_vec_sum')
def _(c, r, p, n):
    if p.off != 0:
        raise Unsupported('sum at offset')
    c.prove(z3.And(Z(n) >= 0, Z(n) <= Z(p.reg.vec.length)), 'sum within bounds', 'mem')
    wr_z(c, r, SUMV(p.reg.vec.arr, Z(n)))

# ------------------------------------------------------------------ memory / libc
@lib('flint_malloc', 'malloc')
def _(c, n):
    reg = c.region('malloc', 'heap', n if isinstance(n, int) else None, 'malloc')
    reg.tok = c.newtok('malloc')
    reg.msize = n
    reg.untyped = True
    return Ptr(reg, 0)
@lib('flint_free', 'free')
def _(c, p):
    if isinstance(p, Ptr) and p.reg is None:
        return
    p = c.check_ptr(p, 'free')
    if p.reg.tok is None or not p.reg.tok.alive or p.off != 0:
        c.fail('free of something not allocated')
    p.reg.tok.alive = False
    p.reg.alive = False
@lib('abort', '__assert_fail', 'flint_abort', 'flint_throw', 'exit')
def _(c, *a):
    c.aborted()
@lib('fprintf', 'printf', 'flint_printf', 'flint_fprintf', 'fputs', 'puts', 'arb_fprint', 'arb_print', 'fputc', 'putchar', 'fflush', 'fwrite')
def _(c, *a):
    return c.fresh('io')
@lib('strlen')
def _(c, p):
    n = c.fresh('len'); c.assume(n >= 0)
    return n

@lib('nf_elem_get_coeff_fmpq')
def _(c, q, x, i, nfp):
    o = elem(c, x)
    same_field(c, o, core(c, nfp), 'nf_elem_get_coeff_fmpq')
    t = c.fresh('cf', 'Real')
    c.assume(RAT(t))
    if isinstance(i, int) and i == 0:
        c.assume(z3.Implies(RAT(o.val), t == o.val))
    wr_q(c, q, t)
