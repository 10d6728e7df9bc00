"""Contract language and the verification of one function against its contract.

A contract names the parameters with a kind and a mode; kinds carry the type invariants
(the data-structure invariants of e-antic), modes carry the frame condition:

  in     nothing observable changes
  out    initialised before, overwritten
  ref    the represented number is kept, the enclosure may be sharpened
  refx   like ref, but the enclosure may be arbitrary before
  mut    (field) the embedding may be refined, nothing else changes
  init   uninitialised memory before, initialised after
  clear  initialised before, released after
"""
import z3, itertools, os
from .ir import Unsupported
from .core import *
from .core import addoff, R0
from . import lib as L
from . import cxx as X
from . import cstr as CS
from .lib import Z, Ball, NfElem, NfCore, Fmpz, Mpz, Arf, Mag, H, RAT, CANON, ball, term_eq

SPECS = {}
VACUITY = bool(os.environ.get('VF_VACUITY'))     # check that assuming the postconditions of a callee never contradicts the path
CXXSPECS = []       # contracts of C++ functions, named by their demangled signature

class View:
    pass

class Param:
    def __init__(self, s):
        f = s.split(':')
        self.name, self.kind = f[0], f[1]
        self.mode = f[2] if len(f) > 2 else 'in'
        self.arg = f[3] if len(f) > 3 else None

class Spec:
    def __init__(self, name, params, ret=None, pre=None, post=None, pts=None, lemma=None, may_abort=None, props=(),
                 alias=True, templates=None, ghost=None, noalias=(), throws=None, assumed=False, mods=None, setup=None, effect=None,
                 label=None, symbol=None, consts=None, hooks=None, nullcases=None, lean=False, trust=(), optional=False, text=False, inline=False, cxx=False, dem=None, null=(), custom=None, cases=None):
        self.name = name
        self.symbol = symbol or name
        self.params = [Param(x) for x in params.split()]
        self.ret, self.pre, self.post, self.pts, self.lemma = ret, pre, post, pts, lemma
        self.may_abort, self.props, self.alias, self.templates, self.ghost = may_abort, props, alias, templates, ghost
        self.noalias = set(noalias)
        self.throws = throws
        self.nullcases = nullcases
        self.text = text              # about strings: solver settings for that
        self.optional = optional      # static helper: its contract is used when it has these parameters, otherwise it is executed in place
        self.trust = trust            # postconditions that callers use but that are not proved from the body
        self.lean = lean              # loops: only the candidates of the contract
        self.hooks = hooks or {}      # callee -> lemma instances (ghost code) at its call sites
        self.assumed = assumed
        self.setup, self.effect = setup, effect
        self.custom, self.cases = custom, cases
        self.inline, self.cxx, self.dem, self.null = inline, cxx, dem, set(null)
        if not cxx:
            SPECS[self.symbol] = self
        else:
            CXXSPECS.append(self)

def spec(*a, **k):
    return Spec(*a, **k)

OFF_PREC, OFF_EMB, OFF_IMM, OFF_DER, OFF_FLAG, SZ_RENF = 136, 144, 192, 112, 104, 200

# ------------------------------------------------------------------ views
def view(c, kind, p, mode, old=True):
    v = View()
    v.kind = kind
    v.ptr = p
    if kind in ('int', 'si', 'slong'):
        return Z(p)
    if kind in INTK:
        n, sg = INTK[kind]
        return Z(p) if sg else Z(unsigned(p, n))
    if kind == 'celem':
        return X.celem_view(c, p, v)
    if kind == 'cfield':
        if not isinstance(p, Ptr) or not getattr(p.reg, 'cfield', False):
            raise Unsupported('not a number field object')
        v.f = p.reg
        v.fld = view(c, 'field', Ptr(p.reg, X.OFF_NF), 'in')
        v.core, v.gamma = v.fld.core, v.fld.gamma
        return v
    if kind == 'raw':
        return v
    if kind == 'ui':
        return Z(unsigned(p, 64)) if is_sym(p) else z3.IntVal(unsigned(p, 64))
    if kind == 'ptr':
        return p
    if kind == 'elem':
        o = L.elem(c, p)
        v.obj = o; v.val = o.val; v.nf = o.nf
        v.ball = ball(c, Ptr(p.reg, addoff(p.off, 32)))
        return v
    if kind == 'nfelem':
        o = L.elem(c, p)
        v.obj = o; v.val = o.val; v.nf = o.nf
        return v
    if kind == 'field':
        v.core = L.core(c, p)
        v.gamma = v.core.gamma
        v.ball = ball(c, Ptr(p.reg, addoff(p.off, OFF_EMB)))
        v.prec = Z(c.load(Ptr(p.reg, addoff(p.off, OFF_PREC)), ('i', 64), 8))
        v.imm = Z(c.load(Ptr(p.reg, addoff(p.off, OFF_IMM)), ('i', 32), 4))
        v.pol = L.poly(c, p)
        v.den = L.rd_z(c, Ptr(p.reg, addoff(p.off, 24)))
        v.der = L.poly(c, Ptr(p.reg, addoff(p.off, OFF_DER)))
        v.flag = c.load(Ptr(p.reg, addoff(p.off, OFF_FLAG)), ('i', 64), 8)
        return v
    if kind == 'nf':
        v.core = L.core(c, p); v.gamma = v.core.gamma
        return v
    if kind == 'fmpz':
        v.v = Z(L.rd_z(c, p)); v.r = R(v.v)
        return v
    if kind == 'mpz':
        v.v = Z(L.mpz_at(c, p).v); v.r = R(v.v)
        return v
    if kind == 'mpq':
        v.n = Z(L.mpz_at(c, p).v); v.d = Z(L.mpz_at(c, Ptr(p.reg, addoff(p.off, 16))).v)
        v.q = R(v.n)/R(v.d)
        return v
    if kind == 'fmpq':
        v.n = Z(L.rd_z(c, p)); v.d = Z(L.rd_z(c, Ptr(p.reg, addoff(p.off, 8))))
        v.q = R(v.n)/R(v.d)
        return v
    if kind == 'fraction':            # pair of integers, not necessarily a canonical fraction
        v.n = Z(L.rd_z(c, p)); v.d = Z(L.rd_z(c, Ptr(p.reg, addoff(p.off, 8))))
        return v
    if kind == 'arb':
        b = ball(c, p); b.ptr = p
        return b
    if kind == 'arf':
        o = L.arf_at(c, p)
        return o
    if kind == 'slongp':
        o = p.reg.cells.get(p.off) if p.reg is not None and p.reg.vec is None else None
        v.v = Z(o[0]) if o and (is_sym(o[0]) or isinstance(o[0], int)) else None
        return v
    if kind == 'lvec':
        if not isinstance(p, Ptr):
            raise Unsupported('integer vector')
        if p.reg is None:
            v.null = True
            return v
        v.null = False
        if p.reg.vec is None or p.reg.vec.kind != 'i64':
            if getattr(p.reg, 'untyped', False):
                c.as_i64(p.reg)
            else:
                raise Unsupported('integer vector %r' % (p,))
        if off_div(p.off, 8) != 0:
            raise Unsupported('part of an integer vector')
        v.arr, v.length, v.reg = p.reg.vec.arr, Z(p.reg.vec.length), p.reg
        return v
    if kind == 'cstr':
        v.reg, v.arr, v.off = CS.string(c, p, 'use')
        v.length = Z(v.reg.vec.length)
        v.null = False
        return v
    if kind in ('fvec',):
        if isinstance(p, Ptr) and p.reg is None:
            v.null = True
            return v
        v.null = False
        if not isinstance(p, Ptr) or p.reg is None or p.reg.vec is None or p.reg.vec.kind != 'fmpz':
            if isinstance(p, Ptr) and p.reg is not None and p.reg.vec is None:
                # coefficients stored inside a quadratic element
                cv = c.cover(p.reg, p.off)
                if cv and isinstance(cv[1], NfElem) and cv[1].which(c) == 'quad' and p.off == cv[0]:
                    a = cv[1].view(c, 'quad')
                    arr = z3.Store(z3.Store(z3.Store(z3.K(z3.IntSort(), z3.IntVal(0)), 0, a[0]), 1, a[1]), 2, a[2])
                    v.arr = arr; v.length = z3.IntVal(3); v.reg = None; v.off = 0
                    return v
            raise Unsupported('coefficient vector %r' % (p,))
        o = off_div(p.off, 8)
        if not (isinstance(o, int) and o == 0):
            arr = c.fresh_arr('sub')
            j = z3.Int('j')
            c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < Z(p.reg.vec.length) - Z(o)), arr[j] == p.reg.vec.arr[j + Z(o)])))
            if not c.sp.lean:
                c.assume(z3.ForAll([j], L.PV(arr, 0, j) == L.PV(p.reg.vec.arr, Z(o), j), patterns=[L.PV(arr, 0, j)]))
            v.arr = arr
            v.shift = (p.reg.vec.arr, Z(o))
        else:
            v.arr = p.reg.vec.arr
        v.length = Z(p.reg.vec.length) - Z(o)
        v.reg = p.reg; v.off = o
        return v
    if kind in ('zpoly', 'qpoly'):
        q = L.poly(c, p)
        v.arr, v.len, v.alloc, v.reg = q.arr, Z(q.len), Z(q.alloc), q.reg
        if kind == 'qpoly':
            v.den = Z(L.rd_z(c, Ptr(p.reg, addoff(p.off, 24))))
        return v
    raise Unsupported('kind ' + kind)

INTK = {'i16': (16, True), 'u16': (16, False), 'i32': (32, True), 'u32': (32, False), 'i64': (64, True), 'u64': (64, False)}
SIZES = {'celem': 88, 'elem': 80, 'nfelem': 32, 'field': SZ_RENF, 'fmpz': 8, 'mpz': 16, 'mpq': 32, 'fmpq': 16, 'arb': 48, 'arf': 32, 'slongp': 8, 'zpoly': 24, 'qpoly': 32, 'nf': 112}

def objs_of(c, kind, p):
    """(offset,size) cells that make up an object of this kind"""
    return {'elem': [(0, 32), (32, 32), (64, 16)], 'fmpz': [(0, 8)], 'fmpq': [(0, 8), (8, 8)], 'arb': [(0, 32), (32, 16)], 'arf': [(0, 32)],
            'mpz': [(0, 16)], 'mpq': [(0, 16), (16, 16)], 'nfelem': [(0, 32)]}.get(kind)

# ------------------------------------------------------------------ creation of symbolic arguments
def mk_tok(c, what):
    t = Tok(what, 'param@' + what)
    c.ptoks.append(t)
    return t

def mk_ball(c, reg, off, pts, name):
    m = Arf(c.fresh(name + '.m', 'Real'), c.fresh(name + '.k'), mk_tok(c, 'arf'))
    r = Mag(c.fresh(name + '.r', 'Real'), c.fresh(name + '.inf', 'Bool'), pts, mk_tok(c, 'mag'))
    c.assume(L.wf_ball(m, r))
    reg.cells[off] = (m, 32)
    reg.cells[off+32] = (r, 16)
    return Ball(m, r)

def mk_vec(c, name, length, tokens=False):
    reg = c.region(name, 'param', None, name)
    reg.vec = Vec('fmpz', 8, c.fresh_arr(name), length)
    return reg

def mk_field(c, name, reg=None, off=0):
    reg = reg or c.region(name, 'param', SZ_RENF, name)
    g = c.fresh('gamma', 'Real')
    plen = c.fresh('plen')
    c.assume(z3.And(plen >= 2, plen < (1 << 40)))
    lin, quad = (plen == 2), (plen == 3)
    mon = c.fresh('monic')
    c.assume(z3.And(mon >= 0, mon <= 1))
    core = NfCore(g, lin, quad, plen, mk_tok(c, 'nf'))
    pol = mk_vec(c, name + '.pol', c.fresh('palloc'))
    pol.tok = mk_tok(c, 'poly')
    c.assume(Z(pol.vec.length) >= plen)
    der = mk_vec(c, name + '.der', c.fresh('dalloc'))
    der.tok = mk_tok(c, 'poly')
    c.assume(Z(der.vec.length) >= plen - 1)
    der.vec.arr = L.DERIV(pol.vec.arr, plen)
    P = lambda o: Ptr(reg, off + o)
    c.store(P(0), Ptr(pol, 0), 8); c.store(P(8), pol.vec.length, 8); c.store(P(16), plen, 8)
    d = c.fresh('pden'); c.assume(d > 0)
    reg.cells[off+24] = (Fmpz(d, mk_tok(c, 'fmpz')), 8)
    reg.cells[off+32] = (core, 72)
    fl = z3.If(lin, 2, z3.If(quad, 4, 0)) + mon
    c.store(P(OFF_FLAG), fl, 8)
    c.store(P(OFF_DER), Ptr(der, 0), 8); c.store(P(OFF_DER+8), der.vec.length, 8); c.store(P(OFF_DER+16), plen - 1, 8)
    prec = c.fresh('fprec')
    c.assume(z3.And(prec >= 2, prec < (1 << 50)))
    c.store(P(OFF_PREC), prec, 8)
    b = mk_ball(c, reg, off + OFF_EMB, [g], name + '.emb')
    c.assume(b.has(g))
    c.store(P(OFF_IMM), 0, 4)
    a = pol.vec.arr
    c.assume(z3.And(H(a, 0, plen, g) == 0, a[plen-1] != 0, z3.Implies(z3.Not(lin), a[0] != 0)))
    c.assume(z3.Implies(lin, z3.And(RAT(g), R(a[1])*g == -R(a[0]), g == -R(a[0])/R(a[1]))))
    c.assume(z3.Implies(z3.Not(lin), z3.And(z3.Not(RAT(g)), g != 0)))
    c.assume(b.fin())
    c.assume(isolates(a, plen, b, g))
    iso_elim(c, a, plen, b, g)
    c.ghost.setdefault('points', []).append(g)
    c.ghost.setdefault('evpts', []).append(g)
    return Ptr(reg, off)

def isolates(a, plen, b, g):
    """g is the only root of the polynomial in the ball b; so every part of b has at most one root"""
    il, ih = z3.Real('iso_l'), z3.Real('iso_h')
    return z3.ForAll([il, ih], z3.Implies(z3.And(b.lo <= il, il <= ih, ih <= b.hi), L.ISO(a, plen, il, ih)), patterns=[L.ISO(a, plen, il, ih)])

def iso_elim(c, a, plen, b, g):
    """ISO means: two roots in the interval are equal.  Ground instances for the roots of the other fields in scope."""
    fs = c.ghost.setdefault('isofields', [])
    for a2, n2, b2, g2 in fs:
        c.assume(z3.Implies(z3.And(L.ISO(a, plen, b.lo, b.hi), b.has(g2), H(a, 0, plen, g2) == 0), g2 == g))
        c.assume(z3.Implies(z3.And(L.ISO(a2, n2, b2.lo, b2.hi), b2.has(g), H(a2, 0, n2, g) == 0), g2 == g))
    fs.append((a, plen, b, g))

def field_inv(c, p, name):
    """obligations of a function that builds a field"""
    v = view(c, 'field', p, 'in')
    a, n, g = v.pol.arr, Z(v.pol.len), v.gamma
    P = lambda f, lab, cls='post': c.prove(f, '%s: %s' % (name, lab), cls)
    P(z3.And(n >= 2, n <= Z(v.pol.alloc)), 'defining polynomial has degree at least one')
    P(v.den > 0, 'positive denominator')
    P(z3.And(Z(v.der.len) == n - 1, Z(v.der.alloc) >= n - 1), 'derivative has the right length')
    P(v.der.arr == L.DERIV(a, n), 'derivative of the defining polynomial')
    P(v.prec >= 2, 'default precision at least two bits')
    P(v.imm == 0, 'not immutable')
    P(v.ball.fin(), 'finite embedding', 'iso')
    P(z3.And(v.ball.has(g), H(a, 0, n, g) == 0), 'embedding contains the root', 'encl')
    P(isolates(a, n, v.ball, g), 'embedding contains no other root', 'iso')
    P(v.core.plen == n, 'consistent length', 'mem')
    P(z3.Implies(n > 2, z3.And(z3.Not(RAT(g)), g != 0)), 'the root is irrational unless the polynomial is linear', 'iso')

def mk_elem(c, name, core, mode, reg=None, off=0):
    reg = reg or c.region(name, 'param', 80, name)
    v = c.fresh(name + '.val', 'Real')
    o = NfElem(v, core, mk_tok(c, 'nf_elem'))
    c.assume(z3.Implies(core.lin, RAT(v)))
    reg.cells[off] = (o, 32)
    b = mk_ball(c, reg, off + 32, [v], name + '.emb')
    if mode != 'refx':
        c.assume(b.has(v))
    c.ghost.setdefault('points', []).append(v)
    return Ptr(reg, off)

def make(c, sp, partition):
    """create symbolic arguments; partition: dict name -> representative name"""
    args = {}
    fieldcore = None
    for p in sp.params:
        if p.kind in ('field', 'nf') and p.mode != 'init':
            args[p.name] = mk_field(c, p.name)
            if fieldcore is None:
                fieldcore = L.core(c, args[p.name])
    if sp.cxx:
        X.mk_cfield(c, 'Q', True)
        for p in sp.params:
            f = partition.get('@' + p.name)
            if f and f != 'null' and f not in c.ghost['cfields']:
                X.mk_cfield(c, f)
    for p in sp.params:
        n = p.name
        if n in args:
            continue
        rep = partition.get(n, n)
        if partition.get('?' + n):
            args[n] = NULL
            continue
        if rep != n:
            args[n] = args[rep]
            continue
        k = p.kind
        if p.mode == 'init':
            args[n] = Ptr(c.region(n, 'param', SIZES[k], n), 0)
            continue
        if k == 'celem':
            f = partition['@' + n]
            args[n] = X.mk_celem(c, n, None if f == 'null' else c.ghost['cfields'][f])
        elif k == 'cfield':
            args[n] = Ptr(c.ghost['cfields'][partition['@' + n]], 0)
        elif k == 'raw':
            args[n] = Ptr(c.region(n, 'param', int(p.arg), n), 0)
        elif k in INTK:
            v = c.fresh(n)
            b = INTK[k][0] - 1
            c.assume(z3.And(v >= -(1 << b), v < (1 << b)))
            args[n] = v
        elif k in ('int', 'si', 'slong'):
            v = c.fresh(n)
            b = 31 if k == 'int' else 63
            c.assume(z3.And(v >= -(1 << b), v < (1 << b)))
            args[n] = v
        elif k == 'ui':
            v = c.fresh(n)
            c.assume(z3.And(v >= -(1 << 63), v < (1 << 63)))
            args[n] = v
        elif k == 'elem':
            args[n] = mk_elem(c, n, fieldcore, p.mode)
        elif k == 'nfelem':
            reg = c.region(n, 'param', 32, n)
            v = c.fresh(n + '.val', 'Real')
            reg.cells[0] = (NfElem(v, fieldcore, mk_tok(c, 'nf_elem')), 32)
            c.assume(z3.Implies(fieldcore.lin, RAT(v)))
            args[n] = Ptr(reg, 0)
        elif k == 'fmpz':
            reg = c.region(n, 'param', 8, n)
            reg.cells[0] = (Fmpz(c.fresh(n), mk_tok(c, 'fmpz')), 8)
            args[n] = Ptr(reg, 0)
        elif k == 'fraction':
            reg = c.region(n, 'param', 16, n)
            reg.cells[0] = (Fmpz(c.fresh(n), mk_tok(c, 'fmpz')), 8)
            reg.cells[8] = (Fmpz(c.fresh(n), mk_tok(c, 'fmpz')), 8)
            args[n] = Ptr(reg, 0)
        elif k == 'mpz':
            reg = c.region(n, 'param', 16, n)
            reg.cells[0] = (Mpz(c.fresh(n), mk_tok(c, 'mpz')), 16)
            args[n] = Ptr(reg, 0)
        elif k in ('fmpq', 'mpq'):
            w, cls = (8, Fmpz) if k == 'fmpq' else (16, Mpz)
            reg = c.region(n, 'param', 2*w, n)
            a, d = c.fresh(n + '.num'), c.fresh(n + '.den')
            c.assume(z3.And(d > 0, CANON(a, d)))
            q = R(a)/R(d)
            c.assume(z3.And((q > 0) == (a > 0), (q < 0) == (a < 0), q*R(d) == R(a), RAT(q)))
            reg.cells[0] = (cls(a, mk_tok(c, 'z')), w)
            reg.cells[w] = (cls(d, mk_tok(c, 'z')), w)
            args[n] = Ptr(reg, 0)
        elif k == 'arb':
            reg = c.region(n, 'param', 48, n)
            pts = []
            x = c.fresh(n + '.pt', 'Real')
            b = mk_ball(c, reg, 0, [x], n)
            c.assume(b.has(x))
            c.ghost.setdefault('bpt', {})[n] = x
            c.ghost.setdefault('points', []).append(x)
            c.ghost.setdefault('evpts', []).append(x)
            args[n] = Ptr(reg, 0)
        elif k == 'arf':
            reg = c.region(n, 'param', 32, n)
            kk = c.fresh(n + '.k'); c.assume(z3.And(kk >= 0, kk <= 3))
            v = c.fresh(n, 'Real')
            reg.cells[0] = (Arf(v, kk, mk_tok(c, 'arf')), 32)
            c.ghost.setdefault('evpts', []).append(v)
            args[n] = Ptr(reg, 0)
        elif k == 'slongp':
            reg = c.region(n, 'param', 8, n)
            if p.mode != 'out':
                v = c.fresh(n); c.assume(z3.And(v >= I64MIN, v <= I64MAX))
                reg.cells[0] = (v, 8)
            else:
                reg.cells[0] = (UNDEF, 8)
            args[n] = Ptr(reg, 0)
        elif k == 'fvec':
            al = c.fresh(n + '.alloc')
            reg = mk_vec(c, n, al)
            args[n] = Ptr(reg, 0)
        elif k == 'lvec':
            reg = c.region(n, 'param', None, n)
            reg.vec = Vec('i64', 8, c.fresh_arr(n), c.fresh(n + '.alloc'))
            args[n] = Ptr(reg, 0)
        elif k == 'cstr':
            reg = c.region(n, 'param', None, n)
            reg.vec = Vec('u8', 1, c.fresh_arr(n), c.fresh(n + '.alloc'))
            z = CS.NUL(reg.vec.arr, 0)
            c.assume(z3.And(z >= 0, z < reg.vec.length, reg.vec.length < (1 << 40)))
            args[n] = Ptr(reg, 0)
        elif k in ('zpoly', 'qpoly'):
            reg = c.region(n, 'param', SIZES[k], n)
            ln, al = c.fresh(n + '.len'), c.fresh(n + '.alloc')
            c.assume(z3.And(ln >= 0, al >= ln, al < (1 << 40)))
            vr = mk_vec(c, n + '.coeffs', al)
            vr.tok = mk_tok(c, 'poly')
            reg.cells[0] = (Ptr(vr, 0), 8); reg.cells[8] = (al, 8); reg.cells[16] = (ln, 8)
            c.assume(z3.Implies(ln > 0, vr.vec.arr[ln-1] != 0))
            if k == 'qpoly':
                d = c.fresh(n + '.den'); c.assume(d > 0)
                reg.cells[24] = (Fmpz(d, None), 8)
            args[n] = Ptr(reg, 0)
        else:
            raise Unsupported('cannot make ' + k)
    return args

# ------------------------------------------------------------------ states
class State:
    """s.a = old view of parameter a, s.n.a = new view, s.ret, s.c = ctx"""
    pass

def views(c, sp, args, when, dead=()):
    vs = {}
    for p in sp.params:
        a = args[p.name]
        if when == 'old' and p.mode == 'init':
            continue
        if when == 'new' and p.mode == 'clear':
            continue
        vs[p.name] = view(c, p.kind, a, p.mode, when == 'old')
    return vs

def ns(d):
    v = View()
    v.__dict__.update(d)
    return v

def aliased(args, a, b):
    x, y = args[a], args[b]
    return isinstance(x, Ptr) and isinstance(y, Ptr) and x.reg is y.reg and term_eq(x.off, y.off)

WRITES = {'out', 'ref', 'refx', 'mut', 'init', 'clear'}

def effective_mode(sp, args, name):
    """strongest write mode among the parameters aliased with name"""
    modes = [p.mode for p in sp.params if p.name == name or (isinstance(args[p.name], Ptr) and aliased(args, p.name, name))]
    for m in ('clear', 'init', 'move', 'out', 'upd', 'mut', 'imm', 'refx', 'ref'):
        if m in modes:
            return m
    return 'in'

def ball_same(a, b):
    return a.m.same(b.m) and a.r.same(b.r)

def ball_sub(n, o):
    """new ball inside the old one (when the old one is finite)"""
    return z3.Or(z3.Not(o.fin()), z3.And(n.fin(), n.lo >= o.lo, n.hi <= o.hi))

# ------------------------------------------------------------------ use of a contract at a call site
def apply(c, sp, argv, key):
    name = sp.name
    args = {p.name: a for p, a in zip(sp.params, argv)}
    old = {}
    for p in sp.params:
        a = args[p.name]
        if p.mode == 'init':
            c.check_ptr(a, 'init')
            continue
        v = view(c, p.kind, a, p.mode)
        old[p.name] = v
        if p.kind == 'elem' and p.mode in ('in', 'ref'):
            c.prove(v.ball.has(v.val), 'call %s: enclosure of %s contains its value' % (name, p.name), 'pre')
        if p.kind == 'field':
            c.prove(v.ball.has(v.gamma), 'call %s: embedding of %s contains the generator' % (name, p.name), 'pre')
            if (a.reg.key, a.off) in c.ghost.get('newfields', ()) and p.mode != 'clear':
                field_inv(c, a, 'call %s: %s' % (name, p.name))
            if p.mode == 'mut':
                c.prove(v.imm == 0, 'call %s: %s is not being refined or marked immutable' % (name, p.name), 'pre')
        if p.kind == 'fmpq':
            c.prove(z3.And(v.d > 0), 'call %s: %s has positive denominator' % (name, p.name), 'pre')
            c.assume(z3.And((v.q > 0) == (v.n > 0), (v.q < 0) == (v.n < 0), v.q*R(v.d) == R(v.n)))
    fld = next((old[p.name].core for p in sp.params if p.kind in ('field', 'nf') and p.mode != 'init'), None)
    if fld is not None:
        for p in sp.params:
            if p.kind in ('elem', 'nfelem') and p.mode != 'init':
                L.same_field(c, old[p.name], fld, name)
    for a, b in sp.noalias:
        c.prove(not aliased(args, a, b), 'call %s: %s and %s are different objects' % (name, a, b), 'pre')
    for p in sp.params:
        if p.kind == 'fvec' and p.arg and p.name in old and getattr(old[p.name], 'shift', None):
            v, (b, o), n = old[p.name], old[p.name].shift, Z(old[p.arg])
            c.assume(z3.And(L.PV(v.arr, 0, n) == L.PV(b, o, n), v.arr[0] == b[o], v.arr[n-1] == b[o+n-1]))
    s = ns(old); s.c = c; s.args = args; s.site = True
    if name in c.sp.hooks:
        for f in c.sp.hooks[name](c.thr_state, s):
            c.assume(f)
    if sp.pre:
        for lab, f in listify(sp.pre(s)):
            c.prove(f, 'call %s: %s' % (name, lab), 'pre')
    if sp.effect:
        return sp.effect(c, s, args)
    # havoc
    done = set()
    for p in sp.params:
        a = args[p.name]
        m = effective_mode(sp, args, p.name) if isinstance(a, Ptr) else 'in'
        if m == 'in' or not isinstance(a, Ptr) or a.reg is None:
            continue
        ident = (a.reg.key, str(a.off))
        if ident in done:
            continue
        done.add(ident)
        havoc_param(c, p, a, m, old.get(p.name), fld)
    new = {}
    for p in sp.params:
        m = effective_mode(sp, args, p.name) if isinstance(args[p.name], Ptr) else 'in'
        if m == 'clear':
            continue
        new[p.name] = view(c, p.kind, args[p.name], p.mode, False)
    s.n = ns(new)
    ret = None
    if sp.ret == 'int':
        ret = c.fresh('ret'); c.assume(z3.And(ret >= -(1 << 31), ret < (1 << 31)))
    elif sp.ret == 'bool':
        ret = c.fresh('ret'); c.assume(z3.And(ret >= 0, ret <= 1))
    elif sp.ret == 'slong':
        ret = c.fresh('ret'); c.assume(z3.And(ret >= I64MIN, ret <= I64MAX))
    elif sp.ret == 'double':
        ret = c.fresh('dret', 'Real')
    s.ret = ret
    if sp.pts:
        for src, dst, fn in sp.pts:
            nb = getattr(s.n, dst)
            add = []
            for q in getattr(s, src).pts():
                t = fn(s, q)
                if t is None:
                    continue
                g, t = t if isinstance(t, tuple) else (True, t)
                c.assume(z3.Implies(z3.And(toB(g), getattr(s, src).has(q)), nb.has(t)))
                add.append(t)
            nb.r.pts = L.dedupe(add)
    chk = VACUITY and not c.replaying() and c.solver.check() != z3.unsat
    if sp.post:
        for lab, f, cls in posts(sp, s):
            if f is not True:
                c.assume(f)
    if chk and c.solver.check() == z3.unsat:
        c.prove(False, 'contract of %s is satisfiable at this call' % name, 'vacuous')
    return ret

def posts(sp, s):
    out = []
    for x in listify(sp.post(s)):
        if len(x) == 2:
            out.append((x[0], x[1], 'post'))
        else:
            out.append(x)
    return out

def listify(x):
    if x is None:
        return []
    if isinstance(x, tuple) and isinstance(x[0], str):
        return [x]
    if isinstance(x, list):
        return x
    return [('condition', x)]

def havoc_param(c, p, a, m, old, fld):
    k = p.kind
    if k == 'elem':
        if m == 'clear':
            L.A['nf_elem_clear'](c, a, None) if False else None
            L.kill(c, a, L.elem(c, a), 'element')
            L.A['arb_clear'](c, Ptr(a.reg, addoff(a.off, 32)))
            return
        if m == 'init':
            v = c.fresh('iv', 'Real')
            o = L.new_elem_obj(c, v, fld, c.newtok('nf_elem'))
            c.put(a, o, 32)
            L.A['arb_init'](c, Ptr(a.reg, addoff(a.off, 32)))
            b = L.fresh_ball(c, Ptr(a.reg, addoff(a.off, 32)), [(True, v)], 'ib')
            return
        o = L.elem(c, a)
        v = o.val
        if m == 'out':
            v = c.fresh('ov', 'Real')
            L.put_elem(c, a, v, fld if fld is not None else o.nf, o)
        L.fresh_ball(c, Ptr(a.reg, addoff(a.off, 32)), [(True, v)], 'eb')
    elif k == 'nfelem':
        o = L.elem(c, a)
        L.put_elem(c, a, c.fresh('ov', 'Real'), o.nf, o)
    elif k == 'field':
        if m in ('init',):
            mk_field_at(c, a)
            return
        if m == 'clear':
            L.A['nf_clear'](c, a)
            L.A['fmpz_poly_clear'](c, Ptr(a.reg, addoff(a.off, OFF_DER)))
            L.A['arb_clear'](c, Ptr(a.reg, addoff(a.off, OFF_EMB)))
            return
        if m == 'imm':
            v = c.fresh('imm'); c.assume(z3.And(v >= -(1 << 31), v < (1 << 31)))
            c.store(Ptr(a.reg, addoff(a.off, OFF_IMM)), v, 4)
            return
        b0 = old.ball
        nb = L.fresh_ball(c, Ptr(a.reg, addoff(a.off, OFF_EMB)), [(True, old.gamma)], 'fb')
        c.assume(ball_sub(nb, b0))
        c.assume(nb.fin())
    elif k == 'fmpz':
        L.wr_z(c, a, c.fresh('oz'))
    elif k == 'fraction':
        L.wr_z(c, a, c.fresh('on')); L.wr_z(c, Ptr(a.reg, addoff(a.off, 8)), c.fresh('od'))
    elif k == 'mpz':
        L.wr_mpz(c, a, c.fresh('oz'))
    elif k == 'fmpq':
        n, d = c.fresh('on'), c.fresh('od')
        c.assume(z3.And(d > 0, CANON(n, d)))
        L.wr_z(c, a, n); L.wr_z(c, Ptr(a.reg, addoff(a.off, 8)), d)
    elif k == 'arb':
        L.fresh_ball(c, a, [], 'ab')
    elif k == 'arf':
        kk = c.fresh('ak'); c.assume(z3.And(kk >= 0, kk <= 3))
        L.wr_arf(c, a, c.fresh('af', 'Real'), kk)
    elif k == 'slongp':
        v = c.fresh('sl'); c.assume(z3.And(v >= I64MIN, v <= I64MAX))
        c.store(a, v, 8)
    elif k == 'lvec':
        a.reg.vec = a.reg.vec.with_(arr=c.fresh_arr('hl'))
    elif k == 'fvec':
        if a.reg.vec is None:
            raise Unsupported('havoc of inline vector')
        o = off_div(a.off, 8)
        arr = c.fresh_arr('hv')
        a.reg.vec = a.reg.vec.with_(arr=arr)
        if not (isinstance(o, int) and o == 0):
            raise Unsupported('havoc of vector tail')
    elif k in ('zpoly', 'qpoly'):
        arr = c.fresh_arr('hp'); ln = c.fresh('hl')
        c.assume(z3.And(ln >= 0, ln < (1 << 40)))
        c.assume(z3.Implies(ln > 0, arr[ln-1] != 0))
        L.set_poly(c, a, arr, ln)
        if k == 'qpoly':
            d = c.fresh('hd'); c.assume(d > 0)
            L.wr_z(c, Ptr(a.reg, addoff(a.off, 24)), d)
    else:
        raise Unsupported('havoc ' + k)

def mk_field_at(c, a):
    p = c.check_ptr(a, 'renf_init')
    for b in list(p.reg.cells):
        if p.off <= b < p.off + SZ_RENF:
            del p.reg.cells[b]
    mk_field(c, 'newfield', p.reg, p.off)
    # owned by the caller from now on
    for b, (v, z) in p.reg.cells.items():
        if p.off <= b < p.off + SZ_RENF:
            if isinstance(v, Obj) and v.tok is not None:
                v.tok = c.newtok(v.tok.what)
            if isinstance(v, Ptr) and v.reg is not None and v.reg.tok is not None:
                v.reg.tok = c.newtok('poly')

# ------------------------------------------------------------------ verification of a body
def partitions(sp):
    """alias partitions of the pointer parameters"""
    if sp.custom:
        return sp.cases
    if sp.cxx:
        return cxx_partitions(sp)
    ptrs = [p for p in sp.params if p.kind in ('elem', 'fmpz', 'fmpq', 'arb', 'arf', 'mpz', 'zpoly', 'qpoly', 'fvec') and p.mode not in ('init', 'clear')]
    groups = {}
    for p in ptrs:
        groups.setdefault(p.kind, []).append(p)
    if sp.nullcases is not None:
        return [{'?' + n: 'null' for n in x} for x in sp.nullcases]
    if not sp.alias:
        return [{}]
    opts = []
    for k, ps in groups.items():
        opts.append(list(set_partitions(ps, sp)))
    res = []
    for combo in itertools.product(*opts):
        d = {}
        for part in combo:
            d.update(part)
        res.append(d)
    return res

def cxx_partitions(sp):
    """which element parameters are the same object, and which parameters share a parent (or have the rational field as parent)"""
    els = [p for p in sp.params if p.kind == 'celem' and p.mode not in ('init',)]
    al = list(set_partitions([p for p in els if p.mode != 'clear'], sp)) if sp.alias else [{}]
    own = els + [p for p in sp.params if p.kind == 'cfield']
    out = []
    for a in al:
        names = [p.name for p in own if p.name not in a]
        def rec(i, cur, used):
            if i == len(names):
                d = dict(a)
                for n, f in cur.items():
                    d['@' + n] = f
                for n, r in a.items():
                    d['@' + n] = cur[r]
                out.append(d)
                return
            n = names[i]
            opts = ['Q'] + ['K%d' % (j + 1) for j in range(used + 1)]
            if n in sp.null and all(x in sp.null for x, r in a.items() if r == n):
                opts.append('null')
            for f in opts:
                cur[n] = f
                rec(i + 1, cur, used + (f == 'K%d' % (used + 1)))
                del cur[n]
        rec(0, {}, 0)
    return out

def set_partitions(ps, sp):
    def rec(i, blocks):
        if i == len(ps):
            d = {}
            for b in blocks:
                for x in b[1:]:
                    d[x.name] = b[0].name
            yield d
            return
        for b in blocks:
            if any((x.name, ps[i].name) in sp.noalias or (ps[i].name, x.name) in sp.noalias for x in b):
                continue
            # aliasing two pure inputs is only interesting when it can matter; keep it
            b.append(ps[i])
            yield from rec(i+1, blocks)
            b.pop()
        blocks.append([ps[i]])
        yield from rec(i+1, blocks)
        blocks.pop()
    yield from rec(0, [])

def run_body(c, sp, fn, partition):
    if sp.custom:
        c.args, c.sp, c.thr_state = {}, sp, ns({})
        c.abort_ok = False
        c.entry_snap = c.snapshot()
        c.args_view = {}; c.rep = lambda n: n
        c.vrun.covered_entry(c)
        return sp.custom(c, sp, fn, partition)
    args = make(c, sp, partition)
    c.args = args
    c.sp = sp
    old = views(c, sp, args, 'old')
    s = ns(old); s.c = c; s.args = args; s.site = False; s.ret = None
    c.args_view = old; c.rep = lambda n: partition.get(n, n)
    for p in sp.params:
        if p.kind == 'fvec' and p.arg and not old[p.name].null:
            ln = old[p.arg.split('-')[0].split('+')[0]]
            if '-' in p.arg:
                ln = ln - int(p.arg.split('-')[1])
            c.assume(z3.And(old[p.name].length >= ln, old[p.name].length < (1 << 40)))
    if sp.pre:
        for lab, f in listify(sp.pre(s)):
            c.assume(f)
    if sp.lemma:
        for f in sp.lemma(s):
            c.assume(f)
    if sp.ghost:
        sp.ghost(s)
    for (src, dst, fnp) in (sp.pts or []):
        x = c.ghost['bpt'][partition.get(src, src)]
        fnp(s, x)
    for p in sp.params:
        if p.mode == 'clear':
            ct = c.ghost.setdefault('cleartoks', {}).setdefault(p.name, [])
            for b, (v, z) in args[p.name].reg.cells.items():
                if isinstance(v, Obj) and v.tok is not None:
                    c.maydie.add(v.tok); ct.append(v.tok)
                if isinstance(v, Ptr) and v.reg is not None and v.reg.tok is not None and not sp.cxx:
                    c.maydie.add(v.reg.tok); ct.append(v.reg.tok)
    if sp.cxx:
        cxx_enter(c, sp, args, s)
    snap = c.snapshot()
    c.entry_snap = snap
    c.abort_ok = sp.may_abort(s) if sp.may_abort else False
    c.thr_state = s
    c.vrun.covered_entry(c)
    argv = [args[p.name] for p in sp.params]
    ret = c.call_ir(fn, argv, fn.name)
    c.line = None
    if c.vrun.discovery:
        return
    finish(c, sp, s, args, ret, snap, partition)

def finish(c, sp, s, args, ret, snap, partition):
    name = sp.name
    new = {}
    cleared = set()
    for p in sp.params:
        a = args[p.name]
        m = effective_mode(sp, args, p.name) if isinstance(a, Ptr) else 'in'
        if m == 'clear':
            left = [(b, v) for b, v in a.reg.cells.items() if isinstance(v[0], Obj) and v[0].tok is not None and v[0].tok.alive]
            c.prove(not left and not any(t.alive for t in c.ghost.get('cleartoks', {}).get(p.name, [])), '%s is completely released' % p.name, 'mem')
            continue
        new[p.name] = view(c, p.kind, a, p.mode, False)
    s.n = ns(new)
    if sp.ret == 'bool' and ret is not None and not isinstance(ret, bool):
        pass
    if ret is UNDEF:
        c.fail('returns an undefined value', 'post')
    s.ret = Z(ret) if isinstance(ret, int) and not isinstance(ret, bool) else ret
    # type invariants and frame
    for p in sp.params:
        a = args[p.name]
        if not isinstance(a, Ptr) or p.name not in new:
            continue
        m = effective_mode(sp, args, p.name)
        v = new[p.name]
        o = getattr(s, p.name, None)
        if p.kind == 'elem':
            if m != 'in':
                c.prove(v.ball.has(v.val), 'enclosure of %s contains its value' % p.name, 'encl')
            if m in ('in', 'ref', 'refx'):
                c.prove(True if v.val.eq(o.val) else (v.val == o.val), 'number represented by %s is unchanged' % p.name, 'frame')
            if m == 'in':
                c.prove(ball_same(v.ball, o.ball) or z3.And(v.ball.has(v.val)), 'enclosure of %s is unchanged' % p.name, 'frame')
        elif p.kind == 'celem':
            cxx_celem_post(c, sp, s, p, m, v, o)
        elif p.kind == 'field' and p.mode == 'init':
            field_inv(c, a, p.name)
        elif p.kind == 'field':
            c.prove(v.core is o.core and v.pol.reg is o.pol.reg and v.pol.arr.eq(o.pol.arr) and term_eq(v.pol.len, o.pol.len)
                    and v.der.reg is o.der.reg and v.der.arr.eq(o.der.arr) and term_eq(v.den, o.den) and same_term(v.flag, o.flag),
                    'defining polynomial of %s is unchanged' % p.name, 'frame')
            c.prove(v.prec == o.prec, 'default precision of %s is unchanged' % p.name, 'frame')
            if p.mode != 'imm':
                c.prove(v.imm == o.imm, 'immutable flag of %s is unchanged' % p.name, 'frame')
            if m in ('in', 'imm'):
                c.prove(True if ball_same(v.ball, o.ball) else L.b2i(False) == 1, 'embedding of %s is unchanged' % p.name, 'frame')
            else:
                c.prove(v.ball.has(v.gamma), 'embedding of %s contains its root' % p.name, 'encl')
                c.prove(ball_sub(v.ball, o.ball), 'embedding of %s stays inside the isolating ball' % p.name, 'iso')
                c.prove(v.ball.fin(), 'embedding of %s stays finite' % p.name, 'iso')
        elif m == 'in':
            if p.kind == 'fmpz':
                c.prove(v.v == o.v, '%s is unchanged' % p.name, 'frame')
            elif p.kind in ('fmpq', 'mpq'):
                c.prove(z3.And(v.n == o.n, v.d == o.d), '%s is unchanged' % p.name, 'frame')
            elif p.kind == 'arb':
                c.prove(ball_same(v, o) or z3.And(v.m.v == o.m.v, v.r.v == o.r.v, Z(v.m.k) == Z(o.m.k), toB(v.r.inf) == toB(o.r.inf)), '%s is unchanged' % p.name, 'frame')
            elif p.kind == 'arf':
                c.prove(v.same(o) or z3.And(v.v == o.v, Z(v.k) == Z(o.k)), '%s is unchanged' % p.name, 'frame')
            elif p.kind in ('fvec', 'lvec', 'cstr') and not v.null:
                c.prove(v.arr.eq(o.arr) or v.arr == o.arr, '%s is unchanged' % p.name, 'frame')
            elif p.kind in ('zpoly', 'qpoly'):
                c.prove(z3.And(v.arr == o.arr, v.len == o.len), '%s is unchanged' % p.name, 'frame')
            elif p.kind == 'nfelem':
                c.prove(v.val == o.val, '%s is unchanged' % p.name, 'frame')
            elif p.kind == 'mpz':
                c.prove(v.v == o.v, '%s is unchanged' % p.name, 'frame')
        elif p.kind == 'fmpq':
            c.prove(z3.And(v.d > 0), '%s has a positive denominator' % p.name, 'post')
        elif p.kind in ('zpoly', 'qpoly') and m == 'out':
            c.prove(z3.And(v.len >= 0, v.len <= v.alloc, z3.Implies(v.len > 0, v.arr[v.len-1] != 0)), '%s is normalised' % p.name, 'post')
    if sp.pts:
        for src, dst, fn in sp.pts:
            x = c.ghost['bpt'][partition.get(src, src)]
            t = fn(s, x)
            if t is None:
                continue
            g, t = t if isinstance(t, tuple) else (True, t)
            c.prove(z3.Implies(toB(g), getattr(s.n, dst).has(t)), 'result ball %s contains the value at every point of %s' % (dst, src), 'encl')
    if sp.cxx:
        cxx_exit(c, sp, s, args, ret)
    if sp.post:
        for lab, f, cls in posts(sp, s):
            if lab in sp.trust:
                c.vrun.assumed.add('%s: postcondition "%s" (not proved from the body; bounded replay only)' % (sp.name, lab))
                continue
            c.prove(f, lab, cls)
    leaks(c, sp, args, ret)
    c.vrun.covered_exit(c)

def leaks(c, sp, args, ret):
    # leaks
    held = set()
    for p in sp.params:
        a = args[p.name]
        if isinstance(a, Ptr) and a.reg is not None:
            mark_held(c, a.reg, held)
    if isinstance(ret, Ptr) and ret.reg is not None:
        mark_held(c, ret.reg, held)
    for t in c.toks:
        if t.alive and t not in held:
            c.prove(False, 'everything allocated is released (%s)' % t.what, 'mem')
    owned = {}
    for p in sp.params:
        a = args[p.name]
        if isinstance(a, Ptr) and a.reg is not None and p.mode != 'clear':
            own_check(c, a.reg, owned, p.name, set())

def own_check(c, reg, owned, name, seen):
    if id(reg) in seen:
        return
    seen.add(id(reg))
    if reg.tok is not None and not reg.tok.alive or not reg.alive:
        c.prove(False, '%s stays allocated' % name, 'mem')
    for b, (v, s) in reg.cells.items():
        if isinstance(v, Obj) and v.tok is not None:
            if not v.tok.alive:
                c.prove(False, '%s stays initialised' % name, 'mem')
            if owned.setdefault(v.tok, (reg.key, b)) != (reg.key, b):
                c.prove(False, 'two objects share the same storage (%s)' % name, 'mem')
        if isinstance(v, Ptr) and v.reg is not None:
            own_check(c, v.reg, owned, name, seen)

def same_term(a, b):
    return term_eq(a, b) or (not is_sym(a) and not is_sym(b) and a == b)

def mark_held(c, reg, held, seen=None):
    seen = seen if seen is not None else set()
    if id(reg) in seen:
        return
    seen.add(id(reg))
    if reg.tok is not None:
        held.add(reg.tok)
    for b, (v, s) in reg.cells.items():
        if isinstance(v, Obj) and v.tok is not None:
            held.add(v.tok)
        if isinstance(v, Ptr) and v.reg is not None:
            mark_held(c, v.reg, held, seen)

# ------------------------------------------------------------------ C++ functions
def cxx_enter(c, sp, args, s):
    """ghost reference counts: one reference for every element parameter; field parameters are kept alive by the caller"""
    rc = X.refs(c)
    pin = c.ghost.setdefault('pinned', set())
    for n, reg in c.ghost['cfields'].items():
        rc[reg.key] = 0
    pin.add(c.ghost['cfields']['Q'].key)
    seen = set()
    for p in sp.params:
        a = args[p.name]
        if p.kind == 'cfield':
            pin.add(a.reg.key)
        if p.kind == 'celem' and p.mode != 'init' and a.reg.key not in seen:
            seen.add(a.reg.key)
            q = a.reg.cells[a.off][0]
            if q.reg is not None:
                rc[q.reg.key] += 1
    c.ghost['fields0'] = {n: view(c, 'field', Ptr(r, X.OFF_NF), 'in') for n, r in c.ghost['cfields'].items()}
    c.ghost['cache0'] = {n: [view(c, 'celem', Ptr(r.cells[X.OFF_CACHE][0].reg, 8 + 88*i), 'in') for i in range(3)] for n, r in c.ghost['cfields'].items()}

def cxx_celem_post(c, sp, s, p, m, v, o):
    if v.null:
        c.prove(m in ('move', 'clear') or (o is not None and o.null and m == 'in'), '%s still has a parent' % p.name, 'post')
        return
    c.prove(v.nf is v.core, '%s lives in its parent' % p.name, 'post')
    c.prove(v.ball.has(v.val), 'enclosure of %s contains its value' % p.name, 'encl')
    if m == 'in':
        c.prove(v.f is o.f, 'parent of %s is unchanged' % p.name, 'frame')
        c.prove(True if v.val.eq(o.val) else (v.val == o.val), 'number represented by %s is unchanged' % p.name, 'frame')

def cxx_exit(c, sp, s, args, ret, thrown=False):
    """frame over all fields, and reference counts"""
    held = {}
    seen = set()
    for p in sp.params:
        a = args[p.name]
        if p.kind == 'celem' and p.mode != 'clear' and a.reg.key not in seen:
            seen.add(a.reg.key)
            q = X.parent_ptr(c, a)
            if q.reg is not None:
                held[q.reg.key] = held.get(q.reg.key, 0) + 1
            else:
                # the garbage left behind in a moved-from element is not owned by it
                for b in list(a.reg.cells):
                    if b >= a.off + X.OFF_A and b < a.off + 88:
                        del a.reg.cells[b]
    for n, reg in c.ghost['cfields'].items():
        c.prove(X.refs(c).get(reg.key, 0) == held.get(reg.key, 0), 'references counted for field %s are the references held' % n, 'refs')
        if not reg.alive:
            continue
        o = c.ghost['fields0'][n]
        v = view(c, 'field', Ptr(reg, X.OFF_NF), 'in')
        c.prove(v.core is o.core and v.pol.reg is o.pol.reg and v.pol.arr.eq(o.pol.arr) and term_eq(v.pol.len, o.pol.len)
                and v.der.reg is o.der.reg and v.der.arr.eq(o.der.arr) and term_eq(v.den, o.den) and same_term(v.flag, o.flag),
                'defining polynomial of %s is unchanged' % n, 'frame')
        c.prove(v.prec == o.prec, 'default precision of %s is unchanged' % n, 'frame')
        c.prove(v.imm == o.imm, 'immutable flag of %s is unchanged' % n, 'frame')
        c.prove(z3.And(v.ball.has(v.gamma), v.ball.fin(), ball_sub(v.ball, o.ball)), 'embedding of %s isolates the same root' % n, 'encl')
        for i in range(3):
            p = Ptr(reg.cells[X.OFF_CACHE][0].reg, 8 + 88*i)
            e, e0 = view(c, 'celem', p, 'in'), c.ghost['cache0'][n][i]
            c.prove((True if e.val.eq(e0.val) else e.val == e0.val) if e.f is e0.f else False, 'cached element %d of %s is unchanged' % (i, n), 'frame')
            c.prove(e.ball.has(e.val), 'enclosure of cached element %d of %s contains its value' % (i, n), 'encl')
    for k, r in c.regions.items():
        if r.kind == 'global' and k in c.static_loaded and r.gname.startswith('_ZZ') and getattr(r, 'frozen', None) is not None:
            c.prove(r.cells == r.frozen, 'static object %s is unchanged' % r.gname[-12:], 'frame')
    if sp.ret and sp.ret.startswith('ref:') and not thrown:
        a = args[sp.ret[4:]]
        c.prove(isinstance(ret, Ptr) and ret.reg is a.reg and term_eq(ret.off, a.off), 'returns a reference to %s' % sp.ret[4:], 'post')

def on_throw(c, sp, e):
    """the function leaves with an exception"""
    if c.vrun.discovery:
        return
    if sp.custom:
        try:
            c.prove(False, 'no exception is thrown', 'post')
        except (PathEnd, Infeasible):
            pass
        return
    s = c.thr_state
    args = c.args
    c.line = None
    s.exc = e.what
    cond = sp.throws(s) if sp.throws else False
    try:
        c.prove(cond, 'an exception is only thrown in the documented case', 'post')
        for p in sp.params:
            a = args[p.name]
            if p.mode == 'init' and isinstance(a, Ptr):
                # a constructor that throws leaves nothing behind
                left = [v for b, v in a.reg.cells.items() if isinstance(v[0], Obj) and v[0].tok is not None and v[0].tok.alive]
                c.prove(not left, 'nothing is left behind in %s' % p.name, 'mem')
                a.reg.cells.clear()
                a.reg.cells[0] = (NULL, 8)
            elif p.kind == 'celem':
                v, o = view(c, 'celem', a, p.mode), getattr(s, p.name)
                cxx_celem_post(c, sp, s, p, effective_mode(sp, args, p.name), v, o)
        cxx_exit(c, sp, s, args, None, True)
        leaks(c, sp, args, None)
        c.vrun.covered_exit(c)
    except (PathEnd, Infeasible):
        pass
