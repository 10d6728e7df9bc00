"""Contracts of the polynomial helpers that the field and element layers rely on."""
import z3
from .core import *
from .core import off_div
from . import lib as L
from .lib import Z, H, RAT, ISO, DERIV, CANON
from .spec import spec, ball_sub

def horner_ghost(vec='pol', ln='len', src='a', den=None):
    def g(s):
        c = s.c
        v = getattr(s, vec)
        n = getattr(s, ln) if ln else v.len
        x = c.ghost['bpt'].get(src)
        if x is None:
            x = c.ghost['bpt'][c.rep(src)]
        L.add_hpt(c, n, x)
        c.assume(H(v.arr, Z(n), Z(n), x) == 0)
        c.ghost.setdefault('horner', []).append((v.arr, n, x))
        c.ghost.setdefault('ints', []).append(('len', Z(n)))
    return g

def exact_templates(c, fr, ls, ents):
    """the running value is exact when everything is"""
    out = []
    a = c.args_view['a']
    for k, r in c.regions.items():
        if not r.alive or r.vec is not None:
            continue
        for o, (v, z) in r.cells.items():
            m = r.cells.get(o - 32) if isinstance(o, int) else None
            if isinstance(v, L.Mag) and m and isinstance(m[0], L.Arf):
                b = L.Ball(m[0], v)
                out.append(('%s+%s exact' % (k, o), z3.Implies(z3.And(Z(c.args_view['prec']) == L.I64MAX, a.fin(), a.r.v == 0), z3.And(b.fin(), b.r.v == 0))))
    return out
exactpost = lambda s: finpost(s) + [('an exact point has an exact value at exact precision', z3.Implies(z3.And(s.prec == L.I64MAX, s.a.fin(), s.a.r.v == 0), z3.And(s.n.res.fin(), s.n.res.r.v == 0)))]
def exact_ghost(g):
    def f(s):
        s.c.ghost['exactness'] = True
        g(s)
    return f

finpost = lambda s: [('a finite ball has a finite image', z3.Implies(s.a.fin(), s.n.res.fin()))]
spec('_fmpz_poly_evaluate_arb', 'res:arb:out pol:fvec:in:len len:slong a:arb prec:slong', noalias=[('res', 'a')],
     pre=lambda s: [('length is nonnegative', s.len >= 0), ('prec at least 2', s.prec >= 2)],
     post=exactpost, pts=[('a', 'res', lambda s, q: H(s.pol.arr, 0, s.len, q))], ghost=exact_ghost(horner_ghost()), templates=exact_templates)
spec('fmpz_poly_evaluate_arb', 'res:arb:out pol:zpoly a:arb prec:slong', pre=lambda s: [('prec at least 2', s.prec >= 2)],
     post=finpost, pts=[('a', 'res', lambda s, q: H(s.pol.arr, 0, s.pol.len, q))], ghost=horner_ghost('pol', None))
spec('fmpq_poly_evaluate_arb', 'res:arb:out pol:qpoly a:arb prec:slong', pre=lambda s: [('prec at least 2', s.prec >= 2)],
     post=finpost, pts=[('a', 'res', lambda s, q: H(s.pol.arr, 0, s.pol.len, q)/R(s.pol.den))], ghost=horner_ghost('pol', None))
spec('_fmpz_poly_evaluate_arf', 'res:arf:out pol:fvec:in:len len:slong a:arf prec:slong', noalias=[('res', 'a')],
     pre=lambda s: [('length is nonnegative', s.len >= 0), ('prec at least 2', s.prec >= 2)],
     ghost=lambda s: s.c.ghost.setdefault('ints', []).append(('len', s.len)))
spec('fmpz_poly_evaluate_arf', 'res:arf:out pol:zpoly a:arf prec:slong', pre=lambda s: [('prec at least 2', s.prec >= 2)])
spec('fmpq_poly_evaluate_arf', 'res:arf:out pol:qpoly a:arf prec:slong', pre=lambda s: [('prec at least 2', s.prec >= 2)])

# cond: 2^cond bounds sum |p_i| |x|^i
def cond_templates(c, fr, ls, ents):
    out = []
    for k, o in L.live_arfs(c):
        out.append(('%s finite and nonnegative' % k, z3.And(Z(o.k) == 0, o.v >= 0)))
        for n, v, e in ents:
            out.append(('%s at least 1 once p[0] is consumed (%s)' % (k, n), z3.Implies(z3.And(v < 0, c.args_view['p'].arr[0] != 0), o.v >= 1)))
    return out
spec('_fmpz_poly_relative_condition_number_2exp', 'cond:slongp:out p:fvec:in:len len:slong x:arb prec:slong', ret='int',
     pre=lambda s: [('length is positive', s.len >= 1), ('prec at least 2', s.prec >= 2), ('x is finite', s.x.fin())],
     post=lambda s: [('a condition number is stored', s.n.cond.v is not None), ('success', s.ret == 0),
                     ('positive for a polynomial with nonzero constant coefficient', z3.Implies(s.p.arr[0] != 0, s.n.cond.v >= 1) if s.n.cond.v is not None else False),
                     ('fits', z3.And(s.n.cond.v > -(1 << 60), s.n.cond.v < (1 << 60)) if s.n.cond.v is not None else False)],
     ghost=lambda s: s.c.ghost.setdefault('ints', []).append(('len', s.len)), templates=cond_templates)

def newton_ghost(s):
    c = s.c
    horner_ghost('pol', 'len', 'a')(s)
    x = c.ghost['bpt']['a']
    a = s.a
    m = a.m.v
    xi = c.fresh('xi', 'Real')
    # mean value theorem for the polynomial between the midpoint and the point x of a
    c.assume(a.has(xi))
    c.assume(H(s.pol.arr, 0, s.len, m) - H(s.pol.arr, 0, s.len, x) == H(s.der.arr, 0, s.len - 1, xi)*(m - x))
    a.r.pts = L.dedupe(a.r.pts + [xi])
    c.ghost.setdefault('points', []).append(xi)
rootpt = lambda s, q: (z3.And(s.ret != 0, H(s.pol.arr, 0, s.len, q) == 0), q) if getattr(s, 'ret', None) is not None else None
spec('_fmpz_poly_newton_step_arb', 'res:arb:out pol:fvec:in:len der:fvec:in:len-1 len:slong a:arb prec:slong', ret='int', noalias=[('res', 'a'), ('pol', 'der')],
     pre=lambda s: [('length at least 2', s.len >= 2), ('prec at least 2', s.prec >= 2), ('a is finite', s.a.fin()), ('der is the derivative of pol', s.der.arr == DERIV(s.pol.arr, s.len))],
     pts=[('a', 'res', rootpt)], ghost=newton_ghost,
     post=lambda s: [('on success the new ball lies inside the old one', z3.Implies(s.ret != 0, z3.And(s.n.res.fin(), ball_sub(s.n.res, s.a))))])

def bisect_ghost(s):
    c = s.c
    horner_ghost('pol', 'len', 'a')(s)
    x = c.ghost['bpt']['a']
    a = s.a
    l, r = z3.Real('ivt_l'), z3.Real('ivt_r')
    A_, n = s.pol.arr, s.len
    h = lambda t: H(A_, 0, n, t)
    # intermediate value theorem together with uniqueness of the root x in a
    c.assume(z3.Implies(h(x) == 0, z3.ForAll([l, r], z3.Implies(z3.And(a.lo <= l, l < r, r <= a.hi, z3.Or(z3.And(h(l) < 0, h(r) > 0), z3.And(h(l) > 0, h(r) < 0))),
                                                               z3.And(l <= x, x <= r)), patterns=[z3.MultiPattern(h(l), h(r))])))
    for t in (a.lo, a.hi, a.m.v):
        L.add_hpt(c, n, t)
        c.ghost.setdefault('points', []).append(t)
spec('_fmpz_poly_bisection_step_arb', 'res:arb:out pol:fvec:in:len len:slong a:arb prec:slong', ret='int', noalias=[('res', 'a')],
     pre=lambda s: [('length at least 2', s.len >= 2), ('prec at least 2', s.prec >= 2), ('a is finite', s.a.fin()), ('a isolates a root', ISO(s.pol.arr, s.len, s.a.lo, s.a.hi))],
     pts=[('a', 'res', rootpt)], ghost=bisect_ghost,
     post=lambda s: [('on success the new ball lies inside the old one', z3.Implies(s.ret != 0, z3.And(s.n.res.fin(), ball_sub(s.n.res, s.a))))])
def arf_step_ghost(s):
    c = s.c
    c.ghost['horner'] = []
    for t in (s.l.v, s.r.v):
        L.add_hpt(c, s.len, t)
        c.ghost.setdefault('points', []).append(t)
def sgn_at(s, x, sg):
    h = H(s.pol.arr, 0, s.len, x)
    return z3.And(z3.Implies(sg == 1, h > 0), z3.Implies(sg == -1, h < 0))
spec('_fmpz_poly_bisection_step_arf', 'l:arf:out r:arf:out pol:fvec:in:len len:slong sl:int sr:int prec:slong', noalias=[('l', 'r')], ghost=arf_step_ghost,
     pre=lambda s: [('length at least 2', s.len >= 2), ('prec at least 2', s.prec >= 2), ('l < r finite', z3.And(Z(s.l.k) == 0, Z(s.r.k) == 0, s.l.v < s.r.v)),
                    ('the polynomial changes sign', z3.And(z3.Or(z3.And(s.sl == 1, s.sr == -1), z3.And(s.sl == -1, s.sr == 1)), sgn_at(s, s.l.v, s.sl), sgn_at(s, s.r.v, s.sr)))],
     post=lambda s: [('the new interval lies inside the old one', z3.And(Z(s.n.l.k) == 0, Z(s.n.r.k) == 0, s.n.l.v >= s.l.v, s.n.r.v <= s.r.v, s.n.l.v <= s.n.r.v)),
                     ('the polynomial still changes sign', z3.And(sgn_at(s, s.n.l.v, s.sl), sgn_at(s, s.n.r.v, s.sr)))])

# ------------------------------------------------------------------ unique real root
def uniq_ghost(s):
    c = s.c
    a, f, n = s.a, s.pol.arr, Z(s.pol.len)
    h = lambda t: H(f, 0, n, t)
    root, rolle = L.ROOT(f, n, a.lo, a.hi), L.ROLLE(f, n, a.lo, a.hi)
    c.ghost['horner'] = []
    # intermediate value theorem
    c.assume(z3.Implies(z3.And(a.fin(), h(a.lo)*h(a.hi) < 0), z3.And(a.has(root), h(root) == 0)))
    c.assume(z3.Implies(z3.And(a.fin(), z3.Or(z3.And(h(a.lo) > 0, h(a.hi) < 0), z3.And(h(a.lo) < 0, h(a.hi) > 0))), z3.And(a.has(root), h(root) == 0)))
    # Rolle
    c.assume(z3.Implies(z3.And(a.fin(), z3.Not(ISO(f, n, a.lo, a.hi))), z3.And(a.has(rolle), H(DERIV(f, n), 0, n - 1, rolle) == 0)))
    a.r.pts = L.dedupe(a.r.pts + [rolle])
    # linear polynomials
    q = -R(f[0])/R(f[1])
    c.assume(z3.Implies(n == 2, z3.And(h(q) == R(f[0]) + R(f[1])*q, ISO(f, n, a.lo, a.hi))))
    c.assume(z3.Implies(z3.And(n == 2, a.has(root), h(root) == 0), root == q))
    c.assume(z3.Implies(z3.And(n == 2, a.has(q)), z3.And(a.has(root), h(root) == 0)))
    # counting: roots in the open interval
    P = L.PV(f, 0, n)
    uniq = z3.And(a.fin(), h(a.lo) != 0, h(a.hi) != 0)
    c.assume(z3.Implies(uniq, (L.NRO(P, a.lo, a.hi) <= 1) == ISO(f, n, a.lo, a.hi)))
    c.assume(z3.Implies(z3.And(uniq, a.has(root), h(root) == 0), L.NRO(P, a.lo, a.hi) >= 1))
    c.assume(z3.Implies(z3.And(uniq, L.SQF(P), L.NRO(P, a.lo, a.hi) == 1), z3.Or(z3.And(h(a.lo) > 0, h(a.hi) < 0), z3.And(h(a.lo) < 0, h(a.hi) > 0))))
    for t in (a.lo, a.hi):
        c.assume(L.EV(P, t) == h(t))
        L.add_hpt(c, n, t)
        c.ghost.setdefault('points', []).append(t)
def uniq_formula(s):
    a, f, n = s.a, s.pol.arr, Z(s.pol.len)
    root = L.ROOT(f, n, a.lo, a.hi)
    return z3.And(ISO(f, n, a.lo, a.hi), a.has(root), H(f, 0, n, root) == 0)
def interior(s):
    a, f, n = s.a, s.pol.arr, Z(s.pol.len)
    return z3.Or(n == 2, z3.And(H(f, 0, n, a.lo) != 0, H(f, 0, n, a.hi) != 0))
spec('fmpq_poly_check_unique_real_root', 'pol:qpoly a:arb prec:slong', ret='int', ghost=uniq_ghost,
     pre=lambda s: [('the ball is finite', s.a.fin()), ('prec at least 2', z3.And(s.prec >= 2, s.prec < (1 << 61))), ('squarefree', z3.Implies(Z(s.pol.len) >= 3, L.SQF(L.PV(s.pol.arr, 0, Z(s.pol.len)))))],
     post=lambda s: [('0 or 1', z3.Or(s.ret == 0, s.ret == 1)), ('0 for a constant', z3.Implies(Z(s.pol.len) < 2, s.ret == 0)),
                     ('1 only if the ball contains exactly one root', z3.Implies(z3.And(s.a.fin(), s.ret == 1), uniq_formula(s))),
                     ('1 if the ball contains exactly one root, not at its ends', z3.Implies(z3.And(s.a.fin(), Z(s.pol.len) >= 2, interior(s), uniq_formula(s)), s.ret == 1))])
def nroots01(P):
    """number of roots of a squarefree polynomial in [0,1)"""
    return L.NRO(P, R(0), R(1)) + z3.If(L.EV(P, R(0)) == 0, z3.IntVal(1), z3.IntVal(0))
def polyof(v):
    return L.PV(v.arr, 0, Z(v.len))
SQFREE = lambda s: [('nonzero', Z(s.pol.len) >= 1), ('squarefree', L.SQF(polyof(s.pol)))]
spec('fmpz_poly_num_real_roots_0_1', 'pol:zpoly', ret='slong', pre=SQFREE, post=lambda s: [('the number of roots in [0,1)', s.ret == nroots01(polyof(s.pol)))])
spec('fmpz_poly_num_real_roots_0_1_vca', 'pol:zpoly', ret='slong', pre=SQFREE, post=lambda s: [('the number of roots in [0,1)', s.ret == nroots01(polyof(s.pol)))])
spec('_fmpz_poly_scale_0_1_fmpq', 'pol:fvec:out:len len:slong a:fmpq b:fmpq', assumed=True,
     pre=lambda s: [('a < b', s.a.q < s.b.q)],
     post=lambda s: [('the roots are mapped', z3.And(L.NRO(L.PV(s.n.pol.arr, 0, s.len), R(0), R(1)) == L.NRO(L.PV(s.pol.arr, 0, s.len), s.a.q, s.b.q),
                     (L.EV(L.PV(s.n.pol.arr, 0, s.len), R(0)) == 0) == (L.EV(L.PV(s.pol.arr, 0, s.len), s.a.q) == 0))),
                     ('a squarefree polynomial stays squarefree', L.SQF(L.PV(s.n.pol.arr, 0, s.len)) == L.SQF(L.PV(s.pol.arr, 0, s.len))), ('leading coefficient', (s.n.pol.arr[s.len-1] == 0) == (s.pol.arr[s.len-1] == 0))])

# ------------------------------------------------------------------ Vincent-Collins-Akritas isolation on [0,1)
# The working polynomial p represents pol on the dyadic position (c, k): p(x) = const * pol((c + x) / 2^k) up to roots at x <= 0.
I, B, PS = L.IntS, L.BoolS, L.PolyS
REP0 = z3.Function('REP0', PS, PS, I, I, B)     # (pol, p, c, k): same roots for x >= 0
REP1 = z3.Function('REP1', PS, PS, I, I, B)     # same roots for x > 0, and p(0) != 0
NI = z3.Function('NI', PS, I, I, I)             # number of roots of pol in the open interval (c 2^e, (c+1) 2^e)
RM = z3.Function('RM', PS, I, I, I)             # number of roots in the open interval (c 2^e, 1)
ZR = z3.Function('ZR', PS, I, I, I)             # 1 if c 2^e is a root, else 0
POS = z3.Function('POS', I, I, L.RealS)         # c 2^e
N01 = z3.Function('N01', PS, I)                 # number of roots in the open interval (0, 1)
DIVX = z3.Function('DIVX', PS, PS)              # p / x
def vca_theory(s):
    """Lemmas about REP0/REP1, instantiated where they are needed (no quantifiers): positions (c, k) that occur at loop heads and after a shift."""
    c = s.c
    P0 = L.PV(s.pol.arr, 0, s.len)
    c.ghost['vca'] = P0
    c.ghost['vca_pos'] = {}
    c.ghost['vca_done'] = {}
    c.ghost['lemmas'] = vca_lemma
    c.assume(z3.And(L.P2(0) == 1, POS(0, 0) == 0))
    vca_at(c, P0, z3.IntVal(0), z3.IntVal(0))
    c.assume(z3.Implies(L.SQF(P0), REP0(P0, P0, 0, 0)))
    c.assume(z3.And(RM(P0, 0, 0) == L.NRO(P0, R(0), R(1)), ZR(P0, 0, 0) == z3.If(L.EV(P0, R(0)) == 0, z3.IntVal(1), z3.IntVal(0))))
    L.pv_def(c, s.pol.arr, 0, s.len)
    c.ghost.setdefault('ints', []).append(('len', s.len))
def once(c, *key):
    k = tuple(x.get_id() if isinstance(x, z3.ExprRef) else x for x in key)
    if k in c.ghost['vca_done']:
        return False
    c.ghost['vca_done'][k] = key         # (the terms are kept alive, so that their numbers stay unique)
    return True
def pos_at(c, a, k):
    """facts about the position (a, k), i.e. the number a 2^-k"""
    P0 = c.ghost['vca']
    a, k = z3.simplify(a), z3.simplify(k)
    if not once(c, 'pos', a, k):
        return
    nk = z3.simplify(-k)
    c.ghost['vca_pos'][(a.get_id(), k.get_id())] = (a, k)
    c.assume_raw(z3.And(NI(P0, a, nk) >= 0, RM(P0, a, nk) >= 0, ZR(P0, a, nk) >= 0, ZR(P0, a, nk) <= 1, (ZR(P0, a, nk) == 1) == (L.EV(P0, POS(a, nk)) == 0), POS(a, nk) == L.MUL2(R(a), nk)))
    c.assume_raw(z3.Implies(k >= 0, z3.And(L.P2(k) >= 1, L.VAL2(L.P2(k)) == k)))
def vca_at(c, p, a, k):
    """the meaning of REP0 and REP1 (a squarefree polynomial has no second root at zero) for p at (a, k)"""
    P0 = c.ghost['vca']
    a, k = z3.simplify(a), z3.simplify(k)
    if not once(c, 'rep', p, a, k):
        return
    pos_at(c, a, k)
    nk = z3.simplify(-k)
    c.assume_raw(z3.And(RM(P0, a + 1, nk) >= 0, ZR(P0, a + 1, nk) >= 0))
    r0, r1 = REP0(P0, p, a, k), REP1(P0, p, a, k)
    c.assume_raw(z3.Implies(r0, z3.And(z3.Implies(z3.Not(L.C0Z(p)), z3.And(r1, ZR(P0, a, nk) == 0)), z3.Implies(L.C0Z(p), z3.And(ZR(P0, a, nk) == 1, REP1(P0, DIVX(p), a, k))))))
    c.assume_raw(z3.Implies(r1, z3.And(z3.Not(L.C0Z(p)), N01(p) == NI(P0, a, nk),
             z3.Implies(z3.And(a >= 0, a < L.P2(k)), RM(P0, a, nk) == NI(P0, a, nk) + z3.If(a + 1 < L.P2(k), ZR(P0, a + 1, nk) + RM(P0, a + 1, nk), z3.IntVal(0))))))
def vca_lemma(c, op, *args):
    P0 = c.ghost['vca']
    pos = list(c.ghost['vca_pos'].values())
    if op == 'val2':                     # 2^i <= x < 2^k or x = 2^k
        x = args[0]
        i = L.VAL2(x)
        for a, k in pos:
            if once(c, 'val2', x, k):
                c.assume_raw(z3.And(z3.Implies(z3.And(k >= 0, k < i), L.P2(k) < L.P2(i)), z3.Implies(k >= 0, z3.And(L.P2(k) >= 1, L.VAL2(L.P2(k)) == k))))
    elif op == 'scale':
        p, q, e = args
        for a, k in pos:
            vca_at(c, p, a, k)
            r0, r1 = REP0(P0, p, a, k), REP1(P0, p, a, k)
            if z3.is_int_value(z3.simplify(e)) and z3.simplify(e).as_long() == -1:       # x -> x / 2
                pos_at(c, 2*a, k + 1)
                nk, nk1 = z3.simplify(-k), z3.simplify(-k - 1)
                c.assume_raw(z3.And(L.P2(k + 1) == 2*L.P2(k), POS(2*a, nk1) == POS(a, nk), z3.Implies(r1, z3.And(REP1(P0, q, 2*a, k + 1), RM(P0, 2*a, nk1) == RM(P0, a, nk)))))
            else:                                        # x -> 2^e x
                f, k2 = L.FDIV2(a, e), z3.simplify(k - e)
                pos_at(c, f, k2)
                nk, nk2 = z3.simplify(-k), z3.simplify(e - k)
                c.assume_raw(z3.Implies(z3.And(L.VAL2(a) == e, e <= k, a > 0), z3.And(POS(f, nk2) == POS(a, nk), ZR(P0, f, nk2) == ZR(P0, a, nk), RM(P0, f, nk2) == RM(P0, a, nk),
                         z3.Implies(a < L.P2(k), f < L.P2(k2)), z3.Implies(r0, REP0(P0, q, f, k2)))))
    elif op == 'shift':                                  # x -> x + 1
        p, q, x = args
        for a, k in pos:
            vca_at(c, p, a, k)
            pos_at(c, a + 1, k)
            nk = z3.simplify(-k)
            c.assume_raw(z3.And(POS(a + 1, nk) > POS(a, nk), z3.Implies(z3.And(x == 1, REP1(P0, p, a, k)), REP0(P0, q, a + 1, k))))
def phis_of(fn):
    out = []
    for b in fn.order:
        for ins in fn.blocks[b]:
            if ins.op != 'phi':
                break
            out.append(ins.res)
    return out
def exact_ok(P, ex, lo, hi):
    t = z3.Int('t')
    return z3.And(z3.ForAll([t], z3.Implies(z3.And(lo <= t, t < hi), ex[2*t+1] > 0), patterns=[ex[2*t+1]]),
                  z3.ForAll([t], z3.Implies(z3.And(lo <= t, t < hi), L.EV(P, L.RATV(ex[2*t], ex[2*t+1])) == 0), patterns=[L.RATV(ex[2*t], ex[2*t+1])]))
def kept(a, b, n):
    t = z3.Int('t')
    return z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), a[t] == b[t]), patterns=[a[t]])
def intervals_ok(P, ca, ka, lo, hi):
    """every recorded interval contains exactly one root, and the intervals are disjoint and increasing"""
    t, u = z3.Ints('t u')
    return z3.And(z3.ForAll([t], z3.Implies(z3.And(lo <= t, t < hi), z3.And(NI(P, ca[t], ka[t]) == 1, ka[t] <= 0, ca[t] >= 0)), patterns=[z3.MultiPattern(ca[t], ka[t])]),
                  z3.ForAll([t, u], z3.Implies(z3.And(lo <= t, t < u, u < hi), POS(ca[t] + 1, ka[t]) <= POS(ca[u], ka[u])), patterns=[z3.MultiPattern(ca[t], ca[u])]))
def vca_post(s):
    P = L.PV(s.pol.arr, 0, s.len)
    out = [('all roots in [0,1) are found', s.n.n_exact.v - s.n_exact.v + s.n.n_intervals.v - s.n_intervals.v == nroots01(P)),
           ('counters only grow', z3.And(s.n.n_exact.v >= s.n_exact.v, s.n.n_intervals.v >= s.n_intervals.v))]
    if not s.exact_roots.null:
        out += [('the exact roots are roots', exact_ok(P, s.n.exact_roots.arr, s.n_exact.v, s.n.n_exact.v)), ('earlier exact roots are kept', kept(s.n.exact_roots.arr, s.exact_roots.arr, 2*s.n_exact.v))]
    if not s.c_array.null and not s.k_array.null:
        out += [('every interval isolates one root, in increasing order', intervals_ok(P, s.n.c_array.arr, s.n.k_array.arr, s.n_intervals.v, s.n.n_intervals.v)),
                ('earlier intervals are kept', z3.And(kept(s.n.c_array.arr, s.c_array.arr, s.n_intervals.v), kept(s.n.k_array.arr, s.k_array.arr, s.n_intervals.v)))]
    return out
def vca_templates(c, fr, ls, ents):
    P0 = c.ghost['vca']
    dead, alive = c.dead_labels, set()
    T = RM(P0, 0, 0) + ZR(P0, 0, 0)
    av = c.args_view
    cell = lambda n: Z(c.args[n].reg.cells[c.args[n].off][0])
    cnt = cell('n_exact') - av['n_exact'].v + cell('n_intervals') - av['n_intervals'].v
    ints, ptrs = [], []
    for n in dict.fromkeys(phis_of(fr.fn)):
        v = fr.env.get(n)
        if isinstance(v, int) and not isinstance(v, bool) or (is_sym(v) and z3.is_int(v)):
            ints.append((n, Z(v)))
        elif isinstance(v, Ptr) and v.reg is not None and v.reg.vec is not None and v.reg.vec.kind == 'fmpz':
            ptrs.append((n, v.reg, off_div(v.off, 8)))
    for k, r in c.regions.items():
        if r.alive and r.vec is not None and r.vec.kind == 'fmpz' and r.tok is not None and r.kind == 'heap' and not any(x[1] is r for x in ptrs):
            ptrs.append((k, r, 0))
    zs = [('%s+%s' % (k, o), v.v) for k, r in c.regions.items() if r.alive and r.vec is None for o, (v, z) in r.cells.items() if isinstance(v, L.Fmpz) and v.tok is not None]
    out = [('counts only grow', z3.And(cell('n_exact') >= av['n_exact'].v, cell('n_intervals') >= av['n_intervals'].v))]
    lens = ints + [('len', Z(av['len']))]
    vec = lambda n: c.args[n].reg.vec.arr
    if not av['exact_roots'].null:
        out.append(('recorded exact roots', exact_ok(P0, vec('exact_roots'), av['n_exact'].v, cell('n_exact'))))
        out.append(('earlier exact roots', kept(vec('exact_roots'), av['exact_roots'].arr, 2*av['n_exact'].v)))
    for nk, k in ints:
        out.append(('%s nonnegative' % nk, k >= 0))
        for nz, z in zs:
            out.append(('0 <= %s < 2^%s' % (nz, nk), z3.And(Z(z) >= 0, Z(z) < L.P2(k))))
    for np, reg, o in ptrs:
        a = reg.vec.arr
        for nl, n in lens:
            o_ = Z(o)
            live = [(nk, k, nz, z) for nk, k in ints for nz, z in zs if nk != nl and '%s represents pol at (%s, %s), length %s' % (np, nz, nk, nl) not in dead]
            lab = '%s: leading coefficient (%s)' % (np, nl)
            if lab not in dead:
                out.append((lab, z3.And(o_ >= 0, n >= 1, o_ + n == Z(av['len']), a[o_ + n - 1] != 0)))
            if not live:
                continue
            P = L.pv_def(c, a, o_, n)
            Q = L.pv_def(c, a, z3.simplify(o_ - 1), z3.simplify(n + 1))
            c.assume(z3.Implies(z3.And(o_ >= 1, n >= 0, L.C0Z(Q)), P == DIVX(Q)))
            for nk, k, nz, z in live:
                alive.add((nz, nk))
                vca_at(c, P, Z(z), k)
                vca_at(c, Q, Z(z), k)
                out.append(('%s represents pol at (%s, %s), length %s' % (np, nz, nk, nl),
                            z3.Or(z3.And(REP0(P0, P, Z(z), k), cnt + ZR(P0, Z(z), -k) + RM(P0, Z(z), -k) == T), z3.And(REP1(P0, P, Z(z), k), cnt + RM(P0, Z(z), -k) == T))))
    if not av['c_array'].null and not av['k_array'].null:
        ca, ka = vec('c_array'), vec('k_array')
        out.append(('recorded intervals', intervals_ok(P0, ca, ka, av['n_intervals'].v, cell('n_intervals'))))
        out.append(('earlier intervals', z3.And(kept(ca, av['c_array'].arr, av['n_intervals'].v), kept(ka, av['k_array'].arr, av['n_intervals'].v))))
        for nk, k in ints:
            for nz, z in zs:
                t = z3.Int('t')
                if (nz, nk) in alive and 'intervals below (%s, %s)' % (nz, nk) not in dead:
                    out.append(('intervals below (%s, %s)' % (nz, nk), z3.ForAll([t], z3.Implies(z3.And(av['n_intervals'].v <= t, t < cell('n_intervals')), POS(ca[t] + 1, ka[t]) <= POS(Z(z), -k)), patterns=[z3.MultiPattern(ca[t], ka[t])])))
    return out
def room(s):
    T = nroots01(L.PV(s.pol.arr, 0, s.len))
    out = []
    if not s.exact_roots.null:
        out.append(('room for the exact roots', s.exact_roots.length >= 2*(s.n_exact.v + T)))
    if not s.c_array.null:
        out.append(('room for the intervals', s.c_array.length >= s.n_intervals.v + T))
    if not s.k_array.null:
        out.append(('room for the exponents', s.k_array.length >= s.n_intervals.v + T))
    return out
spec('_fmpz_poly_descartes_bound_0_1', 'p:fvec:in:len len:slong bound:slong', ret='slong', trust=('Descartes',), ghost=lambda s: s.c.ghost.setdefault('ints', []).extend([('len', s.len), ('bound', s.bound)]),
     pre=lambda s: [('length', z3.And(s.len >= 1, s.len <= s.p.length)), ('bound', s.bound >= 0)],
     post=lambda s: [('at most the bound, or WORD_MAX', z3.And(s.ret >= 0, z3.Or(s.ret <= s.bound, s.ret == L.I64MAX))),
                     ('Descartes', z3.And(z3.Implies(s.ret == 0, N01(L.PV(s.p.arr, 0, s.len)) == 0), z3.Implies(s.ret == 1, N01(L.PV(s.p.arr, 0, s.len)) == 1)))])
spec('_fmpz_poly_isolate_real_roots_0_1_vca', 'exact_roots:fvec:upd n_exact:slongp:upd c_array:fvec:upd k_array:lvec:upd n_intervals:slongp:upd pol:fvec:in:len len:slong',
     nullcases=[('exact_roots', 'c_array', 'k_array'), ('exact_roots',), ()], ghost=vca_theory, templates=vca_templates, lean=True,
     pre=lambda s: [('nonzero', z3.And(s.len >= 1, s.pol.arr[s.len-1] != 0)), ('squarefree', L.SQF(L.PV(s.pol.arr, 0, s.len))),
                    ('counters', z3.And(s.n_exact.v >= 0, s.n_intervals.v >= 0, s.n_exact.v < (1 << 40), s.n_intervals.v < (1 << 40)))] + room(s),
     post=vca_post)

# ------------------------------------------------------------------ all real roots
NPOS = z3.Function('NPOS', PS, I)               # number of positive roots
NNEG = z3.Function('NNEG', PS, I)               # number of negative roots
NRT = z3.Function('NRT', PS, I)                 # number of real roots
MIR = z3.Function('MIR', PS, PS)                # P(-x)
UB2 = z3.Function('UB2', PS, I, B)              # all positive roots are < 2^k
LZ = z3.Function('LZ', L.ArrS, I, B)            # the first i entries are zero
def ub2_templates(c, fr, ls, ents):
    out, n = [], Z(c.args_view['len'])
    ents = [t for t in ents if '+' not in t[0]]
    k = z3.Int('k')
    for key, r in c.regions.items():
        if r.alive and r.vec is not None and r.kind == 'heap' and r.vec.kind != 'fmpz':
            for x, v, e in ents:
                out.append(('%s[k] at least 1 for k < %s' % (key, x), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v), r.vec.arr[k] >= 1), patterns=[r.vec.arr[k]])))
                out.append(('%s[k] at most 1 for k < %s' % (key, x), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v), r.vec.arr[k] <= 1), patterns=[r.vec.arr[k]])))
                out.append(('%s[k] at most %s' % (key, x), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(r.vec.arr[k] >= 1, r.vec.arr[k] <= n - v)), patterns=[r.vec.arr[k]])))
            out.append(('%s[k] is small' % key, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(r.vec.arr[k] >= 1, r.vec.arr[k] <= n)), patterns=[r.vec.arr[k]])))
    for x, v, e in ents:
        for y, w, e2 in ents:
            if x != y:
                out.append(('%s found by the end of %s' % (x, y), z3.Or(v >= 0, w <= n - 1)))
                out.append(('%s found or %s is still the largest word' % (x, y), z3.Or(v >= 0, w == L.I64MAX)))
    return out
spec('_fmpz_poly_positive_root_upper_bound_2exp', 'pol:fvec:in:len len:slong', ret='slong', lean='ints', templates=ub2_templates, trust=('no positive root, or all of them below the bound',), ghost=lambda s: (s.c.ghost.update(words=True), s.c.ghost.setdefault('ints', []).append(('len', s.len))),
     pre=lambda s: [('nonzero', z3.And(s.len >= 1, s.len <= s.pol.length, s.pol.arr[s.len-1] != 0, s.pol.arr[0] != 0))],
     post=lambda s: [('no positive root, or all of them below the bound', z3.If(s.ret == L.I64MIN, NPOS(L.PV(s.pol.arr, 0, s.len)) == 0, UB2(L.PV(s.pol.arr, 0, s.len), s.ret)))])
def iso_theory(s):
    c = s.c
    P = polyof(s.pol)
    n = Z(s.pol.len)
    c.ghost['iso'] = (s.pol.arr, n, P)
    c.ghost['iso_copies'] = []
    c.ghost['iso_scales'] = []
    c.ghost['lemmas'] = iso_lemma
    c.assume(z3.And(NPOS(P) >= 0, NNEG(P) >= 0, NRT(P) == NPOS(P) + NNEG(P) + z3.If(s.pol.arr[0] == 0, z3.IntVal(1), z3.IntVal(0)), NRT(P) <= n - 1, LZ(s.pol.arr, 0),
                    z3.Implies(s.pol.arr[0] == 0, L.EV(P, L.RATV(0, 1)) == 0)))
    c.ghost.setdefault('ints', []).append(('len', n))
def iso_lemma(c, op, *args):
    arr, n0, P = c.ghost['iso']
    if op == 'copy':
        src, o, dst, n = args
        if not src.eq(arr):
            return
        Q = L.PV(src, o, n)
        # P = x^o Q, and a squarefree polynomial has at most a simple root at zero
        c.assume(z3.Implies(z3.And(LZ(arr, o), arr[o] != 0, o + n == n0, L.SQF(P)),
                            z3.And(o <= 1, L.SQF(Q), NPOS(Q) == NPOS(P), NNEG(Q) == NNEG(P), L.EV(Q, R(0)) != 0, z3.Implies(o >= 1, arr[0] == 0), QUOT(Q))))
        c.ghost['iso_copies'].append((dst, n, Q))
    elif op == 'scale':
        p, q, e = args
        c.assume(z3.Implies(UB2(p, e), L.NRO(q, R(0), R(1)) == NPOS(p)))
        c.assume(z3.And(L.SQF(q) == L.SQF(p), (L.EV(q, R(0)) == 0) == (L.EV(p, R(0)) == 0)))
        for _, n, Q in c.ghost['iso_copies']:
            c.ghost['iso_scales'].append((z3.And(p == MIR(Q), QUOT(Q)), z3.And(p == Q, QUOT(Q)), q, e))
    elif op == 'q2exp':
        n, d, n2, d2, e2 = args
        for neg, pos, q, e in c.ghost['iso_scales']:
            c.assume(z3.And(z3.Implies(z3.And(neg, e == e2, L.EV(q, L.RATV(-n, d)) == 0), L.EV(P, L.RATV(n2, d2)) == 0),
                            z3.Implies(z3.And(pos, e == e2, L.EV(q, L.RATV(n, d)) == 0), L.EV(P, L.RATV(n2, d2)) == 0)))
QUOT = z3.Function('QUOT', PS, B)               # the polynomial of the contract divided by a power of x
def iso_hook(cs, s):
    """the polynomial that is handed over is P(-x) when its odd coefficients are negated"""
    out = []
    j = z3.Int('j')
    for vs, n, Q in cs.c.ghost['iso_copies']:
        a = s.pol.arr
        out.append(z3.Implies(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), a[j] == z3.If(j % 2 == 1, -vs[j], vs[j])), patterns=[a[j]]), L.PV(a, 0, n) == MIR(Q)))
        out.append(z3.And(NPOS(MIR(Q)) == NNEG(Q), L.SQF(MIR(Q)) == L.SQF(Q), (L.EV(MIR(Q), R(0)) == 0) == (L.EV(Q, R(0)) == 0)))
    return out
def named(c, a):
    """a constant for an array term (patterns must not contain case distinctions)"""
    if z3.is_const(a):
        return a
    d = c.ghost.setdefault('named', {})
    if a.get_id() not in d:
        x = c.fresh_arr('nm')
        c.assume(x == a)
        d[a.get_id()] = (x, a)
    return d[a.get_id()][0]
def iso_arrays(c, ints=True, exact=True):
    """facts about the positions and exact values in the output arrays (for all entries, whatever they are)"""
    arr, n0, P = c.ghost['iso']
    t, u = z3.Ints('t u')
    av, vec = c.args_view, lambda n: named(c, c.args[n].reg.vec.arr)
    if ints and not av['c_array'].null and not av['k_array'].null:
        ca, ka = vec('c_array'), vec('k_array')
        if once2(c, ca, ka):
            x, y, x2, y2 = ca[t], ka[t], ca[u], ka[u]
            f = [z3.Implies(x >= 0, POS(x, y) >= 0), z3.Implies(x <= -1, POS(x + 1, y) <= 0)]
            g = []
            for neg, pos, q, e in c.ghost['iso_scales']:
                f += [z3.Implies(neg, NI(P, x, y) == NI(q, -x - 1, y - e)), z3.Implies(pos, NI(P, x, y) == NI(q, x, y - e))]
                g += [z3.Implies(neg, (POS(x + 1, y) <= POS(x2, y2)) == (POS(-x2, y2 - e) <= POS(-x - 1, y - e))),
                      z3.Implies(pos, (POS(x + 1, y) <= POS(x2, y2)) == (POS(x + 1, y - e) <= POS(x2, y2 - e)))]
            c.assume(z3.ForAll([t], z3.And(f), patterns=[ca[t]]))
            c.assume(z3.ForAll([t, u], z3.And(g), patterns=[z3.MultiPattern(ca[t], ca[u])]))
    if exact and not av['exact_roots'].null:
        ex = vec('exact_roots')
        if once2(c, ex):
            n, d = ex[2*t], ex[2*t+1]
            f = [z3.Implies(z3.And(n == 0, d == 1), z3.Implies(arr[0] == 0, L.EV(P, L.RATV(n, d)) == 0))]
            for neg, pos, q, e in c.ghost['iso_scales']:
                f += [z3.Implies(e == 0, z3.And(z3.Implies(z3.And(neg, L.EV(q, L.RATV(-n, d)) == 0), L.EV(P, L.RATV(n, d)) == 0), z3.Implies(z3.And(pos, L.EV(q, L.RATV(n, d)) == 0), L.EV(P, L.RATV(n, d)) == 0)))]
            c.assume(z3.ForAll([t], z3.And(f), patterns=[L.RATV(n, d)]))
def once2(c, *key):
    d = c.ghost.setdefault('iso_done', {})
    k = tuple(x.get_id() for x in key) + (len(c.ghost['iso_scales']),)
    if k in d:
        return False
    d[k] = key
    return True
def iso_cut(cs, s):
    """an intermediate assertion before every search: what is recorded so far are isolating intervals of negative roots, in increasing order"""
    c = cs.c
    arr, n0, P = c.ghost['iso']
    t, u = z3.Ints('t u')
    if not s.c_array.null and not s.k_array.null:
        ca, ka, N = named(c, s.c_array.arr), named(c, s.k_array.arr), s.n_intervals.v
        c.prove(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < N), ca[t] <= -1), patterns=[ca[t]]), 'intervals recorded before a search are negative', 'post')
        c.prove(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < N), NI(P, ca[t], ka[t]) == 1), patterns=[ca[t]]), 'intervals recorded before a search isolate one root', 'post')
        c.prove(z3.ForAll([t, u], z3.Implies(z3.And(0 <= t, t < u, u < N), POS(ca[t] + 1, ka[t]) <= POS(ca[u], ka[u])), patterns=[z3.MultiPattern(ca[t], ca[u])]), 'intervals recorded before a search are in increasing order', 'post')
    return []
def iso_templates(c, fr, ls, ents):
    arr, n0, P = c.ghost['iso']
    out = []
    dead = c.dead_labels
    j, t = z3.Int('j'), z3.Int('t')
    av, vec = c.args_view, lambda n: named(c, c.args[n].reg.vec.arr)
    cell = lambda n: Z(c.args[n].reg.cells[c.args[n].off][0])
    scaled = ['exponents below %s scaled (%d)' % (nm, u) for nm, v, e in ents for u in range(len(c.ghost['iso_scales']))] + ['exact roots below %s' % nm for nm, v, e in ents]
    iso_arrays(c, any(x not in dead for x in scaled if x[1] == 'x' and x[2] == 'p'), any(x not in dead for x in scaled if x[1:3] == 'xa'))
    def add(lab, f):
        if lab not in dead:
            out.append((lab, f()))
    for nm, v, e in ents:
        c.assume(z3.And(z3.Implies(z3.And(LZ(arr, v), v >= 0, arr[v] == 0), LZ(arr, v + 1)), z3.Implies(z3.And(LZ(arr, v), v >= n0), arr[n0-1] == 0), z3.Implies(z3.And(LZ(arr, v), v >= 1), arr[0] == 0)))
        add('%s odd' % nm, lambda: v % 2 == 1)
        add('%s leading zeros' % nm, lambda: LZ(arr, v))
        for k, r in c.regions.items():
            if r.alive and r.kind == 'heap' and r.vec is not None and r.vec.kind == 'fmpz':
                a = named(c, r.vec.arr)
                for u, (vs, n, Q) in enumerate(c.ghost['iso_copies']):
                    add('%s is copy %d with odd entries below %s negated' % (k, u, nm),
                        lambda: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), a[j] == z3.If(z3.And(j % 2 == 1, j < v), -vs[j], vs[j])), patterns=[a[j]]))
        if not av['c_array'].null and not av['k_array'].null:
            kc, kk = c.args['c_array'].reg.key, c.args['k_array'].reg.key
            ca, ka, c0, k0, N = vec('c_array'), vec('k_array'), named(c, ls.entry_vec[kc]), named(c, ls.entry_vec[kk]), cell('n_interval')
            if not ca.eq(c0):
                add('intervals below %s mirrored' % nm, lambda: z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < N), ca[t] == z3.If(t < v, -c0[t] - 1, c0[t])), patterns=[ca[t]]))
                add('intervals reversed outside of %s' % nm, lambda: z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < N), ca[t] == z3.If(z3.Or(t < v, t >= N - v), c0[N-1-t], c0[t])), patterns=[ca[t]]))
            if not ca.eq(c0):
                w = z3.Int('u')
                add('entry: negative', lambda: z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < N), c0[t] <= -1), patterns=[c0[t]]))
                add('entry: isolating', lambda: z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < N), NI(P, c0[t], k0[t]) == 1), patterns=[c0[t]]))
                add('entry: decreasing', lambda: z3.ForAll([t, w], z3.Implies(z3.And(0 <= t, t < w, w < N), POS(c0[w] + 1, k0[w]) <= POS(c0[t], k0[t])), patterns=[z3.MultiPattern(c0[t], c0[w])]))
            if not ka.eq(k0):
                for u, (_, _, _, x) in enumerate(c.ghost['iso_scales']):
                    add('exponents below %s scaled (%d)' % (nm, u), lambda: z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < N), ka[t] == z3.If(z3.And(e <= t, t < v), k0[t] + x, k0[t])), patterns=[ka[t]]))
                add('exponents reversed outside of %s' % nm, lambda: z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < N), ka[t] == z3.If(z3.Or(t < v, t >= N - v), k0[N-1-t], k0[t])), patterns=[ka[t]]))
        if not av['exact_roots'].null:
            ex, ex0, N = vec('exact_roots'), named(c, ls.entry_vec[c.args['exact_roots'].reg.key]), cell('n_exact')
            if not ex.eq(ex0):
                add('exact roots below %s' % nm, lambda: exact_ok(P, ex, 0, v))
                add('all exact roots (%s)' % nm, lambda: exact_ok(P, ex, 0, N))
                for u, (_, _, q, x) in enumerate(c.ghost['iso_scales']):
                    add('exact roots of (%d) from %s' % (u, nm), lambda: exact_ok(q, ex, v, N))
    return out
def iso_post(s):
    P = polyof(s.pol)
    t, u = z3.Ints('t u')
    out = [('all real roots are found', z3.And(s.n.n_exact.v >= 0, s.n.n_interval.v >= 0, s.n.n_exact.v + s.n.n_interval.v == NRT(P)))]
    if not s.exact_roots.null:
        out += [('the exact roots are roots', exact_ok(P, s.n.exact_roots.arr, z3.IntVal(0), s.n.n_exact.v))]
    if not s.c_array.null and not s.k_array.null:
        ca, ka, N = s.n.c_array.arr, s.n.k_array.arr, s.n.n_interval.v
        out += [('every interval isolates one root', z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < N), NI(P, ca[t], ka[t]) == 1), patterns=[ca[t]])),
                ('the intervals are disjoint and in increasing order', z3.ForAll([t, u], z3.Implies(z3.And(0 <= t, t < u, u < N), POS(ca[t] + 1, ka[t]) <= POS(ca[u], ka[u])), patterns=[z3.MultiPattern(ca[t], ca[u])]))]
    return out
def iso_room(s):
    T = NRT(polyof(s.pol))
    return [(lab, v.length >= m*T) for lab, v, m in (('room for the exact roots', s.exact_roots, 2), ('room for the intervals', s.c_array, 1), ('room for the exponents', s.k_array, 1)) if not v.null]
spec('fmpz_poly_isolate_real_roots', 'exact_roots:fvec:upd n_exact:slongp:upd c_array:fvec:upd k_array:lvec:upd n_interval:slongp:upd pol:zpoly',
     nullcases=[('exact_roots', 'c_array', 'k_array'), ()], ghost=iso_theory, templates=iso_templates, hooks={'_fmpz_poly_positive_root_upper_bound_2exp': iso_hook, '_fmpz_poly_isolate_real_roots_0_1_vca': iso_cut}, lean='ints',
     pre=lambda s: [('nonzero', Z(s.pol.len) >= 1), ('squarefree', L.SQF(polyof(s.pol)))] + iso_room(s),
     post=iso_post)
spec('fmpz_poly_num_real_roots_vca', 'pol:zpoly', ret='slong', pre=SQFREE, post=lambda s: [('the number of real roots', s.ret == NRT(polyof(s.pol)))])

# ------------------------------------------------------------------ parsing
from . import cstr as CS
def parse_ghost(s):
    c = s.c
    c.ghost['texts'], c.ghost['vars'] = [s.s.arr], [s.var.arr]
    # y0 stands for a transcendental number: a rational polynomial is determined by its value there
    c.ghost['y0'] = c.fresh('y0', 'Real')
    c.ghost['evpts'] = [c.ghost['y0']]
    c.ghost['monv'], c.ghost['realloc'] = CS.MONV, True
    c.ghost['effort'] = 10
def mono_ghost(s):
    c = s.c
    c.ghost['vars'] = [s.var.arr]
    CS.define_monomial(c, s.w.arr, CS.SUBV(s.w.arr, 0, CS.NUL(s.w.arr, 0)))
def mono_post(s):
    m, V = CS.SUBV(s.w.arr, 0, CS.NUL(s.w.arr, 0)), CS.SUBV(s.var.arr, 0, CS.NUL(s.var.arr, 0))
    p, q = s.n.pow.v, s.n.coeff
    return [('succeeds exactly on monomials', (s.ret == 0) == CS.MOK(m, V)),
            ('the coefficient', z3.Implies(s.ret == 0, z3.And(q.d > 0, CANON(q.n, q.d), R(q.n)/R(q.d) == CS.MC(m, V)))),
            ('the exponent', z3.Implies(s.ret == 0, z3.And(p == CS.MP(m, V), p >= 0) if p is not None else False))]
# the text is put back after a part of it was cut out; the variable is not empty (checked by the caller)
spec('_monomial_set_str', 'coeff:fraction:out pow:slongp:out var:cstr w:cstr', ret='int', lean=True, text=True, optional=True, ghost=mono_ghost, templates=CS.templates,
     pre=lambda s: [('strings', z3.And(CS.NUL(s.var.arr, 0) >= 1, CS.NUL(s.var.arr, 0) < s.var.length, CS.NUL(s.w.arr, 0) >= 0, CS.NUL(s.w.arr, 0) < s.w.length, s.w.off == 0, s.var.off == 0))], post=mono_post)
def isvar(arr):
    return z3.And(z3.Or(CS.ALPHA(arr[0]), arr[0] == 95), CS.VART(arr, 1))
spec('str_is_varname', 'var:cstr', ret='int', lean=True, text=True, optional=True, templates=CS.templates,
     pre=lambda s: [('string', z3.And(s.var.off == 0, CS.NUL(s.var.arr, 0) >= 0, CS.NUL(s.var.arr, 0) < s.var.length))],
     post=lambda s: [('recognises identifiers', (s.ret != 0) == isvar(s.var.arr)), ('identifiers are not empty', z3.Implies(s.ret != 0, CS.NUL(s.var.arr, 0) >= 1))])
def parse_sem(s):
    """(the text is a polynomial in the variable, its value at y0)"""
    V = CS.SUBV(s.var.arr, 0, CS.NUL(s.var.arr, 0))
    return z3.And(isvar(s.var.arr), CS.TOK(s.s.arr, 0, V)), lambda y: CS.DENV(s.s.arr, 0, V, y)
spec('fmpq_poly_set_str_pretty', 'p:qpoly:out s:cstr var:cstr', ret='int', lean=True, text=True, ghost=parse_ghost, templates=CS.templates,
     post=lambda s: [('succeeds exactly on sums of monomials', (s.ret == 0) == parse_sem(s)[0]),
                     ('the polynomial that is written', z3.Implies(s.ret == 0, z3.And([H(s.n.p.arr, 0, s.n.p.len, y)/R(s.n.p.den) == parse_sem(s)[1](y) for y in ([s.c.ghost['y0']] if 'y0' in s.c.ghost else [])] + [s.n.p.den > 0] + ([s.n.p.den == L.DENP(parse_sem(s)[1](s.c.ghost['y0']))] if 'y0' in s.c.ghost else []))))])
spec('fmpz_poly_set_str_pretty', 'p:zpoly:out s:cstr var:cstr', ret='int', lean='ints', ghost=parse_ghost, templates=CS.templates,
     post=lambda s: [('succeeds exactly on sums of monomials with integer coefficients', (s.ret == 0) == z3.And(parse_sem(s)[0], L.DENP(parse_sem(s)[1](s.c.ghost['y0'])) == 1)),
                     ('the polynomial that is written', z3.Implies(s.ret == 0, H(s.n.p.arr, 0, s.n.p.len, s.c.ghost['y0']) == parse_sem(s)[1](s.c.ghost['y0'])))])
