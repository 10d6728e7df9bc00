"""Contracts of the polynomial helpers (P11) and of the root tests and counts that rest on sign variations (P10)."""
import z3
from .core import *
from .core import addoff, off_div
from .ir import Unsupported
from . import relax
from . import lib as L
from .lib import Z, A, H, lib, rd_z, wr_z, poly, set_poly, DERIV
from .spec import spec, SPECS
from . import contracts_poly as CP
from .contracts_poly import polyof, NPOS, NNEG, NRT, MIR, UB2, LZ, N01, I, B, PS, named

AS, RS = L.ArrS, L.RealS
absi = lambda v: z3.If(v >= 0, v, -v)
absr = lambda v: z3.If(v >= 0, v, -v)
def len_ghost(s):
    s.c.ghost.setdefault('ints', []).append(('len', s.len))

# ------------------------------------------------------------------ evaluation at an exact number
def arf_templates(c, fr, ls, ents):
    out = []
    av = c.args_view
    a, n, arr = av['a'], Z(av['len']), av['pol'].arr
    ok = z3.And(Z(av['prec']) == L.I64MAX, Z(a.k) == 0)
    for k, o in L.live_arfs(c):
        for nm, v, e in ents:
            for d in (0, 1):
                for w, t in (('%s+%d' % (nm, d), v + d), ('len-%s-%d' % (nm, d), n - v - d)):
                    out.append(('%s is Horner(%s)' % (k, w), z3.Implies(ok, z3.And(Z(o.k) == 0, o.v == H(arr, t, n, a.v)))))
    return out
def arf_ghost(ln):
    def g(s):
        n = Z(s.len) if ln else Z(s.pol.len)
        L.add_hpt(s.c, n, s.a.v)
        s.c.assume(H(s.pol.arr, n, n, s.a.v) == 0)
        s.c.ghost.setdefault('ints', []).append(('len', n))
    return g
def arf_post(n, den=None):
    def f(s):
        h = H(s.pol.arr, 0, Z(n(s)), s.a.v)
        ok = z3.And(s.prec == L.I64MAX, Z(s.a.k) == 0)
        if den is not None:
            ok = z3.And(ok, den(s) == 1)
        return [('exact value at exact precision', z3.Implies(ok, z3.And(Z(s.n.res.k) == 0, s.n.res.v == h)))]
    return f
p2 = [('prec at least 2', lambda s: s.prec >= 2)]
spec('_fmpz_poly_evaluate_arf', 'res:arf:out pol:fvec:in:len len:slong a:arf prec:slong', noalias=[('res', 'a')],
     pre=lambda s: [('length is nonnegative', s.len >= 0), ('prec at least 2', s.prec >= 2)], ghost=arf_ghost(True), templates=arf_templates, post=arf_post(lambda s: s.len))
spec('fmpz_poly_evaluate_arf', 'res:arf:out pol:zpoly a:arf prec:slong', pre=lambda s: [('prec at least 2', s.prec >= 2)], ghost=arf_ghost(False), post=arf_post(lambda s: s.pol.len))
spec('fmpq_poly_evaluate_arf', 'res:arf:out pol:qpoly a:arf prec:slong', pre=lambda s: [('prec at least 2', s.prec >= 2)], ghost=arf_ghost(False), post=arf_post(lambda s: s.pol.len, lambda s: s.pol.den))

# ------------------------------------------------------------------ condition number: sum of |p_i| |x|^i
AH = z3.Function('AH', AS, I, I, RS, RS)        # AH(c,i,n,x) = sum_{j=i}^{n-1} |c[j]| x^(j-i)
def cond_ghost(s):
    c = s.c
    x = c.ghost['bpt'].get('x')
    if x is None:
        x = c.ghost['bpt'][c.rep('x')]
    n, arr, ax = Z(s.len), s.p.arr, absr(x)
    t = c.fresh('absx', 'Real')
    c.assume(z3.And(t == ax, t >= 0))
    c.ghost['condx'] = t
    c.assume(AH(arr, n, n, t) == 0)
    def unfold(c, a, i):
        if a.eq(arr):
            i = Z(i)
            c.assume(z3.Implies(z3.And(i >= 0, i < n), z3.And(AH(arr, i, n, t) == R(absi(arr[i])) + t*AH(arr, i + 1, n, t), AH(arr, i + 1, n, t) >= 0, AH(arr, i, n, t) >= 0)))
    c.ghost.setdefault('unfold', []).append(unfold)
    c.ghost.setdefault('ints', []).append(('len', n))
def cond_templates(c, fr, ls, ents):
    out = CP.cond_templates(c, fr, ls, ents)
    av = c.args_view
    arr, n, t = av['p'].arr, Z(av['len']), c.ghost['condx']
    for k, o in L.live_arfs(c):
        for nm, v, e in ents:
            for d in (0, 1):
                for w, u in (('%s+%d' % (nm, d), v + d), ('len-%s-%d' % (nm, d), n - v - d)):
                    h = AH(arr, u, n, t)
                    out.append(('%s bounds the tail of the condition sum (%s)' % (k, w), z3.And(Z(o.k) == 0, h >= 0, o.v >= h, t*o.v >= t*h)))
        out.append(('%s bounds |x|' % k, z3.And(Z(o.k) == 0, o.v >= t)))
    return out
def cond_post(s):
    base = CP_COND(s)
    t = s.c.ghost.get('condx')
    if t is not None and s.n.cond.v is not None:
        h = AH(s.p.arr, 0, s.len, t)
        base.append(('2^cond bounds the condition sum at every point of the ball', z3.Implies(z3.And(s.ret == 0, h > 0), L.POW2(s.n.cond.v) > h)))
    return base
CP_COND = SPECS['_fmpz_poly_relative_condition_number_2exp'].post
_sp = SPECS['_fmpz_poly_relative_condition_number_2exp']
_sp.post, _sp.templates, _sp.ghost = cond_post, cond_templates, cond_ghost

# ------------------------------------------------------------------ absolute values
def abs_templates(c, fr, ls, ents):
    out = []
    j = z3.Int('j')
    arr = c.args_view['p'].arr
    for key, r in c.regions.items():
        if r.alive and r.vec is not None and r.vec.kind == 'fmpz':
            a = named(c, r.vec.arr)
            for nm, v, e in ents:
                out.append(('%s: absolute values below %s' % (key, nm), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < v), a[j] == absi(arr[j])), patterns=[a[j]])))
                out.append(('%s: absolute values above %s' % (key, nm), z3.ForAll([j], z3.Implies(z3.And(j > v, j < Z(c.args_view['p'].len)), a[j] == absi(arr[j])), patterns=[a[j]])))
                out.append(('%s: source from %s' % (key, nm), z3.ForAll([j], z3.Implies(z3.And(j >= v, j < Z(c.args_view['p'].len)), a[j] == arr[j]), patterns=[a[j]])))
                out.append(('%s: source up to %s' % (key, nm), z3.ForAll([j], z3.Implies(z3.And(j <= v, j >= 0), a[j] == arr[j]), patterns=[a[j]])))
            out.append(('%s: source' % key, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < Z(c.args_view['p'].len)), a[j] == arr[j]), patterns=[a[j]])))
    return out
def abs_post(s):
    j = z3.Int('j')
    n = Z(s.p.len)
    return [('same length', Z(s.n.res.len) == n), ('absolute values', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), s.n.res.arr[j] == absi(s.p.arr[j]))))]
spec('fmpz_poly_abs', 'res:zpoly:out p:zpoly', post=abs_post, templates=abs_templates, ghost=lambda s: s.c.ghost.setdefault('ints', []).append(('len', Z(s.p.len))))

# ------------------------------------------------------------------ evaluation at one
SUMV = L.SUMV
spec('fmpz_poly_evaluate_at_one', 'res:fmpz:out p:fvec:in:len len:slong', ghost=len_ghost,
     pre=lambda s: [('length is nonnegative', z3.And(s.len >= 0, s.len <= s.p.length))],
     post=lambda s: [('the sum of the coefficients', s.n.res.v == SUMV(s.p.arr, s.len))])

# ------------------------------------------------------------------ affine rescaling of an interval to [0,1]
POWI = z3.Function('POWI', I, I, I)             # q^k for k >= 0
MULP = z3.Function('MULP', I, I, I, I)          # x q^k
def fmpz_cells(c):
    return [('%s+%s' % (k, o), v.v) for k, r in c.regions.items() if r.alive and r.vec is None and isinstance(r.cells, dict) for o, (v, z) in r.cells.items() if isinstance(v, L.Fmpz)]
def locals_(c):
    return [(k, v) for k, v in fmpz_cells(c) if c.regions[k.rsplit('+', 1)[0]].kind != 'param']
def scale_ghost(s):
    c = s.c
    n, arr = Z(s.len), s.pol.arr
    z = z3.Real('z')
    c.ghost['scale'] = (arr, n)
    c.ghost['shifted'] = []
    c.ghost['lemmas'] = scale_lemma
    c.ghost['sy'] = (c.fresh('y1', 'Real'), c.fresh('y2', 'Real'))
    c.assume(z3.Implies(n <= 1, z3.ForAll([z], H(arr, 0, n, z) == z3.If(n == 1, R(arr[0]), R(0)), patterns=[H(arr, 0, n, z)])))
    c.ghost.setdefault('ints', []).append(('len', n))
def decided(c, label, f):
    """whether f is implied here (decided once per path; an unproved f only means that a lemma is not used)"""
    d = c.vrun.__dict__.setdefault('lemmacache', {})
    k = (tuple(c.decisions[:c.pos]), label, c.nfresh)
    if k not in d:
        d[k] = relax.portfolio(c.solver.assertions(), c.undiv(f), c.vrun.rlimit//3)
    return d[k]
def scale_lemma(c, op, *args):
    """the effect of multiplying coefficients by powers, and of a shift, on the values at the two points of the contract"""
    old, n0 = c.ghost['scale']
    j = z3.Int('j')
    if op == 'shiftv':
        a, o, n, b, x = args
        if not term_zero(o):
            return
        for nm, q in locals_(c):
            # sum a_j q^(n-1-j) z^j = q^(n-1) sum a_j (z/q)^j
            if decided(c, 'q' + nm, z3.And(q > 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), a[j] == MULP(old[j], q, n - 1 - j))))):
                c.ghost['shifted'] = c.ghost['shifted'] + [(b, n, x, q)]
                c.assume(z3.And(MULP(old[n-1], q, 0) == old[n-1], z3.Implies(n >= 1, a[n-1] == old[n-1])))
    elif op == 'prim':
        e, n, f, k = args
        A_, B_ = c.args_view['a'], c.args_view['b']
        g = L.GCD(A_.d, B_.d)
        for b, m, x, q in c.ghost['shifted']:
            if not m.eq(n):
                continue
            for nm, t in locals_(c):
                if decided(c, 't%s%s' % (nm, b), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), e[j] == MULP(b[j], t, j)))):
                    u = z3.simplify(t + x)
                    c.assume(z3.Implies(z3.And(q*g == A_.d*B_.d, x*g == A_.n*B_.d, u*g == B_.n*A_.d, g > 0, A_.d > 0, B_.d > 0), z3.And(R(x) == R(q)*A_.q, R(u) == R(q)*B_.q)))
                    kq = c.fresh('kq', 'Real')
                    c.assume(kq > 0)
                    c.assume(z3.Implies(z3.And(R(x) == R(q)*A_.q, R(u) == R(q)*B_.q, q > 0, A_.q < B_.q), t > 0))
                    c.assume(z3.Implies(z3.And(t > 0, n >= 1), (e[n-1] == 0) == (b[n-1] == 0)))
                    for y in c.ghost['sy']:
                        z, w = c.fresh('z', 'Real'), c.fresh('w', 'Real')
                        c.assume(z3.And(z == A_.q + (B_.q - A_.q)*y, H(old, 0, n, z) == H(old, 0, n, A_.q + (B_.q - A_.q)*y)))
                        # w = (t y + x) / q
                        c.assume(z3.Implies(z3.And(R(x) == R(q)*A_.q, R(u) == R(q)*B_.q), w == z))
                        c.assume(z3.And(H(f, 0, n, y) == k*H(e, 0, n, y), H(e, 0, n, y) == kq*H(old, 0, n, w)))
def term_zero(o):
    o = z3.simplify(Z(o))
    return z3.is_int_value(o) and o.as_long() == 0
def scale_templates(c, fr, ls, ents):
    out = []
    j = z3.Int('j')
    n = Z(c.args_view['len'])
    reg = c.args['pol'].reg
    a, e0 = named(c, reg.vec.arr), named(c, ls.entry_vec[reg.key])
    cells = locals_(c)
    dead = c.dead_labels
    mod = {(m[1], m[2]) for m in ls.modset if m[0] == 'cell'}
    ismod = lambda nm: any('%s+%s' % m == nm for m in mod)
    for nm, v, e in [t for t in ents if '+' not in t[0]]:
        out.append(('%s at most len-1' % nm, v <= n - 1))
        out.append(('%s at most len' % nm, v <= n))
        out.append(('%s at most len-2' % nm, v <= n - 2))
        for k in (-1, 0, 1):
            out.append(('%s at least %d' % (nm, k), v >= k))
        for nq, q in cells:
            if ismod(nq):
                continue
            for way, m, hit, ex in (('down', n - 2 - v, lambda j: j > v, lambda j: n - 1 - j), ('up', v - 1, lambda j: j < v, lambda j: j)):
                labs = ['%s is a power of %s (%s, %s)' % (nc, nq, way, nm) for nc, x in cells if ismod(nc)]
                if all(l in dead for l in labs):
                    continue
                k0, k1 = z3.simplify(m), z3.simplify(m + 1)
                c.assume(z3.And(POWI(q, 0) == 1, MULP(e0[n-1], q, 0) == e0[n-1], MULP(e0[0], q, 0) == e0[0]))
                for nc, x in cells:
                    if ismod(nc):
                        c.assume(z3.Implies(z3.And(k0 >= 0, x == POWI(q, k0)), z3.And(x*q == POWI(q, k1), z3.Implies(a[v] == e0[v], a[v]*(x*q) == MULP(e0[v], q, k1)))))
                out.append(('entries outside of %s multiplied by powers of %s (%s)' % (nm, nq, way), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), a[j] == z3.If(hit(j), MULP(e0[j], q, ex(j)), e0[j])), patterns=[a[j]])))
                for nc, x in cells:
                    if ismod(nc):
                        out.append(('%s is a power of %s (%s, %s)' % (nc, nq, way, nm), x == POWI(q, m)))
    return out
@lib('_fmpz_poly_primitive_part', '_fmpz_vec_primitive_part')
def _(c, r, p, n):
    reg, o = L.sub_vec(c, p, n, '_fmpz_poly_primitive_part')
    reg2, o2 = L.sub_vec(c, r, n, '_fmpz_poly_primitive_part')
    if not term_zero(o) or not term_zero(o2):
        raise Unsupported('primitive part at offset')
    e, n = reg.vec.arr, Z(n)
    f = c.fresh_arr('pp')
    k = c.fresh('ppk', 'Real')
    # a nonzero multiple (the sign makes the leading coefficient positive)
    c.assume(z3.And(k != 0, z3.Implies(n >= 1, z3.And((f[n-1] == 0) == (e[n-1] == 0), f[n-1] >= 0, (f[0] == 0) == (e[0] == 0)))))
    reg2.vec = reg2.vec.with_(arr=f)
    L.lemmas(c, 'prim', e, n, f, k)
def scale_post(s):
    P, Q = L.PV(s.n.pol.arr, 0, s.len), L.PV(s.pol.arr, 0, s.len)
    out = [('the roots are mapped', z3.And(L.NRO(P, R(0), R(1)) == L.NRO(Q, s.a.q, s.b.q), (L.EV(P, R(0)) == 0) == (L.EV(Q, s.a.q) == 0))),
           ('a squarefree polynomial stays squarefree', L.SQF(P) == L.SQF(Q)), ('leading coefficient', (s.n.pol.arr[s.len-1] == 0) == (s.pol.arr[s.len-1] == 0))]
    if 'sy' in s.c.ghost and 'scale' in s.c.ghost:
        n, y1, y2 = s.len, *s.c.ghost['sy']
        new = lambda y: H(s.n.pol.arr, 0, n, y)
        old = lambda y: H(s.pol.arr, 0, n, s.a.q + (s.b.q - s.a.q)*y)
        out = [('the new polynomial is a multiple of pol(a + (b - a) x): same zeros', (new(y1) == 0) == (old(y1) == 0)),
               ('the new polynomial is a multiple of pol(a + (b - a) x): proportional', new(y1)*old(y2) == new(y2)*old(y1))] + out
    return out
spec('_fmpz_poly_scale_0_1_fmpq', 'pol:fvec:upd:len len:slong a:fmpq b:fmpq', ghost=scale_ghost, templates=scale_templates, lean=True, trust=('the roots are mapped', 'a squarefree polynomial stays squarefree'),
     pre=lambda s: [('a < b', s.a.q < s.b.q), ('length', z3.And(s.len >= 0, s.len <= s.pol.length))], post=scale_post)

# ------------------------------------------------------------------ squarefree part
GCDA = z3.Function('GCDA', AS, I, AS, I, AS)    # coefficients of the greatest common divisor
GCDN = z3.Function('GCDN', AS, I, AS, I, I)     # its length
QUOA = z3.Function('QUOA', AS, I, AS, I, AS)    # quotient of the division over the integers
QUON = z3.Function('QUON', AS, I, AS, I, I)
NEGA = z3.Function('NEGA', AS, I, AS)
@lib('fmpz_poly_derivative')
def _(c, d, p):
    q = poly(c, p)
    n = Z(q.len)
    set_poly(c, d, DERIV(q.arr, n), z3.If(n >= 1, n - 1, z3.IntVal(0)))
    if n is not None:
        D = DERIV(q.arr, n)
        c.assume(z3.Implies(z3.And(n >= 2, q.arr[n-1] != 0), D[n-2] != 0))
@lib('fmpz_poly_gcd')
def _(c, g, p, q):
    a, b = poly(c, p), poly(c, q)
    an, bn = Z(a.len), Z(b.len)
    G, n = GCDA(a.arr, an, b.arr, bn), GCDN(a.arr, an, b.arr, bn)
    c.assume(z3.And(n >= 0, (n == 0) == z3.And(an == 0, bn == 0), z3.Implies(n >= 1, G[n-1] > 0), z3.Implies(an >= 1, n <= an), z3.Implies(bn >= 1, n <= bn)))
    c.assume(z3.And(GCDA(b.arr, bn, a.arr, an) == G, GCDN(b.arr, bn, a.arr, an) == n))
    set_poly(c, g, G, n)
@lib('fmpz_poly_div', 'fmpz_poly_divexact')
def _(c, r, p, q):
    a, b = poly(c, p), poly(c, q)
    an, bn = Z(a.len), Z(b.len)
    c.prove(bn >= 1, 'division by a nonzero polynomial', 'pre')
    Q, n = QUOA(a.arr, an, b.arr, bn), QUON(a.arr, an, b.arr, bn)
    c.assume(z3.And(n >= 0, z3.Implies(n >= 1, Q[n-1] != 0)))
    L.lemmas(c, 'pdiv', a.arr, an, b.arr, bn, Q, n)
    set_poly(c, r, Q, n)
@lib('fmpz_poly_neg')
def _(c, r, p):
    a = poly(c, p)
    n = Z(a.len)
    N = NEGA(a.arr, n)
    c.assume(z3.Implies(n >= 1, N[n-1] == -a.arr[n-1]))
    for y in c.ghost.get('evpts', []):
        c.assume(H(N, 0, n, y) == -H(a.arr, 0, n, y))
    c.assume(L.SQF(L.PV(N, 0, n)) == L.SQF(L.PV(a.arr, 0, n)))
    set_poly(c, r, N, n)
@lib('fmpz_poly_one')
def _(c, p):
    arr = c.fresh_arr('one')
    c.assume(arr[0] == 1)
    for y in c.ghost.get('evpts', []):
        c.assume(H(arr, 0, 1, y) == 1)
    c.assume(L.SQF(L.PV(arr, 0, 1)))
    set_poly(c, p, arr, z3.IntVal(1))
def sqf_ghost(s):
    c = s.c
    y = c.fresh('y', 'Real')
    c.ghost.setdefault('evpts', []).append(y)
    c.ghost['sqy'] = y
    n, arr = Z(s.poly.len), s.poly.arr
    c.assume(z3.Implies(n == 1, H(arr, 0, n, y) == R(arr[0])))
    def lem(c, op, *args):
        if op == 'pdiv':
            a, an, b, bn, Q, m = args
            # P / gcd(P, P') is squarefree with the same zeros, and the division has no remainder
            D, dn = DERIV(a, an), an - 1
            for G, gn in ((GCDA(a, an, D, dn), GCDN(a, an, D, dn)),):
                c.assume(z3.Implies(z3.And(an >= 2, a[an-1] != 0, b == G, bn == gn), z3.And(m >= 1, L.SQF(L.PV(Q, 0, m)), (H(Q, 0, m, y) == 0) == (H(a, 0, an, y) == 0))))
    c.ghost['lemmas'] = lem
def sqf_post(s):
    y = s.c.ghost['sqy']
    r, p = s.n.res, s.poly
    zero = lambda v: H(v.arr, 0, Z(v.len), y) == 0
    return [('zero for zero', z3.Implies(Z(p.len) == 0, Z(r.len) == 0)), ('same real roots', z3.Implies(Z(p.len) >= 1, zero(r) == zero(p))),
            ('squarefree', z3.Implies(Z(p.len) >= 1, L.SQF(L.PV(r.arr, 0, Z(r.len))))), ('positive leading coefficient', z3.Implies(Z(p.len) >= 1, z3.And(Z(r.len) >= 1, r.arr[Z(r.len)-1] > 0)))]
spec('fmpz_poly_squarefree_part', 'res:zpoly:out poly:zpoly', ghost=sqf_ghost, post=sqf_post)

# ------------------------------------------------------------------ sign variations
VARS = z3.Function('VARS', AS, B, I, I)         # sign variations among the nonzero ones of the first i coefficients, of P(x) or of P(-x)
LSG = z3.Function('LSG', AS, B, I, I)           # sign of the last nonzero one of them
sgn = lambda v: z3.If(v > 0, z3.IntVal(1), z3.If(v < 0, z3.IntVal(-1), z3.IntVal(0)))
def var_ghost(s):
    c = s.c
    arr, n = s.p.arr, Z(s.len)
    P = L.PV(arr, 0, n)
    c.ghost['vars'] = arr
    for m in (False, True):
        c.assume(z3.And(VARS(arr, m, 1) == 0, LSG(arr, m, 1) == sgn(arr[0])))
    def unfold(c, a, i):
        if not a.eq(arr):
            return
        i = Z(i)
        for m in (False, True):
            t = sgn(a[i]) if not m else z3.If(i % 2 == 1, -sgn(a[i]), sgn(a[i]))
            c.assume(z3.Implies(i >= 1, z3.If(a[i] == 0, z3.And(VARS(a, m, i + 1) == VARS(a, m, i), LSG(a, m, i + 1) == LSG(a, m, i)),
                     z3.And(VARS(a, m, i + 1) == VARS(a, m, i) + z3.If(t != LSG(a, m, i), z3.IntVal(1), z3.IntVal(0)), LSG(a, m, i + 1) == t))))
    c.ghost.setdefault('unfold', []).append(unfold)
    lead = z3.And(n >= 1, arr[n-1] != 0)
    c.assume(z3.And(NPOS(P) >= 0, NNEG(P) >= 0, z3.Implies(lead, NRT(P) == NPOS(P) + NNEG(P) + z3.If(arr[0] == 0, z3.IntVal(1), z3.IntVal(0)))))
    # a constant has no root; odd degree, a sign change between 0 and infinity (intermediate value theorem); Descartes: parity of the number of variations
    c.assume(z3.Implies(lead, z3.And(z3.Implies(n == 1, NRT(P) == 0), z3.Implies(n % 2 == 0, NRT(P) >= 1), z3.Implies(z3.Or(z3.And(arr[0] > 0, arr[n-1] < 0), z3.And(arr[0] < 0, arr[n-1] > 0)), NPOS(P) >= 1),
             z3.Implies(z3.And(arr[0] != 0, VARS(arr, False, n) % 2 == 1), NPOS(P) >= 1), z3.Implies(z3.And(arr[0] != 0, VARS(arr, True, n) % 2 == 1), NNEG(P) >= 1))))
    c.ghost.setdefault('ints', []).append(('len', n))
def var_templates(c, fr, ls, ents):
    out = []
    arr = c.ghost['vars']
    for x, v, e in ents:
        for y, w, e2 in ents:
            if x != y:
                for m in (False, True):
                    out.append(('%s variations below %s (%s)' % (x, y, m), z3.And(v == VARS(arr, m, w), v >= 0)))
                    out.append(('%s last sign below %s (%s)' % (x, y, m), v == LSG(arr, m, w)))
    return out
@lib('_fmpz_poly_num_real_roots')
def _(c, p, n):
    p = c.check_ptr(p, '_fmpz_poly_num_real_roots')
    if p.reg.vec is None or not term_zero(off_div(p.off, 8)):
        raise Unsupported('number of real roots at offset')
    c.prove(z3.And(Z(n) >= 1, Z(n) <= Z(p.reg.vec.length)), 'number of real roots within bounds', 'mem')
    r = NRT(L.PV(p.reg.vec.arr, 0, Z(n)))
    c.assume(z3.And(r >= 0, r < (1 << 40)))
    return r
hasroot = lambda P: lambda s: [('recognises polynomials with a real root', (s.ret != 0) == (NRT(P(s)) >= 1))]
spec('_fmpz_poly_has_real_root', 'p:fvec:in:len len:slong', ret='int', ghost=var_ghost, templates=var_templates, lean='ints',
     pre=lambda s: [('squarefree', z3.And(s.len >= 1, s.len <= s.p.length, s.p.arr[s.len-1] != 0, L.SQF(L.PV(s.p.arr, 0, s.len))))], post=hasroot(lambda s: L.PV(s.p.arr, 0, s.len)))
spec('fmpz_poly_has_real_root', 'pol:zpoly', ret='int', pre=CP.SQFREE, post=hasroot(lambda s: polyof(s.pol)))

# ------------------------------------------------------------------ bound of the number of real roots
def ubn_ghost(s):
    c = s.c
    P = polyof(s.pol)
    arr, n0 = s.pol.arr, Z(s.pol.len)
    c.ghost['copies'] = []
    c.ghost['ubn'] = arr, n0
    c.assume(z3.And(LZ(arr, 0), NPOS(P) >= 0, NNEG(P) >= 0, NRT(P) == NPOS(P) + NNEG(P) + z3.If(arr[0] == 0, z3.IntVal(1), z3.IntVal(0))))
    c.ghost.setdefault('ints', []).append(('len', n0))
    def lem(c, op, *args):
        if op == 'copy':
            src, o, dst, n = args
            if src.eq(arr):
                Q = L.PV(src, o, n)
                c.assume(z3.Implies(z3.And(LZ(arr, o), arr[o] != 0, o + n == n0), z3.And(NPOS(Q) == NPOS(P), NNEG(Q) == NNEG(P))))
                c.ghost['copies'] = c.ghost['copies'] + [(dst, n, Q)]
        elif op == 'scale':
            p, q, e = args
            c.assume(z3.Implies(UB2(p, e), N01(q) == NPOS(p)))
    c.ghost['lemmas'] = lem
def ubn_hook(cs, s):
    out, j = [], z3.Int('j')
    for vs, n, Q in cs.c.ghost['copies']:
        a = s.pol.arr
        out.append(z3.Implies(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), a[j] == z3.If(j % 2 == 1, -vs[j], vs[j])), patterns=[a[j]]), L.PV(a, 0, n) == MIR(Q)))
        out.append(NPOS(MIR(Q)) == NNEG(Q))
    return out
def ubn_templates(c, fr, ls, ents):
    out, j = [], z3.Int('j')
    arr, n0 = c.ghost['ubn']
    for nm, v, e in ents:
        c.assume(z3.And(z3.Implies(z3.And(LZ(arr, v), v >= 0, arr[v] == 0), LZ(arr, v + 1)), z3.Implies(z3.And(LZ(arr, v), v >= n0), arr[n0-1] == 0), z3.Implies(z3.And(LZ(arr, v), v >= 1), arr[0] == 0)))
        out.append(('%s odd' % nm, v % 2 == 1))
        out.append(('%s leading zeros' % nm, LZ(arr, v)))
        for k, r in c.regions.items():
            if r.alive and r.kind == 'heap' and r.vec is not None and r.vec.kind == 'fmpz':
                a = named(c, r.vec.arr)
                for u, (vs, n, Q) in enumerate(c.ghost['copies']):
                    out.append(('%s is copy %d with odd entries below %s negated' % (k, u, nm), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), a[j] == z3.If(z3.And(j % 2 == 1, j < v), -vs[j], vs[j])), patterns=[a[j]])))
    return out
spec('fmpz_poly_num_real_roots_upper_bound', 'pol:zpoly', ret='slong', ghost=ubn_ghost, templates=ubn_templates, hooks={'_fmpz_poly_positive_root_upper_bound_2exp': ubn_hook}, lean='ints',
     pre=lambda s: [('nonzero', Z(s.pol.len) >= 1)], post=lambda s: [('at least the number of real roots', s.ret >= NRT(polyof(s.pol)))])
_db = SPECS['_fmpz_poly_descartes_bound_0_1']
_dbpost = _db.post
def db_post(s):
    P = L.PV(s.p.arr, 0, s.len)
    return [(l, z3.And(f, z3.Implies(s.ret != L.I64MAX, N01(P) <= s.ret), N01(P) >= 0) if l == 'Descartes' else f) for l, f in _dbpost(s)] + [('a bound that is the degree is never exceeded', z3.Implies(z3.And(s.bound >= s.len - 1, s.bound < L.I64MAX), s.ret != L.I64MAX))]
_db.post = db_post
def db_templates(c, fr, ls, ents):
    return [('%s < %s' % (x, y), v < w) for x, v, e in ents for y, w, e2 in ents if x != y]
_db.templates = db_templates
