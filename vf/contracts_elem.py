"""Contracts of the C element layer (libeantic/src/renf_elem) and of the helpers it calls."""
import z3
from .core import *
from . import lib as L
from .lib import Z, H, RAT, POW, CANON, powr
from .spec import spec

E = {}

def val(f, lab, pre=None):
    return dict(post=lambda s: [(lab, s.n.a.val == f(s))], pre=pre)

q = lambda v: v.q
T = {'': ('elem', lambda v: v.val), '_si': ('si', lambda v: R(v)), '_ui': ('ui', lambda v: R(v)), '_fmpz': ('fmpz', lambda v: v.r), '_fmpq': ('fmpq', q)}
OPS = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'div': lambda x, y: x / y}
for suf, (kind, rd) in T.items():
    for op, f in OPS.items():
        def mk(op, f, rd, kind, suf):
            pre = (lambda s: [('divisor is nonzero', rd(s.c_) != 0)]) if op == 'div' else None
            spec('renf_elem_%s%s' % (op, suf), 'a:elem:out b:elem c_:%s nf:field' % kind,
                 pre=pre, post=lambda s: [('result is exactly b %s c' % op, s.n.a.val == f(s.b.val, rd(s.c_)))] + ([] if kind == 'elem' else
                     [('rational exactly if b is', RAT(s.n.a.val) == (RAT(s.b.val) if op in ('add', 'sub') else z3.Or(rd(s.c_) == 0, RAT(s.b.val))), 'aux')]))
        mk(op, f, rd, kind, suf)
spec('renf_elem_fmpq_sub', 'a:elem:out c_:fmpq b:elem nf:field', **val(lambda s: s.c_.q - s.b.val, 'result is exactly c - b'))
spec('renf_elem_fmpq_div', 'a:elem:out b:fmpq c_:elem nf:field',
     **val(lambda s: s.b.q / s.c_.val, 'result is exactly b / c', lambda s: [('divisor is nonzero', s.c_.val != 0)]))
spec('renf_elem_neg', 'a:elem:out b:elem nf:field', **val(lambda s: -s.b.val, 'result is exactly -b'))
spec('renf_elem_inv', 'a:elem:out b:elem nf:field', **val(lambda s: 1 / s.b.val, 'result is exactly 1/b', lambda s: [('operand is nonzero', s.b.val != 0)]))
spec('renf_elem_pow', 'a:elem:out b:elem e:ui nf:field', **val(lambda s: powr(s.c, s.b.val, s.e), 'result is exactly b^e'))
spec('renf_elem_set', 'a:elem:out b:elem nf:field', **val(lambda s: s.b.val, 'result is exactly b'))
spec('renf_elem_zero', 'a:elem:out nf:field', **val(lambda s: 0, 'result is zero'))
spec('renf_elem_one', 'a:elem:out nf:field', **val(lambda s: 1, 'result is one'))
spec('renf_elem_gen', 'a:elem:out nf:field', **val(lambda s: s.nf.gamma, 'result is the generator of the field'))
spec('renf_elem_set_si', 'a:elem:out n_:si nf:field', **val(lambda s: R(s.n_), 'result is exactly n'))
spec('renf_elem_set_ui', 'a:elem:out n_:ui nf:field', **val(lambda s: R(s.n_), 'result is exactly n'))
spec('renf_elem_set_fmpz', 'a:elem:out c_:fmpz nf:field', **val(lambda s: s.c_.r, 'result is exactly c'))
spec('renf_elem_set_mpz', 'a:elem:out c_:mpz nf:field', **val(lambda s: s.c_.r, 'result is exactly c'))
spec('renf_elem_set_fmpq', 'a:elem:out c_:fmpq nf:field', **val(lambda s: s.c_.q, 'result is exactly c'))
spec('renf_elem_set_mpq', 'a:elem:out c_:mpq nf:field', **val(lambda s: s.c_.q, 'result is exactly c'))
spec('renf_elem_set_fmpq_poly', 'a:elem:out pol:qpoly nf:field',
     **val(lambda s: H(s.pol.arr, 0, s.pol.len, s.nf.gamma) / R(s.pol.den), 'result is the polynomial evaluated at the generator'))
spec('renf_elem_set_nf_elem', 'a:elem:out b:nfelem nf:field prec:slong', **val(lambda s: s.b.val, 'result is the given element'))
spec('renf_elem_init', 'a:elem:init nf:field', post=lambda s: [('initialised to zero', s.n.a.val == 0)])
spec('renf_elem_clear', 'a:elem:clear nf:field')

# refinement of an enclosure: the number is kept
spec('renf_elem_set_evaluation', 'a:elem:refx nf:field prec:slong', post=lambda s: [('enclosure is finite', s.n.a.ball.fin(), 'encl'),
     ('accurate to the requested precision in a field of degree one', z3.Implies(z3.And(s.nf.core.lin, s.a.val != 0), s.n.a.ball.relacc() >= s.prec - 3), 'encl')])
spec('renf_elem_check_embedding', 'a:elem nf:field prec:slong', pre=lambda s: [('prec at least 2', s.prec >= 2)])

# predicates
def flag(p):
    return lambda s: [('result is the truth value', z3.And(z3.Or(s.ret == 0, s.ret == 1), (s.ret == 1) == p(s)))]
spec('renf_elem_is_zero', 'a:elem nf:field', ret='bool', post=flag(lambda s: s.a.val == 0))
spec('renf_elem_is_one', 'a:elem nf:field', ret='bool', post=flag(lambda s: s.a.val == 1))
spec('renf_elem_is_rational', 'a:elem nf:field', ret='bool', post=flag(lambda s: RAT(s.a.val)))
spec('renf_elem_is_integer', 'a:elem nf:field', ret='bool', post=flag(lambda s: z3.IsInt(s.a.val)))
spec('renf_elem_equal', 'a:elem b:elem nf:field', ret='bool', post=flag(lambda s: s.a.val == s.b.val))
spec('renf_elem_equal_si', 'a:elem b:si nf:field', ret='bool', post=flag(lambda s: s.a.val == R(s.b)))
spec('renf_elem_equal_ui', 'a:elem b:ui nf:field', ret='bool', post=flag(lambda s: s.a.val == R(s.b)))
spec('renf_elem_equal_fmpz', 'a:elem b:fmpz nf:field', ret='bool', post=flag(lambda s: s.a.val == s.b.r))
spec('renf_elem_equal_fmpq', 'a:elem b:fmpq nf:field', ret='bool', post=flag(lambda s: s.a.val == s.b.q))

# order
def order(x, y):
    return lambda s: [('result has the sign of a - b', z3.And((s.ret > 0) == (x(s) > y(s)), (s.ret < 0) == (x(s) < y(s)))),
                      ('result can be negated', s.ret > -(1 << 31))]
spec('renf_elem_sgn', 'a:elem:ref nf:field:mut', ret='int',
     post=lambda s: [('result is the sign of the number', s.ret == L.sgn_of(s.a.val))])
spec('renf_elem_cmp', 'a:elem:ref b:elem:ref nf:field:mut', ret='int',
     post=lambda s: order(lambda s: s.a.val, lambda s: s.b.val)(s) + [('result is -1, 0 or 1 unless both are nonzero rationals',
         z3.Or(z3.And(s.ret >= -1, s.ret <= 1), z3.And(RAT(s.a.val), RAT(s.b.val), s.a.val != 0, s.b.val != 0)), 'aux')])
for t, k, f in (('fmpq', 'fmpq', lambda s: s.b.q), ('fmpz', 'fmpz', lambda s: s.b.r), ('si', 'si', lambda s: R(s.b)), ('ui', 'ui', lambda s: R(s.b))):
    spec('renf_elem_cmp_' + t, 'a:elem:ref b:%s nf:field:mut' % k, ret='int', post=order(lambda s: s.a.val, f))

# floor, ceil, floor division
def zsplits(s, z):
    """tautologies that spare the solver a search over unbounded integers"""
    return [z3.Or(z - t <= -1, z == t, z - t >= 1) for t in s.c.ghost.get('zsplit', [])]
isfloor = lambda z, x: z3.And(R(z) <= x, x < R(z) + 1)
spec('renf_elem_floor', 'a:fmpz:out b:elem:ref nf:field:mut', may_abort=None,
     post=lambda s: [('a <= b < a + 1', isfloor(s.n.a.v, s.b.val))] + [('split', x, 'aux') for x in zsplits(s, s.n.a.v)])
spec('renf_elem_ceil', 'a:fmpz:out b:elem:ref nf:field:mut',
     post=lambda s: [('a - 1 < b <= a', z3.And(R(s.n.a.v) - 1 < s.b.val, s.b.val <= R(s.n.a.v)))])
spec('renf_elem_fdiv', 'a:fmpz:out b:elem:ref c_:elem:ref nf:field:mut', pre=lambda s: [('divisor is nonzero', s.c_.val != 0)],
     ghost=lambda s: s.c.ghost['points'].append(s.c.undiv(s.b.val / s.c_.val)),
     post=lambda s: [('a <= b/c < a + 1', isfloor(s.n.a.v, s.b.val / s.c_.val))])

# helpers
spec('renf_elem_relative_condition_number_2exp', 'cond:slongp:out a:elem nf:field', ret='int',
     post=lambda s: [('a value is stored', s.n.cond.v is not None), ('fits', z3.And(s.n.cond.v > -(1 << 60), s.n.cond.v < (1 << 60)) if s.n.cond.v is not None else False),
                     ('zero for a rational', z3.Implies(RAT(s.a.val), s.n.cond.v == 0) if s.n.cond.v is not None else False)])

# numerical output
spec('renf_elem_get_arb', 'x:arb:out a:elem:ref nf:field:mut prec:slong', pre=lambda s: [('prec is nonnegative', z3.And(s.prec >= 0, s.prec < (1 << 40)))],
     ghost=lambda s: s.c.ghost.setdefault('ints', []).append(('prec+8', s.prec + 8)),
     post=lambda s: [('the ball contains the exact value', s.n.x.has(s.a.val)), ('the ball is finite', s.n.x.fin()),
                     ('zero gives an exact zero', z3.Implies(s.a.val == 0, z3.And(s.n.x.m.v == 0, s.n.x.r.v == 0))),
                     ('at least the requested relative accuracy', z3.Implies(s.a.val != 0, s.n.x.relacc() >= s.prec))])

# continued fractions: CFT(x, i) is the i-th complete quotient of x, CFQ(x, i) its floor
CFT = z3.Function('CFT', z3.RealSort(), z3.IntSort(), z3.RealSort())
CFQ = z3.Function('CFQ', z3.RealSort(), z3.IntSort(), z3.IntSort())
def cft_step(x, i):
    """defining equations at index i"""
    t, q = CFT(x, i), R(CFQ(x, i))
    return z3.And(q <= t, t < q + 1, z3.Implies(z3.And(i >= 0, t != q), CFT(x, z3.simplify(i + 1)) == 1/(t - q)))
# for all j: proved for an arbitrary index cfj, used with a quantifier
def allidx(s, f, pat):
    if not s.site:
        return f(z3.Int('cfj'))
    j = z3.Int('cfb')
    return z3.ForAll([j], f(j), patterns=[pat(j)])
pre_at = lambda arr, x, n, j: z3.Implies(z3.And(j >= 0, j < n), arr[j] == CFQ(x, j))
non_at = lambda x, n, j: z3.Implies(z3.And(j >= 0, j < n), CFT(x, j) != R(CFQ(x, j)))
def cf_templates(c, fr, ls, ents):
    x = c.args_view['a'].val
    rem = L.elem(c, c.args['rem'])
    arr = c.args['c_'].reg.vec.arr
    out = []
    for n, v, e in ents:
        c.assume(z3.And(cft_step(x, z3.simplify(v)), cft_step(x, z3.simplify(v - 1))))
        c.ghost['zsplit'] = [CFQ(x, z3.simplify(v))]
        out.append(('rem is complete quotient number %s' % n, rem.val == CFT(x, v)))
        out.append(('the partial quotients before %s are the floors' % n, pre_at(arr, x, v, z3.Int('cfj'))))
        out.append(('the complete quotients before %s are not integers' % n, non_at(x, v, z3.Int('cfj'))))
    return out
def cf_ghost(s):
    s.c.assume(CFT(s.a.val, 0) == s.a.val)
    s.c.assume(z3.And(cft_step(s.a.val, z3.IntVal(0)), cft_step(s.a.val, z3.Int('cfj'))))
    s.c.ghost.setdefault('ints', []).append(('n', s.n_))
spec('renf_elem_get_cfrac', 'c_:fvec:out:n_ rem:elem:out a:elem n_:slong nf:field:mut', ret='slong', pre=lambda s: [('n is nonnegative', s.n_ >= 0)],
     ghost=cf_ghost, templates=cf_templates,
     post=lambda s: [('at most n partial quotients', z3.And(s.ret >= 0, s.ret <= s.n_)),
                     ('the partial quotients are the floors of the complete quotients', allidx(s, lambda j: pre_at(s.n.c_.arr, s.a.val, s.ret, j), lambda j: s.n.c_.arr[j])),
                     ('the expansion did not end earlier', allidx(s, lambda j: non_at(s.a.val, s.ret - 1, j), lambda j: CFQ(s.a.val, j))),
                     ('fewer than n only if the expansion ended', z3.Implies(s.ret < s.n_, z3.If(s.a.val == 0, s.ret == 0, z3.And(s.ret > 0, CFT(s.a.val, z3.simplify(s.ret - 1)) == R(CFQ(s.a.val, z3.simplify(s.ret - 1)))))))])

# doubles
DBLMAX = int(1.7976931348623157e308)
spec('renf_elem_overflows_d', 'a:elem:ref nf:field:mut', ret='int',
     post=lambda s: [('sign of the overflow', s.ret == z3.If(s.a.val > DBLMAX, z3.IntVal(1), z3.If(s.a.val < -DBLMAX, z3.IntVal(-1), z3.IntVal(0))))])
spec('renf_elem_get_d', 'a:elem:ref nf:field:mut rnd:int', ret='double', pre=lambda s: [('a rounding mode', z3.And(s.rnd >= 0, s.rnd <= 4))],
     ghost=lambda s: L.add_round(s.c, s.a.val, s.rnd),
     post=lambda s: [('the correctly rounded double', s.ret == z3.If(RAT(s.a.val), L.ROUND(s.a.val, s.rnd),
            z3.If(s.a.val > DBLMAX, z3.RealVal(DINF), z3.If(s.a.val < -DBLMAX, z3.RealVal(-DINF), L.ROUND(s.a.val, s.rnd)))))])
