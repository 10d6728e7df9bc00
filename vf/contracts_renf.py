"""Contracts of the number field layer (libeantic/src/renf)."""
import z3
from .core import *
from . import lib as L
from .lib import Z, H, RAT, ISO, DERIV
from .spec import spec, ball_sub
from . import contracts_poly as CP

spec('renf_refine_embedding', 'nf:field:mut prec:slong', pre=lambda s: [('the field has degree at least two', z3.Not(s.nf.core.lin))],
     lemma=lambda s: [],
     post=lambda s: [('relative accuracy reaches the requested precision', s.n.nf.ball.relacc() >= s.prec)],
     ghost=lambda s: s.c.ghost.setdefault('ints', []).append(('prec', s.prec)))

spec('renf_degree', 'nf:field', ret='slong', post=lambda s: [('the degree of the defining polynomial', s.ret == Z(s.nf.pol.len) - 1)])
def fresh_root(s):
    s.c.ghost['newgamma'] = s.src.gamma
spec('renf_init_set', 'dest:field:init src:field', ghost=fresh_root,
     post=lambda s: [('the same root', s.n.dest.gamma == s.src.gamma), ('the same polynomial', z3.And(s.n.dest.pol.arr == s.src.pol.arr, Z(s.n.dest.pol.len) == Z(s.src.pol.len), s.n.dest.den == s.src.den)),
                     ('the same default precision', s.n.dest.prec == s.src.prec), ('the same ball', z3.And(s.n.dest.ball.lo == s.src.ball.lo, s.n.dest.ball.hi == s.src.ball.hi)),
                     ('the same degree', s.n.dest.core.plen == s.src.core.plen)])
# renf_init: the polynomial is irreducible (documented precondition); aborts only when the ball does not isolate a root
def init_ghost(s):
    c, a, f, n = s.c, s.emb, s.pol.arr, Z(s.pol.len)
    root = L.ROOT(f, n, a.lo, a.hi)
    c.ghost['newgamma'] = root
    # an irreducible polynomial is squarefree; its roots are irrational unless it is linear; zero is a root of x only
    c.assume(z3.Implies(L.IRRED(f, n, s.pol.den), L.SQF(L.PV(f, 0, n))))
    c.assume(z3.Implies(z3.And(L.IRRED(f, n, s.pol.den), n > 2, H(f, 0, n, root) == 0), z3.And(z3.Not(RAT(root)), root != 0)))
    # ISO is inherited by smaller intervals
    l, h = z3.Real('iso_l'), z3.Real('iso_h')
    c.assume(z3.Implies(ISO(f, n, a.lo, a.hi), z3.ForAll([l, h], z3.Implies(z3.And(a.lo <= l, l <= h, h <= a.hi), ISO(f, n, l, h)), patterns=[ISO(f, n, l, h)])))
class as_uniq:
    def __init__(self, s):
        self.a, self.pol, self.c = s.emb, s.pol, s.c
def init_post(s):
    v, f, n = s.n.nf, s.pol.arr, Z(s.pol.len)
    return [('the given ball isolates the root', CP.uniq_formula(as_uniq(s))),
            ('the root isolated by the ball', v.gamma == L.ROOT(f, n, s.emb.lo, s.emb.hi)),
            ('the given polynomial', z3.And(v.pol.arr == f, Z(v.pol.len) == n, v.den == s.pol.den)),
            ('the given precision', v.prec == s.prec),
            ('refined to the given precision', z3.Implies(n > 2, v.ball.relacc() >= s.prec)),
            ('inside the given ball', z3.And(v.ball.lo >= s.emb.lo, v.ball.hi <= s.emb.hi))]
spec('renf_init', 'nf:field:init pol:qpoly emb:arb prec:slong', ghost=init_ghost,
     pre=lambda s: [('irreducible polynomial', L.IRRED(s.pol.arr, Z(s.pol.len), s.pol.den)), ('prec at least 2', z3.And(s.prec >= 2, s.prec < (1 << 61))), ('finite ball', s.emb.fin())],
     may_abort=lambda s: z3.Or(Z(s.pol.len) < 2, z3.Not(CP.interior(as_uniq(s))), z3.Not(CP.uniq_formula(as_uniq(s)))), post=init_post)
def nth_ghost(s):
    # y0 stands for a transcendental number: a rational polynomial is determined by its value there
    s.c.ghost['y0'] = s.c.fresh('y0', 'Real')
    s.c.ghost['evpts'] = [s.c.ghost['y0']]
def nth_lemma(s, t):
    """instances for the polynomial handed to renf_init: if it has the value of x^n - d at y0, it is x^n - d"""
    d, n, y0 = s.d.q, Z(s.n_), s.c.ghost['y0']
    f, ln, dn, a = t.pol.arr, Z(t.pol.len), t.pol.den, t.emb
    root = L.ROOT(f, ln, a.lo, a.hi)
    val = lambda y: H(f, 0, ln, y)/R(dn) == L.POW(y, n) - d
    out = [z3.Implies(val(y0), L.IRRED(f, ln, dn)), z3.Implies(val(y0), val(root))]
    for x in a.r.pts:
        out += [z3.Implies(val(y0), val(x)), z3.Implies(z3.And(ISO(f, ln, a.lo, a.hi), a.has(x), H(f, 0, ln, x) == 0, a.has(root), H(f, 0, ln, root) == 0), x == root)]
    return out
spec('renf_init_nth_root_fmpq', 'nf:field:init d:fmpq n_:ui prec:slong', ghost=nth_ghost, hooks={'renf_init': nth_lemma}, may_abort=lambda s: True,
     pre=lambda s: [('prec at least 2', z3.And(s.prec >= 2, s.prec < (1 << 61))), ('order', z3.And(s.n_ >= 1, s.n_ < (1 << 39))), ('x^n - d is irreducible', z3.Or(s.d.q > 0, s.n_ == 1))],
     post=lambda s: [('the n-th root', L.POW(s.n.nf.gamma, Z(s.n_)) == s.d.q), ('the nonnegative root', s.n.nf.gamma >= 0), ('the given precision', s.n.nf.prec == s.prec)])
spec('renf_set_immutable', 'nf:field:imm immutable:int', ret='int', post=lambda s: [('returns the old flag', s.ret == s.nf.imm), ('sets the flag', s.n.nf.imm == s.immutable)])
spec('renf_clear', 'nf:field:clear')
def samefield(s):
    a, b = s.nf1, s.nf2
    return z3.And(L.SAMEPOLY(a.pol.arr, Z(a.pol.len), a.den, b.pol.arr, Z(b.pol.len), b.den), a.gamma == b.gamma)
spec('renf_equal', 'nf1:field nf2:field', ret='bool',
     post=lambda s: [('true exactly for the same polynomial with the same root', z3.And(z3.Or(s.ret == 0, s.ret == 1), (s.ret == 1) == samefield(s)))])
