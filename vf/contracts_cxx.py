"""Contracts of the C++ classes (libeantic/srcxx, e-antic/*.hpp).  Named by demangled signature; calls between C++
functions are verified by inlining the callee's body, calls of the C layer through the C contracts."""
import z3
from .core import *
from . import lib as L
from .lib import Z, RAT
from .spec import Spec
from .contracts_elem import DBLMAX, DINF

CXX = {}
def cx(dem, params, **k):
    sp = Spec(dem, params, cxx=True, inline=True, dem=dem, **k)
    CXX[dem] = sp
    return sp

E = 'eantic::renf_elem_class'
ER = 'eantic::renf_elem_class const&'
MZ = '__gmp_expr<__mpz_struct [1], __mpz_struct [1]> const&'
MQ = '__gmp_expr<__mpq_struct [1], __mpq_struct [1]> const&'
INTS = [('short', 'i16'), ('unsigned short', 'u16'), ('int', 'i32'), ('unsigned int', 'u32'), ('long', 'i64'), ('unsigned long', 'u64'), ('long long', 'i64'), ('unsigned long long', 'u64')]
SCAL = [(t, k, lambda v: R(v)) for t, k in INTS] + [(MZ, 'mpz', lambda v: v.r), (MQ, 'mpq', lambda v: v.q)]
OPS = [('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('*', lambda a, b: a*b), ('/', lambda a, b: a/b)]
RELS = [('==', lambda a, b: a == b), ('<', lambda a, b: a < b), ('>', lambda a, b: a > b)]

def i1(x):
    return toB(x) if not z3.is_int(x) else x != 0

P13, P14, P15, P17 = [], [], [], []
for t, k, val in SCAL:
    for o, f in OPS:
        P13.append(cx('%s::operator%s=(%s)' % (E, o, t), 'self:celem:out rhs:%s' % k, ret='ref:self',
           pre=(lambda s, val=val: [('the divisor is not zero', val(s.rhs) != 0)]) if o == '/' else None,
           post=lambda s, f=f, val=val: [('exact result', s.n.self.val == f(s.self.val, val(s.rhs))), ('in the same field', s.n.self.f is s.self.f)]))
    for o, f in RELS:
        P13.append(cx('eantic::operator%s(%s, %s)' % (o, ER, t), 'lhs:celem rhs:%s' % k,
           post=lambda s, f=f, val=val: [('exact answer', i1(s.ret) == f(s.lhs.val, val(s.rhs)))]))

# ------------------------------------------------------------------ operators between elements
def qf(s):
    return s.c.ghost['cfields']['Q']
def mixed(s, a, b):
    """elements of two different fields, neither of them the rationals"""
    return a.f is not b.f and a.f is not qf(s) and b.f is not qf(s)
def irr(*v):
    return z3.And([z3.Not(RAT(x.val)) for x in v])
def binop_throws(s):
    # different irrational fields: an error if both operands are irrational, or if the environment asks for strictness
    return z3.Or(z3.BoolVal(mixed(s, s.self, s.rhs) and bool(s.c.ghost.get('env'))), z3.And(z3.BoolVal(s.self.f is not s.rhs.f), irr(s.self, s.rhs)))
def sq(s):
    """elements of the rational field are rational"""
    return True
for o, f in OPS:
    P13.append(cx('%s::operator%s=(%s)' % (E, o, ER), 'self:celem:out rhs:celem', ret='ref:self', throws=binop_throws,
       pre=(lambda s: [('the divisor is not zero', s.rhs.val != 0)]) if o == '/' else None,
       post=lambda s, f=f: [('exact result', s.n.self.val == f(s.self.val, s.rhs.val)),
             ('no silent mixing of irrational elements', z3.Or(z3.BoolVal(s.self.f is s.rhs.f), RAT(s.self.val), RAT(s.rhs.val))),
             ('in a field of the operands', s.n.self.f is s.self.f or (s.n.self.f is s.rhs.f and z3.Not(RAT(s.rhs.val))))]))
cmp_throws = lambda s: z3.And(z3.BoolVal(s.lhs.f is not s.rhs.f), irr(s.lhs, s.rhs))
for o, f in RELS[:2]:
    P13.append(cx('eantic::operator%s(%s, %s)' % (o, ER, ER), 'lhs:celem rhs:celem', throws=cmp_throws,
       post=lambda s, f=f: [('exact answer', i1(s.ret) == f(s.lhs.val, s.rhs.val))]))
fl = lambda x: [('an integer at most the value', R(x[0]) <= x[1]), ('closer than one', x[1] < R(x[0]) + 1)]
P13.append(cx('%s::floordiv(%s) const' % (E, ER), 'res:mpz:init self:celem rhs:celem', pre=lambda s: [('the divisor is not zero', s.rhs.val != 0)],
   throws=lambda s: z3.Or(z3.BoolVal(mixed(s, s.self, s.rhs) and bool(s.c.ghost.get('env'))), z3.And(z3.BoolVal(s.self.f is not s.rhs.f), irr(s.self, s.rhs))),
   post=lambda s: fl((s.n.res.v, s.self.val/s.rhs.val))))
def powv(s):
    e = s.exp
    return z3.And(z3.Implies(e >= 0, s.n.res.val == L.POW(s.self.val, e)), z3.Implies(e < 0, s.n.res.val == L.POW(1/s.self.val, -e)))
P13.append(cx('%s::pow(int) const' % E, 'res:celem:init self:celem exp:i32', pre=lambda s: [('no negative power of zero', z3.Or(s.exp >= 0, s.self.val != 0))],
   post=lambda s: [('exact power', powv(s)), ('in the same field', s.n.res.f is s.self.f)]))
P13.append(cx('eantic::pow(%s, int)' % ER, 'res:celem:init self:celem exp:i32', pre=lambda s: [('no negative power of zero', z3.Or(s.exp >= 0, s.self.val != 0))],
   post=lambda s: [('exact power', powv(s)), ('in the same field', s.n.res.f is s.self.f)]))
P13.append(cx('%s::operator-() const' % E, 'res:celem:init self:celem', post=lambda s: [('exact negative', s.n.res.val == -s.self.val), ('in the same field', s.n.res.f is s.self.f)]))
P13.append(cx('%s::operator+() const' % E, 'res:celem:init self:celem', post=lambda s: [('same number', s.n.res.val == s.self.val), ('in the same field', s.n.res.f is s.self.f)]))
P13.append(cx('%s::operator bool() const' % E, 'self:celem', post=lambda s: [('true exactly if not zero', i1(s.ret) == (s.self.val != 0))]))

# ------------------------------------------------------------------ construction, assignment
FZ, FQ = 'long const*', 'fmpq const*'
CT = SCAL + [(FZ, 'fmpz', lambda v: v.r), (FQ, 'fmpq', lambda v: v.q)]
for t, k, val in CT:
    for C in ('long',) if False else ('renf_elem_class',):
        P14.append(cx('%s::%s(%s)' % (E, C, t), 'self:celem:init value:%s' % k,
           post=lambda s, val=val: [('the given number', s.n.self.val == val(s.value)), ('in the rational field', s.n.self.f is qf(s))]))
        P14.append(cx('%s::%s(eantic::renf_class const&, %s)' % (E, C, t), 'self:celem:init k:cfield value:%s' % k,
           post=lambda s, val=val: [('the given number', s.n.self.val == val(s.value)), ('in the given field', s.n.self.f is s.k.f)]))
    P14.append(cx('%s::operator=(%s)' % (E, t), 'self:celem:out value:%s' % k, null={'self'}, ret='ref:self',
       post=lambda s, val=val: [('the given number', s.n.self.val == val(s.value)), ('in the rational field', s.n.self.f is qf(s))]))
P14 += [
 cx('%s::renf_elem_class()' % E, 'self:celem:init', post=lambda s: [('zero', s.n.self.val == 0), ('in the rational field', s.n.self.f is qf(s))]),
 cx('%s::renf_elem_class(eantic::renf_class const&)' % E, 'self:celem:init k:cfield', post=lambda s: [('zero', s.n.self.val == 0), ('in the given field', s.n.self.f is s.k.f)]),
 cx('%s::renf_elem_class(%s)' % (E, ER), 'self:celem:init value:celem', post=lambda s: [('the same number', s.n.self.val == s.value.val), ('in the same field', s.n.self.f is s.value.f)]),
 cx('%s::renf_elem_class(eantic::renf_elem_class&&)' % E, 'self:celem:init value:celem:move', post=lambda s: [('the same number', s.n.self.val == s.value.val), ('in the same field', s.n.self.f is s.value.f)]),
 cx('%s::renf_elem_class(eantic::renf_class const&, %s)' % (E, ER), 'self:celem:init k:cfield value:celem',
    throws=lambda s: z3.And(z3.BoolVal(s.k.f is not s.value.f), irr(s.value)),
    post=lambda s: [('the same number', s.n.self.val == s.value.val), ('in the given field', s.n.self.f is s.k.f)]),
 cx('%s::operator=(%s)' % (E, ER), 'self:celem:out value:celem', null={'self'}, ret='ref:self',
    post=lambda s: [('the same number', s.n.self.val == s.value.val), ('in the same field', s.n.self.f is s.value.f)]),
 cx('%s::operator=(eantic::renf_elem_class&&)' % E, 'self:celem:out value:celem:move', null={'self'}, ret='ref:self',
    post=lambda s: [('the same number', s.n.self.val == s.value.val), ('in the same field', s.n.self.f is s.value.f)]),
 cx('%s::~renf_elem_class()' % E, 'self:celem:clear', null={'self'}),
 cx('eantic::swap(eantic::renf_elem_class&, eantic::renf_elem_class&)', 'lhs:celem:out rhs:celem:out',
    post=lambda s: [('numbers are exchanged', z3.And(s.n.lhs.val == s.rhs.val, s.n.rhs.val == s.lhs.val)), ('fields are exchanged', s.n.lhs.f is s.rhs.f and s.n.rhs.f is s.lhs.f)]),
]

# ------------------------------------------------------------------ accessors
P15 += [
 cx('%s::is_zero() const' % E, 'self:celem', post=lambda s: [('exact answer', i1(s.ret) == (s.self.val == 0))]),
 cx('%s::is_one() const' % E, 'self:celem', post=lambda s: [('exact answer', i1(s.ret) == (s.self.val == 1))]),
 cx('%s::is_integer() const' % E, 'self:celem', post=lambda s: [('exact answer', i1(s.ret) == z3.IsInt(s.self.val))]),
 cx('%s::is_rational() const' % E, 'self:celem', post=lambda s: [('exact answer', i1(s.ret) == RAT(s.self.val))]),
 cx('%s::sgn() const' % E, 'self:celem', post=lambda s: [('the sign', z3.And((s.ret > 0) == (s.self.val > 0), (s.ret < 0) == (s.self.val < 0), s.ret >= -1, s.ret <= 1))]),
]
for n, r in (('floor', 0), ('ceil', 1)):
    ps = lambda s, r=r: [('the exact %s' % ('ceil' if r else 'floor'), z3.And(R(s.n.res.v) <= s.self.val, s.self.val < R(s.n.res.v) + 1) if not r else z3.And(R(s.n.res.v) >= s.self.val, s.self.val > R(s.n.res.v) - 1))]
    P15.append(cx('%s::%s() const' % (E, n), 'res:mpz:init self:celem', post=ps))
    P15.append(cx('eantic::%s(%s)' % (n, ER), 'res:mpz:init self:celem', post=ps))
MPZ, MPQ = '__gmp_expr<__mpz_struct [1], __mpz_struct [1]>', '__gmp_expr<__mpq_struct [1], __mpq_struct [1]>'
isq = lambda s: [('the element is rational', RAT(s.self.val))]
P15 += [
 cx('%s::operator %s() const' % (E, MPZ), 'res:mpz:init self:celem', pre=lambda s: [('the element is an integer', z3.IsInt(s.self.val))],
    post=lambda s: [('the same number', s.n.res.r == s.self.val)]),
 cx('%s::operator %s() const' % (E, MPQ), 'res:mpq:init self:celem', pre=isq,
    post=lambda s: [('the same number', s.n.res.q == s.self.val), ('in lowest terms', z3.And(s.n.res.d > 0, L.CANON(s.n.res.n, s.n.res.d)))]),
 cx('%s::get_rational() const' % E, 'res:mpq:init self:celem', pre=isq, post=lambda s: [('the same number', s.n.res.q == s.self.val)]),
]
for g in ('', 'get_'):
    P15 += [
     cx('%s::%snum() const' % (E, g), 'res:mpz:init self:celem', pre=isq, post=lambda s: [('numerator in lowest terms', s.n.res.v == L.NUMR(s.self.val))]),
     cx('%s::%sden() const' % (E, g), 'res:mpz:init self:celem', post=lambda s: [('positive', s.n.res.v > 0), ('common denominator of the coefficients', s.n.res.v == L.DEN(s.self.val, s.self.core.gamma)),
        ('denominator in lowest terms', z3.Implies(RAT(s.self.val), s.n.res.v == L.DENR(s.self.val)))]),
    ]
def content(s):
    o = s.self.obj
    w = o.which(s.c)
    a = o.view(s.c, w)
    return z3.If(a[0] < 0, -a[0], a[0]) if w == 'lin' else L.GCD(a[0], a[1]) if w == 'quad' else L.CONTENTV(a[0].vec.arr, a[1])
P15.append(cx('%s::num_content() const' % E, 'res:mpz:init self:celem', post=lambda s: [('gcd of the numerators of the coefficients', s.n.res.v == content(s))]))
for n in ('%s::operator double() const', '%s::get_d() const'):
    P15.append(cx(n % E, 'self:celem', ghost=lambda s: L.add_round(s.c, s.self.val, 4), post=lambda s: [('the nearest double',
       s.ret == z3.If(RAT(s.self.val), L.ROUND(s.self.val, 4), z3.If(s.self.val > DBLMAX, z3.RealVal(DINF), z3.If(s.self.val < -DBLMAX, z3.RealVal(-DINF), L.ROUND(s.self.val, 4)))))]))

# ------------------------------------------------------------------ fields
K = 'eantic::renf_class'
def elem_of(s):
    from . import cxx as X, spec as SP
    if not isinstance(s.ret, Ptr) or s.ret.reg is None:
        s.c.fail('returns a reference to an element', 'post')
    return X.celem_view(s.c, s.ret, SP.View())
P16 = [
 cx('%s::zero() const' % K, 'self:cfield', post=lambda s: [('zero of this field', z3.And(elem_of(s).val == 0, z3.BoolVal(elem_of(s).f is s.self.f)))]),
 cx('%s::one() const' % K, 'self:cfield', post=lambda s: [('one of this field', z3.And(elem_of(s).val == 1, z3.BoolVal(elem_of(s).f is s.self.f)))]),
 cx('%s::gen() const' % K, 'self:cfield', post=lambda s: [('the generator of this field', z3.And(elem_of(s).val == s.self.gamma, z3.BoolVal(elem_of(s).f is s.self.f)))]),
 cx('%s::degree() const' % K, 'self:cfield', post=lambda s: [('the degree of the defining polynomial', s.ret == Z(s.self.fld.pol.len) - 1)]),
 cx('eantic::operator==(%s const&, %s const&)' % (K, K), 'self:cfield other:cfield', post=lambda s: [('true exactly for the same object', i1(s.ret) == z3.BoolVal(s.self.f is s.other.f))]),
 cx('eantic::renf_elem_class::parent() const', 'self:celem', post=lambda s: [('the field of the element', isinstance(s.ret, Ptr) and s.ret.reg is s.self.f)]),
]

# ------------------------------------------------------------------ operators that the headers derive (vf/driver.cpp instantiates them)
def dr(name, params, **k):
    sp = Spec(name, params, cxx=True, inline=True, dem=name, **k)
    CXX[name] = sp
    return sp
P17.append(dr('vf_hash', 'x:celem y:celem', pre=lambda s: [('equal numbers', s.x.val == s.y.val)], post=lambda s: [('equal numbers have equal hashes', i1(s.ret))]))
RELX = [('ne', lambda a, b: a != b), ('le', lambda a, b: a <= b), ('ge', lambda a, b: a >= b), ('gt', lambda a, b: a > b), ('eq', lambda a, b: a == b), ('lt', lambda a, b: a < b)]
OPN = [('add', OPS[0][1]), ('sub', OPS[1][1]), ('mul', OPS[2][1]), ('div', OPS[3][1])]
TN = ['s', 'us', 'i', 'ui', 'l', 'ul', 'll', 'ull', 'mpz', 'mpq']
for t, (_, k, val) in zip(TN, SCAL):
    for n, f in OPN:
        P13.append(dr('vf_%s_e%s' % (n, t), 'res:celem:init a:celem b:%s' % k, pre=(lambda s, val=val: [('the divisor is not zero', val(s.b) != 0)]) if n == 'div' else None,
           post=lambda s, f=f, val=val: [('exact result', s.n.res.val == f(s.a.val, val(s.b))), ('in the same field', s.n.res.f is s.a.f)]))
        P13.append(dr('vf_%s_%se' % (n, t), 'res:celem:init a:%s b:celem' % k, pre=(lambda s: [('the divisor is not zero', s.b.val != 0)]) if n == 'div' else None,
           post=lambda s, f=f, val=val: [('exact result', s.n.res.val == f(val(s.a), s.b.val)), ('in the same field', s.n.res.f is s.b.f or RAT(s.b.val))]))
    for n, f in RELX:
        P13.append(dr('vf_%s_e%s' % (n, t), 'a:celem b:%s' % k, post=lambda s, f=f, val=val: [('exact answer', i1(s.ret) == f(s.a.val, val(s.b)))]))
        P13.append(dr('vf_%s_%se' % (n, t), 'a:%s b:celem' % k, post=lambda s, f=f, val=val: [('exact answer', i1(s.ret) == f(val(s.a), s.b.val))]))
for n, f in OPN:
    P13.append(dr('vf_%s_ee' % n, 'res:celem:init a:celem b:celem', pre=(lambda s: [('the divisor is not zero', s.b.val != 0)]) if n == 'div' else None,
       throws=lambda s: z3.Or(z3.BoolVal(mixed(s, s.a, s.b) and bool(s.c.ghost.get('env'))), z3.And(z3.BoolVal(s.a.f is not s.b.f), irr(s.a, s.b))),
       post=lambda s, f=f: [('exact result', s.n.res.val == f(s.a.val, s.b.val))]))
for n, f in RELX:
    P13.append(dr('vf_%s_ee' % n, 'a:celem b:celem', throws=lambda s: z3.And(z3.BoolVal(s.a.f is not s.b.f), irr(s.a, s.b)),
       post=lambda s, f=f: [('exact answer', i1(s.ret) == f(s.a.val, s.b.val))]))
