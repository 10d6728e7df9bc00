"""C++ layer: layout of renf_class / renf_elem_class, reference counts, exceptions, and the assumed contracts of the
C++ run time that the verified functions call."""
import z3
from .ir import Unsupported
from .core import *
from .core import addoff
from . import lib as L
from .lib import Z, A, lib, NfElem, Mpz, Ball, ball

SZ_CELEM, SZ_CFIELD = 88, 248
OFF_NF, OFF_RC, OFF_CACHE, OFF_A = 32, 232, 240, 8

class StdString(Obj):
    """std::string: identified by an abstract content"""
    size = 32
    def __init__(self, sid, tok=None, chars=None):
        self.sid, self.tok, self.chars = sid, tok, chars
    def same(self, o):
        return isinstance(o, StdString) and o.sid is self.sid

def mk_cfield(c, name, rational=False):
    from . import spec as S
    reg = c.region(name, 'param', SZ_CFIELD, name)
    reg.cfield = True
    reg.cells[0] = (StdString(name + '.name', S.mk_tok(c, 'string')), 32)
    S.mk_field(c, name, reg, OFF_NF)
    core = L.core(c, Ptr(reg, OFF_NF))
    if rational:
        c.assume(z3.And(core.lin, core.gamma == 1, L.CANON(0, 1)))
    rc = c.fresh(name + '.rc')
    c.assume(z3.And(rc >= 4, rc < (1 << 62)))
    reg.cells[OFF_RC] = (rc, 8)
    cache = c.region(name + '.cache', 'param', 8 + 3*SZ_CELEM, name + '.cache')
    cache.cells[0] = (3, 8)
    for i, v in enumerate((z3.RealVal(0), z3.RealVal(1), core.gamma)):
        mk_celem(c, '%s.cache%d' % (name, i), reg, cache, 8 + i*SZ_CELEM, v)
    reg.cells[OFF_CACHE] = (Ptr(cache, 8), 8)
    c.ghost.setdefault('cfields', {})[name] = reg
    return reg

def mk_celem(c, name, freg, reg=None, off=0, val=None):
    from . import spec as S
    reg = reg or c.region(name, 'param', SZ_CELEM, name)
    if freg is None:
        # moved from: no parent, the rest of the object is garbage
        reg.cells[off] = (NULL, 8)
        return Ptr(reg, off)
    reg.cells[off] = (Ptr(freg, 0), 8)
    p = S.mk_elem(c, name, L.core(c, Ptr(freg, OFF_NF)), 'in', reg, off + OFF_A)
    if val is not None:
        c.assume(reg.cells[off + OFF_A][0].val == val)
    return Ptr(reg, off)

def parent_ptr(c, p):
    q = c.load(p, ('ptr',), 8)
    if q is UNDEF:
        c.fail('parent pointer is not initialised')
    if isinstance(q, int) and q == 0:
        return NULL
    if not isinstance(q, Ptr):
        raise Unsupported('parent pointer %r' % (q,))
    if q.reg is None:
        return q
    if q.off != 0 or not getattr(q.reg, 'cfield', False):
        c.fail('parent pointer does not point to a number field')
    return q

def celem_view(c, p, v):
    q = parent_ptr(c, p)
    v.null = q.reg is None
    v.f = q.reg
    if not v.null:
        if not q.reg.alive:
            c.fail('an element refers to a destroyed field')
        v.core = L.core(c, Ptr(q.reg, OFF_NF))
        o = L.elem(c, Ptr(p.reg, addoff(p.off, OFF_A)))
        v.obj = o; v.val = o.val; v.nf = o.nf
        v.ball = ball(c, Ptr(p.reg, addoff(p.off, OFF_A + 32)))
    return v

def refs(c):
    return c.ghost.setdefault('rc', {})

def live_refs(c, reg):
    """references to the field known to be held: by the parameters on entry and by what was added since"""
    return refs(c).get(reg.key, 0)

def pinned(c, reg):
    return reg.key in c.ghost.get('pinned', ())

def add_ref(c, p):
    p = c.check_ptr(p, 'intrusive_ptr_add_ref')
    if p.off != 0 or not getattr(p.reg, 'cfield', False):
        raise Unsupported('add_ref of %r' % (p,))
    refs(c)[p.reg.key] = refs(c).get(p.reg.key, 0) + 1

def release(c, p):
    p = c.check_ptr(p, 'intrusive_ptr_release')
    if p.off != 0 or not getattr(p.reg, 'cfield', False):
        raise Unsupported('release of %r' % (p,))
    n = refs(c).get(p.reg.key, 0) - 1
    refs(c)[p.reg.key] = n
    if n < 0 or (n == 0 and not pinned(c, p.reg)):
        if n < 0:
            c.fail('a reference to the field is released that is not owned')
        # nothing known keeps this field: it may be destroyed now
        p.reg.alive = False
        p.reg.maybe_dead = True
        cp = p.reg.cells[OFF_CACHE][0]
        cp.reg.alive = False

# ------------------------------------------------------------------ run time
@lib('_ZN6eantic21intrusive_ptr_add_refEPKNS_10renf_classE')
def _(c, p): add_ref(c, p)
@lib('_ZN6eantic21intrusive_ptr_releaseEPKNS_10renf_classE')
def _(c, p): release(c, p)
@lib('_ZN6eantic10renf_class4makeEv')
def _(c):
    return Ptr(c.ghost['cfields']['Q'], 0)

@lib('__cxa_allocate_exception')
def _(c, n):
    r = c.region('exc', 'exc', None, 'exception')
    return Ptr(r, 0)
@lib('__cxa_free_exception')
def _(c, p): return None
@lib('__cxa_throw')
def _(c, p, ti, d):
    name = ti.reg.gname if isinstance(ti, Ptr) and ti.reg is not None else str(ti)
    raise CxxThrow(name)
@lib('__cxa_begin_catch')
def _(c, p):
    c.ghost.setdefault('caught', []).append(c.cur_exc)
    return p
@lib('__cxa_end_catch')
def _(c):
    return None
@lib('__cxa_rethrow')
def _(c):
    raise CxxThrow(c.cur_exc)
for _n in ('_ZNSt11logic_errorC1EPKc', '_ZNSt16invalid_argumentC1EPKc', '_ZNSt16invalid_argumentC2EPKc', '_ZNSt13runtime_errorC1EPKc', '_ZNSt12domain_errorC1EPKc', '_ZNSt12out_of_rangeC1EPKc'):
    A[_n] = lambda c, *a: None
A['_ZSt9terminatev'] = lambda c: c.aborted()
@lib('getenv')
def _(c, p):
    b = c.fresh('env', 'Bool')
    if c.decide(b):
        c.ghost['env'] = True
        return Ptr(c.region('env', 'extern', None, 'env'), 0)
    return NULL
@lib('__cxa_guard_acquire')
def _(c, p): return 1
@lib('__cxa_guard_release')
def _(c, p): c.store(p, 1, 1)
for _n in ('_Znwm', '_Znam'):
    A[_n] = L.A['malloc']
for _n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm'):
    A[_n] = lambda c, p, *n: L.A['free'](c, p)
@lib('__cxa_guard_abort')
def _(c, p): return None
A['_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc'] = lambda c, o, s: o
A['_ZNSolsEPFRSoS_E'] = lambda c, o, f: o

HASHB = z3.Function('HASHB', L.RealS, L.IntS)
@lib('_ZSt11_Hash_bytesPKvmm')
def _(c, p, n, seed):
    if n != 8:
        raise Unsupported('hash of %s bytes' % (n,))
    v = c.load(p, ('double',), 8)
    if not (is_sym(v) and z3.is_real(v)):
        raise Unsupported('hash of %r' % (v,))
    return HASHB(v)
