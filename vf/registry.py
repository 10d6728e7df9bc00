"""The registry of fields (libeantic/srcxx/renf_class.cpp): contracts of renf_class::make(renf_t, name), intrusive_ptr_add_ref,
intrusive_ptr_release and of the hash and equality of the registry.  Here reference counts are the real atomic counters in
memory (everywhere else they are counted as ghost state).

std::unordered_set is used through an assumed contract: find/insert/erase agree with the equality functor of the set (whose
body is executed for the entry in question), provided that equal keys have equal hashes (an obligation of its own).
The set is an arbitrary one: M is an arbitrary entry of it, the others are brought in when they are found.
Invariant: no two entries are equal, every entry is alive and is referred to by its own three cached elements and by
at least one other reference."""
import z3, re
from .ir import Unsupported
from .core import *
from . import lib as L, cxx as X, spec as S
from .lib import Z, A, lib

STRLEN = z3.Function('STRLEN', L.IntS, L.IntS)

def content(c, p):
    o = p.reg.cells.get(p.off)
    if o is None or not isinstance(o[0], X.StdString):
        c.fail('not a string')
    return o[0].content

def mathkey(c, freg, off=X.OFF_NF):
    return S.view(c, 'field', Ptr(freg, off), 'in')

def same(c, a, na, b, nb):
    """the same field with the same name"""
    f = z3.And(L.SAMEPOLY(a.pol.arr, Z(a.pol.len), a.den, b.pol.arr, Z(b.pol.len), b.den), a.gamma == b.gamma, na == nb)
    return f

def samepoly_axioms(c, vs):
    """SAMEPOLY is an equivalence relation (instances for the polynomials in scope)"""
    sp = lambda x, y: L.SAMEPOLY(x.pol.arr, Z(x.pol.len), x.den, y.pol.arr, Z(y.pol.len), y.den)
    for x in vs:
        c.assume(sp(x, x))
        for y in vs:
            if x is y:
                continue
            c.assume(sp(x, y) == sp(y, x))
            c.assume(z3.Implies(z3.And(x.pol.arr == y.pol.arr, Z(x.pol.len) == Z(y.pol.len), x.den == y.den), sp(x, y)))
            for z in vs:
                if z is not x and z is not y:
                    c.assume(z3.Implies(z3.And(sp(x, y), sp(y, z)), sp(x, z)))

class Registry:
    def __init__(self):
        self.members = []      # known entries, in the set
        self.known = []        # fields whose identity is known (entries and others)
        self.absent = set()
        self.nodes = {}

def reg_of(c):
    r = c.ghost.get('registry')
    if r is None:
        raise Unsupported('access to the registry of fields')
    return r

def heap_field(c, name):
    """a field created by make: alive, on the heap, its cache filled, referred to by the cache and by at least one more reference"""
    r = X.mk_cfield(c, name)
    r.kind = 'heap'
    r.tok = S.mk_tok(c, 'field object')
    cache = r.cells[X.OFF_CACHE][0].reg
    cache.kind = 'heap'
    cache.tok = S.mk_tok(c, 'cache')
    r.cells[0][0].content = c.fresh(name + '.name')
    return r

def toks_of(r):
    """all resources that belong to a field object"""
    out = [r.tok]
    cache = r.cells[X.OFF_CACHE][0].reg
    out.append(cache.tok)
    for reg in (r, cache):
        for b, (v, s) in reg.cells.items():
            if isinstance(v, Obj) and v.tok is not None:
                out.append(v.tok)
            if isinstance(v, Ptr) and v.reg is not None and v.reg is not r and v.reg.tok is not None:
                out.append(v.reg.tok)
    return list(dict.fromkeys(out))

def node(c, r):
    st = reg_of(c)
    if r.key not in st.nodes:
        n = c.region('node', 'extern', 24, 'node')
        n.cells[8] = (Ptr(r, 0), 8)
        st.nodes[r.key] = n
    return Ptr(st.nodes[r.key], 0)

def axioms(c, extra=()):
    st = reg_of(c)
    vs = [mathkey(c, r) for r in st.known if r.alive] + list(extra) + c.ghost.get('regkeys', [])
    samepoly_axioms(c, vs)
    return vs

def lookup(c, eqname, key):
    st = reg_of(c)
    if not c.ghost.get('locked'):
        c.fail('the registry is used without holding its mutex', 'post')
    f = c.prog.find(eqname)
    if f is None:
        raise Unsupported('equality of the registry: %s' % eqname)
    this = Ptr(c.region('eq', 'extern', 1, 'eq'), 0)
    if key.reg not in st.known:
        st.known.append(key.reg)
    axioms(c)
    def eq(m):
        c.eqn = getattr(c, 'eqn', 0) + 1
        r = c.call_ir(f, [this, Ptr(m, 0), key], 'eq%d' % c.eqn)
        return toB(r)
    for m in st.members:
        if c.decide(eq(m)):
            return m
    if key.reg.key in st.absent:
        return None
    if c.decide(c.fresh('elsewhere', 'Bool')):
        n = heap_field(c, 'N%d' % len(st.known))
        st.known.append(n)
        axioms(c)
        kn = mathkey(c, n)
        for m in st.members:
            c.assume(z3.Not(same(c, kn, n.cells[0][0].content, mathkey(c, m), m.cells[0][0].content)))
        st.members.append(n)
        c.ghost['rc0'][n.key] = Z(n.cells[X.OFF_RC][0])
        c.ghost['toks0'][n.key] = toks_of(n)
        c.assume(eq(n))
        return n
    st.absent.add(key.reg.key)
    return None

def keyarg(c, p):
    p = c.load(p, ('ptr',), 8)
    p = c.check_ptr(p, 'key of the registry')
    if p.off != 0:
        raise Unsupported('key of the registry')
    return p

SETCALL = re.compile(r'^(?:std::pair<.*?, bool> )?std::unordered_set<eantic::renf_class const\*, (.*), (.*), std::allocator<eantic::renf_class const\*> ?>::(~?\w+)(?:<.*>)?\((.*)\)( const)?$')
def set_call(c, dem, args):
    m = SETCALL.match(dem)
    if not m:
        raise Unsupported('call of %s' % dem[:120])
    eqd = '%s::operator()(eantic::renf_class const*, eantic::renf_class const*) const' % m.group(2)
    eqname = c.prog.dem.get(eqd)
    op, par = m.group(3), m.group(4)
    c.vrun.assumed.add('std::unordered_set::%s (agrees with the equality of the set)' % op)
    st = reg_of(c)
    if not (isinstance(args[0], Ptr) and args[0].reg.kind == 'global'):
        raise Unsupported('a set of fields that is not the registry')
    if c.ghost.setdefault('theset', args[0].reg) is not args[0].reg:
        raise Unsupported('two sets of fields')
    if op in ('end', 'cend'):
        return NULL
    if op in ('find', 'count', 'contains'):
        r = lookup(c, eqname, keyarg(c, args[1]))
        if op == 'find':
            return NULL if r is None else node(c, r)
        return (0 if r is None else 1)
    if op in ('insert', 'emplace') and par in ('eantic::renf_class const* const&', 'eantic::renf_class const*&&', 'eantic::renf_class const*&'):
        k = keyarg(c, args[1])
        r = lookup(c, eqname, k)
        if r is None:
            st.members.append(k.reg)
            return [node(c, k.reg), 1]
        return [node(c, r), 0]
    if op == 'erase':
        if par == 'eantic::renf_class const* const&':
            r = lookup(c, eqname, keyarg(c, args[1]))
            if r is None:
                return 0
            st.members.remove(r)
            return 1
        p = c.check_ptr(args[1], 'iterator')
        for k, n in st.nodes.items():
            if n is p.reg:
                r = next(x for x in st.known if x.key == k)
                if r not in st.members:
                    c.fail('erase of an entry that is not in the registry', 'mem')
                st.members.remove(r)
                return NULL
        raise Unsupported('iterator')
    raise Unsupported('call of unordered_set::%s' % op)

# ------------------------------------------------------------------ run time
@lib('pthread_mutex_lock')
def _(c, p):
    if c.ghost.get('locked'):
        c.fail('deadlock: the mutex of the registry is locked twice', 'post')
    c.ghost['locked'] = True
    return 0
@lib('pthread_mutex_unlock')
def _(c, p):
    if not c.ghost.get('locked'):
        c.fail('unlock of a mutex that is not locked', 'post')
    c.ghost['locked'] = False
    return 0
A['_ZL18__gthread_active_pv'] = lambda c: 1

STR = 'NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
def string_at(c, p, what='string'):
    p = c.check_ptr(p, what)
    o = p.reg.cells.get(p.off)
    if o is None or not isinstance(o[0], X.StdString):
        c.fail('use of a string that is not initialised')
    if o[0].tok is not None and not o[0].tok.alive:
        c.fail('use of a destroyed string')
    if getattr(o[0], 'content', None) is None:
        raise Unsupported('string without content')
    return o[0]
def new_string(c, p, content):
    p = c.check_ptr(p, 'string')
    c.purge(p.reg, p.off, 32)
    o = X.StdString('str', c.newtok('string'))
    o.content = content
    p.reg.cells[p.off] = (o, 32)
for _n in ('C1ERKS4_', 'C2ERKS4_'):
    A['_ZN' + STR[1:] + _n] = lambda c, p, q: new_string(c, p, string_at(c, q).content)
def _dtor(c, p):
    o = string_at(c, p)
    o.tok.alive = False
    del p.reg.cells[p.off]
for _n in ('D1Ev', 'D2Ev'):
    A['_ZN' + STR[1:] + _n] = _dtor
def _streq(c, p, q):
    return string_at(c, p).content == string_at(c, q).content
A['_ZSteqIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EESA_'] = _streq
def _size(c, p):
    n = STRLEN(string_at(c, p).content)
    c.assume(z3.And(n >= 0, n < (1 << 40)))
    return n
for _n in ('4sizeEv', '6lengthEv'):
    A['_ZNK' + STR[1:] + _n] = _size

# ------------------------------------------------------------------ contracts
def begin(c, *names):
    st = c.ghost['registry'] = Registry()
    c.ghost['realrc'] = True
    c.ghost['locked'] = False
    c.ghost['rc0'], c.ghost['toks0'] = {}, {}
    X.mk_cfield(c, 'Q', True)
    for n in names:
        r = heap_field(c, n)
        st.members.append(r); st.known.append(r)
        c.ghost['rc0'][r.key] = Z(r.cells[X.OFF_RC][0])
        c.ghost['toks0'][r.key] = toks_of(r)
    vs = axioms(c)
    for i, a in enumerate(st.members):
        for j, b in enumerate(st.members[:i]):
            c.assume(z3.Not(same(c, vs[i], a.cells[0][0].content, vs[j], b.cells[0][0].content)))
    c.ghost['f0'] = {r.key: (v, r.cells[0][0].content) for r, v in zip(st.known, vs)}
    return st

def rc(r):
    return Z(r.cells[X.OFF_RC][0])

def frame(c, r, what):
    """a field that stays: nothing observable changes"""
    o, name = c.ghost['f0'][r.key]
    c.prove(r.alive and all(t.alive for t in c.ghost['toks0'][r.key]), '%s stays alive' % what, 'post')
    if not r.alive:
        return
    v = mathkey(c, r)
    c.prove(v.core is o.core and v.pol.arr.eq(o.pol.arr) and z3.simplify(Z(v.pol.len) == Z(o.pol.len)), '%s keeps its polynomial' % what, 'frame')
    c.prove(v.prec == o.prec, '%s keeps its precision' % what, 'frame')
    c.prove(r.cells[0][0].content == name, '%s keeps its name' % what, 'frame')
    c.prove(z3.And(v.ball.has(v.gamma), v.ball.fin(), S.ball_sub(v.ball, o.ball)), '%s keeps its root' % what, 'encl')
    cache_ok(c, r, what, 'frame')

def cache_ok(c, r, what, cls='post'):
    q = r.cells[X.OFF_CACHE][0]
    g = mathkey(c, r).gamma
    for i, (w, x) in enumerate((('zero', z3.RealVal(0)), ('one', z3.RealVal(1)), ('the generator', g))):
        e = S.View()
        e = X.celem_view(c, Ptr(q.reg, q.off + 88*i), e)
        c.prove(e.f is r, 'cached element %d of %s belongs to it' % (i, what), cls)
        c.prove(e.val == x, 'cached element %d of %s is %s' % (i, what, w), cls)
        c.prove(e.ball.has(e.val), 'cached element %d of %s: enclosure contains its value' % (i, what), 'encl')

def no_leak(c, keep):
    held = set()
    for r in keep:
        S.mark_held(c, r, held)
    left = [t for t in c.toks if t.alive and t not in held]
    c.prove(not left, 'everything allocated is released%s' % (' (%s)' % left[0].what if left else ''), 'mem')

def run_make(c, sp, fn, part):
    st = begin(c, 'M')
    M = st.members[0]
    k = S.mk_field(c, 'k')
    kv = S.view(c, 'field', k, 'in')
    c.ghost['regkeys'] = [kv]
    axioms(c)
    kball, kpol = kv.ball, kv.pol.arr
    name = c.region('name', 'param', 32, 'name')
    s = X.StdString('name', S.mk_tok(c, 'string')); s.content = c.fresh('name')
    name.cells[0] = (s, 32)
    nm = s.content
    # a field object may share the enclosure: roots of equal polynomials in one ball agree
    out = c.region('result', 'param', 8, 'result')
    ismember = same(c, mathkey(c, M), M.cells[0][0].content, kv, nm)
    c.call_ir(fn, [Ptr(out, 0), k, Ptr(name, 0)], fn.name)
    c.line = None
    if c.vrun.discovery:
        return
    R_ = c.load(Ptr(out, 0), ('ptr',), 8)
    c.prove(isinstance(R_, Ptr) and R_.reg is not None and R_.reg.alive and R_.off == 0, 'returns a live field', 'post')
    r = R_.reg
    c.prove(r in st.members, 'the result is registered', 'post')
    c.prove(not c.ghost['locked'], 'the mutex is released', 'post')
    axioms(c)
    rv, rn = mathkey(c, r), r.cells[0][0].content
    c.prove(same(c, rv, rn, kv, nm), 'the result is the given field with the given name', 'post')
    c.prove(z3.Implies(ismember, z3.BoolVal(r is M)), 'a registered equal field is returned itself', 'post')
    c.prove(M in st.members, 'every registered field stays registered', 'post')
    if r is not M:
        c.prove(z3.Not(same(c, mathkey(c, M), M.cells[0][0].content, rv, rn)), 'registered fields are pairwise different', 'post')
    frame(c, M, 'a registered field')
    for m in st.members:
        if m.key in c.ghost['rc0']:
            c.prove(rc(m) == c.ghost['rc0'][m.key] + (1 if m is r else 0), 'the references of a registered field are counted', 'refs')
            c.prove(all(t.alive for t in c.ghost['toks0'][m.key]), 'a registered field stays alive', 'post')
        else:
            c.prove(m is r, 'only the result is added to the registry', 'post')
            c.prove(rc(m) == 4, 'a new field has its own three references and the one returned', 'refs')
            r.cfield = True
            S.field_inv(c, Ptr(r, X.OFF_NF), 'new field')
            c.prove(rv.prec == kv.prec, 'the default precision of the given field', 'post')
            cache_ok(c, r, 'the new field')
    c.prove(all(t.alive for t in [s.tok]) and name.cells.get(0, (None,))[0] is s, 'the name is unchanged', 'frame')
    kw = S.view(c, 'field', k, 'in')
    c.prove(kw.core is kv.core and kw.pol.arr.eq(kpol) and S.ball_same(kw.ball, kball), 'the given field is unchanged', 'frame')
    no_leak(c, [r])
    c.vrun.covered_exit(c)

def run_addref(c, sp, fn, part):
    st = begin(c, 'M')
    M = st.members[0]
    c.call_ir(fn, [Ptr(M, 0)], fn.name)
    c.line = None
    if c.vrun.discovery:
        return
    c.prove(rc(M) == c.ghost['rc0'][M.key] + 1, 'one more reference', 'refs')
    c.prove(M in st.members, 'stays registered', 'post')
    frame(c, M, 'the field')
    no_leak(c, [])
    c.vrun.covered_exit(c)

def run_release(c, sp, fn, part):
    st = begin(c, 'M', 'O')
    M, O = st.members
    n0 = c.ghost['rc0'][M.key]
    c.maydie.update(c.ghost['toks0'][M.key])
    c.call_ir(fn, [Ptr(M, 0)], fn.name)
    c.line = None
    if c.vrun.discovery:
        return
    c.prove(not c.ghost['locked'], 'the mutex is released', 'post')
    c.prove(O in st.members, 'other fields stay registered', 'post')
    frame(c, O, 'another field')
    c.prove(rc(O) == c.ghost['rc0'][O.key], 'references of other fields are unchanged', 'refs')
    gone = not any(t.alive for t in c.ghost['toks0'][M.key])
    alive = all(t.alive for t in c.ghost['toks0'][M.key])
    last = (n0 == 4)
    c.prove(gone or alive, 'a field is destroyed completely or not at all', 'mem')
    c.prove(z3.Implies(last, z3.BoolVal(gone)), 'a field is destroyed with the last reference to it', 'post')
    c.prove(z3.Implies(z3.Not(last), z3.BoolVal(alive)), 'a field is not destroyed while it is referred to', 'post')
    c.prove((M in st.members) == (not gone), 'exactly the fields that are alive are registered', 'post')
    if alive:
        c.prove(rc(M) == n0 - 1, 'one reference less', 'refs')
        frame(c, M, 'the field')
    no_leak(c, [])
    c.vrun.covered_exit(c)

def run_eq(c, sp, fn, part):
    st = begin(c, 'A')
    a = st.members[0]
    b = heap_field(c, 'B') if not part else a
    if not part:
        st.known.append(b)
        c.ghost['f0'][b.key] = (mathkey(c, b), b.cells[0][0].content)
        c.ghost['rc0'][b.key] = rc(b); c.ghost['toks0'][b.key] = toks_of(b)
    axioms(c)
    want = same(c, mathkey(c, a), a.cells[0][0].content, mathkey(c, b), b.cells[0][0].content)
    r = c.call_ir(fn, [Ptr(c.region('eq', 'extern', 1, 'eq'), 0), Ptr(a, 0), Ptr(b, 0)], fn.name)
    c.line = None
    if c.vrun.discovery:
        return
    c.prove((toB(r) if not z3.is_int(r) else r != 0) == want, 'true exactly for the same polynomial, root and name', 'post')
    for x in (a, b):
        frame(c, x, 'the field')
        c.prove(rc(x) == c.ghost['rc0'][x.key], 'references are unchanged', 'refs')
    no_leak(c, [])
    c.vrun.covered_exit(c)

def run_hash(c, sp, fn, part):
    st = begin(c, 'A')
    a = st.members[0]
    b = heap_field(c, 'B')
    st.known.append(b)
    c.ghost['f0'][b.key] = (mathkey(c, b), b.cells[0][0].content)
    c.ghost['rc0'][b.key] = rc(b); c.ghost['toks0'][b.key] = toks_of(b)
    axioms(c)
    va, vb = mathkey(c, a), mathkey(c, b)
    c.assume(same(c, va, a.cells[0][0].content, vb, b.cells[0][0].content))
    c.assume(Z(va.pol.len) == Z(vb.pol.len))
    h = []
    for x in (a, b):
        h.append(c.call_ir(fn, [Ptr(c.region('hash', 'extern', 1, 'hash'), 0), Ptr(x, 0)], '%s/%s' % (fn.name, x.key)))
    c.line = None
    if c.vrun.discovery:
        return
    c.prove(Z(h[0]) == Z(h[1]) if not isinstance(h[0], Ptr) and not isinstance(h[1], Ptr) else False, 'equal fields have equal hashes', 'post')
    for x in (a, b):
        frame(c, x, 'the field')
        c.prove(rc(x) == c.ghost['rc0'][x.key], 'references are unchanged', 'refs')
    no_leak(c, [])
    c.vrun.covered_exit(c)

ANON = 'eantic::(anonymous namespace)::'
F = 'eantic::renf_class const*'
SPECS = {}
def reg(dem, f, cases=({},)):
    sp = S.Spec(dem, '', cxx=True, inline=True, dem=dem, custom=f, cases=list(cases))
    SPECS[dem] = sp
    return sp
P16 = [
 reg('eantic::renf_class::make(renf const*, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&)', run_make),
 reg('eantic::intrusive_ptr_add_ref(%s)' % F, run_addref),
 reg('eantic::intrusive_ptr_release(%s)' % F, run_release),
 reg(ANON + 'fields_equality::operator()(%s, %s) const' % (F, F), run_eq, [{}, {'same': 'object'}]),
 reg(ANON + 'fields_hasher::operator()(%s) const' % F, run_hash),
]
