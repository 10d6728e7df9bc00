"""NUL-terminated strings.

A string in memory is an array of bytes.  What the contracts say about it is phrased with a few functions of (array, index) that are
defined by recursion on the index; the definition at i is made available (as a ground instance) when the byte at i is read.  The bytes
beyond the end of the allocation never matter, so they may be taken to be NUL, which makes the recursions well founded."""
import z3
from .ir import Unsupported
from .core import Ptr, Vec, NULL, UNDEF, R, is_sym, simp, unsigned, addoff, wrap
from . import core as C
from . import lib as L
from .lib import A, lib, Z, ArrS, IntS, RealS, BoolS, I64MAX

Str = z3.DeclareSort('Str')
F = z3.Function
CLASSES = {
    'SP': lambda b: b == 32,
    'SG': lambda b: z3.Or(b == 32, b == 43, b == 45),
    'DG': lambda b: z3.And(b >= 48, b <= 57),
    'DS': lambda b: z3.And(b >= 47, b <= 57),
    'NT': lambda b: z3.And(b != 0, b != 43, b != 45),
}
SKIP = {k: F('SKIP_' + k, ArrS, IntS, IntS) for k in CLASSES}      # first index >= i whose byte is not in the class
NUL = F('NUL', ArrS, IntS, IntS)                                  # first index >= i with a NUL byte
MINUS = F('MINUS', ArrS, IntS, BoolS)                             # odd number of minus signs in the run of signs and spaces at i
VART = F('VART', ArrS, IntS, BoolS)                               # letters, digits and underscores up to the end
SUBV = F('SUBV', ArrS, IntS, IntS, Str)                           # the text between two indices
QOK, QN, QD = F('QOK', Str, BoolS), F('QN', Str, IntS), F('QD', Str, IntS)    # the text is an integer or n/d; n; d
DVAL = F('DVAL', Str, IntS)                                       # value of a text of decimal digits
PREF = F('PREF', ArrS, IntS, ArrS, IntS, IntS, BoolS)             # the next n characters agree
ALPHA, ALNUM = F('ALPHA', IntS, BoolS), F('ALNUM', IntS, BoolS)   # letters and digits of the locale
CTF = F('CTF', IntS, IntS)                                        # entry of the character class table
# denotation of texts
MOK, MC, MP = F('MOK', Str, Str, BoolS), F('MC', Str, Str, RealS), F('MP', Str, Str, IntS)
TOK, DENV = F('TOK', ArrS, IntS, Str, BoolS), F('DENV', ArrS, IntS, Str, RealS, RealS)
MONV = F('MONV', RealS, IntS, RealS, RealS)                       # c * y^n
isdig = CLASSES['DG']

def monomial(a, v):
    """(is a monomial, coefficient, exponent) of the whole string a in the variable v: the grammar of the property"""
    n = NUL(v, 0)
    i = SKIP['SG'](a, 0)
    dig = isdig(a[i])
    b = z3.If(dig, SKIP['DS'](a, i), i)
    t = SUBV(a, i, b)
    sg = z3.If(MINUS(a, 0), z3.RealVal(-1), z3.RealVal(1))
    co = z3.If(dig, R(QN(t))/R(QD(t)), z3.RealVal(1))
    co = z3.If(MINUS(a, 0), -co, co)
    c1 = SKIP['SP'](a, b)
    const = a[c1] == 0
    d = z3.If(a[c1] == 42, SKIP['SP'](a, c1 + 1), c1)
    e = d + n
    f = SKIP['SP'](a, e)
    lin = z3.And(z3.Not(isdig(a[e])), a[f] == 0)
    g = z3.If(isdig(a[e]), e, SKIP['SP'](a, f + 1))
    h = SKIP['DG'](a, g)
    ex = DVAL(SUBV(a, g, h))
    power = z3.And(z3.Or(isdig(a[e]), a[f] == 94), isdig(a[g]), ex <= I64MAX, a[SKIP['SP'](a, h)] == 0)
    ok = z3.And(a[i] != 0, z3.Implies(dig, z3.And(QOK(t), QD(t) != 0)), z3.Or(const, z3.And(PREF(a, d, v, 0, n), z3.Or(lin, power))))
    return ok, co, z3.If(const, 0, z3.If(lin, 1, ex))

def define_monomial(c, arr, text):
    """the definition for the string arr, whose text is known under another name"""
    for v in c.ghost.get('vars', []):
        ok, co, p = monomial(arr, v)
        V = SUBV(v, 0, NUL(v, 0))
        # a character of the variable is not NUL
        n, c1 = NUL(v, 0), SKIP['SP'](arr, z3.If(isdig(arr[SKIP['SG'](arr, 0)]), SKIP['DS'](arr, SKIP['SG'](arr, 0)), SKIP['SG'](arr, 0)))
        d = z3.If(arr[c1] == 42, SKIP['SP'](arr, c1 + 1), c1)
        c.assume(z3.Implies(z3.And(n >= 1, PREF(arr, d, v, 0, n)), arr[d] != 0))
        c.assume(z3.And(MOK(text, V) == ok, z3.Implies(ok, z3.And(MC(text, V) == co, MP(text, V) == p))))

FACTS = {}
def facts(arr, i):
    k = (arr.get_id(), i.get_id())
    if k not in FACTS:
        FACTS[k] = (arr, i, z3.And(facts_(arr, i)))
    return FACTS[k][2]
def facts_(arr, i):
    b = arr[i]
    out = [NUL(arr, i) >= i, NUL(arr, i + 1) >= i + 1, NUL(arr, i) == z3.If(b == 0, i, NUL(arr, i + 1))]
    for k, f in CLASSES.items():
        s = SKIP[k]
        out += [s(arr, i) == z3.If(f(b), s(arr, i + 1), i), s(arr, i) >= i, s(arr, i) <= NUL(arr, i)]
    out.append(MINUS(arr, i) == z3.If(CLASSES['SG'](b), z3.Xor(b == 45, MINUS(arr, i + 1)), False))
    out.append(VART(arr, i) == z3.Or(b == 0, z3.And(z3.Or(ALNUM(b), b == 95), VART(arr, i + 1))))
    return out

def on_load(c, reg, i):
    arr, i = reg.vec.arr, Z(i)
    seen = c.ghost.setdefault('bytes', {}).setdefault(arr.get_id(), (arr, []))[1]
    if any(j.eq(i) for j in seen):
        return
    seen.append(i)
    c.assume_raw(facts(arr, i))
    if any(arr.eq(t) for t in c.ghost.get('texts', [])):
        st = SKIP['SP'](arr, i)
        en = SKIP['NT'](arr, SKIP['SG'](arr, st))
        m = SUBV(arr, st, en)
        for v in c.ghost['vars']:
            V, y = SUBV(v, 0, NUL(v, 0)), c.ghost['y0']
            c.assume_raw(TOK(arr, i, V) == z3.Or(arr[i] == 0, z3.And(MOK(m, V), TOK(arr, en, V))))
            c.assume_raw(DENV(arr, i, V, y) == z3.If(arr[i] == 0, z3.RealVal(0), MONV(MC(m, V), MP(m, V), y) + DENV(arr, en, V, y)))

def on_store(c, reg, old, i, val):
    """the string seen from the indices read so far after a byte is overwritten"""
    new, i = reg.vec.arr, Z(i)
    if isinstance(val, int) and val == 0:
        for j in [z3.IntVal(0)] + c.ghost.get('bytes', {}).get(old.get_id(), (None, []))[1]:
            c.assume_raw(z3.Implies(j <= i, z3.And(NUL(new, j) == z3.If(NUL(old, j) < i, NUL(old, j), i), SUBV(new, j, i) == SUBV(old, j, i))))
        for d, src, o, n in c.ghost.get('copies', []):
            if d.eq(old) and c.implied(Z(n) == i):
                text = SUBV(src, o, o + i)
                c.assume(z3.And(NUL(new, 0) == i, SUBV(new, 0, i) == text))
                define_monomial(c, new, text)
C.BYTE_LOAD, C.BYTE_STORE = on_load, on_store

def as_bytes(c, reg):
    n = reg.msize
    if reg.cells:
        raise Unsupported('mixed use of allocated memory')
    reg.vec = Vec('u8', 1, c.fresh_arr('bytes'), simp(unsigned(n, 64)) if is_sym(n) else n)
    reg.untyped = False

def string(c, p, what):
    p = c.check_ptr(p, what)
    if p.reg.vec is None and getattr(p.reg, 'untyped', False):
        as_bytes(c, p.reg)
    if p.reg.vec is None or p.reg.vec.kind != 'u8':
        raise Unsupported('%s of something that is not a byte array' % what)
    return p.reg, p.reg.vec.arr, Z(p.off)

def terminated(c, p, what):
    """index of the terminating NUL"""
    reg, arr, o = string(c, p, what)
    on_load(c, reg, o)
    n = NUL(arr, o)
    c.prove(z3.And(o >= 0, o <= n, n < Z(reg.vec.length)), '%s: the string is terminated inside its buffer' % what, 'mem')
    return arr, o, n

@lib('strlen')
def _(c, p):
    arr, o, n = terminated(c, p, 'strlen')
    return simp(n - o)

def copy(what):
    def f(c, d, s, n):
        n = Z(unsigned(n, 64)) if is_sym(n) else Z(n)
        dreg, darr, do = string(c, d, what)
        sreg, sarr, so = string(c, s, what)
        if dreg is sreg:
            raise Unsupported('copy within a buffer')
        if what == 'strncpy':
            on_load(c, sreg, so)
            c.prove(z3.And(so >= 0, z3.Or(NUL(sarr, so) < Z(sreg.vec.length), so + n <= Z(sreg.vec.length))), '%s: read inside the source' % what, 'mem')
        else:
            c.prove(z3.And(so >= 0, so + n <= Z(sreg.vec.length)), '%s: read inside the source' % what, 'mem')
        c.prove(z3.And(do >= 0, do + n <= Z(dreg.vec.length)), '%s: write inside the destination' % what, 'mem')
        new = c.fresh_arr('cpy')
        dreg.vec = dreg.vec.with_(arr=new)
        if simp(do == 0) is True and (what != 'strncpy' or c.implied(so + n <= NUL(sarr, so))):
            c.ghost.setdefault('copies', []).append((new, sarr, so, simp(n) if is_sym(simp(n)) else z3.IntVal(simp(n))))
        return d
    return f
A['strncpy'] = copy('strncpy')
byte_memcpy = copy('memcpy')

@lib('strncmp')
def _(c, p, q, n):
    a, o, e = terminated(c, p, 'strncmp')
    b, o2, e2 = terminated(c, q, 'strncmp')
    n = Z(unsigned(n, 64)) if is_sym(n) else Z(n)
    r = c.fresh('cmp'); c.assume(z3.And(r >= -(1 << 31), r < (1 << 31)))
    t = PREF(a, o, b, o2, n)
    c.assume((r == 0) == t)
    c.assume(z3.Implies(z3.And(t, n >= 0, n <= e2 - o2), z3.And(n <= e - o, NUL(a, o + n) == e)))
    return r

def ctype_facts(c, b):
    c.assume_raw(z3.And(ALPHA(b) == z3.And(ALNUM(b), z3.Not(isdig(b))), z3.Implies(isdig(b), ALNUM(b)), z3.Implies(ALNUM(b), b != 0)))
@lib('__ctype_b_loc')
def _(c):
    k = 'ctype'
    if k not in c.regions:
        t = c.region('ctype table', 'extern', None, 'character classes')
        t.ctype = True
        r = c.region(k, 'extern', 8, 'character classes')
        r.cells[0] = (Ptr(t, 0), 8)
    return Ptr(c.regions[k], 0)
def ctype_load(c, off):
    b = Z(simp(C.off_div(off, 2)) if is_sym(off) else off // 2)
    c.prove(z3.And(b >= -128, b <= 255), 'character class of a character', 'mem')
    ctype_facts(c, b)
    t = CTF(b)
    c.assume_raw(z3.And(t >= 0, t < 32768))
    return t
def ctype_bit(t, mask):
    """glibc's bits for digit, alpha and alnum in an entry of the table (an entry is not negative, see ctype_load)"""
    f = {2048: isdig, 1024: ALPHA, 8: ALNUM}.get(mask)
    if f is None or not z3.is_app(t):
        return None
    for u in [t] + (t.children()[1:] if t.decl().kind() == z3.Z3_OP_ITE else []):
        if z3.is_app(u) and u.decl().eq(CTF):
            return z3.If(f(u.arg(0)), z3.IntVal(mask), z3.IntVal(0))
    return None
C.CTYPE_LOAD, C.CTYPE_BIT = ctype_load, ctype_bit
def ctype_fn(f):
    def g(c, b):
        b = Z(b)
        ctype_facts(c, b)
        r = c.fresh('ct'); c.assume(z3.And(r >= 0, r < (1 << 31), (r != 0) == f(b)))
        return r
    return g
A['isdigit'], A['isalpha'], A['isalnum'] = ctype_fn(isdig), ctype_fn(ALPHA), ctype_fn(ALNUM)

@lib('__errno_location')
def _(c):
    if 'errno' not in c.regions:
        r = c.region('errno', 'extern', 4, 'errno')
        e = c.fresh('errno'); c.assume(z3.And(e >= 0, e < 4096))
        r.cells[0] = (e, 4)
    return Ptr(c.regions['errno'], 0)

@lib('strtol', '__isoc23_strtol')
def _(c, p, endp, base):
    arr, o, n = terminated(c, p, 'strtol')
    if not (isinstance(base, int) and base == 10):
        raise Unsupported('strtol in another base')
    e = A['__errno_location'](c)
    r, end, er = c.fresh('num'), c.fresh('end'), c.fresh('errno')
    v = DVAL(SUBV(arr, o, SKIP['DG'](arr, o)))
    old = Z(c.load(e, ('i', 32), 4))
    c.assume(z3.And(r >= -I64MAX - 1, r <= I64MAX, end >= o, end <= n, er >= 0, er < 4096, v >= 0, NUL(arr, end) == n))
    c.assume(z3.Implies(isdig(arr[o]), z3.And(end == SKIP['DG'](arr, o), z3.If(v <= I64MAX, z3.And(r == v, er == old), z3.And(r == I64MAX, er == 34)))))
    if isinstance(endp, Ptr) and endp.reg is not None:
        c.store(endp, Ptr(p.reg, end), 8)
    c.store(e, er, 4)
    return r

@lib('fmpq_set_str')
def _(c, p, s, base):
    arr, o, n = terminated(c, s, 'fmpq_set_str')
    if not (isinstance(base, int) and base == 10):
        raise Unsupported('fmpq_set_str in another base')
    t = SUBV(arr, o, n)
    L.rd_z(c, p), L.rd_z(c, L.den(p))
    num, den, r = c.fresh('sn'), c.fresh('sd'), c.fresh('ret')
    # on success the fraction as written (not reduced, the denominator may be zero), otherwise anything
    c.assume(z3.And(z3.Or(r == 0, r == -1), (r == 0) == QOK(t), z3.Implies(r == 0, z3.And(num == QN(t), den == QD(t)))))
    c.assume(z3.Implies(isdig(arr[o]), QD(t) >= 0))
    L.wr_z(c, p, num); L.wr_z(c, L.den(p), den)
    return r

def pointers(c, fr, ls, key_mod):
    """(name, array, index, index at loop entry) of the string pointers a loop changes"""
    out = []
    for m in sorted(key_mod, key=str):
        if m[0] == 'phi' and isinstance(fr.env.get(m[1]), Ptr):
            v, e = fr.env[m[1]], ls.entry_phi.get(m[1])
        elif m[0] == 'cell' and m[1] in c.regions and m[2] in c.regions[m[1]].cells and isinstance(c.regions[m[1]].cells[m[2]][0], Ptr):
            v, e = c.regions[m[1]].cells[m[2]][0], ls.entry_cell.get((m[1], m[2]))
        else:
            continue
        if isinstance(e, Ptr) and v.reg is e.reg and v.reg is not None and v.reg.vec is not None and v.reg.vec.kind == 'u8':
            out.append(('%s' % (m[1:],), v.reg.vec.arr, Z(v.off), Z(e.off)))
    return out

def templates(c, fr, ls, ents):
    out = []
    for n, arr, x, e in pointers(c, fr, ls, ls.modset):
        out += [('%s advances' % n, x >= e), ('%s in its string' % n, z3.And(x <= NUL(arr, x), NUL(arr, x) == NUL(arr, e)))]
        for k, f in SKIP.items():
            out.append(('%s skips %s' % (n, k), f(arr, x) == f(arr, e)))
            out.append(('next of %s skips %s' % (n, k), f(arr, x + 1) == f(arr, e + 1)))
        out.append(('next of %s in its string' % n, z3.And(x + 1 <= NUL(arr, x + 1), NUL(arr, x + 1) == NUL(arr, e + 1))))
        out.append(('%s sign' % n, MINUS(arr, x) == MINUS(arr, e)))
        for m, v, w in ents:
            out.append(('%s sign in %s' % (n, m), z3.And(z3.Or(v == 1, v == -1), z3.Xor(v == -1, MINUS(arr, x)) == z3.Xor(w == -1, MINUS(arr, e)))))
        out.append(('%s variable' % n, VART(arr, x) == VART(arr, e)))
        if any(arr.eq(t) for t in c.ghost.get('texts', [])):
            y = c.ghost['y0']
            for v in c.ghost['vars']:
                V = SUBV(v, 0, NUL(v, 0))
                out.append(('%s rest is fine' % n, TOK(arr, x, V) == TOK(arr, 0, V)))
                for k, val in polyvals(c, y, ls.modset):
                    out.append(('%s rest and %s' % (n, k), val + DENV(arr, x, V, y) == DENV(arr, 0, V, y)))
    for k, val in polyvals(c, c.ghost.get('y0'), ls.modset):
        out.append(('%s is zero' % k, val == 0))
    for m, v, w in [t for t in ents if ('phi', t[0]) in ls.modset]:
        for k, reg, o in structs(c, ls.modset):
            P, n = reg.cells[o][0].reg.vec.arr, Z(reg.cells[o+16][0])
            out += [('%s+%s from %s' % (k, o, m), L.LOWC(P, n) > v), ('%s+%s up to %s' % (k, o, m), n <= v)]
            for k2, r2, o2 in structs(c, None):
                if r2.cells[o2][0].reg is reg.cells[o][0].reg or 'y0' not in c.ghost:
                    continue
                Q, d, y = r2.cells[o2][0].reg.vec.arr, Z(r2.cells[o2+16][0]), c.ghost['y0']
                part(c, Q, v, d, y); part(c, Q, v + 1, d, y)
                out.append(('%s+%s upper part of %s+%s at %s' % (k, o, k2, o2, m), L.H(P, 0, n, y) == PARTH(Q, v + 1, d, y)))
                out.append(('%s+%s lower part of %s+%s at %s' % (k, o, k2, o2, m), L.H(P, 0, n, y) + PARTH(Q, v, d, y) == L.H(Q, 0, d, y)))
    for k, reg, o in structs(c, ls.modset):
        al, ln = Z(reg.cells[o+8][0]), Z(reg.cells[o+16][0])
        vr = reg.cells[o][0].reg
        out.append(('%s+%s allocation' % (k, o), z3.And(al == Z(vr.vec.length), ln <= al, ln >= 0)))
        out.append(('%s+%s normalised' % (k, o), z3.Implies(ln > 0, vr.vec.arr[ln-1] != 0)))
        out.append(('%s+%s empty' % (k, o), ln == 0))
        d = reg.cells.get(o + 24)
        if d and isinstance(d[0], L.Fmpz):
            out.append(('%s+%s denominator' % (k, o), Z(d[0].v) > 0))
            if 'y0' in c.ghost:
                out.append(('%s+%s canonical' % (k, o), Z(d[0].v) == L.DENP(L.H(vr.vec.arr, 0, ln, c.ghost['y0'])/R(d[0].v))))
    return out

PARTH = F('PARTH', ArrS, IntS, IntS, RealS, RealS)        # sum of Q[j]*y^j for v <= j < d
def part(c, Q, v, d, y):
    c.assume_raw(z3.And(PARTH(Q, 0, d, y) == L.H(Q, 0, d, y), z3.Implies(v >= d, PARTH(Q, v, d, y) == 0),
                        z3.Implies(z3.And(v >= 0, v < d), PARTH(Q, v, d, y) == MONV(R(Q[v]), v, y) + PARTH(Q, v + 1, d, y))))

def structs(c, mod):
    for k, r in c.regions.items():
        if r.alive and r.vec is None:
            for o, (v, z) in list(r.cells.items()):
                if isinstance(v, Ptr) and v.reg is not None and v.reg.vec is not None and v.reg.vec.kind == 'fmpz' and v.off == 0 and isinstance(o, int) and o + 8 in r.cells and o + 16 in r.cells and (mod is None or any(('cell', k, o + d) in mod for d in (8, 16, 24))):
                    yield k, r, o

def polyvals(c, y, mod):
    out = []
    if y is None:
        return out
    for k, r, o in structs(c, mod):
        vr = r.cells[o][0].reg
        h = L.H(vr.vec.arr, 0, Z(r.cells[o+16][0]), y)
        d = r.cells.get(o + 24)
        if d and isinstance(d[0], L.Fmpz):
            h = h/R(d[0].v)
        out.append(('%s+%s' % (k, o), h))
    return out
