"""The program under verification: LLVM IR of /repo's current sources, produced by clang on every run."""
import os, subprocess, glob, concurrent.futures, re, shutil
from .ir import Module, Unsupported
from .core import *
from . import lib as L
from . import spec as S

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
OPT = '/usr/lib/llvm-18/bin/opt'

REFS = ('_ZN6eantic21intrusive_ptr_add_refEPKNS_10renf_classE', '_ZN6eantic21intrusive_ptr_releaseEPKNS_10renf_classE')

class BuildError(Exception):
    pass

def prepare_headers(out):
    """local.h comes from configure (@libdir@ only); config.generated.h is the sandbox's, kept in vf/hdr"""
    hd = os.path.join(out, 'hdr', 'e-antic')
    os.makedirs(hd, exist_ok=True)
    t = open(os.path.join(REPO, 'libeantic', 'e-antic', 'local.h.in')).read()
    open(os.path.join(hd, 'local.h'), 'w').write(t.replace('@libdir@', '/usr/lib'))
    shutil.copy(os.path.join(HERE, 'hdr', 'config.generated.h'), hd)

def cflags(out):
    inc = os.path.join(out, 'hdr')
    return ['-DHAVE_CONFIG_H', '-DBUILD_LIBEANTIC', '-I' + os.path.join(inc, 'e-antic'), '-I' + inc, '-I' + os.path.join(REPO, 'libeantic', 'src'),
            '-I' + os.path.join(REPO, 'libeantic', 'upstream', 'cereal'), '-I' + os.path.join(REPO, 'libeantic')]

def c_sources():
    return sorted(glob.glob(os.path.join(REPO, 'libeantic', 'src', '**', '*.c'), recursive=True))

def cxx_sources():
    return sorted(glob.glob(os.path.join(REPO, 'libeantic', 'srcxx', '**', '*.cpp'), recursive=True)) + [os.path.join(HERE, 'driver.cpp')]

def gen_ir(src, dst, flags):
    cxx = src.endswith('.cpp')
    cc = ['clang++-18', '-std=c++17'] if cxx else ['clang-18']
    cmd = cc + flags + ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-g1', '-w', '-S', '-emit-llvm', src, '-o', '-']
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise BuildError('%s: %s' % (src, p.stderr.decode()[-2000:]))
    q = subprocess.run([OPT, '-passes=mem2reg', '-S', '-o', dst], input=p.stdout, stderr=subprocess.PIPE)
    if q.returncode:
        raise BuildError('%s: %s' % (src, q.stderr.decode()[-2000:]))
    return dst

class Program:
    def __init__(self, out, cxx=False):
        os.makedirs(out, exist_ok=True)
        prepare_headers(out)
        fl = cflags(out)
        srcs = c_sources() + (cxx_sources() if cxx else [])
        self.mods = {}
        self.index = {}
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            futs = []
            for s in srcs:
                rel = 'driver.cpp' if s.startswith(HERE) else os.path.relpath(s, os.path.join(REPO, 'libeantic'))
                futs.append((rel, ex.submit(gen_ir, s, os.path.join(out, rel.replace('/', '__') + '.ll'), fl)))
            for rel, f in futs:
                path = f.result()
                m = Module(open(path).read(), rel)
                m.rel = rel
                self.mods[rel] = m
        for rel, m in self.mods.items():
            for n, f in m.funcs.items():
                if f.name not in self.index or not getattr(f, 'internal', False):
                    self.index.setdefault(n, m)
        self.aliases = {a: t for m in self.mods.values() for a, t in m.aliases.items()}
        self.nsrc = len(srcs)
        if cxx:
            self.resolve_cxx()
    def resolve_cxx(self):
        """C++ contracts are keyed by the demangled signature"""
        syms = sorted({n for m in self.mods.values() if m.rel.endswith('.cpp') for n in m.funcs})
        out = subprocess.run(['c++filt'], input='\n'.join(syms), stdout=subprocess.PIPE, text=True).stdout.split('\n')
        self.dem = {}
        self.demof = dict(zip(syms, out))
        for n, d in zip(syms, out):
            f = self.find(n)
            if f is not None and (d not in self.dem or 'C2' in n or 'D2' in n):
                self.dem[d] = n
        for sp in S.CXXSPECS:
            n = self.dem.get(sp.dem)
            sp.symbol = n or sp.name
    def find(self, name):
        m = self.index.get(name)
        return m.funcs[name] if m else None
    # ---------- hooks used by the executor
    def call(self, c, mod, name, args, key, ins):
        while name in self.aliases:
            name = self.aliases[name]
        mname = name
        if name.startswith('llvm.'):
            return self.intrinsic(c, name, args)
        sp = S.SPECS.get(name)
        if sp is not None and not sp.inline and (not sp.optional or len(args) == len(sp.params)):
            c.vrun.called.add(name)
            if sp.assumed:
                c.vrun.assumed.add(name + ' (function of the repository whose body is not verified; bounded replay only)')
            for lab in sp.trust:
                c.vrun.assumed.add('%s: postcondition "%s" (not proved from the body; bounded replay only)' % (name, lab))
            return S.apply(c, sp, args, key)
        f = L.A.get(name)
        if c.ghost.get('realrc') and name in REFS:
            f = None
        if name.startswith('_ZNSt13unordered_setIPKN6eantic10renf_class') or name.startswith('_ZNKSt13unordered_setIPKN6eantic10renf_class'):
            from . import registry
            return registry.set_call(c, self.demof[name], args)
        if f is None and name.startswith('_ZL'):
            # static inline functions of the C headers, seen by a C++ compiler
            m = re.match(r'_ZL(\d+)(.*)', name)
            name = m.group(2)[:int(m.group(1))] if m else name
            f = L.A.get(name)
            name = name if f is not None else mname
        if f is not None:
            c.vrun.assumed.add(name)
            return f(c, *args)
        g = mod.funcs.get(name)
        if g is None and name in self.index:
            g = self.index[name].funcs[name]
        if g is not None:
            if sum(fr.fn is g for fr in c.stack) > (2 if name.startswith('_Z') else 0):
                raise Unsupported('recursion in %s without a contract' % name)
            c.vrun.inlined.add(name)
            return c.call_ir(g, args, key)
        raise Unsupported('call of %s, which has no contract' % name)
    def intrinsic(self, c, name, args):
        if name.startswith(('llvm.dbg.', 'llvm.lifetime.', 'llvm.assume', 'llvm.experimental.noalias')):
            return None
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            c.memcpy(args[0], args[1], args[2]); return None
        if name.startswith('llvm.memset'):
            d, v, n = args[0], args[1], args[2]
            if is_sym(n) or is_sym(v):
                raise Unsupported('symbolic memset')
            d = c.check_ptr(d, 'memset')
            c.purge(d.reg, d.off, n)
            for i in range(n):
                d.reg.cells[d.off + i] = (wrap(v, 8), 1)
            return None
        if name.startswith('llvm.expect'):
            return args[0]
        if name.startswith('llvm.abs'):
            x = args[0]
            if isinstance(x, int):
                return abs(x)
            return simp(z3.If(x >= 0, x, -x))
        if name.startswith(('llvm.smax', 'llvm.smin')):
            a, b = args
            if isinstance(a, int) and isinstance(b, int):
                return max(a, b) if 'smax' in name else min(a, b)
            return simp(z3.If(a >= b, a, b) if 'smax' in name else z3.If(a <= b, a, b))
        if name.startswith('llvm.is.constant'):
            return 0
        if name.startswith('llvm.eh.typeid.for'):
            return self.typeid(args[0].reg.gname)
        if name.startswith('llvm.trap'):
            c.aborted()
        raise Unsupported('intrinsic ' + name)
    def fp_op(self, c, fr, ins):
        if ins.op == 'fcmp':
            a = c.val(fr, ins.ty, ins.args[0]); b = c.val(fr, ins.ty, ins.args[1])
            if a is UNDEF or b is UNDEF:
                c.fail('comparison of an uninitialised value')
            pred = ins.extra
            if pred in ('ord', 'uno'):
                return pred == 'ord'
            return simp({'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[pred[1:]]())
        if ins.op == 'fneg':
            return simp(-c.val(fr, ins.ty, ins.args[0]))
        if ins.op in ('sitofp', 'uitofp') and ins.extra in (('i', 32), ('i', 16), ('i', 8), ('i', 1)):
            # exact: a double holds every 32 bit integer
            v = c.val(fr, ins.extra, ins.args[0])
            if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)):
                return simp(z3.If(toB(v), z3.RealVal(1), z3.RealVal(0)))
            return simp(R(v if ins.op == 'sitofp' else unsigned(v, ins.extra[1])))
        raise Unsupported('floating point ' + ins.op)
    def region_eq(self, c, a, b):
        return False
    def exc_matches(self, exc, ti):
        up = {'_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt13runtime_error': ['_ZTISt9exception']}
        return exc == ti or ti in up.get(exc, [])
    def typeid(self, n):
        t = self.__dict__.setdefault('typeids', {})
        return t.setdefault(n, len(t) + 10)
