"""Parser for the textual LLVM IR (clang 18, opaque pointers) that the verifier works on.

The IR is produced from /repo's sources by the real front end on every run; nothing is
hand written.  Only the subset of instructions that occurs at -O0 (+mem2reg) is accepted;
anything else raises Unsupported at execution time, not at parse time.
"""
import re

class Unsupported(Exception):
    pass

TOK = re.compile(r'''
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>%"(?:[^"\\]|\\.)*"|%[\w.$-]+)
 |(?P<glob>@"(?:[^"\\]|\\.)*"|@[\w.$-]+)
 |(?P<meta>![\w.]*)
 |(?P<comdat>\$"[^"]*"|\$[\w.$-]+)
 |(?P<num>-?\d+\.\d+(?:[eE][+-]?\d+)?|-?0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 |(?P<word>[A-Za-z_][\w.]*)
 |(?P<dots>\.\.\.)
 |(?P<attr>\#\d+)
 |(?P<p>[()\[\]{}<>,=*|:])
 |(?P<ws>\s+)
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('token: ' + s[i:i+40])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        t = m.group()
        if k in ('loc', 'glob') and len(t) > 1 and t[1] == '"':
            t = t[0] + t[2:-1]
        out.append((k, t))
    return out

PATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly',
          'readnone', 'returned', 'inreg', 'nofree', 'immarg', 'swiftself', 'nest', 'allocptr', 'noreturn',
          'dead_on_unwind', 'writable', 'allocalign', 'inalloca'}
CCONV = {'fastcc', 'ccc', 'coldcc', 'dso_local', 'internal', 'linkonce_odr', 'private', 'external', 'weak_odr', 'weak',
         'available_externally', 'hidden', 'protected', 'unnamed_addr', 'local_unnamed_addr', 'noundef', 'linkonce', 'default',
         'extern_weak', 'common', 'appending', 'preemptable', 'dso_preemptable'}

class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0
    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else (None, None)
    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x
    def eat(self, s):
        if self.peek()[1] == s and self.peek()[0] != 'str':
            self.i += 1
            return True
        return False
    def expect(self, s):
        if not self.eat(s):
            raise Unsupported('expected %s got %s in %s' % (s, self.peek(), ' '.join(x[1] for x in self.t)))
    # ---- types
    def type(self):
        k, t = self.next()
        if k == 'word':
            if t[0] == 'i' and t[1:].isdigit():
                ty = ('i', int(t[1:]))
            elif t in ('ptr', 'void', 'double', 'float', 'label', 'metadata', 'x86_fp80', 'token', 'opaque'):
                ty = (t,)
                if t == 'ptr' and self.peek()[1] == 'addrspace':
                    self.next(); self.expect('('); self.next(); self.expect(')')
            else:
                raise Unsupported('type ' + t)
        elif k == 'loc':
            ty = ('named', t[1:])
        elif t == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']')
            ty = ('arr', n, e)
        elif t == '{':
            es = []
            if not self.eat('}'):
                while True:
                    es.append(self.type())
                    if self.eat('}'):
                        break
                    self.expect(',')
            ty = ('struct', tuple(es), False)
        elif t == '<':
            if self.eat('{'):
                es = []
                if not self.eat('}'):
                    while True:
                        es.append(self.type())
                        if self.eat('}'):
                            break
                        self.expect(',')
                self.expect('>')
                ty = ('struct', tuple(es), True)
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>')
                ty = ('vec', n, e)
        else:
            raise Unsupported('type tok ' + str(t))
        # function type?
        if self.peek()[1] == '(' and self.peek()[0] == 'p' and self.functy_ok:
            self.next()
            while not self.eat(')'):
                self.next()
            ty = ('fn', ty)
        return ty
    functy_ok = False
    # ---- values (given type)
    def value(self, ty):
        k, t = self.next()
        if k == 'loc':
            return ('loc', t[1:])
        if k == 'glob':
            return ('glob', t[1:])
        if k == 'num':
            if ty[0] == 'i':
                return ('int', int(t, 0) if not t.startswith('0x') else int(t, 16))
            return ('fp', t)
        if k == 'str':
            return ('cstr', t)
        if k == 'word':
            if t in ('null', 'undef', 'poison', 'zeroinitializer', 'none'):
                return (t,)
            if t in ('true', 'false'):
                return ('int', 1 if t == 'true' else 0)
            if t == 'getelementptr':
                inb = False
                while self.peek()[1] in ('inbounds', 'inrange', 'nuw', 'nusw'):
                    self.next()
                self.expect('(')
                sty = self.type(); self.expect(',')
                ops = []
                while True:
                    while self.peek()[1] == 'inrange':
                        self.next()
                    oty = self.type(); ops.append((oty, self.value(oty)))
                    if self.eat(')'):
                        break
                    self.expect(',')
                return ('gep', sty, ops)
            if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
                self.expect('(')
                fty = self.type(); v = self.value(fty); self.expect('to'); tty = self.type(); self.expect(')')
                return ('cast', t, fty, v, tty)
            if t in ('sub', 'add', 'mul', 'icmp'):
                # constant expressions we do not need
                d = 0
                while True:
                    _, x = self.next()
                    if x == '(':
                        d += 1
                    if x == ')':
                        d -= 1
                        if d == 0:
                            break
                return ('constexpr', t)
            if t in ('dso_local_equivalent', 'no_cfi'):
                return self.value(ty)
        if t in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[t]
            if t == '<' and self.peek()[1] == '{':
                self.next(); close = '}'
                vs = self._agg(close); self.expect('>')
                return ('agg', vs)
            return ('agg', self._agg(close))
        raise Unsupported('value %s %s' % (k, t))
    def _agg(self, close):
        vs = []
        if self.eat(close):
            return vs
        while True:
            ty = self.type(); vs.append((ty, self.value(ty)))
            if self.eat(close):
                return vs
            self.expect(',')
    def attrs(self):
        """skip parameter attributes; return dict of interesting ones"""
        d = {}
        while True:
            k, t = self.peek()
            if k == 'word' and t in PATTRS:
                self.next(); d[t] = True
            elif k == 'word' and t == 'align':
                self.next(); self.next()
                if self.t[self.i-1][1] == '(':
                    self.next(); self.expect(')')
            elif k == 'word' and t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'preallocated', 'allocsize', 'memory', 'range', 'nofpclass', 'captures'):
                self.next(); self.expect('(')
                if t in ('sret', 'byval'):
                    d[t] = self.type()
                    self.expect(')')
                else:
                    dep = 1
                    while dep:
                        x = self.next()[1]
                        if x == '(':
                            dep += 1
                        elif x == ')':
                            dep -= 1
            else:
                return d

class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'extra', 'line', 'idx', 'text')
    def __init__(self, op, res, ty, args, extra, line, text):
        self.op, self.res, self.ty, self.args, self.extra, self.line, self.text = op, res, ty, args, extra, line, text

class Function:
    def __init__(self, name):
        self.name = name
        self.params = []     # (type, name, attrs)
        self.retty = None
        self.blocks = {}     # label -> [Instr]
        self.order = []
        self.dbg = None
        self.raw = None
        self.module = None
        self.internal = False
        self.varargs = False
        self.attr_text = ''

class Module:
    def __init__(self, text, name=''):
        self.name = name
        self.types = {}
        self.globals = {}
        self.funcs = {}      # defined
        self.decls = {}
        self.aliases = {}
        self.meta = {}
        self._parse(text)
        self._layout = {}
        self._parsed = set()
    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i
                while lines[j] != '}':
                    j += 1
                f = self._head(l)
                f.raw = lines[i+1:j]
                self.funcs[f.name] = f
                i = j + 1
                continue
            if l.startswith('declare '):
                f = self._head(l)
                self.decls[f.name] = f
            elif l.startswith('%') and ' = type ' in l:
                toks = tokenize(l)
                p = P(toks); nm = p.next()[1][1:]; p.expect('='); p.expect('type')
                if p.peek()[1] == 'opaque':
                    self.types[nm] = None
                else:
                    self.types[nm] = p.type()
            elif l.startswith('@') and re.match(r'@[^=]*=[^(]*\balias\b', l):
                m = re.search(r'^@("(?:[^"\\]|\\.)*"|[\w.$-]+) = .*\bptr @("(?:[^"\\]|\\.)*"|[\w.$-]+)\s*$', l)
                if m:
                    self.aliases[m.group(1).strip('"')] = m.group(2).strip('"')
            elif l.startswith('@') and ' = ' in l:
                try:
                    self._global(l)
                except Unsupported:
                    pass
            elif l.startswith('!') and ' = ' in l:
                k, v = l.split(' = ', 1)
                self.meta[k] = v
            i += 1
    def _global(self, l):
        toks = tokenize(l)
        p = P(toks)
        nm = p.next()[1][1:]
        p.expect('=')
        const = False
        alias = False
        ext = False
        while True:
            k, t = p.peek()
            if t in ('global', 'constant'):
                const = (t == 'constant'); p.next(); break
            if t in ('alias', 'ifunc'):
                alias = True; p.next(); break
            if t in ('external', 'extern_weak'):
                ext = True
            if t == 'thread_local':
                p.next()
                if p.eat('('):
                    p.next(); p.expect(')')
                continue
            if t is None:
                return
            p.next()
        if alias:
            ty = p.type(); p.expect(',')
            ty2 = p.type(); v = p.value(ty2)
            self.globals[nm] = dict(ty=ty, init=v, const=True, alias=True)
            return
        ty = p.type()
        init = None
        if not ext:
            init = p.value(ty)
        self.globals[nm] = dict(ty=ty, init=init, const=const, alias=False)
    def _head(self, l):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[\w.$-]+)\(', l)
        nm = m.group(1)
        if nm[0] == '"':
            nm = nm[1:-1]
        f = Function(nm)
        f.module = self
        f.internal = bool(re.match(r'define (internal|private|linkonce_odr|linkonce|available_externally)\b', l))
        m3 = re.match(r'(?:define|declare) (\w+)', l)
        f.linkage = m3.group(1) if m3 else ''
        m2 = re.search(r'!dbg (!\d+)', l)
        f.dbg = m2.group(1) if m2 else None
        f.attr_text = l
        # params
        pre = l[:m.start()]
        start = m.end()-1
        dep = 0
        j = start
        instr = False
        while True:
            c = l[j]
            if c == '"':
                instr = not instr
            if not instr:
                if c == '(':
                    dep += 1
                if c == ')':
                    dep -= 1
                    if dep == 0:
                        break
            j += 1
        ptoks = tokenize(l[start+1:j])
        p = P(ptoks)
        while p.peek()[0] is not None:
            if p.peek()[0] == 'dots':
                f.varargs = True; p.next(); break
            ty = p.type()
            at = p.attrs()
            nm2 = None
            if p.peek()[0] == 'loc':
                nm2 = p.next()[1][1:]
            f.params.append((ty, nm2, at))
            p.eat(',')
        # ret type
        rt = tokenize(pre)
        rp = P(rt)
        rp.next()
        while True:
            k, t = rp.peek()
            if t in CCONV or t == 'noundef':
                rp.next(); continue
            if rp.attrs():
                continue
            break
        f.retty = rp.type()
        return f
    # lazily parse bodies
    def body(self, name):
        f = self.funcs[name]
        if f.blocks:
            return f
        cur = None
        unnamed = len(f.params)
        lines = f.raw
        # entry label: explicit ("entry:") or implicit
        k = 0
        while k < len(lines):
            l = lines[k]
            if not l.strip():
                k += 1; continue
            if not l.startswith(' '):
                m = re.match(r'("(?:[^"\\]|\\.)*"|[\w.$-]+):', l)
                lab = m.group(1)
                if lab[0] == '"':
                    lab = lab[1:-1]
                cur = []
                f.blocks[lab] = cur
                f.order.append(lab)
                k += 1
                continue
            if cur is None:
                cur = []
                lab = str(unnamed)
                f.blocks[lab] = cur; f.order.append(lab)
            s = l.strip()
            # multi-line: switch, landingpad clauses, invoke
            if re.match(r'(switch )', s) and s.rstrip().endswith('['):
                while not lines[k].strip().startswith(']'):
                    k += 1
                    s += ' ' + lines[k].strip()
            if (' invoke ' in ' ' + s) and ' to label ' not in s:
                k += 1
                s += ' ' + lines[k].strip()
            if ' landingpad ' in ' ' + s or s.startswith('landingpad'):
                while k+1 < len(lines) and re.match(r'\s+(catch|cleanup|filter)\b', lines[k+1]):
                    k += 1
                    s += ' ' + lines[k].strip()
            cur.append(s)
            k += 1
        for lab in f.order:
            out = []
            for s in f.blocks[lab]:
                ins = self.instr(s)
                if ins is not None:
                    out.append(ins)
            f.blocks[lab] = out
        return f
    def dbgline(self, md):
        t = self.meta.get(md, '')
        m = re.search(r'line: (\d+)', t)
        return int(m.group(1)) if m else None
    def dbgfile(self, f):
        """source file of a function (through its DISubprogram)"""
        if not f.dbg:
            return None
        t = self.meta.get(f.dbg, '')
        m = re.search(r'file: (!\d+)', t)
        if not m:
            return None
        t = self.meta.get(m.group(1), '')
        m = re.search(r'filename: "([^"]*)"(?:, directory: "([^"]*)")?', t)
        if not m:
            return None
        fn, d = m.group(1), m.group(2)
        if not fn.startswith('/') and d:
            fn = d + '/' + fn
        return fn
    def instr(self, s):
        line = None
        m = re.search(r', !dbg (!\d+)', s)
        if m:
            line = self.dbgline(m.group(1))
        if '@llvm.dbg.' in s or s.startswith('#dbg_'):
            return None
        s2 = re.sub(r',? ![\w.]+ !\d+', '', s)
        s2 = re.sub(r',? !srcloc.*$', '', s2)
        toks = tokenize(s2)
        p = P(toks)
        res = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            res = p.next()[1][1:]; p.next()
        op = p.next()[1]
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        try:
            ty, args, extra = self._ops(op, p)
        except Unsupported as e:
            return Instr('unsupported', res, None, [], str(e) + ' :: ' + s, line, s)
        return Instr(op, res, ty, args, extra, line, s)
    def _tv(self, p):
        ty = p.type(); return (ty, p.value(ty))
    def _ops(self, op, p):
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek()[1] in ('nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'contract', 'disjoint', 'arcp', 'reassoc', 'afn'):
                fl.add(p.next()[1])
            ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            return ty, [a, b], fl
        if op == 'fneg':
            ty = p.type(); return ty, [p.value(ty)], None
        if op in ('icmp', 'fcmp'):
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'samesign'):
                p.next()
            pred = p.next()[1]
            ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            return ty, [a, b], pred
        if op == 'alloca':
            p.eat('inalloca')
            ty = p.type(); cnt = None
            if p.eat(','):
                if p.peek()[1] != 'align':
                    cnt = self._tv(p)
            return ty, [cnt], None
        if op == 'load':
            p.eat('atomic')
            p.eat('volatile'); ty = p.type(); p.expect(','); t2, v = self._tv(p)
            return ty, [v], None
        if op == 'store':
            p.eat('atomic')
            p.eat('volatile'); ty, v = self._tv(p); p.expect(','); t2, d = self._tv(p)
            return ty, [v, d], None
        if op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                p.next()
            sty = p.type(); p.expect(',')
            ops = [self._tv(p)]
            while p.eat(','):
                ops.append(self._tv(p))
            return sty, ops, None
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
                p.next()
            ty, v = self._tv(p); p.expect('to'); t2 = p.type()
            return t2, [v], ty
        if op == 'br':
            if p.peek()[1] == 'label':
                p.next(); return None, [p.next()[1][1:]], 'u'
            ty, c = self._tv(p); p.expect(','); p.expect('label'); a = p.next()[1][1:]; p.expect(','); p.expect('label'); b = p.next()[1][1:]
            return ty, [c, a, b], 'c'
        if op == 'switch':
            ty, c = self._tv(p); p.expect(','); p.expect('label'); d = p.next()[1][1:]
            cases = []
            p.expect('[')
            while not p.eat(']'):
                cty, cv = self._tv(p); p.expect(','); p.expect('label'); cases.append((cv[1], p.next()[1][1:]))
            return ty, [c, d, cases], None
        if op == 'ret':
            ty = p.type()
            if ty == ('void',):
                return ty, [], None
            return ty, [p.value(ty)], None
        if op == 'unreachable':
            return None, [], None
        if op == 'phi':
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz'):
                p.next()
            ty = p.type(); inc = []
            while True:
                p.expect('['); v = p.value(ty); p.expect(','); lab = p.next()[1][1:]; p.expect(']')
                inc.append((v, lab))
                if not p.eat(','):
                    break
            return ty, inc, None
        if op == 'select':
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz'):
                p.next()
            cty, c = self._tv(p); p.expect(','); ty, a = self._tv(p); p.expect(','); t2, b = self._tv(p)
            return ty, [c, a, b], None
        if op in ('call', 'invoke'):
            while p.peek()[1] in CCONV or p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz') or p.peek()[1] in ('zeroext', 'signext', 'noalias', 'nonnull', 'align', 'dereferenceable', 'noundef'):
                if p.peek()[1] in CCONV or p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz'):
                    p.next()
                else:
                    p.attrs()
            ty = p.type()
            if p.peek()[1] == '(' and p.peek()[0] == 'p':
                # function type follows
                p.next()
                d = 1
                while d:
                    x = p.next()[1]
                    if x == '(':
                        d += 1
                    if x == ')':
                        d -= 1
            callee = p.value(('ptr',))
            p.expect('(')
            args = []
            if not p.eat(')'):
                while True:
                    aty = p.type()
                    at = p.attrs()
                    if aty == ('metadata',):
                        while p.peek()[1] not in (',', ')'):
                            p.next()
                        args.append((aty, None, at))
                    else:
                        args.append((aty, p.value(aty), at))
                    if p.eat(')'):
                        break
                    p.expect(',')
            extra = {'callee': callee}
            if op == 'invoke':
                while p.peek()[1] != 'to':
                    p.next()
                p.next(); p.expect('label'); extra['normal'] = p.next()[1][1:]
                p.expect('unwind'); p.expect('label'); extra['unwind'] = p.next()[1][1:]
            return ty, args, extra
        if op == 'extractvalue':
            ty, v = self._tv(p); idx = []
            while p.eat(','):
                idx.append(int(p.next()[1]))
            return ty, [v], idx
        if op == 'insertvalue':
            ty, v = self._tv(p); p.expect(','); t2, e = self._tv(p); idx = []
            while p.eat(','):
                idx.append(int(p.next()[1]))
            return ty, [v, (t2, e)], idx
        if op == 'landingpad':
            ty = p.type()
            cl = []
            while p.peek()[0] is not None:
                w = p.next()[1]
                if w == 'cleanup':
                    cl.append(('cleanup',))
                elif w in ('catch', 'filter'):
                    cty = p.type(); cl.append((w, p.value(cty)))
            return ty, [], cl
        if op == 'resume':
            ty, v = self._tv(p); return ty, [v], None
        if op == 'freeze':
            ty, v = self._tv(p); return ty, [v], None
        if op == 'atomicrmw':
            p.eat('volatile')
            k = p.next()[1]; t1, ptr = self._tv(p); p.expect(','); ty, v = self._tv(p)
            return ty, [ptr, v], k
        if op == 'fence':
            return None, [], None
        raise Unsupported('op ' + op)
    # ---- layout
    def resolve(self, ty):
        while ty[0] == 'named':
            t = self.types.get(ty[1])
            if t is None:
                raise Unsupported('opaque type ' + ty[1])
            ty = t
        return ty
    def sizeof(self, ty):
        return self.layout(ty)[0]
    def alignof(self, ty):
        return self.layout(ty)[1]
    def layout(self, ty):
        k = ty
        if k in self._layout:
            return self._layout[k]
        t = self.resolve(ty)
        if t[0] == 'i':
            n = max(1, 1 << ((t[1]+7)//8 - 1).bit_length())
            r = (n, min(n, 16), None)
        elif t[0] == 'ptr':
            r = (8, 8, None)
        elif t[0] == 'double':
            r = (8, 8, None)
        elif t[0] == 'float':
            r = (4, 4, None)
        elif t[0] == 'x86_fp80':
            r = (16, 16, None)
        elif t[0] == 'arr':
            s, a, _ = self.layout(t[2])
            r = (s*t[1], a, None)
        elif t[0] == 'struct':
            off = 0; al = 1; offs = []
            for e in t[1]:
                s, a, _ = self.layout(e)
                if t[2]:
                    a = 1
                off = (off + a - 1)//a*a
                offs.append(off)
                off += s
                al = max(al, a)
            r = ((off + al - 1)//al*al, al, offs)
        else:
            raise Unsupported('layout ' + str(t))
        self._layout[k] = r
        return r
