"""Parser for textual LLVM IR (clang 18, opaque pointers)."""
import re, struct
from terms import py_to_f32, f64_to_py

TOK = re.compile(r'''\s+|;[^\n]*|(
  [%@](?:"[^"]*"|[-\w$.]+) | c"[^"]*" | "[^"]*" | !(?:[-\w.$]+)? | \#\d+ | \.\.\. |
  -?\d+\.\d+(?:e[+-]?\d+)? | 0x[A-Z]?[0-9A-Fa-f]+ | -?\d+ | [A-Za-z_][-\w.$]* | [=,*(){}\[\]<>:|] )''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError('IR token at %r' % s[pos:pos + 60])
        pos = m.end()
        if m.group(1):
            out.append(m.group(1))
    return out


class Ty:
    __slots__ = ('k', 'n', 'e', 'packed')

    def __init__(self, k, n=0, e=None, packed=False):
        self.k, self.n, self.e, self.packed = k, n, e, packed

    def __repr__(self):
        return '%s%s' % (self.k, self.n or '')


VOID, PTR = Ty('void'), Ty('ptr')
I1, I8, I16, I32, I64 = Ty('i', 1), Ty('i', 8), Ty('i', 16), Ty('i', 32), Ty('i', 64)
_ints = {1: I1, 8: I8, 16: I16, 32: I32, 64: I64}
F32, F64, F80 = Ty('f', 32), Ty('f', 64), Ty('f', 80)


class Ref:
    """symbol + byte offset"""
    __slots__ = ('name', 'off')

    def __init__(self, name, off=0):
        self.name, self.off = name, off


UNDEF = object()


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'line')

    def __init__(self, op, dst, ty, a, line):
        self.op, self.dst, self.ty, self.a, self.line = op, dst, ty, a, line


class Func:
    def __init__(self, name, ret, params, vararg, internal):
        self.name, self.ret, self.params, self.vararg, self.internal = name, ret, params, vararg, internal
        self.blocks = {}
        self.order = []


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.tls = set()
        self.globals = {}     # name -> (ty, init|None, const, internal)
        self.funcs = {}
        self.decls = {}
        self.lines = {}       # metadata id -> line
        self.aliases = {}
        self._parse(open(path).read())

    # ---- types ----
    def size(self, t):
        k = t.k
        if k == 'i': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.n) or (t.n + 7) // 8
        if k == 'f': return {32: 4, 64: 8, 80: 16}[t.n]
        if k == 'ptr': return 8
        if k == 'arr' or k == 'vec': return t.n * self.size(t.e)
        if k == 'struct': return self.layout(t)[1]
        if k == 'named': return self.size(self.types[t.n])
        raise TypeError(k)

    def align(self, t):
        k = t.k
        if k == 'arr': return self.align(t.e)
        if k == 'vec': return self.size(t)
        if k == 'struct': return 1 if t.packed else max([self.align(e) for e in t.e] or [1])
        if k == 'named': return self.align(self.types[t.n])
        return min(self.size(t), 16)

    def layout(self, t):
        if t.n and t.n != 0:
            return t.n
        off, offs = 0, []
        for e in t.e:
            if not t.packed:
                a = self.align(e)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(e)
        if not t.packed:
            a = self.align(t)
            off = (off + a - 1) // a * a
        t.n = (offs, off)
        return t.n

    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.n]
        return t

    # ---- parsing ----
    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        # types and metadata first
        for l in lines:
            if l.startswith('%') and ' = type ' in l:
                name, rest = l.split(' = type ', 1)
                if rest.startswith('opaque'):
                    self.types[name.strip()] = Ty('struct', 0, [])
                else:
                    self.types[name.strip()] = P(self, tokenize(rest)).type()
            elif l.startswith('!') and 'DILocation(' in l:
                m = re.match(r'(![0-9]+) = (?:distinct )?!DILocation\(line: (\d+)', l)
                if m:
                    self.lines[m.group(1)] = int(m.group(2))
        while i < n:
            l = lines[i]
            if l.startswith('@'):
                self._global(l)
            elif l.startswith('declare'):
                self._header(l, True)
            elif l.startswith('define'):
                f = self._header(l, False)
                i += 1
                cur = None
                body = []
                while lines[i] != '}':
                    s = lines[i]
                    # switch / long instruction continuation
                    if s.rstrip().endswith('['):
                        while not lines[i].strip().startswith(']'):
                            i += 1
                            s += ' ' + lines[i].strip()
                    body.append(s)
                    i += 1
                self._body(f, body)
                self.funcs[f.name] = f
            i += 1

    def _global(self, l):
        p = P(self, tokenize(l))
        name = p.next()
        p.expect('=')
        internal = False
        external = False
        while True:
            t = p.peek()
            if t in ('internal', 'private'):
                internal = True
                p.next()
            elif t in ('external', 'extern_weak'):
                external = True
                p.next()
            elif t in ('dso_local', 'unnamed_addr', 'local_unnamed_addr', 'common', 'weak', 'weak_odr', 'linkonce_odr', 'hidden', 'protected', 'default',
                       'externally_initialized', 'thread_local', 'appending', 'available_externally', 'dso_preemptable', 'linkonce'):
                p.next()
                if t == 'thread_local':
                    self.tls.add(name)
                if t == 'thread_local' and p.peek() == '(':
                    p.skip_parens()
            else:
                break
        kind = p.next()
        if kind == 'alias':
            ty = p.type()
            p.expect(',')
            p.type()
            v = p.value(PTR)
            self.aliases[name] = v
            return
        if kind not in ('global', 'constant'):
            return
        ty = p.type()
        init = None
        if not external:
            init = p.value(ty)
        self.globals[name] = (ty, init, kind == 'constant', internal)

    def _header(self, l, decl):
        p = P(self, tokenize(l))
        p.next()
        while p.peek().startswith('!'):
            p.next()
        internal = False
        while True:
            t = p.peek()
            if t == 'internal' or t == 'private':
                internal = True
            if t in LINK:
                p.next()
                if p.peek() == '(':
                    p.skip_parens()
            else:
                break
        p.attrs()
        ret = p.type()
        name = p.next()
        p.expect('(')
        params = []
        vararg = False
        while p.peek() != ')':
            if p.peek() == '...':
                p.next()
                vararg = True
            else:
                t = p.type()
                byval = p.attrs()
                nm = None
                if p.peek().startswith('%'):
                    nm = p.next()
                params.append((t, nm, byval))
            if p.peek() == ',':
                p.next()
        f = Func(name, ret, params, vararg, internal)
        if decl:
            self.decls[name] = f
        return f

    def _body(self, f, lines):
        # unnamed parameters and the entry block are numbered
        cnt = 0
        ps = []
        for t, nm, bv in f.params:
            if nm is None:
                nm = '%%%d' % cnt
                cnt += 1
            elif nm[1:].isdigit():
                cnt = int(nm[1:]) + 1
            ps.append((t, nm, bv))
        f.params = ps
        cur = None
        for s in lines:
            if not s.strip() or s.lstrip().startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[-\w$.]+):', s)
            if m:
                cur = '%' + m.group(1).strip('"')
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = '%%%d' % cnt
                f.blocks[cur] = []
                f.order.append(cur)
            ins = self._instr(s)
            if ins is not None:
                f.blocks[cur].append(ins)

    def _instr(self, s):
        line = 0
        j = s.find(', !')
        if j >= 0:
            m = re.search(r'!dbg (!\d+)', s)
            if m:
                line = self.lines.get(m.group(1), 0)
            s = s[:j]
        p = P(self, tokenize(s))
        dst = None
        if p.peek().startswith('%') and p.t[p.i + 1] == '=':
            dst = p.next()
            p.next()
        op = p.next()
        if op in BIN:
            p.flags()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return Instr(op, dst, t, (a, b), line)
        if op == 'fneg':
            p.flags()
            t = p.type()
            return Instr(op, dst, t, (p.value(t),), line)
        if op in ('icmp', 'fcmp'):
            p.flags()
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            return Instr(op, dst, t, (pred, a, p.value(t)), line)
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.type()
            p.expect(',')
            p.type()
            return Instr(op, dst, t, (p.value(PTR),), line)
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.type()
            return Instr(op, dst, t, (v, p.value(PTR)), line)
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            return Instr(op, dst, PTR, p.gep_args(), line)
        if op == 'alloca':
            t = p.type()
            cnt = 1
            if p.peek() == ',':
                p.next()
                if p.peek() != 'align':
                    ct = p.type()
                    cnt = p.value(ct)
            return Instr(op, dst, t, (cnt,), line)
        if op in CASTS:
            p.flags()
            t = p.type()
            v = p.value(t)
            p.expect('to')
            return Instr(op, dst, t, (v, p.type()), line)
        if op in ('tail', 'musttail', 'notail', 'call'):
            if op != 'call':
                p.expect('call')
            p.flags()
            while p.peek() in CCS:
                p.next()
            p.attrs()
            t = p.type()
            if p.peek() == '(':      # function type
                p.skip_parens()
            callee = p.value(PTR) if p.peek() != 'asm' else 'asm'
            if callee == 'asm':
                return Instr('asm', dst, t, (), line)
            p.expect('(')
            args = []
            while p.peek() != ')':
                if p.peek() == 'metadata':
                    return None
                at = p.type()
                bv = p.attrs()
                args.append((at, p.value(at), bv))
                if p.peek() == ',':
                    p.next()
            return Instr('call', dst, t, (callee, args), line)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return Instr('br', None, None, (p.next(),), line)
            p.type()
            c = p.value(I1)
            p.expect(',')
            p.expect('label')
            x = p.next()
            p.expect(',')
            p.expect('label')
            return Instr('cbr', None, None, (c, x, p.next()), line)
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cases = []
            while p.peek() != ']':
                p.type()
                k = p.value(t)
                p.expect(',')
                p.expect('label')
                cases.append((k, p.next()))
            return Instr('switch', None, t, (v, d, cases), line)
        if op == 'ret':
            t = p.type()
            return Instr('ret', None, t, (p.value(t) if t.k != 'void' else None,), line)
        if op == 'unreachable':
            return Instr(op, None, None, (), line)
        if op == 'phi':
            p.flags()
            t = p.type()
            inc = []
            while p.i < len(p.t) and p.peek() == '[':
                p.next()
                v = p.value(t)
                p.expect(',')
                inc.append((v, p.next()))
                p.expect(']')
                if p.i < len(p.t) and p.peek() == ',':
                    p.next()
            return Instr(op, dst, t, inc, line)
        if op == 'select':
            p.flags()
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            return Instr(op, dst, t, (c, a, p.value(t)), line)
        if op == 'freeze':
            t = p.type()
            return Instr(op, dst, t, (p.value(t),), line)
        if op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            idx = []
            while p.i < len(p.t) and p.peek() == ',':
                p.next()
                idx.append(int(p.next()))
            return Instr(op, dst, t, (v, idx), line)
        if op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            et = p.type()
            e = p.value(et)
            idx = []
            while p.i < len(p.t) and p.peek() == ',':
                p.next()
                idx.append(int(p.next()))
            return Instr(op, dst, t, (v, e, idx), line)
        if op == 'extractelement':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            it = p.type()
            return Instr(op, dst, t, (v, p.value(it)), line)
        if op == 'insertelement':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            et = p.type()
            e = p.value(et)
            p.expect(',')
            it = p.type()
            return Instr(op, dst, t, (v, e, p.value(it)), line)
        if op == 'shufflevector':
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            b = p.value(t)
            p.expect(',')
            mt = p.type()
            return Instr(op, dst, t, (a, b, p.value(mt), mt.n), line)
        raise SyntaxError('instruction: ' + s)


LINK = {'dso_local', 'internal', 'private', 'weak', 'weak_odr', 'linkonce_odr', 'linkonce', 'hidden', 'protected', 'default', 'external', 'extern_weak',
        'available_externally', 'fastcc', 'coldcc', 'ccc', 'dso_preemptable', 'preallocated'}
CCS = {'fastcc', 'coldcc', 'ccc', 'cc'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg', 'samesign'}
PATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'readnone', 'writeonly', 'noalias', 'signext', 'zeroext', 'inreg', 'immarg', 'returned', 'nofree',
          'allocptr', 'allocalign', 'noreturn', 'nest', 'swiftself', 'writable', 'dead_on_unwind', 'align', 'dereferenceable', 'dereferenceable_or_null',
          'byval', 'sret', 'byref', 'elementtype', 'nofpclass', 'range', 'captures', 'initializes', 'inalloca', 'preallocated', 'noext'}


class P:
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ''

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def expect(self, x):
        t = self.next()
        if t != x:
            raise SyntaxError('expected %s got %s in %s' % (x, t, ' '.join(self.t)))

    def flags(self):
        while self.peek() in FLAGS:
            self.next()

    def skip_parens(self):
        d = 0
        while True:
            t = self.next()
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1
                if d == 0:
                    return

    def attrs(self):
        byval = None
        while self.peek() in PATTRS:
            a = self.next()
            if a == 'byval' and self.peek() == '(':
                self.next()
                byval = self.type()
                self.expect(')')
            elif a == 'align' and self.peek() != '(':
                self.next()
            elif self.peek() == '(':
                self.skip_parens()
        return byval

    def type(self):
        t = self.next()
        if t == 'ptr':
            if self.peek() == 'addrspace':
                self.next()
                self.skip_parens()
            return PTR
        if t[0] == 'i' and t[1:].isdigit():
            n = int(t[1:])
            return _ints.get(n) or Ty('i', n)
        if t == 'void': return VOID
        if t == 'float': return F32
        if t == 'double': return F64
        if t == 'x86_fp80': return F80
        if t[0] == '%': return Ty('named', t)
        if t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            return Ty('arr', n, e)
        if t == '<':
            if self.peek() == '{':
                self.next()
                es = self._types('}')
                self.expect('>')
                return Ty('struct', 0, es, True)
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            return Ty('vec', n, e)
        if t == '{':
            return Ty('struct', 0, self._types('}'))
        if t in ('label', 'metadata', 'token', 'half', 'fp128', 'x86_mmx'):
            return Ty(t)
        raise SyntaxError('type %s in %s' % (t, ' '.join(self.t)))

    def _types(self, end):
        es = []
        while self.peek() != end:
            es.append(self.type())
            if self.peek() == ',':
                self.next()
        self.next()
        return es

    def gep_args(self):
        t = self.type()
        self.expect(',')
        self.type()
        base = self.value(PTR)
        idx = []
        while self.peek() == ',':
            self.next()
            if self.peek() == 'inrange':
                self.next()
            it = self.type()
            idx.append((it, self.value(it)))
        return (t, base, idx)

    def value(self, ty):
        """'%reg' str, int, Ref, list (aggregate), UNDEF, or ('expr',...)"""
        t = self.next()
        c = t[0]
        if c == '%': return t
        if c == '@': return Ref(t)
        if t == 'null': return 0
        if t == 'true': return 1
        if t == 'false': return 0
        if t in ('undef', 'poison'): return UNDEF
        if t == 'zeroinitializer': return self.zero(ty)
        if t == 'none': return 0
        rt = self.m.resolve(ty)
        if c == 'c' and len(t) > 1 and t[1] == '"':
            return [x for x in unescape(t[2:-1])]
        if c in '[{<':
            close = {'[': ']', '{': '}', '<': '>'}[c]
            if c == '<' and self.peek() == '{':
                self.next()
                v = self._values('}')
                self.expect('>')
                return v
            return self._values(close)
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                self.next()
                if self.peek() == '(' and self.t[self.i + 1].lstrip('-').isdigit():
                    self.skip_parens()
            self.expect('(')
            gt, base, idx = self.gep_args()
            self.expect(')')
            off = const_gep(self.m, gt, [v for _, v in idx])
            if isinstance(base, Ref):
                return Ref(base.name, base.off + off)
            return base + off
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            st = self.type()
            v = self.value(st)
            self.expect('to')
            dt = self.type()
            self.expect(')')
            if isinstance(v, int) and dt.k == 'i':
                v &= (1 << dt.n) - 1
            return v
        if t in ('sub', 'add', 'mul') and self.peek() in ('(', 'nuw', 'nsw'):
            self.flags()
            self.expect('(')
            at = self.type()
            a = self.value(at)
            self.expect(',')
            bt = self.type()
            b = self.value(bt)
            self.expect(')')
            return ('expr', t, at, a, b)
        if rt.k == 'f':
            if t.startswith('0xK'):
                return int(t[3:], 16)
            if t.startswith('0x'):
                bits = int(t, 16)
            else:
                bits = struct.unpack('<Q', struct.pack('<d', float(t)))[0]
            if rt.n == 32:
                from terms import fptrunc
                return fptrunc(bits)
            return bits
        v = int(t)
        if rt.k == 'i':
            return v & ((1 << rt.n) - 1)
        return v

    def _values(self, close):
        out = []
        while self.peek() != close:
            t = self.type()
            out.append(self.value(t))
            if self.peek() == ',':
                self.next()
        self.next()
        return out

    def zero(self, ty):
        t = self.m.resolve(ty)
        if t.k in ('arr', 'vec'):
            if t.k == 'arr' and t.n > 64:
                return 'zero'
            return [self.zero(t.e) for _ in range(t.n)]
        if t.k == 'struct':
            return [self.zero(e) for e in t.e]
        return 0


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('latin1')
            i += 1
    return out


def const_gep(m, ty, idx):
    off = 0
    t = ty
    for n, v in enumerate(idx):
        iv = v - (1 << 64) if isinstance(v, int) and v >> 63 else v
        if n == 0:
            off += iv * m.size(t)
            continue
        t = m.resolve(t)
        if t.k == 'struct':
            off += m.layout(t)[0][v]
            t = t.e[v]
        else:
            t = t.e
            off += iv * m.size(t)
    return off
