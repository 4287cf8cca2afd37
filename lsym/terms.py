"""Hash-consed bit-vector / IEEE terms with on-the-fly simplification, a concrete evaluator and the
translation to z3.  A scalar is a Python int (concrete bits) or a T.  i1 is the Boolean sort.
`tab` nodes (decision tables over small-range integers) keep float arithmetic on counts exact without
asking the solver to reason about rounding."""
import math, struct

_pf, _pd, _pI, _pQ = struct.Struct('<f'), struct.Struct('<d'), struct.Struct('<I'), struct.Struct('<Q')
MASK = [(1 << i) - 1 for i in range(0, 513)]


def f32_to_py(b): return _pf.unpack(_pI.pack(b))[0]
def f64_to_py(b): return _pd.unpack(_pQ.pack(b))[0]


def py_to_f32(x):
    try:
        return _pI.unpack(_pf.pack(x))[0]
    except OverflowError:
        return 0xFF800000 if x < 0 else 0x7F800000


def py_to_f64(x): return _pQ.unpack(_pd.pack(x))[0]


def to_py(b, w): return f32_to_py(b) if w == 32 else f64_to_py(b)
def from_py(x, w): return py_to_f32(x) if w == 32 else py_to_f64(x)


QNAN = {32: 0x7FC00000, 64: 0x7FF8000000000000}
XNAN = {32: 0xFFC00000, 64: 0xFFF8000000000000}   # what x86 produces for invalid operations
EXPW = {32: 8, 64: 11}
FRACW = {32: 23, 64: 52}


def isnan_bits(b, w):
    return (b & MASK[w - 1]) > (MASK[EXPW[w]] << FRACW[w])


def fconc(op, a, b, w):
    """IEEE binary operation on bits, NaN results as on x86 SSE"""
    if isnan_bits(a, w):
        return a | (1 << (FRACW[w] - 1))
    if b is not None and isnan_bits(b, w):
        return b | (1 << (FRACW[w] - 1))
    x = to_py(a, w)
    y = to_py(b, w) if b is not None else None
    try:
        if op == 'fadd': r = x + y
        elif op == 'fsub': r = x - y
        elif op == 'fmul': r = x * y
        elif op == 'fdiv':
            if y == 0:
                if x == 0:
                    return XNAN[w]
                s = math.copysign(1, x) * math.copysign(1, y)
                return from_py(math.inf * s, w)
            r = x / y
        elif op == 'fsqrt':
            if x < 0:
                return XNAN[w]
            r = math.sqrt(x)
        elif op == 'frem': r = math.fmod(x, y)
        else: raise KeyError(op)
    except OverflowError:
        r = math.inf
    except ValueError:
        return XNAN[w]
    if r != r:
        return XNAN[w]
    return from_py(r, w)


class T:
    __slots__ = ('op', 'args', 'w', 'uid', 'z', 'lo', 'hi', 'fv', 'fp', '__weakref__')

    def __repr__(self):
        return '%s:%d%s' % (self.op, self.w, '' if self.op != 'var' else '(%s)' % self.args[0])


_cons = {}
_uid = [0]
_EMPTY = frozenset()
FPOPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'fsqrt', 'frem', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'frint'}


def mk(op, args, w, lo=0, hi=None):
    key = (op, args, w)
    t = _cons.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.w, t.z = op, args, w, None
        _uid[0] += 1
        t.uid = _uid[0]
        t.lo = lo
        t.hi = MASK[w] if hi is None else hi
        t.fv = None
        fp = op in FPOPS
        if not fp:
            for a in args:
                if a.__class__ is T and a.fp:
                    fp = True
                    break
                if a.__class__ is tuple:
                    for b in a:
                        if b.__class__ is T and b.fp:
                            fp = True
        t.fp = fp
        _cons[key] = t
    return t


def reset():
    _cons.clear()
    _uid[0] = 0


def var(name, w):
    return mk('var', (name,), w)


def freevars(t):
    """frozenset of variable terms"""
    if t.__class__ is not T:
        return _EMPTY
    if t.fv is not None:
        return t.fv
    stack = [t]
    while stack:
        x = stack[-1]
        if x.fv is not None:
            stack.pop()
            continue
        if x.op == 'var':
            x.fv = frozenset((x,))
            stack.pop()
            continue
        ready = True
        kids = []
        for a in x.args:
            if a.__class__ is T:
                kids.append(a)
            elif a.__class__ is tuple:
                kids.extend(b for b in a if b.__class__ is T)
        for k in kids:
            if k.fv is None:
                stack.append(k)
                ready = False
        if ready:
            s = _EMPTY
            for k in kids:
                s = s | k.fv if s else k.fv
            x.fv = s
            stack.pop()
    return t.fv


def lo_(a): return a if a.__class__ is int else a.lo
def hi_(a): return a if a.__class__ is int else a.hi
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v


TABMAX = 5000


# ---------- tables ----------
def mk_tab(base, vals, w):
    """value vals[base-base.lo]; vals are ints or terms"""
    v0 = vals[0]
    if all(v is v0 or v == v0 for v in vals):
        return v0
    if w == 1:
        return tab_bool(base, vals)
    return mk('tab', (base, tuple(vals)), w, min(map(lo_, vals)), max(map(hi_, vals)))


def tab_bool(base, vals):
    lo = base.lo
    out = 0
    i = 0
    n = len(vals)
    while i < n:
        v = vals[i]
        if v.__class__ is int:
            if not v:
                i += 1
                continue
        j = i
        while j + 1 < n and (vals[j + 1] is v or (v.__class__ is int and vals[j + 1].__class__ is int and vals[j + 1] == v)):
            j += 1
        a, b = lo + i, lo + j
        if a == b:
            c = eq(base, a)
        else:
            c = band(ule(a, base, base.w) if i > 0 else 1, ule(base, b, base.w) if j < n - 1 else 1)
        out = bor(out, band(c, v))
        i = j + 1
    return out


def tabbable(t):
    if t.__class__ is int:
        return 1
    if t.op == 'tab':
        return tabsize(t)
    if t.op == 'ite':
        a, b = tabbable(t.args[1]), tabbable(t.args[2])
        return a + b if a and b and a + b <= TABMAX else 0
    return 0


_tsz = {}


def tabsize(t):
    n = _tsz.get(t)
    if n is None:
        n = 0
        for v in t.args[1]:
            if v.__class__ is int:
                n += 1
            else:
                k = tabbable(v)
                if not k:
                    n = 0
                    break
                n += k
        _tsz[t] = n
    return n


def as_tab(t):
    """-> (base, vals) for a non-constant tabbable term"""
    if t.op == 'tab':
        return t.args
    c, a, b = t.args     # ite
    return c, (b, a)


def tab1(f, t, w):
    if t.__class__ is int:
        return f(t)
    base, vals = as_tab(t)
    return mk_tab(base, tuple(tab1(f, v, w) for v in vals), w)


def tab2(f, a, b, w):
    ai, bi = a.__class__ is int, b.__class__ is int
    if ai and bi:
        return f(a, b)
    if ai:
        base, vals = as_tab(b)
        return mk_tab(base, tuple(tab2(f, a, v, w) for v in vals), w)
    if bi:
        base, vals = as_tab(a)
        return mk_tab(base, tuple(tab2(f, v, b, w) for v in vals), w)
    ba, va = as_tab(a)
    bb, vb = as_tab(b)
    if ba is bb:
        return mk_tab(ba, tuple(tab2(f, x, y, w) for x, y in zip(va, vb)), w)
    if ba.uid < bb.uid:
        return mk_tab(ba, tuple(tab2(f, x, b, w) for x in va), w)
    return mk_tab(bb, tuple(tab2(f, a, y, w) for y in vb), w)


def both_tab(a, b):
    na = tabbable(a)
    if not na:
        return False
    nb = tabbable(b)
    return nb and na * nb <= TABMAX


# ---------- Booleans (w=1) ----------
def bnot(a):
    if a.__class__ is int:
        return a ^ 1
    if a.op == 'not':
        return a.args[0]
    if a.op == 'ult':
        return ule(a.args[1], a.args[0], a.args[2])
    if a.op == 'ule':
        return ult(a.args[1], a.args[0], a.args[2])
    if a.op == 'slt':
        return sle(a.args[1], a.args[0], a.args[2])
    if a.op == 'sle':
        return slt(a.args[1], a.args[0], a.args[2])
    return mk('not', (a,), 1)


def band(a, b):
    if a.__class__ is int:
        return b if a else 0
    if b.__class__ is int:
        return a if b else 0
    if a is b:
        return a
    if (a.op == 'not' and a.args[0] is b) or (b.op == 'not' and b.args[0] is a):
        return 0
    if a.uid > b.uid:
        a, b = b, a
    return mk('and', (a, b), 1)


def bor(a, b):
    if a.__class__ is int:
        return 1 if a else b
    if b.__class__ is int:
        return 1 if b else a
    if a is b:
        return a
    if (a.op == 'not' and a.args[0] is b) or (b.op == 'not' and b.args[0] is a):
        return 1
    if a.uid > b.uid:
        a, b = b, a
    return mk('or', (a, b), 1)


def bxor(a, b):
    if a.__class__ is int:
        return bnot(b) if a else b
    if b.__class__ is int:
        return bnot(a) if b else a
    if a is b:
        return 0
    n = 0
    if a.op == 'not':
        a, n = a.args[0], n ^ 1
    if b.op == 'not':
        b, n = b.args[0], n ^ 1
    if a is b:
        return n
    if a.uid > b.uid:
        a, b = b, a
    t = mk('xor', (a, b), 1)
    return bnot(t) if n else t


# ---------- bit-vectors ----------
def add(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return (a + b) & MASK[w]
        a, b = b, a
    if w == 1:
        return bxor(a, b)
    if b.__class__ is int:
        if b == 0:
            return a
        if a.op == 'add' and a.args[1].__class__ is int:
            return add(a.args[0], (a.args[1] + b) & MASK[w], w)
        if a.op == 'ite' and a.args[1].__class__ is int and a.args[2].__class__ is int:
            return ite(a.args[0], (a.args[1] + b) & MASK[w], (a.args[2] + b) & MASK[w], w)
        if a.op == 'tab' and tabbable(a):
            return tab1(lambda x: (x + b) & MASK[w], a, w)
        lo, hi = a.lo + b, a.hi + b
        if lo > MASK[w]:
            lo -= 1 << w
            hi -= 1 << w
        elif hi > MASK[w]:
            lo, hi = 0, MASK[w]
        return mk('add', (a, b), w, lo, hi)
    if a.op == 'add' and a.args[1].__class__ is int:
        return add(add(a.args[0], b, w), a.args[1], w)
    if b.op == 'add' and b.args[1].__class__ is int:
        return add(add(a, b.args[0], w), b.args[1], w)
    if a.uid > b.uid:
        a, b = b, a
    # a + (0-a)
    if b.op == 'mul' and b.args[1] == MASK[w] and b.args[0] is a:
        return 0
    lo, hi = a.lo + b.lo, a.hi + b.hi
    if hi > MASK[w]:
        lo, hi = 0, MASK[w]
    return mk('add', (a, b), w, lo, hi)


def sub(a, b, w):
    if b.__class__ is int:
        return add(a, (-b) & MASK[w], w)
    if a is b:
        return 0
    if w == 1:
        return bxor(a, b)
    if a.__class__ is T and a.op == 'add':
        if a.args[0] is b:
            return a.args[1]
        if a.args[1] is b:
            return a.args[0]
        if b.op == 'add' and a.args[1].__class__ is int and b.args[1].__class__ is int:
            return add(sub(a.args[0], b.args[0], w), (a.args[1] - b.args[1]) & MASK[w], w)
        if a.args[1].__class__ is int:
            return add(sub(a.args[0], b, w), a.args[1], w)
    if b.op == 'add' and b.args[1].__class__ is int:
        return add(sub(a, b.args[0], w), (-b.args[1]) & MASK[w], w)
    if b.op == 'zext' or b.op == 'ite':
        pass
    lo, hi = lo_(a) - b.hi, hi_(a) - b.lo
    if lo < 0:
        lo, hi = 0, MASK[w]
    return mk('sub', (a, b), w, lo, hi)


def mul(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return (a * b) & MASK[w]
        a, b = b, a
    if w == 1:
        return band(a, b)
    if b.__class__ is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shl(a, b.bit_length() - 1, w)
        if a.op == 'mul' and a.args[1].__class__ is int:
            return mul(a.args[0], (a.args[1] * b) & MASK[w], w)
        if a.op == 'concat' and len(a.args) == 3 and a.args[2] == 0 and a.args[2].__class__ is int:     # (x << k) * b
            x, k = a.args[1], a.args[0][1]
            if x.__class__ is T and x.op == 'extract' and x.args[1:] == (w - 1 - k, 0) and x.args[0].w == w:
                return mul(x.args[0], (b << k) & MASK[w], w)
        if a.op == 'add' and a.args[1].__class__ is int:
            return add(mul(a.args[0], b, w), (a.args[1] * b) & MASK[w], w)
        if a.op == 'ite' and a.args[1].__class__ is int and a.args[2].__class__ is int:
            return ite(a.args[0], (a.args[1] * b) & MASK[w], (a.args[2] * b) & MASK[w], w)
        if a.op == 'tab' and tabbable(a):
            return tab1(lambda x: (x * b) & MASK[w], a, w)
    elif a.uid > b.uid:
        a, b = b, a
    hi = a.hi * hi_(b)
    if hi > MASK[w]:
        return mk('mul', (a, b), w)
    return mk('mul', (a, b), w, a.lo * lo_(b), hi)


def udiv(a, b, w):
    if b.__class__ is int and b:
        if a.__class__ is int:
            return a // b
        if b == 1:
            return a
        if a.op == 'udiv' and a.args[0].__class__ is int:      # (c/x)/b == (c/b)/x
            return udiv(a.args[0] // b, a.args[1], w)
        if b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
        if a.hi < b:
            return 0
        return mk('udiv', (a, b), w, a.lo // b, a.hi // b)
    return mk('udiv', (a, b), w, 0, hi_(a) // max(lo_(b), 1))


def urem(a, b, w):
    if b.__class__ is int and b:
        if a.__class__ is int:
            return a % b
        if b & (b - 1) == 0:
            return and_(a, b - 1, w)
        if a.hi < b:
            return a
        return mk('urem', (a, b), w, 0, b - 1)
    return mk('urem', (a, b), w, 0, hi_(a))


def sdiv(a, b, w):
    if a.__class__ is int and b.__class__ is int and b:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & MASK[w]
    if hi_(a) <= MASK[w - 1] and hi_(b) <= MASK[w - 1]:
        return udiv(a, b, w)
    return mk('sdiv', (a, b), w)


def srem(a, b, w):
    if a.__class__ is int and b.__class__ is int and b:
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & MASK[w]
    if hi_(a) <= MASK[w - 1] and hi_(b) <= MASK[w - 1]:
        return urem(a, b, w)
    return mk('srem', (a, b), w)


def and_(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return a & b
        a, b = b, a
    if w == 1:
        return band(a, b)
    if b.__class__ is int:
        if b == 0:
            return 0
        if b == MASK[w]:
            return a
        if b & (b + 1) == 0:
            if a.hi <= b:
                return a
            n = b.bit_length()
            return zext(extract(a, n - 1, 0), n, w)
        if a.op == 'and' and a.args[1].__class__ is int:
            return and_(a.args[0], a.args[1] & b, w)
        if a.op == 'ite' and a.args[1].__class__ is int and a.args[2].__class__ is int:
            return ite(a.args[0], a.args[1] & b, a.args[2] & b, w)
        if a.op == 'tab' and tabbable(a):
            return tab1(lambda x: x & b, a, w)
        return mk('and', (a, b), w, 0, min(a.hi, b))
    if a is b:
        return a
    if a.uid > b.uid:
        a, b = b, a
    return mk('and', (a, b), w, 0, min(a.hi, b.hi))


def or_(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return a | b
        a, b = b, a
    if w == 1:
        return bor(a, b)
    if b.__class__ is int:
        if b == 0:
            return a
        if b == MASK[w]:
            return b
        # disjoint: high constant over a zero-extended value
        if a.op == 'tab' and tabbable(a):
            return tab1(lambda x: x | b, a, w)
        if a.op == 'ite' and a.args[1].__class__ is int and a.args[2].__class__ is int:
            return ite(a.args[0], a.args[1] | b, a.args[2] | b, w)
    else:
        if a is b:
            return a
        # shl(zext(x)) | zext(y): byte assembly
        r = _join(a, b, w) or _join(b, a, w)
        if r is not None and r.__class__ is T:
            return r
        if a.uid > b.uid:
            a, b = b, a
    m = hi_(a) | hi_(b)
    return mk('or', (a, b), w, max(lo_(a), lo_(b)), MASK[m.bit_length()])


def _join(hi, lo, w):
    h = hi.args[0] if hi.op == 'zext' else hi
    if h.op == 'concat' and h.args[-1].__class__ is int and h.args[-1] == 0:
        ws = _cw(h)
        lw = ws[-1]
        if lo.hi <= MASK[lw]:
            parts = [(p, pw) for p, pw in zip(h.args[1:-1], ws[:-1])]
            return zext(concat(parts + [(extract(lo, lw - 1, 0), lw)]), h.w, w)
    return None


def _cw(t):
    return t.args[0]


def xor(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return a ^ b
        a, b = b, a
    if w == 1:
        return bxor(a, b)
    if b.__class__ is int:
        if b == 0:
            return a
        if a.op == 'xor' and a.args[1].__class__ is int:
            return xor(a.args[0], a.args[1] ^ b, w)
        if a.op == 'tab' and tabbable(a):
            return tab1(lambda x: x ^ b, a, w)
        if a.op == 'ite' and a.args[1].__class__ is int and a.args[2].__class__ is int:
            return ite(a.args[0], a.args[1] ^ b, a.args[2] ^ b, w)
        if a.op == 'zext' and b == 1 and a.args[0].w == 1:
            return zext(bnot(a.args[0]), 1, w)
        if b == 1 << (w - 1):      # sign flip (fneg)
            return concat([(bnot(extract(a, w - 1, w - 1)), 1), (extract(a, w - 2, 0), w - 1)])
    else:
        if a is b:
            return 0
        if a.uid > b.uid:
            a, b = b, a
    m = hi_(a) | hi_(b)
    return mk('xor', (a, b), w, 0, MASK[m.bit_length()])


def shl(a, b, w):
    if b.__class__ is int:
        if b == 0:
            return a
        if b >= w:
            return 0
        if a.__class__ is int:
            return (a << b) & MASK[w]
        if a.op == 'tab' and tabbable(a):
            return tab1(lambda x: (x << b) & MASK[w], a, w)
        if a.op == 'ite' and a.args[1].__class__ is int and a.args[2].__class__ is int:
            return ite(a.args[0], (a.args[1] << b) & MASK[w], (a.args[2] << b) & MASK[w], w)
        if a.op == 'add':   # keep linear structure for addresses
            return add(shl(a.args[0], b, w), shl(a.args[1], b, w), w)
        return concat([(extract(a, w - 1 - b, 0), w - b), (0, b)])
    return mk('shl', (a, b), w)


def lshr(a, b, w):
    if b.__class__ is int:
        if b == 0:
            return a
        if b >= w:
            return 0
        if a.__class__ is int:
            return a >> b
        if a.op == 'tab' and tabbable(a):
            return tab1(lambda x: x >> b, a, w)
        return zext(extract(a, w - 1, b), w - b, w)
    return mk('lshr', (a, b), w, 0, hi_(a))


def ashr(a, b, w):
    if b.__class__ is int:
        if b == 0:
            return a
        if a.__class__ is int:
            return (sgn(a, w) >> b) & MASK[w]
        if b < w:
            return sext(extract(a, w - 1, b), w - b, w)
    return mk('ashr', (a, b), w)


def extract(a, hi, lo):
    n = hi - lo + 1
    if a.__class__ is int:
        return (a >> lo) & MASK[n]
    if n == a.w:
        return a
    op = a.op
    if op == 'sitofp' and n == 1 and hi == a.w - 1 and exact_int(a, a.w) is not None:
        return slt(a.args[0], 0, a.args[1])
    if op == 'zext':
        sw = a.args[0].w
        if lo >= sw:
            return 0
        if hi < sw:
            return extract(a.args[0], hi, lo)
        return zext(extract(a.args[0], sw - 1, lo), sw - lo, n)
    if op == 'sext':
        sw = a.args[0].w
        if hi < sw:
            return extract(a.args[0], hi, lo)
        if lo == 0 and n > sw:
            return sext(a.args[0], sw, n)
        if lo >= sw:
            s = extract(a.args[0], sw - 1, sw - 1)
            return sext(s, 1, n)
    if op == 'extract':
        l0 = a.args[2]
        return extract(a.args[0], hi + l0, lo + l0)
    if op == 'concat':
        pos = 0
        out = []
        ws = a.args[0]
        for p, pw in zip(reversed(a.args[1:]), reversed(ws)):
            plo, phi = pos, pos + pw - 1
            pos += pw
            if phi < lo or plo > hi:
                continue
            h, l = min(hi, phi) - plo, max(lo, plo) - plo
            out.append((extract(p, h, l), h - l + 1))
        out.reverse()
        return concat(out)
    if op == 'tab' and tabbable(a):
        m = MASK[n]
        return tab1(lambda x: (x >> lo) & m, a, n)
    if op == 'ite' and (n == 1 or (a.args[1].__class__ is int or a.args[2].__class__ is int)):
        return ite(a.args[0], extract(a.args[1], hi, lo), extract(a.args[2], hi, lo), n)
    if n == 1 and op in ('and', 'or', 'xor'):
        x, y = extract(a.args[0], hi, lo), extract(a.args[1], hi, lo)
        return band(x, y) if op == 'and' else bor(x, y) if op == 'or' else bxor(x, y)
    if op in ('and', 'or', 'xor'):
        f = {'and': and_, 'or': or_, 'xor': xor}[op]
        return f(extract(a.args[0], hi, lo), extract(a.args[1], hi, lo), n)
    if hi == 0 and op in ('add', 'sub', 'mul'):
        f = band if op == 'mul' else bxor
        return f(extract(a.args[0], 0, 0), extract(a.args[1], 0, 0))
    if lo == 0 and op in ('add', 'sub', 'mul') and n > 1:
        f = {'add': add, 'sub': sub, 'mul': mul}[op]
        return f(extract(a.args[0], hi, 0), extract(a.args[1], hi, 0), n)
    if lo == 0 and a.hi <= MASK[n]:
        return mk('extract', (a, hi, lo), n, a.lo, a.hi)
    if a.hi < (1 << lo):
        return 0
    return mk('extract', (a, hi, lo), n)


def trunc(a, w):
    return extract(a, w - 1, 0)


def zext(a, aw, w):
    if a.__class__ is int:
        return a
    if aw == w:
        return a
    if a.op == 'zext':
        return zext(a.args[0], a.args[0].w, w)
    if a.op == 'tab' and tabbable(a):
        return tab1(lambda x: x, a, w)
    if a.op == 'ite' and a.args[1].__class__ is int and a.args[2].__class__ is int:
        return ite(a.args[0], a.args[1], a.args[2], w)
    if a.op == 'extract' and a.args[2] == 0 and a.args[0].w == w and a.args[0].hi <= MASK[aw]:
        return a.args[0]
    return mk('zext', (a,), w, a.lo, a.hi)


def sext(a, aw, w):
    if a.__class__ is int:
        return sgn(a, aw) & MASK[w]
    if aw == w:
        return a
    if aw == 1:
        return ite(a, MASK[w], 0, w)
    if a.hi <= MASK[aw - 1]:
        return zext(a, aw, w)
    if a.op == 'ite' and a.args[1].__class__ is int and a.args[2].__class__ is int:
        return ite(a.args[0], sext(a.args[1], aw, w), sext(a.args[2], aw, w), w)
    if a.op == 'tab' and tabbable(a):
        return tab1(lambda x: sgn(x, aw) & MASK[w], a, w)
    return mk('sext', (a,), w)


def concat(parts):
    """parts: [(value,width)] most significant first"""
    out = []
    for v, pw in parts:
        if v.__class__ is T and v.op == 'concat':
            sub_ = list(zip(v.args[1:], v.args[0]))
        elif v.__class__ is T and v.op == 'zext':
            x = v.args[0]
            sub_ = [(0, pw - x.w)] + (list(zip(x.args[1:], x.args[0])) if x.op == 'concat' else [(x, x.w)])
        else:
            sub_ = [(v, pw)]
        for x, xw in sub_:
            if out:
                y, yw = out[-1]
                if x.__class__ is int and y.__class__ is int:
                    out[-1] = ((y << xw) | x, xw + yw)
                    continue
                if x.__class__ is T and y.__class__ is T:
                    # extract(a,h,m+1) ++ extract(a,m,l)
                    if y.op == 'extract':
                        ya, yh, yl = y.args
                    else:
                        ya, yh, yl = y, y.w - 1, 0
                    if x.op == 'extract':
                        xa, xh, xl = x.args
                    else:
                        xa, xh, xl = x, x.w - 1, 0
                    if ya is xa and yl == xh + 1:
                        out[-1] = (extract(xa, yh, xl), xw + yw)
                        continue
            out.append((x, xw))
    if len(out) == 1:
        return out[0][0]
    w = sum(p[1] for p in out)
    if out[0][0].__class__ is int and out[0][0] == 0:
        rest = concat(out[1:])
        return zext(rest, w - out[0][1], w)
    lo = hi = 0
    for p, pw in out:
        lo = (lo << pw) | lo_(p)
        hi = (hi << pw) | hi_(p)
    return mk('concat', (tuple(p[1] for p in out),) + tuple(p[0] for p in out), w, lo, hi)


def ite(c, a, b, w):
    if c.__class__ is int:
        return a if c else b
    if a is b or (a.__class__ is int and b.__class__ is int and a == b):
        return a
    if w == 1:
        if a.__class__ is int:
            return bor(c, b) if a else band(bnot(c), b)
        if b.__class__ is int:
            return bor(bnot(c), a) if b else band(c, a)
        if a is c:
            return bor(c, b)
        if b is c:
            return band(c, a)
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if a.__class__ is T and a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.__class__ is T and b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.__class__ is int and b.__class__ is int and b == 0 and a == 1:
        return zext(c, 1, w)
    return mk('ite', (c, a, b), w, min(lo_(a), lo_(b)), max(hi_(a), hi_(b)))


def wof(a, b, w):
    return w


def eq(a, b, w=None):
    if a.__class__ is int:
        if b.__class__ is int:
            return 1 if a == b else 0
        a, b = b, a
    if a is b:
        return 1
    if a.w == 1:
        return bnot(bxor(a, b))
    if b.__class__ is int:
        if b < a.lo or b > a.hi:
            return 0
        op = a.op
        if op == 'udiv' and b == 0:      # also right for a zero divisor (all ones)
            return ult(a.args[0], a.args[1], a.w)
        if op == 'zext':
            return eq(a.args[0], b) if b <= MASK[a.args[0].w] else 0
        if op == 'add' and a.args[1].__class__ is int:
            return eq(a.args[0], (b - a.args[1]) & MASK[a.w])
        if op == 'ite':
            x, y = a.args[1], a.args[2]
            if x.__class__ is int or y.__class__ is int:
                return ite(a.args[0], eq(x, b), eq(y, b), 1)
        if op == 'tab':
            return mk_tab(a.args[0], tuple(eq(v, b) for v in a.args[1]), 1)
        if op == 'concat':
            pos, r = 0, 1
            for p, pw in zip(reversed(a.args[1:]), reversed(a.args[0])):
                r = band(r, eq(p, (b >> pos) & MASK[pw]))
                if r.__class__ is int and r == 0:
                    return 0
                pos += pw
            return r
        if op == 'sub' and b == 0:
            return eq(a.args[0], a.args[1])
        if op == 'xor' and b == 0:
            return eq(a.args[0], a.args[1])
    else:
        if a.hi < b.lo or b.hi < a.lo:
            return 0
        if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w:
            return eq(a.args[0], b.args[0])
        if both_tab(a, b):
            return tab2(lambda x, y: 1 if x == y else 0, a, b, 1)
        if a.op == 'add' and b.op == 'add' and a.args[1].__class__ is int and b.args[1].__class__ is int and a.args[1] == b.args[1]:
            return eq(a.args[0], b.args[0])
        if a.uid > b.uid:
            a, b = b, a
    return mk('eq', (a, b), 1)


def ult(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return 1 if a < b else 0
    if a is b:
        return 0
    if hi_(a) < lo_(b):
        return 1
    if lo_(a) >= hi_(b):
        return 0
    if w == 1:
        return band(bnot(a), b)
    if both_tab(a, b):
        return tab2(lambda x, y: 1 if x < y else 0, a, b, 1)
    if a.__class__ is T and a.op == 'zext' and (b.__class__ is int or (b.op == 'zext' and b.args[0].w == a.args[0].w)):
        sw = a.args[0].w
        return ult(a.args[0], b if b.__class__ is int else b.args[0], sw)
    if b.__class__ is T and b.op == 'zext' and a.__class__ is int:
        return ult(a, b.args[0], b.args[0].w)
    if b.__class__ is int and b == 1:
        return eq(a, 0)
    if a.__class__ is int and a == 0:
        return bnot(eq(b, 0))
    if b.__class__ is int and a.op == 'udiv' and a.args[0].__class__ is int:     # c/x < b  <=>  x > c/b
        return ult(a.args[0] // b, a.args[1], w)
    return mk('ult', (a, b, w), 1)


def ule(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return 1 if a <= b else 0
    if a is b:
        return 1
    if hi_(a) <= lo_(b):
        return 1
    if lo_(a) > hi_(b):
        return 0
    if w == 1:
        return bor(bnot(a), b)
    if both_tab(a, b):
        return tab2(lambda x, y: 1 if x <= y else 0, a, b, 1)
    if a.__class__ is T and a.op == 'zext' and (b.__class__ is int or (b.op == 'zext' and b.args[0].w == a.args[0].w)):
        sw = a.args[0].w
        return ule(a.args[0], b if b.__class__ is int else b.args[0], sw)
    if b.__class__ is T and b.op == 'zext' and a.__class__ is int:
        return ule(a, b.args[0], b.args[0].w)
    if b.__class__ is int and b == 0:
        return eq(a, 0)
    return mk('ule', (a, b, w), 1)


def slt(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return 1 if sgn(a, w) < sgn(b, w) else 0
    if a is b:
        return 0
    m = MASK[w - 1]
    if hi_(a) <= m and hi_(b) <= m:
        return ult(a, b, w)
    if w == 1:
        return band(a, bnot(b))
    if b.__class__ is int and b == 0:
        return extract(a, w - 1, w - 1)
    if a.__class__ is int and a == MASK[w]:
        return bnot(extract(b, w - 1, w - 1))
    if both_tab(a, b):
        return tab2(lambda x, y: 1 if sgn(x, w) < sgn(y, w) else 0, a, b, 1)
    return mk('slt', (a, b, w), 1)


def sle(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return 1 if sgn(a, w) <= sgn(b, w) else 0
    if a is b:
        return 1
    m = MASK[w - 1]
    if hi_(a) <= m and hi_(b) <= m:
        return ule(a, b, w)
    if w == 1:
        return bor(a, bnot(b))
    if a.__class__ is int and a == 0:
        return bnot(extract(b, w - 1, w - 1))
    if b.__class__ is int and b == MASK[w]:
        return extract(a, w - 1, w - 1)
    if both_tab(a, b):
        return tab2(lambda x, y: 1 if sgn(x, w) <= sgn(y, w) else 0, a, b, 1)
    return mk('sle', (a, b, w), 1)


# ---------- floating point ----------
# Floats that are exactly integers (conversions of small integers and sums, differences, products of them) keep their
# integer: int -> float conversion is exact below 2**24 / 2**53, so the IEEE operation is integer arithmetic there.
EXACT = {32: 1 << 24, 64: 1 << 53}
_sr = {}


def srange(t, w):
    """signed range of the w-bit term t"""
    if t.__class__ is int:
        v = sgn(t, w)
        return v, v
    r = _sr.get(t)
    if r is not None:
        return r
    full = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if t.hi <= MASK[w - 1]:
        r = (t.lo, t.hi)
    elif t.op == 'sext':
        r = srange(t.args[0], t.args[0].w)
    elif t.op in ('add', 'sub', 'mul'):
        a, b = srange(t.args[0], w), srange(t.args[1], w)
        if t.op == 'add': r = (a[0] + b[0], a[1] + b[1])
        elif t.op == 'sub': r = (a[0] - b[1], a[1] - b[0])
        else:
            p = [x * y for x in a for y in b]
            r = (min(p), max(p))
    elif t.op == 'shl' and t.args[1].__class__ is int:
        a = srange(t.args[0], w)
        r = (a[0] << t.args[1], a[1] << t.args[1])
    elif t.op == 'ite':
        a, b = srange(t.args[1], w), srange(t.args[2], w)
        r = (min(a[0], b[0]), max(a[1], b[1]))
    elif t.op == 'concat' and t.args[1].__class__ is T:
        n = w - t.args[0][0]
        a = srange(t.args[1], t.args[0][0])
        r = (a[0] << n, (a[1] << n) + MASK[n])
    else:
        r = full
    if r[0] < full[0] or r[1] > full[1]:
        r = full
    _sr[t] = r
    return r


def exact_int(a, w):
    """(integer term, its width, lo, hi) if the float a is exactly that integer and not -0, else None"""
    if a.__class__ is int:
        if isnan_bits(a, w) or a == 1 << (w - 1):
            return None
        x = to_py(a, w)
        if x in (math.inf, -math.inf) or x != int(x) or abs(x) > EXACT[w]:
            return None
        x = int(x)
        return x, 0, x, x
    if a.op in ('sitofp', 'uitofp'):
        aw = a.args[1]
        lo, hi = srange(a.args[0], aw) if a.op == 'sitofp' else (a.args[0].lo, a.args[0].hi)
        if lo >= -EXACT[w] and hi <= EXACT[w]:
            t = a.args[0]
            if a.op == 'uitofp' and hi > MASK[aw - 1]:
                t, aw = zext(t, aw, aw + 1), aw + 1
            return t, aw, lo, hi
    return None


def _iw(e, w):
    t, aw = e[0], e[1]
    if t.__class__ is int:
        return t & MASK[w] if aw == 0 else sgn(t, aw) & MASK[w]
    if aw == w:
        return t
    return sext(t, aw, w) if aw < w else extract(t, w - 1, 0)


def _width(*r):
    return 32 if all(-(1 << 31) <= x < (1 << 31) for x in r) else 64


def low_zero(t, k):
    return t == 0 if t.__class__ is int and k == 0 else extract(t, k - 1, 0) == 0 if k else True


def exact_bin(op, a, b, w):
    if op == 'fmul':
        if a.__class__ is int:
            a, b = b, a
        if b.__class__ is int and a.__class__ is T:
            v = to_py(b, w)
            if 0 < v < 1 and math.frexp(v)[0] == 0.5:
                return exact_bin('fdiv', a, from_py(1 / v, w), w)
    x = exact_int(a, w)
    if x is None:
        return None
    y = exact_int(b, w)
    if y is None:
        return None
    if op == 'fadd':
        lo, hi = x[2] + y[2], x[3] + y[3]
    elif op == 'fsub':
        lo, hi = x[2] - y[3], x[3] - y[2]
    elif op == 'fmul':
        if not ((x[2] >= 0 and y[2] >= 0) or (x[1] == 0 and x[0] > 0) or (y[1] == 0 and y[0] > 0)):
            return None                     # 0 * negative is -0
        p = [i * j for i in x[2:] for j in y[2:]]
        lo, hi = min(p), max(p)
    elif op == 'fdiv':
        if y[1] != 0 or y[0] <= 0 or y[0] & (y[0] - 1) or x[1] == 0:
            return None
        k = y[0].bit_length() - 1
        if not k:
            return a
        n = _width(x[2], x[3])
        t = _iw(x, n)
        if extract(t, k - 1, 0).__class__ is not int or extract(t, k - 1, 0) != 0:
            return None
        return sitofp(ashr(t, k, n), n, w, True)
    else:
        return None
    if lo < -EXACT[w] or hi > EXACT[w]:
        return None
    n = _width(lo, hi, x[2], x[3], y[2], y[3])
    f = {'fadd': add, 'fsub': sub, 'fmul': mul}[op]
    return sitofp(f(_iw(x, n), _iw(y, n), n), n, w, True)


INFB = {32: 0x7F800000, 64: 0x7FF << 52}
ONEB = {32: 0x3F800000, 64: 0x3FF << 52}


def fbin(op, a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return fconc(op, a, b, w)
    if both_tab(a, b):
        return tab2(lambda x, y: fconc(op, x, y, w), a, b, w)
    if op in ('fadd', 'fmul') and b.__class__ is T and (a.__class__ is int or a.uid > b.uid):
        a, b = b, a
    r = exact_bin(op, a, b, w)
    if r is not None:
        return r
    inf = INFB[w]
    one = ONEB[w]
    if b.__class__ is int:
        if b == one and op in ('fmul', 'fdiv') and a.hi <= inf:
            return a
        if b == 0 and op in ('fadd', 'fsub') and a.hi <= inf:
            return a
    # non-negative operands: the rounded operations are monotone
    if hi_(a) < inf and hi_(b) < inf:
        lo = hi = None
        if op == 'fadd' or op == 'fmul':
            lo, hi = fconc(op, lo_(a), lo_(b), w), fconc(op, hi_(a), hi_(b), w)
        elif op == 'fdiv' and lo_(b) > 0:
            lo, hi = fconc(op, lo_(a), hi_(b), w), fconc(op, hi_(a), lo_(b), w)
        if hi is not None and hi <= inf:
            return mk(op, (a, b), w, lo, hi)
    return mk(op, (a, b), w)


def fun(op, a, w):
    if a.__class__ is int:
        return fconc(op, a, None, w)
    if tabbable(a):
        return tab1(lambda x: fconc(op, x, None, w), a, w)
    return mk(op, (a,), w)


def fneg(a, w):
    return xor(a, 1 << (w - 1), w)


def fabs(a, w):
    if a.__class__ is T and a.op == 'sitofp':
        e = exact_int(a, w)
        if e is not None:
            n = _width(e[2], e[3], -e[2])
            t = _iw(e, n)
            return sitofp(ite(slt(t, 0, n), sub(0, t, n), t, n), n, w, True)
    return and_(a, MASK[w - 1], w)


def fcopysign(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a & MASK[w - 1]) | (b & (1 << (w - 1)))
    return concat([(extract(b, w - 1, w - 1), 1), (extract(a, w - 2, 0), w - 1)])


def f_isnan(a, w):
    if a.__class__ is int:
        return 1 if isnan_bits(a, w) else 0
    if a.op in ('uitofp', 'sitofp'):
        return 0
    return ult(MASK[EXPW[w]] << FRACW[w], extract(a, w - 2, 0), w - 1)


def _flt(a, b, w, orequal):
    """ordered (no NaN) comparison on bits"""
    if a is b:
        return orequal
    sa, sb = extract(a, w - 1, w - 1), extract(b, w - 1, w - 1)
    ma, mb = extract(a, w - 2, 0), extract(b, w - 2, 0)
    f = ule if orequal else ult
    bothzero = band(eq(ma, 0), eq(mb, 0))
    pos = f(ma, mb, w - 1)
    neg = f(mb, ma, w - 1)
    # both positive / both negative / a negative b positive
    r = bor(band(bnot(sa), band(bnot(sb), pos)), bor(band(sa, band(sb, neg)), band(sa, bnot(sb))))
    if orequal:
        return bor(r, bothzero)
    return band(r, bnot(bothzero))


def _feq(a, b, w):
    if a is b:
        return 1
    return bor(eq(a, b), band(eq(extract(a, w - 2, 0), 0), eq(extract(b, w - 2, 0), 0)))


def fcmp_conc(pred, a, b, w):
    x, y = to_py(a, w), to_py(b, w)
    un = x != x or y != y
    if pred == 'ord': return 0 if un else 1
    if pred == 'uno': return 1 if un else 0
    p = pred[1:]
    if un:
        return 1 if pred[0] == 'u' else 0
    r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
    return 1 if r else 0


def unext(a):
    """the float a double was extended from, if it was"""
    if a.__class__ is int:
        if isnan_bits(a, 64):
            return None
        x = fptrunc(a)
        return x if fpext(x) == a else None
    return a.args[0] if a.op == 'fpext' else None


def fcmp(pred, a, b, w):
    if pred == 'true': return 1
    if pred == 'false': return 0
    if a.__class__ is int and b.__class__ is int:
        return fcmp_conc(pred, a, b, w)
    if both_tab(a, b):
        return tab2(lambda x, y: fcmp_conc(pred, x, y, w), a, b, 1)
    x = exact_int(a, w)
    y = exact_int(b, w) if x is not None else None
    if y is not None:
        if pred == 'uno': return 0
        if pred == 'ord': return 1
        n = _width(x[2], x[3], y[2], y[3])
        s, t, p = _iw(x, n), _iw(y, n), pred[1:]
        if p == 'eq': return eq(s, t, n)
        if p == 'ne': return bnot(eq(s, t, n))
        if p == 'lt': return slt(s, t, n)
        if p == 'le': return sle(s, t, n)
        if p == 'gt': return slt(t, s, n)
        return sle(t, s, n)
    if w == 64:
        x, y = unext(a), unext(b)
        if x is not None and y is not None and (x.__class__ is T or y.__class__ is T):
            return fcmp(pred, x, y, 32)
    nan = bor(f_isnan(a, w), f_isnan(b, w))
    if pred == 'uno': return nan
    if pred == 'ord': return bnot(nan)
    p = pred[1:]
    if p == 'eq': r = _feq(a, b, w)
    elif p == 'ne': r = bnot(_feq(a, b, w))
    elif p == 'lt': r = _flt(a, b, w, 0)
    elif p == 'le': r = _flt(a, b, w, 1)
    elif p == 'gt': r = _flt(b, a, w, 0)
    else: r = _flt(b, a, w, 1)
    return bor(nan, r) if pred[0] == 'u' else band(bnot(nan), r)


def i2f_conc(x, w):
    """correctly rounded int -> float bits"""
    if w == 64:
        return py_to_f64(float(x))
    # round to f32 once: go through exact integer rounding
    s = x < 0
    m = abs(x)
    if m == 0:
        return 0
    n = m.bit_length()
    if n > 24:
        sh = n - 24
        q, r = m >> sh, m & MASK[sh]
        half = 1 << (sh - 1)
        if r > half or (r == half and q & 1):
            q += 1
        m = q << sh
    return py_to_f32(float(-m if s else m))


def uitofp(a, aw, w):
    if a.__class__ is int:
        return i2f_conc(a, w)
    if tabbable(a):
        return tab1(lambda x: i2f_conc(x, w), a, w)
    if a.hi - a.lo < TABMAX:
        return mk_tab(a, tuple(i2f_conc(x, w) for x in range(a.lo, a.hi + 1)), w)
    return mk('uitofp', (a, aw), w, i2f_conc(a.lo, w), i2f_conc(a.hi, w))


def sitofp(a, aw, w, keep=False):
    if a.__class__ is int:
        return i2f_conc(sgn(a, aw), w)
    if keep:
        return mk('sitofp', (a, aw), w)
    if a.hi <= MASK[aw - 1]:
        return uitofp(a, aw, w)
    if tabbable(a):
        return tab1(lambda x: i2f_conc(sgn(x, aw), w), a, w)
    return mk('sitofp', (a, aw), w)


def f2i_conc(op, b, fw, w):
    x = to_py(b, fw)
    if x != x or x in (math.inf, -math.inf):
        return (1 << (w - 1))
    v = int(x)
    if op == 'fptosi':
        if not -(1 << (w - 1)) <= v < (1 << (w - 1)):
            return 1 << (w - 1)
    else:
        if not 0 <= v <= MASK[w]:
            return v & MASK[w] if v >= 0 else 1 << (w - 1)
    return v & MASK[w]


def fptoi(op, a, fw, w):
    if a.__class__ is int:
        return f2i_conc(op, a, fw, w)
    if tabbable(a):
        return tab1(lambda x: f2i_conc(op, x, fw, w), a, w)
    # on bits; out-of-range values (undefined behaviour, trapped before) are arbitrary
    fr = FRACW[fw]
    n = max(w, fr + 1)
    e = zext(extract(a, fw - 2, fr), EXPW[fw], n)
    m = zext(concat([(1, 1), (extract(a, fr - 1, 0), fr)]), fr + 1, n)
    bias = (1 << (EXPW[fw] - 1)) - 1
    one = bias + fr                         # exponent at which the significand is the integer
    v = ite(ult(e, bias, n), 0, ite(ult(e, one, n), lshr(m, sub(one, e, n), n), shl(m, sub(e, one, n), n), n), n)
    v = ite(extract(a, fw - 1, fw - 1), sub(0, v, n), v, n)
    return trunc(v, w) if n > w else v


def fpext(a):
    if a.__class__ is int:
        if isnan_bits(a, 32):
            return ((a >> 31) << 63) | (0x7FF << 52) | ((a & MASK[23]) << 29) | (1 << 51)
        return py_to_f64(f32_to_py(a))
    if tabbable(a):
        return tab1(fpext, a, 64)
    if a.op == 'sitofp':
        e = exact_int(a, 32)
        if e is not None:
            return sitofp(e[0], e[1], 64, True)
    if a.hi <= INFB[32]:
        return mk('fpext', (a,), 64, fpext(a.lo), fpext(a.hi))
    return mk('fpext', (a,), 64)


def fptrunc(a):
    if a.__class__ is int:
        if isnan_bits(a, 64):
            return ((a >> 63) << 31) | (0xFF << 23) | (1 << 22) | ((a >> 29) & MASK[22])
        return py_to_f32(f64_to_py(a))
    if tabbable(a):
        return tab1(fptrunc, a, 32)
    if a.op == 'fpext':
        return a.args[0]
    if a.op == 'sitofp':
        e = exact_int(a, 64)
        if e is not None and e[2] >= -EXACT[32] and e[3] <= EXACT[32]:
            return sitofp(e[0], e[1], 32, True)
    if a.hi <= INFB[64]:
        return mk('fptrunc', (a,), 32, fptrunc(a.lo), fptrunc(a.hi))
    return mk('fptrunc', (a,), 32)


def rint_conc(mode, b, w):
    x = to_py(b, w)
    if x != x or x in (math.inf, -math.inf) or x == 0:
        return b
    if mode == 'floor': r = math.floor(x)
    elif mode == 'ceil': r = math.ceil(x)
    elif mode == 'trunc': r = math.trunc(x)
    elif mode == 'round': r = math.floor(abs(x) + 0.5) if abs(x) < 2 ** 52 else int(abs(x)); r = (int(r) if abs(x) - math.floor(abs(x)) >= 0.5 or True else r)
    else: r = round(x)
    if mode == 'round':
        f = math.floor(abs(x))
        r = f + (1 if abs(x) - f >= 0.5 else 0)
        r = math.copysign(r, x)
    return from_py(math.copysign(float(r), x), w)


def frint(mode, a, w):
    if a.__class__ is int:
        return rint_conc(mode, a, w)
    if tabbable(a):
        return tab1(lambda x: rint_conc(mode, x, w), a, w)
    return mk('frint', (a, mode), w)


# ---------- concrete evaluation ----------
def evaluate(t, model, memo):
    """value of t under model {varterm: int}; missing variables are 0"""
    if t.__class__ is int:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        op = x.op
        if op == 'var':
            memo[x] = model.get(x, 0)
            stack.pop()
            continue
        args = x.args
        if op == 'ite':
            c = args[0]
            cv = memo.get(c)
            if cv is None:
                stack.append(c)
                continue
            y = args[1] if cv else args[2]
            if y.__class__ is not int:
                yv = memo.get(y)
                if yv is None:
                    stack.append(y)
                    continue
                y = yv
            memo[x] = y
            stack.pop()
            continue
        if op == 'tab':
            c = args[0]
            cv = memo.get(c)
            if cv is None:
                stack.append(c)
                continue
            y = args[1][cv - c.lo]
            if y.__class__ is not int:
                yv = memo.get(y)
                if yv is None:
                    stack.append(y)
                    continue
                y = yv
            memo[x] = y
            stack.pop()
            continue
        miss = False
        vals = []
        for a in args:
            if a.__class__ is T:
                v = memo.get(a)
                if v is None:
                    stack.append(a)
                    miss = True
                else:
                    vals.append(v)
            else:
                vals.append(a)
        if miss:
            continue
        memo[x] = _ev(op, vals, x)
        stack.pop()
    return memo[t]


def _ev(op, v, x):
    w = x.w
    if op == 'add': return (v[0] + v[1]) & MASK[w]
    if op == 'sub': return (v[0] - v[1]) & MASK[w]
    if op == 'mul': return (v[0] * v[1]) & MASK[w]
    if op == 'and': return v[0] & v[1]
    if op == 'or': return v[0] | v[1]
    if op == 'xor': return v[0] ^ v[1]
    if op == 'not': return v[0] ^ 1
    if op == 'eq': return 1 if v[0] == v[1] else 0
    if op == 'ult': return 1 if v[0] < v[1] else 0
    if op == 'ule': return 1 if v[0] <= v[1] else 0
    if op == 'slt': return 1 if sgn(v[0], v[2]) < sgn(v[1], v[2]) else 0
    if op == 'sle': return 1 if sgn(v[0], v[2]) <= sgn(v[1], v[2]) else 0
    if op == 'zext': return v[0]
    if op == 'sext': return sgn(v[0], x.args[0].w) & MASK[w]
    if op == 'extract': return (v[0] >> v[2]) & MASK[w]
    if op == 'concat':
        r = 0
        for p, pw in zip(v[1:], v[0]):
            r = (r << pw) | p
        return r
    if op == 'udiv': return v[0] // v[1] if v[1] else MASK[w]
    if op == 'urem': return v[0] % v[1] if v[1] else v[0]
    if op == 'sdiv':
        if not v[1]: return 1 if v[0] >> (w - 1) else MASK[w]
        return sdiv(v[0], v[1], w)
    if op == 'srem':
        if not v[1]: return v[0]
        return srem(v[0], v[1], w)
    if op == 'shl': return (v[0] << v[1]) & MASK[w] if v[1] < w else 0
    if op == 'lshr': return v[0] >> v[1] if v[1] < w else 0
    if op == 'ashr': return (sgn(v[0], w) >> min(v[1], w)) & MASK[w]
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'): return fconc(op, v[0], v[1], w)
    if op == 'fsqrt': return fconc(op, v[0], None, w)
    if op == 'uitofp': return i2f_conc(v[0], w)
    if op == 'sitofp': return i2f_conc(sgn(v[0], v[1]), w)
    if op in ('fptosi', 'fptoui'): return f2i_conc(op, v[0], v[1], w)
    if op == 'fpext': return fpext(v[0])
    if op == 'fptrunc': return fptrunc(v[0])
    if op == 'frint': return rint_conc(v[1], v[0], w)
    raise KeyError(op)
