"""Symbolic execution of LLVM IR: forks at undecided branches, byte-accurate memory with bounds,
lifetime and leak tracking, everything else symbolic.  Each path's assertions go to the solver."""
import sys, time
import terms as tm
from terms import T, MASK, evaluate, freevars
from ir import Ref, UNDEF, Module, Ty
from solver import Solver, Unknown, slice_for

SHIFT = 40
sys.setrecursionlimit(20000)


class PathEnd(Exception):
    pass


class Limit(Exception):
    pass


class Restart(Exception):
    """re-execute the current instruction"""


class Violation:
    def __init__(self, msg, where, values, trace, kind):
        self.msg, self.where, self.values, self.trace, self.kind = msg, where, values, trace, kind

    def __repr__(self):
        return '%s at %s' % (self.msg, self.where)


def plain(v):
    return v.__class__ is int or v.__class__ is T


class Multi:
    """two 4-byte values, at least one of them abstract, moved as one of 8 bytes"""
    __slots__ = ('parts',)

    def __init__(self, a, b):
        self.parts = (a, b)


class Obj:
    __slots__ = ('size', 'cells', 'default', 'owner', 'kind', 'name', 'const')

    def __init__(self, size, default, owner, kind, name, const=False):
        self.size, self.cells, self.default, self.owner, self.kind, self.name, self.const = size, {}, default, owner, kind, name, const

    def clone(self, owner):
        o = Obj(self.size, self.default, owner, self.kind, self.name, self.const)
        o.cells = dict(self.cells)
        return o


class Frame:
    __slots__ = ('fn', 'code', 'idx', 'regs', 'dest', 'allocas', 'va', 'setjmps')

    def clone(self):
        f = Frame()
        f.fn, f.code, f.idx, f.regs, f.dest = self.fn, self.code, self.idx, list(self.regs), self.dest
        f.allocas = list(self.allocas)
        f.va = self.va
        f.setjmps = self.setjmps
        return f


class State:
    __slots__ = ('stack', 'fr', 'mem', 'pc', 'model', 'fixed', 'smemo', 'known', 'nd', 'owner', 'nobj', 'steps', 'jmps', 'nvar', 'forks', 'freed', 'ext')

    def clone(self, eng):
        s = State()
        s.stack = [f.clone() for f in self.stack]
        s.fr = s.stack[-1]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.model = self.model
        s.fixed = dict(self.fixed)
        s.smemo = {}
        s.known = dict(self.known)
        s.nd = self.nd
        s.nobj = self.nobj
        s.steps = self.steps
        s.jmps = dict(self.jmps)
        s.nvar = self.nvar
        s.forks = self.forks
        s.freed = self.freed
        s.ext = dict(self.ext)
        eng.owner += 1
        self.owner = eng.owner
        eng.owner += 1
        s.owner = eng.owner
        return s

    # ---- path condition ----
    def simp(self, t):
        if t.__class__ is int:
            return t
        k = self.known.get(t)
        if k is not None:
            return k
        fx = self.fixed
        if not fx:
            return t
        fv = freevars(t)
        if fv.isdisjoint(fx):
            return t
        return substitute(t, fx, self.smemo)

    def learn(self, c):
        """c has been added to the path condition: harvest var = const facts"""
        if c.__class__ is int:
            return
        st = [c]
        while st:
            x = st.pop()
            if x.op == 'and':
                st.append(x.args[0])
                st.append(x.args[1])
            elif x.op == 'eq' and x.args[1].__class__ is int:
                a = x.args[0]
                if a.op == 'var' and a not in self.fixed:
                    self.fixed[a] = x.args[1]
                    self.smemo = {}
                else:
                    self.known[a] = x.args[1]
            elif x.op == 'var':
                self.fixed[x] = 1
                self.smemo = {}
            elif x.op == 'not' and x.args[0].op == 'var':
                self.fixed[x.args[0]] = 0
                self.smemo = {}


def substitute(t, fx, memo):
    if t.__class__ is int:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'var':
        r = fx.get(t, t)
        memo[t] = r
        return r
    fv = freevars(t)
    if fv.isdisjoint(fx):
        memo[t] = t
        return t
    a = t.args
    w = t.w
    op = t.op
    S = lambda x: substitute(x, fx, memo)
    if op == 'tab':
        base = S(a[0])
        if base.__class__ is int:
            r = S(a[1][base - a[0].lo])
        else:
            lo = base.lo - a[0].lo
            r = tm.mk_tab(base, tuple(S(v) for v in a[1][max(lo, 0):max(lo, 0) + base.hi - base.lo + 1]), w)
    elif op == 'ite':
        c = S(a[0])
        r = (S(a[1]) if c else S(a[2])) if c.__class__ is int else tm.ite(c, S(a[1]), S(a[2]), w)
    elif op == 'not': r = tm.bnot(S(a[0]))
    elif op == 'concat': r = tm.concat([(S(p), pw) for p, pw in zip(a[1:], a[0])])
    elif op == 'extract': r = tm.extract(S(a[0]), a[1], a[2])
    elif op == 'zext': r = tm.zext(S(a[0]), a[0].w, w)
    elif op == 'sext': r = tm.sext(S(a[0]), a[0].w, w)
    elif op == 'eq': r = tm.eq(S(a[0]), S(a[1]))
    elif op in ('ult', 'ule', 'slt', 'sle'): r = getattr(tm, op)(S(a[0]), S(a[1]), a[2])
    elif op in ('and', 'or'): r = getattr(tm, op + '_')(S(a[0]), S(a[1]), w)
    elif op in ('add', 'sub', 'mul', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'): r = getattr(tm, op)(S(a[0]), S(a[1]), w)
    elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'): r = tm.fbin(op, S(a[0]), S(a[1]), w)
    elif op == 'fsqrt': r = tm.fun(op, S(a[0]), w)
    elif op == 'uitofp': r = tm.uitofp(S(a[0]), a[1], w)
    elif op == 'sitofp': r = tm.sitofp(S(a[0]), a[1], w)
    elif op in ('fptosi', 'fptoui'): r = tm.fptoi(op, S(a[0]), a[1], w)
    elif op == 'fpext': r = tm.fpext(S(a[0]))
    elif op == 'fptrunc': r = tm.fptrunc(S(a[0]))
    elif op == 'frint': r = tm.frint(a[1], S(a[0]), w)
    else: raise KeyError(op)
    memo[t] = r
    return r


class CFunc:
    """a function translated to closures"""
    __slots__ = ('name', 'mod', 'f', 'code', 'template', 'nparams', 'slots', 'vararg', 'byval', 'lines', 'addr', 'retw')


class Engine:
    hurry = None        # shared clock: set once some job has a violation

    def cut(self):
        h = self.hurry
        if h is None:
            return False
        if not self.patient and not h.value and any(v.kind == 'assert' for v in self.violations):
            h.value = time.time()
        return h.value and time.time() > h.value + 20 and not self.patient

    def __init__(self, modules, max_paths=200000, max_steps=20000000, timeout=600, uninit_symbolic=True, entry_args=()):
        self.mods = modules
        self.solver = Solver()
        self.owner = 1
        self.work = []
        self.violations = []
        self.witnesses = set()
        self.asserts = {}
        self.paths = 0
        self.forks = 0
        self.steps = 0
        self.max_paths, self.max_steps = max_paths, max_steps
        self.deadline = time.time() + timeout
        self.patient = False
        self.called = set()
        self.ext = {}
        self.uninit_symbolic = uninit_symbolic
        self.seen_msgs = {}
        self.max_viol = 3
        self.hot = {}
        import builtins_ as B
        B.install(self)
        self._link()

    # ---- linking ----
    def _link(self):
        self.sym = {}        # global symbol -> addr
        self.msym = {}       # (mod, symbol) -> addr
        self.fn_at = {}      # addr -> CFunc or name
        self.base = State()
        b = self.base
        b.mem, b.nobj, b.owner = {}, 1, 0
        b.freed = frozenset()
        pend = []
        for m in self.mods:
            for name, f in m.funcs.items():
                addr = self._newbase(b)
                cf = CFunc()
                cf.name, cf.mod, cf.f, cf.code, cf.addr = name, m, f, None, addr
                self.fn_at[addr] = cf
                self.msym[(m, name)] = addr
                if not f.internal:
                    if name not in self.sym:
                        self.sym[name] = addr
            for name, (ty, init, const, internal) in m.globals.items():
                if init is None:
                    continue
                addr = self._newbase(b)
                o = Obj(m.size(ty), 0, 0, 'global', name, const)
                b.mem[addr >> SHIFT] = o
                self.msym[(m, name)] = addr
                if not internal:
                    self.sym[name] = addr
                pend.append((m, addr, ty, init, o))
        for m in self.mods:
            for name, v in m.aliases.items():
                if isinstance(v, Ref):
                    self.sym[name] = self._addr(m, v)
        for m, addr, ty, init, o in pend:
            self._init(m, o, 0, ty, init)

    def _newbase(self, st):
        st.nobj += 1
        return st.nobj << SHIFT

    def _addr(self, m, ref):
        a = self.msym.get((m, ref.name))
        if a is None:
            a = self.sym.get(ref.name)
        if a is None:
            # unresolved: an external function (handler looked up by name) or an undefined object
            a = self._newbase(self.base)
            self.fn_at[a] = ref.name[1:].strip('"').replace('\\01', '')
            self.sym[ref.name] = a
        return (a + ref.off) & MASK[64]

    def _cval(self, m, v, ty):
        if isinstance(v, int):
            return v
        if isinstance(v, Ref):
            return self._addr(m, v)
        if isinstance(v, tuple) and v and v[0] == 'expr':
            a, b = self._cval(m, v[3], v[2]), self._cval(m, v[4], v[2])
            r = a + b if v[1] == 'add' else a - b if v[1] == 'sub' else a * b
            return r & MASK[v[2].n]
        return v

    def _init(self, m, o, off, ty, v):
        t = m.resolve(ty)
        if isinstance(v, str) and v == 'zero' or v is UNDEF:
            return
        if t.k in ('arr', 'vec'):
            es = m.size(t.e)
            for i, x in enumerate(v):
                self._init(m, o, off + i * es, t.e, x)
        elif t.k == 'struct':
            offs = m.layout(t)[0]
            for i, x in enumerate(v):
                self._init(m, o, off + offs[i], t.e[i], x)
        else:
            c = self._cval(m, v, t)
            if c:
                o.cells[off] = (m.size(t), c)

    # ---- running ----
    def initial(self, name, args=()):
        b = self.base
        s = State()
        s.stack = []
        s.mem = dict(b.mem)
        s.pc = []
        s.model = {}
        s.fixed, s.smemo, s.known = {}, {}, {}
        s.nd = None
        s.nobj = b.nobj + 100000
        s.steps = 0
        s.jmps = {}
        s.nvar = 0
        s.forks = 0
        s.freed = frozenset()
        s.ext = {}
        self.owner += 1
        s.owner = self.owner
        f = self.fn_at[self.sym['@' + name]]
        self.push(s, f, list(args), None)
        return s

    def push(self, st, cf, args, dest):
        if cf.code is None:
            self.compile(cf)
        self.called.add(cf.name[1:])
        fr = Frame()
        fr.fn, fr.code, fr.idx, fr.dest = cf, cf.code, 0, dest
        R = list(cf.template)
        n = cf.nparams
        R[:n] = args[:n]
        fr.regs = R
        fr.allocas = []
        fr.setjmps = None
        fr.va = args[n:] if cf.vararg else None
        st.stack.append(fr)
        st.fr = fr
        if len(st.stack) > 400:
            self.report(st, 'recursion deeper than 400', 'engine')
            raise PathEnd

    def pop(self, st, val):
        fr = st.stack.pop()
        for a in fr.allocas:
            st.mem.pop(a, None)
        if not st.stack:
            self.ended(st)
            raise PathEnd
        st.fr = st.stack[-1]
        if fr.dest is not None:
            st.fr.regs[fr.dest] = val

    def ended(self, st):
        self.paths += 1

    def run(self, name='main', args=()):
        self.work.append(self.initial(name, args))
        work = self.work
        while work:
            st = work.pop()
            try:
                self.run_state(st)
            except PathEnd:
                pass
            if self.paths > self.max_paths:
                raise Limit('more than %d paths' % self.max_paths)
            if len(self.violations) >= self.max_viol:
                break
        return self

    def run_state(self, st):
        n = 0
        try:
            while True:
                for _ in range(2000):
                    fr = st.fr
                    i = fr.idx
                    fr.idx = i + 1
                    fr.code[i](st, fr)
                n += 2000
                st.steps += 2000
                self.steps += 2000
                if st.steps > self.max_steps:
                    self.report(st, 'does not terminate within %d steps' % self.max_steps, 'steps')
                    raise PathEnd
                if time.time() > self.deadline or self.cut():
                    raise Limit('time budget exhausted after %d paths, in %s' % (self.paths, self.where(st)))
        finally:
            pass

    def where(self, st):
        out = []
        for fr in reversed(st.stack):
            ln = fr.fn.lines[fr.idx - 1] if 0 < fr.idx <= len(fr.fn.lines) else 0
            out.append('%s:%s' % (fr.fn.name[1:], ln))
        return ' < '.join(out[:8])

    # ---- solver interface ----
    def sat(self, st, c):
        """model satisfying pc and c, or None"""
        c = st.simp(c)
        if c.__class__ is int:
            return st.model if c else None
        memo = {}
        if evaluate(c, st.model, memo) == 1:
            return st.model
        cons = slice_for(st.pc, c)
        cons.append(c)
        m = self.solver.solve(cons)
        if m is None:
            return None
        d = dict(st.model)
        d.update(m)
        return d

    def assume(self, st, c):
        c = st.simp(c)
        if c.__class__ is int:
            if not c:
                raise PathEnd
            return
        m = self.sat(st, c)
        if m is None:
            raise PathEnd
        st.model = m
        st.pc.append(c)
        st.learn(c)

    def fork_on(self, st, c):
        """c: w=1 term. -> (bool for this state, other state or None). Both are constrained."""
        c = st.simp(c)
        if c.__class__ is int:
            return c, None
        v = evaluate(c, st.model, {})
        yes, no = (c, tm.bnot(c)) if v else (tm.bnot(c), c)
        m = self.sat(st, no)
        if m is None:
            return v, None
        self.forks += 1
        o = st.clone(self)
        o.model = m
        o.pc.append(no)
        o.learn(no)
        st.pc.append(yes)
        st.learn(yes)
        st.forks += 1
        if time.time() > self.deadline or self.cut():
            raise Limit('time budget exhausted after %d paths, in %s' % (self.paths, self.where(st)))
        if st.forks + len(self.work) > 60000:
            raise Limit('fork explosion in %s' % self.where(st))
        return v, o

    def concretize(self, st, t):
        """fork over every feasible value of t; returns this path's value"""
        t = st.simp(t)
        if t.__class__ is int:
            return t
        if time.time() > self.deadline or self.cut():
            raise Limit('time budget exhausted after %d paths, in %s' % (self.paths, self.where(st)))
        v = evaluate(t, st.model, {})
        c = tm.eq(t, v)
        m = self.sat(st, tm.bnot(c))
        if m is not None:
            o = st.clone(self)
            o.model = m
            o.pc.append(tm.bnot(c))
            o.fr.idx -= 1           # the other state re-executes this instruction
            self.work.append(o)
            self.forks += 1
            st.forks += 1
            if st.forks > 20000:
                raise Limit('concretization explosion in %s' % self.where(st))
            st.pc.append(c)
            st.learn(c)
        st.known[t] = v
        # variables this pins down
        for x in freevars(t):
            if x not in st.fixed:
                xv = st.model.get(x, 0)
                if self.sat(st, tm.bnot(tm.eq(x, xv)) if x.w > 1 else (x if not xv else tm.bnot(x))) is None:
                    st.fixed[x] = xv
                    st.smemo = {}
        return v

    def fresh(self, st, w, tag='u'):
        st.nvar += 1
        return tm.var('%s%d_%d' % (tag, st.nvar, w), w)

    unset = None

    # ---- violations ----
    def report(self, st, msg, kind, model=None):
        if model is None:
            model = st.model
        k = self.seen_msgs.get(msg, 0)
        if k >= 1:
            return
        self.seen_msgs[msg] = k + 1
        vals = []
        n = st.nd
        memo = {}
        while n is not None:
            (kd, t), n = n
            vals.append((kd, evaluate(t, model, memo)))
        vals.reverse()
        self.violations.append(Violation(msg, self.where(st), vals, None, kind))

    def check(self, st, c, msg, kind='assert'):
        """assert c on this path"""
        self.asserts[msg] = self.asserts.get(msg, 0) + 1
        if kind == 'assert' and c.__class__ is T:
            c = st.simp(c)
        if c.__class__ is int:
            if not c:
                self.report(st, msg, kind)
                raise PathEnd
            return
        m = self.sat(st, tm.bnot(c))
        if m is not None:
            self.report(st, msg, kind, m)
            self.assume(st, c)

    def error(self, st, msg, kind='memory'):
        self.report(st, msg, kind)
        raise PathEnd

    # ---- memory ----
    def alloc(self, st, size, default, kind, name):
        st.nobj += 1
        o = Obj(size, default, st.owner, kind, name)
        st.mem[st.nobj] = o
        return st.nobj << SHIFT

    def resolve(self, st, addr, n, what):
        """concrete (object id, object, offset) for an access of n bytes"""
        if addr.__class__ is T:
            a2 = st.simp(addr)
            if a2.__class__ is T:
                a2 = self._symaddr(st, a2, n, what)
            addr = a2
        oid = addr >> SHIFT
        off = addr & MASK[SHIFT]
        o = st.mem.get(oid)
        if o is None:
            if addr < (1 << SHIFT):
                self.error(st, '%s through a null or invalid pointer' % what)
            if off >= (1 << (SHIFT - 1)):
                o2 = st.mem.get(oid + 1)
                if o2 is not None:
                    self.error(st, '%s before the start of %s' % (what, o2.name))
            if oid in st.freed:
                self.error(st, '%s after free' % what)
            self.error(st, '%s of an object whose lifetime ended (or out of bounds)' % what)
        sz = o.size
        if sz.__class__ is int:
            if off + n > sz:
                self.error(st, '%s beyond the end of %s (%d bytes)' % (what, o.name, sz))
        else:
            self.check(st, tm.ule(off + n, sz, 64), '%s within %s' % (what, o.name), 'memory')
        return oid, o, off

    def _symaddr(self, st, a, n, what):
        v = evaluate(a, st.model, {})
        oid = v >> SHIFT
        o = st.mem.get(oid)
        if o is None:
            self.error(st, '%s through an invalid pointer' % what)
        base = oid << SHIFT
        if o.size.__class__ is int:
            inb = tm.band(tm.ule(base, a, 64), tm.ule(a, base + o.size - n, 64)) if o.size >= n else 0
        else:
            off = tm.sub(a, base, 64)
            inb = tm.band(tm.ule(base, a, 64), tm.band(tm.ule(off, o.size, 64), tm.ule(n, tm.sub(o.size, off, 64), 64)))
        m = self.sat(st, tm.bnot(inb))
        if m is not None:
            # another live object, or out of bounds
            w = evaluate(a, m, {})
            o2 = st.mem.get(w >> SHIFT)
            ok = o2 is not None and o2 is not o and (w & MASK[SHIFT]) + n <= (o2.size if o2.size.__class__ is int else evaluate(o2.size, m, {})) \
                and a.op in ('ite', 'tab')
            if not ok:
                self.report(st, '%s outside %s' % (what, o.name), 'memory', m)
                self.assume(st, inb)
        return self.concretize(st, a)

    def load(self, st, addr, n):
        oid, o, off = self.resolve(st, addr, n, 'read')
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        return self._load_slow(st, oid, o, off, n)

    def _load_slow(self, st, oid, o, off, n):
        cells = o.cells
        if n == 4:                              # half of two abstract numbers copied together
            for p, i in ((off, 0), (off - 4, 1)):
                c = cells.get(p)
                if c is not None and c[0] == 8 and c[1].__class__ is Multi:
                    return c[1].parts[i]
        elif n == 8:
            a, b = cells.get(off), cells.get(off + 4)
            if (a is not None and a[0] == 4 and not plain(a[1])) or (b is not None and b[0] == 4 and not plain(b[1])):
                ad = (oid << SHIFT) + off
                return Multi(self.load(st, ad, 4), self.load(st, ad + 4, 4))
        cover = None
        for p in range(off - 7, off + n):
            c = cells.get(p)
            if c is not None and p + c[0] > off:
                cover = True
                break
        if not cover:
            if o.default == 0:
                return 0
            if self.unset is not None and n in (4, 8):      # affine numbers: a float never written
                v = [self.unset(self.fresh(st, 32, 'uninit')) for i in range(n // 4)]
                v = v[0] if n == 4 else Multi(*v)
            else:
                v = self.fresh(st, 8 * n, 'uninit')
            o = self.own(st, oid, o)
            o.cells[off] = (n, v)
            return v
        parts = []
        i = off + n - 1
        while i >= off:
            parts.append((self._byte(st, oid, o, i), 8))
            o = st.mem[oid]
            i -= 1
        return tm.concat(parts)

    def _byte(self, st, oid, o, p):
        cells = o.cells
        for q in range(p, p - 8, -1):
            c = cells.get(q)
            if c is not None and q + c[0] > p:
                if c[1].__class__ is not int and c[1].__class__ is not T:
                    raise Limit('byte access to an abstract number')
                k = (p - q) * 8
                v = c[1]
                return (v >> k) & 255 if v.__class__ is int else tm.extract(tm.zext(v, v.w, c[0] * 8) if v.w != c[0] * 8 else v, k + 7, k)
        if o.default == 0:
            return 0
        v = self.fresh(st, 8, 'uninit')
        o = self.own(st, oid, o)
        o.cells[p] = (1, v)
        return v

    def own(self, st, oid, o):
        if o.owner != st.owner:
            o = o.clone(st.owner)
            st.mem[oid] = o
        return o

    def store(self, st, addr, n, v):
        oid, o, off = self.resolve(st, addr, n, 'write')
        if o.const:
            self.error(st, 'write to read-only %s' % o.name)
        if o.owner != st.owner:
            o = o.clone(st.owner)
            st.mem[oid] = o
        c = o.cells.get(off)
        if c is None or c[0] != n:
            self._clear(st, oid, o, off, n)
        o.cells[off] = (n, v)

    def _clear(self, st, oid, o, off, n):
        """split whatever overlaps [off, off+n)"""
        cells = o.cells
        for p in range(off - 7, off + n):
            c = cells.get(p)
            if c is None or p + c[0] <= off:
                continue
            end = p + c[0]
            if p >= off and end <= off + n:
                del cells[p]
                continue
            v = c[1]
            keep = []
            if v.__class__ is Multi:
                del cells[p]
                cells[p], cells[p + 4] = (4, v.parts[0]), (4, v.parts[1])
                self._clear(st, oid, o, off, n)
                return
            if not plain(v):
                raise Limit('byte access to an abstract number')
            for q in range(p, end):
                if not off <= q < off + n:
                    k = (q - p) * 8
                    if v.__class__ is int:
                        keep.append((q, (v >> k) & 255))
                    else:
                        keep.append((q, tm.extract(tm.zext(v, v.w, c[0] * 8) if v.w != c[0] * 8 else v, k + 7, k)))
            del cells[p]
            for q, b in keep:
                cells[q] = (1, b)

    def memcpy(self, st, d, s, n):
        n = self.concretize(st, n) if n.__class__ is T else n
        if n == 0:
            return
        so, sobj, soff = self.resolve(st, s, n, 'read')
        do, dobj, doff = self.resolve(st, d, n, 'write')
        if dobj.const:
            self.error(st, 'write to read-only %s' % dobj.name)
        items = []
        cells = sobj.cells
        if len(cells) < n:
            it = sorted(p for p in cells if soff - 8 < p < soff + n)
        else:
            it = [p for p in range(soff - 7, soff + n) if p in cells]
        covered = 0
        partial = []
        for p in it:
            sz, v = cells[p]
            if p + sz <= soff:
                continue
            if p < soff or p + sz > soff + n:
                partial.append(p)
                continue
            items.append((p - soff, sz, v))
            covered += sz
        for p in partial:
            sz, v = cells[p]
            for q in range(max(p, soff), min(p + sz, soff + n)):
                items.append((q - soff, 1, self._byte(st, so, sobj, q)))
        dobj = self.own(st, do, dobj)
        dc = dobj.cells
        for p in range(doff - 7, doff):
            if p in dc and p + dc[p][0] > doff:
                self._clear(st, do, dobj, doff, n)
                break
        if dc:
            self._wipe(st, do, dobj, doff, n)
        total = sum(x[1] for x in items)
        if total < n and sobj.default != dobj.default:
            # bytes the source never wrote
            have = set()
            for p, sz, v in items:
                have.update(range(p, p + sz))
            i = 0
            while i < n:
                if i in have:
                    i += 1
                    continue
                if sobj.default == 0:
                    w = 8 if i % 8 == 0 and not any(j in have for j in range(i, i + 8)) and i + 8 <= n else 1
                    dc[doff + i] = (w, 0)
                else:
                    w = 1
                    dc[doff + i] = (1, self.fresh(st, 8, 'uninit'))
                i += w
        for p, sz, v in items:
            dc[doff + p] = (sz, v)

    def _wipe(self, st, oid, o, off, n):
        cells = o.cells
        if len(cells) < n:
            ps = [p for p in cells if off - 8 < p < off + n]
        else:
            ps = [p for p in range(off - 7, off + n) if p in cells]
        for p in ps:
            c = cells.get(p)
            if c is None or p + c[0] <= off:
                continue
            if p >= off and p + c[0] <= off + n:
                del cells[p]
            else:
                self._clear(st, oid, o, off, n)

    def memset(self, st, d, v, n):
        n = self.concretize(st, n) if n.__class__ is T else n
        if n == 0:
            return
        oid, o, off = self.resolve(st, d, n, 'write')
        if o.const:
            self.error(st, 'write to read-only %s' % o.name)
        o = self.own(st, oid, o)
        self._wipe(st, oid, o, off, n)
        if v.__class__ is int and v == 0 and o.default == 0:
            return
        i = 0
        while i < n:
            w = 4 if n - i >= 4 and (off + i) % 4 == 0 else 1
            if w == 8 and n - i >= 8:
                pass
            if v.__class__ is int:
                x = int.from_bytes(bytes([v & 255]) * w, 'little')
            else:
                b = tm.extract(v, 7, 0) if v.w > 8 else v
                x = tm.concat([(b, 8)] * w) if w > 1 else b
            o.cells[off + i] = (w, x)
            i += w

    def cstr(self, st, addr, limit=4096):
        out = bytearray()
        while len(out) < limit:
            b = self.load(st, addr + len(out), 1)
            if b.__class__ is T:
                b = self.concretize(st, b)
            if b == 0:
                return out.decode('latin1')
            out.append(b)
        return out.decode('latin1')

    # ---- compilation to closures ----
    def compile(self, cf):
        from compile import compile_function
        compile_function(self, cf)
