"""Symbolic execution of Python code by proxies and re-execution: values are z3 terms, every test on one
asks the solver which outcomes are feasible, and the program is run once for each feasible sequence of outcomes."""
import time, struct, z3

class Unsupported(BaseException): pass
class Violation(BaseException): pass
class Infeasible(BaseException): pass

class Ctx:
    cur = None
    def __init__(self, prefix, values=None):
        self.values, self.vars = values, {}
        self.prefix, self.pos, self.taken = prefix, 0, []
        self.solver = z3.Solver(); self.solver.set('timeout', 20000)
        self.pending, self.names, self.violation = [], {}, None
        self.queries, self.time = 0, 0.0
    def check(self, *extra):
        t = time.time(); r = self.solver.check(*extra); self.time += time.time()-t; self.queries += 1
        if r == z3.unknown: raise Unsupported('the solver gave no answer: '+self.solver.reason_unknown())
        return r == z3.sat
    def assume(self, c):
        self.solver.add(c)
        if not self.check(): raise Infeasible()
    def _name(self, name):
        n = self.names[name] = self.names.get(name, 0)+1
        return name if n == 1 else '%s#%d' % (name, n)
    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        if self.values is not None: return self.values.get(name, lo if lo is not None else 0)
        c = z3.Int(name); self.vars[name] = c
        if lo is not None: self.solver.add(c >= lo)
        if hi is not None: self.solver.add(c <= hi)
        return SymInt(c)
    def choice(self, name, options):
        """every option is feasible: no question for the solver"""
        name = self._name(name)
        if self.values is not None: return options[self.values.get(name, 0)]
        if self.pos < len(self.prefix): v = self.prefix[self.pos][1]
        else:
            v = 0
            self.pending += [self.taken+[(True, k)] for k in range(1, len(options))]
        self.pos += 1; self.taken.append((True, v)); self.vars[name] = z3.IntVal(v)
        return options[v]
    def flag(self, name): return self.choice(name, [False, True])
    def float(self, name):
        """any double, including the non-finite"""
        name = self._name(name)
        if self.values is not None:
            return struct.unpack('<d', struct.pack('<Q', self.values.get(name, 0)))[0]
        c = z3.BitVec(name, 64); self.vars[name] = c
        return SymFloat(z3.fpBVToFP(c, F64))
    def cfloat(self, name):
        """a Python float that came from any C float"""
        name = self._name(name)
        if self.values is not None:
            return struct.unpack('<f', struct.pack('<I', self.values.get(name, 0)))[0]
        c = z3.BitVec(name, 32); self.vars[name] = c
        return SymFloat(z3.fpToFP(RNE, z3.fpBVToFP(c, F32), F64), c)
    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            t, f = self.check(c), self.check(z3.Not(c))
            if not t and not f: raise Infeasible()
            d = t
            if t and f: self.pending.append(self.taken+[False])
        self.pos += 1; self.taken.append(d)
        self.solver.add(c if d else z3.Not(c))
        return d
    def concretize(self, e):
        e = z3.simplify(e)
        while not z3.is_int_value(e):
            if not self.check(): raise Infeasible()
            # one value after the other, in an order that does not depend on the solver's models being reproducible
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos][1]
            else:
                v = self.solver.model().eval(e, model_completion=True).as_long()
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos][0]
            else:
                d = True
                if self.check(e != v): self.pending.append(self.taken+[(False, v)])
            self.pos += 1; self.taken.append((d, v))
            if d:
                self.solver.add(e == v); return v
            self.solver.add(e != v)
        return e.as_long()
    def fail(self, msg):
        """a violation on the current path (which is feasible)"""
        if self.violation is None:
            m = {}
            if self.values is None and self.check():
                mod = self.solver.model()
                for n, c in self.vars.items(): m[n] = c.as_long() if z3.is_int_value(c) else mod.eval(c, model_completion=True).as_long()
            self.violation = (msg, m)
        raise Violation(msg)
    def require(self, cond, msg):
        """cond must hold on every path: one on which it can fail is a violation"""
        if isinstance(cond, SymBool): cond = cond.e
        if isinstance(cond, bool):
            if not cond: self.fail(msg)
            return
        if not self.branch(cond): self.fail(msg)

def ctx(): return Ctx.cur

def raw(v):
    if isinstance(v, SymInt): return v.e
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(int(v))
    return None

class SymBool:
    def __init__(self, e): self.e = e
    def __bool__(self): return ctx().branch(self.e)
    def __eq__(self, o): return SymBool(self.e == (o.e if isinstance(o, SymBool) else bool(o)))
    def __hash__(self): return hash(bool(self))
    def __int__(self): return int(bool(self))
    def __repr__(self): return 'SymBool'

def _int(op, rev=False):
    def f(a, b):
        b = raw(b)
        if b is None: return NotImplemented
        return SymInt(z3.simplify(op(b, a.e) if rev else op(a.e, b)))
    return f
def _cmp(op):
    def f(a, b):
        b = raw(b)
        if b is None: return NotImplemented
        return SymBool(op(a.e, b))
    return f
class SymInt:
    def __init__(self, e): self.e = e
    __add__ = _int(lambda a, b: a+b); __radd__ = _int(lambda a, b: a+b, True)
    __sub__ = _int(lambda a, b: a-b); __rsub__ = _int(lambda a, b: a-b, True)
    __mul__ = _int(lambda a, b: a*b); __rmul__ = _int(lambda a, b: a*b, True)
    __lt__ = _cmp(lambda a, b: a < b); __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b); __ge__ = _cmp(lambda a, b: a >= b)
    def __eq__(self, o):
        b = raw(o)
        return SymBool(self.e == b) if b is not None else False
    def __ne__(self, o):
        b = raw(o)
        return SymBool(self.e != b) if b is not None else True
    def __neg__(self): return SymInt(z3.simplify(-self.e))
    def __pos__(self): return self
    def __abs__(self): return -self if self < 0 else self
    # Python's floor division and modulus; SMT-LIB's agree with them for positive divisors
    def _div(self, o, swap, mod):
        a, b = (raw(o), self.e) if swap else (self.e, raw(o))
        if a is None or b is None: return NotImplemented
        if ctx().branch(b == 0): raise ZeroDivisionError('integer division or modulo by zero')
        if ctx().branch(b < 0): a, b = -a, -b; return SymInt(z3.simplify(a/b)) if not mod else SymInt(z3.simplify(-(a % b)))
        return SymInt(z3.simplify(a % b if mod else a/b))
    def __floordiv__(self, o): return self._div(o, False, False)
    def __rfloordiv__(self, o): return self._div(o, True, False)
    def __mod__(self, o): return self._div(o, False, True)
    def __rmod__(self, o): return self._div(o, True, True)
    def __divmod__(self, o): return self//o, self % o
    def __bool__(self): return ctx().branch(self.e != 0)
    def __index__(self): return ctx().concretize(self.e)
    __int__ = __index__
    def __hash__(self): return hash(ctx().concretize(self.e))
    def __repr__(self): return '<%s>' % self.e
    def __format__(self, s): return repr(self)

F64, F32, RNE = z3.Float64(), z3.Float32(), z3.RNE()
def fraw(v):
    if isinstance(v, SymFloat): return v.e
    if isinstance(v, (int, float)): return z3.FPVal(float(v), F64)
    return None
def exact32(b):
    try: return isinstance(b, (int, float)) and struct.unpack('<f', struct.pack('<f', b))[0] == b
    except OverflowError: return False
def fpair(a, b):
    """both operands in the narrowest format that holds them"""
    if a.bits is not None and isinstance(b, SymFloat) and b.bits is not None: return z3.fpBVToFP(a.bits, F32), z3.fpBVToFP(b.bits, F32)
    if a.bits is not None and exact32(b): return z3.fpBVToFP(a.bits, F32), z3.FPVal(float(b), F32)
    return a.e, fraw(b)
def _fcmp(op):
    def f(a, b):
        x, y = fpair(a, b)
        if y is None: return NotImplemented
        return SymBool(op(x, y))
    return f
class SymFloat:
    """a Python float: any double, or one that is the value of the C float of the given bits"""
    def __init__(self, e, bits=None): self.e, self.bits = e, bits
    __lt__ = _fcmp(z3.fpLT); __le__ = _fcmp(z3.fpLEQ); __gt__ = _fcmp(z3.fpGT); __ge__ = _fcmp(z3.fpGEQ)
    def __eq__(self, o):
        x, y = fpair(self, o)
        return SymBool(z3.fpEQ(x, y)) if y is not None else False
    def __ne__(self, o):
        x, y = fpair(self, o)
        return SymBool(z3.Not(z3.fpEQ(x, y))) if y is not None else True
    def __bool__(self): return bool(self != 0.0)
    def __hash__(self): raise Unsupported('hash of a symbolic float')
    def __float__(self): raise Unsupported('a symbolic float used as a concrete one')
    def __repr__(self): return '<%s>' % self.e
    def __format__(self, s): return repr(self)
def isnum(v): return isinstance(v, (SymInt, SymFloat, int, float))

def same(a, b):
    """z3 condition: the two Python values are identical"""
    if isinstance(a, (SymInt, int)) and isinstance(b, (SymInt, int)): return z3.simplify(raw(a) == raw(b))
    if isinstance(a, SymFloat) and isinstance(b, SymFloat) and a.bits is not None and b.bits is not None: return z3.simplify(a.bits == b.bits)
    if isinstance(a, (SymFloat, float)) and isinstance(b, (SymFloat, float)): return z3.simplify(fraw(a) == fraw(b))
    return z3.BoolVal(type(a) is type(b) and a == b)

def replay(run, values):
    """the same program on concrete values, with no solver: the violation it meets, if any"""
    c = Ctx.cur = Ctx([], values)
    try: run(c)
    except (Violation, Infeasible, Unsupported, Exception): pass
    finally: Ctx.cur = None
    return c.violation and c.violation[0]

def explore(run, limit=20000, seconds=240):
    """run(ctx) once per feasible path; returns (violations, paths, queries, solver seconds, unsupported)"""
    work, out, paths, q, st, unsup = [[]], [], 0, 0, 0.0, {}
    t0 = time.time()
    while work:
        if paths >= limit or time.time()-t0 > seconds:
            unsup['budget'] = 'stopped after %d paths' % paths; break
        c = Ctx.cur = Ctx(work.pop())
        try: run(c); paths += 1
        except Infeasible: pass
        except Unsupported as e: unsup[str(e)] = str(e)
        except Violation: paths += 1
        except Exception as e:      # of the scenario itself, or of the module's own code when it is loaded
            import traceback
            if not c.violation: unsup[type(e).__name__] = traceback.format_exc()[-600:]
        if c.violation: out.append(c.violation)
        q += c.queries; st += c.time; work += c.pending
        Ctx.cur = None
        if len(out) >= 3: break
    return out, paths, q, st, list(unsup.values())
