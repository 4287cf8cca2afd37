"""Deciding path conditions: independence slicing, model reuse, z3 (bit-vectors incrementally, FP by bit-blasting)."""
import time
import z3
import terms
from terms import T, evaluate, freevars

FP_SORT = {32: z3.Float32(), 64: z3.Float64()}
RNE = z3.RNE()


class Unknown(Exception):
    pass


def _bv(t, w, z):
    """as bit-vector"""
    if t.__class__ is int:
        return z3.BitVecVal(t, w)
    e = z(t)
    if t.w == 1:
        return z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return e


def _fp(t, w, z):
    return z3.fpBVToFP(_bv(t, w, z), FP_SORT[w])


def to_z3(t):
    """z3 expression (Bool for w=1), cached on the term"""
    if t.z is not None:
        return t.z
    stack = [t]
    while stack:
        x = stack[-1]
        if x.z is not None:
            stack.pop()
            continue
        ready = True
        for a in x.args:
            if a.__class__ is T:
                if a.z is None:
                    stack.append(a)
                    ready = False
            elif a.__class__ is tuple:
                for b in a:
                    if b.__class__ is T and b.z is None:
                        stack.append(b)
                        ready = False
        if ready:
            x.z = _tz(x)
            stack.pop()
    return t.z


def _z(t):
    return t.z


def _bool(a):
    if a.__class__ is int:
        return z3.BoolVal(bool(a))
    return a.z


def _tz(x):
    op, a, w = x.op, x.args, x.w
    if op == 'var':
        return z3.Bool(a[0]) if w == 1 else z3.BitVec(a[0], w)
    if op == 'not': return z3.Not(a[0].z)
    if w == 1 and op in ('and', 'or', 'xor', 'ite'):
        if op == 'and': return z3.And(_bool(a[0]), _bool(a[1]))
        if op == 'or': return z3.Or(_bool(a[0]), _bool(a[1]))
        if op == 'xor': return z3.Xor(_bool(a[0]), _bool(a[1]))
        return z3.If(_bool(a[0]), _bool(a[1]), _bool(a[2]))
    if op in ('eq', 'ult', 'ule', 'slt', 'sle'):
        aw = a[0].w if a[0].__class__ is T else a[1].w
        l, r = _bv(a[0], aw, _z), _bv(a[1], aw, _z)
        if op == 'eq': return l == r
        if op == 'ult': return z3.ULT(l, r)
        if op == 'ule': return z3.ULE(l, r)
        if op == 'slt': return l < r
        return l <= r
    if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr'):
        l, r = _bv(a[0], w, _z), _bv(a[1], w, _z)
        if op == 'add': return l + r
        if op == 'sub': return l - r
        if op == 'mul': return l * r
        if op == 'and': return l & r
        if op == 'or': return l | r
        if op == 'xor': return l ^ r
        if op == 'udiv': return z3.UDiv(l, r)
        if op == 'urem': return z3.URem(l, r)
        if op == 'sdiv': return l / r
        if op == 'srem': return z3.SRem(l, r)
        if op == 'shl': return l << r
        if op == 'lshr': return z3.LShR(l, r)
        return l >> r
    if op == 'zext': return z3.ZeroExt(w - a[0].w, _bv(a[0], a[0].w, _z))
    if op == 'sext': return z3.SignExt(w - a[0].w, _bv(a[0], a[0].w, _z))
    if op == 'extract':
        e = z3.Extract(a[1], a[2], _bv(a[0], a[0].w, _z))
        return e == 1 if w == 1 else e
    if op == 'concat':
        e = z3.Concat(*[_bv(p, pw, _z) for p, pw in zip(a[1:], a[0])])
        return e
    if op == 'ite': return z3.If(_bool(a[0]), _bv(a[1], w, _z), _bv(a[2], w, _z))
    if op == 'tab':
        base, vals = a
        e = _bv(vals[-1], w, _z)
        for i in range(len(vals) - 2, -1, -1):
            c = (base.z if base.lo + i else z3.Not(base.z)) if base.w == 1 else base.z == base.lo + i
            e = z3.If(c, _bv(vals[i], w, _z), e)
        return e
    if op in FPRES:
        return z3.BitVec('!f%d' % x.uid, w)      # defined by side(x)
    if op == 'fptosi': return z3.fpToSBV(z3.RTZ(), _fp(a[0], a[1], _z), z3.BitVecSort(w))
    if op == 'fptoui': return z3.fpToUBV(z3.RTZ(), _fp(a[0], a[1], _z), z3.BitVecSort(w))
    raise KeyError(op)


FPRES = frozenset(('fadd', 'fsub', 'fmul', 'fdiv', 'fsqrt', 'fpext', 'fptrunc', 'uitofp', 'sitofp', 'frint'))
_side = {}


def side(x):
    """the definition of the floating-point result x: its bits are those of the IEEE value (NaN: the x86 default)"""
    r = _side.get(x.uid)
    if r is not None and r[0] is x:
        return r[1]
    op, a, w = x.op, x.args, x.w
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
        e = f(RNE, _fp(a[0], w, to_z3), _fp(a[1], w, to_z3))
    elif op == 'fsqrt': e = z3.fpSqrt(RNE, _fp(a[0], w, to_z3))
    elif op == 'fpext': e = z3.fpFPToFP(RNE, _fp(a[0], 32, to_z3), FP_SORT[64])
    elif op == 'fptrunc': e = z3.fpFPToFP(RNE, _fp(a[0], 64, to_z3), FP_SORT[32])
    elif op == 'uitofp': e = z3.fpUnsignedToFP(RNE, _bv(a[0], a[1], to_z3), FP_SORT[w])
    elif op == 'sitofp': e = z3.fpSignedToFP(RNE, _bv(a[0], a[1], to_z3), FP_SORT[w])
    else:
        m = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA(), 'rint': RNE}[a[1]]
        e = z3.fpRoundToIntegral(m, _fp(a[0], w, to_z3))
    z = to_z3(x)
    r = z3.And(z3.fpBVToFP(z, FP_SORT[w]) == e, z3.Implies(z3.fpIsNaN(e), z == terms.XNAN[w]))
    _side[x.uid] = (x, r)
    return r


def fpdefs(cons):
    seen, out, stack = set(), [], list(cons)
    while stack:
        x = stack.pop()
        if x in seen or not x.fp:
            continue
        seen.add(x)
        if x.op in FPRES:
            out.append(x)
        for a in x.args:
            if a.__class__ is T:
                stack.append(a)
            elif a.__class__ is tuple:
                stack.extend(b for b in a if b.__class__ is T)
    return out


class Solver:
    def __init__(self, timeout_ms=120000):
        self.timeout = timeout_ms
        self.queries = self.sat = self.unsat = 0
        self.time = 0.0
        self.cache = {}
        self._new()

    def _new(self):
        self.inc = z3.SolverFor('QF_FD')
        self.inc.set('timeout', self.timeout)
        self.lits = {}

    def _lit(self, t):
        l = self.lits.get(t)
        if l is None:
            l = z3.Bool('!p%d' % t.uid)
            self.inc.add(z3.Implies(l, to_z3(t)))
            self.lits[t] = l
        return l

    def solve(self, cons):
        """cons: iterable of w=1 terms -> None (unsat) or {varterm: int}"""
        key = frozenset(cons)
        if key in self.cache:
            return self.cache[key]
        t0 = time.time()
        self.queries += 1
        fp = any(c.fp for c in cons)
        if fp:
            s = z3.Then('simplify', 'fpa2bv', 'simplify', 'propagate-values', 'solve-eqs', 'bit-blast', 'sat').solver()
            s.set('timeout', self.timeout)
            for c in cons:
                s.add(to_z3(c))
            for d in fpdefs(cons):
                s.add(side(d))
            r = s.check()
        else:
            if len(self.lits) > 4000:
                self._new()
            s = self.inc
            r = s.check(*[self._lit(c) for c in cons])
        self.time += time.time() - t0
        if r == z3.unknown:
            raise Unknown(s.reason_unknown())
        if r == z3.unsat:
            self.unsat += 1
            self.cache[key] = None
            return None
        self.sat += 1
        m = s.model()
        vs = frozenset()
        for c in cons:
            vs |= freevars(c)
        model = {}
        for v in vs:
            e = m.eval(to_z3(v), model_completion=True)
            if v.w == 1:
                model[v] = 1 if z3.is_true(e) else 0
            else:
                model[v] = e.as_long()
        # the engine's own semantics must agree with the solver's on every model
        memo = {}
        for c in cons:
            if evaluate(c, model, memo) != 1:
                if fp:
                    model = self._fix(cons, model)
                    break
                raise AssertionError('solver/evaluator disagreement on %r' % (c,))
        self.cache[key] = model
        return model

    def _fix(self, cons, model):
        # NaN payloads are unspecified in SMT-LIB; anything else is a bug in the encoding
        raise Unknown('model disagrees with evaluator (NaN payload dependence)')


def slice_for(pc, cond):
    """constraints of pc connected to cond through shared variables"""
    need = set(freevars(cond))
    out = []
    rest = list(pc)
    changed = True
    while changed:
        changed = False
        keep = []
        for c in rest:
            fv = freevars(c)
            if not need.isdisjoint(fv):
                out.append(c)
                if not fv <= need:
                    need |= fv
                    changed = True
                else:
                    pass
            else:
                keep.append(c)
        rest = keep
    return out
