"""Affine numbers: c + sum k_i x_i with inputs x_i in [-1,1] and a sound bound on the accumulated rounding error.

For code that is linear in its inputs (a Fourier transform with constant twiddle factors) a float is carried as the exact
affine function it computes, up to err (the standard model of rounding, relative 2^-24 or 2^-53 per operation).  A
comparison becomes a query of linear real arithmetic over every input in the box and every error within its bound."""
import math
import time
from fractions import Fraction
import numpy as np
import z3
import terms as tm
from terms import T
import compile as C
from engine import Limit

EPS = {32: 2.0 ** -24, 64: 2.0 ** -53}
TINY = 2.0 ** -140
VARS = []


class Aff:
    __slots__ = ('c', 'k', 'err')

    def __init__(self, c, k, err):
        self.c, self.k, self.err = c, k, err

    def bound(self):
        return abs(self.c) + float(np.abs(self.k).sum()) + self.err


class Mag:
    """magnitude of an affine number (only ever compared with infinity)"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def _pad(a, b):
    n = max(len(a), len(b))
    if len(a) < n:
        a = np.concatenate([a, np.zeros(n - len(a))])
    if len(b) < n:
        b = np.concatenate([b, np.zeros(n - len(b))])
    return a, b


def num(v, w):
    if v.__class__ is Aff:
        return v
    if v.__class__ is int:
        x = tm.to_py(v, w)
        if math.isnan(x) or math.isinf(x):
            raise Limit('affine number combined with a non-finite constant')
        return Aff(x, np.zeros(0), 0.0)
    raise Limit('affine number combined with a symbolic one')


def _round(r, w):
    """the result of one rounded operation; the coefficients themselves are computed in doubles: their own error is counted too"""
    b = r.bound()
    r.err = r.err * (1 + 1e-12) + b * (EPS[w] + 2.0 ** -50) + TINY
    if b > (1e37 if w == 32 else 1e300):
        raise Limit('affine number too large')
    return r


class Domain:
    queries = 0
    solver_s = 0.0

    def bin(self, op, p, q, w):
        a, b = num(p, w), num(q, w)
        if op in ('fadd', 'fsub'):
            x, y = _pad(a.k, b.k)
            s = 1 if op == 'fadd' else -1
            if not b.k.any() and b.c == 0 and b.err == 0:
                return a
            if op == 'fadd' and not a.k.any() and a.c == 0 and a.err == 0:
                return b
            return _round(Aff(a.c + s * b.c, x + s * y, a.err + b.err), w)
        if op == 'fmul':
            if len(a.k) and a.k.any() and len(b.k) and b.k.any():
                raise Limit('product of two inputs')
            if a.k.any() or a.err and not b.k.any():
                a, b = b, a
            if a.err:
                raise Limit('product with an inexact constant')
            r = Aff(a.c * b.c, a.c * b.k, abs(a.c) * b.err)
            if math.frexp(a.c)[0] in (0.5, -0.5, 0.0):       # a power of two: exact
                return r
            return _round(r, w)
        if op == 'fdiv':
            if b.k.any() or b.err or b.c == 0:
                raise Limit('division by an input')
            return _round(Aff(a.c / b.c, a.k / b.c, a.err / abs(b.c)), w)
        raise Limit('affine ' + op)

    def neg(self, v, w):
        return Aff(-v.c, -v.k, v.err)

    def ext(self, v):
        return v

    def trunc(self, v):
        return _round(Aff(v.c, v.k.copy(), v.err), 32)

    def fn(self, name, v, w):
        if 'fabs' in name:
            return Mag(v)
        raise Limit('affine ' + name)

    def cmp(self, eng, st, pred, p, q, w):
        for x, other, lo in ((p, q, 1), (q, p, 0)):         # any affine number is finite
            if other.__class__ is int and math.isinf(tm.to_py(other, w)) and x.__class__ in (Aff, Mag):
                below = (tm.to_py(other, w) > 0) == bool(lo)
                return int({'lt': below, 'le': below, 'gt': not below, 'ge': not below, 'eq': False, 'ne': True, 'rd': True, 'no': False}[pred[-2:]])
        a, b = num(p, w), num(q, w)
        x, y = _pad(a.k, b.k)
        c, k, err = a.c - b.c, x - y, a.err + b.err
        if pred[1:] in ('eq', 'ne') or pred in ('ord', 'uno'):
            if pred in ('ord', 'uno'):
                return int(pred == 'ord')
            raise Limit('affine equality')
        # a pred b as d < 0 / d <= 0, or the opposite
        d = {'lt': 1, 'le': 1, 'gt': -1, 'ge': -1}[pred[1:]]
        strict = pred[1:] in ('lt', 'gt')
        # is there an input in the box and an error within its bound for which the comparison is false?
        xs = [z3.Real('x%d' % i) for i in range(len(k))]
        e = z3.Real('e')
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', 60000)
        for i, v in enumerate(xs):
            if k[i]:
                s.add(v >= -1, v <= 1)
        er = z3.Q(*Fraction(err).as_integer_ratio())
        s.add(e >= -er, e <= er)
        f = lambda v: z3.Q(*Fraction(float(v)).as_integer_ratio())
        lin = z3.Sum([f(c * d), e] + [f(k[i] * d) * xs[i] for i in range(len(k)) if k[i]])
        t0 = time.time()
        s.push()
        s.add(lin >= 0 if strict else lin > 0)
        r = s.check()
        s.pop()
        if r == z3.unsat:
            v = 1
        elif r == z3.sat:
            s.add(lin < 0 if strict else lin <= 0)
            if s.check() == z3.unsat:
                v = 0
            else:
                if st.fr.fn.name not in ('@main', '@near'):
                    raise Limit('branch on an affine number in %s err %g' % (st.fr.fn.name, err))
                # false at the corner of the box where the difference is largest
                v = 1
                for i in range(len(k)):
                    if k[i]:
                        v = tm.band(v, tm.eq(VARS[i], tm.from_py(1.0 if k[i] * d > 0 else -1.0, 32)))
                v = tm.bnot(v)
        else:
            raise Limit('affine query undecided')
        eng.solver.queries += 1
        eng.solver.time += time.time() - t0
        return v


def enable(eng):
    """from here on nd_unit() and memory never written are affine inputs"""
    C.ABS = Domain()
    eng.unset = fresh
    del VARS[:]


def fresh(var):
    VARS.append(var)
    k = np.zeros(len(VARS))
    k[-1] = 1
    return Aff(0.0, k, 0.0)
