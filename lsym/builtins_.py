"""Engine-level externals: intrinsics, symbolic inputs, allocation primitives, setjmp/longjmp, math."""
import math
import terms as tm
from terms import T, MASK
import compile as C
from compile import NORET


def install(eng):
    from engine import PathEnd, Limit, SHIFT, Obj
    X = eng.ext
    eng.ext_prefix = []

    def ext(name):
        def d(f):
            X[name] = f
            return f
        return d

    def pre(name):
        def d(f):
            eng.ext_prefix.append((name, f))
            return f
        return d

    # ---- symbolic inputs ----
    def nd(kind, w, isf=False):
        def f(eng, st, fr, a, d, name):
            st.nvar += 1
            v = tm.var('%s_%d' % (kind, st.nvar), w)
            st.nd = ((kind, v), st.nd)
            return v
        X['nd_' + kind] = f
    for k, w in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('i32', 32), ('f32', 32), ('f64', 64)):
        nd(k, w)

    @ext('nd_unit')        # an input in [-1,1] carried as an affine number
    def _(eng, st, fr, a, d, name):
        import affine
        st.nvar += 1
        v = tm.var('f32_%d' % st.nvar, 32)
        st.nd = (('f32', v), st.nd)
        return affine.fresh(v)

    @ext('nd_choice')      # arbitrary value in [lo,hi], every value on its own path
    def _(eng, st, fr, a, d, name):
        lo, hi = a
        st.nvar += 1
        v = tm.var('u32_%d' % st.nvar, 32)
        st.nd = (('u32', v), st.nd)
        for k in range(hi, lo, -1):
            o = st.clone(eng)
            c = tm.eq(v, k)
            o.pc.append(c)
            o.learn(c)
            o.model = dict(o.model)
            o.model[v] = k
            o.fr.regs[d] = k
            eng.work.append(o)
        c = tm.eq(v, lo)
        st.pc.append(c)
        st.learn(c)
        st.model = dict(st.model)
        st.model[v] = lo
        return lo

    @ext('v_cover')
    def _(eng, st, fr, a, d, name):
        m = eng.cstr(st, a[1])
        if m in eng.witnesses:
            return
        c = a[0]
        if c.__class__ is T and c.w != 1:
            c = tm.bnot(tm.eq(c, 0))
        if c.__class__ is int:
            if c:
                eng.witnesses.add(m)
        elif eng.sat(st, c) is not None:
            eng.witnesses.add(m)

    def parse_float(w):
        def g(eng, st, fr, a, d, name):
            import re
            s = eng.cstr(st, a[0])
            mm = re.match(r'[ \t\n\v\f\r]*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)', s)
            eng.store(st, a[1], 8, mm.end() if mm else 0)
            if not mm:
                return 0
            from fractions import Fraction
            if w == 64:
                return tm.from_py(float(mm.group(1)), 64)
            # nearest float to the exact decimal value (no double rounding)
            x = float(mm.group(1))
            if x in (float('inf'), float('-inf')):
                return tm.from_py(x, 32)
            ex = Fraction(mm.group(1))
            b = tm.from_py(x, 32)
            best = None
            for cand in (b - 1, b, b + 1):
                if cand < 0 or (cand & 0x7F800000) == 0x7F800000:
                    continue
                e = abs(Fraction(tm.to_py(cand, 32)) - ex)
                if best is None or e < best[0] or (e == best[0] and cand % 2 == 0):
                    best = (e, cand)
            if best is None or (b & 0x7F800000) == 0x7F800000:
                return b
            return best[1]
        return g
    X['v_parse_float'] = parse_float(64)
    X['v_parse_float32'] = parse_float(32)

    @ext('v_format_float')      # (value, precision, conversion, alt, out) -> length
    def _(eng, st, fr, a, d, name):
        v = eng.concretize(st, a[0]) if a[0].__class__ is T else a[0]
        prec = a[1] if a[1].__class__ is int else eng.concretize(st, a[1])
        t = ('%.' + str(tm.sgn(prec, 32)) + chr(a[2])) % tm.to_py(v, 64)
        b = t.encode()[:399]
        for i, ch in enumerate(b):
            eng.store(st, a[4] + i, 1, ch)
        return len(b)

    @ext('frexp')
    def _(eng, st, fr, a, d, name):
        x = a[0]
        if x.__class__ is T:
            x = st.simp(x)
        E = 2047
        ex = tm.extract(x, 62, 52) if x.__class__ is T else (x >> 52) & E
        fr_ = tm.extract(x, 51, 0) if x.__class__ is T else x & MASK[52]
        special = tm.bor(tm.eq(ex, E), tm.band(tm.eq(ex, 0), tm.eq(fr_, 0)))
        # subnormals: exponent and mantissa from the leading zeros of the fraction
        lz, sh = 0, fr_
        e = tm.sub(tm.zext(ex, 11, 32), 1022, 32)
        mant = fr_
        sub_e, sub_m = 0, 0
        for i in range(52):
            b = tm.extract(fr_, i, i) if fr_.__class__ is T else (fr_ >> i) & 1
            sub_e = tm.ite(b, (-1021 - (52 - i)) & MASK[32], sub_e, 32)
            sub_m = tm.ite(b, tm.and_(tm.shl(fr_, 52 - i, 52), MASK[52], 52), sub_m, 52)
        e = tm.ite(tm.eq(ex, 0), sub_e, e, 32)
        mant = tm.ite(tm.eq(ex, 0), sub_m, mant, 52)
        e = tm.ite(special, 0, e, 32)
        s = tm.extract(x, 63, 63) if x.__class__ is T else x >> 63
        r = tm.concat([(s, 1), (1022, 11), (mant, 52)])
        eng.store(st, a[1], 4, e)
        return tm.ite(special, x, r, 64)

    @ext('v_concretize')
    def _(eng, st, fr, a, d, name):
        return eng.concretize(st, a[0])

    @ext('v_undetermined')      # not a single value yet
    def _(eng, st, fr, a, d, name):
        v = a[0] if a[0].__class__ is int else st.simp(a[0])
        return 0 if v.__class__ is int else 1

    @ext('v_assert')
    def _(eng, st, fr, a, d, name):
        c = a[0]
        if c.__class__ is T and c.w != 1:
            c = tm.bnot(tm.eq(c, 0))
        eng.check(st, c if c.__class__ is T else (1 if c else 0), eng.cstr(st, a[1]))

    @ext('v_assume')
    def _(eng, st, fr, a, d, name):
        c = a[0]
        if c.__class__ is T and c.w != 1:
            c = tm.bnot(tm.eq(c, 0))
        eng.assume(st, c if c.__class__ is T else (1 if c else 0))

    @ext('v_witness')
    def _(eng, st, fr, a, d, name):
        eng.witnesses.add(eng.cstr(st, a[0]))

    @ext('v_fail')
    def _(eng, st, fr, a, d, name):
        eng.error(st, eng.cstr(st, a[0]), 'assert')

    @ext('v_debug')
    def _(eng, st, fr, a, d, name):
        print('debug', a, eng.where(st))

    @ext('v_end_path')
    def _(eng, st, fr, a, d, name):
        eng.paths += 1
        raise PathEnd

    # ---- allocation ----
    @ext('v_alloc_raw')     # (size, zeroed)
    def _(eng, st, fr, a, d, name):
        n = st.simp(a[0]) if a[0].__class__ is T else a[0]
        return eng.alloc(st, n, 0 if a[1] else 1, 'heap', 'heap block of %s' % caller(st))

    def caller(st):
        for f in reversed(st.stack):
            if f.fn.name[1:] not in ('malloc', 'calloc', 'realloc', 'v_malloc', 'v_calloc', 'strdup', 'vfft_alloc', 'fftwf_alloc_real'):
                return f.fn.name[1:]
        return '?'

    @ext('v_free_raw')
    def _(eng, st, fr, a, d, name):
        p = a[0]
        if p.__class__ is T:
            p = eng.concretize(st, p)
        o = st.mem.get(p >> SHIFT)
        if o is None:
            eng.error(st, 'double free' if (p >> SHIFT) in st.freed else 'free of an invalid pointer')
        if o.kind != 'heap':
            eng.error(st, 'free of a %s object' % o.kind)
        if p & MASK[SHIFT]:
            eng.error(st, 'free of a pointer inside a block')
        del st.mem[p >> SHIFT]
        st.freed = st.freed | {p >> SHIFT}

    @ext('v_objsize')
    def _(eng, st, fr, a, d, name):
        p = a[0] if a[0].__class__ is int else eng.concretize(st, a[0])
        o = st.mem.get(p >> SHIFT)
        if o is None:
            eng.error(st, 'realloc of an invalid pointer')
        return o.size

    @ext('v_valid')      # is [p,p+n) readable on this path
    def _(eng, st, fr, a, d, name):
        p = a[0] if a[0].__class__ is int else eng.concretize(st, a[0])
        o = st.mem.get(p >> SHIFT)
        if o is None:
            return 0
        return tm.zext(tm.ule(tm.add(p & MASK[SHIFT], a[1], 64), o.size, 64), 1, 32)

    @ext('v_readonly')   # no later write to the object
    def _(eng, st, fr, a, d, name):
        oid = a[0] >> SHIFT
        eng.own(st, oid, st.mem[oid]).const = True
        return a[0]

    # ---- memory intrinsics and functions ----
    def memcpy(eng, st, fr, a, d, name):
        n = a[2]
        if n.__class__ is T:
            n = eng.concretize(st, n)
        if n == 0:
            return a[0]
        p = [x if x.__class__ is int else eng.concretize(st, x) for x in a[:2]]
        if 'memcpy' in name and p[0] < p[1] + n and p[1] < p[0] + n and p[0] != p[1]:
            eng.error(st, 'memcpy between overlapping regions')
        if p[0] == p[1]:
            return a[0]
        if p[0] >> SHIFT == p[1] >> SHIFT:      # memmove inside one object: byte/word copy through a snapshot
            tmp = eng.alloc(st, n, 1, 'stack', 'memmove')
            eng.memcpy(st, tmp, p[1], n)
            eng.memcpy(st, p[0], tmp, n)
            del st.mem[tmp >> SHIFT]
            return a[0]
        eng.memcpy(st, p[0], p[1], n)
        return a[0]

    def memset(eng, st, fr, a, d, name):
        v = a[1]
        if v.__class__ is int:
            v &= 255
        elif v.w > 8:
            v = tm.extract(v, 7, 0)
        eng.memset(st, a[0], v, a[2])
        return a[0]
    for n in ('memcpy', 'memmove'):
        X[n] = memcpy
    X['memset'] = memset
    eng.ext_prefix.append(('llvm.memcpy', memcpy))
    eng.ext_prefix.append(('llvm.memmove', memcpy))
    eng.ext_prefix.append(('llvm.memset', memset))

    def nop(eng, st, fr, a, d, name):
        return None
    for n in ('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.prefetch', 'llvm.va_end', 'llvm.donothing', 'llvm.stackrestore'):
        eng.ext_prefix.append((n, nop))

    @pre('llvm.threadlocal.address')
    def _(eng, st, fr, a, d, name):
        return a[0]

    @pre('llvm.assume')
    def _(eng, st, fr, a, d, name):
        return None

    @pre('llvm.expect')
    def _(eng, st, fr, a, d, name):
        return a[0]

    @pre('llvm.stacksave')
    def _(eng, st, fr, a, d, name):
        return 0

    @pre('llvm.trap')
    def _(eng, st, fr, a, d, name):
        eng.error(st, 'trap', 'ub')

    @pre('llvm.ubsantrap')
    def _(eng, st, fr, a, d, name):
        k = {0: 'signed addition overflow', 3: 'division error', 12: 'multiplication overflow', 13: 'negation overflow', 20: 'shift out of range', 21: 'subtraction overflow',
             5: 'float to integer conversion out of range', 18: 'index out of bounds'}.get(a[0], 'undefined behaviour %s' % a[0])
        eng.error(st, k, 'ub')

    @pre('llvm.va_start')
    def _(eng, st, fr, a, d, name):
        va = fr.va or []
        area = eng.alloc(st, max(8 * len(va), 8), 1, 'stack', 'variadic arguments')
        fr.allocas.append(area >> SHIFT)
        for i, (v, w) in enumerate(va):
            if v.__class__ is T and v.w < 64:
                eng.store(st, area + 8 * i, (v.w + 7) // 8, v if v.w % 8 == 0 else tm.zext(v, v.w, 8))
            elif v.__class__ is int and w and w < 8:
                eng.store(st, area + 8 * i, 8, v)
            else:
                eng.store(st, area + 8 * i, 8, v)
        p = a[0]
        eng.store(st, p, 4, 48)
        eng.store(st, p + 4, 4, 176)
        eng.store(st, p + 8, 8, area)
        eng.store(st, p + 16, 8, 0)

    @pre('llvm.va_copy')
    def _(eng, st, fr, a, d, name):
        eng.memcpy(st, a[0], a[1], 24)

    # ---- integer intrinsics ----
    def width(name):
        return int(name.rsplit('.i', 1)[1])

    def mm(f, pick):
        def g(eng, st, fr, a, d, name):
            w = width(name)
            c = f(a[0], a[1], w)
            return tm.ite(c, a[0], a[1], w) if pick else tm.ite(c, a[1], a[0], w)
        return g
    eng.ext_prefix += [('llvm.umin', mm(tm.ult, 1)), ('llvm.umax', mm(tm.ult, 0)), ('llvm.smin', mm(tm.slt, 1)), ('llvm.smax', mm(tm.slt, 0))]

    @pre('llvm.abs')
    def _(eng, st, fr, a, d, name):
        w = width(name)
        return tm.ite(tm.slt(a[0], 0, w), tm.sub(0, a[0], w), a[0], w)

    def ovf(op):
        def g(eng, st, fr, a, d, name):
            w = width(name)
            x, y = a
            s = op[0] == 's'
            e = tm.sext if s else tm.zext
            W = 2 * w
            r = {'add': tm.add, 'sub': tm.sub, 'mul': tm.mul}[op[1:]](e(x, w, W), e(y, w, W), W)
            lowr = tm.extract(r, w - 1, 0) if r.__class__ is T else r & MASK[w]
            o = tm.bnot(tm.eq(e(lowr, w, W), r))
            return [lowr, o]
        return g
    for o in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul'):
        eng.ext_prefix.append(('llvm.%s.with.overflow' % o, ovf(o)))

    @pre('llvm.usub.sat')
    def _(eng, st, fr, a, d, name):
        w = width(name)
        return tm.ite(tm.ult(a[0], a[1], w), 0, tm.sub(a[0], a[1], w), w)

    @pre('llvm.bswap')
    def _(eng, st, fr, a, d, name):
        w = width(name)
        x = a[0]
        if x.__class__ is int:
            return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
        return tm.concat([(tm.extract(x, i + 7, i), 8) for i in range(0, w, 8)])

    @pre('llvm.fsh')
    def _(eng, st, fr, a, d, name):
        w = width(name)
        s = a[2] % w
        if name.startswith('llvm.fshl'):
            return tm.or_(tm.shl(a[0], s, w), tm.lshr(a[1], w - s, w), w) if s else a[0]
        return tm.or_(tm.shl(a[0], w - s, w), tm.lshr(a[1], s, w), w) if s else a[1]

    @pre('llvm.ctpop')
    def _(eng, st, fr, a, d, name):
        w = width(name)
        if a[0].__class__ is int:
            return bin(a[0]).count('1')
        r = 0
        for i in range(w):
            r = tm.add(r, tm.zext(tm.extract(a[0], i, i), 1, w), w)
        return r

    def clz(eng, st, fr, a, d, name):
        w = width(name)
        x = a[0]
        r = w
        rng = range(w) if 'ctlz' in name else range(w - 1, -1, -1)
        for i in rng:
            b = tm.extract(x, i, i) if x.__class__ is T else (x >> i) & 1
            r = tm.ite(b, (w - 1 - i) if 'ctlz' in name else i, r, w)
        return r
    eng.ext_prefix += [('llvm.ctlz', clz), ('llvm.cttz', clz)]

    # ---- floating point ----
    def fw(name):
        return 32 if name.endswith('f32') or name.endswith('f') and not name.startswith('llvm') else 64

    def un(f):
        def g(eng, st, fr, a, d, name):
            w = fw(name)
            if C.is_num(a[0]):
                return C.ABS.fn(name, a[0], w)
            return f(a[0], w)
        return g

    def reg(names, f):
        for n in names:
            if n.startswith('llvm.'):
                eng.ext_prefix.append((n, f))
            else:
                X[n] = f
    reg(['fabs', 'fabsf', 'llvm.fabs'], un(tm.fabs))
    reg(['sqrt', 'sqrtf', 'llvm.sqrt'], un(lambda x, w: tm.fun('fsqrt', x, w)))
    for md, ns in (('floor', ['floor', 'floorf', 'llvm.floor']), ('ceil', ['ceil', 'ceilf', 'llvm.ceil']), ('trunc', ['trunc', 'truncf', 'llvm.trunc']),
                   ('round', ['round', 'roundf', 'llvm.round.']), ('rint', ['rint', 'rintf', 'nearbyint', 'nearbyintf', 'llvm.rint', 'llvm.nearbyint', 'llvm.roundeven'])):
        reg(ns, un(lambda x, w, md=md: tm.frint(md, x, w)))

    def lround(eng, st, fr, a, d, name):
        w = 32 if name.endswith('f') else 64
        return tm.fptoi('fptosi', tm.frint('round' if 'lround' in name or 'llround' in name else 'rint', a[0], w), w, 64)
    reg(['lround', 'lroundf', 'llround', 'llroundf', 'lrint', 'lrintf', 'llrint'], lround)

    def cps(eng, st, fr, a, d, name):
        return tm.fcopysign(a[0], a[1], fw(name))
    reg(['copysign', 'copysignf', 'llvm.copysign'], cps)

    def fmm(pred):
        def g(eng, st, fr, a, d, name):
            w = fw(name)
            x, y = a
            c = tm.fcmp(pred, x, y, w)
            r = tm.ite(c, x, y, w)
            return tm.ite(tm.f_isnan(x, w), y, tm.ite(tm.f_isnan(y, w), x, r, w), w)
        return g
    reg(['fmin', 'fminf', 'llvm.minnum'], fmm('olt'))
    reg(['fmax', 'fmaxf', 'llvm.maxnum'], fmm('ogt'))

    @pre('llvm.fmuladd')
    def _(eng, st, fr, a, d, name):
        w = fw(name)
        return C.fop('fadd', C.fop('fmul', a[0], a[1], w), a[2], w)

    @pre('llvm.is.fpclass')
    def _(eng, st, fr, a, d, name):
        w = fw(name)
        x, mask = a
        if C.is_num(x):
            return 1 if mask & 0x1F8 else 0
        fb = tm.FRACW[w]
        ex, frac, s = tm.extract(x, w - 2, fb), tm.extract(x, fb - 1, 0), tm.extract(x, w - 1, w - 1)
        emax = MASK[tm.EXPW[w]]
        isn = tm.band(tm.eq(ex, emax), tm.bnot(tm.eq(frac, 0)))
        q = tm.extract(frac, fb - 1, fb - 1)
        inf = tm.band(tm.eq(ex, emax), tm.eq(frac, 0))
        zero = tm.band(tm.eq(ex, 0), tm.eq(frac, 0))
        sub = tm.band(tm.eq(ex, 0), tm.bnot(tm.eq(frac, 0)))
        nrm = tm.band(tm.bnot(tm.eq(ex, 0)), tm.bnot(tm.eq(ex, emax)))
        ns = tm.bnot(s)
        cl = [tm.band(isn, tm.bnot(q)), tm.band(isn, q), tm.band(inf, s), tm.band(nrm, s), tm.band(sub, s), tm.band(zero, s), tm.band(zero, ns), tm.band(sub, ns),
              tm.band(nrm, ns), tm.band(inf, ns)]
        r = 0
        for i, c in enumerate(cl):
            if mask >> i & 1:
                r = tm.bor(r, c)
        return r

    def conc_math(f):
        def g(eng, st, fr, a, d, name):
            w = 32 if name.endswith('f') and name not in ('erf',) else 64
            xs = [eng.concretize(st, v) if v.__class__ is T else v for v in a]
            try:
                return tm.from_py(f(*[tm.to_py(v, w) for v in xs]), w)
            except (ValueError, OverflowError):
                return tm.XNAN[w]
        return g
    for n, f in (('sin', math.sin), ('cos', math.cos), ('atan', math.atan), ('atan2', math.atan2), ('exp', math.exp), ('log', math.log), ('log2', math.log2),
                 ('log10', math.log10), ('acos', math.acos), ('asin', math.asin), ('tan', math.tan), ('hypot', math.hypot)):
        X[n] = conc_math(f)
        X[n + 'f'] = conc_math(f)

    def pow_(eng, st, fr, a, d, name):
        w = 64
        xs = [eng.concretize(st, v) if v.__class__ is T else v for v in a]
        return tm.from_py(math.pow(tm.to_py(xs[0], w), tm.to_py(xs[1], w)), w)
    X['pow'] = pow_

    def ldexp(eng, st, fr, a, d, name):
        w = 32 if name in ('ldexpf', 'scalbnf') or name.endswith('f32.i32') else 64
        e = eng.concretize(st, a[1]) if a[1].__class__ is T else a[1]
        e = tm.sgn(e, 32)
        # exact power-of-two scaling in two steps (no double rounding for the magnitudes in reach)
        if -1000 < e < 1000:
            return tm.fbin('fmul', a[0], tm.from_py(2.0 ** e, w), w)
        raise Limit('ldexp exponent')
    reg(['ldexp', 'ldexpf', 'scalbn', 'llvm.ldexp'], ldexp)

    # ---- non-local jumps ----
    def setjmp(eng, st, fr, a, d, name):
        buf = a[0] if a[0].__class__ is int else eng.concretize(st, a[0])
        st.jmps[buf] = (len(st.stack), id(fr.fn), fr.idx, d)
        st.ext[('jmpframe', buf)] = frame_id(st, fr)
        return 0

    def frame_id(st, fr):
        """a mark of this activation, made at its first setjmp"""
        if fr.setjmps is None:
            st.ext['fserial'] = fr.setjmps = st.ext.get('fserial', 0) + 1
        return fr.setjmps

    def longjmp(eng, st, fr, a, d, name):
        buf = a[0] if a[0].__class__ is int else eng.concretize(st, a[0])
        j = st.jmps.get(buf)
        if j is None:
            eng.error(st, 'longjmp without setjmp')
        depth, fid, idx, dest = j[:4]
        if len(st.stack) < depth or id(st.stack[depth - 1].fn) != fid or frame_id2(st, depth) != st.ext.get(('jmpframe', buf)):
            eng.error(st, 'longjmp into a function that has returned')
        while len(st.stack) > depth:
            f = st.stack.pop()
            for o in f.allocas:
                st.mem.pop(o, None)
        st.fr = st.stack[-1]
        st.fr.idx = idx
        v = a[1]
        if v.__class__ is T:
            v = eng.concretize(st, v)
        if dest is not None:
            st.fr.regs[dest] = v if v else 1
        return NORET

    def frame_id2(st, depth):
        return st.stack[depth - 1].setjmps

    for n in ('_setjmp', 'setjmp', '__sigsetjmp', 'sigsetjmp'):
        X[n] = setjmp
    for n in ('longjmp', '_longjmp', 'siglongjmp'):
        X[n] = longjmp
