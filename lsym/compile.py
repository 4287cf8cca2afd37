"""LLVM instructions -> Python closures op(st, fr)."""
import terms as tm
from terms import T, MASK, fconc, fcmp_conc
from ir import Ref, UNDEF
import engine as E
from engine import PathEnd, SHIFT, Limit

ABS = None      # optional abstract number domain (set by affine.py)


def is_num(v):
    return v.__class__ is not int and v.__class__ is not T


def compile_function(eng, cf):
    m, f = cf.mod, cf.f
    slots = {}
    template = []

    def slot(name):
        s = slots.get(name)
        if s is None:
            s = slots[name] = len(template)
            template.append(None)
        return s
    for t, nm, bv in f.params:
        slot(nm)
    cf.nparams = len(f.params)
    consts = {}

    def opd(v, ty):
        """operand -> register index"""
        if isinstance(v, str) and v[:1] == '%':
            return slot(v)
        if v is UNDEF:
            i = len(template)
            rt = m.resolve(ty)
            template.append(agg_undef(m, rt))
            return i
        c = eng._cval(m, v, ty)
        if isinstance(c, (list, str)):
            c = agg(eng, m, c, m.resolve(ty))
        key = (c if not isinstance(c, list) else id(c))
        i = consts.get(key)
        if i is None:
            i = len(template)
            template.append(c)
            consts[key] = i
        return i

    starts = {}
    code = []
    lines = []
    fix = []
    for b in f.order:
        starts[b] = len(code)
        for ins in f.blocks[b]:
            if ins.op == 'phi':
                continue
            code.append(None)
            lines.append(ins.line)

    def edge(frm, to):
        """(target, dst list, src list)"""
        ds, ss = [], []
        for ins in f.blocks[to]:
            if ins.op != 'phi':
                break
            for v, bl in ins.a:
                if bl == frm:
                    ds.append(slot(ins.dst))
                    ss.append(opd(v, ins.ty))
                    break
        return starts[to], tuple(ds), tuple(ss)

    k = 0
    for b in f.order:
        for ins in f.blocks[b]:
            if ins.op == 'phi':
                continue
            code[k] = compile_instr(eng, m, cf, ins, slot, opd, lambda to, b=b: edge(b, to))
            k += 1
    cf.code = code
    cf.template = template
    cf.slots = slots
    cf.vararg = f.vararg
    cf.lines = lines
    cf.byval = [bv for _, _, bv in f.params]


def agg(eng, m, c, ty):
    if isinstance(c, str) and c == 'zero':
        return agg(eng, m, [0] * (ty.n if ty.k in ('arr', 'vec') else len(ty.e)), ty)
    if isinstance(c, (list, bytearray)):
        if ty.k in ('arr', 'vec'):
            return [agg(eng, m, x, m.resolve(ty.e)) for x in c]
        return [agg(eng, m, x, m.resolve(e)) for x, e in zip(c, ty.e)]
    if c is UNDEF:
        return agg_undef(m, ty)
    return eng._cval(m, c, ty)


def agg_undef(m, ty):
    if ty.k in ('arr', 'vec'):
        return [agg_undef(m, m.resolve(ty.e)) for _ in range(ty.n)]
    if ty.k == 'struct':
        return [agg_undef(m, m.resolve(e)) for e in ty.e]
    return 0


def take(fr, e):
    R = fr.regs
    t, ds, ss = e
    if ds:
        if len(ds) == 1:
            R[ds[0]] = R[ss[0]]
        else:
            vals = [R[s] for s in ss]
            for d, v in zip(ds, vals):
                R[d] = v
    fr.idx = t


def scalar_w(m, t):
    t = m.resolve(t)
    if t.k == 'ptr':
        return 64
    return t.n


def compile_instr(eng, m, cf, ins, slot, opd, edge):
    op = ins.op
    d = slot(ins.dst) if ins.dst is not None else None
    a = ins.a
    if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
        ty = m.resolve(ins.ty)
        x, y = opd(a[0], ins.ty), opd(a[1], ins.ty)
        if ty.k == 'vec':
            f0 = getattr(tm, op + '_' if op in ('and', 'or') else op)
            w = m.resolve(ty.e).n

            def g(st, fr):
                R = fr.regs
                R[d] = [f0(p, q, w) for p, q in zip(R[x], R[y])]
            return g
        w = ty.n
        M = MASK[w]
        if op == 'add':
            def g(st, fr):
                R = fr.regs
                p, q = R[x], R[y]
                R[d] = (p + q) & M if p.__class__ is int and q.__class__ is int else tm.add(p, q, w)
            return g
        if op == 'sub':
            def g(st, fr):
                R = fr.regs
                p, q = R[x], R[y]
                R[d] = (p - q) & M if p.__class__ is int and q.__class__ is int else tm.sub(p, q, w)
            return g
        if op == 'mul':
            def g(st, fr):
                R = fr.regs
                p, q = R[x], R[y]
                R[d] = (p * q) & M if p.__class__ is int and q.__class__ is int else tm.mul(p, q, w)
            return g
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            f0 = getattr(tm, op)

            def g(st, fr):
                R = fr.regs
                p, q = R[x], R[y]
                if q.__class__ is int:
                    if q == 0:
                        eng.error(st, 'division by zero', 'arith')
                else:
                    q = st.simp(q)
                    eng.check(st, tm.bnot(tm.eq(q, 0)), 'division by zero', 'arith')
                R[d] = f0(p, q, w)
            return g
        f0 = getattr(tm, op + '_' if op in ('and', 'or') else op)

        def g(st, fr):
            R = fr.regs
            R[d] = f0(R[x], R[y], w)
        return g
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        ty = m.resolve(ins.ty)
        x, y = opd(a[0], ins.ty), opd(a[1], ins.ty)
        if ty.k == 'vec':
            w = m.resolve(ty.e).n

            def g(st, fr):
                R = fr.regs
                R[d] = [fop(op, p, q, w) for p, q in zip(R[x], R[y])]
            return g
        w = ty.n

        def g(st, fr):
            R = fr.regs
            R[d] = fop(op, R[x], R[y], w)
        return g
    if op == 'fneg':
        ty = m.resolve(ins.ty)
        x = opd(a[0], ins.ty)
        if ty.k == 'vec':
            w = m.resolve(ty.e).n

            def g(st, fr):
                R = fr.regs
                R[d] = [ABS.neg(v, w) if is_num(v) else tm.fneg(v, w) for v in R[x]]
            return g
        w = ty.n

        def g(st, fr):
            R = fr.regs
            v = R[x]
            R[d] = ABS.neg(v, w) if is_num(v) else tm.fneg(v, w)
        return g
    if op == 'icmp':
        pred = a[0]
        ty = m.resolve(ins.ty)
        x, y = opd(a[1], ins.ty), opd(a[2], ins.ty)
        w = 64 if ty.k == 'ptr' else ty.n
        if pred in ('ugt', 'uge', 'sgt', 'sge'):
            x, y = y, x
            pred = {'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}[pred]
        if pred == 'eq':
            def g(st, fr):
                R = fr.regs
                p, q = R[x], R[y]
                R[d] = (1 if p == q else 0) if p.__class__ is int and q.__class__ is int else tm.eq(p, q)
        elif pred == 'ne':
            def g(st, fr):
                R = fr.regs
                p, q = R[x], R[y]
                R[d] = (1 if p != q else 0) if p.__class__ is int and q.__class__ is int else tm.bnot(tm.eq(p, q))
        elif pred == 'ult':
            def g(st, fr):
                R = fr.regs
                p, q = R[x], R[y]
                R[d] = (1 if p < q else 0) if p.__class__ is int and q.__class__ is int else tm.ult(p, q, w)
        else:
            f0 = getattr(tm, pred)

            def g(st, fr):
                R = fr.regs
                R[d] = f0(R[x], R[y], w)
        return g
    if op == 'fcmp':
        pred = a[0]
        x, y = opd(a[1], ins.ty), opd(a[2], ins.ty)
        w = m.resolve(ins.ty).n

        def g(st, fr):
            R = fr.regs
            p, q = R[x], R[y]
            if is_num(p) or is_num(q):
                R[d] = ABS.cmp(eng, st, pred, p, q, w)
                return
            R[d] = tm.fcmp(pred, p, q, w)
        return g
    if op == 'load':
        ty = m.resolve(ins.ty)
        p = opd(a[0], E_PTR)
        if ty.k in ('struct', 'arr', 'vec'):
            def g(st, fr):
                R = fr.regs
                R[d] = load_agg(eng, m, st, R[p], ty)
            return g
        n = m.size(ty)
        w = scalar_w(m, ty)
        if w == 1:
            def g(st, fr):
                R = fr.regs
                v = eng.load(st, R[p], 1)
                R[d] = v & 1 if v.__class__ is int else tm.trunc(v, 1)
            return g
        load = eng.load

        def g(st, fr):
            R = fr.regs
            ad = R[p]
            if ad.__class__ is int:
                o = st.mem.get(ad >> SHIFT)
                if o is not None:
                    off = ad & OFFM
                    c = o.cells.get(off)
                    if c is not None and c[0] == n:
                        sz = o.size
                        if sz.__class__ is int and off + n <= sz:
                            R[d] = c[1]
                            return
            R[d] = load(st, ad, n)
        return g
    if op == 'store':
        ty = m.resolve(ins.ty)
        v, p = opd(a[0], ins.ty), opd(a[1], E_PTR)
        if ty.k in ('struct', 'arr', 'vec'):
            def g(st, fr):
                R = fr.regs
                store_agg(eng, m, st, R[p], ty, R[v])
            return g
        n = m.size(ty)
        w = scalar_w(m, ty)
        store = eng.store
        if w < 8 * n and w not in (8, 16, 32, 64):
            def g(st, fr):
                R = fr.regs
                x = R[v]
                store(st, R[p], n, x if x.__class__ is int else tm.zext(x, w, 8 * n))
            return g

        def g(st, fr):
            R = fr.regs
            store(st, R[p], n, R[v])
        return g
    if op == 'getelementptr':
        return compile_gep(eng, m, ins, d, opd)
    if op == 'alloca':
        size = m.size(ins.ty)
        cnt = a[0]
        ci = None if isinstance(cnt, int) else opd(cnt, I64T)
        nm = 'local of %s' % cf.name[1:]
        default = 1 if eng.uninit_symbolic else 0
        total = size * cnt if ci is None else None

        def g(st, fr):
            n = total
            if n is None:
                n = eng.concretize(st, fr.regs[ci]) * size
            ad = eng.alloc(st, n, default, 'stack', nm)
            fr.allocas.append(ad >> SHIFT)
            fr.regs[d] = ad
        return g
    if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'freeze', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp'):
        return compile_cast(eng, m, ins, d, opd)
    if op == 'select':
        c = opd(a[0], I1T)
        x, y = opd(a[1], ins.ty), opd(a[2], ins.ty)
        ty = m.resolve(ins.ty)
        w = scalar_w(m, ty) if ty.k in ('i', 'f', 'ptr') else 0
        isptr = ty.k == 'ptr'

        def g(st, fr):
            R = fr.regs
            cv = R[c]
            if cv.__class__ is T and (is_num(R[x]) or is_num(R[y]) or not w or isptr):
                cv = st.simp(cv)
                if cv.__class__ is T:
                    cv = eng.concretize(st, cv)
            if cv.__class__ is int:
                R[d] = R[x] if cv else R[y]
            else:
                R[d] = tm.ite(cv, R[x], R[y], w)
        return g
    if op == 'br':
        e = edge(a[0])
        t, ds, ss = e
        if not ds:
            def g(st, fr):
                fr.idx = t
        else:
            def g(st, fr):
                take(fr, e)
        return g
    if op == 'cbr':
        c = opd(a[0], I1T)
        e1, e0 = edge(a[1]), edge(a[2])

        def g(st, fr):
            cv = fr.regs[c]
            if cv.__class__ is T:
                cv, o = eng.fork_on(st, cv)
                if o is not None:
                    take(o.fr, e0 if cv else e1)
                    eng.work.append(o)
            take(fr, e1 if cv else e0)
        return g
    if op == 'switch':
        v = opd(a[0], ins.ty)
        de = edge(a[1])
        cases = {}
        for kv, lab in a[2]:
            cases[kv] = edge(lab)
        w = m.resolve(ins.ty).n

        def g(st, fr):
            x = fr.regs[v]
            if x.__class__ is T:
                x = st.simp(x)
            if x.__class__ is T:
                # one state per distinct target value, one for the default
                groups = {}
                for kv, e in cases.items():
                    groups.setdefault(id(e), (e, []))[1].append(kv)
                anyc = 0
                for e, ks in groups.values():
                    c = 0
                    for kv in ks:
                        c = tm.bor(c, tm.eq(x, kv))
                    anyc = tm.bor(anyc, c)
                    c = st.simp(c)
                    r, o = eng.fork_on(st, c)
                    if o is None:
                        if r:
                            take(fr, e)
                            return
                        continue
                    if r:
                        # this state takes the case, the other continues with the remaining ones
                        o.fr.idx -= 1
                        eng.work.append(o)
                        take(fr, e)
                        return
                    take(o.fr, e)
                    eng.work.append(o)
                take(fr, de)
                return
            take(fr, cases.get(x, de))
        return g
    if op == 'ret':
        if a[0] is None:
            def g(st, fr):
                eng.pop(st, None)
        else:
            v = opd(a[0], ins.ty)

            def g(st, fr):
                eng.pop(st, fr.regs[v])
        return g
    if op == 'unreachable':
        def g(st, fr):
            eng.error(st, 'reached an unreachable point (undefined behaviour)', 'ub')
        return g
    if op == 'call':
        return compile_call(eng, m, cf, ins, d, opd)
    if op == 'extractvalue':
        v = opd(a[0], ins.ty)
        idx = a[1]

        def g(st, fr):
            x = fr.regs[v]
            for i in idx:
                x = x[i]
            fr.regs[d] = x
        return g
    if op == 'insertvalue':
        v, e = opd(a[0], ins.ty), opd(a[1], None) if not isinstance(a[1], int) else opd(a[1], I64T)
        idx = a[2]

        def ins_(x, i, val):
            x = list(x)
            if len(i) == 1:
                x[i[0]] = val
            else:
                x[i[0]] = ins_(x[i[0]], i[1:], val)
            return x

        def g(st, fr):
            fr.regs[d] = ins_(fr.regs[v], idx, fr.regs[e])
        return g
    if op == 'extractelement':
        v, i = opd(a[0], ins.ty), opd(a[1], I64T)

        def g(st, fr):
            k = fr.regs[i]
            if k.__class__ is T:
                k = eng.concretize(st, k)
            fr.regs[d] = fr.regs[v][k]
        return g
    if op == 'insertelement':
        v, e, i = opd(a[0], ins.ty), opd(a[1], m.resolve(ins.ty).e), opd(a[2], I64T)

        def g(st, fr):
            x = list(fr.regs[v])
            x[fr.regs[i]] = fr.regs[e]
            fr.regs[d] = x
        return g
    if op == 'shufflevector':
        x, y = opd(a[0], ins.ty), opd(a[1], ins.ty)
        msk = a[2]
        if msk is UNDEF or (isinstance(msk, str)):
            msk = [0] * a[3]
        msk = [0 if q is UNDEF else q for q in msk]

        def g(st, fr):
            v = fr.regs[x] + fr.regs[y]
            fr.regs[d] = [v[q] for q in msk]
        return g
    if op == 'asm':
        def g(st, fr):
            raise Limit('inline assembly')
        return g
    raise NotImplementedError(op)


from ir import PTR as E_PTR, I64 as I64T, I1 as I1T
OFFM = MASK[SHIFT]


def fop(op, p, q, w):
    if p.__class__ is int and q.__class__ is int:
        return fconc(op, p, q, w)
    if is_num(p) or is_num(q):
        return ABS.bin(op, p, q, w)
    return tm.fbin(op, p, q, w)


def load_agg(eng, m, st, ad, ty):
    ty = m.resolve(ty)
    if ty.k in ('arr', 'vec'):
        es = m.size(ty.e)
        return [load_agg(eng, m, st, ad + i * es, ty.e) for i in range(ty.n)]
    if ty.k == 'struct':
        return [load_agg(eng, m, st, ad + o, e) for o, e in zip(m.layout(ty)[0], ty.e)]
    v = eng.load(st, ad, m.size(ty))
    if scalar_w(m, ty) == 1:
        v = v & 1 if v.__class__ is int else tm.trunc(v, 1)
    return v


def store_agg(eng, m, st, ad, ty, v):
    ty = m.resolve(ty)
    if ty.k in ('arr', 'vec'):
        es = m.size(ty.e)
        for i in range(ty.n):
            store_agg(eng, m, st, ad + i * es, ty.e, v[i])
    elif ty.k == 'struct':
        for o, e, x in zip(m.layout(ty)[0], ty.e, v):
            store_agg(eng, m, st, ad + o, e, x)
    else:
        eng.store(st, ad, m.size(ty), v if v.__class__ is not T or v.w % 8 == 0 else tm.zext(v, v.w, 8))


def compile_gep(eng, m, ins, d, opd):
    t, base, idx = ins.a
    b = opd(base, E_PTR)
    off = 0
    dyn = []
    cur = t
    for n, (it, v) in enumerate(idx):
        if n > 0:
            cur = m.resolve(cur)
            if cur.k == 'struct':
                off += m.layout(cur)[0][v]
                cur = cur.e[v]
                continue
            cur = cur.e
        sz = m.size(cur)
        w = m.resolve(it).n
        if isinstance(v, int):
            off += tm.sgn(v, w) * sz
        else:
            dyn.append((opd(v, it), sz, w))
    off &= MASK[64]
    M = MASK[64]
    if not dyn:
        def g(st, fr):
            R = fr.regs
            p = R[b]
            R[d] = (p + off) & M if p.__class__ is int else tm.add(p, off, 64)
        return g
    if len(dyn) == 1 and dyn[0][2] == 64:
        i, sz, _ = dyn[0]

        def g(st, fr):
            R = fr.regs
            p, k = R[b], R[i]
            if p.__class__ is int and k.__class__ is int:
                R[d] = (p + k * sz + off) & M
            else:
                R[d] = tm.add(tm.add(p, tm.mul(k, sz, 64), 64), off, 64)
        return g

    def g(st, fr):
        R = fr.regs
        p = tm.add(R[b], off, 64)
        for i, sz, w in dyn:
            k = R[i]
            if w < 64:
                k = tm.sext(k, w, 64)
            p = tm.add(p, tm.mul(k, sz, 64), 64)
        R[d] = p
    return g


def compile_cast(eng, m, ins, d, opd):
    op = ins.op
    if op == 'freeze':
        v = opd(ins.a[0], ins.ty)

        def g(st, fr):
            fr.regs[d] = fr.regs[v]
        return g
    sty, dty = m.resolve(ins.ty), m.resolve(ins.a[1])
    v = opd(ins.a[0], ins.ty)
    if sty.k == 'vec':
        if op == 'bitcast':
            def g(st, fr):
                raise Limit('vector bitcast')
            return g
        sw, dw = m.resolve(sty.e).n, m.resolve(dty.e).n
        one = cast_fn(op, sw, dw)

        def g(st, fr):
            fr.regs[d] = [one(x) for x in fr.regs[v]]
        return g
    sw, dw = scalar_w(m, sty), scalar_w(m, dty)
    if op in ('ptrtoint', 'inttoptr'):
        op = 'trunc' if dw < sw else 'zext' if dw > sw else 'bitcast'
    if op in ('bitcast', 'addrspacecast'):
        def g(st, fr):
            fr.regs[d] = fr.regs[v]
        return g
    if op == 'zext':
        def g(st, fr):
            R = fr.regs
            x = R[v]
            R[d] = x if x.__class__ is int else tm.zext(x, sw, dw)
        return g
    if op == 'trunc':
        M = MASK[dw]

        def g(st, fr):
            R = fr.regs
            x = R[v]
            R[d] = x & M if x.__class__ is int else tm.extract(x, dw - 1, 0)
        return g
    one = cast_fn(op, sw, dw)

    def g(st, fr):
        R = fr.regs
        R[d] = one(R[v])
    return g


def cast_fn(op, sw, dw):
    if op == 'zext': return lambda x: tm.zext(x, sw, dw)
    if op == 'trunc': return lambda x: tm.trunc(x, dw) if x.__class__ is T else x & MASK[dw]
    if op == 'sext': return lambda x: tm.sext(x, sw, dw)
    if op == 'fpext': return lambda x: ABS.ext(x) if is_num(x) else tm.fpext(x)
    if op == 'fptrunc': return lambda x: ABS.trunc(x) if is_num(x) else tm.fptrunc(x)
    if op == 'uitofp': return lambda x: tm.uitofp(x, sw, dw)
    if op == 'sitofp': return lambda x: tm.sitofp(x, sw, dw)
    if op in ('fptoui', 'fptosi'): return lambda x: tm.fptoi(op, x, sw, dw)
    raise NotImplementedError(op)


def compile_call(eng, m, cf, ins, d, opd):
    callee, args = ins.a
    argi = [opd(v, t) for t, v, bv in args]
    byval = [(i, m.size(bv)) for i, (t, v, bv) in enumerate(args) if bv is not None]
    tys = [m.resolve(t) for t, v, bv in args]
    # widths for variadic slots
    widths = [(8 if t.k in ('ptr',) else m.size(t)) if t.k in ('i', 'f', 'ptr') else None for t in tys]
    target = None
    if isinstance(callee, Ref):
        addr = eng._addr(m, callee)
        target = eng.fn_at.get(addr)
        name = callee.name[1:].strip('"')
        if isinstance(target, str):
            h = eng.ext.get(target)
            if h is None and target.startswith('llvm.'):
                for pre, hh in eng.ext_prefix:
                    if target.startswith(pre):
                        h = hh
                        break
            if h is None:
                def g(st, fr):
                    raise Limit('no model for external function %s' % name)
                return g
            retw = m.resolve(ins.ty)
            retw = scalar_w(m, retw) if retw.k in ('i', 'f', 'ptr') else 0

            def g(st, fr):
                R = fr.regs
                r = h(eng, st, fr, [R[i] for i in argi], d, name)
                if d is not None and r is not NORET:
                    R[d] = r
            return g
    else:
        ci = opd(callee, E_PTR)
    fixed = None

    def g(st, fr):
        R = fr.regs
        av = [R[i] for i in argi]
        tg = target
        if tg is None:
            a = R[ci]
            if a.__class__ is T:
                a = eng.concretize(st, a)
            tg = eng.fn_at.get(a)
            if tg is None:
                eng.error(st, 'call through an invalid function pointer')
            if isinstance(tg, str):
                h = eng.ext.get(tg)
                if h is None:
                    raise Limit('no model for external function %s' % tg)
                r = h(eng, st, fr, av, d, tg)
                if d is not None and r is not NORET:
                    fr.regs[d] = r
                return
        for i, n in byval:
            ad = eng.alloc(st, n, 1, 'stack', 'argument copy')
            eng.memcpy(st, ad, av[i], n)
            av[i] = ad
        if tg.code is None:
            eng.compile(tg)
        if tg.vararg:
            extra = av[tg.nparams:]
            av = av[:tg.nparams] + [list(zip(extra, widths[tg.nparams:]))]
            eng.push(st, tg, av[:tg.nparams], d)
            st.fr.va = av[tg.nparams]
        else:
            if len(av) < tg.nparams:
                av = av + [0] * (tg.nparams - len(av))
            eng.push(st, tg, av, d)
    return g


NORET = object()
