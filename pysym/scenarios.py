"""The binding under symbolic execution: each scenario runs the real bindings/python/*.py against the model of ctypes and the library."""
import builtins, gc, os, sys, types, enum, z3
import sym
from sym import ctx, SymInt, SymFloat, SymBool, Ctx, Violation, Infeasible, Unsupported, raw, fraw, same
import fake, fakenp
from fake import World, Block, Ptr, Address
import model

SRC = {}
def code(repo, name):
    f = os.path.join(repo, 'bindings', 'python', name+'.py')
    if f not in SRC: SRC[f] = compile(open(f).read(), f, 'exec')
    return SRC[f]

class Env:
    """one fresh interpreter state of the binding"""
    def __init__(self, repo, **kw):
        fake._pointers.clear(); fake._funcs.clear(); fake._arrays.clear()
        self.world = World.cur = World()
        self.model = model.Model(**kw)
        lib = fake.Library(self.model)
        self.ctypes, util = fake.ctypes_module(lib)
        self.array = fake.array_module()
        self.mods = {'ctypes': self.ctypes, 'ctypes.util': util, 'array': self.array}
        np = fakenp.numpy_module(); pil, im, seq = fakenp.pil_module()
        self.mods.update({'numpy': np, 'numpy.ctypeslib': np.ctypeslib, 'PIL': pil, 'PIL.Image': im, 'PIL.ImageSequence': seq})
        self.repo = repo
        class Platform: system = staticmethod(lambda: 'Linux')
        self.mods['platform'] = Platform
        self.resdet = self.load('resdet')
    def load(self, name):
        m = types.ModuleType('binding_'+name)
        sys.modules[m.__name__] = m
        self.mods[name] = m
        def imp(n, g=None, l=None, fromlist=(), level=0):
            if n in self.mods:
                if '.' in n and not fromlist: return self.mods[n.split('.')[0]]
                return self.mods[n]
            if os.path.exists(os.path.join(self.repo, 'bindings', 'python', n+'.py')): return self.load(n)
            return builtins.__import__(n, g, l, fromlist, level)
        b = dict(vars(builtins)); b['__import__'] = imp
        b['range'] = lambda *a: range(*[x.__index__() for x in a])
        m.__dict__['__builtins__'] = b
        exec(code(self.repo, name), m.__dict__)
        return m

EXC = {1: 'MemoryError', 2: 'InternalError', 3: 'InvalidImageError', 4: 'UnsupportedFormatError', 5: 'ImageTooBigErrror', 6: 'ParameterError', 7: 'NoImagesError'}
class Raised:
    def __init__(self, e):
        self.type, self.errno, self.text = type(e), getattr(e, 'errno', None), str(e)
        self.names = [t.__name__ for t in type(e).__mro__]
    def __repr__(self): return '%s(%s)' % (self.type.__name__, self.text)
def attempt(f, *a, **k):
    """the call's value, or what it raised (with nothing of it kept alive)"""
    try: return f(*a, **k)
    except Exception as e: r = Raised(e); e.__traceback__ = None
    return r

def judge(got, err, what):
    """an error of the library becomes the exception for it, and nothing else raises"""
    c = ctx()
    if err == 0:
        if isinstance(got, Raised): c.fail('%s succeeded but %r was raised' % (what, got))
        return True
    if not isinstance(got, Raised): c.fail('%s failed with error %d but nothing was raised' % (what, err))
    if err < 0:
        if not (issubclass(got.type, OSError) and got.errno == -err): c.fail('%s failed with system error %d but %r was raised' % (what, -err, got))
        if 'errno %d' % -err not in got.text: c.fail('the text of the error is lost: %r' % got)
    else:
        want = EXC[err]
        if want not in got.names and want.replace('Errror', 'Error') not in got.names: c.fail('%s failed with error %d but %r was raised' % (what, err, got))
        if 'error %d' % err not in got.text: c.fail('the text of the error is lost: %r' % got)
    return False

def check_lists(env, got, what='the results'):
    c = ctx()
    for n in ('widths', 'heights'):
        want = env.model.lists[n]
        try: l = got[n]; k = len(l)
        except Exception: c.fail('%s have no list of %s' % (what, n))
        if k != len(want): c.fail('%s hold %d %s instead of %d' % (what, k, n, len(want)))
        for r, (i, f) in zip(l, want):
            c.require(same(r.index, i), 'a size in the list of %s differs' % n)
            c.require(same(r.confidence, f), 'a confidence in the list of %s differs' % n)

def finish(env):
    """everything the binding had is released once its objects are gone"""
    if any(b.alive and b.kind in ('heap', 'handle') and not getattr(b, 'mine', False) for b in env.world.blocks): gc.collect()
    for b in env.world.blocks:
        if b.alive and b.kind in ('heap', 'handle') and not getattr(b, 'mine', False): ctx().fail('%s is never released' % b.name)

def params(c, keys=('range', 'threshold', 'compression_filter'), invalid=True):
    """a dictionary of some parameters with any values, and the condition that each is a valid one"""
    p, ok = {}, []
    if 'range' in keys and c.flag('range given'):
        v = p['range'] = c.int('range'); ok.append(z3.And(raw(v) >= 1, raw(v) < 2**64))
    if 'threshold' in keys and c.flag('threshold given'):
        if c.flag('whole threshold'): v = p['threshold'] = c.choice('threshold', [0, 1, 2, -1]); ok.append(z3.BoolVal(v in (0, 1)))
        else:
            v = p['threshold'] = c.cfloat('threshold')
            r = z3.fpBVToFP(v.bits, sym.F32) if isinstance(v, SymFloat) else z3.FPVal(v, sym.F32)
            ok.append(z3.And(z3.fpGEQ(r, z3.FPVal(0, sym.F32)), z3.fpLEQ(r, z3.FPVal(1, sym.F32))))
    if 'compression_filter' in keys and c.flag('filter given'):
        v = p['compression_filter'] = c.int('filter'); ok.append(z3.And(raw(v) >= 0, raw(v) <= 31))
    ok = z3.And(*ok) if ok else z3.BoolVal(True)
    if not invalid: c.assume(ok)
    return p, ok

def check_params(env, call, given, what):
    c = ctx()
    q = call['params'] or {}
    for k in ('range', 'threshold', 'compression_filter'):
        v = q.get(k)
        if k not in given:
            if v is not None: c.fail('%s was set to %r though not given' % (k, v))
            continue
        if v is None: c.fail('%s was given to %s but has no effect' % (k, what))
        w = given[k]
        if k == 'threshold': w = fake.round32(w) if not isinstance(w, SymInt) else w
        if isinstance(w, int) and not isinstance(v, (int, SymInt)): w = float(w)
        c.require(same(v, w), '%s reaches the library with another value' % k)

def invalid_or_nomem(env, got, ok, what):
    """the library was not called: right only if a parameter was invalid or memory ran out"""
    c = ctx()
    if not isinstance(got, Raised): c.fail('%s returned without asking the library' % what)
    if env.model.failed:
        if not issubclass(got.type, MemoryError): c.fail('memory ran out in %s but %r was raised' % (what, got))
        return
    c.require(z3.Not(ok), '%s refuses valid parameters: %r' % (what, got))

def method(env, c):
    m = c.choice('method', [None, 'mag', 'zerox'])
    return m, env.resdet.Method.get(m) if m else None

def image_of(env, c, kind):
    """an image in one of the accepted forms -> (object to pass, pixels or base, n, w, h)"""
    R, ct = env.resdet, env.ctypes
    if kind in ('list', 'array'):
        v = [c.cfloat('pixel') for _ in range(6)]
        return (v if kind == 'list' else env.array.array('f', v)), v, 1, 3, 2
    n, w, h = c.int('n', 1, 1 << 20), c.int('w', 1, 1 << 20), c.int('h', 1, 1 << 20)
    p = env.model.data(n*w*h*4, 'the caller\'s image')
    if kind == 'pointer': p.block.mine = True
    q = ct.cast(Address(p), ct.POINTER(ct.c_float))
    if kind == 'pointer': return q, p, n, w, h
    b = R.ImageBuffer(q); b.width, b.height, b.nimages = w, h, n
    return b, p, n, w, h
def same_image(c, got, px, what):
    if isinstance(px, list):
        if not isinstance(got, list) or len(got) != len(px): c.fail('%s is not given the pixels' % what)
        for a, b in zip(got, px): c.require(same(a, b), 'a pixel reaches %s changed' % what)
    elif not (isinstance(got, Ptr) and got.block is px.block): c.fail('%s is given another image' % what)
    else: c.require(same(got.off, px.off), '%s is given another part of the image' % what)

def detect(repo, kind, full):
    def run(c):
        def body():
            env = Env(repo)
            if full: env.model.errors = [0, 3]; env.model.maxcount = 1
            else: env.model.maxcount = 3
            p, ok = params(c) if full else params(c, ('compression_filter',), invalid=False)
            mname, m = method(env, c) if not full else (None, None)
            if kind == 'file':
                f, t = c.choice('file', ['a.pgm', 'é b', os.fsencode('x').decode()]), c.choice('type', [None, 'image/png', 'pgm'])
                if c.flag('as path'):
                    import pathlib; f = pathlib.PurePosixPath(f)
                kw = {}
                if t: kw['type'] = t
                if m: kw['method'] = m
                if p or c.flag('empty parameters'): kw['parameters'] = p
                got = attempt(env.resdet.resdetect_file, f, **kw)
                calls = [a for n, a in env.model.calls if n == 'resdetect_file']
            else:
                im, px, n, w, h = image_of(env, c, kind)
                kw = {}
                if m: kw['method'] = m
                if p: kw['parameters'] = p
                got = attempt(env.resdet.resdetect, im, **kw) if kind == 'buffer' else attempt(env.resdet.resdetect, im, n, w, h, **kw)
                calls = [a for n_, a in env.model.calls if n_ == 'resdetect']
            if not calls: invalid_or_nomem(env, got, ok, 'detection'); return env
            if len(calls) > 1: c.fail('detection is run twice')
            a = calls[0]
            c.require(ok, 'an invalid parameter is dropped silently')
            check_params(env, a, p, 'detection')
            if a['method'] != (mname.encode() if mname else None) and not (mname is None and a['method'] == b'sign'): c.fail('method %s reaches the library as %s' % (mname, a['method']))
            if kind == 'file':
                if a['filename'] != str(f).encode() or a['selector'] != (t.encode() if t else None): c.fail('the name or type of the file reaches the library as %r, %r' % (a['filename'], a['selector']))
            else:
                for x, y, z in ((a['n'], n, 'number of images'), (a['w'], w, 'width'), (a['h'], h, 'height')): c.require(same(x, y), 'the %s reaches the library changed' % z)
                same_image(c, a['image'], px, 'the library')
            if judge(got, env.model.err, 'detection'): check_lists(env, got)
            return env
        env = body(); finish(env)
    return run

def unknown_key(repo):
    def run(c):
        env = Env(repo)
        def body():
            for f in (lambda: env.resdet.resdetect([0.5], 1, 1, 1, parameters={'range': 1, 'treshold': 0}), lambda: env.resdet.resdetect_file('a', parameters={'x': 1}), lambda: env.resdet.Analysis(2, 2, parameters={'x': 1, 'threshold': 0})):
                if not isinstance(attempt(f), Raised): c.fail('an unknown parameter is accepted')
            if env.model.calls: c.fail('the library is called with an unknown parameter')
        body(); finish(env)
    return run

def analysis(repo, kinds, withp):
    def run(c):
        def body():
            env = Env(repo); R = env.resdet
            env.model.errors = [0, 3, -2]; env.model.maxcount = 2 if not withp else 1
            p, ok = params(c) if withp else ({}, z3.BoolVal(True))
            mname, m = method(env, c) if not withp else (None, None)
            ims = [image_of(env, c, k) for k in kinds]
            n, px, _, w, h = ims[0]
            if len(set(kinds) & {'pointer', 'buffer'}): 
                c.assume(z3.And(*[raw(i[2])*raw(i[3])*raw(i[4]) >= raw(w)*raw(h) for i in ims])) if len(ims) > 1 else None
            a = attempt(lambda: R.Analysis(w, h, m, p) if p or m else R.Analysis(w, h))
            calls = [x for k, x in env.model.calls if k == 'create']
            if not calls: invalid_or_nomem(env, a, ok, 'creating an analysis'); return env
            x = calls[0]
            c.require(ok, 'an invalid parameter is dropped silently')
            check_params(env, x, p, 'an analysis')
            if x['method'] != (mname.encode() if mname else None) and not (mname is None and x['method'] == b'sign'): c.fail('method %s reaches the library as %s' % (mname, x['method']))
            c.require(same(x['w'], w), 'the width reaches the library changed'); c.require(same(x['h'], h), 'the height reaches the library changed')
            if not judge(a, env.model.err, 'creating an analysis'): return env
            for im, px, _, _, _ in ims:
                got = attempt(a.analyze_image, im)
                y = [q for k, q in env.model.calls if k == 'analyze']
                if not y: c.fail('an image does not reach the library')
                same_image(c, y[-1]['image'], px, 'the library')
                judge(got, env.model.err, 'analysing')
            if len([1 for k, _ in env.model.calls if k == 'analyze']) != len(ims): c.fail('%d images were analysed as %d' % (len(ims), len([1 for k, _ in env.model.calls if k == 'analyze'])))
            for _ in range(2 if not withp else 1):
                got = attempt(a.analysis_results)
                if judge(got, env.model.err, 'obtaining results'): check_lists(env, got)
            how = c.choice('release', ['with', 'twice', 'drop'])
            if how == 'with':
                with a: pass
            elif how == 'twice': a.destroy_analysis(); a.destroy_analysis()
            if how != 'drop':
                got = attempt(a.analysis_results)
                judge(got, 6, 'obtaining results from a released analysis')
            return env
        env = body(); finish(env)
    return run

def pixels_are(env, c, buf, base, what):
    w, h = buf.width, buf.height
    i = c.int('pixel', 0)
    c.assume(raw(i) < raw(buf.nimages)*raw(w)*raw(h))
    got = attempt(lambda: buf[i])
    if isinstance(got, Raised): c.fail('%s: pixel within the image raises %r' % (what, got))
    c.require(same(got, i+base), '%s: a pixel differs' % what)

def image(repo, how, first):
    def run(c):
        def body():
            env = Env(repo, failures=0); R = env.resdet
            env.model.errors = [0, 4, -2]
            kw, sel = {}, None
            if first:
                which = c.choice('selected by', ['none', 'type', 'reader'])
                if which == 'type': kw['type'] = sel = 'pgm'
                if which == 'reader': kw['image_reader'] = sel = 'PFM'
            else: which = 'none'
            buf = None
            if how in ('fresh', 'used', 'closed'):
                buf = R.ImageBuffer()
                if how != 'fresh':
                    buf = R.ImageBuffer.with_dimensions(c.int('old width', 1, 1 << 20), c.int('old height', 1, 1 << 20), c.int('old frames', 1, 1 << 20))
                    if how == 'closed': buf.close()
                kw['buffer'] = buf
            f = 'a.pgm'
            im = attempt(R.Image, f, **kw)
            x = [a for k, a in env.model.calls if k == 'open']
            if len(x) != 1: c.fail('an image is opened %d times' % len(x))
            if x[0]['filename'] != b'a.pgm' or x[0]['selector'] != (sel.encode() if sel else None): c.fail('opened as %r' % (x[0],))
            if [n for n, _ in env.world.log if n.startswith('resdet_open')] != ['resdet_open_image_with_reader' if which == 'reader' else 'resdet_open_image']: c.fail('opened with the wrong function')
            if not judge(im, env.model.err, 'opening'): return env
            b = env.model.image
            c.require(same(im.width, b.w), 'the width of an image differs'); c.require(same(im.height, b.h), 'the height of an image differs')
            if buf is None:
                buf = R.ImageBuffer.with_dimensions(im.width, im.height)
            c.require(same(buf.width, b.w), 'the width of the buffer differs'); c.require(same(buf.height, b.h), 'the height of the buffer differs'); c.require(same(buf.nimages, 1), 'the buffer holds one frame')
            env.model.errors = None
            for step in range(2):
                op = c.choice('step', ['read', 'seek', 'close buffer', 'close image'] if not first else ['read', 'seek'])
                if op == 'read':
                    closed = not buf.data or im._rdimage is None if hasattr(im, '_rdimage') else False
                    got = attempt(im.read_image_frame, buf)
                    if judge(got, env.model.err, 'reading a frame'):
                        if bool(got) != env.model.more: c.fail('the end is reported wrongly')
                        if env.model.more: pixels_are(env, c, buf, env.model.base-(1 << 32), 'the frame read')
                elif op == 'seek':
                    n = c.int('offset', 0, 2**64-1); seen = []
                    cb = seen.append if c.flag('progress wanted') else None
                    got = attempt(im.seek_frame, n, cb) if cb else attempt(im.seek_frame, n)
                    if env.model.calls[-1][0] == 'seek':
                        c.require(same(env.model.calls[-1][1]['n'], n), 'the offset reaches the library changed')
                        if cb and seen != env.model.passed: c.fail('progress %r is reported as %r' % (env.model.passed, seen))
                    if judge(got, env.model.err, 'seeking') and bool(got) != env.model.more: c.fail('the end is reported wrongly')
                elif op == 'close buffer': buf.close()
                else: im.close_image()
            if c.flag('with'):
                with im:
                    with buf: pass
            return env
        env = body(); finish(env)
    return run

def read_image(repo):
    def run(c):
        def body():
            env = Env(repo, failures=0); R = env.resdet
            f, t = c.choice('file', ['a.pgm', 'é']), c.choice('type', [None, 'image/png'])
            got = attempt(R.read_image, f, t) if t else attempt(R.read_image, f)
            x = env.model.calls[0][1]
            if x['filename'] != f.encode() or x['selector'] != (t.encode() if t else None): c.fail('read as %r' % (x,))
            if not judge(got, env.model.err, 'reading a file'): return env
            n, w, h = env.model.dims
            for a, b, what in ((got.nimages, n, 'number of images'), (got.width, w, 'width'), (got.height, h, 'height')): c.require(same(a, b), 'the %s of a file differs' % what)
            if n == 1 or n == 2: pixels_are(env, c, got, got.data._get().block.base, 'the images of the file')
            s = got.shape(); k = [1 for x in s]
            c.require(z3.simplify(z3.And(raw(s[0])*raw(s[1])*(raw(s[2]) if len(s) > 2 else 1) == raw(n)*raw(w)*raw(h))), 'the shape does not hold all pixels')
            how = c.choice('release', ['drop', 'close', 'twice', 'with'])
            if how == 'with':
                with got: pass
            elif how != 'drop':
                got.close()
                if how == 'twice': got.close()
            if how != 'drop' and not isinstance(attempt(lambda: got[0]), Raised): c.fail('a pixel of a released buffer is readable')
            r = attempt(lambda: R.resdetect(got)) if how != 'drop' else None
            if how != 'drop' and not isinstance(r, Raised): c.fail('detection on a released buffer succeeds')
            return env
        env = body(); finish(env)
    return run

DIMS = [(1, 1, 1), (1, 3, 2), (2, 2, 3), (3, 1, 5), (2, 1920, 1080)]
def index(repo, made):
    """pixels by index, for any integers"""
    def run(c):
        def body():
            env = Env(repo, failures=0); R = env.resdet
            n, w, h = c.choice('size', DIMS)
            if made == 'read':
                env.model.choose_dims = lambda: (n, w, h)
                env.model.errors = [0]
                b = R.read_image('a.pgm')
            else:
                b = R.ImageBuffer.with_dimensions(w, h, n) if n > 1 else R.ImageBuffer.with_dimensions(w, h)
                bl = b.data._get().block; env.model.fill(bl)
            base = b.data._get().block.base
            k = c.choice('coordinates', [0, 2, 3])
            i = [c.int('index') for _ in range(k or 1)]
            got = attempt(lambda: b[tuple(i)] if k else b[i[0]])
            dims = [n*h*w] if not k else [n, h, w][-k:]
            plain = z3.And(*[z3.And(raw(x) >= 0, raw(x) < d) for x, d in zip(i, dims)])
            back = z3.And(*[z3.And(raw(x) >= -d, raw(x) < d) for x, d in zip(i, dims)])
            if isinstance(got, Raised):
                c.require(z3.Not(plain), 'a pixel within the image raises %r' % got)
                if not issubclass(got.type, IndexError): c.fail('an index beyond the image raises %r' % got)
                return env
            # a negative coordinate may count from the end, as in Python, or be refused
            c.require(back, 'an index beyond the image gives a value')
            j = [z3.If(raw(x) < 0, raw(x)+d, raw(x)) for x, d in zip(i, dims)]
            flat = j[0]
            for x, d in zip(j[1:], dims[1:]): flat = flat*d+x
            c.require(same(got, SymInt(z3.simplify(flat+base))), 'the wrong pixel is given')
            return env
        env = body(); finish(env)
    return run

def iterate(repo):
    def run(c):
        def body():
            env = Env(repo, failures=0); R = env.resdet
            n, w, h = c.choice('size', DIMS[:4])
            env.model.choose_dims = lambda: (n, w, h); env.model.errors = [0]
            b = R.read_image('a.pgm'); base = b.data._get().block.base
            got = attempt(lambda: list(b))
            if isinstance(got, Raised) or len(got) != n*w*h: c.fail('iterating gives %r' % (got,))
            for i, v in enumerate(got): c.require(same(v, base+i), 'iterating gives the wrong pixels')
            return env
        env = body(); finish(env)
    return run

def with_dimensions(repo):
    def run(c):
        def body():
            env = Env(repo); R = env.resdet
            w, h, n = c.int('width', 1, 1 << 20), c.int('height', 1, 1 << 20), c.int('frames', 1, 1 << 20)
            b = attempt(R.ImageBuffer.with_dimensions, w, h, n)
            if env.model.failed:
                if not (isinstance(b, Raised) and issubclass(b.type, MemoryError)): c.fail('a buffer without memory is made')
                return env
            if isinstance(b, Raised): c.fail('making a buffer raises %r' % b)
            bl = b.data._get().block
            c.require(bl.size >= w*h*n*4, 'the buffer is too small for its images')
            for a, x in ((b.width, w), (b.height, h), (b.nimages, n)): c.require(same(a, x), 'the size of a buffer differs')
            return env
        env = body(); finish(env)
    return run

def constants(repo):
    def run(c):
        def body():
            env = Env(repo); R = env.resdet
            ms = attempt(R.methods)
            if isinstance(ms, Raised) or [m.name for m in ms] != [n.decode() for n, _ in model.METHODS]: c.fail('the methods are listed as %r' % (ms,))
            for m, t in zip(ms, env.model.thresholds): c.require(same(m.threshold, t), 'the threshold of a method differs')
            for name, want in (('sign', 0), ('mag', 1), ('zerox', 2), ('nosuch', None), ('', None), ('é', None)):
                m = attempt(R.Method.get, name)
                if want is None:
                    if m is not None: c.fail('a method %r is found' % name)
                elif isinstance(m, Raised) or m is None or m.name != name: c.fail('method %s is not found: %r' % (name, m))
                else: c.require(same(m.threshold, env.model.thresholds[want]), 'the threshold of a method differs')
            # each listed method is usable as itself
            for k, m in enumerate(ms):
                env.model.errors = [0]; env.model.maxcount = 1; env.model.failures = 0
                r = attempt(R.resdetect, [0.25], 1, 1, 1, m)
                if isinstance(r, Raised) or env.model.calls[-1][1]['method'] != m.name.encode(): c.fail('a listed method is passed on as another')
            l = attempt(R.list_image_readers)
            if l != [n.decode() for n in model.Model.READERS]: c.fail('the readers are listed as %r' % (l,))
            if attempt(R.libversion) != '9.8.7': c.fail('the version differs')
            v = attempt(R.default_range)
            if isinstance(v, Raised): c.fail('the default range raises %r' % v)
            c.require(same(v, env.model.range), 'the default range differs')
            return env
        env = body(); finish(env)
    return run

# ---- NumPy arrays and Pillow images ----
LAYOUTS = ['C', 'F', 'strided', 'reversed', 'part']
def some_array(c, shape, types=('float32', 'float64', 'uint8', 'int64', 'float16'), layouts=LAYOUTS):
    """an array of any elements, of some type and layout -> (array, its elements as C floats in the order of its axes)"""
    t, lay = c.choice('type', list(types)), c.choice('layout', list(layouts))
    n = 1
    for d in shape: n *= d
    v = [c.cfloat('element') if t in ('float32', 'float16') else c.float('element') if t == 'float64' else c.int('element', 0, 255) if t == 'uint8' else c.int('element', -2**63, 2**63-1) for _ in range(n)]
    pos = list(fakenp.positions(shape)); at = dict(zip(pos, v)); junk = 0.5 if t[0] == 'f' else 7
    make = lambda sh, f, order='C': fakenp.ndarray._fresh(sh, t, [f(q) for q in fakenp.positions(sh)], order)
    if lay in 'CF': a = make(shape, at.get, lay)
    elif lay == 'strided': a = make(shape[:-1]+(2*shape[-1],), lambda q: at[q[:-1]+(q[-1]//2,)] if q[-1] % 2 == 0 else junk)[..., ::2]
    elif lay == 'reversed': a = make(shape, lambda q: at[(shape[0]-1-q[0],)+q[1:]])[::-1]
    else: a = make(shape[:-1]+(shape[-1]+1,), lambda q: at.get(q[:-1]+(q[-1]-1,), junk))[..., 1:]
    return a, [fakenp.narrow(x) for x in v]

def same_pixels(c, got, want, what):
    if not isinstance(got, list) or len(got) != len(want): c.fail('%s is not given the pixels' % what)
    for a, b in zip(got, want): c.require(same(a, b), 'a pixel reaches %s changed, or in another place' % what)

def np_detect(repo, shape, withp):
    def run(c):
        def body():
            env = Env(repo); N = env.load('resdet_numpy')
            env.model.errors = [0, 3, -2] if not withp else [0, 3]; env.model.maxcount = 2 if not withp else 1
            p, ok = params(c) if withp else ({}, z3.BoolVal(True))
            mname, m = method(env, c) if not withp else (None, None)
            a, want = some_array(c, shape) if not withp else some_array(c, shape, ('float32', 'uint8'), ('C',))
            kw = {}
            if m: kw['method'] = m
            if p: kw['parameters'] = p
            before = a._values()
            got = attempt(N.resdetect, a, **kw)
            calls = [x for k, x in env.model.calls if k == 'resdetect']
            for x, y in zip(a._values(), before): c.require(same(x, y), 'the caller\'s array is changed')
            if not calls: invalid_or_nomem(env, got, ok, 'detection'); return env
            if len(calls) > 1: c.fail('detection is run twice')
            x = calls[0]
            c.require(ok, 'an invalid parameter is dropped silently')
            check_params(env, x, p, 'detection')
            if x['method'] != (mname.encode() if mname else None) and not (mname is None and x['method'] == b'sign'): c.fail('method %s reaches the library as %s' % (mname, x['method']))
            dims = ((1,)+shape)[-3:]
            for k, d, z in (('n', dims[0], 'number of images'), ('w', dims[2], 'width'), ('h', dims[1], 'height')): c.require(same(x[k], d), 'the %s of an array reaches the library as another' % z)
            same_pixels(c, x['image'], want, 'the library')
            if judge(got, env.model.err, 'detection'): check_lists(env, got)
            return env
        env = body(); finish(env)
    return run

def np_odd(repo):
    """arrays that are no images: whatever happens, no memory beyond them is used"""
    def run(c):
        def body():
            env = Env(repo); N = env.load('resdet_numpy'); env.model.errors = [0, 3]; env.model.maxcount = 1
            shape = c.choice('shape', [(), (4,), (0, 3), (3, 0), (1, 2, 1, 2), (2, 1, 2, 1), (1, 1), (0,)])
            a, _ = some_array(c, shape, ('float32', 'uint8'), ('C',))
            attempt(N.resdetect, a)
            return env
        env = body(); finish(env)
    return run

def np_analysis(repo, withp):
    def run(c):
        def body():
            env = Env(repo); N = env.load('resdet_numpy'); env.model.errors = [0, 3]; env.model.maxcount = 1; env.model.failures = 0
            h, w = c.choice('shape', [(2, 3), (3, 1)])
            an = attempt(N.Analysis, w, h)
            if not judge(an, env.model.err, 'creating an analysis'): return env
            for step in range(2):
                a, want = some_array(c, (h, w), ('float32', 'float64', 'uint8') if not step else ('float32', 'int64'), LAYOUTS if not step else ('C', 'F'))
                env.model.calls.clear()
                got = attempt(an.analyze_image, a)
                x = [q for k, q in env.model.calls if k == 'analyze']
                if len(x) != 1: c.fail('an image is analysed %d times' % len(x))
                same_pixels(c, x[0]['image'], want, 'the library')
                judge(got, env.model.err, 'analysing')
            got = attempt(an.analysis_results)
            if judge(got, env.model.err, 'obtaining results'): check_lists(env, got)
            return env
        env = body(); finish(env)
    return run

SHAPES = [(3, 2), (1, 4), (2, 2), (2, 1)]
def frames_of(repo, mod, cls_read):
    """frames read as arrays or Pillow images, held while others are read and after all is released"""
    def run(c):
        def body():
            env = Env(repo, failures=0); M = env.load(mod)
            env.model.errors = [0, 4, -2]
            w, h = env.model.open_dims = c.choice('size', SHAPES)
            kw, sel = {}, None
            which = c.choice('selected by', ['none', 'type', 'reader'])
            if which == 'type': kw['type'] = sel = 'pgm'
            if which == 'reader': kw['image_reader'] = sel = 'PFM'
            im = attempt(M.Image, 'a.pgm', **kw)
            x = [a for k, a in env.model.calls if k == 'open']
            if len(x) != 1: c.fail('an image is opened %d times' % len(x))
            if x[0]['filename'] != b'a.pgm' or x[0]['selector'] != (sel.encode() if sel else None): c.fail('opened as %r' % (x[0],))
            if [n for n, _ in env.world.log if n.startswith('resdet_open')] != ['resdet_open_image_with_reader' if which == 'reader' else 'resdet_open_image']: c.fail('opened with the wrong function')
            if not judge(im, env.model.err, 'opening'): return env
            held = []
            how = c.choice('reading', ['calls', 'next'])
            for step in range(2):
                got = attempt(getattr(im, cls_read)) if how == 'calls' else attempt(next, im)
                if how == 'next' and env.model.err == 0 and not env.model.more:
                    if not (isinstance(got, Raised) and issubclass(got.type, StopIteration)): c.fail('the end of the frames gives %r' % (got,))
                    continue
                if not judge(got, env.model.err, 'reading a frame'): continue
                if not env.model.more:
                    if got is not None: c.fail('the end of the frames gives %r' % (got,))
                    continue
                if got is None: c.fail('a frame is lost')
                held.append((got, env.model.base-(1 << 32)))
            last = c.choice('release', ['none', 'close', 'drop'])
            if last == 'close': im.close_image()
            im = None if last == 'drop' else im
            if last == 'drop': gc.collect()
            for f, base in held:
                if mod == 'resdet_PIL':
                    if f.size != (w, h): c.fail('a frame of %dx%d is read as an image of %r' % (w, h, f.size))
                    if f.mode != 'F': c.fail('a frame is read as an image of mode %s' % f.mode)
                    v = f.getdata()
                else:
                    if f.shape != (h, w): c.fail('a frame of %d rows of %d is read as an array of shape %r' % (h, w, f.shape))
                    if f.dtype != 'float32': c.fail('a frame is read as an array of %s' % f.dtype)
                    v = f._values()
                for i, y in enumerate(v): c.require(same(y, base+i), 'a pixel of a frame differs, or is in another place')
            return env
        env = body(); finish(env)
    return run

FRAMES = [((3, 2),), ((1, 3),), ((2, 2), (2, 2)), ((1, 2), (1, 2), (1, 2)), ((3, 2), (2, 2)), ((2, 2), (3, 2)), ((2, 3), (3, 2)), ((2, 1), (2, 1), (1, 1))]
def some_pil(c, sizes, at):
    fr = []
    for w, h in sizes:
        m = c.choice('mode', ['F', 'L', 'P', 'RGB'] if not fr else ['F', 'RGB'])
        byte = lambda: c.int('pixel', 0, 255)
        fr.append((m, w, h, [[c.cfloat('pixel') if m == 'F' else (byte(), byte(), byte()) if m == 'RGB' else byte() for _ in range(w)] for _ in range(h)]))
    return fakenp.PILImage(fr, at), [[fakenp.gray(f[0], v) for r in f[3] for v in r] for f in fr]

def pil_detect(repo, withp):
    def run(c):
        def body():
            env = Env(repo); P = env.load('resdet_PIL')
            env.model.errors = [0, 3, -2] if not withp else [0]; env.model.maxcount = 1
            p, ok = params(c) if withp else ({}, z3.BoolVal(True))
            mname, m = method(env, c)
            sizes = c.choice('frames', FRAMES) if not withp else FRAMES[0]
            at = c.choice('current frame', list(range(len(sizes))))
            im, want = some_pil(c, sizes, at)
            kw = {}
            if m: kw['method'] = m
            if p: kw['parameters'] = p
            got = attempt(P.resdetect, im, **kw)
            calls = env.model.calls
            made = [x for k, x in calls if k in ('create', 'resdetect')]
            if not made: invalid_or_nomem(env, got, ok, 'detection'); return env
            if len(made) > 1: c.fail('detection is run twice')
            x = made[0]
            c.require(ok, 'an invalid parameter is dropped silently')
            check_params(env, x, p, 'detection')
            if x['method'] != (mname.encode() if mname else None) and not (mname is None and x['method'] == b'sign'): c.fail('method %s reaches the library as %s' % (mname, x['method']))
            w, h = sizes[at]
            c.require(same(x['w'], w), 'the width reaches the library changed'); c.require(same(x['h'], h), 'the height reaches the library changed')
            seen = [q['image'] for k, q in calls if k == 'analyze']
            if 'image' in x:
                seen = x['image']; k = w*h
                seen = [seen[i:i+k] for i in range(0, len(seen), k)]
            rest = want[at:]; even = all(z == (w, h) for z in sizes[at:])
            for a, b in zip(seen, rest): same_pixels(c, a, b, 'the library')
            if not even:
                if not isinstance(got, Raised): c.fail('frames of differing sizes are accepted')
                return env
            if len(seen) > len(rest): c.fail('%d frames are analysed as %d' % (len(rest), len(seen)))
            if judge(got, env.model.err, 'detection'):
                if len(seen) != len(rest): c.fail('%d frames are analysed as %d' % (len(rest), len(seen)))
                check_lists(env, got)
                if im.tell() != at: c.fail('the image is left at another frame')
            return env
        env = body(); finish(env)
    return run

def pil_analysis(repo):
    def run(c):
        def body():
            env = Env(repo, failures=0); P = env.load('resdet_PIL'); env.model.errors = [0, 3]; env.model.maxcount = 1
            w, h = c.choice('size', [(3, 2), (1, 3)])
            an = attempt(P.Analysis, w, h)
            if not judge(an, env.model.err, 'creating an analysis'): return env
            im, want = some_pil(c, ((w, h), (w, h)), c.choice('current frame', [0, 1]))
            got = attempt(an.analyze_image, im)
            x = [q for k, q in env.model.calls if k == 'analyze']
            if len(x) != 1: c.fail('an image is analysed %d times' % len(x))
            same_pixels(c, x[0]['image'], want[im.tell()], 'the library')
            judge(got, env.model.err, 'analysing')
            return env
        env = body(); finish(env)
    return run
