"""What the library is documented to do, as far as the Python binding can tell; outcomes are chosen symbolically."""
import z3
from sym import ctx, SymInt, SymFloat, raw, fraw, same, Infeasible, F64
from fake import *
from fake import Block, Ptr, cstring, cbytes, load, store, world

BIG = (1 << 63)-1
def bytes_of(p, need, what):
    """p points to at least need bytes of live memory"""
    if not p.block.alive: ctx().fail('%s is released memory (%s)' % (what, p.block.name))
    if p.block.size is not None:
        c = p.off+need <= p.block.size
        ctx().require(c if isinstance(c, bool) else c.e, '%s is smaller than the image' % what)
def place(p, kind, size, what):
    if not p.block.alive: ctx().fail('%s is released memory' % what)
    if p.block.size is not None and isinstance(p.block.size, int) and p.off+size > p.block.size: ctx().fail('%s has no room for the result' % what)
    o = offset(p.off)
    if o in p.block.cells and p.block.cells[o][0] != kind: ctx().fail('%s is written as %s but holds %s' % (what, kind, p.block.cells[o][0]))

METHODS = [(b'sign', 'threshold0'), (b'mag', 'threshold1'), (b'zerox', 'threshold2')]
class Model:
    def __init__(self, failures=1):
        self.failures, self.base, self.calls = failures, 1000, []
        self.errors, self.maxcount, self.open_dims = None, 2, None
    # memory
    def _nomem(self, what):
        if not self.failures: return False
        if ctx().flag('nomem '+what):
            self.failures -= 1
            self.failed = what
            return True
        return False
    failed = None
    def malloc(self, n):
        if self._nomem('malloc'): return None
        return Ptr(Block('heap', n, 'malloc'))
    def calloc(self, n, m):
        if self._nomem('malloc'): return None
        b = Block('heap', n*m, 'malloc'); b.fill = lambda off, kind: 0.0
        return Ptr(b)
    def free(self, p):
        if p is None: return
        b = p.block
        if not b.alive: ctx().fail('%s is freed twice' % b.name)
        if b.kind != 'heap': ctx().fail('%s is freed' % b.name)
        if not (isinstance(p.off, int) and p.off == 0): ctx().fail('a pointer into the middle of %s is freed' % b.name)
        b.alive = False
    def data(self, size, name):
        b = Block('heap', size, name); self.fill(b); return Ptr(b)
    def fill(self, b, size=None):
        base = self.base; self.base += 1 << 32; b.base = base
        def f(off, kind):
            if kind != 'f32': ctx().fail('pixels read as '+kind)
            return off//4+base
        b.fill = f
    # constants
    def resdet_libversion(self): return cstring(b'9.8.7')
    def resdet_error_str(self, e):
        if isinstance(e, SymInt): e = e.__index__()
        return None if e > 7 else cstring(b'errno %d' % -e if e < 0 else b'' if e == 0 else b'error %d' % e)
    def resdet_get_max_error(self): return 7
    def resdet_default_range(self):
        self.range = ctx().int('default range', 1, 2**64-1); return self.range
    def _methods(self):
        if not hasattr(self, '_m'):
            b = self._m = Block('static', None, 'the list of methods')
            self.thresholds = []
            for i, (n, t) in enumerate(METHODS):
                th = ctx().cfloat(t); self.thresholds.append(th)
                b.cells[24*i] = ('ptr', cstring(n, 'a method name')); b.cells[24*i+8] = ('ptr', Ptr(b, 24*i)); b.cells[24*i+16] = ('f32', th)
            b.cells[24*len(METHODS)] = ('ptr', None); b.cells[24*len(METHODS)+8] = ('ptr', None); b.cells[24*len(METHODS)+16] = ('f32', 0.0)
        return self._m
    def resdet_methods(self): return Ptr(self._methods())
    def resdet_get_method(self, name):
        n = cbytes(name)
        if n is None: return Ptr(self._methods())
        for i, (m, _) in enumerate(METHODS):
            if m == n: return Ptr(self._methods(), 24*i)
        return None
    READERS = [b'PGM', b'PFM', b'some reader']
    def resdet_list_image_readers(self):
        b = Block('static', None, 'the list of readers')
        for i, n in enumerate(self.READERS): b.cells[8*i] = ('ptr', cstring(n))
        b.cells[8*len(self.READERS)] = ('ptr', None)
        return Ptr(b)
    # parameters
    def resdet_alloc_default_parameters(self):
        if self._nomem('parameters'): return None
        b = Block('heap', 24, 'the parameters'); b.params = {'range': None, 'threshold': None, 'compression_filter': None}
        return Ptr(b)
    def _params(self, p):
        if p is None: return None
        if not p.block.alive: ctx().fail('the parameters were released before their use')
        if not hasattr(p.block, 'params'): ctx().fail('%s is used as parameters' % p.block.name)
        return p.block.params
    def resdet_parameters_set_range(self, p, v):
        q = self._params(p)
        if q is None or v == 0: return 6
        q['range'] = v; return 0
    def resdet_parameters_set_threshold(self, p, v):
        q = self._params(p)
        if q is None or v != v or v < 0 or v > 1: return 6
        q['threshold'] = v; return 0
    def resdet_parameters_set_compression_filter(self, p, v):
        q = self._params(p)
        if q is None or v > 31: return 6
        q['compression_filter'] = v; return 0
    # outcomes
    def error(self, what, codes=None):
        """any documented error or none; negative ones are system errors"""
        e = ctx().choice('error of '+what, codes or self.errors or [0, -1, -2, 1, 2, 3, 4, 5, 6, 7])
        self.err = e
        return e
    def put(self, p, kind, size, v, what):
        if p is None: return
        place(p, kind, size, what); store(p, kind, size, v)
    # images
    def _open(self, fn, how, selector, w, h, buf, err, filename, kind):
        self.calls.append((how, {'filename': cbytes(filename), 'selector': cbytes(selector)}))
        if buf is not None: self.put(buf, 'ptr', 8, None, 'the place of the buffer')
        self.put(w, 'u64', 8, 0, 'width'); self.put(h, 'u64', 8, 0, 'height')
        e = self.error('opening') if w is not None and h is not None and filename is not None else 6
        if e == 0:
            b = Block('handle', 8, 'the image'); b.handle = 'image'
            b.w, b.h = self.open_dims or (ctx().int('width', 1, 1 << 20), ctx().int('height', 1, 1 << 20))
            self.put(w, 'u64', 8, b.w, 'width'); self.put(h, 'u64', 8, b.h, 'height')
            if buf is not None: self.put(buf, 'ptr', 8, self.data(b.w*b.h*4, 'the buffer of an opened image'), 'the place of the buffer')
            self.image = b
        self.put(err, 'i32', 4, e, 'error')
        return Ptr(b) if e == 0 else None
    def resdet_open_image(self, filename, filetype, w, h, buf, err):
        return self._open('open', 'open', filetype, w, h, buf, err, filename, 0)
    def resdet_open_image_with_reader(self, filename, reader, w, h, buf, err):
        return self._open('open_with_reader', 'open', reader, w, h, buf, err, filename, 1)
    def _handle(self, p, what):
        if p is None: return None
        if getattr(p.block, 'handle', None) != what: ctx().fail('%s is used as the %s' % (p.block.name, what))
        if not p.block.alive: ctx().fail('the %s is used after its release' % what)
        return p.block
    def resdet_read_image_frame(self, im, image, err):
        b = self._handle(im, 'image')
        self.calls.append(('read_frame', {}))
        if b is None or image is None:
            self.err = 6
            self.put(err, 'i32', 4, 6, 'error'); return False
        bytes_of(image, b.w*b.h*4, 'the buffer of a frame')
        e = self.error('reading', [0, -2, 1, 3]); more = e == 0 and ctx().flag('a frame is left')
        self.put(err, 'i32', 4, e, 'error')
        if more: self.fill(image.block)
        self.more = more
        return more
    def resdet_seek_frame(self, im, n, progress, pctx, err):
        b = self._handle(im, 'image')
        if b is None:
            self.err = 6; self.put(err, 'i32', 4, 6, 'error'); return False
        self.calls.append(('seek', {'n': n}))
        k = ctx().choice('frames passed', [0, 1, 2])
        if progress is not None and progress:
            t = progress._argtypes_
            for i in range(k):
                v = 1 << 33 | i
                args = [pctx if t[0]._size == 8 else 0, t[1]._conv(v)] if len(t) == 2 else ctx().fail('the progress callback is declared with %d arguments' % len(t))
                progress._fn(None if args[0] is None else Address(args[0]), args[1])
        self.passed = [1 << 33 | i for i in range(k)]
        e = self.error('seeking', [0, -2, 1, 3]); self.more = e == 0 and ctx().flag('frames were left')
        self.put(err, 'i32', 4, e, 'error')
        return self.more
    def resdet_close_image(self, im):
        b = self._handle(im, 'image')
        if b is not None: b.alive = False
    def resdet_read_image(self, filename, filetype, images, n, w, h):
        self.calls.append(('read_image', {'filename': cbytes(filename), 'selector': cbytes(filetype)}))
        if None in (filename, images, n, w, h): ctx().fail('resdet_read_image is called without a place for a result')
        e = self.error('reading a file')
        if e == 0:
            self.dims = self.choose_dims()
            vals = self.dims
            img = self.data(vals[0]*vals[1]*vals[2]*4, 'the images of a file')
        else: vals, img = (0, 0, 0), None
        self.put(n, 'u64', 8, vals[0], 'number of images'); self.put(w, 'u64', 8, vals[1], 'width'); self.put(h, 'u64', 8, vals[2], 'height')
        self.put(images, 'ptr', 8, img, 'the place of the images')
        return e
    def choose_dims(self): return ctx().int('frames', 1, 1 << 20), ctx().int('width', 1, 1 << 20), ctx().int('height', 1, 1 << 20)
    # detection
    def _method(self, p):
        if p is None: return None
        if p.block is not getattr(self, '_m', None): ctx().fail('%s is used as a method' % p.block.name)
        return METHODS[p.off//24][0]
    def _lists(self, e, rw, cw, rh, ch):
        self.lists = {}
        for r, c, n in ((rw, cw, 'widths'), (rh, ch, 'heights')):
            if r is None: continue
            if c is None: ctx().fail('a list is asked for without its count')
            if e:
                self.put(r, 'ptr', 8, None, n); self.put(c, 'u64', 8, 0, 'count of '+n); continue
            k = ctx().choice('count of '+n, list(range(1, self.maxcount+1)))
            b = Block('heap', 16*k, 'the list of '+n); self.lists[n] = []
            for i in range(k):
                x, f = ctx().int(n, 0, 2**64-1), ctx().cfloat('confidence')
                b.cells[16*i] = ('u64', x); b.cells[16*i+8] = ('f32', f); self.lists[n].append((x, f))
            self.put(r, 'ptr', 8, Ptr(b), n); self.put(c, 'u64', 8, k, 'count of '+n)
    def _pixels(self, image, count):
        """what the library sees of the image: a place, or the first values"""
        bytes_of(image, count*4, 'the image')
        if image.block.fill is None and isinstance(count, int): return [load(image.add(4*i), 'f32', 4) for i in range(count)]
        if image.block.fill is None and isinstance(image.off, int):
            return [image.block.cells[o][1] if image.block.cells[o][0] == 'f32' else ctx().fail('%s in the image taken for float' % image.block.cells[o][0]) for o in sorted(image.block.cells)]
        return image
    def resdetect(self, image, n, w, h, rw, cw, rh, ch, method, params):
        q = self._params(params)
        if image is None: e = 6; px = None; self.err = 6
        else: px = self._pixels(image, n*w*h); e = self.error('detection')
        self.calls.append(('resdetect', {'image': px, 'n': n, 'w': w, 'h': h, 'method': self._method(method), 'params': dict(q) if q else None}))
        self._lists(e, rw, cw, rh, ch)
        return e
    def resdetect_file(self, filename, filetype, rw, cw, rh, ch, method, params):
        q = self._params(params)
        e = self.error('detection')
        self.calls.append(('resdetect_file', {'filename': cbytes(filename), 'selector': cbytes(filetype), 'method': self._method(method), 'params': dict(q) if q else None}))
        self._lists(e, rw, cw, rh, ch)
        return e
    def resdet_create_analysis(self, method, w, h, params, err):
        q = self._params(params)
        self.calls.append(('create', {'w': w, 'h': h, 'method': self._method(method), 'params': dict(q) if q else None}))
        e = self.error('creating an analysis')
        self.put(err, 'i32', 4, e, 'error')
        if e: return None
        b = Block('handle', 8, 'the analysis'); b.handle = 'analysis'; b.w, b.h = w, h
        return Ptr(b)
    def resdet_analyze_image(self, a, image):
        b = self._handle(a, 'analysis')
        if b is None or image is None: self.err = 6; return 6
        px = self._pixels(image, b.w*b.h)
        self.calls.append(('analyze', {'image': px}))
        return self.error('analysing', [0, 1, 3])
    def resdet_analysis_results(self, a, rw, cw, rh, ch):
        b = self._handle(a, 'analysis')
        e = 6 if b is None else self.error('results', [0, 1, 7])
        self.err = e
        self.calls.append(('results', {}))
        self._lists(e, rw, cw, rh, ch)
        return e
    def resdet_destroy_analysis(self, a):
        b = self._handle(a, 'analysis')
        if b is not None: b.alive = False
