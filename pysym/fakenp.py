"""A model of the parts of NumPy and Pillow that hold images: arrays of any element type and memory layout over blocks of C memory."""
import struct, z3
import fake
from fake import Block, Ptr, Address, FakeModule, load, store, round32, same
from sym import ctx, SymInt, SymFloat, Unsupported, F32, F64, RNE

KINDS = {'float32': ('f32', 4), 'float64': ('f64', 8), 'float16': ('f16', 2), 'uint8': ('u8', 1), 'int8': ('i8', 1), 'uint16': ('u16', 2), 'int16': ('i16', 2), 'int32': ('i32', 4),
         'uint32': ('u32', 4), 'int64': ('i64', 8), 'uint64': ('u64', 8), 'bool': ('b8', 1)}
ALIAS = {'f': 'float32', 'f4': 'float32', '<f4': 'float32', '=f4': 'float32', 'single': 'float32', 'd': 'float64', 'f8': 'float64', 'double': 'float64', 'float': 'float64', 'u1': 'uint8', 'B': 'uint8'}
NEAREST = z3.Function('nearest_float32', z3.IntSort(), z3.BitVecSort(32))   # of an integer: what it is does not matter, only that it is applied
def narrow(v):
    """the C float nearest a value"""
    if isinstance(v, SymInt):
        b = NEAREST(v.e)
        return SymFloat(z3.fpToFP(RNE, z3.fpBVToFP(b, F32), F64), b)
    if isinstance(v, bool): v = int(v)
    return round32(v)
def convert(v, frm, to):
    if frm == to: return v
    if to == 'float32': return narrow(v)
    if to == 'float64' and frm in ('float32', 'float16'): return v
    if to == 'float64' and isinstance(v, (int, bool)): return float(v)
    raise Unsupported('conversion from %s to %s' % (frm, to))

class dtype:
    def __init__(self, v):
        n = name_of(v); self.name, self.kind, self.itemsize = n, {'f': 'f', 'u': 'u', 'i': 'i', 'b': 'b'}[n[0]], KINDS[n][1]
        self.char = {'float32': 'f', 'float64': 'd', 'float16': 'e'}.get(n, '?')
        self.byteorder, self.isnative, self.str = '=', True, {'float32': '<f4', 'float64': '<f8'}.get(n, n)
    def __eq__(self, o):
        try: return name_of(o) == self.name
        except (TypeError, Unsupported): return False
    def __hash__(self): return hash(self.name)
    def __repr__(self): return 'dtype(%r)' % self.name
    def newbyteorder(self, *a): raise Unsupported('byte order')
def name_of(v):
    if isinstance(v, dtype): return v.name
    if isinstance(v, scalar): return v.name
    if v is float: return 'float64'
    if v is int: return 'int64'
    if v is bool: return 'bool'
    if v is fake.c_float: return 'float32'
    if v is fake.c_double: return 'float64'
    if isinstance(v, str): v = ALIAS.get(v, v)
    if isinstance(v, str) and v in KINDS: return v
    raise Unsupported('dtype %r' % (v,))
class scalar:
    """numpy.float32 and so on"""
    def __init__(self, name): self.name = name
    def __call__(self, v): return convert(v, 'float64', self.name)
    def __hash__(self): return hash(self.name)
    def __eq__(self, o): return isinstance(o, (scalar, dtype)) and o.name == self.name

class Mem:
    """memory an array owns: gone with the last of its arrays"""
    def __init__(self, size, name): self.block = Block('py', size, name)
    def __del__(self):
        self.block.alive = False

def c_strides(shape, item):
    st, k = [], item
    for d in reversed(shape): st.append(k); k *= d
    return tuple(reversed(st))
def positions(shape):
    if not shape: yield (); return
    for i in range(shape[0]):
        for r in positions(shape[1:]): yield (i,)+r

class Flags:
    def __init__(self, a):
        self.c_contiguous = self.C_CONTIGUOUS = a._strides_match(False); self.f_contiguous = self.F_CONTIGUOUS = a._strides_match(True)
        self.contiguous, self.forc, self.owndata, self.writeable, self.aligned = self.c_contiguous, self.c_contiguous or self.f_contiguous, a.base is None, True, True
    def __getitem__(self, k): return getattr(self, k.lower())
class ArrayCtypes:
    def __init__(self, a): self._a = a
    @property
    def data(self): return Address(self._a._p)
    def data_as(self, t):
        r = fake.cast(Address(self._a._p), t); r._arr = self._a
        return r
    @property
    def shape(self): raise Unsupported('ctypes.shape')
class ndarray:
    ndarray = True
    def __new__(cls, *a, **k): raise Unsupported('numpy.ndarray()')
    @classmethod
    def _of(cls, keep, p, shape, name, strides=None):
        a = object.__new__(ndarray)
        a._keep, a._p, a.shape, a._t = keep, p, tuple(shape), name
        a.strides = strides if strides is not None else c_strides(a.shape, KINDS[name][1])
        a.base = None if isinstance(keep, Mem) else keep
        return a
    @classmethod
    def _fresh(cls, shape, name, values, order='C', what='the array'):
        """values: in the order of positions(shape)"""
        k, item = KINDS[name]; n = 1
        for d in shape: n *= d
        m = Mem(n*item, what)
        st = c_strides(shape, item) if order == 'C' else tuple(reversed(c_strides(tuple(reversed(shape)), item)))
        a = cls._of(m, Ptr(m.block), shape, name, st)
        for pos, v in zip(positions(a.shape), values): store(a._at(pos), k, item, v)
        return a
    def _at(self, pos): return self._p.add(sum(i*s for i, s in zip(pos, self.strides)))
    def _values(self):
        k, item = KINDS[self._t]
        return [load(self._at(pos), k, item) for pos in positions(self.shape)]
    def _strides_match(self, f):
        sh = self.shape if not f else tuple(reversed(self.shape)); st = self.strides if not f else tuple(reversed(self.strides))
        return self.size == 0 or all(d == 1 or s == w for d, s, w in zip(sh, st, c_strides(sh, KINDS[self._t][1])))
    @property
    def dtype(self): return dtype(self._t)
    @property
    def ndim(self): return len(self.shape)
    @property
    def itemsize(self): return KINDS[self._t][1]
    @property
    def size(self):
        n = 1
        for d in self.shape: n *= d
        return n
    @property
    def nbytes(self): return self.size*self.itemsize
    @property
    def flags(self): return Flags(self)
    @property
    def ctypes(self): return ArrayCtypes(self)
    @property
    def data(self): raise Unsupported('ndarray.data')
    @property
    def T(self): return self.transpose()
    def transpose(self, *axes):
        if len(axes) == 1 and not isinstance(axes[0], int): axes = tuple(axes[0]) if axes[0] is not None else ()
        axes = [x % self.ndim for x in axes] if axes else list(reversed(range(self.ndim)))
        return ndarray._of(self, self._p, [self.shape[i] for i in axes], self._t, tuple(self.strides[i] for i in axes))
    def swapaxes(self, i, j):
        x = list(range(self.ndim)); x[i], x[j] = x[j], x[i]
        return self.transpose(*x)
    def copy(self, order='C'):
        order = {'A': 'F' if self._strides_match(True) and not self._strides_match(False) else 'C', 'K': 'F' if self._strides_match(True) and not self._strides_match(False) else 'C'}.get(order, order)
        return ndarray._fresh(self.shape, self._t, self._values(), order, 'a copy of the array')
    __copy__ = copy
    def __deepcopy__(self, memo): return self.copy('K')
    def astype(self, t, order='K', casting='unsafe', subok=True, copy=True):
        n = name_of(t)
        fo = self._strides_match(True) and not self._strides_match(False)
        if not copy and n == self._t and (order in ('K', 'A') or order == 'C' and self._strides_match(False) or order == 'F' and self._strides_match(True)): return self
        order = {'K': 'F' if fo else 'C', 'A': 'F' if fo else 'C'}.get(order, order)
        return ndarray._fresh(self.shape, n, [convert(v, self._t, n) for v in self._values()], order, 'a converted array')
    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and not isinstance(shape[0], int): shape = tuple(shape[0])
        if order != 'C': raise Unsupported('reshape order')
        k = 1
        for d in shape: k *= d if d != -1 else 1
        shape = tuple(self.size//k if d == -1 else d for d in shape); n = 1
        for d in shape: n *= d
        if n != self.size: raise ValueError('cannot reshape array of size %d into shape %r' % (self.size, shape))
        if self._strides_match(False): return ndarray._of(self, self._p, shape, self._t)
        return ndarray._fresh(shape, self._t, self._values())
    def ravel(self, order='C'):
        if order in ('F',): return self.T.ravel()
        if order in ('K', 'A') and self._strides_match(True) and not self._strides_match(False): return self.T.ravel()
        return self.reshape(-1) if self._strides_match(False) else ndarray._fresh((self.size,), self._t, self._values())
    def flatten(self, order='C'): return self.ravel(order).copy()
    def squeeze(self, axis=None): 
        if axis is not None: raise Unsupported('squeeze axis')
        z = [(d, s) for d, s in zip(self.shape, self.strides) if d != 1]
        return ndarray._of(self, self._p, [d for d, _ in z], self._t, tuple(s for _, s in z))
    def view(self, *a): raise Unsupported('ndarray.view')
    def tolist(self):
        if not self.ndim: return self._values()[0]
        return [x.tolist() if isinstance(x, ndarray) else x for x in self]
    def item(self, *a): return self[a if len(a) > 1 else a[0]] if a else self._values()[0]
    def __len__(self):
        if not self.shape: raise TypeError('len() of unsized object')
        return self.shape[0]
    def __iter__(self):
        for i in range(len(self)): yield self[i]
    def __getitem__(self, ix):
        if not isinstance(ix, tuple): ix = (ix,)
        if Ellipsis in ix:
            i = ix.index(Ellipsis); ix = ix[:i]+(slice(None),)*(self.ndim-len([x for x in ix if x is not None])+1)+ix[i+1:]
        p, sh, st, k = self._p, [], [], 0
        for x in ix:
            if x is None: sh.append(1); st.append(0); continue
            if k >= self.ndim: raise IndexError('too many indices for array')
            d, s = self.shape[k], self.strides[k]; k += 1
            if isinstance(x, slice):
                a, b, c = x.indices(d); n = len(range(a, b, c)); p = p.add(a*s); sh.append(n); st.append(s*c)
            else:
                x = x.__index__()
                if not -d <= x < d: raise IndexError('index %d is out of bounds for axis with size %d' % (x, d))
                p = p.add((x % d)*s)
        sh += self.shape[k:]; st += self.strides[k:]
        if not sh: return load(p, *KINDS[self._t])
        return ndarray._of(self, p, sh, self._t, tuple(st))
    def __bool__(self):
        if self.size > 1: raise ValueError('The truth value of an array with more than one element is ambiguous')
        return bool(self._values()[0])
    def __array__(self, *a, **k): return self
    @property
    def __array_interface__(self): return {'shape': self.shape, 'data': (Address(self._p), False), 'typestr': self.dtype.str, 'strides': None if self._strides_match(False) else self.strides, 'version': 3}
    def __eq__(self, o): raise Unsupported('arithmetic of arrays')
    __ne__ = __lt__ = __gt__ = __add__ = __mul__ = __truediv__ = __rmul__ = __sub__ = __eq__
    __hash__ = None

def from_nested(v):
    sh, x = [], v
    while isinstance(x, (list, tuple)): sh.append(len(x)); x = x[0]
    flat = []
    def walk(y, k):
        if k == len(sh): flat.append(y); return
        if len(y) != sh[k]: raise ValueError('inhomogeneous shape')
        for z in y: walk(z, k+1)
    walk(v, 0)
    return ndarray._fresh(sh, 'float64', flat)
def to_array(v):
    if isinstance(v, ndarray): return v
    if hasattr(v, '__array__'): return v.__array__()
    if isinstance(v, (list, tuple)): return from_nested(v)
    raise Unsupported('array of %s' % type(v).__name__)
def asarray(v, dtype=None, order=None, copy=None, **k):
    a = to_array(v)
    if order is None: order = 'K'
    r = a.astype(dtype if dtype is not None else a.dtype, order, copy=bool(copy))
    return r
def array(v, dtype=None, copy=True, order='K', subok=False, ndmin=0):
    if ndmin: raise Unsupported('ndmin')
    return asarray(v, dtype, order, copy=copy and not (not isinstance(v, ndarray) and dtype is None))
def ascontiguousarray(v, dtype=None):
    a = asarray(v, dtype, 'C')
    return a if a.ndim else a.reshape(1)
def asfortranarray(v, dtype=None): return asarray(v, dtype, 'F')
def require(v, dtype=None, requirements=None):
    rq = {r.upper() for r in (requirements or [])}
    if isinstance(requirements, str): rq = {requirements.upper()}
    order = 'C' if rq & {'C', 'C_CONTIGUOUS', 'CONTIGUOUS'} else 'F' if rq & {'F', 'F_CONTIGUOUS', 'FORTRAN'} else 'A'
    a = asarray(v, dtype, order)
    return a.copy(order) if rq & {'O', 'OWNDATA'} and a.base is not None else a
def as_array(p, shape=None):
    q = fake.value_pointer(p)
    if isinstance(p, fake.Pointer):
        if shape is None: raise TypeError('as_array() requires a shape argument when called on a pointer')
        t = p._type_
        shape = (shape,) if isinstance(shape, int) else tuple(x.__index__() for x in shape)
    elif isinstance(p, fake.Array): t, shape = p._type_, (p._length_,)
    else: raise Unsupported('as_array of %s' % type(p).__name__)
    if q is None: raise ValueError('NULL pointer access')
    if t is not fake.c_float: raise Unsupported('as_array of another type')
    if q.block.size is not None:
        n = 4
        for d in shape: n *= d
        c = q.off+n <= q.block.size
        ctx().require(c if isinstance(c, bool) else c.e, 'an array is larger than the memory under it')
    return ndarray._of(p, q, shape, 'float32')
def empty(shape, dtype='float64', order='C'):
    shape = (shape,) if isinstance(shape, int) else tuple(x.__index__() for x in shape)
    n = name_of(dtype); k = 1
    for d in shape: k *= d
    return ndarray._fresh(shape, n, [], order)
def zeros(shape, dtype='float64', order='C'):
    a = empty(shape, dtype, order)
    for pos in positions(a.shape): store(a._at(pos), *KINDS[a._t], 0.0 if a._t[0] == 'f' else 0)
    return a
def copyto(dst, src, casting='same_kind', where=True):
    if where is not True: raise Unsupported('copyto where')
    s = to_array(src)
    if s.shape != dst.shape: raise Unsupported('broadcast')
    for pos, v in zip(positions(dst.shape), s._values()): store(dst._at(pos), *KINDS[dst._t], convert(v, s._t, dst._t))
def stack(arrays, axis=0):
    arrays = [to_array(a) for a in arrays]
    if axis: raise Unsupported('stack axis')
    if len({a.shape for a in arrays}) != 1: raise ValueError('all input arrays must have the same shape')
    return ndarray._fresh((len(arrays),)+arrays[0].shape, arrays[0]._t, [v for a in arrays for v in a._values()])

def numpy_module():
    m = FakeModule('numpy')
    m.ndarray, m.dtype = ndarray, dtype
    for f in (asarray, array, ascontiguousarray, asfortranarray, require, empty, zeros, copyto, stack): setattr(m, f.__name__, f)
    m.asanyarray = asarray
    m.copy = lambda a, order='K', subok=False: to_array(a).copy(order)
    m.transpose = lambda a, axes=None: to_array(a).transpose(axes) if axes is not None else to_array(a).T
    m.reshape = lambda a, shape, order='C': to_array(a).reshape(shape, order=order)
    m.ravel = lambda a, order='C': to_array(a).ravel(order)
    m.shape = lambda a: to_array(a).shape
    m.ndim = lambda a: to_array(a).ndim
    m.size = lambda a: to_array(a).size
    m.prod = lambda a: __import__('math').prod(a)
    m.isfortran = lambda a: a._strides_match(True) and not a._strides_match(False)
    m.empty_like = lambda a, dtype=None: empty(a.shape, dtype or a.dtype)
    for n in KINDS: setattr(m, n, scalar(n))
    m.single, m.double, m.bool_ = m.float32, m.float64, scalar('bool')
    m.ctypeslib = FakeModule('numpy.ctypeslib'); m.ctypeslib.as_array = as_array
    return m

def gray(mode, v):
    """what conversion to gray gives, up to scale; the palette is an inverted one"""
    return narrow(v[0]*299+v[1]*587+v[2]*114 if mode == 'RGB' else 255-v if mode == 'P' else v)
class PILImage:
    """a Pillow image: frames of (mode, width, height, rows of values)"""
    def __init__(self, frames, at=0): self._frames, self._at = frames, at; self.closed = False
    def _f(self): return self._frames[self._at]
    mode = property(lambda s: s._f()[0])
    width = property(lambda s: s._f()[1])
    height = property(lambda s: s._f()[2])
    size = property(lambda s: (s.width, s.height))
    n_frames = property(lambda s: len(s._frames))
    is_animated = property(lambda s: len(s._frames) > 1)
    def tell(self): return self._at
    def seek(self, n):
        if not 0 <= n < len(self._frames): raise EOFError('no more images in file')
        self._at = n
    def load(self): return None
    def copy(self): return PILImage([self._f()])
    def convert(self, mode=None, *a, **k):
        m, w, h, rows = self._f()
        if mode == m: return PILImage([(m, w, h, [list(r) for r in rows])])
        if mode == 'F': return PILImage([('F', w, h, [[gray(m, v) for v in r] for r in rows])])
        if mode == 'L' : raise Unsupported('conversion to L')
        raise Unsupported('conversion of an image to %r' % (mode,))
    def getpixel(self, xy): return self._f()[3][xy[1]][xy[0]]
    def getdata(self, band=None): return [v for r in self._f()[3] for v in r]
    def __array__(self, *a, **k):
        m, w, h, rows = self._f()
        if m == 'RGB': return ndarray._fresh((h, w, 3), 'uint8', [x for r in rows for v in r for x in v], what='the array of an image')
        t = {'F': 'float32', 'L': 'uint8', 'P': 'uint8', '1': 'bool', 'I': 'int32', 'I;16': 'uint16'}[m]
        return ndarray._fresh((h, w), t, [v for r in rows for v in r], what='the array of an image')
    def __eq__(self, o): return self is o
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): self.closed = True
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('PIL.Image.Image.'+n)
def fromarray(a, mode=None):
    t = {'float32': 'F', 'uint8': 'L', 'bool': '1', 'int32': 'I', 'uint16': 'I;16'}.get(a._t)
    if t is None: raise TypeError('Cannot handle this data type')
    if mode is not None and mode != t: raise Unsupported('fromarray mode')
    if a.ndim != 2: raise ValueError('Too many dimensions')
    v = a._values(); h, w = a.shape
    return PILImage([(t, w, h, [v[y*w:(y+1)*w] for y in range(h)])])
def pil_module():
    p = FakeModule('PIL'); im = FakeModule('PIL.Image'); p.Image = im
    im.Image, im.fromarray = PILImage, fromarray
    im.isImageType = lambda o: isinstance(o, PILImage)
    class UnidentifiedImageError(OSError): pass
    p.UnidentifiedImageError = im.UnidentifiedImageError = UnidentifiedImageError
    class ImageSequence(FakeModule): pass
    s = ImageSequence('PIL.ImageSequence')
    def Iterator(image):
        at = 0
        while True:
            try: image.seek(at)
            except EOFError: return
            at += 1
            yield image
    s.Iterator = Iterator; p.ImageSequence = s
    return p, im, s
