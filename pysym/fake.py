"""A model of ctypes, of C memory, and of libresdet's documented behaviour (that the library behaves so is the subject of the other
properties), for the symbolic execution of the Python binding."""
import types, z3
from sym import ctx, SymInt, SymFloat, SymBool, Unsupported, Violation, raw, fraw, same, isnum, F32, F64, RNE

class World:
    cur = None
    def __init__(self): self.blocks, self.log = [], []
def world(): return World.cur

class Block:
    def __init__(self, kind, size=None, name=''):
        self.kind, self.size, self.name, self.alive, self.cells, self.fill = kind, size, name, True, {}, None
        world().blocks.append(self)

def reading(what, b): 
    if not b.alive: ctx().fail('%s of released memory (%s)' % (what, b.name))

class Ptr:
    def __init__(self, block, off=0): self.block, self.off = block, off
    def add(self, n): return Ptr(self.block, self.off+n)

def offset(off):
    """cells are named by concrete offsets"""
    return off if isinstance(off, int) else ctx().concretize(off.e)

def load(p, kind, size):
    if p is None: raise ValueError('NULL pointer access')
    b = p.block; reading('read', b)
    if b.size is not None:
        ctx().require((p.off >= 0) if isinstance(p.off, int) else z3.simplify((p.off >= 0).e), 'read before the start of %s' % b.name)
        end = p.off+size <= b.size
        ctx().require(end if isinstance(end, bool) else end.e, 'read beyond the end of %s' % b.name)
    if b.fill is not None: return b.fill(p.off, kind)
    o = offset(p.off)
    if o not in b.cells: ctx().fail('read of an undefined place in %s at offset %s' % (b.name, o))
    k, v = b.cells[o]
    if k != kind: ctx().fail('%s in %s read as %s' % (k, b.name, kind))
    return v
def store(p, kind, size, v):
    if p is None: ctx().fail('write through NULL')
    b = p.block; reading('write', b)
    if b.size is not None:
        ctx().require((p.off >= 0) if isinstance(p.off, int) else z3.simplify((p.off >= 0).e), 'write before the start of %s' % b.name)
        end = p.off+size <= b.size
        ctx().require(end if isinstance(end, bool) else end.e, 'write beyond the end of %s' % b.name)
    b.cells[offset(p.off)] = (kind, v)

def cstring(bytes_, name='string'):
    b = Block('static', len(bytes_)+1, name); b.bytes = bytes_; return Ptr(b)
def cbytes(p):
    if p is None: return None
    reading('read', p.block)
    if not hasattr(p.block, 'bytes'): ctx().fail('%s used as a string' % p.block.name)
    return p.block.bytes[p.off:]

class Address:
    """the int a pointer appears as in Python"""
    def __init__(self, p): self.p = p
    def __add__(self, n): return Address(self.p.add(n))
    __radd__ = __add__
    def __sub__(self, n):
        if isinstance(n, Address): raise Unsupported('difference of addresses')
        return Address(self.p.add(-n))
    def __bool__(self): return True
    def __index__(self): raise Unsupported('value of an address')
    __int__ = __index__
    def __eq__(self, o): return isinstance(o, Address) and o.p.block is self.p.block and same(o.p.off, self.p.off)
    def __hash__(self): return id(self.p.block)
class Truncated:
    """an address that went through a C int"""
    def __bool__(self): return True

class ArgumentError(Exception): pass

def wrap(v, bits, signed):
    m = 1 << bits
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int):
        v %= m
        return v-m if signed and v >= m//2 else v
    e = v.e % m
    if signed: e = z3.If(e >= m//2, e-m, e)
    # keep the term simple where it does not wrap
    lo, hi = (-(m//2), m//2-1) if signed else (0, m-1)
    if not ctx().check(z3.Or(v.e < lo, v.e > hi)): return v
    return SymInt(z3.simplify(e))
def round32(v):
    if isinstance(v, SymFloat) and v.bits is not None: return v
    e = fraw(v) if not isinstance(v, SymInt) else None
    if e is None: raise Unsupported('a symbolic int as a C float')
    if not isinstance(v, SymFloat):
        import struct
        try: return struct.unpack('<f', struct.pack('<f', float(v)))[0]
        except OverflowError: return float('inf') if v > 0 else float('-inf')
    return SymFloat(z3.fpToFP(RNE, z3.fpToFP(RNE, e, F32), F64))

class Meta(type):
    def __mul__(cls, n):
        n = n.__index__()
        return array_type(cls, n)
    __rmul__ = __mul__
    def from_param(cls, v): return v

class Data(metaclass=Meta):
    _place = None
    def _at(self):
        if self._place is None:
            self._place = Ptr(Block('py', self._size, type(self).__name__))
        return self._place
    @classmethod
    def _view(cls, p):
        o = cls.__new__(cls); o._place = p; return o
    @classmethod
    def in_dll(cls, *a): raise Unsupported('in_dll')

class Simple(Data):
    _zero = 0
    def __init__(self, value=None):
        self._store(self._zero if value is None else value)
    def _store(self, v): store(self._at(), self._kind, self._size, self._conv(v))
    @property
    def value(self): return self._load()
    @value.setter
    def value(self, v): self._store(v)
    def _load(self): return load(self._at(), self._kind, self._size)
    def __bool__(self): return bool(self._load())

def _integer(name, bits, signed):
    def conv(v):
        if not isinstance(v, (int, SymInt)): raise TypeError('an integer is required (got type %s)' % type(v).__name__)
        return wrap(v, bits, signed)
    return Meta(name, (Simple,), {'_kind': ('i' if signed else 'u')+str(bits), '_size': bits//8, '_conv': staticmethod(conv), '_bits': bits})
c_uint8 = c_ubyte = _integer('c_ubyte', 8, False)
c_byte = c_int8 = _integer('c_byte', 8, True)
c_ushort = c_uint16 = _integer('c_ushort', 16, False)
c_short = c_int16 = _integer('c_short', 16, True)
c_uint = c_uint32 = _integer('c_uint', 32, False)
c_int = c_int32 = _integer('c_int', 32, True)
c_ulong = c_size_t = c_uint64 = c_ulonglong = _integer('c_ulong', 64, False)
c_long = c_int64 = c_ssize_t = c_longlong = _integer('c_long', 64, True)
def _fl(v):
    if not isnum(v): raise TypeError('must be real number, not %s' % type(v).__name__)
    return round32(v)
c_float = Meta('c_float', (Simple,), {'_kind': 'f32', '_size': 4, '_conv': staticmethod(_fl), '_zero': 0.0})
c_double = Meta('c_double', (Simple,), {'_kind': 'f64', '_size': 8, '_conv': staticmethod(lambda v: v), '_zero': 0.0})
c_bool = Meta('c_bool', (Simple,), {'_kind': 'b8', '_size': 1, '_conv': staticmethod(lambda v: bool(v)), '_zero': False})

def topointer(v):
    if v is None: return None
    if isinstance(v, Address): return v.p
    if isinstance(v, Truncated): ctx().fail('an address that lost its upper half is used as a pointer')
    if isinstance(v, int) and v == 0: return None
    raise Unsupported('an int as a pointer')
class c_void_p(Simple):
    _kind, _size, _zero = 'ptr', 8, None
    _conv = staticmethod(topointer)
    def _load(self):
        p = Simple._load(self)
        return None if p is None else Address(p)
class c_char_p(Simple):
    _kind, _size, _zero = 'ptr', 8, None
    @staticmethod
    def _conv(v):
        if isinstance(v, bytes): return cstring(v)
        return topointer(v)
    def _load(self): return cbytes(Simple._load(self))
    def __bool__(self): return Simple._load(self) is not None

class Pointer(Data):
    _size, _kind = 8, 'ptr'
    def __init__(self, obj=None):
        p = None
        if obj is not None:
            if not isinstance(obj, self._type_): raise TypeError('expected %s instead of %s' % (self._type_.__name__, type(obj).__name__))
            p = obj._at(); self._keep = obj
        store(self._at(), 'ptr', 8, p)
    def _get(self): return load(self._at(), 'ptr', 8)
    def _set(self, p): store(self._at(), 'ptr', 8, p)
    def __bool__(self): return self._get() is not None
    @property
    def contents(self):
        p = self._get()
        if p is None: raise ValueError('NULL pointer access')
        return self._type_._view(p)
    @contents.setter
    def contents(self, o): self._set(o._at()); self._keep = o
    def __getitem__(self, i):
        p = self._get()
        if p is None: raise ValueError('NULL pointer access')
        if isinstance(i, slice):
            if i.stop is None: raise ValueError('slice stop is required')
            return [self[k] for k in range((i.start or 0).__index__(), i.stop.__index__(), i.step or 1)]
        if not isinstance(i, (int, SymInt)): raise TypeError('Pointer indices must be integer')
        q = p.add(i*self._type_._size)
        return element(self._type_, q)
    def __setitem__(self, i, v):
        p = self._get()
        if p is None: raise ValueError('NULL pointer access')
        t = self._type_
        store(p.add(i*t._size), t._kind, t._size, t._conv(v))
def element(t, q):
    if issubclass(t, Simple): return t._view(q).value
    return t._view(q)
_pointers = {}
def POINTER(t):
    if t is None: return c_void_p
    if t not in _pointers: _pointers[t] = Meta('LP_'+t.__name__, (Pointer,), {'_type_': t})
    return _pointers[t]
def pointer(o): return POINTER(type(o))(o)

_arrays = {}
class Array(Data):
    def __init__(self, *vals):
        if len(vals) > self._length_: raise IndexError('invalid index')
        b = Block('py', self._size, 'the array'); self._place = Ptr(b); t = self._type_
        for i in range(self._length_):
            store(Ptr(b, i*t._size), t._kind, t._size, t._conv(vals[i]) if i < len(vals) else t._zero)
    def __len__(self): return self._length_
    def __getitem__(self, i):
        if isinstance(i, slice): return [self[k] for k in range(*i.indices(self._length_))]
        if i < 0: i += self._length_
        if not 0 <= i < self._length_: raise IndexError('invalid index')
        return element(self._type_, self._at().add(i*self._type_._size))
def array_type(t, n):
    if (t, n) not in _arrays: _arrays[t, n] = Meta('%s_Array_%d' % (t.__name__, n), (Array,), {'_type_': t, '_length_': n, '_size': t._size*n})
    return _arrays[t, n]

_funcs = {}
class FuncPtr(Data):
    _size, _kind, _zero = 8, 'ptr', None
    def __init__(self, fn=None):
        if fn is not None and not callable(fn): raise TypeError('the first argument must be callable')
        self._fn = fn
        store(self._at(), 'ptr', 8, None if fn is None else Ptr(Block('py', 8, 'callback')))
    def __bool__(self): return self._fn is not None
    @classmethod
    def _conv(cls, v): return v
def CFUNCTYPE(restype, *argtypes, **kw):
    k = (restype, argtypes)
    if k not in _funcs: _funcs[k] = Meta('CFunctionType', (FuncPtr,), {'_restype_': restype, '_argtypes_': argtypes})
    return _funcs[k]

class StructMeta(Meta):
    def __init__(cls, name, bases, ns):
        super().__init__(name, bases, ns)
        if '_fields_' in ns: cls._layout()
    def __setattr__(cls, k, v):
        type.__setattr__(cls, k, v)
        if k == '_fields_': cls._layout()
    def _layout(cls):
        off, al = 0, 1
        for n, t in cls._fields_:
            a = min(t._size, 8) or 1; off = -(-off//a)*a; al = max(al, a)
            type.__setattr__(cls, n, field(t, off)); off += t._size
        type.__setattr__(cls, '_size', -(-off//al)*al)
def field(t, off):
    def get(self):
        q = self._at().add(off)
        return element(t, q) if not issubclass(t, FuncPtr) else (load(q, 'ptr', 8), t())[1]
    def put(self, v): store(self._at().add(off), t._kind, t._size, t._conv(v))
    return property(get, put)
class Structure(Data, metaclass=StructMeta):
    _size = 0
    def __init__(self, *a, **k):
        for (n, t), v in zip(self._fields_, a): setattr(self, n, v)
        for n, v in k.items(): setattr(self, n, v)

class Ref:
    def __init__(self, o, off=0): self.obj, self.p = o, o._at().add(off)
def byref(o, off=0):
    if not isinstance(o, Data): raise TypeError('byref() argument must be a ctypes instance, not %r' % type(o).__name__)
    return Ref(o, off)
def addressof(o):
    if not isinstance(o, Data): raise TypeError('invalid type')
    return Address(o._at())
def sizeof(o): return o._size
def value_pointer(v):
    """what a pointer-like object points to"""
    if v is None: return None
    if isinstance(v, Pointer): return v._get()
    if isinstance(v, (c_void_p, c_char_p)): return load(v._at(), 'ptr', 8)
    if isinstance(v, Array): return v._at()
    if isinstance(v, Ref): return v.p
    if isinstance(v, bytes): return cstring(v)
    if isinstance(v, (Address, Truncated, int)): return topointer(v)
    raise ArgumentError('wrong type')
def cast(o, t):
    if not (isinstance(t, type) and issubclass(t, (Pointer, c_void_p, c_char_p, FuncPtr))): raise TypeError('cast() argument 2 must be a pointer')
    r = t.__new__(t); store(r._at(), 'ptr', 8, value_pointer(o)); r._keep = o
    return r
def string_at(p, size=-1):
    b = cbytes(value_pointer(p))
    return b if size < 0 else b[:size]

def convert(t, v):
    """an argument of a declared type -> its C value: a number, Ptr, None, or a callback"""
    if t is c_char_p:
        if v is None or isinstance(v, bytes): return None if v is None else cstring(v)
        if isinstance(v, c_char_p): return value_pointer(v)
        if isinstance(v, Array) and v._type_._size == 1: return v._at()
    elif t is c_void_p:
        if v is None or isinstance(v, (Pointer, c_void_p, c_char_p, Array, Ref, Address, Truncated, bytes, int)): return value_pointer(v)
        if isinstance(v, FuncPtr): return v
    elif issubclass(t, Pointer):
        if v is None: return None
        if isinstance(v, t): return v._get()
        if isinstance(v, Array) and v._type_ is t._type_: return v._at()
        if isinstance(v, Ref) and isinstance(v.obj, t._type_): return v.p
        if isinstance(v, t._type_): return v._at()
    elif issubclass(t, FuncPtr):
        if type(v) is t: return v
        raise ArgumentError('expected CFunctionType instance instead of %s' % type(v).__name__)
    elif issubclass(t, Simple):
        if isinstance(v, t): return v.value
        if not isinstance(v, Data):
            try: return t._conv(v)
            except TypeError as e:
                if not hasattr(v, '_as_parameter_'): raise ArgumentError(str(e))
    if hasattr(v, '_as_parameter_'): return convert(t, v._as_parameter_)
    raise ArgumentError('expected %s instance instead of %s' % (t.__name__, type(v).__name__))
class CInt:
    """a C int passed where nothing was declared"""
    def __init__(self, v): self.v = v
def undeclared(v):
    if v is None: return None
    if isinstance(v, bytes): return cstring(v)
    if isinstance(v, Address): return Truncated()
    if isinstance(v, (int, SymInt)): return CInt(wrap(v, 32, True))
    if isinstance(v, (Pointer, c_char_p, c_void_p, Array, Ref)): return value_pointer(v)
    if isinstance(v, FuncPtr): return v
    if isinstance(v, Simple): return v.value
    if hasattr(v, '_as_parameter_'): return undeclared(v._as_parameter_)
    raise ArgumentError("Don't know how to convert parameter")

class Function:
    def __init__(self, name, impl): self.__name__, self._impl, self.argtypes, self.restype = name, impl, None, c_int
    def __call__(self, *args):
        if self.argtypes is not None:
            if len(args) < len(self.argtypes): raise TypeError('this function takes at least %d arguments (%d given)' % (len(self.argtypes), len(args)))
            vals = [convert(t, a) for t, a in zip(self.argtypes, args)]+[undeclared(a) for a in args[len(self.argtypes):]]
        else: vals = [undeclared(a) for a in args]
        sig, ret = SIGNATURES[self.__name__]
        if len(vals) != len(sig): ctx().fail('%s called with %d arguments' % (self.__name__, len(vals)))
        for i, (s, v) in enumerate(zip(sig, vals)):
            if isinstance(v, Truncated): ctx().fail('%s is passed an address that lost its upper half' % self.__name__)
            if s == 'p':
                if isinstance(v, CInt) and isinstance(v.v, int) and v.v == 0: vals[i] = None
                elif not (v is None or isinstance(v, Ptr)): ctx().fail('argument %d of %s is not a pointer' % (i+1, self.__name__))
            elif s == 'c':
                if not (v is None or isinstance(v, FuncPtr)): ctx().fail('argument %d of %s is not a callback' % (i+1, self.__name__))
            elif s == 'f':
                if not isinstance(v, (float, SymFloat)): ctx().fail('argument %d of %s is not a float' % (i+1, self.__name__))
            else:
                if isinstance(v, CInt): # the upper half of the register is undefined: only a value of an int arrives
                    v = v.v
                    if s in ('u64',): 
                        b = v < 0
                        ctx().require(not b if isinstance(b, bool) else z3.Not(b.e), 'argument %d of %s loses its upper half' % (i+1, self.__name__))
                elif not isinstance(v, (int, SymInt)): ctx().fail('argument %d of %s is not an integer' % (i+1, self.__name__))
                vals[i] = wrap(v, int(s[1:]), s[0] == 'i')
                if s in ('u64',) and self.argtypes is not None and self.argtypes[i]._size < 8:
                    ctx().require(same(vals[i], args[i]) if isinstance(args[i], (int, SymInt)) else True, 'argument %d of %s is cut to %d bits' % (i+1, self.__name__, self.argtypes[i]._bits))
        world().log.append((self.__name__, vals))
        return self._result(ret, self._impl(*vals))
    def _result(self, ret, v):
        t = self.restype
        if t is None: return None
        if ret == 'void': return 0
        if ret == 'p':
            if issubclass(t, Pointer):
                r = t.__new__(t); store(r._at(), 'ptr', 8, v); return r
            if t is c_void_p: return None if v is None else Address(v)
            if t is c_char_p: return cbytes(v)
            return 0 if v is None else Truncated()
        if ret == 'b':
            # a C bool is returned in the low byte only
            if t is c_bool: return v
            return 1 if v else 0
        if issubclass(t, (Pointer, c_void_p, c_char_p)): ctx().fail('the number %s returns is taken for a pointer' % self.__name__)
        return t._conv(v) if not isinstance(v, bool) else v

SIGNATURES = {
 'malloc': (['u64'], 'p'), 'calloc': (['u64', 'u64'], 'p'), 'free': (['p'], 'void'),
 'resdet_libversion': ([], 'p'), 'resdet_error_str': (['i32'], 'p'), 'resdet_methods': ([], 'p'), 'resdet_get_method': (['p'], 'p'),
 'resdet_default_range': ([], 'u64'), 'resdet_get_max_error': ([], 'i32'), 'resdet_alloc_default_parameters': ([], 'p'), 'resdet_parameters_set_range': (['p', 'u64'], 'i32'),
 'resdet_parameters_set_threshold': (['p', 'f'], 'i32'), 'resdet_parameters_set_compression_filter': (['p', 'u8'], 'i32'),
 'resdet_open_image': (['p']*6, 'p'), 'resdet_open_image_with_reader': (['p']*6, 'p'), 'resdet_list_image_readers': ([], 'p'),
 'resdet_read_image_frame': (['p']*3, 'b'), 'resdet_seek_frame': (['p', 'u64', 'c', 'p', 'p'], 'b'), 'resdet_close_image': (['p'], 'void'),
 'resdet_read_image': (['p']*6, 'i32'), 'resdet_create_analysis': (['p', 'u64', 'u64', 'p', 'p'], 'p'), 'resdet_analyze_image': (['p', 'p'], 'i32'),
 'resdet_analysis_results': (['p']*5, 'i32'), 'resdet_destroy_analysis': (['p'], 'void'),
 'resdetect': (['p', 'u64', 'u64', 'u64']+['p']*6, 'i32'), 'resdetect_file': (['p']*8, 'i32'),
}

class Library:
    """CDLL: attributes are the functions of the model, each made once"""
    def __init__(self, impl): self._impl, self._made = impl, {}
    def __getattr__(self, n):
        if n.startswith('_'): raise AttributeError(n)
        if n not in self._made:
            if n not in SIGNATURES or not hasattr(self._impl, n): raise Unsupported('library function '+n)
            self._made[n] = Function(n, getattr(self._impl, n))
        return self._made[n]
    def __getitem__(self, n): return getattr(self, n)

class FakeModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('%s.%s' % (self.__name__, n))

def ctypes_module(lib):
    m = FakeModule('ctypes'); u = FakeModule('ctypes.util'); m.util = u
    for n in ('c_uint8 c_ubyte c_byte c_int8 c_ushort c_uint16 c_short c_int16 c_uint c_uint32 c_int c_int32 c_ulong c_size_t c_uint64 c_ulonglong c_long c_int64 c_ssize_t c_longlong '
              'c_float c_double c_bool c_void_p c_char_p POINTER pointer CFUNCTYPE Structure Array byref addressof sizeof cast string_at ArgumentError').split():
        setattr(m, n, globals()[n])
    m._Pointer = Pointer; m._SimpleCData = Simple
    m.CDLL = m.PyDLL = lambda name=None, *a, **k: lib
    class Loader:
        LoadLibrary = staticmethod(lambda name: lib)
    m.cdll = Loader()
    u.find_library = lambda n: 'lib%s.so' % n
    return m, u

def array_module():
    m = FakeModule('array')
    class array:
        def __init__(self, typecode, init=()):
            self.typecode, self._v = typecode, list(init)
            self.itemsize = {'f': 4, 'd': 8, 'b': 1, 'B': 1, 'i': 4, 'I': 4, 'q': 8, 'Q': 8}[typecode]
            self._b = Block('py', self.itemsize*len(self._v), 'the array')
            kind = {'f': 'f32', 'd': 'f64'}.get(typecode, 'i')
            for i, v in enumerate(self._v): self._b.cells[i*self.itemsize] = (kind, round32(v) if kind == 'f32' else v)
        def buffer_info(self): return Address(Ptr(self._b)), len(self._v)
        def __len__(self): return len(self._v)
        def __getitem__(self, i): return self._v[i]
    m.array = array
    return m
