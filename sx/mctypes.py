"""Model of the ctypes module on symbolic memory (bounds-checked buffers; sizes may be symbolic)."""
import types
import z3
from . import core
from .core import (SymInt, SymBool, SymBytes, SymByteArray, SymView, SymStr, concat, rlen, rslice, rget, split, zeros,
                   all_elems, int_from_el, int_to_bytes, fork_true, is_intlike, MemoryFault, Unsupported, mkrope,
                   segs_of, is_bytesy, mkint, as_bv, mkbytes_el, int_to_elem)


class Buf:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def buf_read(buf, off, n):
    total = rlen(buf.v)
    if fork_true(core.bor(off < 0, n < 0, off + n > total)):
        raise MemoryFault("read of %r bytes at %r outside a buffer of %r bytes" % (n, off, total))
    if type(off) is int and off == 0 and _same(n, total):
        return buf.v if type(buf.v) in (bytes, SymBytes) else mkrope(segs_of(buf.v))
    _, r = split(buf.v, off)
    l, _ = split(r, n)
    return l


def _same(a, b):
    r = a == b
    return r if type(r) is bool else core.CTX.must(r.t)


def buf_write(buf, off, data):
    n, total = rlen(data), rlen(buf.v)
    if fork_true(core.bor(off < 0, off + n > total)):
        raise MemoryFault("write of %r bytes at %r outside a buffer of %r bytes" % (n, off, total))
    if type(off) is int and off == 0 and _same(n, total):
        buf.v = mkrope(segs_of(data))
        return
    l, r = split(buf.v, off)
    _, r2 = split(r, n)
    buf.v = concat([l, data, r2])


class Addr:
    """a C address: (buffer, offset)"""
    __slots__ = ("buf", "off")

    def __init__(self, buf, off):
        self.buf, self.off = buf, off

    @property
    def __class__(self):
        return int

    def __add__(self, n):
        return Addr(self.buf, self.off + n)
    __radd__ = __add__

    def __sub__(self, n):
        if type(n) is Addr:
            if n.buf is not self.buf:
                raise Unsupported("difference of unrelated addresses")
            return self.off - n.off
        return Addr(self.buf, self.off - n)

    def __bool__(self):
        return True

    def __index__(self):
        raise Unsupported("address as number")
    __int__ = __index__


class Ref:
    """byref()"""
    def __init__(self, obj, off=0):
        self._obj, self._off = obj, off


# ------------------------------------------------------------------ types
class CType(type):
    def __mul__(cls, n):
        return array_type(cls, n)
    __rmul__ = __mul__

    def from_buffer_copy(cls, src, offset=0):
        if not is_bytesy(src):
            raise TypeError("a bytes-like object is required, not '%s'" % type(src).__name__)
        if fork_true(offset < 0):
            raise ValueError("offset cannot be negative")
        n, size = rlen(src), cls._sx_size_
        if not fork_true(n >= offset + size):
            raise ValueError("Buffer size too small (%s instead of at least %s bytes)" % (n, size))
        if _same(offset, 0) and _same(n, size):
            data = mkrope(segs_of(src))
        else:
            data = rslice(src, slice(offset, offset + size))
        return cls._sx_view_(Buf(data), 0)

    def from_buffer(cls, src, offset=0):
        if type(src) is not SymByteArray:
            if hasattr(src, "_sxbuf"):
                return cls._sx_view_(src._sxbuf, src._sxoff + offset)
            if isinstance(src, bytes):
                raise TypeError("underlying buffer is not writable")
            raise Unsupported("from_buffer(%s)" % type(src).__name__)
        if fork_true(offset < 0):
            raise ValueError("offset cannot be negative")
        if not fork_true(rlen(src) >= offset + cls._sx_size_):
            raise ValueError("Buffer size too small")
        return cls._sx_view_(src, offset)

    def from_address(cls, a):
        if type(a) is not Addr:
            raise Unsupported("from_address of a number")
        return cls._sx_view_(a.buf, a.off)

    def from_param(cls, x):
        return x

    def _sx_view_(cls, buf, off):
        o = cls.__new__(cls)
        o._sxbuf, o._sxoff = buf, off
        return o


class _CData(metaclass=CType):
    _sx_size_ = 0
    _sx_align_ = 1

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        return o

    def _sx_buffer_(self):
        return buf_read(self._sxbuf, self._sxoff, type(self)._sx_size_)

    def _sx_alloc(self):
        if "_sxbuf" not in self.__dict__:
            self._sxbuf = Buf(zeros(type(self)._sx_size_))
            self._sxoff = 0

    def __eq__(self, o):
        return self is o
    __hash__ = object.__hash__

    def __reduce__(self):
        raise Unsupported("pickle of ctypes object")


def to_c_int(v):
    if type(v) is SymBool:
        return v.to_int()
    if type(v) in (int, SymInt):
        return v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, _Simple):
        raise TypeError("an integer is required (got type %s)" % type(v).__name__)
    if type(v) is Addr:
        return v
    if isinstance(v, int):
        return int(v)
    if hasattr(type(v), "__index__"):
        return v.__index__()
    raise TypeError("an integer is required (got type %s)" % type(v).__name__)


class _Simple(_CData):
    _kind_ = "int"          # int | char | bool | voidp | charp
    _signed_ = False
    _swapped_ = False

    def __init__(self, value=None):
        self._sx_alloc()
        if value is not None:
            self.value = value

    @classmethod
    def _sx_get_(cls, buf, off, swapped=False):
        raw = buf_read(buf, off, cls._sx_size_)
        if cls._kind_ == "char":
            return raw
        v = int_from_el(all_elems(raw), "big" if swapped else "little", cls._signed_)
        if cls._kind_ == "bool":
            return v != 0
        return v

    @classmethod
    def _sx_set_(cls, buf, off, v, swapped=False):
        if isinstance(v, cls):
            v = v.value
        if cls._kind_ == "char":
            if is_bytesy(v) and _same(rlen(v), 1):
                buf_write(buf, off, v)
                return
            if isinstance(v, int):
                buf_write(buf, off, mkbytes_el([int_to_elem(v)]))
                return
            raise TypeError("one character bytes, bytearray, or an integer in range(256) expected")
        if cls._kind_ == "bool":
            v = 1 if v else 0
        v = to_c_int(v)
        if type(v) is Addr:
            raise Unsupported("storing an address")
        buf_write(buf, off, int_to_bytes(v, cls._sx_size_, "big" if swapped else "little"))

    @property
    def value(self):
        return type(self)._sx_get_(self._sxbuf, self._sxoff, type(self)._swapped_)

    @value.setter
    def value(self, v):
        type(self)._sx_set_(self._sxbuf, self._sxoff, v, type(self)._swapped_)

    def __bool__(self):
        return bool(self.value != 0)

    def __repr__(self):
        return "%s(<sym>)" % type(self).__name__


def _mk(name, size, signed=False, kind="int"):
    return CType(name, (_Simple,), {"_sx_size_": size, "_sx_align_": size, "_signed_": signed, "_kind_": kind,
                                    "_type_": name, "__module__": "ctypes"})


c_uint8 = _mk("c_ubyte", 1)
c_int8 = _mk("c_byte", 1, True)
c_uint16 = _mk("c_ushort", 2)
c_int16 = _mk("c_short", 2, True)
c_uint32 = _mk("c_uint", 4)
c_int32 = _mk("c_int", 4, True)
c_uint64 = _mk("c_ulong", 8)
c_int64 = _mk("c_long", 8, True)
c_char = _mk("c_char", 1, kind="char")
c_bool = _mk("c_bool", 1, kind="bool")
c_ubyte, c_byte, c_ushort, c_short, c_uint, c_int = c_uint8, c_int8, c_uint16, c_int16, c_uint32, c_int32
c_ulong, c_long, c_ulonglong, c_longlong, c_size_t, c_ssize_t = c_uint64, c_int64, c_uint64, c_int64, c_uint64, c_int64


class _Ptr(_CData):
    _sx_size_ = 8
    _sx_align_ = 8

    def __init__(self, value=None):
        self.value = value
        self._sx_alloc()


class c_void_p(_Ptr):
    pass


class c_char_p(_Ptr):
    pass


class py_object(_Ptr):
    pass


# ------------------------------------------------------------------ arrays
_array_cache = {}


def array_type(elem, n):
    if type(n) is SymBool:
        n = n.to_int()
    if not is_intlike(n):
        raise TypeError("can't multiply sequence by non-int of type '%s'" % type(n).__name__)
    if type(n) is SymInt:
        if fork_true(n < 0):
            raise ValueError("Array length must be >= 0, not %s" % n)
        n = n.narrowed(0, n.hi)
        if type(n) is SymInt and (n.hi - n.lo <= 40 or elem._sx_size_ != 1):
            n = int(n)
    if type(n) is not SymInt:
        n = int(n)
        if n < 0:
            raise ValueError("Array length must be >= 0, not %d" % n)
        key = (elem, n)
        if key in _array_cache:
            return _array_cache[key]
    t = CType("%s_Array_%s" % (elem.__name__, n if type(n) is int else "sym"), (Array,),
              {"_sx_elem_": elem, "_sx_len_": n, "_sx_size_": elem._sx_size_ * n, "_sx_align_": elem._sx_align_,
               "_type_": elem, "_length_": n, "__module__": "ctypes"})
    if type(n) is int:
        _array_cache[(elem, n)] = t
    return t


class Array(_CData):
    def __init__(self, *args):
        self._sx_alloc()
        n = type(self)._sx_len_
        if fork_true(len(args) > n):
            raise IndexError("invalid index")
        for i, a in enumerate(args):
            self[i] = a

    def __len__(self):
        n = type(self)._sx_len_
        return n

    def __bool__(self):
        return bool(type(self)._sx_len_ != 0)

    def _idx(self, i):
        n = type(self)._sx_len_
        if not isinstance(i, int):
            i = i.__index__()
        if fork_true(i < 0):
            i = i + n
        if fork_true(core.bor(i < 0, i >= n)):
            raise IndexError("invalid index")
        return i

    def __getitem__(self, i):
        e = type(self)._sx_elem_
        if isinstance(i, slice):
            if issubclass(e, _Simple) and e._kind_ == "char":
                return rslice(self._sx_buffer_(), i)
            if e._sx_size_ == 1 and issubclass(e, _Simple) and not e._signed_ and e._kind_ == "int":
                r = rslice(self._sx_buffer_(), i)
                if type(rlen(r)) is SymInt:
                    from .instr import ByteList
                    return ByteList(r)
                return [core.elem_to_int(x) for x in all_elems(r)]
            n = int(type(self)._sx_len_)
            return [self[j] for j in range(n)[slice(*[None if q is None else int(q)
                                                      for q in (i.start, i.stop, i.step)])]]
        i = self._idx(i)
        return get_typed(e, self._sxbuf, self._sxoff + e._sx_size_ * i)

    def __setitem__(self, i, v):
        e = type(self)._sx_elem_
        if isinstance(i, slice):
            n = type(self)._sx_len_
            a = core.clamp_index(i.start, n, 0)
            b = core.clamp_index(i.stop, n, n)
            if i.step is not None and int(i.step) != 1:
                raise Unsupported("strided ctypes slice assignment")
            if is_bytesy(v) and e._sx_size_ == 1:
                if not fork_true(rlen(v) == b - a):
                    raise ValueError("Can only assign sequence of same size")
                buf_write(self._sxbuf, self._sxoff + a, v)
                return
            v = list(v)
            if not fork_true(b - a == len(v)):
                raise ValueError("Can only assign sequence of same size")
            for j, x in enumerate(v):
                self[a + j] = x
            return
        i = self._idx(i)
        set_typed(e, self._sxbuf, self._sxoff + e._sx_size_ * i, v)

    def __iter__(self):
        i = 0
        n = type(self)._sx_len_
        while fork_true(i < n):
            yield self[i]
            i += 1

    def __getattr__(self, name):
        if name in ("raw", "value") and issubclass(type(self)._sx_elem_, _Simple) \
                and type(self)._sx_elem_._kind_ == "char":
            r = self._sx_buffer_()
            if name == "raw":
                return SymBytes(segs_of(r))      # a distinct object: C code may write into it
            els = all_elems(r)
            out = []
            for e in els:
                if fork_true(core.elem_to_int(e) == 0):
                    break
                out.append(e)
            return mkbytes_el(out)
        raise AttributeError("'%s' object has no attribute '%s'" % (type(self).__name__, name))

    def __setattr__(self, name, v):
        if name in ("raw", "value") and type(self)._sx_elem_ is c_char:
            if fork_true(rlen(v) > type(self)._sx_size_):
                raise ValueError("byte string too long")
            buf_write(self._sxbuf, self._sxoff, v)
            if name == "value" and fork_true(rlen(v) < type(self)._sx_size_):
                buf_write(self._sxbuf, self._sxoff + rlen(v), b"\0")
            return
        object.__setattr__(self, name, v)


def get_typed(t, buf, off, swapped=False):
    if issubclass(t, _Simple) and _Simple in t.__bases__:
        return t._sx_get_(buf, off, swapped)
    return t._sx_view_(buf, off)


def set_typed(t, buf, off, v, swapped=False):
    if issubclass(t, _Simple):
        return t._sx_set_(buf, off, v, swapped)
    if issubclass(t, Array):
        e = t._sx_elem_
        if e is c_char and is_bytesy(v) and not hasattr(type(v), "_sx_buffer_"):
            n = rlen(v)
            if fork_true(n > t._sx_size_):
                raise ValueError("bytes too long")
            buf_write(buf, off, v)
            if fork_true(n < t._sx_size_):
                buf_write(buf, off + n, b"\0")
            return
        if isinstance(v, tuple):
            if fork_true(len(v) > t._sx_len_):
                raise RuntimeError("(%s) <class 'IndexError'>: invalid index" % t.__name__)
            tmp = t(*v)
            buf_write(buf, off, tmp._sx_buffer_())
            return
        if isinstance(v, t):
            buf_write(buf, off, v._sx_buffer_())
            return
        if isinstance(v, Array) and type(v)._sx_elem_ is e and \
                (type(type(v)._sx_len_) is SymInt or type(t._sx_len_) is SymInt):
            if fork_true(type(v)._sx_len_ == t._sx_len_):
                buf_write(buf, off, v._sx_buffer_())
                return
        raise TypeError("incompatible types, %s instance instead of %s instance" % (type(v).__name__, t.__name__))
    if isinstance(v, tuple):
        tmp = t(*v)
        buf_write(buf, off, tmp._sx_buffer_())
        return
    if isinstance(v, t):
        buf_write(buf, off, v._sx_buffer_())
        return
    raise TypeError("incompatible types, %s instance instead of %s instance" % (type(v).__name__, t.__name__))


# ------------------------------------------------------------------ structures
class CField:
    def __init__(self, name, t, off, swapped, bits=None, bitoff=0):
        self.name, self.t, self.offset, self.swapped = name, t, off, swapped
        self.bits, self.bitoff = bits, bitoff
        self.size = t._sx_size_ if bits is None else (bits << 16) | bitoff

    def __get__(self, o, cls=None):
        if o is None:
            return self
        off = o._sxoff + self.offset
        if self.bits is None:
            return get_typed(self.t, o._sxbuf, off, self.swapped)
        raw = int_from_el(all_elems(buf_read(o._sxbuf, off, self.t._sx_size_)), "big" if self.swapped else "little", False)
        sh = self.bitoff if not self.swapped else 8 * self.t._sx_size_ - self.bitoff - self.bits
        v = (raw >> sh) & ((1 << self.bits) - 1)
        if self.t._signed_:
            s = 1 << (self.bits - 1)
            v = (v ^ s) - s
        if self.t._kind_ == "bool":
            return v != 0
        return v

    def __set__(self, o, v):
        off = o._sxoff + self.offset
        if self.bits is None:
            set_typed(self.t, o._sxbuf, off, v, self.swapped)
            return
        v = to_c_int(v if self.t._kind_ != "bool" else (1 if v else 0))
        size = self.t._sx_size_
        order = "big" if self.swapped else "little"
        raw = int_from_el(all_elems(buf_read(o._sxbuf, off, size)), order, False)
        sh = self.bitoff if not self.swapped else 8 * size - self.bitoff - self.bits
        mask = ((1 << self.bits) - 1)
        nv = (raw & (((1 << (8 * size)) - 1) ^ (mask << sh))) | ((v & mask) << sh)
        buf_write(o._sxbuf, off, int_to_bytes(nv, size, order))


def layout(cls, fields, pack, base_size, base_align, swapped, union=False):
    off, align = base_size, base_align
    total = base_size
    unit = None          # (type size, unit offset, used bits)
    out = {}
    for f in fields:
        name, t = f[0], f[1]
        bits = f[2] if len(f) > 2 else None
        if not isinstance(t, CType):
            raise TypeError("second item in _fields_ tuple (index 0) must be a C type")
        al = t._sx_align_ if not pack else min(pack, t._sx_align_)
        align = max(align, al)
        size = t._sx_size_
        if bits is not None:
            if not issubclass(t, _Simple) or t._kind_ not in ("int", "bool"):
                raise TypeError("bit fields not allowed for type %s" % t.__name__)
            if bits <= 0 or bits > 8 * size:
                raise ValueError("number of bits invalid for bit field")
            if unit and unit[0] == size and unit[2] + bits <= 8 * size:
                out[name] = CField(name, t, unit[1], swapped, bits, unit[2])
                unit = (size, unit[1], unit[2] + bits)
            else:
                off = _align(off, al) if not union else 0
                out[name] = CField(name, t, off, swapped, bits, 0)
                unit = (size, off, bits)
                off = off + size
        else:
            unit = None
            off = _align(off, al) if not union else 0
            out[name] = CField(name, t, off, swapped)
            off = off + size
        if union:
            total = max(total, off)
        else:
            total = off
    return out, _align(total, align), align


def _align(off, al):
    if al <= 1:
        return off
    if type(off) is SymInt:
        off = int(off)
    return (off + al - 1) // al * al


class StructMeta(CType):
    def __new__(m, name, bases, dct):
        cls = super().__new__(m, name, bases, dct)
        if "_fields_" in dct:
            cls._sx_layout_(dct["_fields_"])
        return cls

    def __setattr__(cls, name, v):
        type.__setattr__(cls, name, v)
        if name == "_fields_":
            cls._sx_layout_(v)

    def _sx_layout_(cls, fields):
        base = cls.__mro__[1]
        bs, ba = getattr(base, "_sx_size_", 0), getattr(base, "_sx_align_", 1)
        if not hasattr(base, "_sx_names_") or not base._sx_names_:
            bs, ba = 0, 1
        out, size, align = layout(cls, fields, getattr(cls, "_pack_", None), bs, ba, cls._swapped_, cls._union_)
        for k, v in out.items():
            type.__setattr__(cls, k, v)
        type.__setattr__(cls, "_sx_size_", size)
        type.__setattr__(cls, "_sx_align_", align)
        type.__setattr__(cls, "_sx_names_", tuple(getattr(base, "_sx_names_", ())) + tuple(out))


class Structure(_CData, metaclass=StructMeta):
    _swapped_ = False
    _union_ = False
    _sx_names_ = ()

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        o._sx_alloc()
        return o

    def __init__(self, *args, **kw):
        self._sx_alloc()
        names = type(self)._sx_names_
        if len(args) > len(names):
            raise TypeError("too many initializers")
        for n, v in zip(names, args):
            if n in kw:
                raise TypeError("duplicate values for field %r" % n)
            setattr(self, n, v)
        for k, v in kw.items():
            setattr(self, k, v)


class LittleEndianStructure(Structure):
    pass


class BigEndianStructure(Structure):
    _swapped_ = True


class Union(Structure):
    _union_ = True


# ------------------------------------------------------------------ functions
def sizeof(x):
    if isinstance(x, type):
        return x._sx_size_
    if isinstance(x, _CData):
        return type(x)._sx_size_
    raise TypeError("this type has no size")


def alignment(x):
    return (x if isinstance(x, type) else type(x))._sx_align_


def addressof(x):
    if not isinstance(x, _CData):
        raise TypeError("invalid type")
    return Addr(x._sxbuf, x._sxoff)


def byref(x, off=0):
    return Ref(x, off)


def pointer(x):
    return Ref(x, 0)


def POINTER(t):
    return c_void_p


def cast(x, t):
    return Ref(x, 0) if not isinstance(x, Ref) else x


def as_addr(p, writable):
    if type(p) is Addr:
        return p
    if isinstance(p, Ref):
        return Addr(p._obj._sxbuf, p._obj._sxoff + p._off)
    if isinstance(p, _CData) and hasattr(p, "_sxbuf"):
        return Addr(p._sxbuf, p._sxoff)
    if type(p) is SymByteArray:
        return Addr(p, 0)
    if not writable and is_bytesy(p):
        return Addr(Buf(mkrope(segs_of(p))), 0)
    if writable and type(p) is SymBytes:
        return Addr(_Poke(p), 0)
    raise TypeError("wrong type")


class _Poke:
    """C code writing into an immutable bytes object (crypto_hash of the native back end does this)."""
    def __init__(self, b):
        self.b = b

    @property
    def v(self):
        return self.b

    @v.setter
    def v(self, x):
        self.b.segs = segs_of(x)


def memmove(dst, src, n):
    d, s = as_addr(dst, True), as_addr(src, False)
    if type(n) is SymBool:
        n = n.to_int()
    if not is_intlike(n):
        raise TypeError("integer expected")
    data = buf_read(s.buf, s.off, n)
    buf_write(d.buf, d.off, data)
    return dst


def memset(dst, c, n):
    d = as_addr(dst, True)
    buf_write(d.buf, d.off, core.sx_repeat(mkbytes_el([int_to_elem(c & 255)]), n))
    return dst


def string_at(p, n=-1):
    a = as_addr(p, False)
    if type(n) is int and n < 0:
        raise Unsupported("string_at without size")
    return buf_read(a.buf, a.off, n)


def create_string_buffer(init, size=None):
    if is_bytesy(init):
        n = rlen(init) + 1 if size is None else size
        b = array_type(c_char, n)()
        buf_write(b._sxbuf, 0, init)
        return b
    if not is_intlike(init):
        raise TypeError(init)
    return array_type(c_char, init)()


class CDLL:
    factory = None     # set by the environment: name -> object

    def __new__(cls, name=None, *a, **k):
        if CDLL.factory is None:
            raise OSError("no such library")
        return CDLL.factory(name)


class _Loader:
    def LoadLibrary(self, name):
        return CDLL(name)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return CDLL(name)


def module():
    m = types.ModuleType("ctypes")
    g = globals()
    names = [n for n in g if n.startswith("c_")] + [
        "Array", "Structure", "LittleEndianStructure", "BigEndianStructure", "Union", "sizeof", "alignment", "addressof",
        "byref", "pointer", "POINTER", "cast", "memmove", "memset", "string_at", "create_string_buffer", "CDLL",
        "py_object"]
    for n in names:
        setattr(m, n, g[n])
    m.cdll = _Loader()
    m.__all__ = names + ["cdll"]
    u = types.ModuleType("ctypes.util")
    u.find_library = lambda name: "lib%s.so" % name
    m.util = u
    return m, u
