"""Model of the struct module on symbolic values (falls back to the real one when everything is concrete)."""
import struct as real
import types
from . import core
from .core import is_sym, concat, rlen, rslice, all_elems, int_from_el, int_to_bytes, fork_true, is_intlike

CODES = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False),
         "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False), "?": (1, None), "x": (1, None), "c": (1, None)}
error = real.error


def parse(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order, i = "@", 0
    if fmt and fmt[0] in "@=<>!":
        order, i = fmt[0], 1
    items = []
    while i < len(fmt):
        if fmt[i].isspace():
            i += 1
            continue
        j = i
        while fmt[j].isdigit():
            j += 1
        cnt = int(fmt[i:j]) if j > i else None
        c = fmt[j]
        i = j + 1
        if c in "sp":
            items.append(("s", 1 if cnt is None else cnt))
        elif c in CODES:
            for _ in range(1 if cnt is None else cnt):
                items.append((c, None))
        else:
            raise core.Unsupported("struct format %r" % fmt)
    if order == "@":
        sizes = {real.calcsize(c) for c, _ in items if c != "s"}
        if len(items) > 1 and len(sizes) > 1:
            raise core.Unsupported("native struct alignment")
    big = order in ">!"
    native = order == "@"
    return items, "big" if big else "little", native


def size_of(c, k, native):
    if c == "s":
        return k
    return real.calcsize("@" + c) if native and c in "lL" else CODES[c][0]


def anysym(args):
    return any(is_sym(a) or hasattr(type(a), "_sx_buffer_") for a in args)


def calcsize(fmt):
    return real.calcsize(fmt)


def pack(fmt, *args):
    if not anysym(args):
        return real.pack(fmt, *args)
    items, order, native = parse(fmt)
    n = sum(1 for c, _ in items if c != "x")
    if n != len(args):
        raise error("pack expected %d items for packing (got %d)" % (n, len(args)))
    out, it = [], iter(args)
    for c, k in items:
        if c == "x":
            out.append(b"\0")
            continue
        v = next(it)
        if c == "s":
            if not isinstance(v, (bytes, bytearray)):
                raise error("argument for 's' must be a bytes object")
            m = rlen(v)
            if fork_true(m >= k):
                out.append(rslice(v, slice(0, k)))
            else:
                out.append(v)
                out.append(core.sx_repeat(b"\0", k - m))
        elif c == "c":
            out.append(v)
        elif c == "?":
            out.append(b"\1" if v else b"\0")
        else:
            s, signed = CODES[c]
            s = size_of(c, k, native)
            if not is_intlike(v):
                if not hasattr(type(v), "__index__"):
                    raise error("required argument is not an integer")
                v = v.__index__()
            lo, hi = (-(1 << (8 * s - 1)), (1 << (8 * s - 1)) - 1) if signed else (0, (1 << (8 * s)) - 1)
            if fork_true(core.bor(v < lo, v > hi)):
                raise error("'%s' format requires %d <= number <= %d" % (c, lo, hi))
            if type(v) is core.SymBool:
                v = v.to_int()
            out.append(int_to_bytes(v if type(v) is core.SymInt else int(v), s, order))
    return concat(out)


def _unpack(fmt, buf, offset, exact):
    items, order, native = parse(fmt)
    total = sum(size_of(c, k, native) for c, k in items)
    n = rlen(buf)
    if exact:
        if not fork_true(n == total):
            raise error("unpack requires a buffer of %d bytes" % total)
    else:
        if fork_true(offset < 0):
            offset = offset + n
        if not fork_true(n - offset >= total):
            raise error("unpack_from requires a buffer of at least %d bytes" % total)
    out = []
    raw = rslice(buf, slice(offset, offset + total))
    pos = 0
    for c, k in items:
        s = size_of(c, k, native)
        piece = rslice(raw, slice(pos, pos + s))
        pos += s
        if c == "x":
            continue
        if c in "sc":
            out.append(piece)
        elif c == "?":
            out.append(int_from_el(all_elems(piece), "little", False) != 0)
        else:
            out.append(int_from_el(all_elems(piece), order, CODES[c][1]))
    return tuple(out)


def unpack(fmt, buf):
    if not anysym([buf]):
        return real.unpack(fmt, buf)
    return _unpack(fmt, buf, 0, True)


def unpack_from(fmt, buffer, offset=0):
    if not anysym([buffer, offset]):
        return real.unpack_from(fmt, buffer, offset)
    return _unpack(fmt, buffer, offset, False)


def pack_into(fmt, buffer, offset, *args):
    data = pack(fmt, *args)
    n = rlen(data)
    if type(buffer) not in (core.SymByteArray, core.SymView):
        real.pack_into(fmt, buffer, offset, *args)
        return
    if fork_true(offset < 0):
        offset = offset + rlen(buffer)
    if not fork_true(offset + n <= rlen(buffer)):
        raise error("pack_into requires a buffer of at least %d bytes" % n)
    buffer[offset:offset + n] = data


def iter_unpack(fmt, buf):
    n = calcsize(fmt)
    total = rlen(buf)
    if not fork_true(total % n == 0):
        raise error("iterative unpacking requires a buffer of a multiple of %d bytes" % n)
    pos = 0
    while fork_true(pos < total):
        yield unpack_from(fmt, buf, pos)
        pos += n


class Struct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = real.calcsize(fmt)

    def pack(self, *a): return pack(self.format, *a)
    def unpack(self, b): return unpack(self.format, b)
    def unpack_from(self, b, offset=0): return unpack_from(self.format, b, offset)
    def pack_into(self, b, o, *a): return pack_into(self.format, b, o, *a)
    def iter_unpack(self, b): return iter_unpack(self.format, b)


def module():
    m = types.ModuleType("struct")
    for k in ("pack", "unpack", "unpack_from", "pack_into", "calcsize", "iter_unpack", "Struct", "error"):
        setattr(m, k, globals()[k])
    return m
