"""Instrumentation of /repo's current source and execution on symbolic values.

Every `saltchannel.*` module is parsed from the working tree on every run, rewritten (calls, subscripts, membership and
identity tests go through this runtime; function entries are recorded) and executed by CPython on the proxy values of
sx.core.  The semantics of statements, classes, coroutines and exceptions is CPython's own.
"""
import ast
import builtins
import collections
import enum
import functools
import hashlib
import hmac
import io
import itertools
import operator
import os
import re
import sys
import types

import z3
from . import core, text, mctypes, mstruct
from .core import (SymInt, SymBool, SymBytes, SymByteArray, SymView, SymStr, Control, Unsupported, is_sym, rlen,
                   mkbool, mkint, zeros, concat, is_bytesy, mkrope, segs_of, all_elems, int_from_el, int_to_elem,
                   mkbytes_el, rslice, rget, fork_true)

NAME = "_sx_"
SYMS = (SymInt, SymBool, SymBytes, SymByteArray, SymView, SymStr)


# ------------------------------------------------------------------ hashed containers with symbolic keys
def hassym(x):
    return type(x) in SYMS or type(x) is tuple and any(hassym(y) for y in x)


def keyfind(c, x, none=None):
    """the key of dict/set c equal to x (forks), or none"""
    for y in list(c):
        if type(x) is tuple:
            if type(y) is tuple and len(x) == len(y) and all(bool(a == b) for a, b in zip(x, y)):
                return y
        elif bool(x == y):
            return y
    return none


class ByteList:
    """list(b) of a byte string of symbolic length; unrolled only when modified or compared"""

    def __init__(self, rope):
        self._r, self._l = rope, None

    @property
    def __class__(self):
        return list

    def _sx_buffer_(self):
        return self._r if self._l is None else h_bytes(self._l)

    def __len__(self):
        return rlen(self._r) if self._l is None else len(self._l)

    def _all(self):
        if self._l is None:
            self._l = list(iter(self._r))
        return self._l

    def __iter__(self):
        return iter(self._r) if self._l is None else iter(self._l)

    def __getitem__(self, k):
        if self._l is not None:
            return Runtime.getitem(self._l, k)
        return ByteList(rslice(self._r, k)) if isinstance(k, slice) else rget(self._r, k)

    def __setitem__(self, k, v):
        self._all()[k] = v

    def __delitem__(self, k):
        del self._all()[k]

    def __eq__(self, o):
        if type(o) is ByteList and self._l is None and o._l is None:
            return self._r == o._r
        return self._all() == (o._all() if type(o) is ByteList else o)

    def __ne__(self, o):
        return core.bnot(self == o)

    __hash__ = None

    def __add__(self, o):
        return self._all() + list(o)

    def __iadd__(self, o):
        self._all().extend(o)
        return self

    def __contains__(self, x):
        return x in self._all()

    def __reversed__(self):
        return reversed(self._all())

    def __bool__(self):
        return bool(self.__len__() != 0)

    def __getattr__(self, n):
        return getattr(self._all(), n)


def h_list(f):
    def h(*a, **k):
        if len(a) == 1 and not k:
            if type(a[0]) in SYMS and isinstance(a[0], (bytes, bytearray)) and type(rlen(a[0])) is SymInt:
                return ByteList(a[0] if type(a[0]) is SymBytes else mkrope(segs_of(a[0])))
            if type(a[0]) is ByteList and a[0]._l is None:
                return ByteList(a[0]._r)
        return f(*a, **k)
    return h


# ------------------------------------------------------------------ AST rewriting
class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, cover=True):
        self.mod = modname
        self.stack = []
        self.cover = cover

    def rt(self, fn, *args):
        return ast.Call(func=ast.Attribute(value=ast.Name(id=NAME, ctx=ast.Load()), attr=fn, ctx=ast.Load()),
                        args=list(args), keywords=[])

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals", "vars", "eval", "exec", "__import__"):
            for i, a in enumerate(node.args):
                node.args[i] = self.visit(a)
            return node
        star = len(node.args) == 1 and isinstance(node.args[0], ast.Starred) and not node.keywords
        if star and isinstance(node.args[0].value, ast.Call) and isinstance(node.args[0].value.func, ast.Name) \
                and len(node.args[0].value.args) == 1 and not node.args[0].value.keywords \
                and not isinstance(node.args[0].value.args[0], ast.Starred):
            c = node.args[0].value
            node.func, f, x = self.visit(node.func), self.visit(c.func), self.visit(c.args[0])
            return ast.copy_location(self.rt("call_star", node.func, self.rt("unlist", f, x)), node)
        self.generic_visit(node)
        if star:
            return ast.copy_location(self.rt("call_star", node.func, node.args[0].value), node)
        new = self.rt("call", node.func, *node.args)
        new.keywords = node.keywords
        return ast.copy_location(new, node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            s = node.slice
            if isinstance(s, ast.Slice):
                none = lambda x: x if x is not None else ast.Constant(None)
                s = self.rt("mkslice", none(s.lower), none(s.upper), none(s.step))
            return ast.copy_location(self.rt("getitem", node.value, s), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self.rt("mod", node.left, node.right), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        t = node.targets[0]
        if len(node.targets) == 1 and isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
            return ast.copy_location(ast.Expr(self.rt("setitem", node.value, t.value, t.slice)), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                r = self.rt("contains", node.comparators[0], node.left)
                if isinstance(op, ast.NotIn):
                    r = ast.UnaryOp(op=ast.Not(), operand=r)
                return ast.copy_location(r, node)
            if isinstance(op, (ast.Is, ast.IsNot)):
                r = self.rt("is_", node.left, node.comparators[0])
                if isinstance(op, ast.IsNot):
                    r = ast.UnaryOp(op=ast.Not(), operand=r)
                return ast.copy_location(r, node)
        return node

    def _func(self, node):
        node.decorator_list = [ast.copy_location(self.rt("deco", d), d) for d in node.decorator_list]
        self.stack.append(node.name)
        self.generic_visit(node)
        q = ".".join(self.stack)
        if node.name == "__bool__":
            for n in ast.walk(node):
                if isinstance(n, ast.Return) and n.value is not None:
                    n.value = self.rt("rbool", n.value)
        self.stack.pop()
        if self.cover:
            st = ast.Expr(self.rt("enter", ast.Constant("%s:%s" % (self.mod, q))))
            i = 0
            if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
                    and isinstance(node.body[0].value.value, str):
                i = 1
            ast.copy_location(st, node.body[0])
            node.body.insert(i, st)
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        st = ast.Expr(self.rt("handler"))
        ast.copy_location(st, node.body[0])
        node.body.insert(0, st)
        return node

    def _loop(self, node):
        self.generic_visit(node)
        st = ast.Expr(self.rt("tick"))
        ast.copy_location(st, node.body[0])
        node.body.insert(0, st)
        return node

    visit_While = _loop
    visit_For = _loop
    visit_AsyncFor = _loop

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return node


def transform(src, filename, modname, cover=True):
    tree = ast.parse(src, filename)
    tree = Rewriter(modname, cover).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


# ------------------------------------------------------------------ runtime called by instrumented code
class SymRange:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __iter__(self):
        i = self.a
        if type(self.s) is not int:
            self.s = int(self.s)
        while fork_true(i < self.b if self.s > 0 else i > self.b):
            yield i
            i = i + self.s
            core.CTX.tick()

    def __len__(self):
        return len(range(int(self.a), int(self.b), int(self.s)))

    def __getitem__(self, i):
        return range(int(self.a), int(self.b), int(self.s))[i]

    def __reversed__(self):
        return reversed(range(int(self.a), int(self.b), int(self.s)))

    def __contains__(self, x):
        return x in range(int(self.a), int(self.b), int(self.s))


MODELTYPE = {SymInt: int, SymBool: bool, SymBytes: bytes, SymByteArray: bytearray, SymView: memoryview, SymStr: str,
             mctypes.Addr: int}
PYFUNC = (types.FunctionType, types.MethodType)


def h_len(x):
    t = type(x)
    if t in (SymBytes, SymByteArray, SymView):
        return rlen(x)
    m = getattr(t, "__len__", None)
    if isinstance(m, types.FunctionType):
        return m(x)
    return len(x)


def h_bytes(*a, **k):
    if not a:
        return bytes(**k)
    x = a[0]
    if len(a) > 1 or k:
        if type(x) is SymStr:
            return x.encode(*a[1:], **k)
        return bytes(*a, **k)
    t = type(x)
    if t is bytes:
        return x
    if t in (SymBytes, SymByteArray, SymView):
        return mkrope(segs_of(x))
    if t is SymBool:
        x, t = x.to_int(), SymInt
    if t is SymInt or t is int or t is bool:
        return zeros(x if t is not bool else int(x))
    m = getattr(t, "__bytes__", None)
    if isinstance(m, types.FunctionType):
        return m(x)
    if hasattr(t, "_sx_buffer_"):
        return mkrope(segs_of(x))
    if isinstance(x, str):
        raise TypeError("string argument without an encoding")
    if t in (bytearray, memoryview):
        return bytes(x)
    if hasattr(t, "__iter__") or hasattr(t, "__getitem__"):
        return mkbytes_el([int_to_elem(v) for v in x])
    if hasattr(t, "__index__"):
        return zeros(x.__index__())
    raise TypeError("cannot convert '%s' object to bytes" % t.__name__)


def h_bytearray(*a, **k):
    if not a and not k:
        return SymByteArray(b"")
    return SymByteArray(h_bytes(*a, **k))


def h_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return x.to_int()
        if type(x) in (SymBytes, SymByteArray, SymStr):
            raise Unsupported("int() of symbolic text")
    return int(*a, **k)


def h_bool(*a):
    if a:
        x = a[0]
        if type(x) is SymBool:
            return x
        if type(x) is SymInt:
            return x != 0
        if type(x) in (SymBytes, SymByteArray, SymView):
            return rlen(x) != 0
    return bool(*a)


def h_type(*a, **k):
    if len(a) == 1 and not k:
        return MODELTYPE.get(type(a[0]), type(a[0]))
    return type(*a, **k)


def h_range(*a):
    if any(type(x) in (SymInt, SymBool) for x in a):
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        return SymRange(a[0], a[1], a[2] if len(a) > 2 else 1)
    return range(*a)


def h_memoryview(x):
    if type(x) in (SymBytes, SymByteArray):
        return SymView(x)
    if type(x) is bytes:
        return SymView(x)
    if hasattr(type(x), "_sx_buffer_"):
        return SymView(mkrope(segs_of(x)))
    return memoryview(x)


def h_from_bytes(b, byteorder="big", *, signed=False):
    if is_bytesy(b) and not isinstance(b, (bytes, bytearray)) or type(b) in SYMS:
        return int_from_el(all_elems(b), byteorder, signed)
    if isinstance(b, (list, tuple)) and any(is_sym(x) for x in b):
        return int_from_el([int_to_elem(x) for x in b], byteorder, signed)
    return int.from_bytes(b, byteorder, signed=signed)


def h_minmax(name, fn):
    def f(*a, **k):
        return fn(*a, **k)
    return f


def h_ord(x):
    if type(x) is SymStr:
        if len(x.cs) != 1:
            raise TypeError("ord() expected a character")
        return mkint(x.cs[0], 0, 0x10ffff)
    if is_bytesy(x) and type(x) in SYMS:
        if not fork_true(rlen(x) == 1):
            raise TypeError("ord() expected a character")
        return rget(x, 0)
    return ord(x)


def h_chr(x):
    if type(x) is SymInt:
        if fork_true(core.bor(x < 0, x > 0x10ffff)):
            raise ValueError("chr() arg not in range(0x110000)")
        return core.mkstr([core.as_bv(x, 21)])
    return chr(x)


def h_divmod(a, b):
    if type(a) is SymInt:
        return a._divmod(b)
    return divmod(a, b)


def h_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def h_hex(x):
    return "<symhex>" if is_sym(x) else hex(x)


def h_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is SymStr:
            return x
        if is_sym(x):
            return "<sym>"
        return str(x)
    if a and type(a[0]) in SYMS:
        return a[0].decode(*a[1:], **k)
    return str(*a, **k)


def h_print(*a, **k):
    return None


def h_repr(x):
    return "<sym>" if is_sym(x) else repr(x)


def h_fromhex(s):
    return bytes.fromhex(s)


def h_re(mode):
    def f(pattern, s, flags=0):
        if is_sym(s):
            return text.match(re.compile(pattern, flags), s, mode)
        return getattr(re, mode)(pattern, s, flags)
    return f


def h_sorted(it, **k):
    return sorted(it, **k)


def h_reversed(x):
    if type(x) in (SymBytes, SymByteArray):
        return x.__reversed__()
    return reversed(x)


def h_join_str(sep, it):
    parts = list(it)
    if any(type(p) is SymStr for p in parts):
        cs = []
        for i, p in enumerate(parts):
            if i:
                cs.extend(map(ord, sep))
            cs.extend(p.cs if type(p) is SymStr else map(ord, p))
        return core.mkstr(cs)
    return sep.join(parts)


def h_cmpdigest(a, b):
    if is_sym(a) or is_sym(b):
        return core.req(a, b)
    return hmac.compare_digest(a, b)


def h_bytesjoin(sep, it):
    out = []
    for i, p in enumerate(it):
        if not is_bytesy(p):
            raise TypeError("sequence item %d: expected a bytes-like object, %s found" % (i, type(p).__name__))
        if i:
            out.append(sep)
        out.append(p)
    return concat(out)


PERCENT = re.compile(r"%(?:\((.*?)\))?[-#0 +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)", re.S)


def h_percent(fmt, args):
    """'...' % args, b'...' % args with symbolic arguments"""
    named = isinstance(args, dict)
    vals = list(args.values()) if named else list(args) if isinstance(args, tuple) else [args]
    if not any(is_sym(v) or type(v) not in (int, str, bytes, bytearray, float, bool, type(None)) for v in vals):
        return fmt % args
    text = fmt if isinstance(fmt, str) else bytes(fmt).decode("latin-1")
    if isinstance(fmt, str):
        if not any(map(is_sym, vals)):
            return fmt % args
        out = PERCENT.sub(lambda m: "%%" if m.group(4) == "%" else "%%(%s)s" % m.group(1) if m.group(1) is not None else "%s", text)
        return out % ({k: str(v) for k, v in args.items()} if named else tuple(map(str, vals)))
    parts, pos, n = [], 0, 0
    for m in PERCENT.finditer(text):
        parts.append(text[pos:m.start()].encode("latin-1"))
        pos = m.end()
        c = m.group(4)
        if c == "%":
            parts.append(b"%")
            continue
        if named:
            v = args[m.group(1).encode("latin-1")]
        else:
            if n >= len(vals):
                raise TypeError("not enough arguments for format string")
            v = vals[n]
            n += 1
        if len(m.group(0)) != 2 + (len(m.group(1)) + 2 if m.group(1) is not None else 0) and is_sym(v):
            raise core.Unsupported("bytes formatting %r" % m.group(0))
        if c in "bs":
            if not is_bytesy(v) and not hasattr(type(v), "__bytes__"):
                raise TypeError("%%b requires a bytes-like object, or an object that implements __bytes__, not '%s'" % type(v).__name__)
            parts.append(h_bytes(v))
        elif c == "c" and type(v) is SymInt:
            parts.append(h_bytes([v]))
        elif is_sym(v):
            raise core.Unsupported("bytes formatting %r" % m.group(0))
        else:
            parts.append(m.group(0).encode("latin-1") % v if not named else (m.group(0).encode("latin-1") % args))
    if not named and n != len(vals):
        raise TypeError("not all arguments converted during bytes formatting")
    parts.append(text[pos:].encode("latin-1"))
    r = concat(parts)
    return r if type(fmt) is bytes else h_bytearray(r)


def wrapcb(x):
    """callables handed to C code (map, sorted, partial ...) must still go through the runtime"""
    if id(x) in HANDLERS_ID or type(x) in (types.BuiltinFunctionType, BUILTIN_METHOD, types.MethodDescriptorType):
        return lambda *a, **k: Runtime.call(x, *a, **k)
    return x


def h_hof(fn):
    """higher-order builtin whose first positional argument is a callable"""
    def f(cb, *a, **k):
        return fn(wrapcb(cb), *a, **k)
    return f


def h_keyed(fn):
    def f(*a, **k):
        if k.get("key") is not None:
            k["key"] = wrapcb(k["key"])
        return fn(*a, **k)
    return f


def h_islice(it, *a):
    if not any(type(x) in (SymInt, SymBool) for x in a):
        return itertools.islice(it, *a)
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0] or 0, a[1], a[2] if len(a) > 2 and a[2] is not None else 1)
    for x in (start, stop):
        if x is not None and fork_true(x < 0):
            raise ValueError("Indices for islice() must be None or an integer: 0 <= x <= sys.maxsize.")

    def gen(it):
        i, nxt = 0, start
        while stop is None or fork_true(i < stop):
            try:
                x = next(it)
            except StopIteration:
                return
            core.CTX.tick()
            if fork_true(i == nxt):
                nxt = nxt + step
                yield x
            i += 1
    return gen(iter(it))


def h_repeat(x, *n, **k):
    n = n or tuple(k.values())
    if n and type(n[0]) in (SymInt, SymBool):
        return (x for _ in SymRange(0, n[0], 1))
    return itertools.repeat(x, *n)


class BytesIO:
    """io.BytesIO over symbolic contents"""

    def __init__(self, initial=b""):
        self.v, self.pos, self.closed = h_bytes(initial), 0, False

    def getvalue(self): return self.v
    def getbuffer(self): return SymView(self.v)
    def tell(self): return self.pos
    def readable(self): return True
    def writable(self): return True
    def seekable(self): return True
    def close(self): self.closed = True
    def flush(self): pass
    def __enter__(self): return self

    def __exit__(self, *a):
        self.close()

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def read(self, n=-1):
        self._chk()
        left = rlen(self.v) - self.pos
        if fork_true(left < 0):
            return b""
        if n is None or fork_true(n < 0) or fork_true(n > left):
            n = left
        d = Runtime.getitem(self.v, slice(self.pos, self.pos + n, None))
        self.pos = self.pos + n
        return d
    read1 = read

    def readinto(self, b):
        d = self.read(h_len(b))
        b[:h_len(d)] = d
        return h_len(d)

    def write(self, b):
        self._chk()
        n, size = h_len(b), rlen(self.v)
        b = h_bytes(b)
        if fork_true(self.pos > size):
            self.v = concat([self.v, zeros(self.pos - size)])
            size = self.pos
        end = self.pos + n
        head = Runtime.getitem(self.v, slice(None, self.pos, None))
        tail = Runtime.getitem(self.v, slice(end, None, None)) if fork_true(end < size) else b""
        self.v = concat([head, b, tail])
        self.pos = end
        return n

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def seek(self, off, whence=0):
        base = 0 if whence == 0 else self.pos if whence == 1 else rlen(self.v)
        p = base + off
        if fork_true(p < 0):
            if whence == 0:
                raise ValueError("negative seek value")
            p = 0
        self.pos = p
        return p

    def truncate(self, n=None):
        n = self.pos if n is None else n
        self.v = Runtime.getitem(self.v, slice(None, n, None))
        return n


class SymCache:
    """functools.lru_cache with symbolic arguments (keys are compared, not hashed)"""

    def __init__(self, f, maxsize, typed=False):
        self.f, self.maxsize, self.c = f, maxsize, []
        functools.update_wrapper(self, f)

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def __call__(self, *a, **k):
        key = (a, tuple(sorted(k.items(), key=lambda kv: kv[0])))
        for x in a + tuple(k.values()):
            if not hassym(x):
                hash(x)
        for e in self.c:
            if self._same(e[0], key):
                self.c.remove(e)
                self.c.append(e)
                return e[1]
        r = self.f(*a, **k)
        self.c.append((key, r))
        if self.maxsize is not None and len(self.c) > self.maxsize:
            del self.c[0]
        return r

    @classmethod
    def _same(cls, x, y):
        if type(x) is tuple:
            return type(y) is tuple and len(x) == len(y) and all(cls._same(a, b) for a, b in zip(x, y))
        return x is y or bool(x == y)

    def cache_clear(self):
        self.c = []

    def cache_info(self):
        raise Unsupported("cache_info()")


def h_lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return SymCache(maxsize, 128)
    return lambda f: SymCache(f, maxsize)


CACHES = {functools.lru_cache: h_lru_cache, functools.cache: lambda f: SymCache(f, None)}
HANDLERS = {functools.lru_cache: h_lru_cache, functools.cache: CACHES[functools.cache], list: h_list(list), map: h_hof(map), filter: h_hof(filter), functools.partial: h_hof(functools.partial), functools.reduce: h_hof(functools.reduce),
            itertools.starmap: h_hof(itertools.starmap), itertools.takewhile: h_hof(itertools.takewhile),
            itertools.dropwhile: h_hof(itertools.dropwhile), itertools.filterfalse: h_hof(itertools.filterfalse),
            sorted: h_keyed(sorted), min: h_keyed(min), max: h_keyed(max), itertools.islice: h_islice, itertools.repeat: h_repeat,
            itertools.groupby: h_keyed(itertools.groupby), io.BytesIO: BytesIO,
            len: h_len, bytes: h_bytes, bytearray: h_bytearray, int: h_int, bool: h_bool, type: h_type, range: h_range,
            memoryview: h_memoryview, ord: h_ord, chr: h_chr, divmod: h_divmod, sum: h_sum, hex: h_hex, str: h_str,
            print: h_print, repr: h_repr, reversed: h_reversed,
            hmac.compare_digest: h_cmpdigest, operator.eq: lambda a, b: a == b,
            re.match: h_re("match"), re.fullmatch: h_re("fullmatch"), re.search: h_re("search")}
HANDLERS_ID = {id(k): v for k, v in HANDLERS.items()}
_KEEP = list(HANDLERS)
BUILTIN_METHOD = type(re.compile("x").match)


def anysym(a, k):
    for x in a:
        if type(x) in SYMS:
            return True
    for x in k.values():
        if type(x) in SYMS:
            return True
    return False


NOKEY = object()
HASHED = (dict, set, frozenset, collections.OrderedDict, collections.defaultdict)


class Runtime:
    """one per path"""

    def __init__(self, space):
        self.space = space

    @staticmethod
    def enter(name):
        core.CTX.stats.functions.add(name)
        core.CTX.tick()

    @staticmethod
    def tick():
        core.CTX.tick()

    @staticmethod
    def handler():
        e = sys.exc_info()[1]
        if isinstance(e, Control):
            raise e

    @staticmethod
    def rbool(x):
        return bool(x)

    @staticmethod
    def mkslice(a, b, c):
        return slice(a, b, c)

    @staticmethod
    def is_(a, b):
        if type(a) is SymBool and (b is True or b is False):
            return bool(a) is b
        if type(b) is SymBool and (a is True or a is False):
            return bool(b) is a
        if type(a) is SymStr and type(b) is str or type(a) in (SymInt,) and type(b) is int:
            return False
        return a is b

    @staticmethod
    def contains(c, x):
        t = type(c)
        if t in (SymBytes, SymByteArray, SymView):
            return c.__contains__(x)
        if t is bytes and is_sym(x):
            return SymBytes(segs_of(c)).__contains__(x)
        if t in HASHED and (core.SYMKEYS or hassym(x)):
            return keyfind(c, x, NOKEY) is not NOKEY
        if isinstance(c, range) and type(x) is SymInt:
            if c.step == 1:
                return core.band(x >= c.start, x < c.stop)
            return any(bool(x == y) for y in c)
        if isinstance(c, (list, tuple)) and type(x) is SymInt and all(type(y) is int for y in c):
            return core.bor(*[x == y for y in c])
        if t is str and type(x) is SymStr:
            if len(x) == 1:
                return core.bor(*[x == ch for ch in c])
        return x in c

    @staticmethod
    def deco(f):
        if f is functools.lru_cache or f is functools.cache:
            return CACHES[f]
        return f

    @staticmethod
    def mod(l, r):
        t = type(l)
        if t in (bytes, bytearray, str):
            return h_percent(l, r)
        return l % r

    @staticmethod
    def getitem(o, k):
        t = type(o)
        if t is bytes or t is bytearray:
            if type(k) is slice:
                if type(k.start) in SYMS or type(k.stop) in SYMS or type(k.step) in SYMS:
                    return rslice(o, k)
            elif type(k) in SYMS:
                return rget(o, k)
        elif t in HASHED and (core.SYMKEYS or hassym(k)):
            kk = keyfind(o, k, NOKEY)
            if kk is not NOKEY:
                return o[kk]
            if t is not dict:
                return o[k]
            raise KeyError(k)
        elif t in (list, tuple) and type(k) is SymInt:
            n = len(o)
            if fork_true(k < 0):
                k = k + n
            if fork_true(core.bor(k < 0, k >= n)):
                raise IndexError("index out of range")
            for i in range(n):
                if i == n - 1 or fork_true(k == i):
                    return o[i]
        return o[k]

    @staticmethod
    def setitem(v, o, k):
        if type(o) in HASHED and (core.SYMKEYS or hassym(k)):
            kk = keyfind(o, k, NOKEY)
            o[k if kk is NOKEY else kk] = v
        else:
            o[k] = v

    @staticmethod
    def unlist(f, x):
        """*list(x) unpacks like *x"""
        if (f is list or f is tuple) and type(x) in SYMS and isinstance(x, (bytes, bytearray)):
            return x
        return Runtime.call(f, x)

    @staticmethod
    def call_star(f, it):
        """f(*it); a ctypes byte array initialised from a symbolic-length byte string needs no fork per byte"""
        if type(it) is ByteList:
            it = it._r if it._l is None else it._l
        if isinstance(f, mctypes.CType) and type(it) in SYMS and isinstance(it, (bytes, bytearray)) \
                and issubclass(f, mctypes.Array) and f._sx_elem_ is mctypes.c_uint8 and type(rlen(it)) is SymInt:
            o = f()
            if fork_true(rlen(it) > f._sx_len_):
                raise IndexError("invalid index")
            mctypes.buf_write(o._sxbuf, o._sxoff, it)
            return o
        return Runtime.call(f, *it)

    @staticmethod
    def call(f, /, *a, **k):
        h = HANDLERS_ID.get(id(f))
        if h is not None:
            return h(*a, **k)
        t = type(f)
        if t is types.FunctionType or t is types.MethodType:
            return f(*a, **k)
        if (t is types.BuiltinFunctionType or t is BUILTIN_METHOD or t is types.MethodDescriptorType
                or t is types.MethodWrapperType):
            s = getattr(f, "__self__", None)
            n = f.__name__
            st = type(s)
            if st is bytes:
                if n == "join":
                    return h_bytesjoin(s, *a)
                if anysym(a, k):
                    if n in ("startswith", "endswith", "find", "index", "count", "ljust", "rjust", "__contains__", "strip",
                             "lstrip", "rstrip", "__eq__", "__add__", "decode"):
                        return getattr(SymBytes(segs_of(s)), n)(*a, **k)
                    raise Unsupported("bytes.%s with symbolic argument" % n)
            elif st is str:
                if n == "join":
                    return h_join_str(s, *a)
                if n == "format":
                    return str.format(s, *a, **k)
            elif s is int and n == "from_bytes":
                return h_from_bytes(*a, **k)
            elif s is bytearray and n == "fromhex":
                return SymByteArray(bytes.fromhex(*a))
            elif st is int and n == "to_bytes":
                return s.to_bytes(*[int(x) if type(x) is SymInt else x for x in a], **k)
            elif st in HASHED and n in ("get", "pop", "setdefault", "add", "discard", "remove", "__contains__", "__getitem__",
                                        "__setitem__") and a and (core.SYMKEYS or hassym(a[0])):
                kk = keyfind(s, a[0], NOKEY)
                if kk is not NOKEY:
                    return f(kk, *a[1:])
                if n == "get":
                    return a[1] if len(a) > 1 else None
                if n in ("discard", "__contains__"):
                    return None if n == "discard" else False
                if n in ("pop", "remove", "__getitem__") and not (n == "pop" and len(a) > 1):
                    raise KeyError(a[0])
                if n == "pop":
                    return a[1]
            elif st is re.Pattern:
                if n in ("match", "fullmatch", "search") and a and is_sym(a[0]):
                    return text.match(s, a[0], n)
                if anysym(a, k):
                    raise Unsupported("re.Pattern.%s on symbolic text" % n)
            elif s is None and a and t is types.MethodDescriptorType:
                # bytes.join(b'', ...) and the like
                oc = f.__objclass__
                if oc in (bytes, str, bytearray) and (oc is bytes and n == "join"):
                    return h_bytesjoin(*a)
                if type(a[0]) in SYMS:
                    return getattr(a[0], n)(*a[1:], **k)
            if anysym(a, k):
                try:
                    return f(*a, **k)
                except TypeError as e:
                    if s is None or isinstance(s, types.ModuleType) or st in (bytes, str, bytearray, int, memoryview):
                        raise Unsupported("builtin %s: %s" % (n, e))
                    raise
            return f(*a, **k)
        if isinstance(f, type):
            if t is enum.EnumMeta and len(a) == 1 and type(a[0]) in SYMS and not k:
                for m in f:
                    if bool(a[0] == m.value):
                        return m
                raise ValueError("%r is not a valid %s" % (a[0], f.__qualname__))
        try:
            return f(*a, **k)
        except TypeError as e:
            if "'Sym" in str(e):
                raise Unsupported("%r: %s" % (f, e))
            raise


# ------------------------------------------------------------------ module space
_code_cache = {}


def load_code(path, modname, cover=True):
    with open(path, "rb") as fh:
        src = fh.read()
    key = (path, hashlib.sha256(src).digest())
    c = _code_cache.get(key)
    if c is None:
        c = _code_cache[key] = transform(src, path, modname, cover)
    return c


class Space:
    """the modules of one symbolic path"""

    def __init__(self, repo, models, extra_roots=None):
        self.repo = repo
        self.models = models            # absolute name -> module
        self.roots = {"saltchannel": os.path.join(repo, "saltchannel")}
        self.stdlib_instr = {}          # absolute name -> path (instrumented stdlib modules)
        if extra_roots:
            self.roots.update(extra_roots)
        self.mods = {}
        self.rt = Runtime(self)
        b = dict(vars(builtins))
        b["__import__"] = self._import
        self.builtins = b

    def exec_source(self, code, modname, path, package, is_pkg=False):
        m = types.ModuleType(modname)
        m.__file__ = path
        m.__package__ = package
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        g = m.__dict__
        g["__builtins__"] = self.builtins
        g[NAME] = self.rt
        self.mods[modname] = m
        try:
            exec(code, g)
        except BaseException:
            self.mods.pop(modname, None)
            raise
        return m

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name in self.models:
            return self.models[name]
        root = name.split(".")[0]
        if name in self.stdlib_instr:
            path = self.stdlib_instr[name]
            m = self.exec_source(load_code(path, name, False), name, path, name.rpartition(".")[0])
            par = self.models.get(name.rpartition(".")[0])
            if par is not None:
                setattr(par, name.rpartition(".")[2], m)
                for n in getattr(m, "__all__", ()):
                    setattr(par, n, getattr(m, n))
            return m
        if root not in self.roots:
            raise ModuleNotFoundError("No module named '%s'" % name, name=name)
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        base = os.path.join(self.roots[root], *name.split(".")[1:])
        if os.path.isdir(base):
            path = os.path.join(base, "__init__.py")
            if os.path.exists(path):
                m = self.exec_source(load_code(path, name), name, path, name, True)
            else:
                m = types.ModuleType(name)
                m.__path__ = [base]
                self.mods[name] = m
        elif os.path.exists(base + ".py"):
            m = self.exec_source(load_code(base + ".py", name), name, base + ".py", parent)
        else:
            raise ModuleNotFoundError("No module named '%s'" % name, name=name)
        if parent:
            setattr(self.mods[parent], name.rpartition(".")[2], m)
        return m

    def known(self, name):
        return name.split(".")[0] in self.roots or name in self.models or name in self.stdlib_instr

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            bits = pkg.rsplit(".", level - 1)
            base = bits[0]
            name = base + "." + name if name else base
        if not self.known(name):
            return builtins.__import__(name, globals if not level else None, locals, fromlist, 0)
        m = self.load(name)
        if fromlist:
            for f in fromlist:
                if f == "*":
                    continue
                if not hasattr(m, f) and self.known(name + "." + f):
                    try:
                        sub = self.load(name + "." + f)
                        setattr(m, f, sub)
                    except ModuleNotFoundError as e:
                        if e.name != name + "." + f:
                            raise
            return m
        top = name.split(".")[0]
        return self.load(top)
