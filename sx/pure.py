"""Symbolic execution of arithmetic Python modules (subclasses of int, lists, bytes) on the terms of poly.py.

The modules of /repo are parsed, lightly rewritten (bytes literals, `.__class__`, `type()`, and/or) and executed by CPython with
`int`, `bytes` and `bytearray` replaced by the classes below; control flow that depends on a symbolic value forks.
"""
import ast
import builtins
import os
import types

from . import poly
from .poly import Ctx, Poly, Unsup, iv


class M:
    """state of the current run"""
    ctx = None
    prefix = ()
    decisions = ()       # taken decisions: (SymBool, bool)
    alts = ()
    hooks = {}


def start(ctx, prefix=()):
    M.ctx, M.prefix, M.decisions, M.alts = ctx, list(prefix), [], []
    ctx.split = lambda p: bool(eq0(p))


def decide(cond):
    i = len(M.decisions)
    for c, d in M.decisions:
        if c.key() == cond.key():
            return d
    d = M.prefix[i] if i < len(M.prefix) else True
    if i >= len(M.prefix):
        M.alts.append([x for _, x in M.decisions] + [not d])
        if len(M.decisions) > 200:
            raise Unsup("too many decisions")
    M.decisions.append((cond, d))
    return d


class SymBool:
    """op in lt0, eq0, and, or, not"""
    __slots__ = ("op", "args")

    def __init__(self, op, *args):
        self.op, self.args = op, args

    def key(self):
        return (self.op,) + tuple(a.key() if type(a) is SymBool else a for a in self.args)

    def __bool__(self):
        return decide(self)

    def __invert__(self):
        return bnot(self)

    def __and__(self, o):
        return band(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)
    __ror__ = __or__

    def toint(self):
        op, a = self.op, self.args
        c = M.ctx
        if op == "lt0":
            return c.isneg(a[0])
        if op == "eq0":
            x = a[0]
            return c.plus(1, c.plus(c.isneg(x), c.isneg(c.scale(x, -1))), -1)
        if op == "not":
            return c.plus(1, a[0].toint(), -1)
        if op == "and":
            return c.mul(a[0].toint(), a[1].toint())
        return c.plus(1, c.mul(c.plus(1, a[0].toint(), -1), c.plus(1, a[1].toint(), -1)), -1)

    def __int__(self): raise Unsup("int() of a symbolic condition")
    def _z(self): return mkint(self.toint())
    def __mul__(self, o): return self._z() * o
    __rmul__ = __mul__
    def __add__(self, o): return self._z() + o
    __radd__ = __add__
    def __sub__(self, o): return self._z() - o
    def __rsub__(self, o): return o - self._z()
    def __neg__(self): return -self._z()
    def __xor__(self, o): return self._z() ^ o
    __rxor__ = __xor__
    def __lshift__(self, o): return self._z() << o
    def __eq__(self, o): return self._z() == o
    def __ne__(self, o): return self._z() != o
    def __lt__(self, o): return self._z() < o
    def __le__(self, o): return self._z() <= o
    def __gt__(self, o): return self._z() > o
    def __ge__(self, o): return self._z() >= o
    def __rshift__(self, o): return self._z() >> o
    def __rlshift__(self, o): return o << self._z()
    def __rrshift__(self, o): return o >> self._z()
    def __index__(self): return int(bool(self))
    __hash__ = object.__hash__


def bnot(a):
    if type(a) is SymBool:
        return a.args[0] if a.op == "not" else SymBool("not", a)
    return not a


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if type(a) is SymBool and type(b) is SymBool:
        return SymBool("and", a, b)
    return NotImplemented if type(b) not in (int, ZInt) else (a._z() & b)


def bor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    if type(a) is SymBool and type(b) is SymBool:
        return SymBool("or", a, b)
    return NotImplemented if type(b) not in (int, ZInt) else (a._z() | b)


def lt0(v):
    lo, hi = iv(v)
    if hi < 0:
        return True
    if lo >= 0:
        return False
    return SymBool("lt0", v)


def eq0(v):
    lo, hi = iv(v)
    if lo == hi == 0:
        return True
    if lo > 0 or hi < 0:
        return False
    return SymBool("eq0", v)


def val(x):
    """-> int | Poly | None"""
    t = type(x)
    if t is int:
        return x
    if t is bool:
        return int(x)
    if isinstance(x, ZBase):
        return x.v
    if t is SymBool:
        return x.toint()
    return None


class ZMeta(type):
    def __instancecheck__(cls, o):
        if cls is ZInt and isinstance(o, (int, bool)):
            return True
        return type.__instancecheck__(cls, o)

    def __subclasscheck__(cls, o):
        return (cls is ZInt and o in (int, bool)) or type.__subclasscheck__(cls, o)

    def __call__(cls, *a, **k):
        if cls is not ZInt and len(a) == 1 and not k and isinstance(a[0], ZBase):
            x = a[0]
            lo, hi = x.iv()
            if lo < 0 <= hi:
                n, p = x.within(lo, -1), x.within(0, hi)
                rn, rp = type.__call__(cls, n), type.__call__(cls, p)
                if type(rn) is type(rp) and isinstance(rn, ZBase):
                    if rn.v is rp.v or rn.v == rp.v:
                        return type(rn).raw(rn.v)
                    c = M.ctx
                    s = c.isneg(x.v)
                    return type(rn).raw(c.plus(rp.v, c.mul(s, c.plus(rn.v, rp.v, -1))))
        return type.__call__(cls, *a, **k)


class ZBase:
    __slots__ = ()


class ZInt(ZBase, metaclass=ZMeta):
    def __new__(cls, x=0, base=None):
        if type(x) is str or base is not None:
            v, r = int(x, base if base is not None else 10), None
        else:
            v = val(x)
            r = x.rng if isinstance(x, ZBase) else None
            if v is None:
                if hasattr(x, "__index__"):
                    v = x.__index__()
                else:
                    v = int(x)
        o = object.__new__(cls)
        o.v, o.rng = v, r
        return o

    @classmethod
    def raw(cls, v, rng=None):
        o = object.__new__(cls)
        o.v, o.rng = v, rng
        return o

    def iv(self):
        return self.rng or iv(self.v)

    def within(self, lo, hi):
        o = object.__new__(type(self))
        o.v, o.rng = self.v, (lo, hi)
        return o

    # ---- arithmetic
    def __add__(self, o): return bop(self, o, M.ctx.plus)
    def __radd__(self, o): return bop(self, o, M.ctx.plus)
    def __sub__(self, o): return bop(self, o, lambda a, b: M.ctx.plus(a, b, -1))
    def __rsub__(self, o): return bop(self, o, lambda a, b: M.ctx.plus(b, a, -1))
    def __mul__(self, o): return bop(self, o, M.ctx.mul)
    def __rmul__(self, o): return bop(self, o, M.ctx.mul)

    def __and__(self, o):
        b = val(o)
        if type(b) is int and b > 0 and b & (b + 1) == 0 and type(self.v) is Poly:
            lo, hi = self.iv()
            if lo >= 0 and hi <= b:
                return ZInt.raw(M.ctx.alias.get(self.v, self.v), self.rng)
        r = bop(self, o, M.ctx.and_)
        if M.ctx.alias and r is not NotImplemented and type(r.v) is Poly:
            r.v = M.ctx.alias.get(r.v, r.v)
        return r
    __rand__ = __and__

    def __or__(self, o): return bop(self, o, M.ctx.or_)
    __ror__ = __or__
    def __xor__(self, o): return bop(self, o, M.ctx.xor)
    __rxor__ = __xor__

    def __lshift__(self, o): return shift(self.v, o, True)
    def __rlshift__(self, o): return shift(val(o), self, True)
    def __rshift__(self, o): return shift(self.v, o, False)
    def __rrshift__(self, o): return shift(val(o), self, False)

    def __floordiv__(self, o): return div(self.v, o)[0]
    def __mod__(self, o): return div(self.v, o)[1]
    def __divmod__(self, o): return div(self.v, o)
    def __rfloordiv__(self, o): return div(val(o), self)[0]
    def __rmod__(self, o): return div(val(o), self)[1]
    def __rdivmod__(self, o): return div(val(o), self)

    def __pow__(self, o, m=None):
        n = const(o)
        if m is not None:
            raise Unsup("modular power")
        r = 1
        for _ in range(n):
            r = M.ctx.mul(r, self.v)
        return mkint(r)

    def __rpow__(self, o, m=None):
        return mkint(val(o) ** const(self)) if type(val(o)) is int else ZInt(o) ** const(self)

    def __neg__(self):
        return ZInt.raw(M.ctx.scale(self.v, -1) if type(self.v) is Poly else -self.v,
                        (-self.rng[1], -self.rng[0]) if self.rng else None)

    def __pos__(self): return ZInt.raw(self.v, self.rng)
    def __invert__(self): return ZInt.raw(M.ctx.plus(-1, self.v, -1))

    def __abs__(self):
        lo, hi = self.iv()
        if lo >= 0:
            return ZInt.raw(self.v)
        if hi <= 0:
            return -self
        c = M.ctx
        return mkint(c.plus(self.v, c.scale(c.mul(c.isneg(self.v), self.v), -2)))

    def __ceil__(self): return ZInt.raw(self.v, self.rng)
    __floor__ = __trunc__ = __round__ = __ceil__
    def __int__(self): return ZInt.raw(self.v, self.rng)
    def __index__(self): return const(self)
    def conjugate(self): return self

    # ---- comparison
    def _cmp(self, o, f):
        b = val(o)
        if b is None:
            return NotImplemented
        if type(self.v) is int and type(b) is int:
            return f(self.v, b, None)
        lo, hi = self.iv()
        if self.rng and type(b) is int:
            r = f(lo, b, None)
            if r == f(hi, b, None) and f is not f_eq:
                return r
        return f(self.v, b, M.ctx)

    def __lt__(self, o): return self._cmp(o, f_lt)
    def __le__(self, o): return bneg(self._cmp(o, f_gt))
    def __gt__(self, o): return self._cmp(o, f_gt)
    def __ge__(self, o): return bneg(self._cmp(o, f_lt))
    def __eq__(self, o): return self._cmp(o, f_eq)
    def __ne__(self, o): return bneg(self._cmp(o, f_eq))

    def __hash__(self): return hash(const(self))

    def __bool__(self):
        if type(self.v) is int:
            return self.v != 0
        r = bnot(eq0(self.v))
        return r if type(r) is bool else bool(r)

    def bit_length(self): return ZInt(const(self).bit_length())
    def bit_count(self): return ZInt(const(self).bit_count())

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        n = const(length)
        c, v = M.ctx, self.v
        lo, hi = self.iv()
        if signed:
            if not (-(1 << 8 * n - 1) <= lo and hi < 1 << 8 * n - 1):
                raise Unsup("to_bytes range")
        elif not (lo >= 0 and hi < 1 << 8 * n):
            if hi < 0 or lo >= 1 << 8 * n:
                raise OverflowError("int too big to convert")
            if not bool(band(bneg(f_lt(v, 0, c)), f_lt(v, 1 << 8 * n, c))):
                raise OverflowError("int too big to convert")
        b = [mkint(c.mod(c.shr(v, 8 * i), 8)) for i in range(n)]
        return SBytes(b if byteorder == "little" else b[::-1])

    @classmethod
    def from_bytes(cls, b, byteorder="big", *, signed=False):
        c = M.ctx
        l = [val(x) for x in b]
        if byteorder == "big":
            l = l[::-1]
        v = 0
        for i, x in enumerate(l):
            v = c.plus(v, c.scale(x, 1 << 8 * i))
        if signed and l:
            v = c.plus(v, c.scale(c.shr(l[-1], 7), 1 << 8 * len(l)), -1)
        return cls(mkint(v))

    def __repr__(self):
        return repr(self.v) if type(self.v) is int else "<sym>"
    __str__ = __repr__

    def __format__(self, spec):
        return format(self.v, spec) if type(self.v) is int else "<sym>"

    real = property(lambda s: s)


def bneg(x):
    return x if x is NotImplemented else bnot(x)


def f_lt(a, b, c):
    return a < b if c is None else lt0(c.plus(a, b, -1))


def f_gt(a, b, c):
    return a > b if c is None else lt0(c.plus(b, a, -1))


def f_eq(a, b, c):
    return a == b if c is None else eq0(c.plus(a, b, -1))


def mkint(v):
    return ZInt.raw(v)


def const(x):
    v = val(x)
    if type(v) is int:
        return v
    if v is None:
        return x.__index__()
    if v.lo == v.hi:
        return v.lo
    raise Unsup("symbolic value used as an index, size or key")


def bop(self, o, f):
    b = val(o)
    if b is None:
        return NotImplemented
    return ZInt.raw(f(self.v, b))


def shift(v, n, left):
    if v is None or val(n) is None:
        return NotImplemented
    n = const(n)
    if n < 0:
        raise ValueError("negative shift count")
    if left:
        return ZInt.raw(v << n if type(v) is int else M.ctx.scale(v, 1 << n))
    return ZInt.raw(M.ctx.shr(v, n))


def div(v, o):
    d = val(o)
    if d is None or v is None:
        return NotImplemented
    if type(d) is not int:
        raise Unsup("division by a symbolic value")
    if type(v) is int:
        q, r = divmod(v, d)
        return ZInt(q), ZInt(r)
    if d == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    c = M.ctx
    if d > 0 and d & (d - 1) == 0:
        k = d.bit_length() - 1
        return mkint(c.shr(v, k)), mkint(c.mod(v, k))
    if d > 0 and d & 1:
        r = c.modm(v, d)
        return Lazy(v, r, d), mkint(r)
    raise Unsup("division by %d" % d)


class Lazy:
    def __init__(self, *a): pass

    def __getattr__(self, n):
        raise Unsup("quotient by an odd number")


# ------------------------------------------------------------------ bytes
def byte(x):
    v = val(x)
    if v is None:
        v = x.__index__()
    lo, hi = x.iv() if isinstance(x, ZBase) else iv(v)
    if hi < 0 or lo > 255:
        raise ValueError("bytes must be in range(0, 256)")
    if lo < 0 or hi > 255:
        if not bool(band(bnot(lt0(v)), lt0(M.ctx.plus(v, 256, -1)))):
            raise ValueError("bytes must be in range(0, 256)")
    return v


class BMeta(type):
    def __instancecheck__(cls, o):
        if cls is SBytes and isinstance(o, builtins.bytes):
            return True
        if cls is SByteArray and isinstance(o, builtins.bytearray):
            return True
        return type.__instancecheck__(cls, o)


class SBytes(metaclass=BMeta):
    mutable = False

    def __init__(self, x=(), *enc):
        if isinstance(x, str):
            x = x.encode(*enc)
        v = val(x)
        if v is not None:
            n = const(x)
            if n < 0:
                raise ValueError("negative count")
            self.b = [0] * n
        elif isinstance(x, SBytes):
            self.b = list(x.b)
        else:
            self.b = [byte(i) for i in x]

    @classmethod
    def of(cls, l):
        o = object.__new__(cls)
        o.b = list(l)
        return o

    def __len__(self): return len(self.b)
    def __bool__(self): return bool(self.b)
    def __iter__(self): return iter([wrap(x) for x in self.b])
    def __bytes__(self): raise Unsup("native bytes() of a symbolic string")

    def __getitem__(self, i):
        if isinstance(i, slice):
            return type(self).of(self.b[sl(i)])
        return wrap(self.b[const(i)])

    def __add__(self, o):
        if isinstance(o, SBytes) and not isinstance(o, bytes):
            return type(self).of(self.b + o.b)
        if isinstance(o, (bytes, bytearray)):
            return type(self).of(self.b + list(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return SBytes.of(list(o) + self.b)
        return NotImplemented

    def __mul__(self, n):
        return type(self).of(self.b * const(n))
    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray)):
            o = SBytes.of(list(o))
        if type(o) not in (SBytes, SByteArray):
            return NotImplemented
        if len(o.b) != len(self.b):
            return False
        r = True
        for x, y in zip(self.b, o.b):
            r = band(r, f_eq(x, y, M.ctx))
        return r

    def __ne__(self, o): return bneg(self.__eq__(o))
    __hash__ = None

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out += self.b
            out += list(p.b if isinstance(p, (SBytes, SByteArray)) and not isinstance(p, (bytes, bytearray)) else p)
        return type(self).of(out)

    def ljust(self, n, f=b" "):
        f = f.b[0] if hasattr(f, "b") else f[0]
        return type(self).of(self.b + [f] * (const(n) - len(self.b)))

    def rjust(self, n, f=b" "):
        f = f.b[0] if hasattr(f, "b") else f[0]
        return type(self).of([f] * (const(n) - len(self.b)) + self.b)

    def hex(self):
        return "<sym>"

    def __repr__(self):
        return "<%d bytes>" % len(self.b)


class SByteArray(SBytes):
    mutable = True

    def __setitem__(self, i, x):
        if isinstance(i, slice):
            self.b[sl(i)] = [byte(y) for y in x]
        else:
            self.b[const(i)] = byte(x)

    def __delitem__(self, i):
        del self.b[sl(i) if isinstance(i, slice) else const(i)]

    def append(self, x): self.b.append(byte(x))

    def extend(self, x): self.b.extend(byte(y) for y in x)

    def __iadd__(self, x):
        self.extend(x)
        return self

    def reverse(self): self.b.reverse()
    def copy(self): return SByteArray.of(self.b)


def wrap(v):
    return v if type(v) is int else ZInt.raw(v)


def sl(s):
    f = lambda x: None if x is None else const(x)
    return slice(f(s.start), f(s.stop), f(s.step))


def s_memoryview(x):
    return x


# ------------------------------------------------------------------ loading modules
class Rewrite(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, bytes):
            return ast.copy_location(ast.Call(ast.Name("sx__bytes", ast.Load()), [n], []), n)
        return n

    def visit_MatchValue(self, n):
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == "__class__" and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name("sx__type", ast.Load()), [n.value], []), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "type" and len(n.args) == 1 and not n.keywords:
            n.func = ast.copy_location(ast.Name("sx__type", ast.Load()), n.func)
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n)):
            return n
        lam = lambda e: ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)
        return ast.copy_location(ast.Call(ast.Name("sx__and" if isinstance(n.op, ast.And) else "sx__or", ast.Load()),
                                          [lam(v) for v in n.values], []), n)

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(ast.Call(ast.Name("sx__not", ast.Load()), [n.operand], []), n)
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.copy_location(ast.Expr(ast.Call(ast.Name("sx__fn", ast.Load()), [ast.Constant(n.name)], [])), n))
        return n


def sx_type(x):
    t = x.__class__
    return ZInt if t is int else SBytes if t is builtins.bytes else SByteArray if t is builtins.bytearray else t


def junction(fs, stop):
    last = None
    for i, f in enumerate(fs):
        v = f()
        last = v
        if i == len(fs) - 1:
            return v
        sym = v if type(v) is SymBool else (bnot(eq0(v.v)) if isinstance(v, ZBase) and type(v.v) is Poly else None)
        if type(sym) is SymBool:
            known = any(c.key() == sym.key() for c, _ in M.decisions)
            if not known:                  # can a later operand settle it?  (evaluated early: operands here have no effects)
                nd, na = len(M.decisions), len(M.alts)
                try:
                    for g in fs[i + 1:]:
                        w = g()
                        if type(w) is not SymBool and not (isinstance(w, ZBase) and type(w.v) is Poly) and bool(w) == stop:
                            return stop
                except (Unsup, Exception):
                    pass
                finally:
                    del M.decisions[nd:], M.alts[na:]
            v = bool(sym)
            last = sym
            if v == stop:
                return stop
            continue
        if bool(v) == stop:
            return v
    return last


def sx_not(x):
    if type(x) is SymBool:
        return bnot(x)
    if isinstance(x, ZBase) and type(x.v) is Poly:
        return eq0(x.v)
    return not x


def s_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def s_divmod(a, b):
    return a.__divmod__(b) if isinstance(a, ZBase) else b.__rdivmod__(a) if isinstance(b, ZBase) else builtins.divmod(a, b)


def s_pow(a, b, m=None):
    if isinstance(a, ZBase) or isinstance(b, ZBase):
        return ZInt(a).__pow__(b, m)
    return builtins.pow(a, b, m)


class MStruct:
    """integers only, standard sizes"""
    error = __import__("struct").error
    SZ = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "x": 1}

    @classmethod
    def parse(cls, fmt):
        if not isinstance(fmt, str):
            raise Unsup("struct format")
        fmt = fmt.replace(" ", "")
        order = fmt[0] if fmt[:1] in tuple("@=<>!") else "@"
        f, out, n = fmt.lstrip("@=<>!"), [], ""
        for ch in f:
            if ch.isdigit():
                n += ch
                continue
            if ch == "s":
                out.append(("s", int(n or 1)))
            elif ch in cls.SZ:
                if order == "@" and cls.SZ[ch] > 1:
                    raise Unsup("native struct format")
                out += [(ch, cls.SZ[ch])] * int(n or 1)
            else:
                raise Unsup("struct format " + ch)
            n = ""
        return ("big" if order in ">!" else "little"), out

    @classmethod
    def calcsize(cls, fmt):
        return sum(n for _, n in cls.parse(fmt)[1])

    @classmethod
    def pack(cls, fmt, *a):
        order, fs = cls.parse(fmt)
        a, out = list(a), []
        if len(a) != sum(c != "x" for c, _ in fs):
            raise cls.error("pack expected %d items" % len(fs))
        for c, n in fs:
            if c == "x":
                out.append(0)
                continue
            x = a.pop(0)
            if c == "s":
                l = [val(y) for y in x][:n]
                out += l + [0] * (n - len(l))
                continue
            try:
                out += [val(y) for y in ZInt(x).to_bytes(n, order, signed=c.islower())]
            except OverflowError as e:
                raise cls.error(str(e))
        return SBytes.of(out)

    @classmethod
    def pack_into(cls, fmt, buf, off, *a):
        p = cls.pack(fmt, *a)
        off = const(off)
        if off < 0 or off + len(p) > len(buf):
            raise cls.error("pack_into requires a bigger buffer")
        buf[off:off + len(p)] = p

    @classmethod
    def unpack_from(cls, fmt, buf, offset=0):
        order, fs = cls.parse(fmt)
        i, out = const(offset), []
        if i < 0 or i + cls.calcsize(fmt) > len(buf):
            raise cls.error("unpack_from requires a bigger buffer")
        for c, n in fs:
            part = buf[i:i + n]
            if c == "s":
                out.append(SBytes(part))
            elif c != "x":
                out.append(ZInt.from_bytes(part, order, signed=c.islower()))
            i += n
        return tuple(out)

    @classmethod
    def unpack(cls, fmt, buf):
        if cls.calcsize(fmt) != len(buf):
            raise cls.error("unpack requires a buffer of %d bytes" % cls.calcsize(fmt))
        return cls.unpack_from(fmt, buf)

    @classmethod
    def iter_unpack(cls, fmt, buf):
        n = cls.calcsize(fmt)
        if not n or len(buf) % n:
            raise cls.error("iterative unpacking requires a multiple of %d bytes" % n)
        return iter([cls.unpack_from(fmt, buf, i) for i in range(0, len(buf), n)])

    class Struct:
        def __init__(self, fmt):
            self.format, self.size = fmt, MStruct.calcsize(fmt)

        def __getattr__(self, n):
            f = getattr(MStruct, n)
            return lambda *a: f(self.format, *a)


class MHmac:
    @staticmethod
    def compare_digest(a, b):
        if not isinstance(a, (SBytes, SByteArray, bytes, bytearray)) or not isinstance(b, (SBytes, SByteArray, bytes, bytearray)):
            raise TypeError("unsupported operand types(s) or combination of types")
        return SBytes(a) == SBytes(b)

    def __getattr__(self, n):
        raise Unsup("hmac." + n)


class MHash:
    """hashlib: only SHA-512, which is what spec.py defines"""
    class sha512:
        name, digest_size, block_size = "sha512", 64, 128

        def __init__(self, x=b"", **k):
            self.b = []
            self.update(x)

        def update(self, x):
            if not isinstance(x, (SBytes, SByteArray, bytes, bytearray)):
                raise TypeError("object supporting the buffer API required")
            self.b += [val(y) for y in x]

        def digest(self):
            from . import spec
            return SBytes(spec.sha512([mkint(x) for x in self.b]))

        def copy(self):
            return MHash.sha512(SBytes.of(self.b))

    def new(self, name, x=b"", **k):
        if str(name).lower() != "sha512":
            raise Unsup("hashlib " + str(name))
        return MHash.sha512(x)

    def __getattr__(self, n):
        raise Unsup("hashlib." + n)


class Loader:
    """fresh copies of the modules below saltchannel, sharing nothing with the interpreter's own"""
    EMPTY = ("saltchannel", "saltchannel.saltlib")

    def __init__(self, repo, over=None):
        self.repo, self.mods, self.functions = repo, {}, set()
        b = dict(vars(builtins))
        b.update(int=ZInt, bytes=SBytes, bytearray=SByteArray, memoryview=s_memoryview, sum=s_sum, divmod=s_divmod, pow=s_pow,
                 __import__=self._import, sx__bytes=lambda x: SBytes.of(list(x)), sx__type=sx_type, sx__not=sx_not,
                 sx__and=lambda *f: junction(f, False), sx__or=lambda *f: junction(f, True))
        self.b = b
        self.over = dict({"struct": MStruct, "hmac": MHmac(), "secrets": MHmac(), "hashlib": MHash()}, **(over or {}))

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        par, _, last = name.rpartition(".")
        if par:
            self.load(par)
        base = os.path.join(self.repo, *name.split("."))
        m = types.ModuleType(name)
        pk = os.path.isdir(base)
        path = os.path.join(base, "__init__.py") if pk else base + ".py"
        m.__package__ = name if pk else par
        m.__file__ = path
        if pk:
            m.__path__ = [base]
        if not pk and not os.path.exists(path):
            raise ModuleNotFoundError("No module named '%s'" % name, name=name)
        self.mods[name] = m
        if name not in self.EMPTY and os.path.exists(path):
            src = open(path, encoding="utf-8").read()
            tree = ast.fix_missing_locations(Rewrite().visit(ast.parse(src, path)))
            m.__dict__["__builtins__"] = self.b
            m.__dict__["sx__fn"] = lambda f, n=name: self.functions.add(n + "." + f)
            exec(compile(tree, path, "exec"), m.__dict__)
        if par:
            setattr(self.mods[par], last, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals["__package__"].rsplit(".", level - 1)[0]
            name = base + "." + name if name else base
        if name.split(".")[0] != "saltchannel":
            m = self.over.get(name)
            if m is not None and (fromlist or "." not in name):
                return m
            return builtins.__import__(name, None, None, fromlist, 0)
        m = self.load(name)
        if not fromlist:
            return self.load(name.split(".")[0])
        for f in fromlist:
            if f != "*" and not hasattr(m, f):
                try:
                    self.load(name + "." + f)
                except ModuleNotFoundError:
                    pass
        return m
