"""Symbolic values and path context of the executor.

Values:  SymBool, SymInt (exact unbounded Python ints: interval-tracked bit-vectors), SymBytes
(immutable rope of fixed bytes and symbolic-length blobs), SymByteArray, SymStr.
Path context: CTX.branch / must / concretize / check, by deterministic re-execution of a decision prefix.
"""
import itertools
import time
import z3

BV = z3.BitVec


class Control(BaseException):
    """Engine control flow; never caught by code under test (handlers are rewritten to re-raise it)."""


class PathInfeasible(Control):
    pass


class Unsupported(Control):
    pass


class Bound(Control):
    """A loop / step / decision bound of the engine was hit."""


class FoundViolation(Control):
    def __init__(self, label, detail=""):
        self.label, self.detail = label, detail


class MemoryFault(Control):
    """Model of C memory: an access outside a buffer."""


CTX = None
SYMKEYS = False           # some hashed container of this path may hold a symbolic key


def set_ctx(c):
    global CTX, SYMKEYS
    SYMKEYS = False
    CTX = c


def ctx():
    return CTX


# ---------------------------------------------------------------- path context
class Stats:
    def __init__(self):
        self.queries = 0
        self.branch_queries = 0
        self.check_queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.decisions = 0
        self.unknown = 0
        self.underapprox = 0
        self.overapprox = 0
        self.unsupported = []
        self.bounds = []
        self.checks = {}
        self.reached = {}
        self.functions = set()


class Path:
    def __init__(self, prefix, stats, cfg):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []          # list of (kind, value)
        self.alts = []               # alternative prefixes
        self.stats = stats
        self.cfg = cfg
        self.solver = z3.Solver()
        self.solver.set("timeout", cfg.get("timeout_ms", 20000))
        self.inputs = []             # (name, kind, payload)
        self.names = {}
        self.observed = []
        self.steps = 0
        self.max_steps = cfg.get("max_steps", 400000)
        self.max_decisions = cfg.get("max_decisions", 1500)
        self.model = None            # a model known to satisfy the current assertions
        self.log = []
        self.flags = set()
        self.checked = []

    # -- solver
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
            self.flags.add("unknown")
        return r

    def add(self, t):
        self.solver.add(t)
        if self.model is not None:
            if not z3.is_true(self.model.eval(t, model_completion=True)):
                self.model = None

    def _holds_in_model(self, t):
        if self.model is None:
            return None
        v = self.model.eval(t, model_completion=True)
        return True if z3.is_true(v) else (False if z3.is_false(v) else None)

    def sat(self, t):
        """Is path /\\ t satisfiable? (True / False; unknown counts as True and is flagged)"""
        if self._holds_in_model(t):
            return True
        r = self._check(t)
        if r == z3.sat:
            return True
        return r != z3.unsat

    def ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise PathInfeasible()
            else:
                raise Unsupported("solver unknown while looking for a model")
        return self.model

    # -- decisions
    def _record(self, d, alt=None):
        self.decisions.append(d)
        if len(self.decisions) > self.max_decisions:
            raise Bound("decisions")
        if alt is not None:
            self.alts.append(self.decisions[:-1] + [alt])

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.pos < len(self.prefix):
            k, v = self.prefix[self.pos]
            assert k == "b", "non-deterministic re-execution (%s)" % (k,)
            self.pos += 1
            self._record((k, v))
            self.add(t if v else z3.Not(t))
            return v
        self.stats.branch_queries += 1
        h = self._holds_in_model(t)
        if h is True:
            st, sf = True, self._check(z3.Not(t)) != z3.unsat
        elif h is False:
            sf, r = True, self._check(t)
            st = r != z3.unsat
        else:
            r = self._check(t)
            st = r != z3.unsat
            if r == z3.sat:
                self.model = self.solver.model()
            sf = self._check(z3.Not(t)) != z3.unsat
        if st and sf:
            self.stats.decisions += 1
            self.pos += 1
            self._record(("b", True), alt=("b", False))
            self.add(t)
            return True
        if not st and not sf:
            raise PathInfeasible()
        self.pos += 1
        self._record(("b", st))
        self.add(t if st else z3.Not(t))
        return st

    def must(self, t):
        """t holds on every value of this path (no fork)."""
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self._holds_in_model(t) is False:
            return False
        return self._check(z3.Not(t)) == z3.unsat

    def concretize(self, si, limit=4096):
        """Fork over all feasible values of a SymInt."""
        n = 0
        while True:
            if self.pos < len(self.prefix):
                k, v = self.prefix[self.pos]
                assert k in ("c", "n"), "non-deterministic re-execution (%s)" % (k,)
                self.pos += 1
                self._record((k, v))
                eq = si.eq_term(v)
                self.add(eq if k == "c" else z3.Not(eq))
                if k == "c":
                    return v
                n += 1
                continue
            m = self.ensure_model()
            v = si.eval(m)
            eq = z3.simplify(si.eq_term(v))
            if z3.is_true(eq):
                return v
            self.pos += 1
            n += 1
            if n > limit:
                raise Bound("concretize")
            if self._check(z3.Not(eq)) != z3.unsat:
                self.stats.decisions += 1
                self._record(("c", v), alt=("n", v))
            else:
                self._record(("c", v))
            self.add(eq)
            return v

    def pick(self, si):
        """Under-approximate: fix a SymInt to one feasible value (flagged as incomplete)."""
        self.flags.add("underapprox")
        self.stats.underapprox += 1
        if self.pos < len(self.prefix):
            k, v = self.prefix[self.pos]
            assert k == "p"
            self.pos += 1
        else:
            v = si.eval(self.ensure_model())
            self.pos += 1
        self._record(("p", v))
        self.add(si.eq_term(v))
        return v

    def assume(self, c):
        if isinstance(c, SymBool):
            t = z3.simplify(c.t)
            if z3.is_true(t):
                return
            self.add(t)
            if z3.is_false(t):
                raise PathInfeasible()
            if self.pos >= len(self.prefix) and self.model is None:
                self.ensure_model()
        elif not c:
            raise PathInfeasible()

    def fresh(self, name, bits):
        return z3.BitVec(self.unique(name), bits)

    def unique(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else "%s!%d" % (name, n)

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise Bound("steps")


# ---------------------------------------------------------------- bools
class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return CTX.branch(self.t)

    def __repr__(self):
        return "<symbool>"

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        o2 = as_bool_term(o)
        if o2 is None:
            if type(o) in (int, SymInt):
                return sx_eq(self.to_int(), o)
            return NotImplemented
        return mkbool(self.t == o2)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def __and__(self, o):
        o2 = as_bool_term(o)
        return self.to_int() & o if o2 is None else mkbool(z3.And(self.t, o2))
    __rand__ = __and__

    def __or__(self, o):
        o2 = as_bool_term(o)
        return self.to_int() | o if o2 is None else mkbool(z3.Or(self.t, o2))
    __ror__ = __or__

    def __xor__(self, o):
        o2 = as_bool_term(o)
        return self.to_int() ^ o if o2 is None else mkbool(z3.Xor(self.t, o2))
    __rxor__ = __xor__

    def to_int(self):
        return mkint(z3.If(self.t, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 0, 1)

    def __int__(self):
        return 1 if bool(self) else 0
    __index__ = __int__

    def __add__(self, o): return self.to_int() + o
    def __radd__(self, o): return o + self.to_int()
    def __sub__(self, o): return self.to_int() - o
    def __rsub__(self, o): return o - self.to_int()
    def __mul__(self, o): return self.to_int() * o
    def __rmul__(self, o): return o * self.to_int()
    def __lshift__(self, o): return self.to_int() << o
    def __rshift__(self, o): return self.to_int() >> o
    def __neg__(self): return -self.to_int()
    def __invert__(self): return ~self.to_int()
    def __lt__(self, o): return self.to_int() < o
    def __le__(self, o): return self.to_int() <= o
    def __gt__(self, o): return self.to_int() > o
    def __ge__(self, o): return self.to_int() >= o
    def __format__(self, spec): return "<symbool>"


def as_bool_term(x):
    if type(x) is SymBool:
        return x.t
    if type(x) is bool:
        return z3.BoolVal(x)
    return None


def mkbool(t):
    if type(t) is bool:
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bnot(x):
    if type(x) is SymBool:
        return mkbool(z3.Not(x.t))
    return not x


def band(*xs):
    out = []
    for x in xs:
        t = as_bool_term(x)
        if t is None:
            t = z3.BoolVal(bool(x))
        out.append(t)
    return mkbool(z3.And(*out)) if out else True


def bor(*xs):
    out = []
    for x in xs:
        t = as_bool_term(x)
        if t is None:
            t = z3.BoolVal(bool(x))
        out.append(t)
    return mkbool(z3.Or(*out)) if out else False


# ---------------------------------------------------------------- ints
def uwidth(lo, hi):
    """bits for an (lo,hi) interval; unsigned encoding if lo >= 0 else two's complement."""
    if lo >= 0:
        return max(1, hi.bit_length())
    return max((-lo - 1).bit_length(), hi.bit_length() if hi > 0 else 0) + 1


def as_bv(x, w):
    """x (int or SymInt) modulo 2^w as a BV of width w."""
    if type(x) is int or type(x) is bool:
        return z3.BitVecVal(int(x), w)
    if type(x) is SymBool:
        x = x.to_int()
        if type(x) is int:
            return z3.BitVecVal(x, w)
    t = x.t
    s = t.size()
    if s == w:
        return t
    if s > w:
        return z3.Extract(w - 1, 0, t)
    return z3.ZeroExt(w - s, t) if x.lo >= 0 else z3.SignExt(w - s, t)


def ival(x):
    if type(x) is int or type(x) is bool:
        return int(x), int(x)
    if type(x) is SymBool:
        return 0, 1
    return x.lo, x.hi


def is_intlike(x):
    return isinstance(x, int)   # SymInt/SymBool present themselves as int/bool


SIMPLIFY = True


def mkint(t, lo, hi, simp=True):
    """t: BV term whose value in [lo,hi] (encoding per uwidth's convention for that sign)."""
    if lo >= 0:
        hi = min(hi, (1 << t.size()) - 1)
    if lo == hi:
        return lo
    if simp and SIMPLIFY:
        t = z3.simplify(t)
    if z3.is_bv_value(t):
        v = t.as_signed_long() if lo < 0 else t.as_long()
        return v
    w = uwidth(lo, hi)
    if t.size() > w:
        t = z3.Extract(w - 1, 0, t)
        if simp and SIMPLIFY:
            t = z3.simplify(t)
    return SymInt(t, lo, hi)


def _binop(name):
    def op(self, other):
        if type(other) is SymBool:
            other = other.to_int()
        if not is_intlike(other):
            return NotImplemented
        return _arith(name, self, other)

    def rop(self, other):
        if type(other) is SymBool:
            other = other.to_int()
        if not is_intlike(other):
            return NotImplemented
        return _arith(name, other, self)
    return op, rop


def _arith(name, a, b):
    alo, ahi = ival(a)
    blo, bhi = ival(b)
    if alo == ahi and blo == bhi and type(a) is not SymInt and type(b) is not SymInt:
        a, b = int(a), int(b)
        return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b,
                "or": lambda: a | b, "xor": lambda: a ^ b}[name]()
    if name == "add":
        if type(a) is int and a == 0:
            return b
        if type(b) is int and b == 0:
            return a
        lo, hi = alo + blo, ahi + bhi
        w = uwidth(lo, hi)
        return mkint(as_bv(a, w) + as_bv(b, w), lo, hi)
    if name == "sub":
        if type(b) is int and b == 0:
            return a
        lo, hi = alo - bhi, ahi - blo
        w = uwidth(lo, hi)
        return mkint(as_bv(a, w) - as_bv(b, w), lo, hi)
    if name == "mul":
        c = [alo * blo, alo * bhi, ahi * blo, ahi * bhi]
        lo, hi = min(c), max(c)
        w = uwidth(lo, hi)
        return mkint(as_bv(a, w) * as_bv(b, w), lo, hi)
    # bitwise
    if alo >= 0 and blo >= 0:
        w = max(uwidth(0, ahi), uwidth(0, bhi))
        if name == "and":
            lo, hi = 0, min(ahi, bhi)
        else:
            lo, hi = (max(alo, blo) if name == "or" else 0), (1 << w) - 1
    else:
        w = max(uwidth(min(alo, -1), ahi), uwidth(min(blo, -1), bhi))
        if name == "and" and (alo >= 0 or blo >= 0):
            lo, hi = 0, (ahi if alo >= 0 else bhi)
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    x, y = as_bv(a, w), as_bv(b, w)
    r = x & y if name == "and" else (x | y if name == "or" else x ^ y)
    return mkint(r, lo, hi)


def _cmp(name, a, b):
    alo, ahi = ival(a)
    blo, bhi = ival(b)
    if name == "eq" and (ahi < blo or bhi < alo):
        return False
    if name == "lt":
        if ahi < blo:
            return True
        if alo >= bhi:
            return False
    if name == "le":
        if ahi <= blo:
            return True
        if alo > bhi:
            return False
    lo, hi = min(alo, blo), max(ahi, bhi)
    w = uwidth(lo, hi)
    x, y = as_bv(a, w), as_bv(b, w)
    if name == "eq":
        return mkbool(x == y)
    if lo < 0:
        return mkbool(x < y if name == "lt" else x <= y)
    return mkbool(z3.ULT(x, y) if name == "lt" else z3.ULE(x, y))


class SymInt:
    __slots__ = ("t", "lo", "hi")

    def __init__(self, t, lo, hi):
        self.t, self.lo, self.hi = t, lo, hi

    @property
    def __class__(self):
        return int

    __add__, __radd__ = _binop("add")
    __sub__, __rsub__ = _binop("sub")
    __and__, __rand__ = _binop("and")
    __or__, __ror__ = _binop("or")
    __xor__, __rxor__ = _binop("xor")

    def __mul__(self, o):
        if is_intlike(o):
            return _arith("mul", self, o if type(o) is not SymBool else o.to_int())
        if isinstance(o, (bytes, bytearray)) and type(o) in (bytes, bytearray):
            return sx_repeat(o, self)
        if isinstance(o, (list, tuple, str)):
            return o * int(self)
        return NotImplemented
    __rmul__ = __mul__

    def __neg__(self):
        return _arith("sub", 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return -self if CTX.branch(as_z3(self < 0)) else self

    def __invert__(self):
        return _arith("sub", -1, self)

    def __lshift__(self, o):
        if not is_intlike(o):
            return NotImplemented
        o = int(o)
        if o < 0:
            raise ValueError("negative shift count")
        return _arith("mul", self, 1 << o)

    def __rlshift__(self, o):
        return o << int(self)

    def __rshift__(self, o):
        if not is_intlike(o):
            return NotImplemented
        o = int(o)
        if o < 0:
            raise ValueError("negative shift count")
        if o == 0:
            return self
        lo, hi = self.lo >> o, self.hi >> o
        if lo == hi:
            return lo
        w = self.t.size()
        if self.lo >= 0:
            return mkint(z3.Extract(w - 1, o, self.t), lo, hi)
        return mkint(self.t >> o, lo, hi)

    def __rrshift__(self, o):
        return o >> int(self)

    def _divmod(self, o):
        if type(o) in (SymInt, SymBool):
            if type(o) is SymInt and CTX.branch(as_z3(o == 0)):
                raise ZeroDivisionError("integer division or modulo by zero")
            o = int(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o > 0 and o & (o - 1) == 0:
            return self >> (o.bit_length() - 1), self & (o - 1)
        if self.lo >= 0 and o > 0:
            w = max(self.t.size(), o.bit_length())
            x, d = as_bv(self, w), z3.BitVecVal(o, w)
            return (mkint(z3.UDiv(x, d), self.lo // o, self.hi // o),
                    mkint(z3.URem(x, d), 0, min(o - 1, self.hi)))
        w = max(uwidth(self.lo, self.hi), uwidth(min(o, -1), o)) + 2
        x, d = as_bv(self, w), z3.BitVecVal(o, w)
        # python floor semantics: r has the sign of the divisor
        r = z3.SRem(x, d)
        r = z3.If(z3.And(r != 0, (r < 0) != (d < 0)), r + d, r)
        q = (x - r) / d
        c = [self.lo // o, self.hi // o]
        return mkint(q, min(c), max(c)), mkint(r, 0, o - 1) if o > 0 else mkint(r, o + 1, 0)

    def __floordiv__(self, o):
        if not is_intlike(o):
            return NotImplemented
        return self._divmod(o)[0]

    def __rfloordiv__(self, o):
        return o // int(self)

    def __mod__(self, o):
        if not is_intlike(o):
            return NotImplemented
        return self._divmod(o)[1]

    def __rmod__(self, o):
        return o % int(self)

    def __divmod__(self, o):
        return self._divmod(o)

    def __truediv__(self, o):
        return int(self) / o

    def __rtruediv__(self, o):
        return o / int(self)

    def __pow__(self, o, m=None):
        return pow(int(self), int(o), m)

    def __rpow__(self, o):
        return o ** int(self)

    def __eq__(self, o):
        if not is_intlike(o):
            if isinstance(o, float):
                return float(int(self)) == o
            return NotImplemented
        return _cmp("eq", self, o)

    def __ne__(self, o):
        if not is_intlike(o):
            return NotImplemented
        return bnot(_cmp("eq", self, o))

    def __lt__(self, o):
        return _cmp("lt", self, o) if is_intlike(o) else NotImplemented

    def __le__(self, o):
        return _cmp("le", self, o) if is_intlike(o) else NotImplemented

    def __gt__(self, o):
        return _cmp("lt", o, self) if is_intlike(o) else NotImplemented

    def __ge__(self, o):
        return _cmp("le", o, self) if is_intlike(o) else NotImplemented

    def __bool__(self):
        r = _cmp("eq", self, 0)
        return not (r if type(r) is bool else CTX.branch(r.t))

    def __int__(self):
        return CTX.concretize(self)
    __index__ = __int__

    def __float__(self):
        return float(int(self))

    def __hash__(self):
        return hash(int(self))

    def __repr__(self):
        return "<symint>"
    __str__ = __repr__

    def __format__(self, spec):
        return "<symint>"

    def bit_length(self):
        return int(self).bit_length()

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        length = int(length)
        if length < 0:
            raise ValueError("length argument must be non-negative")
        n = 8 * length
        if signed:
            bad = bor(self < -(1 << (n - 1)) if n else self != 0, self >= (1 << (n - 1)) if n else False)
        else:
            if self.lo < 0 and bool(self < 0):
                raise OverflowError("can't convert negative int to unsigned")
            bad = self >= (1 << n)
        if bad is True or (bad is not False and bool(bad)):
            raise OverflowError("int too big to convert")
        return int_to_bytes(self, length, byteorder)

    # engine helpers
    def eq_term(self, v):
        return as_z3(_cmp("eq", self, v))

    def eval(self, m):
        x = m.eval(self.t, model_completion=True)
        return x.as_signed_long() if self.lo < 0 else x.as_long()

    def narrowed(self, lo, hi):
        """Same value, tighter interval known from the path condition."""
        lo, hi = max(lo, self.lo), min(hi, self.hi)
        return mkint(as_bv(self, uwidth(lo, hi)), lo, hi)


def as_z3(x):
    if type(x) is bool:
        return z3.BoolVal(x)
    return x.t


def int_to_bytes(x, length, byteorder):
    """low 8*length bits of x as bytes."""
    if type(x) is int:
        return (x & ((1 << (8 * length)) - 1)).to_bytes(length, byteorder)
    if length == 0:
        return b""
    t = as_bv(x, 8 * length)
    el = [elem(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(length)]
    if byteorder == "big":
        el.reverse()
    elif byteorder != "little":
        raise ValueError("byteorder must be either 'little' or 'big'")
    return mkbytes_el(el)


def int_from_el(el, byteorder, signed):
    el = list(el)
    if byteorder == "little":
        el.reverse()
    elif byteorder != "big":
        raise ValueError("byteorder must be either 'little' or 'big'")
    if not el:
        return 0
    if all(type(e) is int for e in el):
        return int.from_bytes(bytes(el), "big", signed=signed)
    ts = [z3.BitVecVal(e, 8) if type(e) is int else e for e in el]
    t = z3.Concat(*ts) if len(ts) > 1 else ts[0]
    n = 8 * len(ts)
    if signed:
        return mkint(t, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return mkint(t, 0, (1 << n) - 1)


def sx_eq(a, b):
    """a == b as bool or SymBool (never forks for ints)."""
    r = a == b
    return r


def elem(t):
    """BV8 term -> element (int if constant)."""
    t = z3.simplify(t)
    return t.as_long() if z3.is_bv_value(t) else t


def elem_to_int(e):
    if type(e) is int:
        return e
    return mkint(e, 0, 255)


def int_to_elem(x, what="bytes"):
    """a byte value given as Python int-like -> element; raises ValueError like bytes() does."""
    if type(x) is SymBool:
        x = x.to_int()
    if type(x) is SymInt:
        bad = bor(x < 0, x > 255)
        if bad is True or (bad is not False and bool(bad)):
            raise ValueError("%s must be in range(0, 256)" % what)
        return elem(as_bv(x, 8))
    if not isinstance(x, int):
        x = x.__index__()
        return int_to_elem(x, what)
    x = int(x)
    if not 0 <= x <= 255:
        raise ValueError("%s must be in range(0, 256)" % what)
    return x


# ---------------------------------------------------------------- byte ropes
class Blob:
    """arr: z3 Array(BV32 -> BV8); bytes arr[off .. off+len)."""
    __slots__ = ("arr", "off", "n")

    def __init__(self, arr, off, n):
        self.arr, self.off, self.n = arr, off, n


def seg_len(s):
    return len(s) if type(s) is tuple else s.n


def mkrope(segs):
    out = []
    for s in segs:
        if type(s) is tuple:
            if not s:
                continue
            if out and type(out[-1]) is tuple:
                out[-1] = out[-1] + s
            else:
                out.append(s)
        else:
            if type(s.n) is int and s.n == 0:
                continue
            if out and type(out[-1]) is Blob and out[-1].arr.eq(s.arr):
                p = out[-1]
                e = _cmp_eq0(p.off + p.n, s.off)
                if e is True:
                    out[-1] = Blob(p.arr, p.off, p.n + s.n)
                    continue
            out.append(s)
    if not out:
        return b""
    if len(out) == 1 and type(out[0]) is tuple:
        try:
            return bytes(out[0])              # fails at the first symbolic element
        except TypeError:
            pass
    return SymBytes(tuple(out))


def _cmp_eq0(a, b):
    r = a == b
    return r if type(r) is bool else None


def mkbytes_el(el):
    return mkrope([tuple(el)])


def segs_of(x):
    if type(x) is SymBytes:
        return x.segs
    if type(x) is SymByteArray:
        return segs_of(x.v)
    if type(x) is SymView:
        return segs_of(x.get())
    if isinstance(x, (bytes, bytearray)):
        return (tuple(x),) if len(x) else ()
    if isinstance(x, memoryview):
        return (tuple(bytes(x)),)
    f = getattr(x, "_sx_buffer_", None)
    if f is not None:
        return segs_of(f())
    raise TypeError("a bytes-like object is required, not '%s'" % type(x).__name__)


def is_bytesy(x):
    t = type(x)
    return t in (SymBytes, SymByteArray, SymView, bytes, bytearray, memoryview) or hasattr(t, "_sx_buffer_")


def is_sym(x):
    return type(x) in (SymBytes, SymByteArray, SymView, SymInt, SymBool, SymStr)


def concat(parts):
    segs = []
    for p in parts:
        segs.extend(segs_of(p))
    return mkrope(segs)


def rlen(x):
    """length of a bytes-like value as int or SymInt."""
    if type(x) is SymBytes:
        n = 0
        for s in x.segs:
            n = n + seg_len(s)
        return n
    if type(x) in (SymByteArray, SymView):
        return rlen(x.get())
    if isinstance(x, (bytes, bytearray, memoryview)):
        return len(x)
    return rlen(mkrope(segs_of(x)))


def fork_true(c):
    return c if type(c) is bool else CTX.branch(c.t)


def split(x, a):
    """split rope x at a (0 <= a <= len must be known on the path) -> (left, right)."""
    if type(x) is bytes and type(a) is int:
        return x[:a], x[a:]
    segs = segs_of(x)
    left, i, pos = [], 0, 0
    while i < len(segs):
        s = segs[i]
        n = seg_len(s)
        end = pos + n
        if fork_true(end <= a):
            left.append(s)
            pos = end
            i += 1
            continue
        if fork_true(a <= pos):
            break
        k = a - pos
        if type(s) is tuple:
            k = int(k)
            left.append(s[:k])
            right = [s[k:]]
        else:
            if type(k) is SymInt:
                k = k.narrowed(0, ival(n)[1])
            rest = n - k
            if type(rest) is SymInt:
                rest = rest.narrowed(0, rest.hi)
            left.append(Blob(s.arr, s.off, k))
            right = [Blob(s.arr, s.off + k, rest)]
        return mkrope(left), mkrope(right + list(segs[i + 1:]))
    return mkrope(left), mkrope(segs[i:])


def clamp_index(i, n, default):
    if i is None:
        return default
    if not isinstance(i, int):
        i = i.__index__()
    if type(i) is SymBool:
        i = i.to_int()
    if fork_true(i < 0):
        i = i + n
        if fork_true(i < 0):
            return 0
    if fork_true(i > n):
        return n
    if type(i) is SymInt:
        i = i.narrowed(0, ival(n)[1])
    return i


def rslice(x, sl):
    n = rlen(x)
    step = sl.step
    if step is not None and not (type(step) is int and step == 1):
        step = int(step)
        els = all_elems(x)
        a = None if sl.start is None else int(sl.start)
        b = None if sl.stop is None else int(sl.stop)
        return mkbytes_el(els[slice(a, b, step)])
    a = clamp_index(sl.start, n, 0)
    b = clamp_index(sl.stop, n, n)
    if fork_true(b <= a):
        return b""
    x2, _ = split(x, b) if sl.stop is not None else (x, None)
    _, r = split(x2, a) if sl.start is not None else (None, x2)
    if type(r) in (SymByteArray, SymView):
        r = r.get()
    return r if type(r) in (bytes, SymBytes) else mkrope(segs_of(r))


def relem(x, i):
    """element at index i (no negative handling; bounds known)."""
    segs = segs_of(x)
    pos = 0
    for s in segs:
        n = seg_len(s)
        end = pos + n
        if fork_true(i < end):
            k = i - pos
            if type(s) is tuple:
                if type(k) is SymInt:
                    k = int(k)
                return s[k]
            return elem(z3.Select(s.arr, as_bv(s.off + k, 32)))
        pos = end
    raise IndexError("index out of range")


def rget(x, i):
    if not isinstance(i, int):
        i = i.__index__()
    n = rlen(x)
    if fork_true(i < 0):
        i = i + n
        if fork_true(i < 0):
            raise IndexError("index out of range")
    if fork_true(i >= n):
        raise IndexError("index out of range")
    return elem_to_int(relem(x, i))


MAX_UNROLL = 70000


def all_elems(x):
    """all elements of a rope, forking over its length where symbolic."""
    out = []
    for s in segs_of(x):
        if type(s) is tuple:
            out.extend(s)
        else:
            n = int(s.n)
            if n > MAX_UNROLL:
                raise Bound("unroll %d bytes" % n)
            for i in range(n):
                out.append(elem(z3.Select(s.arr, as_bv(s.off + i, 32))))
    return out


def fixed(x):
    """rope with concrete length (forks on symbolic lengths)."""
    return mkbytes_el(all_elems(x))


def _el_eq(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    if type(a) is not int and type(b) is not int and a.eq(b):
        return True
    x = z3.BitVecVal(a, 8) if type(a) is int else a
    y = z3.BitVecVal(b, 8) if type(b) is int else b
    return x == y


def req(a, b):
    """rope equality -> bool or SymBool. Forks only on (non-provable) length equality."""
    la, lb = rlen(a), rlen(b)
    le = la == lb
    if le is False:
        return False
    if le is not True and not CTX.must(le.t):
        if not CTX.branch(le.t):
            return False
    sa, sb = list(segs_of(a)), list(segs_of(b))
    terms = []
    sa.reverse()
    sb.reverse()
    while sa and sb:
        s, t = sa.pop(), sb.pop()
        if type(s) is tuple and type(t) is tuple:
            k = min(len(s), len(t))
            for i in range(k):
                e = _el_eq(s[i], t[i])
                if e is False:
                    return False
                if e is not True:
                    terms.append(e)
            if len(s) > k:
                sa.append(s[k:])
            if len(t) > k:
                sb.append(t[k:])
            continue
        if type(s) is Blob and type(t) is Blob and s.arr.eq(t.arr) and _must_eq(s.off, t.off):
            if _must_eq(s.n, t.n):
                continue
            if _must_le(s.n, t.n):
                d = t.n - s.n
                sb.append(Blob(t.arr, t.off + s.n, d.narrowed(0, d.hi) if type(d) is SymInt else d))
                continue
            if _must_le(t.n, s.n):
                d = s.n - t.n
                sa.append(Blob(s.arr, s.off + t.n, d.narrowed(0, d.hi) if type(d) is SymInt else d))
                continue
        if type(s) is Blob and type(t) is tuple:
            s, t, sa, sb = t, s, sb, sa
        if type(s) is tuple and type(t) is Blob and _must_le(len(s), t.n):
            for i in range(len(s)):
                e = _el_eq(s[i], elem(z3.Select(t.arr, as_bv(t.off + i, 32))))
                if e is False:
                    return False
                if e is not True:
                    terms.append(e)
            d = t.n - len(s)
            if type(d) is SymInt:
                d = d.narrowed(0, d.hi)
            if not (type(d) is int and d == 0):
                sb.append(Blob(t.arr, t.off + len(s), d))
            continue
        # general case
        sa.append(s)
        sb.append(t)
        sa.reverse()
        sb.reverse()
        return _general_eq(mkrope(sa), mkrope(sb), terms)
    # leftovers are provably empty (equal total lengths)
    return mkbool(z3.And(*terms)) if terms else True


def _must_eq(a, b):
    r = a == b
    return r if type(r) is bool else CTX.must(r.t)


def _must_le(a, b):
    r = a <= b
    return r if type(r) is bool else CTX.must(r.t)


def at_term(x, k):
    """BV8 term for rope x at symbolic BV32 index k (ITE chain, no forks); arbitrary outside."""
    segs = segs_of(x)
    pos = 0
    cases = []
    for s in segs:
        n = seg_len(s)
        if type(s) is tuple:
            for i, e in enumerate(s):
                cases.append((k == as_bv(pos + i, 32), z3.BitVecVal(e, 8) if type(e) is int else e))
        else:
            end = as_bv(pos + n, 32)
            cases.append((z3.And(z3.UGE(k, as_bv(pos, 32)), z3.ULT(k, end)),
                          z3.Select(s.arr, as_bv(s.off, 32) + (k - as_bv(pos, 32)))))
        pos = pos + n
    t = z3.BitVecVal(0, 8)
    for c, v in reversed(cases):
        t = z3.If(c, v, t)
    return t


def refine_ropeeqs(path, limit=40):
    """the current model may satisfy an over-approximated rope equality without the ropes being equal: add the index where
    they differ and solve again.  -> False when the path (with everything asserted so far) turns out infeasible"""
    known = path.__dict__.get("ropeeqs")
    if not known:
        return True
    for _ in range(limit):
        m = path.ensure_model()
        bad = []
        for (ka, kb, n, e, k, a, b) in known:
            if not z3.is_true(m.eval(e, model_completion=True)):
                continue
            nn = n if type(n) is int else n.eval(m)
            ta, tb = at_term(a, z3.BitVec("_idx", 32)), at_term(b, z3.BitVec("_idx", 32))
            ta, tb = m.eval(ta), m.eval(tb)               # closed except for _idx (and unconstrained symbols)
            for i in (range(nn) if nn <= 2048 else itertools.chain(range(1024), range(nn - 1024, nn))):
                iv = z3.BitVecVal(i, 32)
                x = m.eval(z3.substitute(ta, (z3.BitVec("_idx", 32), iv)), model_completion=True)
                y = m.eval(z3.substitute(tb, (z3.BitVec("_idx", 32), iv)), model_completion=True)
                if not x.eq(y):
                    bad.append(z3.Implies(z3.And(e, z3.ULT(iv, as_bv(n, 32))), at_term(a, iv) == at_term(b, iv)))
                    break
        if not bad:
            return True
        path.model = None
        path.solver.add(*bad)
        path.__dict__.setdefault("ropelemmas", []).extend(bad)
        r = path._check()
        if r == z3.unsat:
            return False
        if r == z3.sat:
            path.model = path.solver.model()
        else:
            return True
    return True


def _general_eq(a, b, terms):
    n = rlen(a)
    if type(n) is SymInt:
        v = n.eval(CTX.ensure_model())
        if v <= 2048 and CTX.must(n.eq_term(v)):
            n = v
    if type(n) is int and n <= 2048:
        ea, eb = all_elems(a), all_elems(b)
        for x, y in zip(ea, eb):
            e = _el_eq(x, y)
            if e is False:
                return False
            if e is not True:
                terms.append(e)
        return mkbool(z3.And(*terms)) if terms else True
    ka, kb = _rope_key(a), _rope_key(b)
    if ka > kb:
        a, b, ka, kb = b, a, kb, ka
    known = CTX.__dict__.setdefault("ropeeqs", [])
    for (ja, jb, n2, e2, k2, a2, b2) in known:
        if ja == ka and jb == kb and _must_eq(n, n2):
            return mkbool(z3.And(e2, *terms))
    e = z3.Bool(CTX.unique("ropeeq"))
    k = z3.BitVec(CTX.unique("ropeeq_k"), 32)
    CTX.add(z3.Implies(z3.Not(e), z3.And(z3.ULT(k, as_bv(n, 32)), at_term(a, k) != at_term(b, k))))
    # positive polarity: instantiate at a few indices only (over-approximation; counterexamples are replayed)
    for ki in [z3.BitVecVal(i, 32) for i in (0, 1, 2, 3)] + [x[4] for x in known[:12]]:
        CTX.add(z3.Implies(z3.And(e, z3.ULT(ki, as_bv(n, 32))), at_term(a, ki) == at_term(b, ki)))
    for (ja, jb, n2, e2, k2, a2, b2) in known[:12]:
        CTX.add(z3.Implies(z3.And(e2, z3.ULT(k, as_bv(n2, 32))), at_term(a2, k) == at_term(b2, k)))
    known.append((ka, kb, n, e, k, a, b))
    CTX.flags.add("overapprox")
    CTX.stats.overapprox += 1
    return mkbool(z3.And(e, *terms))


def _rope_key(x):
    out = []
    segs = segs_of(x)
    for i, s in enumerate(segs):
        if type(s) is tuple:
            out.append(("t",) + tuple(("c", e) if type(e) is int else ("s", z3.simplify(e).get_id()) for e in s))
        else:
            o = ("c", s.off) if type(s.off) is int else ("s", z3.simplify(s.off.t).get_id())
            n = ("e", 0) if i == len(segs) - 1 else (("c", s.n) if type(s.n) is int else ("s", z3.simplify(s.n.t).get_id()))
            out.append(("b", s.arr.get_id(), o, n))
    return repr(out)


def sx_repeat(x, n):
    """bytes * n"""
    if type(n) is SymInt:
        if type(x) is bytes and len(x) == 1:
            if fork_true(n <= 0):
                return b""
            n = n.narrowed(0, n.hi)
            return mkrope([Blob(z3.K(z3.BitVecSort(32), z3.BitVecVal(x[0], 8)), 0, n)])
        n = int(n)
    if n <= 0:
        return b""
    return mkrope(list(segs_of(x)) * n)


def zeros(n):
    if type(n) is int and n <= 256:
        if n < 0:
            raise ValueError("negative count")
        return bytes(n)
    if type(n) is SymInt and n.lo < 0 and bool(n < 0):
        raise ValueError("negative count")
    if type(n) is int and n < 0:
        raise ValueError("negative count")
    return mkrope([Blob(z3.K(z3.BitVecSort(32), z3.BitVecVal(0, 8)), 0,
                        n.narrowed(0, n.hi) if type(n) is SymInt else n)])


class _BytesOps:
    """operations shared by SymBytes / SymByteArray (get() -> immutable rope)."""

    def __len__(self):
        n = rlen(self.get())
        return n if type(n) is int else CTX.concretize(n)

    def __bool__(self):
        n = rlen(self.get())
        return fork_true(n != 0) if type(n) is not int else n != 0

    def __eq__(self, o):
        if not is_bytesy(o):
            return NotImplemented
        return req(self.get(), o)

    def __ne__(self, o):
        if not is_bytesy(o):
            return NotImplemented
        return bnot(req(self.get(), o))

    def _lex(self, o):
        a, b = all_elems(self.get()), all_elems(o)
        for x, y in zip(a, b):
            e = _el_eq(x, y)
            if e is True:
                continue
            if e is False or not CTX.branch(e):
                r = elem_to_int(x) < elem_to_int(y)
                return -1 if fork_true(r) else 1
        return (len(a) > len(b)) - (len(a) < len(b))

    def __lt__(self, o): return self._lex(o) < 0
    def __le__(self, o): return self._lex(o) <= 0
    def __gt__(self, o): return self._lex(o) > 0
    def __ge__(self, o): return self._lex(o) >= 0

    def __hash__(self):
        """all symbolic byte strings collide, so hashed containers compare them; sx.instr compares them with concrete keys"""
        global SYMKEYS
        SYMKEYS = True
        return 0x5a17

    def __iter__(self):
        for s in segs_of(self.get()):
            if type(s) is tuple:
                for e in s:
                    yield elem_to_int(e)
            else:
                i = 0
                while fork_true(i < s.n):
                    yield elem_to_int(elem(z3.Select(s.arr, as_bv(s.off + i, 32))))
                    i += 1
                    if i > MAX_UNROLL:
                        raise Bound("iterate blob")

    def __reversed__(self):
        return iter([elem_to_int(e) for e in reversed(all_elems(self.get()))])

    def __contains__(self, o):
        if isinstance(o, int):
            ts = [as_z3(elem_to_int(e) == o) for e in all_elems(self.get())]
            return CTX.branch(z3.Or(*ts)) if ts else False
        return self.find(o) >= 0

    def find(self, sub, start=0, end=None):
        if isinstance(sub, int):
            sub = mkbytes_el([int_to_elem(sub)])
        h, nd = all_elems(self.get()), all_elems(sub)
        end = len(h) if end is None else min(int(end), len(h))
        for i in range(int(start), end - len(nd) + 1):
            if fork_true(req(mkbytes_el(h[i:i + len(nd)]), mkbytes_el(nd))):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def startswith(self, p, start=None, end=None):
        x = rslice(self.get(), slice(start, end))
        if isinstance(p, tuple):
            return any(x.startswith(q) if type(x) is bytes else x.startswith(q) for q in p)
        n = rlen(p)
        if fork_true(rlen(x) < n):
            return False
        return req(rslice(x, slice(0, n)), p)

    def endswith(self, p, start=None, end=None):
        x = rslice(self.get(), slice(start, end))
        if isinstance(p, tuple):
            return any(x.endswith(q) for q in p)
        n, m = rlen(p), rlen(x)
        if fork_true(m < n):
            return False
        return req(rslice(x, slice(m - n, m)), p)

    def hex(self, *a):
        x = self.get()
        if type(x) is bytes:
            return x.hex(*a)
        return "<symhex>"

    def decode(self, encoding="utf-8", errors="strict"):
        from . import text
        return text.decode(self, encoding, errors)

    def ljust(self, w, fill=b" "):
        n = w - rlen(self.get())
        return concat([self.get(), sx_repeat(fill, n)]) if fork_true(n > 0) else self.get()

    def rjust(self, w, fill=b" "):
        n = w - rlen(self.get())
        return concat([sx_repeat(fill, n), self.get()]) if fork_true(n > 0) else self.get()

    def _strip(self, chars, l, r):
        if chars is None:
            chars = b" \t\n\r\x0b\f"
        els = all_elems(self.get())
        cs = all_elems(chars)

        def inset(e):
            ts = [_el_eq(e, c) for c in cs]
            if any(t is True for t in ts):
                return True
            ts = [t for t in ts if t is not False]
            return CTX.branch(z3.Or(*ts)) if ts else False
        i, j = 0, len(els)
        while l and i < j and inset(els[i]):
            i += 1
        while r and j > i and inset(els[j - 1]):
            j -= 1
        return mkbytes_el(els[i:j])

    def strip(self, c=None): return self._strip(c, True, True)
    def lstrip(self, c=None): return self._strip(c, True, False)
    def rstrip(self, c=None): return self._strip(c, False, True)

    def join(self, it):
        out = []
        for i, p in enumerate(it):
            if i:
                out.append(self.get())
            out.append(p)
        return concat(out)

    def tobytes(self):
        return self.get()

    def __mul__(self, n):
        if not is_intlike(n):
            return NotImplemented
        return sx_repeat(self.get(), n)
    __rmul__ = __mul__

    def __repr__(self):
        return "<symbytes>"
    __str__ = __repr__

    def __format__(self, spec):
        return "<symbytes>"

    def __buffer__(self, flags):
        raise Unsupported("symbolic bytes reached native code (buffer protocol)")

    def __bytes__(self):
        x = self.get()
        if type(x) is bytes:
            return x
        raise Unsupported("symbolic bytes reached native bytes()")

    def isascii(self):
        ts = [e for e in all_elems(self.get())]
        return mkbool(z3.And(*[as_z3(elem_to_int(e) < 128) for e in ts])) if ts else True

    def _wrap(self, v):
        return SymByteArray(v) if isinstance(self, SymByteArray) else v

    def _map(self, f):
        """element-wise f: 8-bit term -> 8-bit term"""
        out = []
        for e in all_elems(self.get()):
            t = z3.simplify(f(e if type(e) is not int else z3.BitVecVal(e, 8)))
            out.append(t.as_long() if z3.is_bv_value(t) else t)
        return self._wrap(mkbytes_el(out))

    def upper(self):
        return self._map(lambda t: z3.If(z3.And(z3.UGE(t, 97), z3.ULE(t, 122)), t - 32, t))

    def lower(self):
        return self._map(lambda t: z3.If(z3.And(z3.UGE(t, 65), z3.ULE(t, 90)), t + 32, t))

    def swapcase(self):
        return self._map(lambda t: z3.If(z3.And(z3.UGE(t | 32, 97), z3.ULE(t | 32, 122)), t ^ 32, t))

    def translate(self, table, delete=b"", **k):
        delete = k.get("delete", delete)
        if delete:
            return self._wrap(mkbytes_el([e for e in all_elems(self.get())
                                          if not fork_true(mkbool(z3.Or(*[as_z3(elem_to_int(e) == c) for c in delete])))])).translate(table)
        if table is None:
            return self._wrap(self.get())
        arr = z3.K(z3.BitVecSort(8), z3.BitVecVal(0, 8))
        for i, c in enumerate(all_elems(table)):
            arr = z3.Store(arr, z3.BitVecVal(i, 8), c if type(c) is not int else z3.BitVecVal(c, 8))
        return self._map(lambda t: z3.Select(arr, t))

    def _isall(self, f):
        els = all_elems(self.get())
        return mkbool(z3.And(*[f(e if type(e) is not int else z3.BitVecVal(e, 8)) for e in els])) if els else False

    def isdigit(self):
        return self._isall(lambda t: z3.And(z3.UGE(t, 48), z3.ULE(t, 57)))

    def isalpha(self):
        return self._isall(lambda t: z3.And(z3.UGE(t | 32, 97), z3.ULE(t | 32, 122)))

    def isalnum(self):
        return self._isall(lambda t: z3.Or(z3.And(z3.UGE(t | 32, 97), z3.ULE(t | 32, 122)), z3.And(z3.UGE(t, 48), z3.ULE(t, 57))))

    def isspace(self):
        return self._isall(lambda t: z3.Or(t == 32, z3.And(z3.UGE(t, 9), z3.ULE(t, 13))))

    def rfind(self, sub, start=0, end=None):
        if isinstance(sub, int):
            sub = mkbytes_el([int_to_elem(sub)])
        h, nd = all_elems(self.get()), all_elems(sub)
        end = len(h) if end is None else min(int(end), len(h))
        for i in range(end - len(nd), int(start) - 1, -1):
            if fork_true(req(mkbytes_el(h[i:i + len(nd)]), mkbytes_el(nd))):
                return i
        return -1

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def count(self, sub, start=0, end=None):
        x = rslice(self.get(), slice(start, end))
        if isinstance(sub, int):
            sub = mkbytes_el([int_to_elem(sub)])
        if rlen(sub) == 1 if type(rlen(sub)) is int else False:
            c = elem_to_int(all_elems(sub)[0])
            n = 0
            for e in all_elems(x):
                b = elem_to_int(e) == c
                n = n + (b.to_int() if type(b) is SymBool else int(b))
            return n
        return len(mkview(x).split(sub)) - 1

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("bytes.split() on white space")
        x, out, m = self.get(), [], rlen(sep)
        while maxsplit != 0:
            i = mkview(x).find(sep)
            if i < 0:
                break
            out.append(self._wrap(rslice(x, slice(0, i))))
            x = rslice(x, slice(i + m, None))
            maxsplit -= 1
        return out + [self._wrap(x)]

    def partition(self, sep):
        x = self.get()
        i = x.find(sep)
        if i < 0:
            return (self._wrap(x), b"", b"")
        return (self._wrap(rslice(x, slice(0, i))), sep, self._wrap(rslice(x, slice(i + rlen(sep), None))))

    def rpartition(self, sep):
        x = self.get()
        i = x.rfind(sep)
        if i < 0:
            return (b"", b"", self._wrap(x))
        return (self._wrap(rslice(x, slice(0, i))), sep, self._wrap(rslice(x, slice(i + rlen(sep), None))))

    def replace(self, old, new, count=-1):
        if type(rlen(old)) is int and rlen(old) == 1 and type(rlen(new)) is int and rlen(new) == 1 and count < 0:
            a, b = [e if type(e) is not int else z3.BitVecVal(e, 8) for e in (all_elems(old)[0], all_elems(new)[0])]
            return self._map(lambda t: z3.If(t == a, b, t))
        parts = mkview(self.get()).split(old, count)
        out = []
        for i, q in enumerate(parts):
            out += [new, q] if i else [q]
        return self._wrap(concat(out))

    def removeprefix(self, p):
        return self._wrap(rslice(self.get(), slice(rlen(p), None)) if fork_true(self.startswith(p)) else self.get())

    def removesuffix(self, p):
        x = self.get()
        if rlen(p) == 0:
            return self._wrap(x)
        return self._wrap(rslice(x, slice(0, rlen(x) - rlen(p))) if fork_true(self.endswith(p)) else x)

    def center(self, w, fill=b" "):
        raise Unsupported("bytes.center()")

    def __getattr__(self, name):
        # any other bytes method: under-approximate on one concrete value
        if name.startswith("__") or not hasattr(bytes, name):
            raise AttributeError("'bytes' object has no attribute '%s'" % name)
        v = concretize_bytes(self, pick=True)
        return getattr(v, name)


def mkview(x):
    """x as an object with the symbolic methods (also when all its bytes are known)"""
    return x if type(x) is not bytes else SymBytes((tuple(x),))


def concretize_bytes(x, pick=False):
    els = all_elems(x)
    out = []
    for e in els:
        if type(e) is int:
            out.append(e)
        else:
            si = elem_to_int(e)
            out.append(si if type(si) is int else (CTX.pick(si) if pick else CTX.concretize(si)))
    return bytes(out)


class SymBytes(_BytesOps):
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = segs

    @property
    def __class__(self):
        return bytes

    def get(self):
        return self

    def __getitem__(self, i):
        if isinstance(i, slice):
            return rslice(self, i)
        return rget(self, i)

    def __add__(self, o):
        if not is_bytesy(o):
            return NotImplemented
        return concat([self, o])

    def __radd__(self, o):
        if not is_bytesy(o):
            return NotImplemented
        r = concat([o, self])
        return SymByteArray(r) if type(o) is bytearray else r

    __hash__ = _BytesOps.__hash__

    def copy(self):
        raise AttributeError("'bytes' object has no attribute 'copy'")


class SymByteArray(_BytesOps):
    __slots__ = ("v",)

    def __init__(self, v=b""):
        self.v = v

    @property
    def __class__(self):
        return bytearray

    def get(self):
        return self.v

    __hash__ = None

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymByteArray(rslice(self.v, i))
        return rget(self.v, i)

    def __setitem__(self, i, val):
        n = rlen(self.v)
        if isinstance(i, slice):
            if i.step is not None and int(i.step) != 1:
                els = all_elems(self.v)
                els[slice(None if i.start is None else int(i.start), None if i.stop is None else int(i.stop),
                          int(i.step))] = all_elems(to_rope(val))
                self.v = mkbytes_el(els)
                return
            a = clamp_index(i.start, n, 0)
            b = clamp_index(i.stop, n, n)
            if fork_true(b < a):
                b = a
            l, r = split(self.v, a)
            _, r2 = split(self.v, b)
            self.v = concat([l, to_rope(val), r2])
            return
        if not isinstance(i, int):
            i = i.__index__()
        if fork_true(i < 0):
            i = i + n
            if fork_true(i < 0):
                raise IndexError("bytearray index out of range")
        if fork_true(i >= n):
            raise IndexError("bytearray index out of range")
        e = int_to_elem(val, "byte")
        l, r = split(self.v, i)
        _, r2 = split(r, 1)
        self.v = concat([l, mkbytes_el([e]), r2])

    def __delitem__(self, i):
        if isinstance(i, slice):
            self[i] = b""
        else:
            n = rlen(self.v)
            if fork_true(i < 0):
                i = i + n
            self.__setitem__(slice(i, i + 1), b"")

    def extend(self, it):
        self.v = concat([self.v, to_rope(it)])

    def append(self, x):
        self.v = concat([self.v, mkbytes_el([int_to_elem(x, "byte")])])

    def insert(self, i, x):
        self[i:i] = mkbytes_el([int_to_elem(x, "byte")])

    def pop(self, i=-1):
        v = self[i]
        del self[i]
        return v

    def clear(self):
        self.v = b""

    def reverse(self):
        self.v = mkbytes_el(all_elems(self.v)[::-1])

    def copy(self):
        return SymByteArray(self.v)

    def __iadd__(self, o):
        if not is_bytesy(o):
            raise TypeError("can't concat %s to bytearray" % type(o).__name__)
        self.v = concat([self.v, o])
        return self

    def __add__(self, o):
        if not is_bytesy(o):
            return NotImplemented
        return SymByteArray(concat([self.v, o]))

    def __radd__(self, o):
        if not is_bytesy(o):
            return NotImplemented
        return concat([o, self.v])

    def __imul__(self, n):
        self.v = sx_repeat(self.v, n)
        return self


class SymView(_BytesOps):
    """memoryview over a rope or a SymByteArray region."""
    __slots__ = ("base", "a", "b")

    def __init__(self, base, a=0, b=None):
        self.base, self.a = base, a
        self.b = rlen(base) if b is None else b

    @property
    def __class__(self):
        return memoryview

    def get(self):
        v = self.base.v if type(self.base) is SymByteArray else self.base
        return rslice(v, slice(self.a, self.b))

    @property
    def nbytes(self):
        return rlen(self.get())

    @property
    def obj(self):
        return self.base

    def __getitem__(self, i):
        if isinstance(i, slice):
            n = self.b - self.a
            x = clamp_index(i.start, n, 0)
            y = clamp_index(i.stop, n, n)
            if fork_true(y < x):
                y = x
            return SymView(self.base, self.a + x, self.a + y)
        return rget(self.get(), i)

    def __setitem__(self, i, val):
        if type(self.base) is not SymByteArray:
            raise TypeError("cannot modify read-only memory")
        if isinstance(i, slice):
            n = self.b - self.a
            x = clamp_index(i.start, n, 0)
            y = clamp_index(i.stop, n, n)
            if not fork_true(rlen(val) == y - x):
                raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
            self.base[self.a + x:self.a + y] = val
        else:
            self.base[self.a + i] = val

    def release(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def cast(self, *a): return self
    __hash__ = _BytesOps.__hash__


def to_rope(x):
    """argument of bytearray.extend / slice assignment -> rope"""
    if is_bytesy(x):
        return mkrope(segs_of(x))
    if isinstance(x, str):
        raise TypeError("expected iterable of integers; got: 'str'")
    return mkbytes_el([int_to_elem(v, "byte") for v in x])


class SymStr:
    """string of fixed length; elements: int code point or (BV term of 21 bits)."""
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = tuple(cs)

    @property
    def __class__(self):
        return str

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __iter__(self):
        for c in self.cs:
            yield mkstr([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.cs[i])
        return mkstr([self.cs[i]])

    def __eq__(self, o):
        if type(o) is str:
            oc = [ord(c) for c in o]
        elif type(o) is SymStr:
            oc = o.cs
        else:
            return NotImplemented
        if len(oc) != len(self.cs):
            return False
        ts = []
        for a, b in zip(self.cs, oc):
            if type(a) is int and type(b) is int:
                if a != b:
                    return False
                continue
            x = z3.BitVecVal(a, 21) if type(a) is int else a
            y = z3.BitVecVal(b, 21) if type(b) is int else b
            ts.append(x == y)
        return mkbool(z3.And(*ts)) if ts else True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def __add__(self, o):
        return mkstr(self.cs + tuple(o.cs if type(o) is SymStr else [ord(c) for c in o]))

    def __radd__(self, o):
        return mkstr(tuple(ord(c) for c in o) + self.cs)

    def __contains__(self, o):
        if len(o) != 1:
            raise Unsupported("substring search in symbolic string")
        return any(bool(mkstr([c]) == o) for c in self.cs)

    def encode(self, enc="utf-8", errors="strict"):
        els = []
        for c in self.cs:
            si = c if type(c) is int else mkint(c, 0, 0x10ffff)
            if not fork_true(si < 128):
                raise Unsupported("encode of non-ASCII symbolic string")
            els.append(int_to_elem(si))
        return mkbytes_el(els)

    def __hash__(self):
        return hash(self.conc())

    def conc(self, pick=False):
        out = []
        for c in self.cs:
            si = c if type(c) is int else mkint(c, 0, 0x10ffff)
            out.append(chr(si if type(si) is int else (CTX.pick(si) if pick else int(si))))
        return "".join(out)

    def __repr__(self):
        return "<symstr>"
    __str__ = __repr__

    def __format__(self, spec):
        return "<symstr>"

    def isascii(self):
        ts = [as_z3((c if type(c) is int else mkint(c, 0, 0x10ffff)) < 128) for c in self.cs]
        return mkbool(z3.And(*ts)) if ts else True

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(name)
        return getattr(self.conc(pick=True), name)


def mkstr(cs):
    if all(type(c) is int for c in cs):
        return "".join(map(chr, cs))
    return SymStr(cs)
