"""Symbolic environment of a scenario."""
import asyncio as real_asyncio
import os as real_os
import sys
import time as real_time
import types

import z3
from . import core, instr, mctypes, mstruct, common
from .core import (SymInt, SymBool, SymBytes, SymByteArray, SymView, SymStr, Blob, mkrope, mkbytes_el, mkint, rlen, concat,
                   is_sym, band, bor, bnot, MemoryFault, FoundViolation, fork_true, segs_of, is_bytesy)
from .common import Outcome, Blocked, MemFault

FIXED_MAX = 2100


class ModelLoop:
    """asyncio event loop seen by the code under test: drives a coroutine that only waits for immediate results"""

    def __init__(self):
        self.closed = False

    def run_until_complete(self, coro):
        return common.drive(coro if hasattr(coro, "send") else coro.__await__(), True)

    def create_future(self):
        return ModelFuture()

    def is_running(self): return False
    def is_closed(self): return self.closed
    def close(self): self.closed = True
    def get_debug(self): return False
    def call_soon(self, cb, *a, **k): cb(*a)

    def create_task(self, coro, **k):
        common.drive(coro)


class ModelFuture:
    _asyncio_future_blocking = False

    def __init__(self, loop=None):
        self._done, self._exc, self._res, self._cancelled = False, None, None, False

    def done(self): return self._done
    def cancelled(self): return self._cancelled
    def set_result(self, r): self._done, self._res = True, r
    def set_exception(self, e): self._done, self._exc = True, e

    def result(self):
        if self._exc is not None:
            raise self._exc
        return self._res

    def exception(self): return self._exc
    def add_done_callback(self, cb, **k): pass

    def __await__(self):
        while not self._done:
            yield self
        return self.result()


def proxy(real, name, **over):
    m = types.ModuleType(name)
    for k, v in vars(real).items():
        if not (k.startswith("__") and k not in ("__all__",)):
            setattr(m, k, v)
    for k, v in over.items():
        setattr(m, k, v)
    return m


class NullLogger:
    def __getattr__(self, n):
        return lambda *a, **k: None


class SymEnv:
    concrete = False
    MemFault = MemoryFault
    Blocked = Blocked
    Outcome = Outcome
    Suspend = common.Suspend
    Fn = common.Fn
    step = staticmethod(common.step)
    SYM = True

    def __init__(self, path, space, params):
        self.path, self.space, self.params = path, space, params
        self.loop = ModelLoop()
        self.have_loop = True
        self.known = ()

    # ---- inputs
    def bytes(self, name, n):
        """n arbitrary bytes (n may be symbolic)"""
        return self._fresh(name, n, "bytes")

    def _fresh(self, name, n, kind):
        nm = self.path.unique(name)
        if type(n) is int and n <= FIXED_MAX:
            ts = tuple(z3.BitVec("%s[%d]" % (nm, i), 8) for i in range(n))
            v = mkrope([ts])
            self.path.inputs.append((nm, "bytes", v))
            return v
        arr = z3.Array(nm, z3.BitVecSort(32), z3.BitVecSort(8))
        v = mkrope([Blob(arr, 0, n)])
        self.path.inputs.append((nm, "bytes", v))
        return v

    def blob(self, name, lo, hi):
        """arbitrary bytes of arbitrary length in [lo, hi]"""
        if lo == hi:
            return self.bytes(name, lo)
        lens = self.params.get("lens")
        if lens:
            ls = [x for x in lens if lo <= x <= hi] or [lo]
            return self.bytes(name, ls[self.choice(name + ".len", len(ls))])
        n = self.int(name + ".n", lo, hi)
        return self.bytes(name, n)

    def sblob(self, name, lo, hi):
        """arbitrary bytes of arbitrary length in [lo, hi], one fork per length"""
        return self.bytes(name, lo + self.choice(name + ".len", hi - lo + 1))

    def int(self, name, lo, hi):
        nm = self.path.unique(name)
        w = core.uwidth(lo, hi)
        v = lo
        if lo != hi:
            t = z3.BitVec(nm, w)
            if lo >= 0:
                self.path.assume(core.mkbool(z3.And(z3.UGE(t, lo), z3.ULE(t, hi))))
            else:
                self.path.assume(core.mkbool(z3.And(t >= lo, t <= hi)))
            v = SymInt(t, lo, hi)
        self.path.inputs.append((nm, "int", v))
        return v

    def bool(self, name):
        nm = self.path.unique(name)
        v = SymBool(z3.Bool(nm))
        self.path.inputs.append((nm, "bool", v))
        return v

    def choice(self, name, n):
        """one of range(n), forked"""
        if n == 1:
            return 0
        v = self.int(name, 0, n - 1)
        for i in range(n - 1):
            if fork_true(v == i):
                return i
        return n - 1

    # ---- logic
    And = staticmethod(lambda *x: band(*x))
    Or = staticmethod(lambda *x: bor(*x))
    Not = staticmethod(lambda x: bnot(x))

    @staticmethod
    def Implies(a, b):
        return bor(bnot(a), b)

    @staticmethod
    def Iff(a, b):
        a, b = core.as_bool_term(a), core.as_bool_term(b)
        return core.mkbool(a == b)

    @staticmethod
    def truth(x):
        """bool(x) without forking"""
        return instr.h_bool(x)

    def assume(self, c):
        if not isinstance(c, bool):
            c = bool(c)
        self.path.assume(c)

    def check(self, cond, label, detail=""):
        p = self.path
        p.stats.check_queries += 1
        p.stats.checks[label] = p.stats.checks.get(label, 0) + 1
        if type(cond) is not SymBool:
            if not isinstance(cond, (bool, int)):
                cond = bool(cond)
            if not cond:
                p.ensure_model()
                if not core.refine_ropeeqs(p):
                    raise core.PathInfeasible()
                raise FoundViolation(label, detail)
            return
        t = z3.simplify(cond.t)
        if z3.is_true(t):
            return
        if p._holds_in_model(t) is False:
            r, m = z3.sat, p.model
        else:
            r = p._check(z3.Not(t))
            m = p.solver.model() if r == z3.sat else None
        if r == z3.sat:
            p.solver.push()
            p.solver.add(z3.Not(t))
            p.model = m
            if core.refine_ropeeqs(p):
                raise FoundViolation(label, detail)
            p.solver.pop()
            p.solver.add(*p.ropelemmas)
            p.model = None
            r = z3.unsat
        if r == z3.unknown:
            p.stats.bounds.append("solver unknown at check %s" % label)
        if p.cfg.get("dump"):
            p.cfg["dump"](p, t, label)
        p.add(t)

    def fail(self, label, detail=""):
        self.check(False, label, detail)

    def reach(self, label):
        self.path.stats.reached[label] = self.path.stats.reached.get(label, 0) + 1

    def observe(self, name, v):
        self.path.observed.append((name, v))

    # ---- running code
    def attempt(self, f, *a, **k):
        try:
            return Outcome(True, instr.Runtime.call(f, *a, **k))
        except Exception as e:
            return Outcome(False, exc=e)

    def run(self, coro):
        return common.drive(coro)

    def arun(self, f, *a, **k):
        """run coroutine function f(*a) -> Outcome"""
        try:
            return Outcome(True, common.drive(f(*a, **k)))
        except Exception as e:
            return Outcome(False, exc=e)

    def in_thread(self, f):
        """run f in a thread without an event loop"""
        saved = self.loop, self.have_loop
        self.loop, self.have_loop = None, False
        try:
            return f()
        finally:
            self.loop, self.have_loop = saved

    def imp(self, name):
        return self.space.load(name)

    def install(self, name, module):
        self.space.models[name] = module

    def set_library(self, factory):
        mctypes.CDLL.factory = staticmethod(factory)

    def set_urandom(self, f):
        self.space.models["os"].urandom = f

    # ---- C memory
    def c_read(self, arg, n):
        if arg is None:
            raise MemoryFault("NULL read")
        a = mctypes.as_addr(arg, False)
        return mctypes.buf_read(a.buf, a.off, n)

    def c_write(self, arg, data):
        if arg is None:
            raise MemoryFault("NULL write")
        a = mctypes.as_addr(arg, True)
        mctypes.buf_write(a.buf, a.off, data)

    def c_size(self, arg):
        a = mctypes.as_addr(arg, False)
        return rlen(a.buf.v) - a.off

    def c_int(self, arg):
        if isinstance(arg, mctypes._Simple):
            return arg.value
        return arg

    def is_cint(self, arg):
        return isinstance(arg, mctypes._Simple) or isinstance(arg, int)

    def c_set_int(self, ref, v):
        o = ref._obj if isinstance(ref, mctypes.Ref) else ref
        if o is None:
            return
        o.value = v

    def concat(self, *parts):
        return concat(parts)

    def zeros(self, n):
        return core.zeros(n)

    def length(self, x):
        return rlen(x)

    def same(self, a, b):
        """bytes equality as a formula (no fork besides length)"""
        return core.req(a, b)

    def isbytes(self, x):
        return type(x) in (bytes, SymBytes)


def default_models(env_holder):
    """models of the standard-library modules that touch the environment or C memory"""
    ct, ctu = mctypes.module()
    st = mstruct.module()
    m = {"ctypes": ct, "ctypes.util": ctu, "struct": st}

    def get_event_loop():
        e = env_holder[0]
        if not e.have_loop:
            raise RuntimeError("There is no current event loop in thread 'X'.")
        return e.loop

    def set_event_loop(l):
        e = env_holder[0]
        e.loop, e.have_loop = l, True
    m["asyncio"] = proxy(real_asyncio, "asyncio", get_event_loop=get_event_loop, set_event_loop=set_event_loop,
                         new_event_loop=ModelLoop, run=common.drive)
    class IncompleteReadError(real_asyncio.IncompleteReadError):
        """without the formatting of (symbolic) sizes into the message"""

        def __init__(self, partial, expected):
            EOFError.__init__(self, "incomplete read")
            self.partial, self.expected = partial, expected
    for sub in ("streams", "events", "coroutines", "futures", "tasks", "locks", "exceptions", "protocols"):
        m["asyncio." + sub] = getattr(real_asyncio, sub)
    m["asyncio"].IncompleteReadError = IncompleteReadError
    m["asyncio.exceptions"] = m["asyncio"].exceptions = proxy(real_asyncio.exceptions, "asyncio.exceptions",
                                                              IncompleteReadError=IncompleteReadError)
    m["os"] = proxy(real_os, "os")
    m["os"].path = real_os.path
    cnt = [0]

    def clock():
        cnt[0] += 1
        return float(cnt[0])
    m["time"] = proxy(real_time, "time", perf_counter=clock, time=clock, monotonic=clock, sleep=lambda s: None)
    import codecs as real_codecs

    def encode(x, encoding="utf-8", errors="strict"):
        if isinstance(x, SymBytes) and encoding in ("hex", "base64"):      # only ever for messages to humans
            return b"<sym%s>" % encoding.encode()
        return real_codecs.encode(x, encoding, errors)
    m["codecs"] = proxy(real_codecs, "codecs", encode=encode)
    lg = types.ModuleType("logging")
    for n in ("info", "debug", "warning", "error", "exception", "critical", "log", "basicConfig"):
        setattr(lg, n, lambda *a, **k: None)
    lg.getLogger = lambda *a: NullLogger()
    lg.NullHandler = lg.StreamHandler = lg.Formatter = lambda *a, **k: NullLogger()
    lg.INFO, lg.DEBUG, lg.WARNING, lg.ERROR = 20, 10, 30, 40
    m["logging"] = lg
    return m
