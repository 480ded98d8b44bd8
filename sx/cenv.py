"""Concrete environment: runs a scenario on the unmodified /repo code with given inputs (replay)."""
import ctypes
import os
import sys
import types

from . import common
from .common import Outcome, Blocked, MemFault, CheckFailed, AssumeFailed


class ConcEnv:
    concrete = True
    SYM = False
    MemFault = MemFault
    Blocked = Blocked
    Outcome = Outcome
    Suspend = common.Suspend
    Fn = common.Fn
    step = staticmethod(common.step)

    def __init__(self, inputs, params):
        self.inputs, self.params = inputs, params
        self.names = {}
        self.observed = []
        self.reached = []
        self.missing = []

    def _name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else "%s!%d" % (name, n)

    def bytes(self, name, n):
        nm = self._name(name)
        v = self.inputs.get(nm)
        if v is None:
            self.missing.append(nm)
            return bytes(n)
        b = bytes.fromhex(v["hex"])
        if len(b) != n:
            self.missing.append(nm)
            b = b[:n].ljust(n, b"\0")
        return b

    def blob(self, name, lo, hi):
        if lo == hi:
            return self.bytes(name, lo)
        lens = self.params.get("lens")
        if lens:
            ls = [x for x in lens if lo <= x <= hi] or [lo]
            return self.bytes(name, ls[self.choice(name + ".len", len(ls))])
        return self.bytes(name, self.int(name + ".n", lo, hi))

    def sblob(self, name, lo, hi):
        return self.bytes(name, lo + self.choice(name + ".len", hi - lo + 1))

    def int(self, name, lo, hi):
        nm = self._name(name)
        v = self.inputs.get(nm)
        if v is None:
            self.missing.append(nm)
            return lo
        return v

    def bool(self, name):
        nm = self._name(name)
        v = self.inputs.get(nm)
        if v is None:
            self.missing.append(nm)
            return False
        return v

    def choice(self, name, n):
        if n == 1:
            return 0
        return self.int(name, 0, n - 1)

    @staticmethod
    def And(*x): return all(x)
    @staticmethod
    def Or(*x): return any(x)
    @staticmethod
    def Not(x): return not x
    @staticmethod
    def Implies(a, b): return (not a) or bool(b)
    @staticmethod
    def Iff(a, b): return bool(a) == bool(b)
    @staticmethod
    def truth(x): return bool(x)

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, cond, label, detail=""):
        if not cond:
            raise CheckFailed(label, detail)

    def fail(self, label, detail=""):
        self.check(False, label, detail)

    def reach(self, label):
        self.reached.append(label)

    def observe(self, name, v):
        self.observed.append([name, canon(v)])

    def attempt(self, f, *a, **k):
        try:
            return Outcome(True, f(*a, **k))
        except Exception as e:
            return Outcome(False, exc=e)

    def run(self, coro):
        return common.drive(coro)

    def arun(self, f, *a, **k):
        try:
            return Outcome(True, common.drive(f(*a, **k)))
        except Exception as e:
            return Outcome(False, exc=e)

    def in_thread(self, f):
        """run f in a thread without an event loop"""
        import threading
        r = [None, None]

        def body():
            try:
                r[0] = f()
            except BaseException as e:
                r[1] = e
        t = threading.Thread(target=body)
        t.start()
        t.join()
        if r[1] is not None:
            raise r[1]
        return r[0]

    def imp(self, name):
        import importlib
        return importlib.import_module(name)

    def install(self, name, module):
        sys.modules[name] = module

    def set_library(self, factory):
        ctypes.cdll.LoadLibrary = factory
        ctypes.CDLL = factory

    def set_urandom(self, f):
        os.urandom = f

    # C memory
    def _target(self, arg):
        """-> (address-able object, size)"""
        if arg is None:
            raise MemFault("NULL")
        o = getattr(arg, "_obj", None)
        if o is not None:
            arg = o
        if isinstance(arg, bytes):
            return arg, len(arg)
        if isinstance(arg, (ctypes.Array, ctypes.Structure, ctypes._SimpleCData)):
            return arg, ctypes.sizeof(arg)
        raise TypeError("wrong type")

    def c_read(self, arg, n):
        o, size = self._target(arg)
        if n < 0 or n > size:
            raise MemFault("read of %d bytes from %d" % (n, size))
        return bytes(memoryview(o).cast("B")[:n]) if not isinstance(o, bytes) else o[:n]

    def c_write(self, arg, data):
        o, size = self._target(arg)
        if len(data) > size:
            raise MemFault("write of %d bytes to %d" % (len(data), size))
        if isinstance(o, bytes):
            RAW_MEMMOVE(o, bytes(data), len(data))
        else:
            RAW_MEMMOVE(ctypes.addressof(o), bytes(data), len(data))

    def c_size(self, arg):
        return self._target(arg)[1]

    def c_int(self, arg):
        if isinstance(arg, ctypes._SimpleCData):
            return arg.value
        return arg

    def is_cint(self, arg):
        return isinstance(arg, (ctypes._SimpleCData, int))

    def c_set_int(self, ref, v):
        o = getattr(ref, "_obj", ref)
        if o is None:
            return
        o.value = v

    def concat(self, *parts):
        return b"".join(bytes(p) for p in parts)

    def zeros(self, n):
        return bytes(n)

    def length(self, x):
        return len(x)

    def same(self, a, b):
        return bytes(a) == bytes(b)

    def isbytes(self, x):
        return type(x) is bytes


def canon(v):
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, (bytes, bytearray, memoryview)):
        return {"hex": bytes(v).hex()}
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, BaseException):
        return type(v).__name__
    if isinstance(v, type):
        return v.__name__
    if isinstance(v, float):
        return v
    return "<%s>" % type(v).__name__


# a bounds-checking ctypes.memmove: replay-time sanitizer for raw copies of the code under test
RAW_MEMMOVE = ctypes.memmove
RAW_ADDRESSOF = ctypes.addressof
_sizes = {}


def _room(o):
    """bytes from the start of o to the end of the memory block it lives in"""
    root = o
    while getattr(root, "_b_base_", None) is not None:
        root = root._b_base_
    try:
        return RAW_ADDRESSOF(root) + ctypes.sizeof(root) - RAW_ADDRESSOF(o)
    except TypeError:
        return None


def checked_addressof(o):
    a = RAW_ADDRESSOF(o)
    _sizes[a] = _room(o)
    return a


def _size_of(x):
    if isinstance(x, int):
        return _sizes.get(x)
    if isinstance(x, (bytes, bytearray)):
        return len(x)
    x = getattr(x, "_obj", x)
    if isinstance(x, ctypes._Pointer):
        keep = (x._objects or {}).get("1") if isinstance(x._objects, dict) else None
        try:
            return _room(keep) if RAW_ADDRESSOF(keep) == RAW_ADDRESSOF(x.contents) else None
        except (TypeError, ValueError):
            return None
    if isinstance(x, ctypes._SimpleCData) and x._type_ in "PzZO":
        return _sizes.get(x.value) if x._type_ == "P" else None
    return _room(x)


def checked_memmove(dst, src, n):
    for x in (dst, src):
        s = _size_of(x)
        if s is not None and n > s:
            raise MemFault("memmove of %d bytes, object has %d" % (n, s))
    return RAW_MEMMOVE(dst, src, n)
