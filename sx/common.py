"""Things shared by the symbolic and the concrete environment (no solver import)."""


class Blocked(BaseException):
    """a coroutine suspended and nothing in the scenario can wake it"""


class MemFault(BaseException):
    """out-of-bounds access of C memory"""


class CheckFailed(BaseException):
    def __init__(self, label, detail=""):
        BaseException.__init__(self, label, detail)
        self.label, self.detail = label, detail


class AssumeFailed(BaseException):
    pass


class Outcome:
    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def name(self):
        return "ok" if self.ok else type(self.exc).__name__


class Suspend:
    """awaitable that suspends its coroutine once, handing a tag to the scenario's scheduler"""
    def __init__(self, tag=None, wait=None):
        self.tag, self.wait = tag, wait

    def __await__(self):
        r = yield self
        return r


class Fn:
    """a C function object (accepts argtypes/restype assignments)"""
    def __init__(self, f):
        self.f = f
        self.argtypes = None
        self.restype = None

    def __call__(self, *a):
        return self.f(*a)


def drive(coro, passes=False):
    """run a coroutine that must finish without waiting for anything; passes: bare yields (asyncio.sleep(0)) are allowed"""
    n = 0
    while True:
        try:
            x = coro.send(None)
        except StopIteration as e:
            return e.value
        n += 1
        if not passes or x is not None or n > 1000:
            break
    try:
        coro.close()
    except BaseException:
        pass
    raise Blocked(repr(x))


def step(coro, value=None):
    """advance a coroutine to its next suspension -> (done, value-or-yielded)"""
    try:
        return False, coro.send(value)
    except StopIteration as e:
        return True, e.value


def api_gap(e):
    """the scenario itself (not the code under test) stumbled over a name or signature that is not there: nothing is decided"""
    tb, last = e.__traceback__, None
    while tb is not None:
        if "/sx/" not in tb.tb_frame.f_code.co_filename:
            last = tb
        tb = tb.tb_next
    f = last.tb_frame.f_code.co_filename.replace("\\", "/") if last is not None else ""
    if "/scen/" not in f:
        return False
    m = str(e)
    if isinstance(e, (ImportError, NameError)):
        return True
    if isinstance(e, AttributeError):
        return "NoneType" not in m
    return isinstance(e, TypeError) and ("unexpected keyword" in m or "positional argument" in m)
