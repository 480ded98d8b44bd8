"""C13: framing over a blocking socket under any fragmentation or failure."""
import socket
from scen.sess import le
ASSUMPTIONS = ["socket model: recv(n) returns 1..n bytes of the stream in order, b'' at end of stream, or raises OSError; sendall sends everything or raises; send may accept a part",
               "at most the stated number of short reads per scenario, afterwards reads return all that was asked for"]


class Sock:
    """stream socket fed with a fixed byte stream"""

    def __init__(self, env, stream=b"", frags=0, fail_at=-1, eof=True):
        self.env, self.stream, self.frags, self.fail_at, self.eof = env, stream, frags, fail_at, eof
        self.pos, self.calls, self.out, self.closed, self.sendfail = 0, 0, [], False, None
        self.max_calls = 200

    def _take(self, n):
        env = self.env
        if n < 0:
            raise ValueError("negative buffersize in recv")
        self.calls += 1
        if self.calls > self.max_calls:
            raise env.Blocked("endless recv loop")
        if self.calls - 1 == self.fail_at:
            raise (OSError("connection reset"), socket.timeout("timed out"), ConnectionResetError("x"),
                   InterruptedError("x"), BlockingIOError("x"))[env.choice("errkind", 5)]
        rem = len(self.stream) - self.pos
        if n == 0:
            return b""
        if rem == 0:
            if not self.eof:
                raise env.Blocked("recv blocks")
            return b""
        m = n if n < rem else rem
        if self.frags > 0 and m > 1:
            self.frags -= 1
            k = env.int("recv", 1, 80000)
            env.assume(k <= m)
        else:
            k = m
        d = self.stream[self.pos:self.pos + k]
        self.pos = self.pos + k
        return d

    def recv(self, n, flags=0):
        return self._take(n)

    def recv_into(self, buf, nbytes=0, flags=0):
        d = self._take(nbytes or len(buf))
        buf[:len(d)] = d
        return len(d)

    def sendall(self, data, flags=0):
        if self.sendfail is not None:
            raise self.sendfail
        self.out.append(bytes(data))

    def send(self, data, flags=0):
        if self.sendfail is not None:
            raise self.sendfail
        n = len(data)
        k = n
        if n > 1:
            k = self.env.int("send", 1, 400000)
            self.env.assume(k <= n)
        self.out.append(bytes(data[:k]))
        return k

    def setblocking(self, x): pass
    def settimeout(self, x): pass
    def setsockopt(self, *a): pass
    def gettimeout(self): return None
    def close(self): self.closed = True
    def shutdown(self, how): pass


def chan(s):
    from saltchannel.channel import SocketChannel
    return SocketChannel(s)


def do(env, f_async, f_sync, sync):
    return env.attempt(f_sync) if sync else env.arun(f_async)


def read_msgs(env, lens=((0, 70000), (0, 70000)), frags=2, sync=True):
    """stream of frames, any fragmentation"""
    ms = [env.blob("m", *l) for l in lens]
    s = Sock(env, env.concat(*[p for m in ms for p in (le(len(m), 4), m)]), frags, eof=False)
    c = chan(s)
    for m in ms:
        o = do(env, c.read, c.read_sync, sync)
        env.check(o.ok, "read failed: " + o.name())
        env.check(env.isbytes(o.value), "type of the message")
        env.check(len(o.value) == len(m), "message length")
        env.check(o.value == m, "message content")
    blocked = False
    try:
        do(env, c.read, c.read_sync, sync)
    except env.Blocked:
        blocked = True
    env.check(blocked, "read returned without data")
    env.reach("end")


def any_prefix(env, hi=3000, frags=1, sync=True):
    """any length prefix followed by any data and end of stream"""
    from saltchannel.exceptions import ComException
    pre, data = env.bytes("prefix", 4), env.blob("data", 0, hi)
    n = int.from_bytes(pre, 'little', signed=True)
    s = Sock(env, env.concat(pre, data), frags)
    c = chan(s)
    o = do(env, c.read, c.read_sync, sync)
    good = env.And(n >= 0, n <= len(data))
    env.check(env.Iff(good, o.ok), "message returned iff it is complete and the length is not negative")
    if o.ok:
        env.check(len(o.value) == n, "length")
        env.check(o.value == data[:n], "content")
        env.reach("message")
    else:
        env.check(isinstance(o.exc, ComException), "raised " + o.name())
        env.reach("error")


def negative(env, sync=True, hi=300):
    """a negative length prefix is an error at once, even when the peer keeps the connection open"""
    from saltchannel.exceptions import ComException
    n = env.int("n", -2 ** 31, -1)
    m = env.blob("m", 0, 50)
    s = Sock(env, env.concat(le(len(m), 4), m, n.to_bytes(4, 'little', signed=True), env.blob("data", 0, hi)), 1, eof=False)
    c = chan(s)
    o = do(env, c.read, c.read_sync, sync)
    env.check(o.ok, "read failed: " + o.name())
    env.check(o.value == m, "content")
    try:
        o = do(env, c.read, c.read_sync, sync)
    except env.Blocked:
        env.fail("waits for more data after a negative length")
    env.check((not o.ok) and isinstance(o.exc, ComException), "negative length: " + o.name())
    env.reach("end")


def truncated(env, hi=2000, frags=2, sync=True):
    """two frames cut anywhere: complete ones are delivered, then the communication error"""
    from saltchannel.exceptions import ComException
    m1, m2 = env.blob("m", 0, hi), env.blob("m", 0, hi)
    full = env.concat(le(len(m1), 4), m1, le(len(m2), 4), m2)
    cut = env.int("cut", 0, 2 * hi + 8)
    env.assume(cut < len(full))
    s = Sock(env, full[:cut], frags)
    c = chan(s)
    o = do(env, c.read, c.read_sync, sync)
    if cut >= 4 + len(m1):
        env.check(o.ok, "complete message not delivered: " + o.name())
        env.check(o.value == m1, "content")
        o = do(env, c.read, c.read_sync, sync)
        env.reach("one")
    env.check((not o.ok) and isinstance(o.exc, ComException), "premature end of stream: " + o.name())
    o = do(env, c.read, c.read_sync, sync)
    env.check((not o.ok) and isinstance(o.exc, ComException), "read after end of stream: " + o.name())
    env.reach("end")


def faults(env, frags=2, sync=True):
    """the socket fails at any recv"""
    from saltchannel.exceptions import ComException
    m1, m2 = env.bytes("m", 5), env.bytes("m", 3)
    at = env.choice("fail at", 7)
    s = Sock(env, env.concat(le(5, 4), m1, le(3, 4), m2), frags, fail_at=at, eof=True)
    c = chan(s)
    for m in (m1, m2):
        before = s.calls
        o = do(env, c.read, c.read_sync, sync)
        if before <= at < s.calls:
            env.check((not o.ok) and isinstance(o.exc, ComException), "socket failure: " + o.name())
            env.reach("failed")
            return
        env.check(o.ok, "read failed: " + o.name())
        env.check(o.value == m, "content")
    env.reach("end")


def write(env, n=2, hi=70000, sync=True):
    """frames written: 4-byte little-endian length, then the bytes"""
    s = Sock(env)
    c = chan(s)
    want = []
    for i in range(2):
        k = n if i == 0 else 1
        ms = [env.blob("m", 0, hi) for _ in range(k)]
        last = bool(env.choice("last", 2))
        o = env.attempt(c.write_sync, *ms, is_last=last) if sync else env.arun(c.write, *ms, is_last=last)
        env.check(o.ok, "write failed: " + o.name())
        for m in ms:
            want += [le(len(m), 4), m]
    got = env.concat(*s.out)
    exp = env.concat(*want)
    env.check(len(got) == len(exp), "number of bytes on the wire")
    env.check(got == exp, "bytes on the wire")
    env.reach("end")


def write_fault(env, sync=True):
    from saltchannel.exceptions import ComException
    s = Sock(env)
    s.sendfail = (OSError("broken pipe"), socket.timeout("timed out"), BrokenPipeError("x"))[env.choice("kind", 3)]
    c = chan(s)
    ms = [env.blob("m", 0, 300) for _ in range(1 + env.choice("n", 2))]
    o = env.attempt(c.write_sync, *ms) if sync else env.arun(c.write, *ms)
    env.check((not o.ok) and isinstance(o.exc, ComException), "socket failure: " + o.name())
    env.reach("end")


def loopback(env, sizes=(1, 2), hi=70000, frags=2, wsync=True):
    """what one channel writes the other reads, with short reads"""
    a = Sock(env)
    ca = chan(a)
    ms = []
    for n in sizes:
        b = [env.blob("m", 0, hi) for _ in range(n)]
        o = env.attempt(ca.write_sync, *b) if wsync else env.arun(ca.write, *b)
        env.check(o.ok, "write failed")
        ms += b
    cb = chan(Sock(env, env.concat(*a.out), frags))
    for m in ms:
        o = env.arun(cb.read) if wsync else env.attempt(cb.read_sync)
        env.check(o.ok, "read failed: " + o.name())
        env.check(len(o.value) == len(m), "length")
        env.check(o.value == m, "content")
    env.reach("end")


S = lambda fn, reach=("end",), **k: dict({"fn": fn, "reach": list(reach)}, **k)
SCENARIOS = []
for _s in (True, False):
    SCENARIOS += [
        S("read_msgs", args={"sync": _s, "frags": 2}, bounds="2 messages of 0..70000 bytes, first 2 reads short"),
        S("read_msgs", args={"sync": _s, "frags": 3, "lens": [[1, 70000]]}, bounds="1 message of 1..70000 bytes, 3 short reads"),
        S("read_msgs", args={"sync": _s, "frags": 4, "lens": [[0, 6], [3, 3]]}, bounds="messages of 0..6 and 3 bytes, 4 short reads"),
        S("any_prefix", ("message", "error"), args={"sync": _s}, bounds="any prefix, 0..3000 bytes of data, 1 short read"),
        S("negative", args={"sync": _s}, bounds="a message of 0..50 bytes, then any negative prefix and 0..300 bytes, connection kept open, 1 short read"),
        S("truncated", ("one", "end"), args={"sync": _s, "frags": 1}, bounds="2 messages of 0..2000 bytes cut anywhere, 1 short read"),
        S("faults", ("failed", "end"), args={"sync": _s}, bounds="failure at any of the first 7 recv calls, 2 short reads"),
        S("write", args={"sync": _s}, bounds="batch of 2 then 1 message of 0..70000 bytes"),
        S("write_fault", args={"sync": _s}),
        S("loopback", args={"wsync": _s, "frags": 1}, bounds="batches of 1 and 2 messages of 0..70000 bytes, 1 short read"),
    ]
SCENARIOS += [
    S("read_msgs", args={"frags": 5, "lens": [[1, 70000], [1, 70000]]}, bounds="2 messages of 1..70000 bytes, 5 short reads", tier="thorough"),
    S("truncated", ("one", "end"), args={"frags": 3}, bounds="2 messages of 0..2000 bytes cut anywhere, 3 short reads", tier="thorough"),
    S("any_prefix", ("message", "error"), args={"frags": 4, "hi": 70000}, bounds="any prefix, 0..70000 bytes, 4 short reads", tier="thorough"),
]
