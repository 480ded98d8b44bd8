"""C14: framing over asyncio streams: any fragmentation, any interleaving of concurrent writers, any failure."""
from scen.sess import le
ASSUMPTIONS = ["the standard library's asyncio.streams source is executed symbolically together with the code under test",
               "event loop and transport are models: data arrives in arbitrary pieces; the transport may pause the protocol at any write and resume later"]
CFG = {"stdlib_instr": {"asyncio.streams": "/usr/lib/python3.12/asyncio/streams.py"}}


class Fut:
    _asyncio_future_blocking = False

    def __init__(self):
        self._d, self._e, self._r, self.cbs = False, None, None, []

    def done(self): return self._d
    def cancelled(self): return False
    def cancel(self, *a): return False
    def exception(self): return self._e

    def result(self):
        if self._e is not None:
            raise self._e
        return self._r

    def set_result(self, r):
        self._d, self._r = True, r

    def set_exception(self, e):
        self._d, self._e = True, e

    def add_done_callback(self, cb, **k): pass
    def remove_done_callback(self, cb): return 0

    def __await__(self):
        while not self._d:
            yield self
        return self.result()


class Loop:
    """what the streams need from an event loop"""

    def __init__(self, env):
        self.env, self.tasks, self.conn = env, [], None

    def create_future(self): return Fut()
    def get_debug(self): return False
    def is_closed(self): return True
    def is_running(self): return True
    def call_soon(self, cb, *a, **k): cb(*a)
    def call_exception_handler(self, ctx): pass

    def create_task(self, co, **k):
        self.tasks.append(co)
        return Fut()

    def run_until_complete(self, co):
        return self.env.run(co)

    async def create_connection(self, factory, host=None, port=None, **k):
        p = factory()
        t = Transport(self.env, p)
        self.conn = (t, p)
        p.connection_made(t)
        return t, p

    async def create_server(self, factory, host=None, port=None, **k):
        self.factory = factory
        return "server"


class Transport:
    def __init__(self, env, proto, pauses=False):
        self.env, self.proto, self.out, self.closed, self.fail = env, proto, [], False, None
        self.pauses, self.paused, self.reading = pauses, False, True

    def write(self, data):
        if self.fail is not None:
            raise self.fail
        self.out.append(bytes(data))
        if self.pauses and not self.paused and self.env.choice("pause", 2):
            self.paused = True
            self.proto.pause_writing()

    def writelines(self, parts):
        self.write(b"".join(parts))

    def resume(self):
        self.paused = False
        self.proto.resume_writing()

    def pause_reading(self): self.reading = False
    def resume_reading(self): self.reading = True
    def is_closing(self): return self.closed
    def close(self): self.closed = True
    def abort(self): self.closed = True
    def get_extra_info(self, n, default=None): return default
    def set_write_buffer_limits(self, *a, **k): pass
    def get_write_buffer_size(self): return 0
    def is_reading(self): return self.reading


def connect(env, side="client", limit=None):
    """-> channel, transport, protocol, keep-alive objects"""
    from saltchannel.dev import client_server_a as cs
    from saltchannel.channel import AsyncioChannel
    loop = Loop(env)
    k = {} if limit is None else {"limit": limit}
    if side == "client":
        reader, writer = env.run(cs.open_saltchannel_connection("h", 1, loop=loop, **k))
        t, p = loop.conn
    else:
        got = []
        env.run(cs.start_saltchannel_server(lambda r, w: got.append((r, w)), "h", 1, loop=loop, **k))
        p = loop.factory()
        t = Transport(env, p)
        p.connection_made(t)
        reader, writer = got[0]
    return AsyncioChannel(reader, writer, loop=loop), t, p


class Task:
    """a read or write in progress"""

    def __init__(self, env, co):
        self.env, self.co, self.fin, self.value, self.exc, self.wait = env, co, False, None, None, None

    def runnable(self):
        return not self.fin and (self.wait is None or not hasattr(self.wait, "done") or self.wait.done())

    def step(self):
        try:
            self.fin, v = self.env.step(self.co)
            if self.fin:
                self.value = v
            else:
                self.wait = v
        except Exception as e:
            self.fin, self.exc = True, e

    def settle(self):
        n = 0
        while self.runnable():
            self.step()
            n += 1
            if n > 50:
                raise self.env.Blocked("busy loop")


def frame(m):
    return [le(len(m), 4), m]


def read_msgs(env, lens=((0, 3000), (0, 3000)), cuts=2, side="client", limit=None):
    """frames arriving in arbitrary pieces"""
    ch, t, p = connect(env, side, limit)
    ms = [env.blob("m", *l) for l in lens]
    stream = env.concat(*[x for m in ms for x in frame(m)])
    pos, pieces = 0, []
    for i in range(cuts):
        c = env.int("cut", 0, sum(l[1] + 4 for l in lens))
        env.assume(c >= pos)
        env.assume(c <= len(stream))
        pieces.append(stream[pos:c])
        pos = c
    pieces.append(stream[pos:])
    i = 0
    for m in ms:
        r = Task(env, ch.read())
        r.settle()
        while not r.fin:
            env.check(i < len(pieces), "message not delivered although all data arrived")
            if len(pieces[i]):
                p.data_received(pieces[i])
            i += 1
            r.settle()
        env.check(r.exc is None, "read failed: %s" % type(r.exc).__name__)
        env.check(env.isbytes(r.value), "type of the message")
        env.check(len(r.value) == len(m), "message length")
        env.check(r.value == m, "message content")
    while i < len(pieces):
        if len(pieces[i]):
            p.data_received(pieces[i])
        i += 1
    r = Task(env, ch.read())
    r.settle()
    env.check(not r.fin, "read returned without data")
    env.reach("end")


def any_prefix(env, hi=2000, side="client"):
    """any prefix, any amount of data, then end of stream or a transport error"""
    from saltchannel.exceptions import ComException
    ch, t, p = connect(env, side)
    pre, data = env.bytes("prefix", 4), env.blob("data", 0, hi)
    n = int.from_bytes(pre, 'little', signed=True)
    kind = env.choice("end", 3)
    raw = env.concat(pre, data)
    c = env.int("cut", 0, hi + 4)
    env.assume(c <= len(raw))
    r = Task(env, ch.read())
    r.settle()
    for x in (raw[:c], raw[c:]):
        if len(x):
            p.data_received(x)
        r.settle()
    if not r.fin:
        env.check(env.Or(len(raw) < 4, n >= 0), "waits for more data after a negative length")
        if kind == 0:
            p.eof_received()
        elif kind == 1:
            p.connection_lost(None)
        else:
            p.connection_lost(ConnectionResetError("reset"))
        r.settle()
        env.check(r.fin, "read hangs at the end of the stream")
    ok = r.exc is None
    env.check(env.Iff(env.And(n >= 0, n <= len(data)), ok), "message returned iff it is complete and the length is not negative")
    if ok:
        env.check(len(r.value) == n, "length")
        env.check(r.value == data[:n], "content")
        env.reach("message")
    else:
        env.check(isinstance(r.exc, ComException), "raised %s" % type(r.exc).__name__)
        env.reach("error")


def truncated(env, hi=600, side="client"):
    """frames cut anywhere, then end of stream"""
    from saltchannel.exceptions import ComException
    ch, t, p = connect(env, side)
    m1, m2 = env.blob("m", 0, hi), env.blob("m", 0, hi)
    full = env.concat(*(frame(m1) + frame(m2)))
    cut = env.int("cut", 0, 2 * hi + 8)
    env.assume(cut < len(full))
    raw = full[:cut]
    if len(raw):
        p.data_received(raw)
    p.eof_received()
    r = Task(env, ch.read())
    r.settle()
    if cut >= 4 + len(m1):
        env.check(r.fin and r.exc is None, "complete message not delivered")
        env.check(r.value == m1, "content")
        r = Task(env, ch.read())
        r.settle()
        env.reach("one")
    env.check(r.fin, "hangs at end of stream")
    env.check(isinstance(r.exc, ComException), "premature end of stream")
    r = Task(env, ch.read())
    r.settle()
    env.check(r.fin and isinstance(r.exc, ComException), "read after end of stream")
    env.reach("end")


def writers(env, batches=((2, 1), (2,)), side="client", mlen=3, hi=0):
    """tasks writing batches concurrently; the transport pauses and resumes at any point"""
    ch, t, p = connect(env, side)
    t.pauses = True
    todo, tasks, started = [], [], []
    for i, bs in enumerate(batches):
        outs = [[env.blob("w%d" % i, 0, hi) if hi else env.bytes("w%d" % i, mlen + j) for j in range(n)] for n in bs]
        todo.append(outs)

        async def writer(outs=outs):
            for ms in outs:
                await ch.write(*ms)
        tasks.append(Task(env, writer()))
    steps = 0
    while not all(x.fin for x in tasks):
        ready = [x for x in tasks if x.runnable()]
        opts = len(ready) + (1 if t.paused else 0)
        env.check(opts > 0, "writers wait although the transport is not paused")
        steps += 1
        if steps > 60:
            raise env.Blocked("writers never finish")
        i = env.choice("sched", opts)
        if i < len(ready):
            ready[i].step()
        else:
            t.resume()
            env.reach("resumed")
    for x in tasks:
        env.check(x.exc is None, "write failed: %s" % type(x.exc).__name__)
    got = env.concat(*t.out)
    flat = [[env.concat(*[q for m in ms for q in frame(m)]) for ms in outs] for outs in todo]
    env.check(merges(env, got, flat), "batches are contiguous on the wire and in order per writer")
    env.reach("end")


def merges(env, got, seqs):
    """formula: got is an interleaving of whole batches"""
    if not any(seqs):
        return len(got) == 0
    r = False
    for i, s in enumerate(seqs):
        if s:
            h = s[0]
            if len(got) >= len(h):
                c = env.And(env.same(got[:len(h)], h), merges(env, got[len(h):], [x[1:] if j == i else x for j, x in enumerate(seqs)]))
                r = env.Or(r, c)
    return r


def write_read(env, side="client", hi=70000):
    """what one side writes the other reads"""
    a, ta, pa = connect(env, "client")
    b, tb, pb = connect(env, "server")
    ms = []
    for n in (1, 2):
        x = [env.blob("m", 0, hi) for _ in range(n)]
        o = env.arun(a.write, *x)
        env.check(o.ok, "write failed: " + o.name())
        env.check(o.value is None, "write result")
        ms += x
    for d in ta.out:
        pb.data_received(d)
    for m in ms:
        o = env.arun(b.read)
        env.check(o.ok, "read failed: " + o.name())
        env.check(len(o.value) == len(m), "length")
        env.check(o.value == m, "content")
    env.reach("end")


def write_faults(env, side="client"):
    """transport errors while writing"""
    from saltchannel.exceptions import ComException
    ch, t, p = connect(env, side)
    kind = env.choice("kind", 5)
    if kind == 0:
        t.fail = OSError("broken pipe")
    elif kind == 1:
        p.connection_lost(ConnectionResetError("reset"))
    elif kind == 2:
        p.connection_lost(None)
    elif kind == 3:
        t.pauses = True
    elif kind == 4:
        t.fail = RuntimeError("unable to perform operation; the handler is closed")
    w = Task(env, ch.write(env.blob("m", 0, 50), env.blob("m", 0, 50)))
    w.settle()
    if kind == 3:
        if not w.fin:
            p.connection_lost(ConnectionResetError("reset"))
            w.settle()
            env.reach("lost while paused")
        else:
            return
    env.check(w.fin, "write hangs")
    env.check(isinstance(w.exc, ComException), "transport error: %s" % type(w.exc).__name__)
    env.reach("end")


S = lambda fn, reach=("end",), **k: dict({"fn": fn, "reach": list(reach)}, **dict(k, cfg=dict(CFG, **k.get("cfg", {}))))
SCENARIOS = []
for _s in ("client", "server"):
    SCENARIOS += [
        S("read_msgs", args={"side": _s, "cuts": 2, "lens": [[0, 3000], [2, 2]]}, bounds="messages of 0..3000 and 2 bytes in 3 arbitrary pieces"),
        S("any_prefix", ("message", "error"), args={"side": _s}, bounds="any prefix, 0..2000 bytes of data in 2 pieces, three kinds of end"),
        S("truncated", ("one", "end"), args={"side": _s}, bounds="2 messages of 0..600 bytes cut anywhere"),
        S("writers", ("end", "resumed"), args={"side": _s}, bounds="2 writers, batches of 2+1 and 2 messages, all schedules and pauses"),
        S("write_faults", ("end", "lost while paused"), args={"side": _s}),
    ]
SCENARIOS += [
    S("read_msgs", args={"lens": [[0, 200000]], "cuts": 2}, bounds="1 message of 0..200000 bytes (beyond the stream limit) in 3 pieces"),
    S("read_msgs", args={"lens": [[0, 40], [3, 3]], "cuts": 2, "limit": 8}, bounds="messages of 0..40 and 3 bytes, stream limit 8"),
    S("read_msgs", args={"cuts": 1}, bounds="2 messages of 0..3000 bytes in 2 arbitrary pieces"),
    S("read_msgs", args={"cuts": 2}, bounds="2 messages of 0..3000 bytes in 3 arbitrary pieces", tier="thorough"),
    S("write_read", bounds="batches of 1 and 2 messages of 0..70000 bytes"),
    S("writers", ("end", "resumed"), args={"batches": [[3], [2]]}, bounds="2 writers, batches of 3 and 2 messages, all schedules and pauses"),
    S("writers", ("end", "resumed"), args={"batches": [[2], [1]], "hi": 3000}, bounds="2 writers, messages of 0..3000 bytes", tier="thorough"),
    S("writers", ("end", "resumed"), args={"batches": [[2], [2], [1]]}, bounds="3 writers, all schedules and pauses", tier="thorough"),
    S("writers", ("end", "resumed"), args={"batches": [[2, 2], [2, 1]]}, bounds="2 writers, 2 batches each", tier="thorough"),
    S("read_msgs", args={"cuts": 4}, bounds="2 messages of 0..3000 bytes in 5 arbitrary pieces", tier="thorough"),
]
