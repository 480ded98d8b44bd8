"""C19: relay and tunnels are transparent."""
import types
from scen.world import World, Chan, pair
from scen.sess import honest_pair, run_pair, make_client, make_server
ASSUMPTIONS = ["multiprocessing.Pipe is modelled as two message FIFOs (the real Pipe at replay)"]


class Refused(Exception):
    pass


class Inner:
    """the wrapped channel: records every call, results and errors are arbitrary"""

    def __init__(self, env, size):
        self.env, self.size, self.calls, self.reads, self.closed, self.fault = env, size, [], [], 0, None

    def _fault(self):
        if self.fault is not None:
            e, self.fault = self.fault, None
            raise e

    def _read(self, how):
        self.calls.append(("read", how))
        self._fault()
        m = self.env.bytes("in", self.size) if isinstance(self.size, int) else self.env.blob("in", *self.size)
        self.reads.append(m)
        return m

    def _write(self, how, ms, k):
        self.calls.append(("write", how, ms, k))
        self._fault()
        return self.wres

    wres = None

    async def read(self): return self._read("async")
    def read_sync(self): return self._read("sync")
    async def write(self, msg, *args, **k): return self._write("async", (msg,) + args, k)
    def write_sync(self, msg, *args, **k): return self._write("sync", (msg,) + args, k)

    def close(self):
        self.closed += 1
        self._fault()


class Log:
    def __init__(self): self.n = 0
    def info(self, *a, **k): self.n += 1
    def __getattr__(self, n): return self.info


def errors(env):
    from saltchannel.exceptions import ComException, BadPeer
    return [None, Refused("x"), ComException("x")][env.choice("fault", 3)]


def wrap(env, inner, log):
    from saltchannel.dev.mitm_channel import MitmChannel
    if log == "none":
        return MitmChannel(inner)
    c = MitmChannel(inner, log=Log())
    if log == "buffered":
        c.log_buffering = True
    return c


def relay(env, log="none", ops=2, depth=1, size=None, sync=False):
    """any operations through the relay"""
    inner = Inner(env, size if size is not None else ((0, 70000) if log == "none" else 5))
    c = wrap(env, inner, log)
    for i in range(depth - 1):
        c = wrap(env, c, log)
    nr = nw = 0
    for i in range(ops):
        n0 = len(inner.calls)
        err = inner.fault = errors(env)
        if env.choice("op", 2):
            o = env.attempt(c.read_sync) if sync else env.arun(c.read)
            env.check(len(inner.calls) == n0 + 1, "one read of the wrapped channel")
            env.check(inner.calls[-1] == ("read", "sync" if sync else "async"), "one read of the wrapped channel")
            if err is None:
                env.check(o.ok, "read failed: " + o.name())
                m = inner.reads[-1]
                env.check(len(o.value) == len(m), "message read")
                env.check(o.value == m, "message read")
                nr = nr + len(m)
                env.reach("read")
        else:
            k = 1 + env.choice("n", 3)
            sz = inner.size
            ms = [env.bytes("m", sz - (j == 1)) if isinstance(sz, int) else env.blob("m", 0, 70000) for j in range(k)]
            last = env.bool("last")
            kw = {"is_last": last} if env.choice("kw", 2) else {}
            o = env.attempt(c.write_sync, *ms, **kw) if sync else env.arun(c.write, *ms, **kw)
            env.check(len(inner.calls) == n0 + 1, "one write to the wrapped channel")
            call = inner.calls[-1]
            env.check(call[:2] == ("write", "sync" if sync else "async"), "one write to the wrapped channel")
            env.check(len(call[2]) == k, "batch boundary")
            for x, y in zip(call[2], ms):
                env.check(env.isbytes(x) and len(x) == len(y), "message written")
                env.check(x == y, "message written")
            env.check(set(call[3]) <= {"is_last"}, "keyword arguments")
            env.check(env.Iff(env.truth(call[3].get("is_last", False)), kw.get("is_last", False)), "last flag")
            if err is None:
                env.check(o.ok, "write failed: " + o.name())
                env.check(o.value is None, "result of write")
                for m in ms:
                    nw = nw + len(m)
                env.reach("write")
        if err is not None:
            env.check((not o.ok) and o.exc is err, "the error of the wrapped channel is not passed on: " + o.name())
            env.reach("error")
        x = c
        for d in range(depth):
            env.check(x.counter_read == nr, "read counter")
            env.check(x.counter_write == nw, "write counter")
            x = x.orig if d < depth - 1 else None
    env.check(inner.closed == 0, "closed by itself")
    c.close()
    env.check(inner.closed == 1, "close is passed on")
    env.reach("end")


def buffers(env, log="none"):
    """messages that are bytearrays or memoryviews"""
    inner = Inner(env, 3)
    c = wrap(env, inner, log)
    raw = env.bytes("m", 3)
    m = bytearray(raw)
    if env.choice("sync", 2):
        c.write_sync(m, raw)
    else:
        env.run(c.write(m, raw))
    call = inner.calls[-1]
    env.check(bytes(call[2][0]) == raw and bytes(call[2][1]) == raw, "message written")
    env.check(c.counter_write == 6, "write counter")
    env.reach("end")


def flush(env):
    """logging administration does not touch the traffic"""
    inner = Inner(env, 3)
    c = wrap(env, inner, ["logged", "buffered", "none"][env.choice("log", 3)])
    for i in range(3):
        op = env.choice("op", 3)
        if op == 0:
            c.flush_log_buffer()
        elif op == 1:
            o = env.arun(c.read)
            env.check(o.ok, "read failed: " + o.name())
            env.check(o.value == inner.reads[-1], "message read")
        else:
            m = env.bytes("m", 2)
            n = len(inner.calls)
            o = env.arun(c.write, m)
            env.check(o.ok, "write failed: " + o.name())
            env.check(len(inner.calls) == n + 1, "one write")
            env.check(inner.calls[-1][2][0] == m, "message written")
    env.check(c.counter_read == 3 * len(inner.reads), "read counter")
    env.reach("end")


def suspend(env, log="none"):
    """operations of the wrapped channel that suspend: counters change only on success"""
    class Slow(Inner):
        async def read(self):
            await env.Suspend("r")
            return self._read("async")

        async def write(self, msg, *args, **k):
            await env.Suspend("w")
            return self._write("async", (msg,) + args, k)
    inner = Slow(env, 3)
    c = wrap(env, inner, log)
    m1, m2 = env.bytes("m", 2), env.bytes("m", 4)
    r, w1, w2 = c.read(), c.write(m1, is_last=False), c.write(m2, is_last=True)
    cos = [r, w1, w2]
    for co in cos:
        env.step(co)
    env.check(c.counter_read == 0 and c.counter_write == 0, "counted before the transfer")
    order = [[0, 1, 2], [2, 1, 0], [1, 0, 2]][env.choice("order", 3)]
    for i in order:
        fin, v = env.step(cos[i])
        env.check(fin, "still suspended")
        if i == 0:
            env.check(v == inner.reads[0], "message read")
    ws = [x for x in inner.calls if x[0] == "write"]
    if order[0] == 2:
        ws.reverse()
    env.check(len(ws) == 2, "two writes")
    env.check(ws[0][2][0] == m1, "first write")
    env.check(ws[1][2][0] == m2, "second write")
    env.check(not ws[0][3].get("is_last", False) and ws[1][3].get("is_last", False) == True, "last flags")
    env.check(c.counter_read == 3, "read counter")
    env.check(c.counter_write == 6, "write counter")
    env.reach("end")


def session(env, log=False, buf=False):
    """a session over the relay: same packets on the wire as without it"""
    w = World(env, forge="never", distinct=True)
    from saltchannel.dev.mitm_channel import MitmChannel
    ks = [w.sig_keys("c.s"), w.enc_keys("c.e"), w.sig_keys("s.s"), w.enc_keys("s.e")]
    m = env.bytes("m", 4)
    seen = []
    from saltchannel.v2.salt_client_session import SaltClientSession
    from saltchannel.v2.salt_server_session import SaltServerSession
    for relayed in (False, True):
        a, b = pair(env)
        ra = MitmChannel(a, log=Log() if log else None) if relayed else a
        rb = MitmChannel(b, log=Log() if log else None) if relayed else b
        cl, sv = SaltClientSession(ks[0], ra), SaltServerSession(ks[2], rb)
        cl.enc_keypair, sv.enc_keypair, cl.buffer_M4, sv.buffer_m2 = ks[1], ks[3], buf, buf
        cl.wanted_server_sig_key = ks[2].pub

        async def client():
            await cl.handshake()
            await cl.app_channel.write(m, m, is_last=True)

        async def server():
            await sv.handshake()
            return [await sv.app_channel.read(), await sv.app_channel.read()]
        r = run_pair(env, client(), server())
        seen.append((a, b, r[1]))
        if relayed:
            n = 0
            for x in a.sent:
                n = n + len(x)
            env.check(ra.counter_write == n, "bytes written")
            env.check(rb.counter_read == n, "bytes read")
    for x, y in zip(seen[0][:2], seen[1][:2]):
        env.check(len(x.writes) == len(y.writes), "number of writes")
        for (p, l), (q, k) in zip(x.writes, y.writes):
            env.check(len(p) == len(q) and env.truth(l) == env.truth(k), "batches")
            for s, t in zip(p, q):
                env.check(s == t, "bytes on the wire")
    env.check(seen[1][2][0] == m and seen[1][2][1] == m, "messages delivered")
    env.reach("end")


# ------------------------------------------------------------------ tunnels
class End:
    """multiprocessing connection"""

    def __init__(self, env, inq, outq):
        self.env, self.inq, self.outq = env, inq, outq

    def send_bytes(self, buf, offset=0, size=None):
        self.outq.append(bytes(buf)[offset:] if size is None else bytes(buf)[offset:offset + size])

    def recv_bytes(self, maxlength=None):
        if not self.inq:
            raise self.env.Blocked("recv on an empty pipe")
        m = self.inq.pop(0)
        if maxlength is not None and len(m) > maxlength:
            raise OSError("bad message length")
        return m

    def send(self, o): self.outq.append(o)
    recv = recv_bytes
    def poll(self, timeout=0.0): return bool(self.inq)
    def close(self): pass


def make_tunnel(env, kind):
    if kind == "mp" and not env.concrete:
        mp = types.ModuleType("multiprocessing")

        def Pipe(duplex=True):
            if not duplex:
                env.fail("one-way pipe")
            q1, q2 = [], []
            return End(env, q1, q2), End(env, q2, q1)
        mp.Pipe = Pipe
        env.install("multiprocessing", mp)
    from saltchannel.dev import tunnel
    return tunnel.TunnelMP() if kind == "mp" else tunnel.Tunnel()


def tunnel(env, kind="mem", ops=4, hi=20000, sync=False):
    """any traffic in both directions of one tunnel"""
    t = make_tunnel(env, kind)
    cs = [t.channel1, t.channel2]
    pend = [[], []]                     # messages on their way to channel i
    for i in range(ops):
        me = env.choice("end", 2) if i else 0
        if pend[me] and env.choice("op", 2):
            o = env.attempt(cs[me].read_sync) if sync else env.arun(cs[me].read)
            env.check(o.ok, "read failed: " + o.name())
            m = pend[me].pop(0)
            env.check(len(o.value) == len(m), "message")
            env.check(o.value == m, "message")
            env.reach("read")
        else:
            k = 1 + env.choice("n", 2)
            ms = [env.blob("m", 0, hi) if j else env.bytes("m", 2 + i) for j in range(k)]
            kw = {"is_last": env.bool("last")}
            o = env.attempt(cs[me].write_sync, *ms, **kw) if sync else env.arun(cs[me].write, *ms, **kw)
            env.check(o.ok, "write failed: " + o.name())
            pend[1 - me] += ms
    for me in range(2):
        for m in pend[me]:
            o = env.arun(cs[me].read)
            env.check(o.ok, "read failed: " + o.name())
            env.check(len(o.value) == len(m), "message")
            env.check(o.value == m, "message")
    env.reach("end")


def many(env, n=6000):
    """many messages under way in the in-memory tunnel, both directions"""
    t = make_tunnel(env, "mem")
    first, last = env.bytes("first", 3), env.bytes("last", 2)
    ms = [first] + [bytes([i & 255, i >> 8]) for i in range(n - 2)] + [last]
    env.run(t.channel1.write(*ms))
    for m in reversed(ms):
        env.run(t.channel2.write(m))
    ok = True
    for m, r in zip(ms, reversed(ms)):
        ok = env.And(ok, t.channel2.read_sync() == m, t.channel1.read_sync() == r)
    env.check(ok, "messages of a long queue")
    env.reach("end")


def two_tunnels(env, kind="mem"):
    """separate tunnels do not mix"""
    t, u = make_tunnel(env, kind), make_tunnel(env, kind)
    m = [env.bytes("m", 2) for _ in range(4)]
    ends = [t.channel1, u.channel1, t.channel2, u.channel2]
    peers = [t.channel2, u.channel2, t.channel1, u.channel1]
    for i in range(4):
        env.run(ends[i].write(m[i]))
    for i in ([0, 1, 2, 3] if env.choice("order", 2) else [3, 2, 1, 0]):
        env.check(env.run(peers[i].read()) == m[i], "message")
    env.reach("end")


S = lambda fn, reach=("end",), **k: dict({"fn": fn, "reach": list(reach)}, **k)
RWE = ("read", "write", "error", "end")
SCENARIOS = [
    S("buffers", args={"log": "none"}), S("buffers", args={"log": "logged"}),
    S("flush", bounds="3 operations"), S("suspend", args={"log": "none"}), S("suspend", args={"log": "logged"}),
    S("session", args={"log": False, "buf": True}), S("session", args={"log": True}),
    S("many", args={"n": 6000}, bounds="6000 messages under way each way", cfg={"max_steps": 10000000, "max_witness": 1}),
    S("many", args={"n": 65000}, bounds="65000 messages under way each way", cfg={"max_steps": 10000000, "max_witness": 1}, tier="thorough"),
    S("two_tunnels", args={"kind": "mem"}), S("two_tunnels", args={"kind": "mp"}),
]
for _s in (False, True):
    _t = ", blocking variants" if _s else ", coroutines"
    SCENARIOS += [
        S("relay", RWE, args={"log": "none", "sync": _s}, bounds="2 operations, batches of 1..3, messages 0..70000 bytes" + _t),
        S("relay", RWE, args={"log": "logged", "sync": _s}, bounds="2 operations, batches of 1..3 short messages, logging" + _t),
        S("relay", RWE, args={"log": "buffered", "sync": _s, "ops": 1}, bounds="batches of 1..3 short messages, buffered logging" + _t),
        S("relay", RWE, args={"log": "none", "depth": 2, "ops": 1, "sync": _s}, bounds="relay of a relay" + _t),
        S("relay", RWE, args={"log": "logged", "size": 1, "ops": 1, "sync": _s}, bounds="messages of 0 and 1 bytes, logging" + _t),
        S("relay", RWE, args={"log": "logged", "size": 1500, "ops": 1, "sync": _s}, bounds="messages of 1499 and 1500 bytes, logging" + _t),
        S("relay", RWE, args={"log": "none", "ops": 3, "sync": _s}, bounds="3 operations, batches of 1..3, messages 0..70000 bytes" + _t, tier="thorough")]
    for _k in ("mem", "mp"):
        SCENARIOS += [
            S("tunnel", ("read", "end"), args={"kind": _k, "ops": 4, "sync": _s}, bounds="4 operations at either end, messages 0..20000 bytes" + _t),
            S("tunnel", ("read", "end"), args={"kind": _k, "ops": 5, "sync": _s}, bounds="5 operations at either end, messages 0..20000 bytes" + _t, tier="thorough")]
