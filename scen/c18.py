"""C18: blocking operations behave exactly like the coroutines they belong to."""
import asyncio
from scen.world import World, Chan
from scen.sess import make_client, make_server, AdvChan, le
ASSUMPTIONS = ["two instances are given the same inputs, one used through the coroutines, one through the blocking twins; the event loop is a model driving one coroutine (the real asyncio loop at replay)"]


class Yield:
    def __await__(self):
        yield


class Lower(Chan):
    last_flag = False


def both(env, f_async, f_sync, *a, **k):
    """same call through both interfaces -> the two outcomes, compared"""
    env.check(callable(f_sync), "no blocking twin")
    oa = env.arun(f_async, *a, **k)
    os_ = env.attempt(f_sync, *a, **k)
    env.check(oa.ok == os_.ok, "coroutine: %s, blocking: %s" % (oa.name(), os_.name()))
    if oa.ok:
        eq(env, oa.value, os_.value, "result")
    else:
        env.check(type(oa.exc) is type(os_.exc), "coroutine raised %s, blocking %s" % (oa.name(), os_.name()))
    return oa, os_


def eq(env, a, b, what):
    env.check((a is None) == (b is None), what)
    if a is not None:
        if env.isbytes(a) or env.isbytes(b):
            env.check(env.isbytes(a) and env.isbytes(b), what)
            env.check(len(a) == len(b), what)
        env.check(a == b, what)


def wires(env, a, b):
    """two transports saw the same operations"""
    env.check(a.reads == b.reads, "number of reads")
    env.check(len(a.writes) == len(b.writes), "number of writes")
    for (p, l), (q, m) in zip(a.writes, b.writes):
        env.check(env.truth(l) == env.truth(m), "last flag told to the transport")
        env.check(len(p) == len(q), "batch size")
        for x, y in zip(p, q):
            eq(env, x, y, "bytes written")


def twin(env, obj, name):
    f = getattr(obj, name + "_sync", None)
    env.check(f is not None, "no blocking twin of " + name)
    return f


# ------------------------------------------------------------------ the generator of blocking twins
class Err(Exception):
    pass


def model_class(env, base=None):
    import saltchannel.util as util

    class M(*(base or ()), metaclass=util.Syncizer):
        def __init__(self, loop=None):
            self.loop = util.force_event_loop(loop=loop)
            self.log = []

        async def op(self, a, *args, k=1, **kw):
            self.log.append((a, args, k, tuple(sorted(kw.items()))))
            if self.yields:
                await Yield()
                self.log.append("resumed")
            if self.err is not None:
                raise self.err
            return self.res

        async def nop(self):
            self.log.append("nop")

        async def outer(self, a):
            r = await self.op(a, k=5)
            return (r, await self.nop())

        def plain(self):
            return 7
        yields, err, res = False, None, None
    return M


def syncizer(env):
    """generated twins: any arguments, results and errors, repeated, overridden, inherited"""
    M = model_class(env)

    class Sub(M):
        async def nop(self):
            self.log.append("sub")
            return await M.op(self, "x")

    class Plain(Sub):
        pass
    C = [M, Sub, Plain][env.choice("class", 3)]
    x = C()
    env.check(not hasattr(x, "plain_sync") and x.plain() == 7, "ordinary methods are untouched")
    for i in range(2):
        x.yields = bool(env.choice("yields", 2))
        x.err = Err("e") if env.choice("raise", 2) else None
        x.res = env.int("res", -5, 1000)
        v = env.bytes("v", 2)
        call = env.choice("call", 5)
        n0 = len(x.log)
        if call == 0:
            o = env.attempt(twin(env, x, "op"), v)
            args = (v, (), 1, ())
        elif call == 1:
            o = env.attempt(twin(env, x, "op"), v, 3, None, k=x.res, z=4)
            args = (v, (3, None), x.res, (("z", 4),))
        elif call == 2:
            o = env.attempt(twin(env, x, "op"), a=v)
            args = (v, (), 1, ())
        elif call == 3:
            o = env.attempt(twin(env, x, "outer"), v)
            args = (v, (), 5, ())
        else:
            o = env.attempt(twin(env, x, "nop"))
            if C is M:
                env.check(o.ok and o.value is None, "result of an operation without result")
                env.check(x.log[n0:] == ["nop"], "operation executed")
                env.reach("nop")
                continue
            env.check(x.log[n0] == "sub", "the overriding operation is the one executed")
            n0 += 1
            args = ("x", (), 1, ())
            env.reach("override")
        env.check(len(x.log) > n0, "operation executed")
        g = x.log[n0]
        env.check(len(g) == 4 and len(g[1]) == len(args[1]) and len(g[3]) == len(args[3]), "arguments passed")
        env.check(g[0] == args[0], "first argument")
        for p, q in zip(g[1], args[1]):
            env.check(p is q or p == q, "positional argument")
        env.check(g[2] == args[2], "keyword argument")
        env.check(g[3] == args[3], "keyword arguments")
        if x.yields:
            env.check("resumed" in [y for y in x.log[n0:] if isinstance(y, str)], "operation ran to completion")
        if x.err is not None:
            env.check((not o.ok) and o.exc is x.err, "the error of the operation is raised: " + o.name())
            env.reach("raised")
        else:
            env.check(o.ok, "raised " + o.name())
            r = o.value[0] if call == 3 else o.value
            env.check(r == x.res, "result")
            env.reach("returned")
    env.reach("end")


def override_instance(env):
    """operations replaced after the class was created"""
    M = model_class(env)
    x = M()

    async def other(a, k=0):
        return ("other", a, k)
    r = env.int("r", 0, 255)
    if env.choice("where", 2):
        x.op = other
    else:
        async def meth(self, a, k=0):
            return await other(a, k)
        M.op = meth
    o = env.attempt(x.op_sync, r, k=3)
    env.check(o.ok, "raised " + o.name())
    env.check(o.value[0] == "other" and o.value[2] == 3, "the replaced operation is executed")
    env.check(o.value[1] == r, "argument")
    env.reach("end")


def loops(env):
    """each object uses the loop it was given; otherwise the current one; a new one when there is none"""
    import saltchannel.util as util
    M = model_class(env)

    class Loop:
        n = 0

        def run_until_complete(self, co):
            self.n += 1
            return env.run(co)
    l = Loop()
    x = M(loop=l)
    x.res = env.int("r", 0, 9)
    env.check(x.op_sync(1) == x.res, "result")
    env.check(l.n == 1, "the given loop is used")

    def body():
        y = M()
        y.res = x.res
        env.check(y.op_sync(1) == x.res, "result in a thread")
        z = M()
        z.res = x.res
        env.check(z.op_sync(1) == x.res, "result in a thread")
        env.check(y.op_sync(1) == x.res, "result in a thread")
        env.check(l.n == 1, "other loops are not used")
    env.in_thread(body)
    env.reach("end")


class OwnLoop(asyncio.AbstractEventLoop):
    """an event loop; `running` is the one that executes the current coroutine"""
    running = None

    def __init__(self, env): self.env = env
    def get_debug(self): return False
    def is_running(self): return OwnLoop.running is self
    def is_closed(self): return False

    def run_until_complete(self, co):
        old, OwnLoop.running = OwnLoop.running, self
        try:
            return self.env.run(co)
        finally:
            OwnLoop.running = old


class Bound(AdvChan):
    """a transport that belongs to an event loop, as asyncio streams do"""
    owner, foreign = None, False

    def _mine(self):
        if OwnLoop.running is not self.owner:
            self.foreign = True
            raise RuntimeError("attached to a different loop")

    async def read(self):
        self._mine()
        return await AdvChan.read(self)

    async def _drain(self):
        self._mine()

    async def write(self, msg, *args, is_last=False):
        self._mine()
        return await AdvChan.write(self, msg, *args, is_last=is_last)


def bound(env, kind="client", given=True):
    """blocking operations run on the loop that was given, else on the current one: where the transport lives"""
    l = OwnLoop(env)
    if given:
        where(env, bool(env.choice("thread", 2)), lambda: bound_(env, kind, l, {"loop": l}))
        return

    def body():
        asyncio.set_event_loop(l)
        try:
            bound_(env, kind, l, {})
        finally:
            asyncio.set_event_loop(None)
    env.in_thread(body)


def bound_(env, kind, l, kw):
    OwnLoop.running = None
    ins = {"client": [env.bytes("m2", 38), env.bytes("m3", 120)],
           "server": [env.bytes("m1", 42), env.bytes("m4", 120)],
           "discovery": [env.bytes("reply", 23)]}.get(kind) or [env.bytes("in", 11 if kind == "app" else 28)]
    w = World(env, adv=True, forge="any", distinct=True)
    ch = Bound(env, ins)
    ch.owner = l

    def use(c, ops=("write", "read")):
        for op in ops:
            o = env.attempt(twin(env, c, op), *([env.bytes("w", 3)] if op == "write" else []))
            env.check(not ch.foreign, op + " runs on another event loop")
            if o.ok:
                env.reach(op)
    if kind in ("client", "server"):
        from saltchannel.v2.salt_client_session import SaltClientSession
        from saltchannel.v2.salt_server_session import SaltServerSession
        s = (SaltClientSession if kind == "client" else SaltServerSession)(w.sig_keys("sig"), ch, **kw)
        s.enc_keypair = w.enc_keys("enc")
        use(s, ("handshake",))
        if s.app_channel is not None:
            use(s.app_channel)
            use(s.enc_channel, ("write",))
    elif kind == "discovery":
        from saltchannel.a1a2.a1_client_session import A1ClientSession
        use(A1ClientSession(ch, **kw), ("do_a1a2",))
    elif kind == "enc":
        from saltchannel.v2.encrypted_channel_v2 import EncryptedChannelV2, Role
        use(EncryptedChannelV2(ch, env.bytes("key", 32), Role.CLIENT, **kw))
    elif kind == "app":
        from saltchannel.v2.app_channel_v2 import AppChannelV2
        from saltchannel.util.time import NullTimeKeeper, NullTimeChecker
        ch.last_flag = False
        use(AppChannelV2(ch, NullTimeKeeper(), NullTimeChecker(), **kw))
    else:
        from saltchannel.channel import AsyncioChannel

        class R:
            read_msg = ch.read

        class W:
            drain = ch._drain
            def write_msg(self, m): pass
        use(AsyncioChannel(R(), W(), **kw))
    env.reach("end")


# ------------------------------------------------------------------ sessions
M2 = bytes([2, 0, 0, 0, 0, 0])
ENC = bytes([6, 0])


def where(env, thread, f):
    return env.in_thread(f) if thread else f()


def client(env, thread=False, buf=False, m2=38, m3=120):
    """client handshake against any peer, then application traffic"""
    def body():
        w = World(env, adv=True, forge="any", dh_may_fail=True, distinct=True)
        from saltchannel.v2.salt_client_session import SaltClientSession
        ks, ke = w.sig_keys("c.sig"), w.enc_keys("c.enc")
        ins = [env.bytes("m2", m2), env.bytes("m3", m3), env.bytes("app", 26), env.bytes("app", 26)]
        wanted = env.bytes("wanted", 32) if env.choice("pinned", 2) else None
        ss = []
        for i in range(2):
            ch = AdvChan(env, list(ins))
            s = SaltClientSession(ks, ch)
            s.enc_keypair, s.buffer_M4 = ke, buf
            if wanted is not None:
                s.wanted_server_sig_key = wanted
            ss.append(s)
        a, b = ss
        oa, ob = both(env, a.handshake, twin(env, b, "handshake"))
        wires(env, a.clear_channel, b.clear_channel)
        env.check(len(a.clear_channel.got) == len(b.clear_channel.got), "packets read")
        env.check((a.app_channel is None) == (b.app_channel is None), "application channel created")
        if oa.ok and a.app_channel is not None:
            app(env, a, b)
            env.reach("completed")
        else:
            env.reach("failed")
    where(env, thread, body)


def app(env, a, b, reads=1):
    env.check(a.app_channel is not a.enc_channel, "channels")
    ms = [env.bytes("msg", 3) for _ in range(1 + env.choice("batch", 2))]
    last = bool(env.choice("last", 2))
    both(env, a.app_channel.write, twin(env, b.app_channel, "write"), *ms, is_last=last)
    wires(env, a.clear_channel, b.clear_channel)
    for i in range(reads):
        both(env, a.app_channel.read, twin(env, b.app_channel, "read"))
        env.check(env.truth(a.app_channel.last) == env.truth(b.app_channel.last), "last flag")


def server(env, thread=False, buf=False, m1=42):
    """server handshake against any peer, then application traffic"""
    def body():
        w = World(env, adv=True, forge="any", dh_may_fail=True, distinct=True)
        from saltchannel.v2.salt_server_session import SaltServerSession
        ks, ke = w.sig_keys("s.sig"), w.enc_keys("s.enc")
        ins = [env.bytes("m1", m1), env.bytes("m4", 120), env.bytes("app", 26)]
        ss = []
        for i in range(2):
            ch = AdvChan(env, list(ins))
            s = SaltServerSession(ks, ch)
            s.enc_keypair, s.buffer_m2 = ke, buf
            ss.append(s)
        a, b = ss
        oa, ob = both(env, a.handshake, twin(env, b, "handshake"))
        wires(env, a.clear_channel, b.clear_channel)
        env.check(len(a.clear_channel.got) == len(b.clear_channel.got), "packets read")
        env.check(a.is_done == b.is_done, "discovery flag")
        eq(env, a.client_sig_key, b.client_sig_key, "client key reported")
        if oa.ok and a.app_channel is not None:
            app(env, a, b)
            env.reach("completed")
        elif oa.ok:
            env.reach("discovery")
        else:
            env.reach("failed")
    where(env, thread, body)


def channels(env, kind="enc", thread=False, ops=2):
    """encrypted and application channels used on their own"""
    def body():
        w = World(env, adv=True, distinct=True)
        key, ins = env.bytes("key", 32), [env.bytes("in", 28 if kind == "enc" else 11) for _ in range(ops)]
        cs = []
        for i in range(2):
            lo = Lower(env, list(ins), [], "L")
            if kind == "enc":
                from saltchannel.v2.encrypted_channel_v2 import EncryptedChannelV2, Role
                c = EncryptedChannelV2(lo, key, Role.CLIENT)
            else:
                from saltchannel.v2.app_channel_v2 import AppChannelV2
                from saltchannel.util.time import NullTimeKeeper, NullTimeChecker
                c = AppChannelV2(lo, NullTimeKeeper(), NullTimeChecker())
            cs.append((c, lo))
        (a, la), (b, lb) = cs
        for i in range(ops):
            op = env.choice("op", 3)
            if op == 0:
                oa, ob = both(env, a.read, twin(env, b, "read"))
                env.reach("read" if oa.ok else "bad read")
            else:
                if env.choice("fault", 2):
                    from saltchannel.exceptions import ComException
                    la.fault, lb.fault = ComException("x"), ComException("x")
                ms = [env.bytes("m", 2) for _ in range(op)]
                oa, ob = both(env, a.write, twin(env, b, "write"), *ms, is_last=bool(env.choice("last", 2)))
                env.reach("write" if oa.ok else "bad write")
            wires(env, la, lb)
        env.reach("end")
    where(env, thread, body)


class Reader:
    def __init__(self, items):
        self.items = items

    async def read_msg(self):
        x = self.items.pop(0)
        if isinstance(x, Exception):
            raise x
        return x


class Writer:
    def __init__(self, fail):
        self.log, self.fail, self.closed = [], fail, 0

    def write_msg(self, m):
        self.log.append(m)
        if self.fail == 1:
            raise OSError("w")

    async def drain(self):
        self.log.append("drain")
        if self.fail == 2:
            raise ConnectionResetError("d")

    def close(self):
        self.closed += 1


def asyncio_channel(env, thread=False):
    """AsyncioChannel over any stream behaviour"""
    def body():
        from saltchannel.channel import AsyncioChannel
        from saltchannel.exceptions import ComException
        m = env.blob("m", 0, 70000)
        item = [m, OSError("x"), EOFError("x"), ComException("x")][env.choice("item", 4)]
        fail = env.choice("fail", 3)
        a = AsyncioChannel(Reader([item, m]), Writer(fail))
        b = AsyncioChannel(Reader([item, m]), Writer(fail))
        for i in range(2):
            both(env, a.read, twin(env, b, "read"))
        ms = [env.bytes("w", 2) for _ in range(1 + env.choice("n", 2))]
        both(env, a.write, twin(env, b, "write"), *ms, is_last=bool(env.choice("last", 2)))
        env.check(len(a.writer.log) == len(b.writer.log), "stream operations")
        for x, y in zip(a.writer.log, b.writer.log):
            env.check((x == "drain") == (y == "drain") if isinstance(x, str) or isinstance(y, str) else x == y, "stream operations")
        env.reach("end")
    where(env, thread, body)


def socket_channel(env):
    """SocketChannel: coroutine and blocking variants"""
    from scen.c13 import Sock
    from saltchannel.channel import SocketChannel
    st = env.blob("stream", 0, 3000)
    fa = env.choice("fail_at", 3) - 1
    a, b = Sock(env, st, 0, fa), Sock(env, st, 0, fa)
    ca, cb = SocketChannel(a), SocketChannel(b)
    if fa >= 0:
        k = env.choice("kind", 3)
        a.env = b.env = Fixed(env, k)
    oa, ob = both(env, ca.read, twin(env, cb, "read"))
    env.reach("read" if oa.ok else "failed")
    env.check(a.pos == b.pos, "bytes consumed")
    if env.choice("wfail", 2):
        a.sendfail = b.sendfail = OSError("x")
    ms = [env.blob("m", 0, 3000) for _ in range(1 + env.choice("n", 2))]
    both(env, ca.write, twin(env, cb, "write"), *ms, is_last=bool(env.choice("last", 2)))
    x, y = env.concat(*a.out), env.concat(*b.out)
    env.check(len(x) == len(y), "bytes sent")
    env.check(x == y, "bytes sent")
    env.reach("end")


class Fixed:
    """choices already made"""

    def __init__(self, env, k):
        self.env, self.k = env, k

    def __getattr__(self, n):
        return getattr(self.env, n)

    def choice(self, name, n):
        return self.k


class Log:
    def __init__(self): self.n = 0
    def info(self, *a): self.n += 1
    def __getattr__(self, n): return self.info


def mitm(env, thread=False, log=False):
    """relay: coroutine and blocking variants"""
    def body():
        from saltchannel.dev.mitm_channel import MitmChannel
        from saltchannel.exceptions import ComException
        n = 3
        ins = [env.bytes("in", n)] if log else [env.blob("in", 0, 70000)]
        la, lb = AdvChan(env, list(ins)), AdvChan(env, list(ins))
        ga, gb = Log(), Log()
        a, b = (MitmChannel(la, log=ga), MitmChannel(lb, log=gb)) if log else (MitmChannel(la), MitmChannel(lb))
        for i in range(3):
            if env.choice("op", 2):
                both(env, a.read, twin(env, b, "read"))
            else:
                if env.choice("fault", 2):
                    la.fault, lb.fault = ComException("x"), ComException("x")
                ms = [env.bytes("m", n) for _ in range(1 + env.choice("n", 2))]
                both(env, a.write, twin(env, b, "write"), *ms, is_last=bool(env.choice("last", 2)))
            wires(env, la, lb)
            env.check(a.counter_read == b.counter_read, "read counter")
            env.check(a.counter_write == b.counter_write, "write counter")
            env.check(ga.n == gb.n, "log records")
        env.reach("end")
    where(env, thread, body)


def tunnel(env, thread=False):
    """in-memory tunnel"""
    def body():
        from saltchannel.dev.tunnel import Tunnel
        ta, tb = Tunnel(), Tunnel()
        pend = 0
        for i in range(3):
            if pend and env.choice("op", 2):
                both(env, ta.channel2.read, twin(env, tb.channel2, "read"))
                pend -= 1
                env.reach("read")
            else:
                ms = [env.bytes("m", 2) for _ in range(1 + env.choice("n", 2))]
                both(env, ta.channel1.write, twin(env, tb.channel1, "write"), *ms, is_last=bool(env.choice("last", 2)))
                pend += len(ms)
        env.reach("end")
    where(env, thread, body)


def discovery(env, thread=False, n=23):
    """A1/A2 client"""
    def body():
        w = World(env)
        from saltchannel.a1a2.a1_client_session import A1ClientSession
        from saltchannel.a1a2.packets import A1Packet
        rep = env.bytes("reply", n)
        key = env.bytes("key", 32) if env.choice("pubkey", 2) else None
        ss = []
        for i in range(2):
            s = A1ClientSession(AdvChan(env, [rep]))
            if key is not None:
                s.a1.data.AddressType, s.a1.data.AddressSize = A1Packet.ADDRESS_TYPE_PUBKEY, 32
                s.a1.Address = key
            ss.append(s)
        a, b = ss
        oa, ob = both(env, a.do_a1a2, twin(env, b, "do_a1a2"))
        wires(env, a.channel, b.channel)
        env.check((a.a2 is None) == (b.a2 is None), "A2 obtained")
        if a.a2 is not None:
            env.check(bytes(a.a2) == bytes(b.a2), "A2 obtained")
        env.reach("ok" if oa.ok else "failed")
    where(env, thread, body)


S = lambda fn, reach=("end",), **k: dict({"fn": fn, "reach": list(reach)}, **k)
SCENARIOS = [
    S("syncizer", ("nop", "override", "raised", "returned", "end"), bounds="two calls, any of five call shapes, base class, subclass with override, plain subclass"),
    S("override_instance"), S("loops"),
    S("bound", ("end", "handshake", "write"), args={"kind": "client"}, bounds="an event loop given that is not the current one; any M2 of 38 and M3 of 120 bytes"),
    S("bound", ("end", "handshake", "write"), args={"kind": "server"}, bounds="an event loop given that is not the current one; any M1 of 42 and M4 of 120 bytes"),
] + [S("bound", ("end", "do_a1a2") if k == "discovery" else ("end", "write", "read"), args={"kind": k, "given": g}, bounds="any packet received; event loop " + ("given" if g else "current"))
     for k, g in (("discovery", True), ("enc", True), ("app", True), ("asyncio", True), ("discovery", False), ("enc", False), ("app", False), ("asyncio", False))] + [
    S("bound", ("end", "handshake"), args={"kind": "client", "given": False}, bounds="current event loop; any M2 of 38, M3 of 120 bytes"),
    S("bound", ("end", "handshake"), args={"kind": "server", "given": False}, bounds="current event loop; any M1 of 42, M4 of 120 bytes"),
    S("client", ("completed", "failed"), args={"thread": False}, bounds="any M2 of 38 bytes and M3 packet of 120 bytes, any application packet of 26 bytes"),
    S("client", ("completed", "failed"), args={"thread": True, "buf": True}, bounds="the same in a thread without an event loop, M4 buffered"),
    S("server", ("completed", "failed"), args={"thread": False}, bounds="any M1 of 42 bytes, any M4 packet of 120 bytes, any application packet of 26 bytes"),
    S("server", ("completed", "failed"), args={"thread": True, "buf": True}, bounds="the same in a thread without an event loop, M2 buffered"),
    S("server", ("discovery", "failed"), args={"m1": 5}, bounds="any first packet of 5 bytes"),
    S("channels", ("read", "bad read", "write", "bad write", "end"), args={"kind": "enc"}, bounds="2 operations"),
    S("channels", ("read", "bad read", "write", "bad write", "end"), args={"kind": "app", "thread": True}, bounds="2 operations, thread without an event loop"),
    S("asyncio_channel", args={"thread": False}), S("asyncio_channel", args={"thread": True}),
    S("socket_channel", ("read", "failed", "end"), bounds="any stream of 0..3000 bytes, failure at any of the first two receives"),
    S("mitm", args={"thread": False, "log": False}, bounds="3 operations, any messages"),
    S("mitm", args={"thread": True, "log": True}, bounds="3 operations with logging, thread without an event loop"),
    S("tunnel", ("read", "end"), args={"thread": True}, bounds="3 operations"),
    S("discovery", ("ok", "failed"), bounds="any 23-byte reply"),
    S("discovery", ("ok", "failed"), args={"n": 3, "thread": True}, bounds="any 3-byte reply, thread without an event loop"),
]
