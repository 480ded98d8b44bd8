"""C23: the echo sessions return every message they receive, and end as the echo protocol says."""
from scen.c13 import Sock, chan
from scen.c14 import CFG, Loop, Task, Transport, frame
from scen.sess import le
ASSUMPTIONS = ["socket model of C13, event loop and transport model of C14 (the standard library's asyncio.streams is executed symbolically)",
               "echo protocol: each message comes back unchanged; an empty message or the end of the connection ends the session"]


def echoed(env, ms, cut):
    """the answer to frames of which the first `cut` bytes arrived"""
    out, pos = [], 0
    for m in ms:
        pos = pos + 4 + len(m)
        if env.Or(pos > cut, len(m) == 0):
            break
        out += frame(m)
    else:
        env.reach("all")
    return env.concat(*out)


def same(env, got, want, label):
    env.check(len(got) == len(want), label + ": number of bytes")
    env.check(got == want, label)


def server(env, lens=((0, 70000), (0, 70000)), frags=1, cuts=False):
    """blocking server session: any messages, then end of stream (anywhere when cuts)"""
    from saltchannel.dev.simple_echo_session import SimpleEchoSession
    ms = [env.blob("m", *l) for l in lens]
    full = env.concat(*[x for m in ms for x in frame(m)])
    n = len(full)
    if cuts:
        n = env.int("cut", 0, sum(l[1] + 4 for l in lens))
        env.assume(n < len(full))
    s = Sock(env, full[:n], frags)
    o = env.attempt(SimpleEchoSession().server_session, chan(s))
    env.check(o.ok, "server session failed: " + o.name())
    same(env, env.concat(*s.out), echoed(env, ms, n), "echo")
    env.reach("end")


def server_fault(env):
    """the socket fails at any recv, or when sending"""
    from saltchannel.dev.simple_echo_session import SimpleEchoSession
    ms = [env.bytes("m", 3), env.bytes("m", 2)]
    k = env.choice("at", 7)
    s = Sock(env, env.concat(*[x for m in ms for x in frame(m)]), 1, fail_at=k if k < 6 else -1)
    if k == 6:
        s.sendfail = OSError("broken pipe")
    o = env.attempt(SimpleEchoSession().server_session, chan(s))
    env.check(o.ok, "server session failed: " + o.name())
    got, want = env.concat(*s.out), env.concat(*[x for m in ms for x in frame(m)])
    env.check(len(got) in (0, 7, 13), "partial echo")
    env.check(got == want[:len(got)], "echo")
    env.reach("end")


def handler(env, lens=((0, 3000), (0, 300))):
    """the same inside the request handler of the TCP server"""
    from saltchannel.dev.client_server import MpClientServerPair
    from saltchannel.dev.simple_echo_session import SimpleEchoSession
    ms = [env.blob("m", *l) for l in lens]
    full = env.concat(*[x for m in ms for x in frame(m)])
    s = Sock(env, full, 1)
    h = MpClientServerPair(SimpleEchoSession())._server_handler_factory(SimpleEchoSession())
    o = env.attempt(h, s, ("h", 1), None)
    env.check(o.ok, "request handler failed: " + o.name())
    same(env, env.concat(*s.out), echoed(env, ms, len(full)), "echo")
    env.reach("end")


class Peer:
    """channel of the client: every request has its answer before the next one"""

    def __init__(self, env):
        self.env, self.open, self.sent, self.count = env, False, [], 0

    def write_sync(self, msg, *args, is_last=False):
        env = self.env
        env.check(not args, "one request at a time")
        env.check(not self.open, "request sent before the answer to the previous one")
        env.check(len(msg) > 0, "empty request")
        self.open = True
        self.sent.append(msg)
        self.count += 1
        if self.count > 100:
            raise env.Blocked("endless session")

    def read_sync(self):
        if not self.open:
            raise self.env.Blocked("waits for an answer without a request")
        self.open = False
        return self.env.blob("answer", 1, 40) if self.count < 3 else self.sent[-1]


def client(env):
    """blocking client session: a number of requests, each answered before the next"""
    from saltchannel.dev import simple_echo_session as ses
    env.set_urandom(lambda n: env.bytes("urandom", n))
    p = Peer(env)
    try:
        o = env.attempt(ses.SimpleEchoSession().client_session, p)
    except env.Blocked:
        env.fail("client session does not end")
    env.check(o.ok, "client session failed: " + o.name())
    env.check(p.count == ses.CLIENT_SEND_LOOPS, "number of requests")
    env.check(not p.open, "an answer was not read")
    env.reach("end")


def start(env, cb):
    """a connection accepted by the asyncio server -> transport, protocol, task of its session"""
    from saltchannel.dev import client_server_a as cs
    loop = Loop(env)
    env.run(cs.start_saltchannel_server(cb, "h", 1, loop=loop))
    p = loop.factory()
    t = Transport(env, p)
    p.connection_made(t)
    env.check(len(loop.tasks) == 1, "one session per connection")
    return t, p, Task(env, loop.tasks[0])


def server_a(env, lens=((0, 3000), (0, 3000)), ncuts=1, ends=0):
    """asyncio server session: messages in any pieces; then (unless an empty message ended it) the connection ends or breaks"""
    from saltchannel.dev.simple_echo_session_a import SimpleEchoSessionA
    t, p, r = start(env, SimpleEchoSessionA().server_session)
    ms = [env.blob("m", *l) for l in lens]
    full = env.concat(*[x for m in ms for x in frame(m)])
    n = len(full)
    if ends:
        n = env.int("end", 0, sum(l[1] + 4 for l in lens))
        env.assume(n < len(full))
    pos = 0
    r.settle()
    for i in range(ncuts + 1):
        c = n
        if i < ncuts:
            c = env.int("cut", 0, sum(l[1] + 4 for l in lens))
            env.assume(c >= pos)
            env.assume(c <= n)
        if c > pos and not r.fin:
            p.data_received(full[pos:c])
        pos = c
        r.settle()
    want = echoed(env, ms, n)
    if not r.fin:
        env.check(not t.closed, "connection closed while the session goes on")
        same(env, env.concat(*t.out), want, "echo")
        k = env.choice("kind", 3)
        if k == 0:
            p.eof_received()
        else:
            p.connection_lost(None if k == 1 else ConnectionResetError("reset"))
        r.settle()
        env.check(r.fin, "session goes on after the end of the connection")
        env.reach("cut")
    env.check(r.exc is None, "server session failed: %s" % type(r.exc).__name__)
    env.check(t.closed, "server leaves the connection open")
    same(env, env.concat(*t.out), want, "echo")
    env.reach("end")


def burst_a(env, lens=((0, 3000), (0, 3000), (0, 40))):
    """everything, and the end of the stream (at any byte), arrives before the session runs"""
    from saltchannel.dev.simple_echo_session_a import SimpleEchoSessionA
    t, p, r = start(env, SimpleEchoSessionA().server_session)
    ms = [env.blob("m", *l) for l in lens]
    full = env.concat(*[x for m in ms for x in frame(m)])
    n = env.int("end", 0, sum(l[1] + 4 for l in lens))
    env.assume(n <= len(full))
    if n > 0:
        p.data_received(full[:n])
    p.eof_received()
    r.settle()
    env.check(r.fin, "session goes on after the end of the connection")
    env.check(r.exc is None, "server session failed: %s" % type(r.exc).__name__)
    env.check(t.closed, "server leaves the connection open")
    same(env, env.concat(*t.out), echoed(env, ms, n), "echo")
    env.reach("end")


def prefix_a(env):
    """a negative length ends the session"""
    from saltchannel.dev.simple_echo_session_a import SimpleEchoSessionA
    t, p, r = start(env, SimpleEchoSessionA().server_session)
    n = env.int("n", -2 ** 31, -1)
    m = env.bytes("m", 3)
    p.data_received(env.concat(*frame(m), n.to_bytes(4, 'little', signed=True)))
    r.settle()
    env.check(r.fin and t.closed, "session goes on after a negative length")
    env.check(r.exc is None, "server session failed: %s" % type(r.exc).__name__)
    same(env, env.concat(*t.out), env.concat(*frame(m)), "echo")
    env.reach("end")


def client_a(env):
    """asyncio client session: requests answered one by one, then the empty message, then closed"""
    from saltchannel.dev import client_server_a as cs
    from saltchannel.dev import simple_echo_session_a as ses
    env.set_urandom(lambda n: env.bytes("urandom", n))
    loop = Loop(env)
    reader, writer = env.run(cs.open_saltchannel_connection("h", 1, loop=loop))
    t, p = loop.conn
    r = Task(env, ses.SimpleEchoSessionA().client_session(reader, writer))
    seen = 0
    for i in range(ses.CLIENT_SEND_LOOPS):
        r.settle()
        env.check(not r.fin, "session ended early")
        got = env.concat(*t.out[seen:])
        seen = len(t.out)
        env.check(len(got) > 4, "a request before each answer")
        env.check(got[:4] == le(len(got) - 4, 4), "one request before each answer")
        env.check(not t.closed, "connection closed early")
        a = env.blob("answer", 1, 40) if i < 2 else env.bytes("answer", 6)
        raw = env.concat(*frame(a))
        c = env.int("cut", 0, 44) if i < 2 else 0
        env.assume(c < len(raw))
        if c > 0:
            p.data_received(raw[:c])
            r.settle()
            env.check(len(t.out) == seen, "request sent before the answer to the previous one")
        p.data_received(raw[c:])
    r.settle()
    env.check(r.fin, "session does not end")
    env.check(r.exc is None, "client session failed: %s" % type(r.exc).__name__)
    same(env, env.concat(*t.out[seen:]), le(0, 4), "end of session")
    env.check(t.closed, "connection left open")
    env.reach("end")


S = lambda fn, reach=("end",), **k: dict({"fn": fn, "reach": list(reach)}, **dict(k, cfg=dict(CFG, **k.get("cfg", {}))))
SCENARIOS = [
    S("server", ("end", "all"), bounds="2 messages of 0..70000 bytes, 1 short read, then end of stream"),
    S("server", ("end",), args={"cuts": True, "lens": [[0, 2000], [0, 2000]]}, bounds="2 messages of 0..2000 bytes cut anywhere, 1 short read"),
    S("server", ("end", "all"), args={"frags": 0, "lens": [[0, 300]] * 4}, bounds="4 messages of 0..300 bytes"),
    S("server", ("end", "all"), args={"frags": 3, "lens": [[0, 70000]] * 3}, bounds="3 messages of 0..70000 bytes, 3 short reads", tier="thorough"),
    S("server_fault", bounds="failure at any of the first 6 recv calls or at send"),
    S("handler", ("end", "all"), bounds="2 messages of 0..3000 and 0..300 bytes through the TCP server's request handler, 1 short read"),
    S("client", bounds="any answers (the first two of 1..40 bytes)"),
    S("server_a", ("end", "all", "cut"), bounds="2 messages of 0..3000 bytes in 2 pieces, three kinds of end"),
    S("server_a", ("end", "cut"), args={"ends": 1}, bounds="2 messages of 0..3000 bytes in 2 pieces, the connection ends anywhere in three ways"),
    S("server_a", ("end", "all", "cut"), args={"ncuts": 3, "lens": [[0, 3000]] * 3}, bounds="3 messages of 0..3000 bytes in 4 pieces", tier="thorough"),
    S("burst_a", ("end", "all"), bounds="3 messages of 0..3000 (the last 0..40) bytes, cut anywhere, and the end of the stream before the session runs"),
    S("prefix_a", bounds="a message, then any negative length"),
    S("client_a", bounds="any answers (the first two of 1..40 bytes, in 2 pieces)"),
]
