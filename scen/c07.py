"""C07: whatever batches are written through the application channel, the peer reads exactly those messages in order."""
from scen.world import World, Chan, pair
from scen.sess import honest_pair, run_pair
ASSUMPTIONS = ["lower channel: a FIFO of byte strings (scenarios named stack: the real encrypted channel over ideal authenticated encryption)"]


class Lower(Chan):
    last_flag = False


def apps(env):
    from saltchannel.v2.app_channel_v2 import AppChannelV2
    from saltchannel.util.time import NullTimeKeeper, NullTimeChecker
    q1, q2 = [], []
    la, lb = Lower(env, q1, q2, "A"), Lower(env, q2, q1, "B")
    mk = lambda ch: AppChannelV2(ch, NullTimeKeeper(), NullTimeChecker())
    return mk(la), mk(lb), la, lb


def take(env, rx, ch, want):
    o = env.arun(rx.read)
    env.check(o.ok, "reading a written message failed: " + o.name())
    env.check(env.isbytes(o.value), "message type")
    env.check(len(o.value) == len(want), "message length")
    env.check(o.value == want, "message content")


def batches(env, sizes=(1, 2), hi=70000):
    """batches of the given sizes, every message of any length; then reads"""
    w = World(env)
    tx, rx, la, lb = apps(env)
    pend = []
    for n in sizes:
        ms = [env.blob("m", 0, hi) for _ in range(n)]
        o = env.arun(tx.write, *ms)
        env.check(o.ok, "write failed: " + o.name())
        env.check(o.value is None, "write result")
        pend += ms
    for m in pend:
        take(env, rx, lb, m)
    env.check(len(lb.inq) == 0, "nothing left on the transport")
    o = None
    try:
        o = env.arun(rx.read)
    except env.Blocked:
        pass
    env.check(o is None, "a message appeared from nowhere")
    env.reach("end")


def interleave(env, ops=5):
    """writes of batches and reads in any order"""
    w = World(env)
    tx, rx, la, lb = apps(env)
    pend, k, wr = [], 0, 0
    for i in range(ops):
        if pend and env.choice("op", 2):
            take(env, rx, lb, pend.pop(0))
            env.reach("read")
        elif wr < 3:
            wr += 1
            n = 1 + env.choice("n", 3)
            ms = [env.bytes("m", [2, 0, 1][(i + j) % 3]) for j in range(n)]
            if n > 1 and env.choice("same object", 2):
                ms = [ms[0]] * n
            env.run(tx.write(*ms))
            pend += ms
    while pend:
        take(env, rx, lb, pend.pop(0))
    env.check(len(lb.inq) == 0, "nothing left")
    env.reach("end")


def duplex(env):
    """both directions at once do not mix"""
    w = World(env)
    a, b, la, lb = apps(env)
    toa, tob = [], []
    for i in range(4):
        op = env.choice("op", 4)
        if op == 0:
            ms = [env.bytes("ab", 3), env.bytes("ab", 0)]
            env.run(a.write(*ms))
            tob += ms
        elif op == 1:
            m = env.bytes("ba", 3)
            env.run(b.write(m))
            toa.append(m)
        elif op == 2 and toa:
            take(env, a, la, toa.pop(0))
        elif op == 3 and tob:
            take(env, b, lb, tob.pop(0))
    for m in toa:
        take(env, a, la, m)
    for m in tob:
        take(env, b, lb, m)
    env.check(len(la.inq) == 0 and len(lb.inq) == 0, "nothing left")
    env.reach("end")


def instances(env):
    """two application channels in one process do not share queues"""
    w = World(env)
    a, b, la, lb = apps(env)
    c, d, lc, ld = apps(env)
    m1, m2 = [env.bytes("x", 3), env.bytes("x", 4)], [env.bytes("y", 3), env.bytes("y", 4)]
    env.run(a.write(*m1))
    env.run(c.write(*m2))
    take(env, b, lb, m1[0])
    take(env, d, ld, m2[0])
    take(env, d, ld, m2[1])
    take(env, b, lb, m1[1])
    env.reach("end")


class Huge:
    """a batch of n messages (n symbolic), all the same"""

    def __init__(self, n, m):
        self.n, self.m = n, m

    def __len__(self): return self.n
    def __iter__(self): return iter([self.m])
    def __getitem__(self, i): return self.m


def should_use_count(env, hi=200000):
    """... for any number of messages"""
    w = World(env)
    from saltchannel.v2.packets import MultiAppPacket
    if not hasattr(MultiAppPacket, "should_use"):
        env.reach("end")
        return
    n = env.int("n", 1, hi)
    m = env.bytes("m", 1)
    o = env.attempt(MultiAppPacket.should_use, (m,) * n if env.concrete else Huge(n, m))
    env.check(o.ok, "should_use raised")
    if env.truth(o.value):
        env.check(n <= 65535, "batch too large for a multi-app packet")
    env.reach("end")


def should_use(env):
    """a multi-message packet is chosen only when count and every length fit into 16 bits, so nothing is truncated"""
    w = World(env)
    from saltchannel.v2.packets import MultiAppPacket
    if not hasattr(MultiAppPacket, "should_use"):
        env.reach("end")
        return
    k = env.choice("k", 4) + 1
    ms = [env.blob("m", 0, 70000) for _ in range(k)]
    o = env.attempt(MultiAppPacket.should_use, tuple(ms))
    env.check(o.ok, "should_use raised")
    if env.truth(o.value):
        for m in ms:
            env.check(len(m) <= 65535, "message does not fit in a multi-app packet")
        env.reach("multi")
    else:
        env.reach("single")
    env.reach("end")


def big_batch(env, n=65536, vary=1):
    """a batch of many messages (65536 is more than the 16-bit counter can hold); the first and the last are symbolic"""
    w = World(env)
    tx, rx, la, lb = apps(env)
    m = env.bytes("m", 1)
    k = env.choice("extra", 2) if vary else 0
    ms = [m] + [b"x"] * (n - 2 + k) + [env.bytes("e", 1)]
    o = env.arun(tx.write, *ms)
    env.check(o.ok, "write of a large batch failed: " + o.name())
    got = 0
    while got < len(ms):
        o = env.arun(rx.read)
        env.check(o.ok, "read failed: " + o.name())
        if got < 2 or got >= len(ms) - 2:
            env.check(o.value == ms[got], "message content")
        elif o.value is not ms[got]:
            env.check(o.value == ms[got], "message content")
        got += 1
    env.check(len(lb.inq) == 0, "nothing left")
    env.reach("end")


def stack(env, first="client", n=2, hi=70000, buf_m4=False):
    """after an honest handshake, through the whole stack (buffered M4 included)"""
    w = World(env, forge="never")
    cl, sv, a, b = honest_pair(env, w, bool(env.choice("buf_m2", 2)), buf_m4, False)

    async def client():
        await cl.handshake()
        await cl.app_channel.write(*c_out)
        return [await cl.app_channel.read() for _ in s_out]

    async def server():
        await sv.handshake()
        await sv.app_channel.write(*s_out)
        return [await sv.app_channel.read() for _ in c_out]
    c_out = [env.blob("c", 0, hi) for _ in range(n)]
    s_out = [env.bytes("s", 3) for _ in range(n)]
    rc, rs = run_pair(env, client(), server())
    for g, m in list(zip(rc, s_out)) + list(zip(rs, c_out)):
        env.check(len(g) == len(m), "message length")
        env.check(g == m, "message content")
    env.check(len(a.inq) == 0 and len(b.inq) == 0, "nothing left")
    env.reach("end")


S = lambda fn, reach=("end",), **k: dict({"fn": fn, "reach": list(reach)}, **k)
SCENARIOS = [
    S("batches", args={"sizes": [1, 1]}, bounds="two single writes, lengths 0..70000"),
    S("batches", args={"sizes": [2]}, bounds="one batch of 2, lengths 0..70000"),
    S("batches", args={"sizes": [2, 1]}, bounds="batch of 2 then single, lengths 0..70000"),
    S("batches", args={"sizes": [3]}, bounds="one batch of 3, lengths 0..70000"),
    S("batches", args={"sizes": [3, 2]}, bounds="batches of 3 and 2, lengths 0..70000", tier="thorough"),
    S("batches", args={"sizes": [5]}, bounds="batch of 5, lengths 0..70000", tier="thorough"),
    S("batches", args={"sizes": [1, 2, 1, 2]}, bounds="4 writes, lengths 0..70000", tier="thorough"),
    S("interleave", ("read", "end"), args={"ops": 4}, bounds="4 operations in any order, batches of 1..3"),
    S("interleave", ("read", "end"), args={"ops": 6}, bounds="6 operations in any order, batches of 1..3", tier="thorough"),
    S("duplex", bounds="4 operations on both sides in any order"),
    S("instances"),
    S("should_use", ("multi", "single", "end"), bounds="1..4 messages of any length 0..70000"),
    S("should_use_count", bounds="1..200000 messages"),
    S("big_batch", bounds="65536 and 65537 messages; the path is cut at 20000 steps and then run concretely",
      cfg={"max_witness": 2, "max_steps": 20000}),
    S("big_batch", args={"n": 65535, "vary": 0}, bounds="65535 messages", cfg={"max_witness": 1, "max_steps": 10000000}, tier="thorough"),
    S("big_batch", args={"n": 3000, "vary": 0}, bounds="3000 messages", cfg={"max_witness": 1, "max_steps": 1000000}),
    S("stack", args={"buf_m4": False}, bounds="batches of 2 both ways after a handshake"),
    S("stack", args={"buf_m4": True}, bounds="batches of 2 both ways after a handshake, M4 buffered"),
    S("stack", args={"buf_m4": True, "n": 1}, bounds="single messages both ways after a handshake, M4 buffered"),
]
