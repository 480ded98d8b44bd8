"""C10: honest handshakes succeed, both sides agree, traffic is exactly that of the specification."""
from scen.world import World, Chan, pair, nonce_bytes
from scen.sess import honest_pair, run_pair, run_all, le
ASSUMPTIONS = ["reliable FIFO transport between the two sides; ideal primitives (World)",
               "clocks: all times 0 except in scenarios named clocks (arbitrary, different at every call; first times 0 or 1 as the default checker demands)"]


class Clock:
    """another time at every call"""

    def __init__(self, env, name):
        self.env, self.name = env, name

    def get_first_time(self):
        return self.env.int(self.name + ".first", 0, 1)

    def get_time(self):
        return self.env.int(self.name + ".time", 0, 2 ** 32 - 1)


def agree(env, w, cl, sv, a, b, pinned, clocks=False):
    k = w.dh(sv.enc_keypair.pub, cl.enc_keypair.sec)
    env.check(cl.session_key == k, "client session key")
    env.check(sv.session_key == k, "server session key")
    env.check(sv.client_sig_key == cl.sig_keypair.pub, "server knows the client key")
    env.check(cl.m3.ServerSigKey == sv.sig_keypair.pub, "client knows the server key")
    env.check(not sv.is_done, "server session not done")
    t1 = t2 = t3 = t4 = bytes(4)
    if clocks:
        boxed = lambda n: [m for (kk, nn, m, c) in w.log_box if env.truth(env.And(env.same(nn, nonce_bytes(n)), env.same(kk, k)))]
        t1, t2, t3, t4 = a.sent[0][6:10], b.sent[0][2:6], boxed(2)[0][2:6], boxed(1)[0][2:6]
    m1 = b"SCv2" + bytes([1, 1 if pinned else 0]) + t1 + cl.enc_keypair.pub + (sv.sig_keypair.pub if pinned else b"")
    m2 = bytes([2, 0]) + t2 + sv.enc_keypair.pub
    hh = w.hash(m1) + w.hash(m2)
    m3 = bytes([3, 0]) + t3 + sv.sig_keypair.pub + w.sign(b"SC-SIG01" + hh, sv.sig_keypair.sec)
    m4 = bytes([4, 0]) + t4 + cl.sig_keypair.pub + w.sign(b"SC-SIG02" + hh, cl.sig_keypair.sec)
    env.check(a.sent[0] == m1, "M1")
    env.check(b.sent[0] == m2, "M2")
    env.check(b.sent[1] == bytes([6, 0]) + w.box(m3, nonce_bytes(2), k), "M3")
    return a.sent[1] == bytes([6, 0]) + w.box(m4, nonce_bytes(1), k)


def handshake(env, buf_m2=False, buf_m4=False, pinned=False, msgs=1, sched=True, mlen=0, clocks=False):
    w = World(env, forge="never")
    cl, sv, a, b = honest_pair(env, w, buf_m2, buf_m4, pinned, yields=sched)
    if clocks:
        cl.time_keeper, sv.time_keeper = Clock(env, "ct"), Clock(env, "st")
    c_out = [[env.bytes("c", 2 + i) for i in range(1 + j)] for j in range(msgs)]
    s_out = [[env.bytes("s", 2 + i) for i in range(2 - j % 2)] for j in range(msgs)]
    if mlen:
        c_out[0] = [env.blob("c", 0, mlen)]
        s_out[0] = [env.blob("s", 0, mlen)]

    async def side(s, out, n):
        await s.handshake()
        for ms in out:
            await s.app_channel.write(*ms)
        return [await s.app_channel.read() for _ in range(n)]
    flat = lambda x: [m for ms in x for m in ms]
    cnt = [0]

    def pick(n):
        cnt[0] += 1
        return env.choice("sched", n) if n > 1 else 0
    rc, rs = run_pair(env, side(cl, c_out, len(flat(s_out))), side(sv, s_out, len(flat(c_out))), pick if sched else None)
    env.check(agree(env, w, cl, sv, a, b, pinned, clocks), "M4")
    for got, want in ((rc, flat(s_out)), (rs, flat(c_out))):
        env.check(len(got) == len(want), "number of messages")
        for g, m in zip(got, want):
            env.check(g == m, "application message")
    if buf_m4:
        env.check(len(a.writes[1][0]) >= 2, "buffered M4 goes with the first application message")
    if buf_m2:
        env.check(len(b.writes[0][0]) == 2, "buffered M2 goes with M3")
    env.check(not any(last for ms, last in a.writes + b.writes), "no last flag")
    env.check(len(a.inq) == 0 and len(b.inq) == 0, "nothing left over")
    env.reach("end")


def two_pairs(env, buf_m2=False, buf_m4=False, k=4, first=0):
    """two connections handled by one process do not influence each other, however they interleave"""
    w = World(env, forge="never", distinct=True)
    p = [honest_pair(env, w, buf_m2, buf_m4, i == 1, False, "c%d" % i, "s%d" % i) for i in range(2)]
    outs = []

    async def side(s, ms, n):
        await s.handshake()
        await s.app_channel.write(*ms)
        return [await s.app_channel.read() for _ in range(n)]
    cos, want = [], []
    for i, (cl, sv, a, b) in enumerate(p):
        mc, ms = [env.bytes("c", 3), env.bytes("c", 2)], [env.bytes("s", 3)]
        cos += [side(cl, mc, 1), side(sv, ms, 2)]
        want += [ms, mc]
    cnt = [0]

    def pick(n):                       # k free scheduling choices, then round robin
        cnt[0] += 1
        if cnt[0] == 1:
            return first % n
        return cnt[0] % n if n == 1 or cnt[0] > k else env.choice("sched", n)
    res = run_all(env, cos, pick)
    for i, (cl, sv, a, b) in enumerate(p):
        env.check(agree(env, w, cl, sv, a, b, i == 1), "M4")
    for got, ms in zip(res, want):
        for g, m in zip(got, ms):
            env.check(g == m, "application message")
    env.reach("end")


def sequential(env):
    """a second session in the same process, with fresh keys, after a complete first one"""
    w = World(env, forge="never", distinct=True)
    for i in range(2):
        cl, sv, a, b = honest_pair(env, w, i == 0, i == 0, i == 1, False, "c%d" % i, "s%d" % i)

        async def side(s, m):
            await s.handshake()
            await s.app_channel.write(m)
            return await s.app_channel.read()
        mc, ms = env.bytes("c", 3), env.bytes("s", 3)
        rc, rs = run_pair(env, side(cl, mc), side(sv, ms))
        env.check(agree(env, w, cl, sv, a, b, i == 1), "M4")
        env.check(rc == ms, "message")
        env.check(rs == mc, "message")
    env.reach("end")


def no_key(env):
    """without an encryption key pair the handshake is refused before anything is sent"""
    w = World(env, forge="never")
    cl, sv, a, b = honest_pair(env, w, False, False, False)
    cl.enc_keypair = sv.enc_keypair = None
    b.inq.append(b"SCv2" + env.bytes("m1", 38))
    for s in (cl, sv):
        o = env.arun(s.handshake)
        env.check((not o.ok) and isinstance(o.exc, ValueError), "missing key pair: " + o.name())
    env.check(len(a.sent) == 0 and len(b.sent) == 0, "nothing sent")
    env.reach("end")


SCENARIOS = []
for _b2 in (False, True):
    for _b4 in (False, True):
        for _p in (False, True):
            _a = {"buf_m2": _b2, "buf_m4": _b4, "pinned": _p}
            SCENARIOS += [
                {"fn": "handshake", "args": dict(_a), "reach": ["end"], "bounds": "all keys, all schedules of the two sides, 1 batch each way"},
                {"fn": "handshake", "args": dict(_a, msgs=2), "reach": ["end"], "tier": "thorough",
                 "bounds": "all keys, all schedules of the two sides, 2 batches each way"},
                {"fn": "handshake", "args": dict(_a, sched=False, mlen=70000), "reach": ["end"], "tier": "quick" if _p else "thorough",
                 "bounds": "all keys, alternating schedule, messages of 0..70000 bytes"},
                {"fn": "handshake", "args": dict(_a, sched=False, clocks=True), "reach": ["end"],
                 "bounds": "all keys, alternating schedule, any time at every call of the time keepers"},
            ]
SCENARIOS += [
    {"fn": "sequential", "reach": ["end"], "bounds": "2 sessions"},
    {"fn": "no_key", "reach": ["end"], "bounds": ""},
]
for _f in range(4):
    for _b in (False, True):
        for _k in (3, 7):
            SCENARIOS.append({"fn": "two_pairs", "args": {"buf_m2": _b, "buf_m4": _b, "k": _k, "first": _f}, "reach": ["end"],
                              "tier": "quick" if _k == 3 else "thorough",
                              "bounds": "2 connections; side %d runs first, then %d free scheduling choices, then round robin" % (_f, _k - 1)})
