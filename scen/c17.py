"""C17: time stamps sent and checked are those of the configured clock."""
from scen.world import World, Chan, pair
from scen.sess import make_client, make_server, honest_pair, run_pair, AdvChan, le
ASSUMPTIONS = ["time keeper: an arbitrary 32-bit clock that may move at every transport operation and between user calls",
               "ideal crypto as described in scen/world.py"]
U32 = 2 ** 32 - 1


class Keeper:
    """arbitrary clock; time may change whenever the transport was used or `ticks` changed"""

    def __init__(self, env, ch, name):
        self.env, self.ch, self.name, self.ticks = env, ch, name, 0
        self.first = env.int(name + ".first", 0, U32)
        self.t = {}

    def at(self, key):
        if key not in self.t:
            self.t[key] = self.env.int(self.name + ".t", 0, U32)
        return self.t[key]

    def now(self):
        return self.at((self.ch.reads, len(self.ch.writes), self.ticks))

    def get_first_time(self):
        return self.first

    def get_time(self):
        return self.now()


class Checker:
    """records; rejects the call number `reject` with `error`"""

    def __init__(self, reject=None, error=None):
        self.log, self.reject, self.error = [], reject, error

    def _in(self, kind, t):
        self.log.append((kind, t))
        if self.reject is not None and len(self.log) - 1 >= self.reject:
            raise self.error

    def report_first_time(self, time):
        self._in("first", time)

    def check_time(self, time):
        self._in("time", time)


def stamp(raw, off=2):
    return raw[off] | (raw[off + 1] << 8) | (raw[off + 2] << 16) | (raw[off + 3] << 24)


def setup(env, w, buf_m2, buf_m4, pinned, rej_c=None, rej_s=None, err=None):
    cl, sv, a, b = honest_pair(env, w, buf_m2, buf_m4, pinned)
    cl.time_keeper, sv.time_keeper = Keeper(env, a, "ck"), Keeper(env, b, "sk")
    cl.time_checker, sv.time_checker = Checker(rej_c, err), Checker(rej_s, err)
    return cl, sv, a, b


def plain(env, w, typ):
    return [m for (k, n, m, c) in w.log_box if len(m) > 5 and env.truth(m[0] == typ)]


def handed(env, log, kind, t, what):
    """the entries since the last call are all (kind, t), at least one"""
    env.check(len(log) >= 1, what + " not handed to the time checker")
    for k, v in log:
        env.check(k == kind, what + " handed to the wrong checker operation")
        env.check(v == t, what + " altered before being checked")


def handshake(env, buf_m2=False, buf_m4=False, n=1):
    """honest handshake and application messages with arbitrary clocks on both sides"""
    w = World(env, forge="never", distinct=True)
    cl, sv, a, b = setup(env, w, buf_m2, buf_m4, bool(env.choice("pinned", 2)))
    ck, sk, cc, sc = cl.time_keeper, sv.time_keeper, cl.time_checker, sv.time_checker
    msgs = [env.bytes("msg", 2) for _ in range(n)]
    back = [env.bytes("back", 1) for _ in range(n)]
    seen = {}

    async def client():
        await cl.handshake()
        seen["m3"] = list(cc.log)
        ck.ticks += 1
        seen["t_write"] = ck.now()
        await cl.app_channel.write(*msgs)
        del cc.log[:]
        r = [await cl.app_channel.read() for _ in back]
        seen["c_read"] = list(cc.log)
        return r

    async def server():
        await sv.handshake()
        seen["m1m4"] = list(sc.log)
        del sc.log[:]
        r = [await sv.app_channel.read() for _ in msgs]
        seen["s_read"] = list(sc.log)
        sk.ticks += 1
        seen["t_back"] = sk.now()
        await sv.app_channel.write(*back)
        return r
    rc, rs = run_pair(env, client(), server())
    env.check([len(x) for x in rs] == [2] * n and [len(x) for x in rc] == [1] * n, "messages delivered")
    env.check(stamp(a.sent[0], 6) == ck.first, "time in M1")
    env.check(stamp(b.sent[0]) == sk.first, "time in M2")
    m3, m4 = plain(env, w, 3), plain(env, w, 4)
    env.check(len(m3) == 1 and len(m4) == 1, "one M3 and one M4")
    t3, t4 = stamp(m3[0]), stamp(m4[0])
    if buf_m2:
        env.check(env.Or(t3 == sk.first, t3 == sk.at((1, 0, 0))), "time in M3 (sent together with M2)")
    else:
        env.check(t3 == sk.at((1, 1, 0)), "time in M3")
    if buf_m4:
        env.check(t4 == seen["t_write"], "time in M4 (buffered)")
    else:
        env.check(t4 == ck.at((2, 1, 0)), "time in M4")
    app = [m for (k, nn, m, c) in w.log_box if env.truth(m[0] == (5 if n == 1 else 11))]
    env.check(len(app) == 2, "one application packet each way")
    env.check(stamp(app[0]) == seen["t_write"], "time in the client's application packet")
    env.check(stamp(app[1]) == seen["t_back"], "time in the server's application packet")
    first = [x for x in seen["m3"] if x[0] == "first"]
    handed(env, first, "first", sk.first, "time of M2")
    handed(env, seen["m3"][len(first):], "time", t3, "time of M3")
    first = [x for x in seen["m1m4"] if x[0] == "first"]
    handed(env, first, "first", ck.first, "time of M1")
    handed(env, seen["m1m4"][len(first):], "time", t4, "time of M4")
    handed(env, seen["s_read"], "time", seen["t_write"], "time of the client's application packet")
    handed(env, seen["c_read"], "time", seen["t_back"], "time of the server's application packet")
    env.reach("end")


class Refused(Exception):
    pass


def error(env):
    from saltchannel.exceptions import BadPeer, ComException
    return [Refused, BadPeer, ComException, ValueError][env.choice("error", 4)]("time refused")


def reject_client(env, buf_m2=False, buf_m4=False):
    """the client's checker rejects M2 or M3"""
    w = World(env, forge="never", distinct=True)
    err = error(env)
    k = env.choice("which", 2)
    cl, sv, a, b = setup(env, w, buf_m2, buf_m4, False, rej_c=k, err=err)
    co, so = cl.handshake(), sv.handshake()
    env.step(co)
    env.step(so)
    o = attempt_step(env, co)
    env.check((not o.ok) and o.exc is err, "handshake did not fail with the checker's error: " + o.name())
    env.check(len(a.sent) == 1, "client went on after its checker rejected the time")
    env.check(cl.time_checker.log[k][0] == ("first", "time")[k], "which operation")
    env.check(len(plain(env, w, 4)) == 0, "M4 made although the time was rejected")
    env.reach("M2" if k == 0 else "M3")


def attempt_step(env, co):
    try:
        fin, v = env.step(co)
    except Exception as e:
        return env.Outcome(False, exc=e)
    return env.Outcome(True, v)


def reject_server(env, buf_m2=False):
    """the server's checker rejects M1 or M4"""
    w = World(env, forge="never", distinct=True)
    err = error(env)
    k = env.choice("which", 2)
    cl, sv, a, b = setup(env, w, buf_m2, False, bool(env.choice("pinned", 2)), rej_s=k, err=err)
    co, so = cl.handshake(), sv.handshake()
    env.step(co)
    o = attempt_step(env, so)
    if k == 0:
        env.check((not o.ok) and o.exc is err, "handshake did not fail with the checker's error: " + o.name())
        env.check(len(b.sent) == 0, "server answered although its checker rejected the time of M1")
        env.check(sv.time_checker.log[0][0] == "first", "which operation")
        env.reach("M1")
        return
    env.check(o.ok, "server failed at M1: " + o.name())
    env.step(co)
    o = attempt_step(env, so)
    env.check((not o.ok) and o.exc is err, "handshake did not fail with the checker's error: " + o.name())
    env.check(sv.time_checker.log[-1][0] == "time", "which operation")
    env.reach("M4")


def default_server(env, pinned=False):
    """default checker: any first time other than 0 or 1 is a bad peer"""
    w = World(env)
    from saltchannel.exceptions import BadPeer
    t = env.int("t", 0, U32)
    ch = AdvChan(env, [None])
    sv = make_server(env, w, ch)
    raw = b"SCv2" + bytes([1, 1 if pinned else 0]) + le(t, 4) + env.bytes("k", 32)
    if pinned:
        raw = raw + (sv.sig_keypair.pub if env.choice("own", 2) else env.bytes("other", 32))
    ch.sizes[0] = raw
    o = env.arun(sv.handshake)
    if env.Or(t == 0, t == 1):
        env.check(len(ch.sent) > 0, "no answer to M1 with a good time: " + o.name())
        env.reach("good")
    else:
        env.check((not o.ok) and isinstance(o.exc, BadPeer), "first time accepted: " + o.name())
        env.check(len(ch.sent) == 0, "answered M1 with a bad time")
        env.reach("bad")


def default_client(env):
    w = World(env, adv=True)
    from saltchannel.exceptions import BadPeer, ComException
    t = env.int("t", 0, U32)
    flags = env.int("flags", 0, 255)
    ch = AdvChan(env, [bytes([2, flags]) + le(t, 4) + env.bytes("k", 32)])
    cl = make_client(env, w, ch)
    o = env.arun(cl.handshake)
    env.check(len(ch.sent) == 1, "only M1 is sent")
    env.check(stamp(ch.sent[0], 6) == 0, "default first time")
    env.check((not o.ok) and isinstance(o.exc, ComException), "failure: " + o.name())
    if not env.Or(t == 0, t == 1):
        env.check(isinstance(o.exc, BadPeer), "first time accepted: " + o.name())
        env.check(len(w.log_open) == 0, "went on after a bad first time")
        env.reach("bad")
    else:
        env.reach("good")


def default_sends(env, buf_m2=False, buf_m4=False):
    """default keepers on both sides: accepted by default checkers; all times zero"""
    w = World(env, forge="never", distinct=True)
    cl, sv, a, b = honest_pair(env, w, buf_m2, buf_m4, False)
    m = env.bytes("m", 2)

    async def client():
        await cl.handshake()
        await cl.app_channel.write(m, m)

    async def server():
        await sv.handshake()
        return [await sv.app_channel.read() for _ in range(2)]
    run_pair(env, client(), server())
    env.check(stamp(a.sent[0], 6) == 0 and stamp(b.sent[0]) == 0, "first times")
    for (k, n, p, c) in w.log_box:
        env.check(stamp(p) == 0, "later times")
    env.reach("end")


def nss(env):
    """M2 with the no-such-server flag carries and is checked for the first time too"""
    w = World(env, distinct=True)
    a, b = pair(env)
    sv = make_server(env, w, b)
    cl = make_client(env, w, a, wanted=w.sig_keys("other").pub)
    cl.time_keeper, sv.time_keeper = Keeper(env, a, "ck"), Keeper(env, b, "sk")
    cl.time_checker, sv.time_checker = Checker(), Checker()
    co, so = cl.handshake(), sv.handshake()
    env.step(co)
    o = attempt_step(env, so)
    env.check(not o.ok, "server accepted")
    env.check(stamp(b.sent[0]) == sv.time_keeper.first, "time in M2")
    o = attempt_step(env, co)
    env.check(not o.ok, "client accepted")
    handed(env, cl.time_checker.log, "first", sv.time_keeper.first, "time of M2")
    env.reach("end")


class Lower(Chan):
    last_flag = False


def app(env, lower, keeper, checker):
    from saltchannel.v2.app_channel_v2 import AppChannelV2
    return AppChannelV2(lower, keeper, checker)


def app_write(env, ops=3):
    """each packet of every write carries the time of that write"""
    w = World(env)
    lo = Lower(env, [], [], "A")
    k = Keeper(env, lo, "k")
    ch = app(env, lo, k, Checker())
    for i in range(ops):
        n = 1 + env.choice("n", 3)
        big = env.choice("big", 2)
        ms = [env.bytes("m", 3 - j) for j in range(n)]
        if big:
            ms[-1] = env.blob("big", 65000, 70000)
        k.ticks += 1
        t = k.now()
        s0 = len(lo.sent)
        env.run(ch.write(*ms))
        new = lo.sent[s0:]
        env.check(len(new) >= 1, "nothing sent")
        for p in new:
            env.check(stamp(p) == t, "time of the packet")
    env.reach("end")


def app_read(env, kind="single", n=2):
    """any packet with any time; rejected packets deliver nothing, neither now nor later"""
    w = World(env)
    from saltchannel.exceptions import ComException
    lo = Lower(env, [], [], "A")
    err = error(env)
    rej = bool(env.choice("reject", 2))
    chk = Checker(0 if rej else None, err)
    ch = app(env, lo, Keeper(env, lo, "k"), chk)
    t = env.int("t", 0, U32)
    if kind == "single":
        ms = [env.blob("m", 0, 70000)]
        raw = bytes([5, 0]) + le(t, 4) + ms[0]
    else:
        ms = [env.blob("m", 0, 70) for _ in range(n)]
        raw = bytes([11, 0]) + le(t, 4) + le(n, 2)
        for m in ms:
            raw = raw + le(len(m), 2) + m
    t2, nxt = env.int("t2", 0, U32), env.bytes("next", 3)
    lo.inq += [raw, bytes([5, 0]) + le(t2, 4) + nxt]
    o = env.arun(ch.read)
    handed(env, chk.log, "time", t, "time of the packet")
    if rej:
        env.check((not o.ok) and o.exc is err, "read did not fail with the checker's error: " + o.name())
        chk.reject = None
        env.reach("rejected")
    else:
        env.check(o.ok, "read failed: " + o.name())
        env.check(o.value == ms[0], "content")
        for m in ms[1:]:
            env.check(env.run(ch.read()) == m, "content")
        env.check(len(lo.inq) == 1, "one packet read")
        env.reach("accepted")
    del chk.log[:]
    env.check(env.run(ch.read()) == nxt, "the next packet follows")
    handed(env, chk.log, "time", t2, "time of the next packet")


def app_any(env, lo_=0, hi=30):
    """arbitrary packets: whatever is delivered was checked with the time in the packet"""
    w = World(env)
    from saltchannel.exceptions import ComException
    lo = Lower(env, [], [], "A")
    chk = Checker()
    ch = app(env, lo, Keeper(env, lo, "k"), chk)
    raw = env.sblob("raw", lo_, hi)
    lo.inq.append(raw)
    o = env.arun(ch.read)
    if o.ok:
        handed(env, chk.log, "time", stamp(raw), "time of the packet")
        env.reach("delivered")
    else:
        env.reach("refused")


S = lambda fn, reach=("end",), **k: dict({"fn": fn, "reach": list(reach)}, **k)
SCENARIOS = []
for _b2 in (False, True):
    for _b4 in (False, True):
        SCENARIOS.append(S("handshake", args={"buf_m2": _b2, "buf_m4": _b4, "n": 1 + (_b2 != _b4)}, bounds="one handshake, one write each way, any 32-bit clock values"))
        SCENARIOS.append(S("reject_client", ("M2", "M3"), args={"buf_m2": _b2, "buf_m4": _b4}, bounds="rejection of M2 or M3, four kinds of error"))
    SCENARIOS.append(S("reject_server", ("M1", "M4"), args={"buf_m2": _b2}, bounds="rejection of M1 or M4, four kinds of error"))
    SCENARIOS.append(S("default_server", ("good", "bad"), args={"pinned": _b2}, bounds="any 32-bit first time"))
    SCENARIOS.append(S("default_sends", args={"buf_m2": _b2, "buf_m4": not _b2}))
SCENARIOS += [
    S("default_client", ("good", "bad"), bounds="any 32-bit first time, any flags"),
    S("nss"),
    S("app_write", args={"ops": 2}, bounds="2 writes of 1..3 messages, one up to 70000 bytes, any clock"),
    S("app_read", ("accepted", "rejected"), args={"kind": "single"}, bounds="any time, message 0..70000 bytes"),
    S("app_read", ("accepted", "rejected"), args={"kind": "multi", "n": 1}, bounds="any time, 1 message"),
    S("app_read", ("accepted", "rejected"), args={"kind": "multi", "n": 3}, bounds="any time, 3 messages"),
    S("app_any", ("delivered", "refused"), args={"hi": 17}, bounds="any packet of 0..17 bytes"),
    S("app_write", args={"ops": 3}, bounds="3 writes of 1..3 messages, one up to 70000 bytes, any clock", tier="thorough"),
    S("app_any", ("delivered", "refused"), args={"lo_": 18, "hi": 26}, bounds="any packet of 18..26 bytes", tier="thorough"),
]
