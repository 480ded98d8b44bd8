"""C21: the last-message flag."""
from scen.world import World, Chan, pair
from scen.sess import honest_pair, run_pair, AdvChan, le
ASSUMPTIONS = ["oracle: LastFlag is bit 7 of the second header byte of an encrypted packet; ideal crypto as in scen/world.py"]


def flag(raw):
    return (raw[1] & 0x80) != 0


def wire(env, ch, w0, last, n=None):
    """the writes since w0: one transport write, flag on its final packet iff last"""
    new = ch.writes[w0:]
    env.check(len(new) == 1, "one transport write")
    parts, told = new[0]
    if n is not None:
        env.check(len(parts) == n, "number of packets")
    for p in parts[:-1]:
        env.check(env.Not(flag(p)), "flag on a packet that is not the final one")
    env.check(env.Iff(flag(parts[-1]), last), "flag of the final packet")
    env.check(env.Iff(env.truth(told), last), "transport told")
    for p in parts:
        env.check(env.And(p[0] == 6, (p[1] & 0x7f) == 0), "rest of the header")


def enc_pair(env, w, relay=False):
    from saltchannel.v2.encrypted_channel_v2 import EncryptedChannelV2, Role
    from saltchannel.dev.mitm_channel import MitmChannel
    a, b = pair(env)
    key = env.bytes("key", 32)
    ra, rb = (MitmChannel(a), MitmChannel(b)) if relay else (a, b)
    return EncryptedChannelV2(ra, key, Role.CLIENT), EncryptedChannelV2(rb, key, Role.SERVER), a, b


def do_write(env, c, ms, last, sync):
    kw = {} if last is None else {"is_last": last}
    o = env.attempt(c.write_sync, *ms, **kw) if sync else env.arun(c.write, *ms, **kw)
    env.check(o.ok, "write failed: " + o.name())


def same_object(env, ms):
    """optionally one object several times"""
    return [ms[-1]] * len(ms) if len(ms) > 1 and env.choice("same object", 2) else ms


def encrypted(env, ops=2, relay=False, sync=False):
    """writes of batches through the encrypted channel, then reads"""
    w = World(env)
    tx, rx, a, b = enc_pair(env, w, relay)
    for i in range(ops):
        n = 1 + env.choice("n", 3)
        ms = same_object(env, [env.bytes("m", j) for j in range(n)])
        last = env.bool("last") if env.choice("kw", 2) else None
        w0 = len(a.writes)
        do_write(env, tx, ms, last, sync)
        wire(env, a, w0, last if last is not None else False, n)
    for p in list(b.inq):
        o = env.attempt(rx.read_sync) if sync else env.arun(rx.read)
        env.check(o.ok, "read failed: " + o.name())
        env.check(env.Iff(rx.last_flag, flag(p)), "receiver's last indicator")
    env.check(env.Not(tx.last_flag), "sender's own indicator is untouched")
    env.reach("end")


def app_over(env, ops=2, relay=False, sync=False, big=False):
    """application channel over the encrypted channel"""
    w = World(env)
    from saltchannel.v2.app_channel_v2 import AppChannelV2
    from saltchannel.util.time import NullTimeKeeper, NullTimeChecker
    tx, rx, a, b = enc_pair(env, w, relay)
    at, ar = AppChannelV2(tx, NullTimeKeeper(), NullTimeChecker()), AppChannelV2(rx, NullTimeKeeper(), NullTimeChecker())
    plan = []
    for i in range(ops):
        n = 1 + env.choice("n", 3)
        ms = same_object(env, [env.bytes("m", j) for j in range(n)])
        if big:
            ms[0] = env.blob("big", 65000, 66000)
        last = env.bool("last") if env.choice("kw", 2) else None
        w0 = len(a.writes)
        do_write(env, at, ms, last, sync)
        wire(env, a, w0, last if last is not None else False)
        parts = a.writes[-1][0]
        per = [1] * len(parts) if len(parts) == n else [n]
        env.check(len(parts) in (1, n), "packets of a batch")
        for p, k in zip(parts, per):
            plan += [flag(p)] * k
    for f in plan:
        o = env.attempt(ar.read_sync) if sync else env.arun(ar.read)
        env.check(o.ok, "read failed: " + o.name())
        env.check(env.Iff(ar.last, f), "receiver's last indicator")
    env.reach("end")


def crossing(env, sync=False):
    """a write marked last while messages received earlier are still unread, and reads in between"""
    w = World(env)
    from saltchannel.v2.app_channel_v2 import AppChannelV2
    from saltchannel.util.time import NullTimeKeeper, NullTimeChecker
    tx, rx, a, b = enc_pair(env, w)
    at, ar = AppChannelV2(tx, NullTimeKeeper(), NullTimeChecker()), AppChannelV2(rx, NullTimeKeeper(), NullTimeChecker())
    l1, l2, l3 = env.bool("l1"), env.bool("l2"), env.bool("l3")
    n = 1 + env.choice("n", 3)
    do_write(env, at, [env.bytes("m", 1) for _ in range(n)], l1, sync)
    reads = env.choice("reads", n + 1)
    for i in range(reads):
        o = env.attempt(ar.read_sync) if sync else env.arun(ar.read)
        env.check(o.ok, "read failed: " + o.name())
        env.check(env.Iff(ar.last, l1), "receiver's last indicator")
    w0 = len(b.writes)
    do_write(env, ar, [env.bytes("r", j) for j in range(1 + env.choice("k", 2))], l2, sync)
    wire(env, b, w0, l2)
    env.check(env.Iff(ar.last, l1) if reads else env.Not(ar.last), "writing does not change the receiver's indicator")
    w0 = len(a.writes)
    do_write(env, at, [env.bytes("m", 2)], l3, sync)
    wire(env, a, w0, l3)
    env.reach("end")


def handshake(env, buf_m2=False, buf_m4=False, n=1, relay=False, sync=False):
    """session: handshake packets carry no flag; the first write also when it carries the buffered M4"""
    w = World(env, forge="never", distinct=True)
    cl, sv, a, b = honest_pair(env, w, buf_m2, buf_m4, bool(env.choice("pinned", 2)))
    if relay:
        from saltchannel.dev.mitm_channel import MitmChannel
        cl.clear_channel, sv.clear_channel = MitmChannel(a), MitmChannel(b)
    last, last2 = env.bool("last"), env.bool("last2")
    ms = [env.bytes("m", 2) for _ in range(n)]
    mark = {}

    async def client():
        await cl.handshake()
        mark["c"] = len(a.writes)
        await cl.app_channel.write(*ms, is_last=last)
        mark["c2"] = len(a.writes)
        r = []
        for _ in ms:
            r.append(await cl.app_channel.read())
        mark["lc"] = cl.app_channel.last
        return r

    async def server():
        await sv.handshake()
        mark["s"] = len(b.writes)
        r, l = [], []
        for _ in ms:
            r.append(await sv.app_channel.read())
        mark["ls"] = sv.app_channel.last
        await sv.app_channel.write(*ms, is_last=last2)
        return r
    run_pair(env, client(), server())
    for ch, k in ((a, mark["c"]), (b, mark["s"])):
        for parts, told in ch.writes[:k]:
            env.check(env.Not(env.truth(told)), "handshake write marked as last")
            for p in parts:
                if env.truth(p[0] == 6) is not False:
                    env.check(env.Not(flag(p)), "handshake packet carries the flag")
    env.check(mark["c2"] == mark["c"] + 1, "one transport write")
    parts, told = a.writes[mark["c"]]
    env.check(len(parts) >= (2 if buf_m4 else 1), "M4 is sent with the first write")
    for p in parts[:-1]:
        env.check(env.Not(flag(p)), "flag on a packet that is not the final one")
    env.check(env.Iff(flag(parts[-1]), last), "flag of the final packet")
    env.check(env.Iff(env.truth(told), last), "transport told")
    wire(env, b, mark["s"], last2)
    env.check(env.Iff(mark["ls"], last), "server's last indicator")
    env.check(env.Iff(mark["lc"], last2), "client's last indicator")
    env.reach("end")


def received(env, reads=3, app=False):
    """packets with any header flags from the peer: the indicator follows each packet decrypted"""
    w = World(env)
    tx, rx, a, b = enc_pair(env, w)
    c = rx
    if app:
        from saltchannel.v2.app_channel_v2 import AppChannelV2
        from saltchannel.util.time import NullTimeKeeper, NullTimeChecker
        c = AppChannelV2(rx, NullTimeKeeper(), NullTimeChecker())
    ps = []
    for i in range(reads):
        env.run(tx.write(bytes([5, 0, 0, 0, 0, 0]) + env.bytes("m", 2)))
        p = b.inq.pop()
        ps.append(p[:1] + bytes([env.int("flags", 0, 255)]) + p[2:])
    b.inq += ps
    for p in ps:
        o = env.arun(c.read)
        env.check(o.ok, "read failed: " + o.name())
        env.check(env.Iff(c.last if app else rx.last_flag, flag(p)), "receiver's last indicator")
    env.reach("end")


def told(env, sync=False):
    """the transport under the relay, socket and stream channels is told / unaffected"""
    from saltchannel.dev.mitm_channel import MitmChannel
    ch = Chan(env, [], [])
    m = MitmChannel(ch)
    last = env.bool("last")
    ms = [env.bytes("m", 2) for _ in range(1 + env.choice("n", 2))]
    do_write(env, m, ms, last, sync)
    env.check(len(ch.writes) == 1, "one write")
    env.check(env.Iff(env.truth(ch.writes[0][1]), last), "transport told")
    env.reach("end")


S = lambda fn, reach=("end",), **k: dict({"fn": fn, "reach": list(reach)}, **k)
SCENARIOS = [
    S("received", args={"app": False}, bounds="3 packets with any header byte"), S("received", args={"app": True}, bounds="3 packets with any header byte"),
    S("crossing", args={"sync": False}, bounds="a batch of 1..3, 0..3 reads, a write back and a write on, flags symbolic"),
    S("crossing", args={"sync": True}, bounds="a batch of 1..3, 0..3 reads, a write back and a write on, flags symbolic"),
    S("told", args={"sync": False}), S("told", args={"sync": True}),
    S("app_over", args={"ops": 1, "big": True}, bounds="1 batch of 1..3 messages, one of 65000..66000 bytes"),
]
for _s in (False, True):
    for _r in (False, True):
        SCENARIOS += [S("encrypted", args={"ops": 2, "relay": _r, "sync": _s}, bounds="2 batches of 1..3, flag symbolic"),
                      S("app_over", args={"ops": 2, "relay": _r, "sync": _s}, bounds="2 batches of 1..3, flag symbolic")]
        for _n in (1, 2):
            SCENARIOS.append(S("handshake", args={"buf_m2": _s, "buf_m4": _r, "n": _n, "relay": _s != _r}, bounds="one write each way of %d messages" % _n))
SCENARIOS += [S("encrypted", args={"ops": 3}, bounds="3 batches of 1..3, flag symbolic", tier="thorough"),
              S("app_over", args={"ops": 3}, bounds="3 batches of 1..3, flag symbolic", tier="thorough")]
