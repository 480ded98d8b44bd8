"""C06: encrypted channel returns only the peer's next message; everything else is BadPeer and leaves the channel usable."""
from scen.world import World, Chan, pair, nonce_bytes
ASSUMPTIONS = ["ideal authenticated encryption: opening succeeds exactly for (key, nonce, ciphertext) triples that were produced",
               "the header flag byte is not authenticated by the protocol; nothing is claimed about it here"]


def channels(env, w, rx_role, key, **k):
    from saltchannel.v2.encrypted_channel_v2 import EncryptedChannelV2, Role
    a, b = Chan(env, [], []), Chan(env, [], [])
    rs, rr = (Role.CLIENT, Role.SERVER) if rx_role == "server" else (Role.SERVER, Role.CLIENT)
    return EncryptedChannelV2(a, key, rs, **k), EncryptedChannelV2(b, key, rr, **k), a, b


def expect(env, rx, ch, raw, want_packet, want_msg):
    """deliver raw; returns True when it was (rightly) accepted"""
    from saltchannel.exceptions import BadPeer
    ch.inq.append(raw)
    o = env.arun(rx.read)
    if len(raw) == 0 or want_packet is None:
        genuine = False
    else:
        genuine = env.And(raw[0] == 6, env.same(raw[2:], want_packet[2:]))
    env.check(o.ok or isinstance(o.exc, BadPeer), "read raised %s" % o.name())
    env.check(env.Iff(genuine, o.ok), "accepted iff it is the peer's next packet")
    if o.ok:
        env.check(env.isbytes(o.value), "message type")
        env.check(o.value == want_msg, "message unaltered")
        env.reach("accepted")
    else:
        env.reach("rejected")
    return o.ok


def attack(env, rx="server", sent=3, reads=4, mlen=8):
    """the attacker delivers any of: a genuine packet, one reflected back, one of another session, or arbitrary bytes"""
    w = World(env, forge="never")
    key, key2 = env.bytes("key", 32), env.bytes("key2", 32)
    env.assume(env.Not(env.same(key, key2)))
    tx, r, ca, cb = channels(env, w, rx, key)
    tx2, r2, ca2, cb2 = channels(env, w, rx, key2)
    msgs = [env.bytes("m%d" % i, mlen * (i % 2)) for i in range(sent)]
    for m in msgs:
        env.run(tx.write(m))
    env.run(r.write(env.bytes("own", mlen)))            # packet of the receiver itself, to be reflected
    env.run(tx2.write(env.bytes("other", mlen)))        # packet of another session
    gen, own, other = ca.sent, cb.sent[0], ca2.sent[0]
    env.check(len(gen) == sent, "one packet per message")
    nxt = 0
    for i in range(reads):
        k = env.choice("deliver", sent + 3)
        if k < sent:
            raw = gen[k]
        elif k == sent:
            raw = own
        elif k == sent + 1:
            raw = other
        else:
            raw = env.bytes("raw", 2 + mlen + 16)
        if expect(env, r, cb, raw, gen[nxt] if nxt < sent else None, msgs[nxt] if nxt < sent else None):
            nxt += 1
    while nxt < sent:                                   # afterwards the genuine packets still get through
        env.check(expect(env, r, cb, gen[nxt], gen[nxt], msgs[nxt]), "genuine packet rejected after an attack")
        nxt += 1
    env.reach("end")


def arbitrary(env, rx="server", hi=70000):
    """any byte string instead of the next packet, then the genuine packet"""
    w = World(env, forge="never")
    key = env.bytes("key", 32)
    tx, r, ca, cb = channels(env, w, rx, key)
    m = env.blob("m", 0, 69000)
    env.run(tx.write(m))
    raw = env.blob("raw", 0, hi)
    if not expect(env, r, cb, raw, ca.sent[0], m):
        env.check(expect(env, r, cb, ca.sent[0], ca.sent[0], m), "genuine packet rejected after garbage")
    env.reach("end")


def tamper(env, rx="server", n=9):
    """genuine packet with one byte changed, bytes cut off or bytes appended"""
    w = World(env, forge="never")
    tx, r, ca, cb = channels(env, w, rx, env.bytes("key", 32))
    m = env.bytes("m", n)
    env.run(tx.write(m))
    p = ca.sent[0]
    kind = env.choice("kind", 3)
    if kind == 0:
        i = env.choice("pos", len(p))
        x = env.int("xor", 1, 255)
        raw = p[:i] + bytes([p[i] ^ x]) + p[i + 1:]
        if i == 1:
            return
    elif kind == 1:
        raw = p[:env.choice("cut", len(p))]
    else:
        raw = p + env.sblob("extra", 1, 3)
    ok = expect(env, r, cb, raw, p, m)
    env.check(not ok, "tampered packet accepted")
    env.check(expect(env, r, cb, p, p, m), "genuine packet rejected after tampering")
    env.reach("end")


def honest(env, rx="server"):
    """batches of any messages (any length) arrive unaltered and in order"""
    w = World(env, forge="never")
    tx, r, ca, cb = channels(env, w, rx, env.bytes("key", 32))
    msgs = []
    for b in range(2):
        n = 1 + env.choice("batch", 2)
        ms = [env.blob("m", 0, 70000) for _ in range(n)]
        env.run(tx.write(*ms, is_last=bool(env.choice("last", 2))))
        msgs += ms
    env.check(len(ca.sent) == len(msgs), "one packet per message")
    for p, m in zip(ca.sent, msgs):
        env.check(len(p) == len(m) + 18, "packet size")
        cb.inq.append(p)
        got = env.run(r.read())
        env.check(got == m, "message unaltered")
    env.reach("end")


def session_nonce(env):
    """packets written under another session nonce are rejected"""
    w = World(env, forge="never")
    from saltchannel.v2.encrypted_channel_v2 import EncryptedChannelV2, Role
    key, n1, n2 = env.bytes("key", 32), env.bytes("n1", 8), env.bytes("n2", 8)
    a, b = Chan(env, [], []), Chan(env, [], [])
    tx = EncryptedChannelV2(a, key, Role.CLIENT, session_nonce=n1)
    r = EncryptedChannelV2(b, key, Role.SERVER, session_nonce=n2)
    m = env.bytes("m", 5)
    env.run(tx.write(m))
    b.inq.append(a.sent[0])
    o = env.arun(r.read)
    env.check(env.Iff(env.same(n1, n2), o.ok), "accepted iff the session nonce is the same")
    env.reach("same" if o.ok else "different")


def read_fault(env, rx="server"):
    """a transport error while reading passes through and loses nothing"""
    w = World(env, forge="never")
    tx, r, ca, cb = channels(env, w, rx, env.bytes("key", 32))
    from saltchannel.exceptions import ComException
    m1, m2 = env.bytes("m1", 5), env.bytes("m2", 5)
    env.run(tx.write(m1))
    env.run(tx.write(m2))

    class Broken:
        def __init__(self, inner):
            self.inner, self.fail = inner, False

        async def read(self):
            if self.fail:
                self.fail = False
                raise ComException("broken")
            return await self.inner.read()
    br = Broken(cb)
    r.channel = br
    cb.inq += ca.sent
    at = env.choice("fail at", 3)
    got = []
    for i in range(3):
        br.fail = i == at
        o = env.arun(r.read)
        if i == at:
            env.check((not o.ok) and isinstance(o.exc, ComException), "transport error passes through: " + o.name())
        else:
            env.check(o.ok, "read after a transport error")
            got.append(o.value)
    env.check(len(got) == 2, "two messages")
    env.check(got[0] == m1, "first message")
    env.check(got[1] == m2, "second message")
    env.reach("end")


SCENARIOS = []
for _r in ("server", "client"):
    SCENARIOS += [
        {"fn": "attack", "args": {"rx": _r, "sent": 2, "reads": 3}, "reach": ["accepted", "rejected", "end"],
         "bounds": "2 messages, 3 deliveries chosen by the attacker"},
        {"fn": "attack", "args": {"rx": _r, "sent": 3, "reads": 4}, "reach": ["accepted", "rejected", "end"],
         "bounds": "3 messages, 4 deliveries chosen by the attacker", "tier": "thorough"},
        {"fn": "arbitrary", "args": {"rx": _r}, "reach": ["accepted", "rejected", "end"], "bounds": "any byte string of 0..70000 bytes"},
        {"fn": "tamper", "args": {"rx": _r, "n": 0}, "reach": ["rejected", "end"], "bounds": "empty message; one byte changed anywhere, any truncation, 1..3 appended bytes"},
        {"fn": "tamper", "args": {"rx": _r}, "reach": ["rejected", "end"], "bounds": "one byte changed anywhere, any truncation, 1..3 appended bytes"},
        {"fn": "honest", "args": {"rx": _r}, "reach": ["end"], "bounds": "2 batches of 1..2 messages of any length 0..70000"},
        {"fn": "read_fault", "args": {"rx": _r}, "reach": ["end"], "bounds": "transport error at any of 3 reads"},
    ]
SCENARIOS += [{"fn": "session_nonce", "reach": ["same", "different"], "bounds": "all session nonces"}]
