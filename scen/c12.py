"""C12: A1/A2 discovery between client and server sessions."""
from scen.world import World, Chan, pair
from scen.sess import make_server, AdvChan, run_pair, le
from scen.c03 import a1_valid, okchar
ASSUMPTIONS = ["oracle: A1/A2 formats as in scen/c03.py; trailing bytes after the last complete A2 entry are unspecified"]
DEFAULT = bytes([9, 0x80, 1]) + b"SCv2------" + b"----------"
NSS = bytes([9, 0x81, 0])


def is_m1(env, raw):
    if len(raw) < 42:
        return False
    ok = env.And(env.same(raw[:4], b"SCv2"), raw[4] == 1)
    if len(raw) < 74:
        ok = env.And(ok, (raw[5] & 1) == 0)
    return ok


def user_a2(env, n):
    """an A2 the user configures, with n protocols"""
    from saltchannel.a1a2.packets import A2Packet
    raw = bytes([9, 0x80, n]) + env.bytes("prot", 20 * n)
    for i in range(20 * n):
        env.assume(okchar(env, raw[3 + i]))
    return A2Packet(src_buf=raw), raw


def answer(env, w, sv, ch, raw, o, configured):
    from saltchannel.exceptions import BadPeer
    if is_m1(env, raw):
        env.reach("m1")
        return
    if a1_valid(env, raw):
        env.check(o.ok, "valid A1 refused: " + o.name())
        env.check(len(ch.writes) == 1, "exactly one write")
        env.check(len(ch.sent) == 1, "exactly one packet")
        if env.And(raw[2] == 1, env.Not(env.same(raw[5:], sv.sig_keypair.pub))):
            env.check(ch.sent[0] == NSS, "A2 no such server")
            env.reach("nss")
        else:
            env.check(ch.sent[0] == configured, "A2 content")
            env.reach("answer")
        env.check(ch.writes[0][1] == True, "transport told about the last packet")
        env.check(sv.is_done == True, "server is done")
        env.check(sv.app_channel is None and sv.enc_channel is None, "no session")
    else:
        env.check((not o.ok) and isinstance(o.exc, BadPeer), "invalid first packet: " + o.name())
        env.check(len(ch.writes) == 0, "answered an invalid packet")
        env.check(not sv.is_done, "server reports itself done")
        env.reach("invalid")
    env.check(len(w.log_sign) == 0 and len(w.log_box) == 0, "no signature, no encryption")


def server(env, lo=0, hi=45, prots=-1, first=None):
    """any first packet"""
    w = World(env)
    ch = AdvChan(env, [None])
    sv = make_server(env, w, ch)
    conf = DEFAULT
    if prots >= 0:
        sv.a2, conf = user_a2(env, prots)
    raw = env.sblob("raw", lo, hi)
    if first is not None:
        env.assume(raw[0] == first)
    ch.sizes[0] = raw
    o = env.arun(sv.handshake)
    answer(env, w, sv, ch, raw, o, conf)


def server_own(env, prots=-1):
    """a request for the server's own public key"""
    w = World(env)
    ch = AdvChan(env, [None])
    sv = make_server(env, w, ch)
    conf = DEFAULT
    if prots >= 0:
        sv.a2, conf = user_a2(env, prots)
    key = sv.sig_keypair.pub
    if env.choice("near", 2):
        i = env.choice("i", 32)
        key = key[:i] + bytes([env.int("b", 0, 255)]) + key[i + 1:]
    raw = bytes([8]) + bytes([env.int("res", 0, 255)]) + bytes([1, 32, 0]) + key
    ch.sizes[0] = raw
    o = env.arun(sv.handshake)
    answer(env, w, sv, ch, raw, o, conf)


def twice(env):
    """two requests on two sessions sharing one configured A2: the answers do not influence each other"""
    w = World(env, distinct=True)
    a2, conf = user_a2(env, 1)
    for i in range(3):
        ch = AdvChan(env, [None])
        sv = make_server(env, w, ch, "s%d" % i)
        sv.a2 = a2
        raw = [bytes([8, 0, 1, 32, 0]) + env.bytes("k", 32), bytes([8, 0, 0, 0, 0]), bytes([8, 0, 1, 32, 0]) + sv.sig_keypair.pub][i]
        ch.sizes[0] = raw
        o = env.arun(sv.handshake)
        answer(env, w, sv, ch, raw, o, conf)
    env.reach("end")


def same_server(env, prots=1):
    """several requests to one server session: each is answered as the first"""
    w = World(env, distinct=True)
    reqs = [env.choice("req", 3) for i in range(3)]
    ch = AdvChan(env, [])
    sv = make_server(env, w, ch)
    conf = DEFAULT
    if prots >= 0:
        sv.a2, conf = user_a2(env, prots)
    for i, r in enumerate(reqs):
        raw = [bytes([8, 0, 1, 32, 0]) + env.bytes("k", 32), bytes([8, 0, 0, 0, 0]), bytes([8, 0, 1, 32, 0]) + sv.sig_keypair.pub][r]
        ch.sizes.append(raw)
        n0 = len(ch.sent)
        o = env.arun(sv.handshake)
        env.check(o.ok, "request %d: raised %s" % (i, o.name()))
        env.check(len(ch.sent) == n0 + 1, "one answer each")
        own = env.same(raw[5:], sv.sig_keypair.pub) if r == 0 else True
        env.check(ch.sent[-1] == (conf if own else NSS), "answer")
        env.check(sv.is_done == True, "done")
    env.reach("end")


def a2_valid(env, raw):
    """(specified, valid)"""
    if len(raw) < 3:
        return False
    cnt = raw[2]
    n = (len(raw) - 3) // 20
    ok = env.And(raw[0] == 9, (raw[1] & 0x80) != 0, cnt == n, env.Implies((raw[1] & 1) == 1, cnt == 0))
    for i in range(20 * n):
        ok = env.And(ok, okchar(env, raw[3 + i]))
    return ok


def client(env, n=1, lo=None, hi=None, sync=False):
    """any reply to the discovery client"""
    w = World(env)
    from saltchannel.a1a2.a1_client_session import A1ClientSession
    from saltchannel.a1a2.packets import A1Packet
    from saltchannel.exceptions import BadPeer
    raw = env.bytes("reply", 3 + 20 * n) if lo is None else env.sblob("reply", lo, hi)
    ch = AdvChan(env, [raw])
    s = A1ClientSession(ch)
    if env.choice("pubkey", 2):
        key = env.bytes("key", 32)
        s.a1.data.AddressType = A1Packet.ADDRESS_TYPE_PUBKEY
        s.a1.data.AddressSize = 32
        s.a1.Address = key
        req = bytes([8, 0, 1, 32, 0]) + key
    else:
        req = bytes([8, 0, 0, 0, 0])
    o = env.attempt(s.do_a1a2_sync) if sync else env.arun(s.do_a1a2)
    env.check(len(ch.sent) == 1, "one request")
    env.check(ch.sent[0] == req, "request bytes")
    env.check(o.ok or isinstance(o.exc, BadPeer), "raised " + o.name())
    if (len(raw) - 3) % 20 == 0 or len(raw) < 3:
        env.check(env.Iff(a2_valid(env, raw), o.ok), "reply accepted iff valid")
    if o.ok:
        env.check(bytes(s.a2) == raw[:3 + (len(raw) - 3) // 20 * 20], "A2 obtained is the one received")
        env.check(env.Iff((raw[1] & 1) == 1, s.a2.data.Header.NoSuchServer == 1), "no-such-server field")
        env.check(s.a2.data.Count == raw[2], "protocol count")
        env.reach("accepted")
    else:
        env.check(s.a2 is None, "A2 present after a bad reply")
        env.reach("rejected")


def client_again(env, sync=False):
    """one discovery client used for several requests: each obtains the reply to that request"""
    w = World(env)
    from saltchannel.a1a2.a1_client_session import A1ClientSession
    from saltchannel.exceptions import BadPeer
    raws = [env.bytes("reply", 3), env.bytes("reply", 23), env.bytes("reply", 3)]
    ch = AdvChan(env, raws)
    s = A1ClientSession(ch)
    for i, raw in enumerate(raws):
        o = env.attempt(s.do_a1a2_sync) if sync else env.arun(s.do_a1a2)
        env.check(len(ch.sent) == i + 1, "one request each time")
        env.check(ch.sent[i] == bytes([8, 0, 0, 0, 0]), "request bytes")
        env.check(o.ok or isinstance(o.exc, BadPeer), "raised " + o.name())
        env.check(env.Iff(a2_valid(env, raw), o.ok), "reply accepted iff valid")
        if o.ok:
            env.check(bytes(s.a2) == raw, "A2 obtained is the one received")
            env.reach("accepted")
        else:
            env.reach("rejected")


def end_to_end(env, sync=False):
    """discovery client against the real server session"""
    w = World(env)
    from saltchannel.a1a2.a1_client_session import A1ClientSession
    from saltchannel.a1a2.packets import A1Packet
    a, b = pair(env)
    sv = make_server(env, w, b)
    conf = DEFAULT
    np = env.choice("prots", 4)
    if np:
        sv.a2, conf = user_a2(env, np - 1)
    s = A1ClientSession(a)
    kind = env.choice("kind", 3)
    if kind:
        key = sv.sig_keypair.pub if kind == 1 else env.bytes("key", 32)
        s.a1.data.AddressType = A1Packet.ADDRESS_TYPE_PUBKEY
        s.a1.data.AddressSize = 32
        s.a1.Address = key
        if env.Not(env.same(key, sv.sig_keypair.pub)):
            conf = NSS
    run_pair(env, s.do_a1a2(), sv.handshake())
    env.check(bytes(s.a2) == conf, "client obtains exactly the A2")
    env.check(bytes(s.a2) == b.sent[0], "client obtains exactly what the server sent")
    env.check(sv.is_done == True, "server done")
    env.check(len(a.inq) == 0 and len(b.inq) == 0, "nothing left over")
    env.reach("end")


S = lambda fn, reach=("end",), **k: dict({"fn": fn, "reach": list(reach)}, **k)
SCENARIOS = [
    S("server", ("answer", "nss", "invalid"), args={"prots": -1, "hi": 39}, bounds="any first packet of 0..39 bytes, default protocols"),
    S("server", ("invalid", "m1"), args={"lo": 40, "hi": 80}, bounds="any first packet of 40..80 bytes, default protocols"),
    S("server", ("answer", "nss", "invalid"), args={"prots": 1, "lo": 3, "hi": 39}, bounds="any first packet of 3..39 bytes, 1 user protocol"),
    S("server", ("answer", "nss", "invalid"), args={"prots": 0, "lo": 5, "hi": 37, "first": 8}, bounds="A1-like packets of 5..37 bytes, user A2 without protocols"),
    S("server", ("answer", "nss", "invalid"), args={"prots": 3, "lo": 5, "hi": 37, "first": 8}, bounds="A1-like packets of 5..37 bytes, 3 user protocols"),
    S("server_own", ("answer", "nss"), args={"prots": -1}), S("server_own", ("answer", "nss"), args={"prots": 2}),
    S("twice"),
    S("same_server", args={"prots": -1}, bounds="three requests of any kind to one server session, default protocols"),
    S("same_server", args={"prots": 1}, bounds="three requests of any kind to one server session, user protocols"),
    S("client", ("accepted", "rejected"), args={"n": 0}, bounds="any 3-byte reply"),
    S("client", ("accepted", "rejected"), args={"n": 1}, bounds="any 23-byte reply"),
    S("client", ("accepted", "rejected"), args={"n": 2}, bounds="any 43-byte reply"),
    S("client", ("accepted", "rejected"), args={"n": 1, "sync": True}, bounds="any 23-byte reply, blocking client"),
    S("client", ("rejected",), args={"lo": 0, "hi": 24}, bounds="any reply of 0..24 bytes"),
    S("client", ("accepted", "rejected"), args={"n": 4}, bounds="any 83-byte reply", tier="thorough"),
    S("client_again", ("accepted", "rejected"), bounds="three requests by one client, any replies of 3, 23 and 3 bytes"),
    S("client_again", ("accepted", "rejected"), args={"sync": True}, bounds="three requests by one client, any replies of 3, 23 and 3 bytes, blocking"),
    S("end_to_end", bounds="any request against a server with default or 0..2 user protocols"),
]
