"""C20: whatever the peer sends, only errors of the communication-error family."""
from scen.world import World, Chan
from scen.sess import make_client, make_server, AdvChan, le
ASSUMPTIONS = ["ideal primitives as in scen/world.py; the attacker may know the session key (any ciphertext may open to any plaintext, any signature may be accepted or not), key agreement may fail for any foreign key",
               "the transport ends with a ComException after the packets"]


class Lower(Chan):
    last_flag = False


def world(env, lib="native", **k):
    """world in which sessions use the given back-end"""
    w = World(env, adv=True, forge="any", **k)
    if lib != "native":
        type(w.sodium)._name = None
    if lib == "tweetnacl":
        from saltchannel.saltlib.saltlib_pynacl import SaltLibPyNaCl
        w.saved = SaltLibPyNaCl, SaltLibPyNaCl.__dict__.get("isAvailable")
        SaltLibPyNaCl.isAvailable = staticmethod(lambda: False)
    return w


def restore(w):
    if getattr(w, "saved", None):
        w.saved[0].isAvailable = w.saved[1]


def judge(env, o, what):
    from saltchannel.exceptions import ComException
    env.check(o.ok or isinstance(o.exc, ComException), "%s raised %s" % (what, o.name()))
    env.reach(what + (" ok" if o.ok else " failed"))
    return o.ok


def sync_or(env, sync, f, g):
    return env.attempt(g) if sync else env.arun(f)


def client(env, m2=(0, 50), m3=(0, 140), app=(0, 30), buf=False, lib="native", pinned=False, sync=False, reads=1, dh=True):
    w = world(env, lib, dh_may_fail=dh, distinct=True)
    try:
        ch = AdvChan(env, [m2, m3] + [app] * reads)
        cl = make_client(env, w, ch, buf_m4=buf, wanted=env.bytes("wanted", 32) if pinned else None)
        if judge(env, sync_or(env, sync, cl.handshake, getattr(cl, "handshake_sync", None)), "handshake"):
            if cl.app_channel is not None:
                for i in range(reads):
                    o = sync_or(env, sync, cl.app_channel.read, getattr(cl.app_channel, "read_sync", None))
                    judge(env, o, "read")
    finally:
        restore(w)


def server(env, m1=(0, 50), m4=(0, 140), app=(0, 30), buf=False, lib="native", sync=False, reads=1, dh=True):
    w = world(env, lib, dh_may_fail=dh, distinct=True)
    try:
        ch = AdvChan(env, [m1, m4] + [app] * reads)
        sv = make_server(env, w, ch, buf_m2=buf)
        if judge(env, sync_or(env, sync, sv.handshake, getattr(sv, "handshake_sync", None)), "handshake"):
            if sv.app_channel is not None:
                for i in range(reads):
                    o = sync_or(env, sync, sv.app_channel.read, getattr(sv.app_channel, "read_sync", None))
                    judge(env, o, "read")
    finally:
        restore(w)


M2, ENC = bytes([2, 0, 0, 0, 0, 0]), bytes([6, 0])


def session_app(env, role="client", app=(21, 27), then=25, lib="native"):
    """an attacker who completed the handshake sends arbitrary application packets"""
    w = world(env, lib, distinct=True)
    reads, apps = 2, [app, then]
    try:
        if role == "client":
            ch = AdvChan(env, [M2 + env.bytes("k", 32), ENC + env.bytes("m3", 118)] + apps)
            s = make_client(env, w, ch)
        else:
            ch = AdvChan(env, [b"SCv2" + bytes([1, 0, 0, 0, 0, 0]) + env.bytes("k", 32), ENC + env.bytes("m4", 118)] + apps)
            s = make_server(env, w, ch)
        if judge(env, env.arun(s.handshake), "handshake"):
            for i in range(reads):
                judge(env, env.arun(s.app_channel.read), "read")
            judge(env, env.arun(s.app_channel.write, b"x", b"y"), "write")
    finally:
        restore(w)


def app_chan():
    from saltchannel.v2.app_channel_v2 import AppChannelV2
    from saltchannel.util.time import NullTimeKeeper, NullTimeChecker
    return lambda lo: AppChannelV2(lo, NullTimeKeeper(), NullTimeChecker())


def app_small(env, lo=0, hi=17):
    """any decrypted packet"""
    w = World(env)
    low = AdvChan(env, [None])
    low.last_flag = False
    low.sizes[0] = env.sblob("raw", lo, hi)
    c = app_chan()(low)
    if judge(env, env.arun(c.read), "read"):
        for i in range(2):
            judge(env, env.arun(c.read), "read")


def app_multi(env, cnt=2, hi=70000):
    """multi-message packets with any declared lengths and any size"""
    w = World(env)
    low = AdvChan(env, [None])
    low.last_flag = False
    n = env.int("count", 0, cnt)
    low.sizes[0] = bytes([11]) + env.bytes("f", 5) + le(n, 2) + env.blob("body", 0, hi)
    c = app_chan()(low)
    judge(env, env.arun(c.read), "read")


def app_blob(env, hi=70000):
    """any packet of any size except the multi-message kind"""
    w = World(env)
    low = AdvChan(env, [None])
    low.last_flag = False
    n = env.int("count", 0, 2)
    raw = env.bytes("f", 6) + le(n, 2) + env.blob("body", 0, hi)
    env.assume(raw[0] != 11)
    low.sizes[0] = raw
    c = app_chan()(low)
    judge(env, env.arun(c.read), "read")


def enc(env, lib="native", reads=2, size=(0, 70000), role="client"):
    """encrypted channel: any packets"""
    w = world(env, lib)
    try:
        from saltchannel.v2.encrypted_channel_v2 import EncryptedChannelV2, Role
        ch = AdvChan(env, [size] * reads)
        c = EncryptedChannelV2(ch, env.bytes("key", 32), Role.CLIENT if role == "client" else Role.SERVER)
        for i in range(reads):
            judge(env, env.arun(c.read), "read")
    finally:
        restore(w)


def discovery(env, lo=0, hi=25, sync=False):
    """any reply to the discovery client"""
    w = World(env)
    from saltchannel.a1a2.a1_client_session import A1ClientSession
    ch = AdvChan(env, [None])
    ch.sizes[0] = env.sblob("reply", lo, hi)
    s = A1ClientSession(ch)
    judge(env, sync_or(env, sync, s.do_a1a2, s.do_a1a2_sync), "discovery")


def discovery_big(env, n=128):
    """the largest replies"""
    w = World(env)
    from saltchannel.a1a2.a1_client_session import A1ClientSession
    k = n - 1 + env.choice("n", 2)
    cnt = env.int("count", 0, 255)
    prot = env.bytes("p", 20)
    s = A1ClientSession(AdvChan(env, [bytes([9, 0x80]) + bytes([cnt]) + prot + b"-" * (20 * (k - 1))]))
    judge(env, env.arun(s.do_a1a2), "discovery")


def first_packet(env, lo=0, hi=45, lib="native", prots=False):
    """any first packet at the server, byte by byte (discovery requests included)"""
    w = world(env, lib)
    try:
        ch = AdvChan(env, [None])
        sv = make_server(env, w, ch)
        ch.sizes[0] = env.sblob("raw", lo, hi)
        judge(env, env.arun(sv.handshake), "handshake")
    finally:
        restore(w)


def big_first(env, kind=8, hi=70000):
    """large first packets"""
    w = World(env)
    raw = env.blob("raw", 1, hi)
    env.assume(raw[0] == kind)
    ch = AdvChan(env, [raw])
    sv = make_server(env, w, ch)
    judge(env, env.arun(sv.handshake), "handshake")


def sock(env, hi=3000, sync=True, frags=1):
    """any byte stream and any end or failure of it, on a socket"""
    from scen.c13 import Sock, chan
    s = Sock(env, env.blob("stream", 0, hi), frags, fail_at=env.choice("fail_at", 4) - 1)
    c = chan(s)
    for i in range(2):
        judge(env, sync_or(env, sync, c.read, c.read_sync), "read")


def sock_session(env, role="client"):
    """any byte stream under a session"""
    w = world(env, dh_may_fail=True, distinct=True)
    from scen.c13 import Sock, chan
    s = Sock(env, env.concat(le(38, 4), env.bytes("p1", 38), env.blob("rest", 0, 150)) if role == "client" else env.concat(le(42, 4), env.bytes("p1", 42), env.blob("rest", 0, 150)), 0)
    c = chan(s)
    x = make_client(env, w, c) if role == "client" else make_server(env, w, c)
    judge(env, env.arun(x.handshake), "handshake")


S = lambda fn, reach=("end",), **k: dict({"fn": fn, "reach": list(reach)}, **k)
HS = ("handshake ok", "handshake failed")
RD = ("read ok", "read failed")
SCENARIOS = [
    S("client", HS + RD, args={"buf": False}, bounds="M2 0..50, M3 packet 0..140, application packet 0..30 bytes, any contents"),
    S("client", HS + RD, args={"m2": [0, 3000], "m3": [0, 70000], "app": 30, "buf": True, "dh": False}, bounds="M2 0..3000, M3 packet 0..70000 bytes, M4 buffered"),
    S("client", HS + RD, args={"pinned": True, "app": 30, "lib": "pynacl"}, bounds="the same on PyNaCl, server key pinned"),
    S("client", HS + RD, args={"sync": True, "app": 30, "lib": "tweetnacl"}, bounds="the same on TweetNaCl, blocking API"),
    S("server", HS + RD, args={"buf": False, "app": [22, 27]}, bounds="M1 0..50, M4 packet 0..140, application packet 22..27 bytes, any contents"),
    S("server", HS + RD, args={"buf": False}, bounds="M1 0..50, M4 packet 0..140, application packet 0..30 bytes, any contents", tier="thorough"),
    S("server", HS + RD, args={"m1": [0, 3000], "m4": [0, 70000], "app": 30, "buf": True, "dh": False}, bounds="M1 0..3000, M4 packet 0..70000 bytes, M2 buffered"),
    S("server", HS + RD, args={"lib": "pynacl", "app": 30, "sync": True}, bounds="the same on PyNaCl, blocking API"),
    S("server", HS + RD, args={"lib": "tweetnacl", "app": 30}, bounds="the same on TweetNaCl"),
    S("session_app", RD, args={"role": "client"}, bounds="application packets of 21..27 and 25 bytes after a handshake"),
    S("session_app", RD, args={"role": "server", "lib": "pynacl"}, bounds="application packets of 21..27 and 25 bytes after a handshake"),
    S("session_app", RD, args={"role": "client", "app": [0, 30], "then": [0, 30]}, bounds="two application packets of 0..30 bytes after a handshake", tier="thorough"),
    S("app_small", RD, bounds="any decrypted packet of 0..17 bytes"),
    S("app_small", RD, args={"lo": 18, "hi": 25}, bounds="any decrypted packet of 18..25 bytes", tier="thorough"),
    S("app_multi", RD, args={"cnt": 2}, bounds="0..2 declared messages, body 0..70000 bytes"),
    S("app_multi", RD, args={"cnt": 4}, bounds="0..4 declared messages, body 0..70000 bytes", tier="thorough"),
    S("app_blob", RD, bounds="any other packet of 8..70008 bytes whose bytes 6..7 are at most 2"),
    S("discovery", ("discovery ok", "discovery failed"), bounds="any reply of 0..25 bytes"),
    S("discovery", ("discovery ok", "discovery failed"), args={"lo": 40, "hi": 45, "sync": True}, bounds="any reply of 40..45 bytes, blocking"),
    S("discovery_big", ("discovery ok", "discovery failed"), bounds="127 and 128 protocols"),
    S("first_packet", HS, bounds="any first packet of 0..45 bytes"),
    S("first_packet", HS[1:], args={"lo": 46, "hi": 80, "lib": "pynacl"}, bounds="any first packet of 46..80 bytes"),
    S("big_first", HS, args={"kind": 8}, bounds="discovery requests of 1..70000 bytes"),
    S("big_first", HS[1:], args={"kind": 83}, bounds="M1-like packets of 1..70000 bytes"),
    S("sock", RD, args={"sync": True}, bounds="any stream of 0..3000 bytes, one short read, failure at any of the first 3 receives"),
    S("sock", RD, args={"sync": False}, bounds="any stream of 0..3000 bytes, one short read, failure at any of the first 3 receives"),
    S("sock_session", HS, args={"role": "client"}, bounds="any stream after a 38-byte packet"),
    S("sock_session", HS, args={"role": "server"}, bounds="any stream after a 42-byte packet"),
]
for _l in ("native", "pynacl", "tweetnacl"):
    SCENARIOS.append(S("enc", RD, args={"lib": _l, "role": "client" if _l == "native" else "server"}, bounds="two packets of 0..70000 bytes, any contents"))
