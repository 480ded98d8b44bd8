"""C11: virtual servers: only the wanted server serves the client."""
from scen.world import World, Chan, pair
from scen.sess import make_client, make_server, AdvChan, honest_pair, run_pair, le
ASSUMPTIONS = ["ideal primitives (World); attacker knows the session key in the client scenarios"]


def nss_m2(env, ch):
    env.check(len(ch.sent) == 1, "exactly one packet sent")
    m2 = ch.sent[0]
    env.check(len(m2) == 38, "size of the answer")
    env.check(m2[0] == 2, "answer is an M2")
    env.check(m2[1] == 0x81, "no such server and last flags")
    env.check(m2[2:] == bytes(36), "nothing else disclosed")
    env.check(ch.writes[0][1] is True or ch.writes[0][1] == True, "transport told about the last packet")


def server(env, extra=0, buf=False):
    """any M1 that includes a server key (flags byte arbitrary)"""
    w = World(env, adv=True, forge="any")
    from saltchannel.exceptions import NoSuchServerException, ComException
    ch = AdvChan(env, [None])
    sv = make_server(env, w, ch, buf_m2=buf)
    flags = env.int("flags", 0, 255)
    key = env.bytes("key", 32)
    ch.sizes[0] = b"SCv2" + bytes([1]) + bytes([flags]) + bytes(4) + env.bytes("cenc", 32) + key + env.bytes("x", extra)
    o = env.arun(sv.handshake)
    env.check(not o.ok, "completed without M4")
    env.check(isinstance(o.exc, ComException), "raised " + o.name())
    other = env.And((flags & 1) == 1, env.Not(env.same(key, sv.sig_keypair.pub)))
    if other:
        env.check(isinstance(o.exc, NoSuchServerException), "no-such-server error: " + o.name())
        nss_m2(env, ch)
        env.check(len(w.log_sign) == 0, "signed something for another server")
        env.check(len(w.log_box) == 0, "encrypted something for another server")
        env.reach("refused")
    else:
        env.check(not isinstance(o.exc, NoSuchServerException), "refused a client that wants this server")
        env.check(len(ch.sent) == 2, "M2 and M3 sent")
        env.check(ch.sent[0] == bytes([2, 0, 0, 0, 0, 0]) + sv.enc_keypair.pub, "normal M2")
        env.reach("served")


def server_near(env):
    """keys that differ from the server's in a single bit, a rotation, or are zero"""
    w = World(env, adv=True)
    from saltchannel.exceptions import NoSuchServerException
    ch = AdvChan(env, [None])
    sv = make_server(env, w, ch)
    own = sv.sig_keypair.pub
    kind = env.choice("kind", 4)
    if kind == 0:
        i = env.choice("i", 32)
        key = own[:i] + bytes([own[i] ^ (1 << env.choice("bit", 2) * 7)]) + own[i + 1:]
    elif kind == 1:
        key = own[1:] + own[:1]
    elif kind == 2:
        key = bytes(32)
    else:
        key = own[:31] + bytes([env.int("last", 0, 255)])
    same = env.same(key, own)
    ch.sizes[0] = b"SCv2" + bytes([1, 1, 0, 0, 0, 0]) + env.bytes("cenc", 32) + key
    o = env.arun(sv.handshake)
    env.check(env.Iff(same, not isinstance(o.exc, NoSuchServerException)), "served iff the key is its own")
    if isinstance(o.exc, NoSuchServerException):
        nss_m2(env, ch)
    env.reach("end")


def client(env, m2=(0, 50), m3=(0, 140), buf=False):
    """client naming a server key against arbitrary answers"""
    w = World(env, adv=True, forge="any")
    from saltchannel.exceptions import NoSuchServerException, ComException
    ch = AdvChan(env, [m2, m3])
    want = env.bytes("wanted", 32)
    cl = make_client(env, w, ch, buf_m4=buf, wanted=want)
    o = env.arun(cl.handshake)
    env.check(ch.sent[0] == b"SCv2" + bytes([1, 1, 0, 0, 0, 0]) + cl.enc_keypair.pub + want, "M1 names the wanted server")
    if o.ok:
        proven = False
        for (sig, m, pk, res) in w.log_verify:
            if res:
                proven = env.Or(proven, env.same(pk, want))
        env.check(proven, "completed with a server that did not prove the wanted key")
        env.check(cl.m3.ServerSigKey == want, "reported key is the wanted one")
        env.reach("completed")
    else:
        env.check(isinstance(o.exc, ComException), "failed with " + o.name())
        env.check(len(ch.sent) == 1, "sent something after M1")
        env.reach("failed")


def client_nss(env, pinned=True, extra=0, buf=False):
    """every M2 with the no-such-server bit"""
    w = World(env, adv=True, forge="any")
    from saltchannel.exceptions import NoSuchServerException
    flags = env.int("flags", 0, 255)
    env.assume((flags & 1) == 1)
    ch = AdvChan(env, [bytes([2]) + bytes([flags]) + bytes([env.int("t", 0, 1), 0, 0, 0]) + env.bytes("key", 32 + extra), 120])
    cl = make_client(env, w, ch, buf_m4=buf, wanted=env.bytes("wanted", 32) if pinned else None)
    o = env.arun(cl.handshake)
    env.check((not o.ok) and isinstance(o.exc, NoSuchServerException), "no-such-server error: " + o.name())
    env.check(len(ch.sent) == 1, "sent something after M1")
    env.reach("end")


def end_to_end(env, buf=False):
    """honest client and server, any wanted key"""
    w = World(env, forge="never")
    from saltchannel.exceptions import NoSuchServerException
    cl, sv, a, b = honest_pair(env, w, buf, buf, False)
    want = sv.sig_keypair.pub if env.choice("own", 2) else env.bytes("wanted", 32)
    cl.wanted_server_sig_key = want

    async def side(s):
        try:
            await s.handshake()
            return None
        except NoSuchServerException as e:
            return e

    async def server():
        r = await side(sv)
        return r

    async def client():
        r = await side(cl)
        if r is None and buf:
            await cl.app_channel.write(b"x")
        return r
    rc, rs = run_pair(env, client(), server())
    same = env.same(want, sv.sig_keypair.pub)
    env.check(env.Iff(same, rc is None), "client outcome")
    env.check(env.Iff(same, rs is None), "server outcome")
    env.reach("served" if rs is None else "refused")
    if rs is not None:
        nss_m2(env, b)
        env.check(len(a.sent) == 1, "client sent something more")


S = lambda fn, reach=("end",), **k: dict({"fn": fn, "reach": list(reach)}, **k)
SCENARIOS = [
    S("server", ("refused", "served"), args={"buf": False}, bounds="all flags and keys in M1"),
    S("server", ("refused", "served"), args={"buf": True}, bounds="all flags and keys in M1, M2 buffered"),
    S("server", ("refused", "served"), args={"extra": 3}, bounds="all flags and keys, 3 trailing bytes in M1"),
    S("server_near", bounds="single-bit neighbours (bits 0 and 7 of every byte), rotation, zero, any last byte"),
    S("client", ("completed", "failed"), args={"buf": False}, bounds="M2 0..50, M3 packet 0..140 bytes"),
    S("client", ("completed", "failed"), args={"buf": True}, bounds="M2 0..50, M3 packet 0..140 bytes, M4 buffered"),
    S("client", ("completed", "failed"), args={"m2": 38, "m3": 120}, bounds="M2 38, M3 packet 120 bytes"),
    S("client_nss", args={"pinned": True}), S("client_nss", args={"pinned": False}), S("client_nss", args={"extra": 4}),
    S("client_nss", args={"buf": True}),
    S("end_to_end", ("served", "refused"), args={"buf": False}), S("end_to_end", ("served", "refused"), args={"buf": True}),
]
