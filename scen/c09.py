"""C09: the server completes only with a valid client signature over this very handshake."""
from scen.world import World, Chan, pair, nonce_bytes
from scen.sess import make_client, make_server, AdvChan, le
ASSUMPTIONS = ["attacker knows the session key: decryption of attacker packets yields arbitrary plaintext (World adv=True)",
               "signature verification verdicts are arbitrary but functional (World forge='any'); SHA-512 collision free"]


from scen.c08 import Clock, AnyTime


def t(raw):
    """the time field is C17's business: content without it"""
    return raw[:2] + raw[6:]


def judge(env, w, sv, ch, o):
    from saltchannel.exceptions import ComException
    if not o.ok:
        env.check(isinstance(o.exc, ComException), "handshake failed with %s" % o.name())
        env.reach("failed")
    m1 = ch.got[0]
    session = o.ok and not sv.is_done
    # whatever happens next, the server's own signature covers label, H(M1 received), H(M2 sent)
    for (m, sk, s) in w.log_sign:
        env.check(len(ch.sent) >= 1, "M2 goes out with or before M3")
        env.check(m == b"SC-SIG01" + w.hash(m1) + w.hash(ch.sent[0]), "server signature covers label, H(M1), H(M2)")
        env.check(sk == sv.sig_keypair.sec, "server signing key")
    if len(ch.sent) >= 2:
        env.check(len(w.log_sign) == 1, "one signature")
        env.check(len(w.log_box) == 1, "one encrypted packet")
        k, n, m3, c = w.log_box[0]
        env.check(t(m3) == bytes([3, 0]) + sv.sig_keypair.pub + w.log_sign[0][2], "M3 content")
        env.check(ch.sent[1] == bytes([6, 0]) + c, "M3 packet")
        env.check(n == nonce_bytes(2), "M3 nonce")
        env.check(k == w.dh(m1[10:42], sv.enc_keypair.sec), "M3 key")
        env.check(t(ch.sent[0]) == bytes([2, 0]) + sv.enc_keypair.pub, "M2 content")
        env.check(len(ch.sent) == 2, "nothing else sent")
        env.reach("m3 sent")
    if not session:
        return
    env.check(len(ch.got) >= 2, "completed without M1 and M4")
    env.check(len(ch.sent) == 2, "completed without M2 and M3")
    m2 = ch.sent[0]
    want = b"SC-SIG02" + w.hash(m1) + w.hash(m2)
    key = sv.client_sig_key
    env.check(key is not None, "client key reported")
    ok = False
    for (sig, m, pk, res) in w.log_verify:
        if res:
            for (k, n, c, plain) in w.log_open:
                if plain is not None and len(plain) >= 102:
                    ok = env.Or(ok, env.And(env.same(m, want), env.same(pk, key), env.same(plain[6:38], pk),
                                            env.same(plain[38:102], sig), plain[0] == 4))
    env.check(ok, "completed without a valid signature over label, H(M1), H(M2) by the reported client key")
    env.reach("completed")


def attacker(env, m1=(0, 50), m4=(0, 140), buf=False, dh_fail=True, clock=False):
    w = World(env, adv=True, forge="any", dh_may_fail=dh_fail)
    ch = AdvChan(env, [m1, m4, (0, 60)])
    sv = make_server(env, w, ch, buf_m2=buf)
    if clock:
        sv.time_keeper, sv.time_checker = Clock(env, "clk"), AnyTime()
    o = env.arun(sv.handshake)
    judge(env, w, sv, ch, o)
    env.observe("outcome", o.name())


def again(env, buf=False):
    """a second handshake on the same session object is judged on its own messages"""
    from saltchannel.exceptions import ComException
    w = World(env, adv=True, forge="any", distinct=True)
    m1 = lambda: b"SCv2" + bytes([1, 0, 0, 0, 0, 0]) + env.bytes("cenc", 32)
    m4 = lambda: bytes([6, 0]) + env.bytes("m4", 118)
    ch = Chan(env, [], [], "S")
    sv = make_server(env, w, ch, buf_m2=buf)
    so = sv.handshake()
    hello = b"SCv2" + bytes([1, 0, 0, 0, 0, 0]) + w.enc_pk(env.bytes("csec", 32))
    ch.inq.append(hello)
    fin, v = env.step(so)
    env.check(not fin, "server completed without M4")
    first = env.choice("first", 2)
    if first:                                                # an honest client
        pk, sk = w.sign_seed(env.bytes("cseed", 32))
        sig = w.sign(b"SC-SIG02" + w.hash(hello) + w.hash(ch.sent[0]), sk)
        ch.inq.append(bytes([6, 0]) + w.box(bytes([4, 0, 0, 0, 0, 0]) + pk + sig, nonce_bytes(1), w.dh(hello[10:42], sv.enc_keypair.sec)))
    else:
        ch.inq.append(b"")
    try:
        fin, v = env.step(so)
        env.check(fin, "server still waits after M4")
    except ComException:
        env.check(not first, "honest client refused")
    ch2 = AdvChan(env, [m1(), m4()])
    sv.clear_channel = ch2
    sv.enc_keypair = w.enc_keys("s.encsec2")
    for log in (w.log_sign, w.log_box, w.log_open, w.log_verify):
        del log[:]
    o2 = env.arun(sv.handshake)
    judge(env, w, sv, ch2, o2)
    if first and o2.ok:
        env.reach("both")


def with_key(env, buf=False):
    """M1 that names a server key"""
    w = World(env, adv=True, forge="any")
    ch = AdvChan(env, [None, 120])
    sv = make_server(env, w, ch, buf_m2=buf)
    key = sv.sig_keypair.pub if env.choice("own key", 2) else env.bytes("key", 32)
    ch.sizes[0] = b"SCv2" + bytes([1]) + bytes([env.int("flags", 0, 255)]) + bytes(4) + env.bytes("cenc", 32) + key
    o = env.arun(sv.handshake)
    judge(env, w, sv, ch, o)


def transplant(env):
    """an M4 (with its genuine signature) of another session of the same client is never accepted"""
    w = World(env, adv=True, forge="never", distinct=True)
    from saltchannel.exceptions import ComException
    ch0 = Chan(env, [], [], "C")
    cl = make_client(env, w, ch0)
    atk_pub, atk_sec = w.sign_seed(env.bytes("atk", 32))
    co = cl.handshake()
    env.step(co)                                            # M1 to the attacker's own server
    m2 = bytes([2, 0, 0, 0, 0, 0]) + env.bytes("xenc", 32)
    sig = w.sign(b"SC-SIG01" + w.hash(ch0.sent[0]) + w.hash(m2), atk_sec)
    xkey = w.dh(m2[6:], cl.enc_keypair.sec)
    ch0.inq += [m2, bytes([6, 0]) + w.box(bytes([3, 0, 0, 0, 0, 0]) + atk_pub + sig, nonce_bytes(2), xkey)]
    fin, v = env.step(co)                                   # the client signs for the session with the attacker
    env.check(fin, "client completed with the attacker's server")
    ch = AdvChan(env, [b"SCv2" + bytes([1, 0, 0, 0, 0, 0]) + env.bytes("m1enc", 32), bytes([6, 0]) + env.bytes("m4", 118)])
    sv = make_server(env, w, ch)
    o = env.arun(sv.handshake)
    if o.ok and not sv.is_done:
        env.check(env.Implies(env.same(sv.client_sig_key, cl.sig_keypair.pub),
                              env.And(env.same(ch.got[0], ch0.sent[0]), env.same(ch.sent[0], m2))),
                  "signature of another session accepted")
        env.reach("completed")
    else:
        env.reach("failed")


S = lambda fn, reach=("end",), **k: dict({"fn": fn, "reach": list(reach)}, **k)
CF = ("completed", "failed", "m3 sent")
SCENARIOS = [
    S("attacker", CF, args={"buf": False}, bounds="M1 0..50 bytes, M4 packet 0..140 bytes, any contents"),
    S("attacker", CF, args={"buf": True}, bounds="M1 0..50 bytes, M4 packet 0..140 bytes, any contents, M2 buffered"),
    S("attacker", CF, args={"m1": [0, 3000], "m4": [0, 70000], "dh_fail": False}, bounds="M1 0..3000 bytes, M4 packet 0..70000 bytes"),
    S("attacker", CF, args={"m1": 42, "m4": 120}, bounds="all contents of 42-byte M1 and 120-byte M4 packet"),
    S("attacker", CF, args={"m1": 42, "m4": 120, "clock": True}, bounds="all contents of 42-byte M1 and 120-byte M4 packet, any clock, no time check"),
    S("attacker", CF, args={"m1": 42, "m4": 120, "clock": True, "buf": True}, bounds="all contents of 42-byte M1 and 120-byte M4 packet, any clock, no time check, M2 buffered"),
    S("again", CF + ("both",), bounds="two handshakes on one object"),
    S("with_key", CF, args={"buf": False}, bounds="any M1 naming a server key"),
    S("with_key", CF, args={"buf": True}, bounds="any M1 naming a server key, M2 buffered"),
    S("transplant", ("failed",), bounds="one foreign session of the same client"),
]
