"""C08: the client completes only with a valid signature over this very handshake."""
from scen.world import World, Chan, pair
from scen.sess import make_client, make_server, AdvChan, honest_pair, run_pair, le
ASSUMPTIONS = ["attacker knows the session key: decryption of attacker packets yields arbitrary plaintext (World adv=True)",
               "signature verification verdicts are arbitrary but functional (World forge='any'); SHA-512 collision free"]


def m4_sent(env, w, ch, box0=0):
    """an M4-looking plaintext was encrypted and put on the wire"""
    for (k, n, m, c) in w.log_box[box0:]:
        if len(m) > 0 and m[0] == 4:
            for p in ch.sent:
                if len(p) == len(c) + 2 and env.same(p[2:], c):
                    return True
    return False


def reported(cl):
    """the server key a client session reports"""
    return cl.m3.ServerSigKey


def judge(env, w, cl, ch, o, first=0, read0=0, ver0=0, open0=0, box0=0):
    """oracle for one client handshake over channel ch whose traffic starts at the given indices"""
    from saltchannel.exceptions import ComException
    env.check(len(ch.sent) > first, "M1 was sent")
    m1 = ch.sent[first]
    if not o.ok:
        env.check(isinstance(o.exc, ComException), "handshake failed with %s" % o.name())
        env.check(not m4_sent(env, w, ch, box0), "M4 sent although the handshake failed")
        if cl.app_channel is not None:
            env.arun(cl.app_channel.write, b"x")
            env.check(not m4_sent(env, w, ch, box0), "buffered M4 sent although the handshake failed")
        env.reach("failed")
        return
    env.check(len(ch.got) > read0 + 1, "completed without M2 and M3")
    m2 = ch.got[read0]
    want = b"SC-SIG01" + w.hash(m1) + w.hash(m2)
    key = reported(cl)
    ok = False
    for (sig, m, pk, res) in w.log_verify[ver0:]:
        if res:
            for (k, n, c, plain) in w.log_open[open0:]:
                if plain is not None and len(plain) >= 102:
                    ok = env.Or(ok, env.And(env.same(m, want), env.same(pk, key), env.same(plain[6:38], pk),
                                            env.same(plain[38:102], sig), plain[0] == 3))
    env.check(ok, "completed without a valid signature over label, H(M1), H(M2) by the reported key")
    env.reach("completed")


class Clock:
    """any 32-bit times"""

    def __init__(self, env, name):
        self.env, self.name = env, name

    def get_first_time(self):
        return self.env.int(self.name + ".first", 0, 2 ** 32 - 1)

    def get_time(self):
        return self.env.int(self.name + ".time", 0, 2 ** 32 - 1)


class AnyTime:
    def report_first_time(self, time):
        pass

    def check_time(self, time):
        pass


def attacker(env, m2=(0, 50), m3=(0, 140), buf=False, pinned=False, clock=False):
    """arbitrary byte strings in place of M2 and M3"""
    w = World(env, adv=True, forge="any", dh_may_fail=True)
    ch = AdvChan(env, [m2, m3, (0, 60)])
    cl = make_client(env, w, ch, buf_m4=buf, wanted=env.bytes("wanted", 32) if pinned else None)
    if clock:
        cl.time_keeper, cl.time_checker = Clock(env, "clk"), AnyTime()
    o = env.arun(cl.handshake)
    judge(env, w, cl, ch, o)
    env.observe("outcome", o.name())


def again(env):
    """a second handshake on the same session object after a first one (failed or not) is judged on its own messages"""
    w = World(env, adv=True, forge="any", distinct=True)
    ch = AdvChan(env, [M2 + env.bytes("k", 32), ENC + env.bytes("e", 118), M2 + env.bytes("k", 32), ENC + env.bytes("e", 118), 38])
    cl = make_client(env, w, ch)
    o1 = env.arun(cl.handshake)
    marks = dict(first=len(ch.sent), read0=len(ch.got), ver0=len(w.log_verify), open0=len(w.log_open), box0=len(w.log_box))
    cl.enc_keypair = w.enc_keys("c.encsec2")
    o2 = env.arun(cl.handshake)
    if o2.ok:
        judge(env, w, cl, ch, o2, **marks)
    env.reach("end")


M2 = bytes([2, 0, 0, 0, 0, 0])
ENC = bytes([6, 0])


def mitm(env, edit="m2"):
    """between honest peers an attacker replaces M1 or M2: unless signatures are forged the client never completes"""
    w = World(env, adv=True, forge="never", distinct=True)
    from saltchannel.exceptions import ComException
    cch, sch = Chan(env, [], [], "C"), Chan(env, [], [], "S")
    cl = make_client(env, w, cch)
    sv = make_server(env, w, sch)
    co, so = cl.handshake(), sv.handshake()
    fin, v = env.step(co)                      # sends M1, waits for M2
    env.check(not fin, "client completed on its own")
    m1 = cch.sent[0]
    m1x = m1 if edit == "m2" else env.bytes("m1x", len(m1))
    sch.inq.append(m1x)
    try:
        fin, v = env.step(so)                  # sends M2, M3, waits for M4
    except ComException:
        fin = True
    if len(sch.sent) < 2:
        env.reach("rejected by server")
        return
    m2 = sch.sent[0]
    m2x = m2 if edit == "m1" else env.bytes("m2x", 38)
    sent0 = len(cch.sent)
    cch.inq += [m2x, ENC + env.bytes("m3c", 118)]      # the attacker re-encrypts what it likes for the client
    try:
        fin, v = env.step(co)
        env.check(fin, "client waits although M2 and M3 arrived")
        env.check(env.And(env.same(m1, m1x), env.same(m2, m2x)), "client completed although M1 or M2 was modified")
        env.reach("completed")
    except ComException:
        env.check(len(cch.sent) == sent0, "something was sent after the failure")
        env.reach("failed")


def client_bytes(env, buf=False):
    """fixed sizes: all contents of M2 and M3 (deepest part of the state space)"""
    w = World(env, adv=True, forge="any")
    ch = AdvChan(env, [38, 120])
    cl = make_client(env, w, ch, buf_m4=buf)
    o = env.arun(cl.handshake)
    judge(env, w, cl, ch, o)


S = lambda fn, reach=("end",), **k: dict({"fn": fn, "reach": list(reach)}, **k)
CF = ("completed", "failed")
SCENARIOS = [
    S("attacker", CF, args={"buf": False}, bounds="M2 0..50 bytes, M3 packet 0..140 bytes, any contents"),
    S("attacker", CF, args={"buf": True}, bounds="M2 0..50 bytes, M3 packet 0..140 bytes, any contents, M4 buffered"),
    S("attacker", CF, args={"pinned": True}, bounds="M2 0..50 bytes, M3 packet 0..140 bytes, any contents, server key pinned"),
    S("attacker", CF, args={"m2": [0, 3000], "m3": [0, 70000]}, bounds="M2 0..3000 bytes, M3 packet 0..70000 bytes"),
    S("attacker", CF, args={"clock": True, "m2": 38, "m3": 120}, bounds="all contents of M2 and M3, any clock, no time check"),
    S("client_bytes", CF, bounds="all contents of M2 (38 bytes) and M3 packet (120 bytes)"),
    S("again", bounds="two handshakes on one object"),
    S("mitm", ("failed",), args={"edit": "m1"}, bounds="any replacement of M1 of the same size"),
    S("mitm", CF, args={"edit": "m2"}, bounds="any replacement of M2 of the same size"),
    S("mitm", ("failed",), args={"edit": "both"}, bounds="any replacement of M1 and M2 of the same size"),
]
