"""C01: handshake packets M1..M4 have exactly the wire layout of the protocol and survive serialise/parse unchanged."""
U32 = 2 ** 32 - 1
ASSUMPTIONS = ["oracle: the Salt Channel v2 packet layout written out in scen/c01.py"]


def le(x, n):
    return x.to_bytes(n, 'little')


def flagbyte(env, *bits):
    """OR of symbolic bits at given positions"""
    v = 0
    for b, pos in bits:
        v = v | (b << pos)
    return bytes([v])


def build_m1(env, with_key=False):
    from saltchannel.v2.packets import M1Packet
    t, key = env.int("t", 0, U32), env.bytes("enckey", 32)
    p = M1Packet()
    if with_key:
        p.data.Header.ServerSigKeyIncluded = 1
    p.create_opt_fields()
    p.data.Time = t
    p.ClientEncKey = key
    spec = b'SCv2' + bytes([1, 1 if with_key else 0]) + le(t, 4) + key
    if with_key:
        sk = env.bytes("sigkey", 32)
        p.ServerSigKey = sk
        spec = spec + sk
    raw = bytes(p)
    env.check(len(raw) == (74 if with_key else 42), "M1 length")
    env.check(raw == spec, "M1 layout")
    env.check(p.size == len(raw), "M1 size property")
    q = M1Packet(src_buf=raw)
    env.check(q.data.Time == t, "M1 time round-trip")
    env.check(q.ClientEncKey == key, "M1 key round-trip")
    env.check(q.data.Header.ServerSigKeyIncluded == (1 if with_key else 0), "M1 flag round-trip")
    if with_key:
        env.check(q.ServerSigKey == sk, "M1 server key round-trip")
    env.check(bytes(q) == raw, "M1 re-serialise")
    env.observe("raw", raw)
    env.reach("end")


def parse_m1(env):
    """spec bytes with any flag bits -> fields -> same bytes"""
    from saltchannel.v2.packets import M1Packet
    fl = env.int("flags", 0, 255)
    t, key, sk = env.int("t", 0, U32), env.bytes("enckey", 32), env.bytes("sigkey", 32)
    raw = b'SCv2' + bytes([1]) + bytes([fl]) + le(t, 4) + key
    if fl & 1:
        raw = raw + sk
        env.reach("with key")
    else:
        env.reach("without key")
    q = M1Packet(src_buf=raw)
    env.check(q.data.Time == t, "M1 parse time")
    env.check(q.ClientEncKey == key, "M1 parse key")
    if fl & 1:
        env.check(q.ServerSigKey == sk, "M1 parse server key")
    env.check(q.data.Header.ServerSigKeyIncluded == (fl & 1), "M1 parse flag")
    env.check(bytes(q) == raw, "M1 parse re-serialise")
    env.check(q.size == len(raw), "M1 parse size")
    env.observe("raw", bytes(q))


def build_m2(env):
    from saltchannel.v2.packets import M2Packet
    t, key = env.int("t", 0, U32), env.bytes("enckey", 32)
    nss, last = env.int("nss", 0, 1), env.int("last", 0, 1)
    p = M2Packet()
    p.data.Time = t
    p.ServerEncKey = key
    p.data.Header.NoSuchServer = nss
    p.data.Header.LastFlag = last
    raw = bytes(p)
    spec = bytes([2]) + bytes([nss | ((last | nss) << 7)]) + le(t, 4) + key
    env.check(len(raw) == 38, "M2 length")
    env.check(raw == spec, "M2 layout")
    env.check(p.size == 38, "M2 size property")
    q = M2Packet(src_buf=raw)
    env.check(q.data.Time == t, "M2 time round-trip")
    env.check(q.ServerEncKey == key, "M2 key round-trip")
    env.check(q.data.Header.NoSuchServer == nss, "M2 NoSuchServer round-trip")
    env.check(q.data.Header.LastFlag == (last | nss), "M2 LastFlag round-trip")
    env.check(bytes(q) == raw, "M2 re-serialise")
    env.check(bytes(p) == raw, "M2 serialise twice")
    env.observe("raw", raw)
    env.reach("end")


def parse_m2(env):
    from saltchannel.v2.packets import M2Packet
    fl, t, key = env.int("flags", 0, 255), env.int("t", 0, U32), env.bytes("enckey", 32)
    env.assume(env.Implies((fl & 1) == 1, fl >= 128))
    raw = bytes([2]) + bytes([fl]) + le(t, 4) + key
    q = M2Packet(src_buf=raw)
    env.check(q.data.Time == t, "M2 parse time")
    env.check(q.ServerEncKey == key, "M2 parse key")
    env.check(q.data.Header.NoSuchServer == (fl & 1), "M2 parse NoSuchServer")
    env.check(q.data.Header.LastFlag == (fl >> 7), "M2 parse LastFlag")
    env.check(bytes(q) == raw, "M2 parse re-serialise")
    env.observe("raw", bytes(q))
    env.reach("end")


def sigpacket(env, kind="M3"):
    from saltchannel.v2 import packets
    cls = packets.M3Packet if kind == "M3" else packets.M4Packet
    t, key, sig = env.int("t", 0, U32), env.bytes("sigkey", 32), env.bytes("sig", 64)
    p = cls()
    p.data.Time = t
    if kind == "M3":
        p.ServerSigKey = key
        p.Signature1 = sig
    else:
        p.ClientSigKey = key
        p.Signature2 = sig
    raw = bytes(p)
    env.check(len(raw) == 102, "length")
    env.check(raw == bytes([3 if kind == "M3" else 4, 0]) + le(t, 4) + key + sig, "layout")
    env.check(p.size == 102, "size property")
    rsv = env.int("reserved", 0, 255)
    raw2 = raw[:1] + bytes([rsv]) + raw[2:]
    q = cls(src_buf=raw2)
    env.check(q.data.Time == t, "time round-trip")
    env.check((q.ServerSigKey if kind == "M3" else q.ClientSigKey) == key, "key round-trip")
    env.check((q.Signature1 if kind == "M3" else q.Signature2) == sig, "signature round-trip")
    env.check(bytes(q) == raw2, "re-serialise")
    env.observe("raw", raw)
    env.reach("end")


def independence(env):
    """two packets of a class share no state; setting one field leaves the others"""
    from saltchannel.v2.packets import M1Packet, M2Packet, M3Packet, M4Packet
    k1, k2, t = env.bytes("k1", 32), env.bytes("k2", 32), env.int("t", 0, U32)
    a, b = M2Packet(), M2Packet()
    a.ServerEncKey = k1
    b.ServerEncKey = k2
    b.data.Time = t
    env.check(bytes(a) == b'\x02\x00' + bytes(4) + k1, "M2 first instance untouched")
    env.check(bytes(b) == b'\x02\x00' + le(t, 4) + k2, "M2 second instance")
    c, d = M1Packet(), M1Packet()
    c.create_opt_fields()
    d.data.Header.ServerSigKeyIncluded = 1
    d.create_opt_fields()
    d.ServerSigKey = k2
    c.ClientEncKey = k1
    env.check(bytes(c) == b'SCv2\x01\x00' + bytes(4) + k1, "M1 first instance untouched")
    env.check(bytes(d) == b'SCv2\x01\x01' + bytes(36) + k2, "M1 second instance")
    e, f = M3Packet(), M4Packet()
    e.ServerSigKey = k1
    f.ClientSigKey = k2
    env.check(bytes(e) == b'\x03\x00' + bytes(4) + k1 + bytes(64), "M3 untouched")
    env.check(bytes(f) == b'\x04\x00' + bytes(4) + k2 + bytes(64), "M4 untouched")
    o = env.attempt(setattr, M1Packet(), "ServerSigKey", k1)
    env.check(not o.ok, "server key without the flag is refused")
    env.reach("end")


def update(env, kind="M1"):
    """a field set, read and set again holds the latest value, also in the serialised packet"""
    from saltchannel.v2 import packets
    cls, names, size = {"M1": (packets.M1Packet, ["ClientEncKey"], 42), "M2": (packets.M2Packet, ["ServerEncKey"], 38),
                        "M3": (packets.M3Packet, ["ServerSigKey", "Signature1"], 102),
                        "M4": (packets.M4Packet, ["ClientSigKey", "Signature2"], 102)}[kind]
    p = cls()
    if kind == "M1":
        p.data.Header.ServerSigKeyIncluded = 1
        p.create_opt_fields()
        names, size = names + ["ServerSigKey"], 74
    for i in range(3):
        t = env.int("t%d" % i, 0, U32)
        p.data.Time = t
        vals = []
        for n in names:
            v = env.bytes("%s%d" % (n, i), 64 if n.startswith("Signature") else 32)
            setattr(p, n, v)
            env.check(getattr(p, n) == v, "field after setting it")
            vals.append(v)
        env.check(p.data.Time == t, "time after setting it")
        head = b"SCv2\x01\x01" if kind == "M1" else bytes([int(kind[1]), 0])
        env.check(bytes(p) == head + le(t, 4) + b"".join(vals), "layout after update %d" % i)
        env.check(p.size == size, "size")
        for n, v in zip(names, vals):
            env.check(getattr(p, n) == v, "field after serialising")
    env.reach("end")


B = "every field value (32-bit times, 32/64-byte keys and signatures, all flag bits)"
SCENARIOS = [
    {"fn": "build_m1", "args": {"with_key": False}, "reach": ["end"], "bounds": B},
    {"fn": "build_m1", "args": {"with_key": True}, "reach": ["end"], "bounds": B},
    {"fn": "parse_m1", "reach": ["with key", "without key"], "bounds": B},
    {"fn": "build_m2", "reach": ["end"], "bounds": B},
    {"fn": "parse_m2", "reach": ["end"], "bounds": B},
    {"fn": "sigpacket", "args": {"kind": "M3"}, "reach": ["end"], "bounds": B},
    {"fn": "sigpacket", "args": {"kind": "M4"}, "reach": ["end"], "bounds": B},
    {"fn": "update", "args": {"kind": "M1"}, "reach": ["end"], "bounds": "three successive values of every field"},
    {"fn": "update", "args": {"kind": "M2"}, "reach": ["end"], "bounds": "three successive values of every field"},
    {"fn": "update", "args": {"kind": "M3"}, "reach": ["end"], "bounds": "three successive values of every field"},
    {"fn": "update", "args": {"kind": "M4"}, "reach": ["end"], "bounds": "three successive values of every field"},
    {"fn": "independence", "reach": ["end"], "bounds": B},
]
