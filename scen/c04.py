"""C04: any byte string given to any packet parser yields a packet or BadPeer; acceptance needs size, type, indicator."""
ASSUMPTIONS = ["bytes after a fixed-size packet, after the last multi-app message or after the last A2 entry are unspecified",
               "raw copies are bounds-checked by the ctypes model (and by a checking memmove at replay)"]


def parse(env, cls, raw):
    from saltchannel.exceptions import BadPeer
    o = env.attempt(cls, src_buf=raw)
    env.check(o.ok or isinstance(o.exc, BadPeer), "parser raised %s" % o.name())
    env.observe("outcome", o.name())
    env.reach("accepted" if o.ok else "rejected")
    return o


def m1(env, hi=200):
    from saltchannel.v2.packets import M1Packet
    raw = env.blob("raw", 0, hi)
    o = parse(env, M1Packet, raw)
    n = len(raw)
    if n < 42:
        env.check(not o.ok, "short M1 accepted")
        return
    ok = env.And(env.same(raw[:4], b'SCv2'), raw[4] == 1, env.Or((raw[5] & 1) == 0, n >= 74))
    env.check(env.Iff(ok, o.ok), "M1 accepted iff valid")
    if o.ok:
        p = o.value
        s = p.size
        env.check(bytes(p) == raw[:s], "M1 content is the input")
        env.check(s == (74 if raw[5] & 1 else 42), "M1 size")


def fixed(env, kind="M2", hi=200):
    from saltchannel.v2 import packets
    cls, typ, size = {"M2": (packets.M2Packet, 2, 38), "M3": (packets.M3Packet, 3, 102), "M4": (packets.M4Packet, 4, 102)}[kind]
    raw = env.blob("raw", 0, hi)
    o = parse(env, cls, raw)
    if len(raw) < size:
        env.check(not o.ok, "short packet accepted")
        return
    env.check(env.Iff(raw[0] == typ, o.ok), "accepted iff the type is right")
    if o.ok:
        p = o.value
        if kind == "M2":
            env.check(p.ServerEncKey == raw[6:38], "content is the input")
            env.check(p.data.Time == int.from_bytes(raw[2:6], 'little'), "time is the input")
            env.check(p.data.Header.NoSuchServer == (raw[1] & 1), "flag is the input")
            env.check(p.data.Header.LastFlag == (raw[1] >> 7), "flag is the input")
        else:
            env.check(bytes(p) == raw[:size], "content is the input")


def variable(env, kind="App", hi=70000):
    from saltchannel.v2 import packets
    cls, typ, size = {"App": (packets.AppPacket, 5, 6), "Encrypted": (packets.EncryptedPacket, 6, 18)}[kind]
    raw = env.blob("raw", 0, hi)
    o = parse(env, cls, raw)
    if len(raw) < size:
        env.check(not o.ok, "short packet accepted")
        return
    env.check(env.Iff(raw[0] == typ, o.ok), "accepted iff the type is right")
    if o.ok:
        env.check(bytes(o.value) == raw, "content is the input")
        got = o.value.Data if kind == "App" else o.value.Body
        env.check(got == raw[6 if kind == "App" else 2:], "payload is the input")


def multi(env, lo=0, hi=12):
    """every byte string of lo..hi bytes"""
    from saltchannel.v2.packets import MultiAppPacket
    raw = env.sblob("raw", lo, hi)
    o = parse(env, MultiAppPacket, raw)
    check_multi(env, raw, o)


def check_multi(env, raw, o):
    n = len(raw)
    if n < 8:
        env.check(not o.ok, "short multi packet accepted")
        return
    if raw[0] != 11:
        env.check(not o.ok, "wrong type accepted")
        return
    cnt = int.from_bytes(raw[6:8], 'little')
    if cnt == 0:
        env.check(not o.ok, "empty multi packet accepted")
        return
    off, k, msgs = 8, 0, []
    while cnt != k:
        if off + 2 > n:
            env.check(not o.ok, "truncated multi packet accepted")
            env.reach("truncated")
            return
        ln = int.from_bytes(raw[off:off + 2], 'little')
        off = off + 2
        if off + ln > n:
            env.check(not o.ok, "truncated multi packet accepted")
            env.reach("truncated")
            return
        msgs.append(raw[off:off + ln])
        off = off + ln
        k += 1
    env.check(o.ok, "well-formed multi packet rejected")
    got = o.value.opt.Message
    env.check(len(got) == len(msgs), "number of messages")
    for a, b in zip(got, msgs):
        env.check(bytes(a) == b, "message is the input")
    env.reach("%d messages" % len(msgs))


def multi_big(env, cnt=2):
    """any total length up to 70000, given count"""
    from saltchannel.v2.packets import MultiAppPacket
    raw = env.blob("raw", 8, 70000)
    env.assume(env.And(raw[6] == cnt, raw[7] == 0))
    o = parse(env, MultiAppPacket, raw)
    check_multi(env, raw, o)


def a1a2(env, kind="A1"):
    from saltchannel.a1a2 import packets
    cls, typ, size = {"A1": (packets.A1Packet, 8, 5), "A2": (packets.A2Packet, 9, 3)}[kind]
    if kind == "A1":
        raw = env.blob("raw", 0, 70000)
    else:
        raw = env.sblob("raw", 0, 46)
    o = parse(env, cls, raw)
    if len(raw) < size:
        env.check(not o.ok, "short packet accepted")
        return
    env.check(env.Implies(o.ok, raw[0] == typ), "wrong type accepted")
    if o.ok:
        b = bytes(o.value)
        env.check(b == raw[:len(b)], "content is the input")


def noval(env, kind="App"):
    """parsing without validation (used to peek at the type) still never over-reads and raises only BadPeer"""
    from saltchannel.v2 import packets
    from saltchannel.exceptions import BadPeer
    cls, size = {"App": (packets.AppPacket, 6), "Multi": (packets.MultiAppPacket, 8)}[kind]
    raw = env.blob("raw", 0, 2000) if kind == "App" else env.sblob("raw", 0, 11)
    o = env.attempt(cls, src_buf=raw, validate=False)
    env.check(o.ok or isinstance(o.exc, BadPeer), "parser raised %s" % o.name())
    env.check(env.Implies(len(raw) < size, not o.ok), "short packet accepted")
    if kind == "App":
        env.check(env.Iff(len(raw) >= size, o.ok), "peek accepted iff long enough")
        if o.ok:
            env.check(o.value.data.Header.PacketType == raw[0], "peeked type")
    env.reach("accepted" if o.ok else "rejected")


def reparse(env, kind="M1"):
    """a packet object that is asked to parse a second, different input reflects only the second"""
    from saltchannel.v2 import packets
    from saltchannel.exceptions import BadPeer
    if kind == "M1":
        k1, k2, k3 = env.bytes("k1", 32), env.bytes("k2", 32), env.bytes("k3", 32)
        a, b = b'SCv2\x01\x01' + bytes(4) + k1 + k2, b'SCv2\x01\x00' + bytes(4) + k3
        cls = packets.M1Packet
    elif kind == "Multi":
        m1, m2, m3 = env.bytes("m1", 3), env.bytes("m2", 2), env.bytes("m3", 4)
        a = b'\x0b\0\0\0\0\0\x02\0' + b'\x03\0' + m1 + b'\x02\0' + m2
        b = b'\x0b\0\0\0\0\0\x01\0' + b'\x04\0' + m3
        cls = packets.MultiAppPacket
    elif kind in ("M2", "M3", "M4", "A1", "Encrypted"):
        cls, typ, n = {"M2": (packets.M2Packet, 2, 32), "M3": (packets.M3Packet, 3, 96), "M4": (packets.M4Packet, 4, 96),
                       "Encrypted": (packets.EncryptedPacket, 6, 20), "A1": (None, 8, 32)}[kind]
        if kind == "A1":
            from saltchannel.a1a2.packets import A1Packet as cls
        mid = {"A1": bytes([1, 32, 0]), "Encrypted": b""}.get(kind, bytes(4))
        a, b = [bytes([typ, 0]) + mid + env.bytes(x, n) for x in "xy"]
    else:
        x, y = env.blob("x", 0, 3000), env.blob("y", 0, 3000)
        a, b = b'\x05\0\0\0\0\0' + x, b'\x05\0\0\0\0\0' + y
        cls = packets.AppPacket

    def fields(raw, what):
        env.check(bytes(p) == raw, what)
        env.check(p.size == len(raw), what + ": size")
        if kind == "M1":
            env.check(p.ClientEncKey == raw[10:42], what + ": key")
            env.check(p.data.Header.ServerSigKeyIncluded == (1 if len(raw) > 42 else 0), what + ": flag")
            if len(raw) > 42:
                env.check(p.ServerSigKey == raw[42:], what + ": server key")
        elif kind == "M2":
            env.check(p.ServerEncKey == raw[6:], what + ": key")
        elif kind == "M3":
            env.check(env.And(p.ServerSigKey == raw[6:38], p.Signature1 == raw[38:]), what + ": fields")
        elif kind == "M4":
            env.check(env.And(p.ClientSigKey == raw[6:38], p.Signature2 == raw[38:]), what + ": fields")
        elif kind == "A1":
            env.check(p.Address == raw[5:], what + ": address")
        elif kind == "Encrypted":
            env.check(p.Body == raw[2:], what + ": body")
        elif kind == "App":
            env.check(p.Data == raw[6:], what + ": data")
        else:
            env.check(len(p.opt.Message) == p.data.Count, what + ": messages")
    p = cls(src_buf=a)
    fields(a, "first input")
    p.from_bytes(b)
    fields(b, "second input")
    p.from_bytes(a)
    fields(a, "first input again")
    q = cls(src_buf=b)
    env.check(bytes(p) == a, "first packet after another one was parsed")
    env.check(bytes(q) == b, "another packet")
    env.reach("end")


AR = ["accepted", "rejected"]
SCENARIOS = [
    {"fn": "m1", "reach": AR, "bounds": "all byte strings of 0..200 bytes"},
    {"fn": "fixed", "args": {"kind": "M2"}, "reach": AR, "bounds": "all byte strings of 0..200 bytes"},
    {"fn": "fixed", "args": {"kind": "M3"}, "reach": AR, "bounds": "all byte strings of 0..200 bytes"},
    {"fn": "fixed", "args": {"kind": "M4"}, "reach": AR, "bounds": "all byte strings of 0..200 bytes"},
    {"fn": "variable", "args": {"kind": "App"}, "reach": AR, "bounds": "all byte strings of 0..70000 bytes"},
    {"fn": "variable", "args": {"kind": "Encrypted"}, "reach": AR, "bounds": "all byte strings of 0..70000 bytes"},
    {"fn": "multi", "args": {"lo": 0, "hi": 10}, "reach": AR + ["truncated", "1 messages"], "bounds": "all byte strings of 0..10 bytes"},
    {"fn": "multi", "args": {"lo": 11, "hi": 13}, "reach": AR + ["2 messages"], "bounds": "all byte strings of 11..13 bytes"},
    {"fn": "multi", "args": {"lo": 14, "hi": 14}, "reach": AR + ["3 messages"], "bounds": "all byte strings of 14 bytes"},
    {"fn": "multi", "args": {"lo": 15, "hi": 17}, "reach": AR, "bounds": "all byte strings of 15..17 bytes", "tier": "thorough"},
    {"fn": "multi_big", "args": {"cnt": 1}, "reach": AR, "bounds": "all byte strings of 8..70000 bytes with count 1"},
    {"fn": "multi_big", "args": {"cnt": 2}, "reach": AR, "bounds": "all byte strings of 8..70000 bytes with count 2"},
    {"fn": "multi_big", "args": {"cnt": 3}, "reach": AR, "bounds": "all byte strings of 8..70000 bytes with count 3", "tier": "thorough"},
    {"fn": "a1a2", "args": {"kind": "A1"}, "reach": AR, "bounds": "all byte strings of 0..70000 bytes"},
    {"fn": "a1a2", "args": {"kind": "A2"}, "reach": AR, "bounds": "all byte strings of 0..46 bytes"},
    {"fn": "noval", "args": {"kind": "App"}, "reach": AR, "bounds": "all byte strings of 0..2000 bytes"},
    {"fn": "noval", "args": {"kind": "Multi"}, "reach": AR, "bounds": "all byte strings of 0..11 bytes"},
    {"fn": "reparse", "args": {"kind": "M1"}, "reach": ["end"], "bounds": "all keys"},
    {"fn": "reparse", "args": {"kind": "Multi"}, "reach": ["end"], "bounds": "all contents"},
    {"fn": "reparse", "args": {"kind": "App"}, "reach": ["end"], "bounds": "payloads 0..3000 bytes"},
    {"fn": "reparse", "args": {"kind": "M2"}, "reach": ["end"], "bounds": "all contents"},
    {"fn": "reparse", "args": {"kind": "M3"}, "reach": ["end"], "bounds": "all contents"},
    {"fn": "reparse", "args": {"kind": "M4"}, "reach": ["end"], "bounds": "all contents"},
    {"fn": "reparse", "args": {"kind": "A1"}, "reach": ["end"], "bounds": "all contents"},
    {"fn": "reparse", "args": {"kind": "Encrypted"}, "reach": ["end"], "bounds": "all contents"},
]
