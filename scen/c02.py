"""C02: App, MultiApp and Encrypted packets: specified layout and exact round-trip for every payload."""
U32 = 2 ** 32 - 1
ASSUMPTIONS = ["oracle: the Salt Channel v2 packet layout written out in scen/c02.py"]
BIG = 70000


def le(x, n):
    return x.to_bytes(n, 'little')


def app(env, hi=BIG):
    from saltchannel.v2.packets import AppPacket
    t, data = env.int("t", 0, U32), env.blob("data", 0, hi)
    p = AppPacket()
    p.data.Time = t
    p.Data = data
    raw = bytes(p)
    env.check(len(raw) == 6 + len(data), "App length")
    env.check(raw == bytes([5, 0]) + le(t, 4) + data, "App layout")
    env.check(p.size == len(raw), "App size property")
    rsv = env.int("reserved", 0, 255)
    raw2 = raw[:1] + bytes([rsv]) + raw[2:]
    q = AppPacket(src_buf=raw2)
    env.check(q.data.Time == t, "App time round-trip")
    env.check(q.Data == data, "App data round-trip")
    env.check(bytes(q) == raw2, "App re-serialise")
    env.observe("len", len(raw))
    env.reach("end")


def app_reuse(env):
    """a packet object reused for several payloads (as a sender does) carries only the latest one"""
    from saltchannel.v2.packets import AppPacket, EncryptedPacket
    a, b = env.blob("a", 0, 300), env.blob("b", 0, 300)
    t1, t2 = env.int("t1", 0, U32), env.int("t2", 0, U32)
    p = AppPacket()
    p.data.Time = t1
    p.Data = a
    r1 = bytes(p)
    p.data.Time = t2
    p.Data = b
    env.check(bytes(p) == bytes([5, 0]) + le(t2, 4) + b, "App reused")
    env.check(r1 == bytes([5, 0]) + le(t1, 4) + a, "App first serialisation unaffected")
    e, f = EncryptedPacket(), EncryptedPacket()
    e.Body = a
    f.Body = b
    env.check(bytes(e) == bytes([6, 0]) + a, "Encrypted first instance")
    env.check(bytes(f) == bytes([6, 0]) + b, "Encrypted second instance")
    env.reach("end")


def encrypted(env, hi=BIG):
    from saltchannel.v2.packets import EncryptedPacket
    body, last = env.blob("body", 16, hi), env.int("last", 0, 1)
    p = EncryptedPacket()
    p.data.Header.LastFlag = last
    p.Body = body
    raw = bytes(p)
    env.check(len(raw) == 2 + len(body), "Encrypted length")
    env.check(raw == bytes([6]) + bytes([last << 7]) + body, "Encrypted layout")
    env.check(p.size == len(raw), "Encrypted size property")
    rsv = env.int("reserved", 0, 127)
    raw2 = raw[:1] + bytes([rsv | (last << 7)]) + raw[2:]
    q = EncryptedPacket(src_buf=raw2)
    env.check(q.data.Header.LastFlag == last, "Encrypted flag round-trip")
    env.check(q.Body == body, "Encrypted body round-trip")
    env.check(bytes(q) == raw2, "Encrypted re-serialise")
    env.observe("len", len(raw))
    env.reach("end")


def multi(env, n=2, hi=65535):
    from saltchannel.v2.packets import MultiAppPacket
    t = env.int("t", 0, U32)
    msgs = [env.blob("m%d" % i, 0, hi) for i in range(n)]
    p = MultiAppPacket()
    p.data.Time = t
    p.data.Count = n
    p.create_opt_fields(msgs=msgs)
    raw = bytes(p)
    spec = bytes([11, 0]) + le(t, 4) + le(n, 2)
    for m in msgs:
        spec = spec + le(len(m), 2) + m
    env.check(len(raw) == len(spec), "Multi length")
    env.check(raw == spec, "Multi layout")
    env.check(p.size == len(raw), "Multi size property")
    q = MultiAppPacket(src_buf=raw)
    env.check(q.data.Time == t, "Multi time round-trip")
    env.check(q.data.Count == n, "Multi count round-trip")
    got = q.opt.Message
    env.check(len(got) == n, "Multi number of messages")
    for g, m in zip(got, msgs):
        env.check(len(g) == len(m), "Multi message length round-trip")
        env.check(bytes(g) == m, "Multi message round-trip")
    env.check(bytes(q) == raw, "Multi re-serialise")
    env.observe("len", len(raw))
    env.reach("end")


def multi_types(env):
    """bytearray messages and tuple containers serialise the same"""
    from saltchannel.v2.packets import MultiAppPacket
    a, b = env.blob("a", 0, 50), env.blob("b", 0, 50)
    p, q = MultiAppPacket(), MultiAppPacket()
    p.data.Count = q.data.Count = 2
    p.create_opt_fields(msgs=(a, b))
    q.create_opt_fields(msgs=[bytearray(a), bytearray(b)])
    env.check(bytes(p) == bytes(q), "message container type does not matter")
    env.check(bytes(p) == bytes([11, 0]) + bytes(4) + le(2, 2) + le(len(a), 2) + a + le(len(b), 2) + b, "Multi layout")
    env.reach("end")


def parse_multi_wire(env, n=2):
    """specified bytes -> messages, whatever the reserved byte"""
    from saltchannel.v2.packets import MultiAppPacket
    t, rsv = env.int("t", 0, U32), env.int("reserved", 0, 255)
    msgs = [env.blob("m%d" % i, 0, 65535) for i in range(n)]
    raw = bytes([11]) + bytes([rsv]) + le(t, 4) + le(n, 2)
    for m in msgs:
        raw = raw + le(len(m), 2) + m
    q = MultiAppPacket(src_buf=raw)
    env.check(len(q.opt.Message) == n, "Multi parse number of messages")
    env.check(q.data.Time == t, "Multi parse time")
    for g, m in zip(q.opt.Message, msgs):
        env.check(bytes(g) == m, "Multi parse message")
    env.reach("end")


def shared_state(env):
    """two multi packets do not share their message lists"""
    from saltchannel.v2.packets import MultiAppPacket
    a, b, c = env.blob("a", 0, 40), env.blob("b", 0, 40), env.blob("c", 0, 40)
    raw1 = bytes([11, 0]) + bytes(4) + le(2, 2) + le(len(a), 2) + a + le(len(b), 2) + b
    raw2 = bytes([11, 0]) + bytes(4) + le(1, 2) + le(len(c), 2) + c
    p = MultiAppPacket(src_buf=raw1)
    q = MultiAppPacket(src_buf=raw2)
    env.check(len(p.opt.Message) == 2 and len(q.opt.Message) == 1, "message counts")
    env.check(bytes(p.opt.Message[0]) == a, "first packet message 0")
    env.check(bytes(p.opt.Message[1]) == b, "first packet message 1")
    env.check(bytes(q.opt.Message[0]) == c, "second packet message")
    env.reach("end")


def multi_count(env):
    """the whole 16-bit range of the message counter"""
    from saltchannel.v2.packets import MultiAppPacket
    n, t = env.int("n", 0, 65535), env.int("t", 0, U32)
    p = MultiAppPacket()
    p.data.Count = n
    p.data.Time = t
    env.check(p.data.Count == n, "Multi count reads back")
    raw = bytes(p)
    env.check(raw[:8] == bytes([11, 0]) + le(t, 4) + le(n, 2), "Multi count layout")
    env.reach("end")


def multi_many(env, n=300):
    """many messages; the first and the last are symbolic"""
    from saltchannel.v2.packets import MultiAppPacket
    a, b = env.bytes("a", 2), env.bytes("b", 1)
    msgs = [a] + [b""] * (n - 2) + [b]
    raw = bytes([11, 0]) + bytes(4) + le(n, 2) + b"\x02\0" + a + bytes(2 * (n - 2)) + b"\x01\0" + b
    p = MultiAppPacket()
    p.data.Count = n
    p.create_opt_fields(msgs=msgs)
    env.check(bytes(p) == raw, "Multi layout with many messages")
    q = MultiAppPacket(src_buf=raw)
    env.check(q.data.Count == n, "Multi count round-trip")
    got = [bytes(m) for m in q.opt.Message]
    env.check(len(got) == n, "Multi number of messages")
    env.check(got[0] == a, "first message")
    env.check(got[-1] == b, "last message")
    env.check(all(len(m) == 0 for m in got[1:-1]), "empty messages between")
    env.reach("end")


LENS = [0, 1, 2, 15, 16, 17, 31, 32, 255, 256, 257, 65535]
SCENARIOS = [
    {"fn": "app", "reach": ["end"], "bounds": "payload of any length 0..70000, any time"},
    {"fn": "app_reuse", "reach": ["end"], "bounds": "payloads of any length 0..300"},
    {"fn": "encrypted", "reach": ["end"], "bounds": "body of any length 16..70000"},
    {"fn": "multi", "args": {"n": 1}, "reach": ["end"], "bounds": "1 message, any length 0..65535"},
    {"fn": "multi", "args": {"n": 2}, "reach": ["end"], "bounds": "2 messages, any lengths 0..65535"},
    {"fn": "multi", "args": {"n": 3}, "reach": ["end"], "bounds": "3 messages, any lengths 0..65535"},
    {"fn": "multi", "args": {"n": 4}, "reach": ["end"], "bounds": "4 messages, any lengths 0..65535", "tier": "thorough"},
    {"fn": "multi", "args": {"n": 6}, "reach": ["end"], "bounds": "6 messages, any lengths 0..65535", "tier": "thorough"},
    {"fn": "multi_types", "reach": ["end"], "bounds": "lengths 0..50"},
    {"fn": "parse_multi_wire", "args": {"n": 2}, "reach": ["end"], "bounds": "2 messages, any lengths 0..65535"},
    {"fn": "parse_multi_wire", "args": {"n": 3}, "reach": ["end"], "bounds": "3 messages, any lengths 0..65535"},
    {"fn": "multi_count", "reach": ["end"], "bounds": "any count 0..65535"},
    {"fn": "multi_many", "args": {"n": 2000}, "reach": ["end"], "bounds": "2000 messages", "cfg": {"max_steps": 1000000}},
    {"fn": "multi_many", "args": {"n": 33000}, "reach": ["end"], "bounds": "33000 messages (more than half the 16-bit range)", "cfg": {"max_steps": 10000000, "max_witness": 1}, "tier": "thorough"},
    {"fn": "shared_state", "reach": ["end"], "bounds": "lengths 0..40"},
]
