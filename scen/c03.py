"""C03: A1/A2 packets: layout, round-trip, and acceptance of exactly the well-formed byte strings."""
ASSUMPTIONS = ["oracle: the A1/A2 packet formats written out in scen/c03.py",
               "bytes following the last complete A2 entry are unspecified: nothing is claimed about acceptance there"]


def le(x, n):
    return x.to_bytes(n, 'little')


def bad_peer(env, o):
    from saltchannel.exceptions import BadPeer
    return (not o.ok) and isinstance(o.exc, BadPeer)


def a1_valid(env, raw):
    """formula: raw is a well-formed A1"""
    if len(raw) < 5:
        return False
    n = len(raw) - 5
    size = int.from_bytes(raw[3:5], 'little')
    return env.And(raw[0] == 8, size == n,
                   env.Or(env.And(raw[2] == 0, n == 0), env.And(raw[2] == 1, n == 32)))


def a1_accept(env, lo=0, hi=64):
    from saltchannel.a1a2.packets import A1Packet
    raw = env.sblob("raw", lo, hi)
    ok = a1_valid(env, raw)
    o = env.attempt(A1Packet, src_buf=raw)
    env.check(o.ok or bad_peer(env, o), "A1 parser raised %s" % o.name())
    env.check(env.Iff(ok, o.ok), "A1 accepted iff well formed")
    env.observe("accepted", o.ok)
    if o.ok:
        env.reach("accepted")
        p = o.value
        env.check(p.data.AddressType == raw[2], "A1 type field")
        env.check(p.Address == raw[5:], "A1 address")
        env.check(p.data.AddressSize == len(raw) - 5, "A1 size field")
        env.check(bytes(p) == raw, "A1 re-serialise")
    else:
        env.reach("rejected")


def a1_accept_any(env):
    """any length up to 70000 (16-bit size field wrap-around included)"""
    from saltchannel.a1a2.packets import A1Packet
    raw = env.blob("raw", 5, 70000)
    ok = a1_valid(env, raw)
    o = env.attempt(A1Packet, src_buf=raw)
    env.check(o.ok or bad_peer(env, o), "A1 parser raised %s" % o.name())
    env.check(env.Iff(ok, o.ok), "A1 accepted iff well formed")
    env.reach("accepted" if o.ok else "rejected")


def a1_build(env, pubkey=True):
    from saltchannel.a1a2.packets import A1Packet
    p = A1Packet()
    if pubkey:
        k = env.bytes("key", 32)
        p.data.AddressType = A1Packet.ADDRESS_TYPE_PUBKEY
        p.data.AddressSize = 32
        p.Address = k
        spec = bytes([8, 0, 1, 32, 0]) + k
    else:
        spec = bytes([8, 0, 0, 0, 0])
    raw = bytes(p)
    env.check(raw == spec, "A1 layout")
    env.check(p.size == len(spec), "A1 size property")
    q = A1Packet(src_buf=raw)
    env.check(bytes(q) == raw, "A1 round-trip")
    env.check(q.data.AddressType == (1 if pubkey else 0), "A1 address type round-trip")
    if pubkey:
        env.check(q.Address == k, "A1 address round-trip")
    env.observe("raw", raw)
    env.reach("end")


def okchar(env, c):
    return env.Or(env.And(c >= 0x61, c <= 0x7a), env.And(c >= 0x41, c <= 0x5a), env.And(c >= 0x30, c <= 0x39),
                  c == 0x2d, c == 0x2e, c == 0x2f, c == 0x5f)


def a2_header_ok(env, raw, n):
    return env.And(raw[0] == 9, raw[1] >= 128, raw[2] == n, n <= 127, env.Implies((raw[1] & 1) == 1, n == 0))


def a2_valid(env, raw, n):
    fs = [a2_header_ok(env, raw, n)]
    for i in range(20 * n):
        fs.append(okchar(env, raw[3 + i]))
    return env.And(*fs)


def a2_accept(env, lo=0, hi=2):
    """every byte string of 3+20n bytes"""
    from saltchannel.a1a2.packets import A2Packet
    n = lo + env.choice("entries", hi - lo + 1)
    raw = env.bytes("raw", 3 + 20 * n)
    ok = a2_valid(env, raw, n)
    o = env.attempt(A2Packet, src_buf=raw)
    env.check(o.ok or bad_peer(env, o), "A2 parser raised %s" % o.name())
    env.check(env.Iff(ok, o.ok), "A2 accepted iff well formed")
    env.observe("accepted", o.ok)
    if o.ok:
        env.reach("accepted")
        p = o.value
        env.check(bytes(p) == raw, "A2 re-serialise")
        env.check(p.data.Count == n, "A2 count")
        env.check(p.data.Header.NoSuchServer == (raw[1] & 1), "A2 NoSuchServer")
        env.check(len(p.Prot) == n, "A2 entries")
        for i in range(n):
            env.check(bytes(p.Prot[i].P1) == raw[3 + 20 * i:13 + 20 * i], "A2 P1")
            env.check(bytes(p.Prot[i].P2) == raw[13 + 20 * i:23 + 20 * i], "A2 P2")
    else:
        env.reach("rejected")


def a2_partial(env, hi=64):
    """any length: the header part of the acceptance rule holds, nothing but BadPeer is raised"""
    from saltchannel.a1a2.packets import A2Packet
    raw = env.sblob("raw", 0, hi)
    o = env.attempt(A2Packet, src_buf=raw)
    env.check(o.ok or bad_peer(env, o), "A2 parser raised %s" % o.name())
    if len(raw) < 3:
        env.check(not o.ok, "A2 too short accepted")
        return
    n = (len(raw) - 3) // 20
    if o.ok:
        env.check(a2_valid(env, raw, n), "A2 accepted although malformed")
        env.reach("accepted")


def a2_many(env, n=127):
    """n entries, one byte of them arbitrary, the rest valid constants"""
    from saltchannel.a1a2.packets import A2Packet
    pos = env.int("pos", 0, 20 * n - 1)
    k = env.choice("which", 3)
    i = [0, 20 * n - 1, 20 * (n // 2) + 11][k]
    b = env.int("byte", 0, 255)
    cnt = env.int("count", 0, 255)
    fl = env.int("flags", 0, 255)
    body = b'SCv2------' * (2 * n)
    raw = bytes([9]) + bytes([fl]) + bytes([cnt]) + body[:i] + bytes([b]) + body[i + 1:]
    ok = env.And(fl >= 128, (fl & 1) == 0, cnt == n, n <= 127, okchar(env, b))
    o = env.attempt(A2Packet, src_buf=raw)
    env.check(o.ok or bad_peer(env, o), "A2 parser raised %s" % o.name())
    env.check(env.Iff(ok, o.ok), "A2 with many entries accepted iff well formed")
    if o.ok:
        env.check(bytes(o.value) == raw, "A2 re-serialise")
        env.check(len(o.value.Prot) == n, "A2 entries")
        env.reach("accepted")
    else:
        env.reach("rejected")


def a2_build(env, case="default"):
    from saltchannel.a1a2.packets import A2Packet
    if case == "default":
        p = A2Packet(case=A2Packet.Case.A2_DEFAUT)
        spec = bytes([9, 128, 1]) + b'SCv2------' + b'----------'
    elif case == "none":
        p = A2Packet(case=A2Packet.Case.A2_NO_SUCH_SERVER)
        spec = bytes([9, 129, 0])
    elif case == "plain":
        p = A2Packet()
        spec = bytes([9, 128, 0])
    else:
        n = case
        ps = [env.bytes("p%d" % i, 20) for i in range(n)]
        for x in ps:
            env.assume(env.And(*[okchar(env, x[j]) for j in range(20)]))
        p = A2Packet()
        p.data.Count = n
        p.create_opt_fields(prot_count=n)
        spec = bytes([9, 128, n])
        from saltchannel.util import cbytes
        for i, x in enumerate(ps):
            p.opt.Prot[i].P1 = cbytes(x[:10])
            p.opt.Prot[i].P2 = cbytes(x[10:])
            spec = spec + x
    raw = bytes(p)
    env.check(raw == spec, "A2 layout")
    env.check(p.size == len(spec), "A2 size property")
    q = A2Packet(src_buf=raw)
    env.check(bytes(q) == raw, "A2 round-trip")
    env.observe("raw", raw)
    env.reach("end")


SCENARIOS = [
    {"fn": "a1_accept", "args": {"lo": 0, "hi": 31}, "reach": ["accepted", "rejected"], "bounds": "all byte strings of 0..31 bytes"},
    {"fn": "a1_accept", "args": {"lo": 32, "hi": 64}, "reach": ["accepted", "rejected"], "bounds": "all byte strings of 32..64 bytes"},
    {"fn": "a1_accept_any", "reach": ["accepted", "rejected"], "bounds": "all byte strings of 5..70000 bytes (symbolic length)"},
    {"fn": "a1_build", "args": {"pubkey": True}, "reach": ["end"], "bounds": "all 32-byte addresses"},
    {"fn": "a1_build", "args": {"pubkey": False}, "reach": ["end"], "bounds": "constant"},
    {"fn": "a2_accept", "args": {"lo": 0, "hi": 1}, "reach": ["accepted", "rejected"], "bounds": "all byte strings of 3 and 23 bytes"},
    {"fn": "a2_accept", "args": {"lo": 2, "hi": 2}, "reach": ["accepted", "rejected"], "bounds": "all byte strings of 43 bytes"},
    {"fn": "a2_accept", "args": {"lo": 3, "hi": 3}, "reach": ["accepted", "rejected"], "bounds": "all byte strings of 63 bytes"},
    {"fn": "a2_accept", "args": {"lo": 4, "hi": 8}, "reach": ["accepted", "rejected"], "bounds": "all byte strings with 4..8 entries",
     "tier": "thorough"},
    {"fn": "a2_partial", "args": {"hi": 64}, "reach": ["accepted"], "bounds": "all byte strings of 0..64 bytes"},
    {"fn": "a2_many", "args": {"n": 127}, "reach": ["accepted", "rejected"], "bounds": "127 entries, 3 positions of an arbitrary byte, any flags/count"},
    {"fn": "a2_many", "args": {"n": 128}, "reach": ["rejected"], "bounds": "128 entries, 3 positions of an arbitrary byte, any flags/count"},
    {"fn": "a2_build", "args": {"case": "default"}, "reach": ["end"], "bounds": "constant"},
    {"fn": "a2_build", "args": {"case": "none"}, "reach": ["end"], "bounds": "constant"},
    {"fn": "a2_build", "args": {"case": "plain"}, "reach": ["end"], "bounds": "constant"},
    {"fn": "a2_build", "args": {"case": 2}, "reach": ["end"], "bounds": "2 entries, all valid strings"},
    {"fn": "a2_build", "args": {"case": 5}, "reach": ["end"], "bounds": "5 entries, all valid strings"},
]
