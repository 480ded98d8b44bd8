"""C05: every packet encrypted under a session key uses a fresh nonce: client 1,3,5.., server 2,4,6.."""
from scen.world import World, Chan, IOFault, pair, nonce_bytes
from scen.sess import honest_pair, run_pair
ASSUMPTIONS = ["nonces are observed at the crypto library boundary (World.log_box/log_open in scen/world.py)",
               "ideal authenticated encryption (World)"]


def chan(env, w, role, ch, key=None, sn=None):
    from saltchannel.v2.encrypted_channel_v2 import EncryptedChannelV2, Role
    r = Role.CLIENT if role == "client" else Role.SERVER
    key = env.bytes("key", 32) if key is None else key
    if sn is None:
        return EncryptedChannelV2(ch, key, r)
    return EncryptedChannelV2(ch, key, r, session_nonce=sn)


def history(env, role="client", ops=3, sn=True):
    """any sequence of writes (batches, faults) and reads (valid, invalid)"""
    w = World(env, adv=True)
    key = env.bytes("key", 32)
    s = env.bytes("snonce", 8) if sn else bytes(8)
    inq, outq = [], []
    ch = Chan(env, inq, outq)
    c = chan(env, w, role, ch, key, s if sn else None)
    nw, nr = (1, 2) if role == "client" else (2, 1)
    accepted = attempts = 0
    for i in range(ops):
        op = env.choice("op", 6)
        nbox = len(w.log_box)
        if op < 4:
            n = [1, 2, 3, 2][op]
            msgs = [env.bytes("m", 4 * ((i + j) % 2)) for j in range(n)]       # empty ones included
            fault = op == 3 or (op == 0 and env.choice("fault", 2) == 1)
            if fault:
                ch.fault = IOFault("transport")
            o = env.arun(c.write, *msgs)
            env.check(o.ok == (not fault), "write outcome")
            got = w.log_box[nbox:]
            env.check(len(got) == n, "one encryption per message")
            for (k, nn, m, cc), msg in zip(got, msgs):
                env.check(k == key, "write key")
                env.check(nn == nonce_bytes(nw, s), "write nonce")
                env.check(m == msg, "encrypted message")
                nw += 2
            env.reach("write")
            if fault:
                env.reach("fault")
        else:
            inq.append(bytes([6]) + bytes([env.int("flags", 0, 255)]) + env.bytes("body", 16 + 6 * (i % 2)))
            no = len(w.log_open)
            o = env.arun(c.read)
            for (k, nn, cc, m) in w.log_open[no:]:
                env.check(k == key, "read key")
                env.check(nn == nonce_bytes(nr, s), "read nonce")
            if o.ok:
                env.check(len(w.log_open) > no, "accepted without decryption")
                nr += 2
                env.reach("read accepted")
            else:
                env.reach("read rejected")
            env.check(len(w.log_box) == nbox, "reading encrypts nothing")
    env.observe("boxes", len(w.log_box))


def lengths(env, role="client", n=2):
    """the nonce sequence does not depend on the length of the messages"""
    w = World(env, adv=True)
    key = env.bytes("key", 32)
    ch = Chan(env, [], [])
    c = chan(env, w, role, ch, key)
    nw, nr = (1, 2) if role == "client" else (2, 1)
    msgs = [env.blob("m", 0, 70000) for _ in range(n)]
    if n > 1 and env.choice("batch", 2):
        env.run(c.write(*msgs))
    else:
        for m in msgs:
            env.run(c.write(m))
    env.check(len(w.log_box) == n, "one encryption per message")
    for i, (k, nn, m, cc) in enumerate(w.log_box):
        env.check(nn == nonce_bytes(nw + 2 * i), "write nonce")
    for i in range(n):
        ch.inq.append(bytes([6, 0]) + env.blob("body", 16, 70000))
        no = len(w.log_open)
        o = env.arun(c.read)
        env.check(len(w.log_open) > no, "packet not decrypted")
        for (k, nn, cc, m) in w.log_open[no:]:
            env.check(nn == nonce_bytes(nr), "read nonce")
        if o.ok:
            nr += 2
    env.reach("end")


def step(env, role="client"):
    """from an arbitrary counter value: the next nonces follow it and never wrap around"""
    w = World(env, adv=True)
    ch = Chan(env, [], [])
    c = chan(env, w, role, ch)
    odd = 1 if role == "client" else 0
    v = env.int("counter", 0, 2 ** 63 - 1) * 2 + odd
    r = env.int("rcounter", 0, 2 ** 63 - 1) * 2 + (1 - odd)
    if not (hasattr(c, "write_nonce") and hasattr(c.write_nonce, "value")):
        env.reach("end")
        return
    c.write_nonce.value = v
    c.read_nonce.value = r
    for i in range(3):
        o = env.arun(c.write, env.bytes("m", 0 if i == 1 else 3))
        want = v + 2 * i
        if want > 2 ** 64 - 1:
            env.check(not o.ok, "nonce counter wraps around")
            env.reach("exhausted")
        else:
            env.check(o.ok, "write failed")
            env.check(len(w.log_box) == i + 1, "one encryption per write")
            env.check(w.log_box[-1][1] == nonce_bytes(want), "write nonce follows the counter")
    n = 0
    for i in range(2):
        ch.inq.append(bytes([6, 0]) + env.bytes("body", 16 + 4 * i))
        no = len(w.log_open)
        o = env.arun(c.read)
        want = r + 2 * n
        if want <= 2 ** 64 - 1:
            env.check(len(w.log_open) == no + 1, "one decryption per read")
            env.check(w.log_open[-1][1] == nonce_bytes(want), "read nonce follows the counter")
        else:
            env.check(not o.ok, "read nonce counter wraps around")
        if o.ok:
            n += 1
    env.reach("end")


def key_size(env):
    w = World(env)
    key = env.sblob("key", 0, 80)
    role = ["client", "server"][env.choice("role", 2)]
    o = env.attempt(chan, env, w, role, Chan(env, [], []), key)
    if len(key) == 32:
        env.check(o.ok, "good key refused")
        env.reach("good")
    else:
        env.check((not o.ok) and isinstance(o.exc, ValueError), "bad key size: " + o.name())
        env.reach("bad")


def two_channels(env):
    """channels do not share counters; both directions of one session never use the same nonce"""
    w = World(env, forge="never")
    key = env.bytes("key", 32)
    a, b = pair(env)
    c, s = chan(env, w, "client", a, key), chan(env, w, "server", b, key)
    c2 = chan(env, w, "client", Chan(env, [], []), env.bytes("key2", 32))
    seq = {"c": 1, "s": 2, "x": 1}
    for i in range(4):
        k = env.choice("who", 3)
        who, obj = [("c", c), ("s", s), ("x", c2)][k]
        m = env.bytes("m", 4 * (i % 2))
        env.run(obj.write(m))
        env.check(w.log_box[-1][1] == nonce_bytes(seq[who]), "nonce of each end")
        env.check(len(w.log_box) == i + 1, "one encryption per write")
        seq[who] += 2
    env.reach("end")


def session(env, buf_m2=False, buf_m4=False, pinned=False):
    """handshake and application traffic in one session: each side's nonces are its sequence without gap or repetition"""
    w = World(env, forge="never")
    cl, sv, a, b = honest_pair(env, w, buf_m2, buf_m4, pinned)

    async def client():
        await cl.handshake()
        await cl.app_channel.write(env.bytes("r1", 3))
        await cl.app_channel.read()
        await cl.app_channel.write(env.bytes("r2", 4), env.bytes("r3", 2))
        await cl.app_channel.write(env.bytes("r4", 0))

    async def server():
        await sv.handshake()
        await sv.app_channel.read()
        await sv.app_channel.write(env.bytes("w1", 5))
        await sv.app_channel.write(env.bytes("w2", 6), env.blob("w3", 65536, 65540))
    run_pair(env, client(), server())
    keys = [k for k, n, m, c in w.log_box]
    for k in keys:
        env.check(k == keys[0], "one session key")
    seen = {1: 1, 0: 2}
    for k, n, m, c in w.log_box:
        par = 0 if n[0] % 2 == 0 else 1
        env.check(n == nonce_bytes(seen[par]), "nonces of a session in sequence")
        seen[par] += 2
        typ = m[0]
        env.check(env.Implies(typ == 3, par == 0), "M3 under a server nonce")
        env.check(env.Implies(typ == 4, par == 1), "M4 under a client nonce")
    env.check(seen[1] == 1 + 2 * 4, "client packets")
    env.check(seen[0] == 2 + 2 * 4, "server packets")
    env.reach("end")


SCENARIOS = []
for _r in ("client", "server"):
    SCENARIOS += [
        {"fn": "history", "args": {"role": _r, "ops": 3}, "reach": ["write", "fault", "read accepted", "read rejected"],
         "bounds": "every sequence of 3 operations (batches 1..3, transport faults, valid/invalid reads), any session nonce"},
        {"fn": "history", "args": {"role": _r, "ops": 2, "sn": False}, "reach": ["write", "fault", "read accepted"],
         "bounds": "every sequence of 2 operations, default session nonce"},
        {"fn": "history", "args": {"role": _r, "ops": 5}, "reach": ["write", "fault", "read accepted", "read rejected"],
         "bounds": "every sequence of 5 operations", "tier": "thorough"},
        {"fn": "lengths", "args": {"role": _r}, "reach": ["end"], "bounds": "2 messages written and 2 packets read, each of any length 0..70000"},
        {"fn": "step", "args": {"role": _r}, "reach": ["end"], "bounds": "arbitrary 64-bit counters, 3 writes and 2 reads"},
    ]
SCENARIOS += [
    {"fn": "key_size", "reach": ["good", "bad"], "bounds": "keys of 0..80 bytes"},
    {"fn": "two_channels", "reach": ["end"], "bounds": "4 writes over three channels in any order"},
]
for _a in (False, True):
    for _b in (False, True):
        SCENARIOS.append({"fn": "session", "args": {"buf_m2": _a, "buf_m4": _b, "pinned": _a != _b}, "reach": ["end"],
                          "bounds": "all keys; handshake plus 7 application messages"})
