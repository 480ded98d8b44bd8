"""C22: the pure-Python back-end computes SHA-512, XSalsa20, Poly1305 and NaCl secret boxes."""
from scen.world import World
from sx import purecheck as pc
from sx import spec
ASSUMPTIONS = ["sx/spec.py states SHA-512 (FIPS 180-4), XSalsa20, Poly1305 and the NaCl secret box correctly (tools/selftest.py compares it with hashlib and with known answers)",
               "the rewriting rules of sx/poly.py preserve values (argued in DESIGN.md section 4; every run compares the rewritten terms with the real code on concrete inputs)",
               "X25519 and Ed25519 of the pure back-end are outside this property"]


def api():
    from saltchannel.saltlib.saltlib_pure import SaltLibPure
    return SaltLibPure()


def tweet():
    from saltchannel.saltlib.pure_pynacl import tweetnacl
    return tweetnacl


def run(env, case, label, real):
    """symbolic: decide the case for all inputs; concrete: the real code on one input"""
    ins = {k: env.bytes(k, n) for k, n in case.inputs.items()}
    if not env.SYM:
        real(ins)
        env.reach("end")
        return
    from sx.core import Unsupported
    r = pc.decide(case)
    st = env.path.stats
    st.queries += r.queries
    st.check_queries += r.queries
    st.solver_s += r.solver_s
    st.functions.update(r.functions)
    st.checks[label] = r.identical + r.solved
    st.bounds.append("%d paths; %d outputs equal by normal form, %d by z3" % (r.paths, r.identical, r.solved))
    st.decisions += r.paths - 1
    v = r.cex or r.sample
    if v is not None:
        for k, x in v[0].items():
            env.assume(ins[k] == x)
    if r.cex is not None:
        env.fail(label, r.cex[1])
    if r.undecided:
        raise Unsupported("; ".join(sorted(set(r.undecided)))[:300])
    env.observe("out", r.sample[1])
    env.reach("end")


def plain(env, call, want, label):
    o = env.attempt(call)
    env.check(o.ok, "%s: raised %s" % (label, o.name()))
    env.check(env.isbytes(o.value), label + " is not bytes")
    env.check(o.value == want, label)
    env.observe("out", o.value)


def hash(env, n=0):
    w = World(env)
    case = pc.Fn({"m": n}, lambda a, t, x: a.crypto_hash(x["m"]), lambda x: spec.sha512(x["m"]))
    run(env, case, "SHA-512", lambda x: plain(env, lambda: api().crypto_hash(x["m"]), bytes(spec.sha512(x["m"])), "SHA-512"))


def boxspec(x):
    return spec.secretbox(list(x["m"]), list(x["n"]), list(x["k"]))


def box(env, n=0):
    w = World(env)
    case = pc.Box(n)
    run(env, case, "ciphertext", lambda x: plain(env, lambda: api().crypto_box_afternm(x["m"], x["n"], x["k"]), bytes(boxspec(x)),
                                                 "ciphertext"))


def opened(env, c, n, k):
    from saltchannel.saltlib.exceptions import BadEncryptedDataException
    want = pc.spec_open(c, n, k)
    o = env.attempt(api().crypto_box_open_afternm, c, n, k)
    if want is None:
        env.check((not o.ok) and isinstance(o.exc, BadEncryptedDataException), "open", "forged box: " + o.name())
    else:
        env.check(o.ok, "open", "genuine box refused: " + o.name())
        env.check(env.isbytes(o.value), "open", "plaintext is not bytes")
        env.check(o.value == want, "open", "plaintext")
    env.observe("out", want)


def box_open(env, n=0):
    """any n bytes as a box"""
    w = World(env)

    run(env, pc.Open(n, lambda a, t, x: a.crypto_box_open_afternm(x["c"], x["n"], x["k"])), "open",
        lambda x: opened(env, x["c"], x["n"], x["k"]))


def stream(env, n=0):
    """the XSalsa20 stream added to a message"""
    w = World(env)

    def code(a, t, x):
        out = t.IntArray(t.u8, size=n)
        t.crypto_stream_xsalsa20_tweet_xor(out, x["m"], n, x["n"], x["k"])
        return out

    def want(x):
        return [a ^ b for a, b in zip(x["m"], spec.xsalsa20(list(x["k"]), list(x["n"]), n))]
    run(env, pc.Fn({"m": n, "n": 24, "k": 32}, code, want), "stream",
        lambda x: plain(env, lambda: bytes(code(None, tweet(), x)), bytes(want(x)), "stream"))


def stream_long(env, n=0):
    """the same for a long message (any 64 bytes, repeated) under a fixed key and nonce: the block counter"""
    w = World(env)
    k, nn = list(range(1, 33)), list(range(40, 64))

    def code(a, t, x):
        out = t.IntArray(t.u8, size=n)
        t.crypto_stream_xsalsa20_tweet_xor(out, list(x["m"]) * (n // 64), n, t.IntArray(t.u8, init=nn), t.IntArray(t.u8, init=k))
        return out

    def want(x):
        return [a ^ b for a, b in zip(list(x["m"]) * (n // 64), spec.xsalsa20(k, nn, n))]
    run(env, pc.Fn({"m": 64}, code, want), "stream",
        lambda x: plain(env, lambda: bytes(code(None, tweet(), x)), bytes(want(x)), "stream"))


def fixed(n):
    return [(7 * i + 3 * (i >> 8) + 1) & 255 for i in range(n)]


KEY, NONCE = list(range(1, 33)), list(range(40, 64))


def hash_long(env, n=0):
    """a long message: fixed up to its last 16 bytes, which are arbitrary"""
    w = World(env)

    def msg(x):
        return fixed(n - 16) + list(x["m"])
    run(env, pc.Fn({"m": 16}, lambda a, t, x: a.crypto_hash(pc.bytes_of(msg(x))), lambda x: spec.sha512(msg(x))), "SHA-512",
        lambda x: plain(env, lambda: api().crypto_hash(bytes(msg(x))), bytes(spec.sha512(msg(x))), "SHA-512"))


def box_long(env, n=0):
    """the same for a box with one key and nonce"""
    w = World(env)

    def code(a, x, b):
        return a.crypto_box_afternm(b(fixed(n - 16) + list(x["m"])), b(NONCE), b(KEY))

    def want(x):
        return spec.secretbox(fixed(n - 16) + list(x["m"]), NONCE, KEY)
    run(env, pc.Fn({"m": 16}, lambda a, t, x: code(a, x, pc.bytes_of), want), "ciphertext",
        lambda x: plain(env, lambda: code(api(), x, bytes), bytes(want(x)), "ciphertext"))


def open_long(env, n=0):
    """a long box, one key, nonce and message, with any authenticator"""
    w = World(env)
    pre = spec.secretbox(fixed(n), NONCE, KEY)[16:]

    def code(a, t, x):
        return a.crypto_box_open_afternm(pc.bytes_of(list(x["c"]) + pre), pc.bytes_of(NONCE), pc.bytes_of(KEY))
    run(env, pc.OpenLong(pre, NONCE, KEY, code), "open", lambda x: opened(env, bytes(x["c"]) + bytes(pre), bytes(NONCE), bytes(KEY)))


def auth(env, n=0):
    """Poly1305 with any key"""
    w = World(env)

    def code(a, t, x):
        out = t.IntArray(t.u8, size=16)
        t.crypto_onetimeauth_poly1305_tweet(out, x["m"], n, x["k"])
        return out
    run(env, pc.Auth({"m": n, "k": 32}, code, lambda x: spec.poly1305(x["m"], x["k"])), "authenticator",
        lambda x: plain(env, lambda: bytes(code(None, tweet(), x)), bytes(spec.poly1305(list(x["m"]), list(x["k"]))),
                        "authenticator"))


def core(env, h=0):
    """the Salsa20 and HSalsa20 functions with any constant"""
    w = World(env)

    def code(a, t, x):
        out = t.IntArray(t.u8, size=32 if h else 64)
        (t.crypto_core_hsalsa20_tweet if h else t.crypto_core_salsa20_tweet)(out, x["in"], x["k"], t.sigma)
        return out

    def want(x):
        return spec.hsalsa20(x["k"], x["in"]) if h else spec.salsa20(x["k"], x["in"])
    run(env, pc.Fn({"in": 16, "k": 32}, code, want), "core",
        lambda x: plain(env, lambda: bytes(code(None, tweet(), x)), bytes(want(x)), "core"))


def S(fn, ns, tier="quick", **k):
    return [dict(fn=fn, args={"n": n}, tier=tier, reach=["end"], bounds="length %d, any content" % n, **k) for n in ns]


Q = {"hash": (0, 3, 55, 111, 112, 119, 127, 128, 129, 240), "box": (0, 1, 15, 16, 17, 32, 33, 100, 200), "stream": (1, 63, 64, 65, 130, 200),
     "box_open": (0, 15, 16, 17, 31, 32, 33, 48, 130), "auth": (0, 1, 15, 16, 17, 32, 33, 48, 64, 100, 256)}
T = {"hash": [n for n in range(0, 264) if n not in Q["hash"]] + [300, 367, 368, 384, 500, 512],
     "box": [n for n in range(0, 150) if n not in Q["box"]] + [256, 300, 1100],
     "stream": [n for n in range(2, 131) if n not in Q["stream"]] + [192, 640, 1100],
     "box_open": [n for n in range(1, 130) if n not in Q["box_open"]] + [256, 300, 1100],
     "auth": [n for n in range(2, 150) if n not in Q["auth"]] + [160, 512, 1040]}
SCENARIOS = [dict(fn="core", args={"h": h}, reach=["end"], bounds="any input block and key") for h in (0, 1)]
SCENARIOS.append(dict(fn="stream_long", args={"n": 64 * 258}, reach=["end"],
                      bounds="258 blocks (the counter passes 255) of any repeated 64 bytes, one key and nonce"))
SCENARIOS.append(dict(fn="stream_long", args={"n": 64 * 1030}, reach=["end"], tier="thorough",
                      bounds="1,030 blocks of any repeated 64 bytes, one key and nonce"))
for _f, _q, _t, _b in (("hash_long", (1000, 8304), (383, 20016, 66000), "fixed but for the last 16"),
                       ("box_long", (17000,), (5000, 40008), "one key and nonce, fixed but for the last 16"),
                       ("open_long", (17000,), (5000, 40008), "one key, nonce and message, any authenticator")):
    for _n in _q + _t:
        SCENARIOS.append(dict(fn=_f, args={"n": _n}, tier="quick" if _n in _q else "thorough", reach=["end"],
                              bounds="%d bytes, %s" % (_n, _b)))
for _f in Q:
    SCENARIOS += S(_f, Q[_f])
    SCENARIOS += S(_f, T[_f], "thorough")
