"""C16: library selection and key generation."""
from scen.world import World
ASSUMPTIONS = ["library models as in C15; os.urandom is a stream of arbitrary bytes recorded by the harness"]
TYPES = {"native": 1, "pynacl": 2, "tweetnacl": 3}


def classes():
    from saltchannel.saltlib.saltlib_native import SaltLibNative
    from saltchannel.saltlib.saltlib_pynacl import SaltLibPyNaCl
    from saltchannel.saltlib.saltlib_tweetnaclext import SaltLibTweetNaClExt
    return [SaltLibNative, SaltLibPyNaCl, SaltLibTweetNaClExt]


def select(env, how="getLib"):
    """every combination of available libraries, every request, repeatedly"""
    w = World(env)
    from saltchannel.saltlib.saltlib import SaltLib, LibType
    from saltchannel.saltlib.exceptions import NoSuchLibException
    cl = classes()
    avail = [bool(env.choice("available", 2)) for _ in cl]
    saved = [c.__dict__.get("isAvailable") for c in cl]
    try:
        for c, a in zip(cl, avail):
            c.isAvailable = staticmethod(lambda a=a: a)
        for i in range(2 if how == "getLib" else 1):
            req = env.choice("request", 5)          # 0 best, 1..3 specific, 4: no argument
            t = [LibType.LIB_TYPE_BEST, LibType.LIB_TYPE_NATIVE, LibType.LIB_TYPE_PYNACL, LibType.LIB_TYPE_TWEETNACL_EXT][req % 4]
            f = SaltLib.getLib if how == "getLib" else (lambda *a: SaltLib(*a).api)
            o = env.attempt(f) if req == 4 else env.attempt(f, t)
            if req in (0, 4):
                want = next((c for c, a in zip(cl, avail) if a), None)
            else:
                want = cl[req - 1] if avail[req - 1] else None
            if want is None:
                env.check((not o.ok) and isinstance(o.exc, NoSuchLibException), "library not available: " + o.name())
                env.reach("none")
            else:
                env.check(o.ok, "available library refused: " + o.name())
                env.check(type(o.value) is want, "wrong library returned")
                env.reach("found")
    finally:
        for c, s in zip(cl, saved):
            c.isAvailable = s
    env.reach("end")


def no_sodium(env):
    """libsodium cannot be found (the loader returns the process itself, without a name)"""
    w = World(env)
    type(w.sodium)._name = None
    from saltchannel.saltlib.saltlib import SaltLib, LibType
    from saltchannel.saltlib.exceptions import NoSuchLibException
    cl = classes()
    req = env.choice("request", 4)
    t = [LibType.LIB_TYPE_BEST, LibType.LIB_TYPE_NATIVE, LibType.LIB_TYPE_PYNACL, LibType.LIB_TYPE_TWEETNACL_EXT][req]
    o = env.attempt(SaltLib.getLib, t)
    if req == 1:
        env.check((not o.ok) and isinstance(o.exc, NoSuchLibException), "native library without libsodium: " + o.name())
    else:
        env.check(o.ok, "raised " + o.name())
        env.check(type(o.value) is cl[req - 1 if req else 1], "wrong library")
    env.reach("end")


def libtype(lib):
    from saltchannel.saltlib.saltlib import LibType
    return LibType(TYPES[lib])


def generate(env, lib="native", rng="urandom"):
    """key pairs come from the selected random source"""
    w = World(env, distinct=True)
    from saltchannel.saltlib.saltlib import SaltLib, RngType
    s = SaltLib(libtype(lib), RngType.RNG_URANDOM if rng == "urandom" else RngType.RNG_IMPL)
    src = "urandom" if rng == "urandom" else "impl"
    for kind in [("enc", "sig"), ("sig", "enc"), ("enc", "enc"), ("sig", "sig")][env.choice("order", 4)]:
        n0 = len(w.log_rand)
        if kind == "enc":
            kp = s.create_enc_keys()
            new = w.log_rand[n0:]
            env.check(len(new) == 1, "one random request")
            env.check(new[0][0] == src, "random source")
            env.check(new[0][1] == 32, "number of random bytes")
            env.check(kp.sec == new[0][2], "secret key is the random value")
            env.check(kp.pub == w.enc_pk(new[0][2]), "public key belongs to it")
        else:
            kp = s.create_sig_keys()
            new = w.log_rand[n0:]
            env.check(len(new) == 1, "one random request")
            env.check(new[0][0] == src, "random source")
            env.check(new[0][1] == 32, "number of random bytes")
            pk, sk = w.sign_seed(new[0][2])
            env.check(kp.pub == pk, "public key")
            env.check(kp.sec == sk, "secret key")
    env.reach("end")


def from_secret(env, lib="native"):
    """key pairs from given secrets of any size"""
    w = World(env, distinct=False)
    from saltchannel.saltlib.saltlib import SaltLib
    s = SaltLib(libtype(lib))
    sec = env.sblob("sec", 0, 70)
    o = env.attempt(s.create_enc_keys_from_sec, sec)
    if len(sec) == 32:
        env.check(o.ok, "create_enc_keys_from_sec raised " + o.name())
        env.check(o.value.sec == sec, "encryption secret")
        env.check(o.value.pub == w.enc_pk(sec), "encryption public key")
        env.reach("enc")
    else:
        env.check((not o.ok) and isinstance(o.exc, ValueError), "secret of a wrong size: " + o.name())
        env.reach("enc refused")
    o = env.attempt(s.create_sig_keys_from_sec, sec)
    if len(sec) in (32, 64):
        env.check(o.ok, "create_sig_keys_from_sec raised " + o.name())
        pk, sk = w.sign_seed(sec[:32])
        env.check(o.value.pub == pk, "signing public key")
        env.check(o.value.sec == sk, "signing secret key")
        env.reach("sig")
    elif len(sec) < 32:
        env.check((not o.ok) and isinstance(o.exc, ValueError), "seed of a wrong size: " + o.name())
        env.reach("sig refused")


def backend_sizes(env, lib="native"):
    """the back-ends refuse seeds and secrets of a wrong size"""
    w = World(env)
    from scen.c15 import backend
    api = backend(lib)
    sec = env.sblob("sec", 0, 66)
    for f in (api.crypto_sign_keypair_not_random, api.crypto_box_keypair_not_random):
        o = env.attempt(f, sec)
        if len(sec) == 32:
            env.check(o.ok, "raised " + o.name())
            env.reach("good")
        else:
            env.check((not o.ok) and isinstance(o.exc, ValueError), "wrong size: " + o.name())
            env.reach("bad")


def shared_sizes(env, lib="native"):
    """key agreement inputs of a wrong size"""
    w = World(env)
    from saltchannel.saltlib.saltlib import SaltLib
    s = SaltLib(libtype(lib))
    if env.choice("which", 2):
        sk, pk = env.sblob("sk", 0, 66), env.bytes("pk", 32)
    else:
        sk, pk = env.bytes("sk", 32), env.sblob("pk", 0, 66)
    o = env.attempt(s.compute_shared_key, sk, pk)
    if len(sk) == 32 and len(pk) == 32:
        env.check(o.ok, "raised " + o.name())
        env.check(o.value == w.dh(pk, sk), "shared key")
        env.reach("good")
    else:
        env.check((not o.ok) and isinstance(o.exc, ValueError), "wrong size: " + o.name())
        env.check(len(w.log_dh) == 0, "library called with a wrong size")
        env.reach("bad")


def best_source(env, rng="impl"):
    """the random source is the requested one whatever library is requested or found"""
    w = World(env, distinct=True)
    from saltchannel.saltlib.saltlib import SaltLib, RngType, LibType
    r = RngType.RNG_URANDOM if rng == "urandom" else RngType.RNG_IMPL
    how = env.choice("how", 3)
    if how == 0:
        s = SaltLib(LibType.LIB_TYPE_BEST, r)
    elif how == 1:
        s = SaltLib(rand_type=r)
    else:
        s = SaltLib(LibType.LIB_TYPE_BEST, rand_type=r)
        s = SaltLib()                      # later users get the same configuration
    for i in range(2):
        kp = s.create_sig_keys() if i else s.create_enc_keys()
        env.check(len(w.log_rand) == i + 1, "one random request")
        src, k, rnd = w.log_rand[i]
        env.check(src == ("urandom" if rng == "urandom" else "impl"), "random source")
        env.check(k == 32, "number of random bytes")
        env.check(kp.pub == (w.sign_seed(rnd)[0] if i else w.enc_pk(rnd)), "public key")
    env.reach("end")


def random(env, lib="native", rng="impl"):
    """random_bytes(n) returns exactly n bytes of the selected source"""
    w = World(env)
    from saltchannel.saltlib.saltlib import SaltLib, RngType
    s = SaltLib(libtype(lib), RngType.RNG_URANDOM if rng == "urandom" else RngType.RNG_IMPL)
    n = env.choice("n", 70)
    o = env.attempt(s.random_bytes, n)
    env.check(o.ok, "random_bytes raised " + o.name())
    env.check(len(w.log_rand) == 1, "one request")
    src, k, r = w.log_rand[0]
    env.check(src == ("urandom" if rng == "urandom" else "impl"), "random source")
    env.check(k == n, "number of bytes requested")
    env.check(o.value == r, "bytes returned")
    env.reach("end")


def keypair(env):
    """KeyPair keeps the two parts apart"""
    from saltchannel.util.key_pair import KeyPair
    s, p = env.bytes("s", 32), env.bytes("p", 32)
    k = KeyPair(sec=s, pub=p)
    env.check(k.sec == s, "secret")
    env.check(k.pub == p, "public")
    env.reach("end")


S = lambda fn, reach=("end",), **k: dict({"fn": fn, "reach": list(reach)}, **k)
SCENARIOS = [S("select", ("none", "found", "end"), args={"how": "getLib"}, bounds="all 8 availability combinations, 2 requests of any kind"),
             S("select", ("none", "found", "end"), args={"how": "SaltLib"}, bounds="all 8 availability combinations, any request"),
             S("best_source", args={"rng": "impl"}), S("best_source", args={"rng": "urandom"}),
             S("no_sodium"), S("keypair")]
for _l in ("native", "pynacl", "tweetnacl"):
    for _r in ("urandom", "impl"):
        SCENARIOS += [S("generate", args={"lib": _l, "rng": _r}, bounds="any random bytes, two key pairs in any order"),
                      S("random", args={"lib": _l, "rng": _r}, bounds="0..69 bytes")]
    SCENARIOS += [S("from_secret", ("enc", "enc refused", "sig", "sig refused"), args={"lib": _l}, bounds="secrets of 0..70 bytes"),
                  S("backend_sizes", ("good", "bad"), args={"lib": _l}, bounds="secrets of 0..66 bytes"),
                  S("shared_sizes", ("good", "bad"), args={"lib": _l}, bounds="keys of 0..66 bytes")]
