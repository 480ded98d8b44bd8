"""C15: crypto back-ends pass exactly the right data to the primitives and return exactly their results."""
from scen.world import World, nonce_bytes
ASSUMPTIONS = ["libsodium, PyNaCl and TweetNaCl are replaced by models of their documented C/Python interfaces (scen/world.py): padding rules, argument order and sizes, bounds-checked buffers, return codes",
               "the pure-Python back-end is not wired into the library; its symmetric primitives are C22"]
LIBS = ("native", "pynacl", "tweetnacl")


def backend(name):
    if name == "native":
        from saltchannel.saltlib.saltlib_native import SaltLibNative as L
    elif name == "pynacl":
        from saltchannel.saltlib.saltlib_pynacl import SaltLibPyNaCl as L
    else:
        from saltchannel.saltlib.saltlib_tweetnaclext import SaltLibTweetNaClExt as L
    return L()


def ok(env, o, what):
    env.check(o.ok, "%s raised %s" % (what, o.name()))
    return o.value


def isb(env, v, what):
    env.check(env.isbytes(v), what + " is not bytes")


def sign(env, lib="native", hi=70000):
    w = World(env)
    api = backend(lib)
    pk, sk = w.sign_seed(env.bytes("seed", 32))
    m = env.blob("m", 0, hi)
    sm = ok(env, env.attempt(api.crypto_sign, m, sk), "crypto_sign")
    isb(env, sm, "signed message")
    env.check(len(sm) == len(m) + 64, "signed message length")
    env.check(sm[:64] == w.sign(m, sk), "signature")
    env.check(sm[64:] == m, "message inside the signed message")
    back = ok(env, env.attempt(api.crypto_sign_open, sm, pk), "crypto_sign_open of a genuine signature")
    isb(env, back, "opened message")
    env.check(len(back) == len(m), "opened message length")
    env.check(back == m, "opened message")
    env.reach("end")


def sign_open(env, lib="native", lo=0, hi=300):
    """any signed message"""
    w = World(env, forge="any")
    from saltchannel.saltlib.exceptions import BadSignatureException
    api = backend(lib)
    sm, pk = env.blob("sm", lo, hi), env.bytes("pk", 32)
    o = env.attempt(api.crypto_sign_open, sm, pk)
    good = False
    if len(sm) >= 64:
        good = w.verify(sm[:64], sm[64:], pk)
    if good:
        env.check(o.ok, "valid signature refused: " + o.name())
        isb(env, o.value, "opened message")
        env.check(len(o.value) == len(sm) - 64, "opened message length")
        env.check(o.value == sm[64:], "opened message")
        env.reach("valid")
    else:
        env.check((not o.ok) and isinstance(o.exc, BadSignatureException), "forged signature: " + o.name())
        env.reach("forged")


def box(env, lib="native", hi=70000):
    w = World(env)
    api = backend(lib)
    m, n, k = env.blob("m", 0, hi), env.bytes("n", 24), env.bytes("k", 32)
    c = ok(env, env.attempt(api.crypto_box_afternm, m, n, k), "crypto_box_afternm")
    isb(env, c, "ciphertext")
    env.check(len(c) == len(m) + 16, "ciphertext length")
    env.check(c == w.box(m, n, k), "ciphertext")
    p = ok(env, env.attempt(api.crypto_box_open_afternm, c, n, k), "crypto_box_open_afternm of a genuine ciphertext")
    isb(env, p, "plaintext")
    env.check(len(p) == len(m), "plaintext length")
    env.check(p == m, "plaintext")
    env.reach("end")


def box_open(env, lib="native", lo=0, hi=300):
    """any ciphertext"""
    w = World(env, adv=True)
    from saltchannel.saltlib.exceptions import BadEncryptedDataException
    api = backend(lib)
    c, n, k = env.blob("c", lo, hi), env.bytes("n", 24), env.bytes("k", 32)
    o = env.attempt(api.crypto_box_open_afternm, c, n, k)
    p = w.unbox(c, n, k)
    if p is not None:
        env.check(o.ok, "valid ciphertext refused: " + o.name())
        isb(env, o.value, "plaintext")
        env.check(len(o.value) == len(c) - 16, "plaintext length")
        env.check(o.value == p, "plaintext")
        env.reach("valid")
    else:
        env.check((not o.ok) and isinstance(o.exc, BadEncryptedDataException), "forged ciphertext: " + o.name())
        env.reach("forged")


def hash_(env, lib="native", hi=70000):
    w = World(env)
    api = backend(lib)
    m1, m2 = env.blob("m", 0, hi), env.bytes("m", 5)
    h1 = ok(env, env.attempt(api.crypto_hash, m1), "crypto_hash")
    isb(env, h1, "hash")
    env.check(len(h1) == 64, "hash length")
    env.check(h1 == w.hash(m1), "hash")
    h2 = ok(env, env.attempt(api.crypto_hash, m2), "crypto_hash")
    env.check(h2 == w.hash(m2), "second hash")
    env.check(h1 == w.hash(m1), "first hash changed by a later call")
    env.reach("end")


def keys(env, lib="native"):
    w = World(env)
    api = backend(lib)
    sk, other, seed = env.bytes("sk", 32), env.bytes("other", 32), env.bytes("seed", 32)
    pk, s = ok(env, env.attempt(api.crypto_box_keypair_not_random, sk), "crypto_box_keypair_not_random")
    isb(env, pk, "public key")
    env.check(pk == w.enc_pk(sk), "encryption public key")
    env.check(s == sk, "encryption secret key")
    ppk = w.enc_pk(other)
    k = ok(env, env.attempt(api.crypto_box_beforenm, ppk, sk), "crypto_box_beforenm")
    isb(env, k, "shared key")
    env.check(k == w.dh(ppk, sk), "shared key")
    k2 = ok(env, env.attempt(api.crypto_box_beforenm, pk, other), "crypto_box_beforenm")
    env.check(k2 == k, "both sides compute the same key")
    for (p, q, r) in w.log_dh[:2]:
        env.check(env.Or(env.And(env.same(p, ppk), env.same(q, sk)), env.And(env.same(p, pk), env.same(q, other))), "argument order")
    vpk, vsk = ok(env, env.attempt(api.crypto_sign_keypair_not_random, seed), "crypto_sign_keypair_not_random")
    isb(env, vpk, "verification key")
    isb(env, vsk, "signing key")
    p, q = w.sign_seed(seed)
    env.check(vpk == p, "signing public key")
    env.check(vsk == q, "signing secret key")
    env.reach("end")


def two_calls(env, lib="native"):
    """results of earlier calls are not changed by later ones"""
    w = World(env, distinct=True)
    api = backend(lib)
    ks, ns, ms = [env.bytes("k", 32) for _ in "ab"], [env.bytes("n", 24) for _ in "ab"], [env.bytes("m", 7) for _ in "ab"]
    seeds = [env.bytes("seed", 32) for _ in "ab"]
    r = []
    for i in (0, 1):
        pk, sk = api.crypto_sign_keypair_not_random(seeds[i])
        r.append((api.crypto_box_afternm(ms[i], ns[i], ks[i]), pk, sk, api.crypto_sign(ms[i], sk), api.crypto_box_keypair_not_random(ks[i])[0]))
    for i in (0, 1):
        c, pk, sk, sm, ep = r[i]
        env.check(c == w.box(ms[i], ns[i], ks[i]), "ciphertext")
        p, s = w.sign_seed(seeds[i])
        env.check(pk == p, "public key")
        env.check(sk == s, "secret key")
        env.check(sm == w.sign(ms[i], s) + ms[i], "signed message")
        env.check(ep == w.enc_pk(ks[i]), "encryption key")
    env.reach("end")


FAIL = {"crypto_sign_seed_keypair": lambda api, env: env.attempt(api.crypto_sign_keypair_not_random, env.bytes("a", 32)),
        "crypto_sign": lambda api, env: env.attempt(api.crypto_sign, env.bytes("a", 9), env.bytes("b", 64)),
        "crypto_sign_open": lambda api, env: env.attempt(api.crypto_sign_open, env.bytes("a", 80), env.bytes("b", 32)),
        "crypto_scalarmult_base": lambda api, env: env.attempt(api.crypto_box_keypair_not_random, env.bytes("a", 32)),
        "crypto_box_beforenm": lambda api, env: env.attempt(api.crypto_box_beforenm, env.bytes("a", 32), env.bytes("b", 32)),
        "crypto_box_afternm": lambda api, env: env.attempt(api.crypto_box_afternm, env.bytes("a", 9), env.bytes("b", 24), env.bytes("c", 32)),
        "crypto_box_open_afternm": lambda api, env: env.attempt(api.crypto_box_open_afternm, env.bytes("a", 25), env.bytes("b", 24), env.bytes("c", 32)),
        "crypto_hash_sha512": lambda api, env: env.attempt(api.crypto_hash, env.bytes("a", 9))}


def failures(env, lib="native"):
    """the library reports failure: an error is raised, of the right kind"""
    names = sorted(FAIL)
    name = names[env.choice("function", len(names))]
    code = -1                              # libsodium and TweetNaCl report failure with -1
    w = World(env, adv=True, rc={name: code})
    from saltchannel.saltlib.exceptions import BadSignatureException, BadEncryptedDataException
    o = FAIL[name](backend(lib), env)
    env.check(not o.ok, name + " failed but data was returned")
    if name == "crypto_sign_open":
        env.check(isinstance(o.exc, BadSignatureException), "bad signature error: " + o.name())
    if name == "crypto_box_open_afternm":
        env.check(isinstance(o.exc, BadEncryptedDataException), "bad encrypted data error: " + o.name())
    env.reach("end")


def facade(env, lib="native", hi=70000):
    """the SaltLib facade hands every argument to the right parameter"""
    w = World(env, adv=True, forge="any")
    from saltchannel.saltlib.saltlib import SaltLib, LibType
    from saltchannel.saltlib.exceptions import BadSignatureException, BadEncryptedDataException
    t = {"native": LibType.LIB_TYPE_NATIVE, "pynacl": LibType.LIB_TYPE_PYNACL, "tweetnacl": LibType.LIB_TYPE_TWEETNACL_EXT}[lib]
    s = SaltLib(t)
    pk, sk = w.sign_seed(env.bytes("seed", 32))
    m, n, k = env.blob("m", 0, hi), env.bytes("n", 24), env.bytes("k", 32)
    sm = s.sign(m, sk)
    env.check(sm[:64] == w.sign(m, sk), "sign")
    env.check(sm[64:] == m, "sign: message")
    env.check(s.sign_open(sm, pk) == m, "sign_open")
    env.check(s.sha512(m) == w.hash(m), "sha512")
    c = s.encrypt(k, n, m)
    env.check(c == w.box(m, n, k), "encrypt")
    env.check(s.decrypt(k, n, c) == m, "decrypt")
    ppk, esk = w.enc_pk(env.bytes("other", 32)), env.bytes("esk", 32)
    env.check(s.compute_shared_key(esk, ppk) == w.dh(ppk, esk), "compute_shared_key")
    for (a, b, r) in w.log_dh:
        env.check(env.And(env.same(a, ppk), env.same(b, esk)), "compute_shared_key argument order")
    x = env.bytes("x", 80)
    o = env.attempt(s.sign_open, x, pk)
    v = w.verify(x[:64], x[64:], pk)
    env.check(o.ok == v and (o.ok or isinstance(o.exc, BadSignatureException)), "forged signature: " + o.name())
    y = env.bytes("y", 30)
    o = env.attempt(s.decrypt, k, n, y)
    p = w.unbox(y, n, k)
    env.check(o.ok == (p is not None) and (o.ok or isinstance(o.exc, BadEncryptedDataException)), "forged ciphertext: " + o.name())
    env.reach("end")


def agree(env, a="native", b="pynacl"):
    """two back-ends give the same results and open each other's output"""
    w = World(env)
    x, y = backend(a), backend(b)
    seed, m, n, k = env.bytes("seed", 32), env.blob("m", 0, 3000), env.bytes("n", 24), env.bytes("k", 32)
    px, sx = x.crypto_sign_keypair_not_random(seed)
    py, sy = y.crypto_sign_keypair_not_random(seed)
    env.check(px == py, "public keys differ")
    env.check(sx == sy, "secret keys differ")
    smx, smy = x.crypto_sign(m, sx), y.crypto_sign(m, sy)
    env.check(smx == smy, "signatures differ")
    env.check(y.crypto_sign_open(smx, px) == x.crypto_sign_open(smy, py), "opened messages differ")
    cx, cy = x.crypto_box_afternm(m, n, k), y.crypto_box_afternm(m, n, k)
    env.check(cx == cy, "ciphertexts differ")
    env.check(y.crypto_box_open_afternm(cx, n, k) == x.crypto_box_open_afternm(cy, n, k), "plaintexts differ")
    env.check(x.crypto_hash(m) == y.crypto_hash(m), "hashes differ")
    env.check(x.crypto_box_keypair_not_random(k)[0] == y.crypto_box_keypair_not_random(k)[0], "public keys differ")
    env.check(x.crypto_box_beforenm(px, k) == y.crypto_box_beforenm(px, k), "shared keys differ")
    env.reach("end")


S = lambda fn, reach=("end",), **k: dict({"fn": fn, "reach": list(reach)}, **k)
SCENARIOS = []
for _l in LIBS:
    _a = {"lib": _l}
    SCENARIOS += [
        S("sign", args=_a, bounds="messages of 0..70000 bytes, all keys"),
        S("sign_open", ("valid", "forged"), args=_a, bounds="any signed message of 0..300 bytes"),
        S("sign_open", ("valid", "forged"), args=dict(_a, lo=60, hi=70000), bounds="any signed message of 60..70000 bytes"),
        S("box", args=_a, bounds="messages of 0..70000 bytes, all keys and nonces"),
        S("box_open", ("valid", "forged"), args=_a, bounds="any ciphertext of 0..300 bytes"),
        S("box_open", ("valid", "forged"), args=dict(_a, lo=10, hi=70000), bounds="any ciphertext of 10..70000 bytes"),
        S("hash_", args=_a, bounds="messages of 0..70000 bytes"),
        S("keys", args=_a, bounds="all keys"), S("two_calls", args=_a, bounds="two consecutive calls of each function"),
        S("failures", args=_a, bounds="every non-zero return code -128..127 of every primitive"),
        S("facade", args=_a, bounds="all arguments"),
    ]
SCENARIOS += [S("agree", args={"a": "native", "b": "pynacl"}), S("agree", args={"a": "pynacl", "b": "tweetnacl"})]
