"""Idealised cryptographic world behind the library boundary (libsodium / PyNaCl / TweetNaCl), plus fake transports.

Runs unchanged in the symbolic and in the concrete (replay) environment: every "random" result is a named input, equality
tests of table lookups fork in the symbolic one.  Assumptions made here (and only here) about the primitives:
  hash       collision free;  same input -> same output
  enc_pk     an injective function of the secret key (so is the signing public key of its seed);  dh commutative over known public keys;  may fail (rc -1) for a foreign key
  sign       deterministic;  verify accepts what sign produced;  for anything else its verdict is arbitrary but functional
             (forge="any") or negative (forge="never")
  box        deterministic, ciphertext = message + 16 bytes, for one (key, nonce) different messages give different ciphertexts;
             open inverts it;  for anything else it fails (adv=False) or its verdict and plaintext are arbitrary (adv=True,
             an attacker who knows the session key)
"""
import types


class RcError(Exception):
    pass


class World:
    def __init__(self, env, adv=False, forge="any", dh_may_fail=False, rc=None, distinct=False):
        self.distinct = distinct           # all secret keys and seeds in the scenario differ
        self.env, self.adv, self.forge, self.dh_may_fail = env, adv, forge, dh_may_fail
        self.rc = rc or {}                 # function name -> forced return code
        self.t_hash, self.t_pk, self.t_dh, self.t_dhf, self.t_seed, self.t_sign = [], [], [], [], [], []
        self.t_box, self.t_open, self.t_ver = [], [], []
        self.log_hash, self.log_sign, self.log_verify, self.log_box, self.log_open, self.log_rand = [], [], [], [], [], []
        self.log_dh, self.log_lib = [], []
        install(self)

    def _find(self, table, *key):
        for k, v in table:
            if self._all(k, key):
                return v
        return None

    def _all(self, xs, ys):
        conds = []
        for a, b in zip(xs, ys):
            c = self.env.same(a, b)
            if c is False:
                return False
            conds.append(c)
        return self.env.And(*conds)

    # ---- primitives
    def hash(self, m):
        h = self._find(self.t_hash, m)
        if h is None:
            h = self.env.bytes("hash", 64)
            for k, v in self.t_hash:
                self.env.assume(self.env.Not(self.env.same(v, h)))
            self.t_hash.append(((m,), h))
        return h

    def _differ(self, table, key):
        if self.distinct:
            for k, v in table:
                if k[0] is not key:
                    self.env.assume(self.env.Not(self.env.same(k[0], key)))

    def enc_pk(self, sk):
        p = self._find(self.t_pk, sk)
        if p is None:
            p = self.env.bytes("encpk", 32)
            for k, v in self.t_pk:
                self.env.assume(self.env.Not(self.env.same(v, p)))
            self.t_pk.append(((sk,), p))
        return p

    def dh(self, pk, sk):
        """-> shared key or None (failure)"""
        other = None
        for (s,), p in self.t_pk:
            if self.env.same(p, pk):
                other = s
                break
        if other is not None:
            k = self._find(self.t_dh, sk, other)
            if k is None:
                k = self._find(self.t_dh, other, sk)
            if k is None:
                k = self.env.bytes("dhkey", 32)
                self.t_dh.append(((sk, other), k))
            return k
        k = self._find(self.t_dhf, pk, sk)
        if k is None:
            if self.dh_may_fail and self.env.choice("dh.fail", 2):
                k = False
            else:
                k = self.env.bytes("dhkey", 32)
            self.t_dhf.append(((pk, sk), k))
        return k or None

    def sign_seed(self, seed):
        p = self._find(self.t_seed, seed)
        if p is None:
            p = self.env.bytes("sigpk", 32)
            for k, v in self.t_seed:
                self.env.assume(self.env.Not(self.env.same(v, p)))
            self.t_seed.append(((seed,), p))
        return p, seed + p

    def sign(self, m, sk):
        s = self._find(self.t_sign, sk, m)
        if s is None:
            s = self.env.bytes("sig", 64)
            self.t_sign.append(((sk, m), s))
        return s

    def verify(self, sig, m, pk):
        for (sk, mm), s in self.t_sign:
            if self._all((sk[32:64], mm, s), (pk, m, sig)):
                return True
        if self.forge == "never":
            return False
        v = self._find(self.t_ver, sig, m, pk)
        if v is None:
            v = bool(self.env.choice("verify", 2))
            self.t_ver.append(((sig, m, pk), v))
        return v

    def box(self, m, n, k):
        c = self._find(self.t_box, k, n, m)
        if c is None:
            c = self.env.bytes("box", self.env.length(m) + 16)
            for kk, v in self.t_box:
                same = self._all(kk[:2], (k, n))
                if same is not False:                  # unambiguous: one plaintext per (key, nonce, ciphertext)
                    self.env.assume(self.env.Not(self.env.And(same, self.env.same(v, c))))
            self.t_box.append(((k, n, m), c))
        return c

    def unbox(self, c, n, k):
        """-> plaintext or None"""
        for (kk, nn, m), cc in self.t_box:
            if self._all((kk, nn, cc), (k, n, c)):
                return m
        if not self.adv or self.env.length(c) < 16:
            return None
        r = self._find(self.t_open, k, n, c)
        if r is None:
            if self.env.choice("open.fail", 2):
                r = (None,)
            else:
                r = (self.env.bytes("plain", self.env.length(c) - 16),)
            self.t_open.append(((k, n, c), r))
        return r[0]

    def random(self, n):
        r = self.env.bytes("rand", n)
        self.log_rand.append(("impl", n, r))
        return r

    # ---- logged library entry points shared by the three libraries
    def f_hash(self, m):
        h = self.hash(m)
        self.log_hash.append((m, h))
        return h

    def f_sign(self, m, sk):
        s = self.sign(m, sk)
        self.log_sign.append((m, sk, s))
        return s

    def f_verify(self, sig, m, pk):
        v = self.verify(sig, m, pk)
        self.log_verify.append((sig, m, pk, v))
        return v

    def f_box(self, m, n, k):
        c = self.box(m, n, k)
        self.log_box.append((k, n, m, c))
        return c

    def f_open(self, c, n, k):
        m = self.unbox(c, n, k)
        self.log_open.append((k, n, c, m))
        return m

    def f_dh(self, pk, sk):
        k = self.dh(pk, sk)
        self.log_dh.append((pk, sk, k))
        return k

    # ---- key pairs for scenarios
    def sig_keys(self, name):
        from saltchannel.util.key_pair import KeyPair
        seed = self.env.bytes(name, 32)
        self._differ(self.t_seed, seed)
        pk, sk = self.sign_seed(seed)
        return KeyPair(sec=sk, pub=pk)

    def enc_keys(self, name):
        from saltchannel.util.key_pair import KeyPair
        sk = self.env.bytes(name, 32)
        self._differ(self.t_pk, sk)
        return KeyPair(sec=sk, pub=self.enc_pk(sk))


# ------------------------------------------------------------------ libsodium
def make_sodium(w):
    env = w.env

    class Lib:
        _name = "libsodium.so"

    def u(arg, what):
        if not env.is_cint(arg):
            raise TypeError("%s must be an integer" % what)
        return env.c_int(arg)

    def rc(name):
        w.log_lib.append(name)
        return w.rc.get(name, 0)

    def crypto_sign_seed_keypair(pk, sk, seed):
        r = rc("crypto_sign_seed_keypair")
        if r:
            return r
        p, s = w.sign_seed(env.c_read(seed, 32))
        env.c_write(pk, p)
        env.c_write(sk, s)
        return 0

    def crypto_sign(sm, smlen, m, mlen, sk):
        r = rc("crypto_sign")
        if r:
            return r
        n = u(mlen, "mlen")
        msg = env.c_read(m, n)
        env.c_write(sm, env.concat(w.f_sign(msg, env.c_read(sk, 64)), msg))
        env.c_set_int(smlen, n + 64)
        return 0

    def crypto_sign_detached(sig, siglen, m, mlen, sk):
        r = rc("crypto_sign")
        if r:
            return r
        env.c_write(sig, w.f_sign(env.c_read(m, u(mlen, "mlen")), env.c_read(sk, 64)))
        env.c_set_int(siglen, 64)
        return 0

    def crypto_sign_open(m, mlen, sm, smlen, pk):
        r = rc("crypto_sign_open")
        if r:
            return r
        n = u(smlen, "smlen")
        if n < 64:
            env.c_set_int(mlen, 0)
            return -1
        raw = env.c_read(sm, n)
        if not w.f_verify(raw[:64], raw[64:], env.c_read(pk, 32)):
            env.c_set_int(mlen, 0)
            return -1
        if m is not None:
            env.c_write(m, raw[64:])
        env.c_set_int(mlen, n - 64)
        return 0

    def crypto_sign_verify_detached(sig, m, mlen, pk):
        r = rc("crypto_sign_open")
        if r:
            return r
        ok = w.f_verify(env.c_read(sig, 64), env.c_read(m, u(mlen, "mlen")), env.c_read(pk, 32))
        return 0 if ok else -1

    def crypto_scalarmult_base(q, n):
        r = rc("crypto_scalarmult_base")
        if r:
            return r
        env.c_write(q, w.enc_pk(env.c_read(n, 32)))
        return 0

    def crypto_box_beforenm(k, pk, sk):
        r = rc("crypto_box_beforenm")
        if r:
            return r
        s = w.f_dh(env.c_read(pk, 32), env.c_read(sk, 32))
        if s is None:
            return -1
        env.c_write(k, s)
        return 0

    def crypto_box_afternm(c, m, mlen, n, k):
        r = rc("crypto_box_afternm")
        if r:
            return r
        ln = u(mlen, "mlen")
        if ln < 32:
            return -1
        padded = env.c_read(m, ln)
        if not env.same(padded[:32], env.zeros(32)):
            env.fail("crypto_box_afternm called without zero padding")
        out = w.f_box(padded[32:], env.c_read(n, 24), env.c_read(k, 32))
        env.c_write(c, env.concat(env.zeros(16), out))
        return 0

    def crypto_box_easy_afternm(c, m, mlen, n, k):
        r = rc("crypto_box_afternm")
        if r:
            return r
        env.c_write(c, w.f_box(env.c_read(m, u(mlen, "mlen")), env.c_read(n, 24), env.c_read(k, 32)))
        return 0

    def crypto_box_open_afternm(m, c, clen, n, k):
        r = rc("crypto_box_open_afternm")
        if r:
            return r
        ln = u(clen, "clen")
        if ln < 32:
            return -1
        padded = env.c_read(c, ln)
        if not env.same(padded[:16], env.zeros(16)):
            env.fail("crypto_box_open_afternm called without zero padding")
        p = w.f_open(padded[16:], env.c_read(n, 24), env.c_read(k, 32))
        if p is None:
            return -1
        env.c_write(m, env.concat(env.zeros(32), p))
        return 0

    def crypto_box_open_easy_afternm(m, c, clen, n, k):
        r = rc("crypto_box_open_afternm")
        if r:
            return r
        ln = u(clen, "clen")
        if ln < 16:
            return -1
        p = w.f_open(env.c_read(c, ln), env.c_read(n, 24), env.c_read(k, 32))
        if p is None:
            return -1
        env.c_write(m, p)
        return 0

    def crypto_hash_sha512(h, m, mlen):
        r = rc("crypto_hash_sha512")
        if r:
            return r
        env.c_write(h, w.f_hash(env.c_read(m, u(mlen, "mlen"))))
        return 0

    def randombytes(buf, n):
        w.log_lib.append("randombytes")
        k = u(n, "size")
        env.c_write(buf, w.random(k))

    fns = {"crypto_sign_seed_keypair": crypto_sign_seed_keypair, "crypto_sign": crypto_sign,
           "crypto_sign_detached": crypto_sign_detached, "crypto_sign_open": crypto_sign_open,
           "crypto_sign_verify_detached": crypto_sign_verify_detached, "crypto_scalarmult_base": crypto_scalarmult_base,
           "crypto_box_beforenm": crypto_box_beforenm, "crypto_box_afternm": crypto_box_afternm,
           "crypto_box_easy_afternm": crypto_box_easy_afternm, "crypto_box_open_afternm": crypto_box_open_afternm,
           "crypto_box_open_easy_afternm": crypto_box_open_easy_afternm, "crypto_hash_sha512": crypto_hash_sha512,
           "crypto_hash": crypto_hash_sha512, "crypto_hash_sha512_bytes": lambda: 64, "crypto_hash_bytes": lambda: 64,
           "randombytes": randombytes, "randombytes_buf": randombytes, "sodium_init": lambda: 0}
    for n, f in fns.items():
        setattr(Lib, n, env.Fn(f))
    return Lib()


# ------------------------------------------------------------------ PyNaCl
def make_nacl(w):
    env = w.env

    class CryptoError(Exception):
        pass

    class NTypeError(TypeError, CryptoError):
        pass

    class NValueError(ValueError, CryptoError):
        pass

    class NRuntimeError(RuntimeError, CryptoError):
        pass

    class BadSignatureError(CryptoError):
        pass

    class UnavailableError(RuntimeError):
        pass

    def ensure(cond, *args, **kwds):
        raising = kwds.pop("raising", AssertionError)
        if kwds:
            raise NTypeError("unexpected keyword")
        if not cond:
            raise raising(*args)

    def rc(name):
        w.log_lib.append(name)
        if w.rc.get(name, 0):
            raise NRuntimeError("Unexpected library error")

    def need(x, n, what):
        if not env.isbytes(x):
            raise NTypeError("%s must be bytes" % what)
        if n is not None and env.length(x) != n:
            raise NValueError("%s must be exactly %d bytes" % (what, n))

    def crypto_sign_seed_keypair(seed):
        need(seed, 32, "seed")
        rc("crypto_sign_seed_keypair")
        return w.sign_seed(seed)

    def crypto_sign(message, sk):
        need(message, None, "message")
        need(sk, 64, "sk")
        rc("crypto_sign")
        return env.concat(w.f_sign(message, sk), message)

    def crypto_sign_open(signed, pk):
        need(signed, None, "signed")
        need(pk, 32, "pk")
        w.log_lib.append("crypto_sign_open")
        if w.rc.get("crypto_sign_open", 0) or env.length(signed) < 64 or not w.f_verify(signed[:64], signed[64:], pk):
            raise BadSignatureError("Signature was forged or corrupt")
        return signed[64:]

    def crypto_box_beforenm(pk, sk):
        need(pk, 32, "pk")
        need(sk, 32, "sk")
        rc("crypto_box_beforenm")
        k = w.f_dh(pk, sk)
        if k is None:
            raise NRuntimeError("Unexpected library error")
        return k

    def crypto_box_afternm(message, nonce, k):
        need(message, None, "message")
        need(nonce, 24, "nonce")
        need(k, 32, "k")
        rc("crypto_box_afternm")
        return w.f_box(message, nonce, k)

    def crypto_box_open_afternm(ciphertext, nonce, k):
        need(ciphertext, None, "ciphertext")
        need(nonce, 24, "nonce")
        need(k, 32, "k")
        w.log_lib.append("crypto_box_open_afternm")
        p = None if w.rc.get("crypto_box_open_afternm", 0) else w.f_open(ciphertext, nonce, k)
        if p is None:
            raise CryptoError("An error occurred trying to decrypt the message")
        return p

    def crypto_scalarmult_base(n):
        need(n, 32, "n")
        rc("crypto_scalarmult_base")
        return w.enc_pk(n)

    def crypto_hash(m):
        need(m, None, "message")
        rc("crypto_hash_sha512")
        return w.f_hash(m)

    def randombytes(n):
        w.log_lib.append("randombytes")
        return w.random(n)

    nacl = types.ModuleType("nacl")
    exc = types.ModuleType("nacl.exceptions")
    exc.CryptoError, exc.TypeError, exc.ValueError, exc.RuntimeError = CryptoError, NTypeError, NValueError, NRuntimeError
    exc.BadSignatureError, exc.UnavailableError, exc.ensure = BadSignatureError, UnavailableError, ensure
    b = types.ModuleType("nacl.bindings")
    for f in (crypto_sign_seed_keypair, crypto_sign, crypto_sign_open, crypto_box_beforenm, crypto_box_afternm,
              crypto_box_open_afternm, crypto_scalarmult_base, crypto_hash, randombytes):
        setattr(b, f.__name__, f)
    b.crypto_hash_sha512 = crypto_hash
    b.crypto_box_easy_afternm, b.crypto_box_open_easy_afternm = crypto_box_afternm, crypto_box_open_afternm

    class CData:
        def __init__(self, n):
            self.n, self.v = n, env.zeros(n)

    class FFIBuffer:
        def __init__(self, cd, size):
            if size is not None and size > cd.n:
                raise env.MemFault("ffi.buffer larger than the object")
            self.cd, self.size = cd, cd.n if size is None else size

        def __getitem__(self, k):
            return self.cd.v[:self.size][k]

        def __bytes__(self):
            return self.cd.v[:self.size]

    class FFI:
        NULL = None

        @staticmethod
        def new(decl, arg=None):
            if decl == "unsigned char[]":
                return CData(arg)
            raise env.Blocked("ffi.new %s" % decl)

        @staticmethod
        def buffer(cd, size=None):
            return FFIBuffer(cd, size)

    def lib_seed(pk, sk, seed):
        w.log_lib.append("crypto_sign_seed_keypair")
        if w.rc.get("crypto_sign_seed_keypair", 0):
            return w.rc["crypto_sign_seed_keypair"]
        if env.length(seed) < 32 or pk.n < 32 or sk.n < 64:
            raise env.MemFault("crypto_sign_seed_keypair buffers")
        p, s = w.sign_seed(seed[:32])
        pk.v, sk.v = p, s
        return 0

    class CLib:
        crypto_sign_seed_keypair = staticmethod(lib_seed)
    so = types.ModuleType("nacl._sodium")
    so.ffi, so.lib = FFI, CLib
    nacl.bindings, nacl.exceptions, nacl._sodium = b, exc, so
    for n, m in (("nacl", nacl), ("nacl.bindings", b), ("nacl.exceptions", exc), ("nacl._sodium", so)):
        env.install(n, m)
    w.nacl = nacl


# ------------------------------------------------------------------ TweetNaCl extension
def make_tweetnacl(w):
    env = w.env

    def fail(name):
        w.log_lib.append(name)
        if w.rc.get(name, 0):
            raise ValueError("%s failed" % name)

    def need(x, n, what):
        if not env.isbytes(x):
            raise TypeError("%s must be bytes" % what)
        if n is not None and env.length(x) != n:
            raise ValueError("incorrect %s length" % what)

    def crypto_sign_seed_keypair(seed):
        need(seed, 32, "seed")
        fail("crypto_sign_seed_keypair")
        return w.sign_seed(seed)

    def crypto_sign(m, sk):
        need(m, None, "message")
        need(sk, 64, "secret key")
        fail("crypto_sign")
        return env.concat(w.f_sign(m, sk), m)

    def crypto_sign_open(sm, pk):
        need(sm, None, "message")
        need(pk, 32, "public key")
        fail("crypto_sign_open")
        if env.length(sm) < 64 or not w.f_verify(sm[:64], sm[64:], pk):
            raise ValueError("crypto_sign_open failed")
        return sm[64:]

    def crypto_box_beforenm(pk, sk):
        need(pk, 32, "public key")
        need(sk, 32, "secret key")
        fail("crypto_box_beforenm")
        k = w.f_dh(pk, sk)
        if k is None:
            raise ValueError("crypto_box_beforenm failed")
        return k

    def crypto_box_afternm(m, n, k):
        need(m, None, "message")
        need(n, 24, "nonce")
        need(k, 32, "key")
        fail("crypto_box_afternm")
        return w.f_box(m, n, k)

    def crypto_box_open_afternm(c, n, k):
        need(c, None, "ciphertext")
        need(n, 24, "nonce")
        need(k, 32, "key")
        fail("crypto_box_open_afternm")
        p = w.f_open(c, n, k)
        if p is None:
            raise ValueError("ciphertext fails verification")
        return p

    def crypto_scalarmult_base(n):
        need(n, 32, "scalar")
        fail("crypto_scalarmult_base")
        return w.enc_pk(n)

    def crypto_hash(m):
        need(m, None, "message")
        fail("crypto_hash_sha512")
        return w.f_hash(m)

    def randombytes(n):
        w.log_lib.append("randombytes")
        return w.random(n)
    t, raw = types.ModuleType("tweetnacl"), types.ModuleType("tweetnacl.raw")
    for f in (crypto_sign_seed_keypair, crypto_sign, crypto_sign_open, crypto_box_beforenm, crypto_box_afternm,
              crypto_box_open_afternm, crypto_scalarmult_base, crypto_hash, randombytes):
        setattr(raw, f.__name__, f)
    t.raw = raw
    env.install("tweetnacl", t)
    env.install("tweetnacl.raw", raw)


def install(w):
    lib = make_sodium(w)
    w.sodium = lib
    w.env.set_library(lambda *a, **k: lib)
    make_nacl(w)
    make_tweetnacl(w)

    def urandom(n):
        r = w.env.bytes("urandom", n)
        w.log_rand.append(("urandom", n, r))
        return r
    w.env.set_urandom(urandom)


# ------------------------------------------------------------------ transports
class IOFault(OSError):
    pass


class Chan:
    """clear channel end over two lists of packets; `yields`: suspension points around every operation"""

    def __init__(self, env, inq, outq, name="", yields=False):
        self.env, self.inq, self.outq, self.name, self.yields = env, inq, outq, name, yields
        self.writes = []          # (tuple of parts, is_last)
        self.fault = None         # exception to raise at the next write
        self.reads = 0
        self.loop = None

    @property
    def sent(self):
        return [m for ms, last in self.writes for m in ms]

    async def read(self):
        while not self.inq:
            await self.env.Suspend(self.name + ".read", self)
        self.reads += 1
        return self.inq.pop(0)

    async def write(self, msg, *args, is_last=False):
        if self.yields:
            await self.env.Suspend(self.name + ".write")
        self._put((msg,) + args, is_last)

    def _put(self, ms, is_last):
        if self.fault is not None:
            e, self.fault = self.fault, None
            raise e
        self.writes.append((ms, is_last))
        for m in ms:
            self.outq.append(m)

    def read_sync(self):
        if not self.inq:
            raise self.env.Blocked("read on an empty transport")
        self.reads += 1
        return self.inq.pop(0)

    def write_sync(self, msg, *args, is_last=False):
        self._put((msg,) + args, is_last)


def pair(env, yields=False):
    q1, q2 = [], []
    return Chan(env, q1, q2, "A", yields), Chan(env, q2, q1, "B", yields)


def nonce_bytes(value, session=bytes(8)):
    return value.to_bytes(8, 'little') + session + bytes(8)
