"""Decides, for all contents of fixed-size inputs, that functions of the pure-Python back-end compute what spec.py defines.

Both are executed symbolically on the terms of poly.py.  Outputs whose normal forms are identical are equal for every input; the
others go to z3 (prove.py), under the path's decisions.  Anything that cannot be shown is looked for on concrete vectors; a
difference is a counterexample (replayed by the caller on the real code), otherwise the case is reported as undecided.
"""
import random
import sys
import time
import traceback
from ctypes import ArgumentError

from . import poly, pure, spec
from .poly import Poly, Unsup

REPO = "/repo"
PURE = "saltchannel.saltlib.saltlib_pure"
TWEET = "saltchannel.saltlib.pure_pynacl.tweetnacl"


class Report:
    def __init__(self):
        self.paths = self.queries = self.identical = self.solved = 0
        self.solver_s = self.wall = 0.0
        self.undecided = []
        self.cex = None              # inputs (dict of bytes), what
        self.sample = None           # inputs and the output predicted by the code's terms
        self.functions = set()


class Case:
    """one call: inputs {name: size}, code(api, tn, inputs) -> output, spec(inputs) -> claims about it"""
    packing = True              # residues of many products: by name (long inputs)

    def vectors(self, rnd):
        z = {k: bytes(n) for k, n in self.inputs.items()}
        f = {k: b"\xff" * n for k, n in self.inputs.items()}
        yield z
        yield f
        for _ in range(self.samples):
            yield {k: rnd.randbytes(n) for k, n in self.inputs.items()}
        for k in self.inputs:
            yield dict(z, **{k: f[k]})
            yield dict(f, **{k: z[k]})
    samples = 6

    def prepare(self, ctx, x):
        pass

    def extra(self, model, T, ctx):
        """vectors suggested by a model of a failed query"""
        return ()


class Fn(Case):
    """output bytes equal to the specification's"""
    mutable = None

    def __init__(self, inputs, code, want, samples=6):
        self.inputs, self.code, self.samples = inputs, code, samples
        if want is not None:
            self.want = want

    def claims(self, out, x, ctx):
        if out.exc is not None:
            return "raises " + type(out.exc).__name__
        want = [pure.val(b) for b in self.want(x)]
        got = [pure.val(b) for b in out.value]
        if len(got) != len(want):
            return "%d bytes instead of %d" % (len(got), len(want))
        return [(a, b) for a, b in zip(got, want)]

    def concrete(self, v):
        return bytes(self.want({k: list(b) for k, b in v.items()}))


class Open(Case):
    """accepted exactly when the tag is right, and then the plaintext"""

    def __init__(self, n, code):
        self.n = n
        self.inputs = {"c": n, "n": 24, "k": 32}
        self.code = code

    def prepare(self, ctx, x):
        self.ks = [pure.mkint(ctx.opaque(pure.val(b))) for b in spec.xsalsa20(x["k"], x["n"], 32 + max(0, self.n - 16))]

    def claims(self, out, x, ctx):
        if out.exc is not None and type(out.exc).__name__ != "BadEncryptedDataException":
            return "raises " + type(out.exc).__name__
        if self.n < 16:
            return [] if out.exc is not None else "accepts %d bytes" % self.n
        tag = [pure.val(b) for b in spec.poly1305(x["c"][16:], self.ks[:32])]
        mine = [pure.val(b) for b in x["c"][:16]]
        self.pairs = list(zip(tag, mine))
        if out.exc is not None:
            return [("some", self.pairs)]
        want = [pure.val(a ^ b) for a, b in zip(x["c"][16:], self.ks[32:])]
        got = [pure.val(b) for b in out.value]
        if len(got) != len(want):
            return "%d bytes instead of %d" % (len(got), len(want))
        return list(zip(got, want)) + self.pairs

    def concrete(self, v):
        return spec_open(v["c"], v["n"], v["k"])

    def vectors(self, rnd):
        yield from Case.vectors(self, rnd)
        if self.n < 16:
            return
        for _ in range(3):
            n, k, m = rnd.randbytes(24), rnd.randbytes(32), rnd.randbytes(self.n - 16)
            c = bytes(spec.secretbox(list(m), list(n), list(k)))
            yield {"c": c, "n": n, "k": k}
            for i in range(self.n):
                for b in (1, 128):
                    yield {"c": c[:i] + bytes([c[i] ^ b]) + c[i + 1:], "n": n, "k": k}
            for i in range(15):
                d = bytearray(c)
                d[i] ^= 64
                d[i + 1] ^= 64
                yield {"c": bytes(d), "n": n, "k": k}

    def extra(self, model, T, ctx):
        """a genuine box with the tag changed as in the model"""
        try:
            d = [(model.eval(T.poly(a) ^ T.poly(b), model_completion=True)).as_long() & 255 for a, b in self.pairs]
        except (Unsup, ValueError, AttributeError):
            return
        n, k = bytes(range(24)), bytes(range(32))
        c = bytes(spec.secretbox([7] * (self.n - 16), list(n), list(k)))
        yield {"c": bytes(x ^ y for x, y in zip(c, d)) + c[16:], "n": n, "k": k}


class OpenLong(Open):
    """one ciphertext, key and nonce; any authenticator"""

    def __init__(self, pre, nonce, key, code):
        self.pre, self.nonce, self.key, self.code = pre, nonce, key, code
        self.n = 16 + len(pre)
        self.inputs = {"c": 16}

    def prepare(self, ctx, x):
        self.ks = spec.xsalsa20(self.key, self.nonce, 32 + self.n - 16)

    def claims(self, out, x, ctx):
        return Open.claims(self, out, dict(x, c=list(x["c"]) + self.pre), ctx)

    def concrete(self, v):
        return spec_open(v["c"] + bytes(self.pre), bytes(self.nonce), bytes(self.key))

    def vectors(self, rnd):
        tag = bytes(spec.poly1305(self.pre, self.ks[:32]))
        yield {"c": tag}
        for i in range(16):
            for b in (1, 128):
                yield {"c": tag[:i] + bytes([tag[i] ^ b]) + tag[i + 1:]}
        yield from Case.vectors(self, rnd)

    def extra(self, model, T, ctx):
        return ()


class Box(Fn):
    def __init__(self, n):
        Fn.__init__(self, {"m": n, "n": 24, "k": 32}, lambda a, t, x: a.crypto_box_afternm(x["m"], x["n"], x["k"]), None)

    def prepare(self, ctx, x):
        n = self.inputs["m"]
        self.ks = [pure.mkint(ctx.opaque(pure.val(b))) for b in spec.xsalsa20(x["k"], x["n"], 32 + n)]

    def want(self, x):
        c = [a ^ b for a, b in zip(x["m"], self.ks[32:])]
        return spec.poly1305(c, self.ks[:32]) + c

    def concrete(self, v):
        return bytes(spec.secretbox(list(v["m"]), list(v["n"]), list(v["k"])))


class Auth(Fn):
    """Poly1305: vectors around the modulus, which a random key does not reach"""

    def vectors(self, rnd):
        yield from Fn.vectors(self, rnd)
        n = self.inputs["m"]
        for r, m in ((2, b"\xff" * n), (2, b"\xfe" + b"\xff" * (n - 1) if n else b""), (1, b"\xff" * n), (4, b"\xff" * n)):
            for s in (bytes(16), b"\xff" * 16, rnd.randbytes(16), b"\x05" + bytes(15), b"\x01" + bytes(15)):
                yield {"k": r.to_bytes(16, "little") + s, "m": m}
        P = spec.P1305
        for h in [*range(0, 6), *range(P - 6, P + 5), (1 << 130) - 1, 1 << 129, (1 << 128) - 1, 1 << 128, (1 << 129) - 1]:
            m = self.message(h)
            if m is not None:
                for s in (bytes(16), b"\xff" * 16, b"\x01" + bytes(15)):
                    yield {"k": (1).to_bytes(16, "little") + s, "m": m}

    def message(self, h):
        """with r = 1 the accumulator is the sum of the blocks"""
        n, P = self.inputs["m"], spec.P1305
        if not n or n % 16:
            return None
        q = n // 16
        for t in (h - (q << 128), h - (q << 128) + P, h - (q << 128) + 2 * P):
            if 0 <= t <= q * ((1 << 128) - 1):
                out = b""
                for _ in range(q):
                    x = min(t, (1 << 128) - 1)
                    out += x.to_bytes(16, "little")
                    t -= x
                return out
        return None


def bytes_of(l):
    """a byte string for the code under test (symbolic run)"""
    return pure.SBytes.of([pure.val(b) for b in l])


class Out:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc


def spec_open(c, n, k):
    """plaintext, or None"""
    if len(c) < 16:
        return None
    tag, m = spec.secretbox_parts(list(c), list(n), list(k))
    return bytes(m) if tag == list(c[:16]) else None


def roots_of(hyps):
    out = []

    def go(h):
        for a in h.args:
            if type(a) is pure.SymBool:
                go(a)
            elif type(a) is Poly:
                out.append(a)
    for h in hyps:
        go(h)
    return out


def holds(ctx, h, env, memo):
    a = h.args
    if h.op == "lt0":
        return ctx.ev(a[0], env, memo) < 0
    if h.op == "eq0":
        return ctx.ev(a[0], env, memo) == 0
    v = [holds(ctx, x, env, memo) for x in a]
    return not v[0] if h.op == "not" else all(v) if h.op == "and" else any(v)


def decide(case, seed=1, budget=140, depth=3, maxpaths=64):
    rep = Report()
    t0 = time.time()
    lim = sys.getrecursionlimit()
    sys.setrecursionlimit(100000)
    try:
        _decide(case, rep, seed, t0 + budget, depth, maxpaths, case.packing)
    except Unsup as e:
        rep.undecided.append(str(e))
    except RecursionError:
        rep.undecided.append("recursion")
    finally:
        sys.setrecursionlimit(lim)
    rep.wall = time.time() - t0
    return rep


def _decide(case, rep, seed, deadline, depth, maxpaths, packing):
    ld = pure.Loader(REPO)
    pure.start(poly.Ctx())
    api = None
    todo = [[]]
    while todo:
        if rep.paths >= maxpaths or time.time() > deadline:
            raise Unsup("%d paths explored, %d left" % (rep.paths, len(todo)))
        prefix = todo.pop()
        ctx = poly.Ctx()
        ctx.packing = packing
        pure.start(ctx, prefix)
        if api is None:
            try:
                tn = ld.load(TWEET)
                api = ld.load(PURE).SaltLibPure()
            except Exception as e:
                raise Unsup("loading: %r" % e)
        x = {k: [pure.mkint(ctx.var("%s%d" % (k, i))) for i in range(n)] for k, n in case.inputs.items()}
        case.prepare(ctx, x)
        try:
            out = Out(case.code(api, tn, {k: pure.SBytes(v) for k, v in x.items()}))
        except (RecursionError, MemoryError):
            raise Unsup("recursion")
        except Exception as e:
            if type(e).__name__ in ("AttributeError", "NameError", "ImportError", "NotImplementedError"):
                raise Unsup("".join(traceback.format_exception_only(e)).strip())
            out = Out(exc=e)
        rep.functions = set(ld.functions)
        todo += pure.M.alts
        rep.paths += 1
        hyps = [c if d else pure.bnot(c) for c, d in pure.M.decisions]
        claims = case.claims(out, x, ctx)
        if claims == [] and rep.sample is None:
            v = next(iter(case.vectors(random.Random(seed))))
            rep.sample = (v, None if out.exc is not None else bytes(out.value.b))
        if type(claims) is str:          # wrong on the whole path: any vector of it shows that
            rep.undecided.append(claims)
            if search(case, rep, ctx, hyps, out, None, (), seed, claims):
                return
            continue
        rest = [(a, b) for a, b in claims if a is not b and a != b]
        rep.identical += len(claims) - len(rest)
        extra = []
        if not rest:
            if search(case, rep, ctx, hyps, out, claims, (), seed):
                return
            continue
        try:
            from .prove import Prover
            if search(case, rep, ctx, hyps, out, claims, (), seed, limit=8):
                return
            pv = Prover(ctx, timeout=max(5, min(60, deadline - time.time())))
            try:
                ok = prove(pv, ctx, hyps, rest, depth, extra, case)
            finally:
                rep.queries += pv.queries
                rep.solver_s += pv.seconds
            if ok:
                rep.solved += len(rest)
                continue
            why = "not shown equal"
        except Unsup as e:
            why = str(e)
        except (RecursionError, MemoryError, ArgumentError):
            why = "term too deep for the solver's interface"
        if extra and search(case, rep, ctx, hyps, out, claims, extra, seed) or search(case, rep, ctx, hyps, out, claims, (), seed):
            return
        rep.undecided.append(why)


def prove(pv, ctx, hyps, rest, depth, extra, case):
    import z3
    some = [p for a, p in rest if type(a) is str]
    pairs = [(a, b) for a, b in rest if type(a) is not str]
    roots = [p for ab in pairs + [q for s in some for q in s] for p in ab] + roots_of(hyps)

    def claim(T):
        cs = [T.poly(a) == T.poly(b) for a, b in pairs]
        cs += [z3.Or([T.poly(a) != T.poly(b) for a, b in s]) for s in some]
        return z3.And(cs)
    r = pv.valid(hyps, claim, roots, depth)
    if r is True:
        return True
    extra.extend(case.extra(r[0], r[1], ctx))
    return False


_conc = {}


def concrete(case, v):
    key = (case, tuple(sorted(v.items())))
    if key not in _conc:
        _conc[key] = case.concrete(v)
    return _conc[key]


def search(case, rep, ctx, hyps, out, claims, extra, seed, what="differs from the specification", limit=None):
    """evaluate the code's terms on concrete vectors of this path"""
    got = [pure.val(b) for b in out.value] if out.exc is None else None
    for i, v in enumerate(list(extra) or case.vectors(random.Random(seed))):
        if limit is not None and i >= limit:
            break
        env = {"%s%d" % (k, i): b for k, s in v.items() for i, b in enumerate(s)}
        memo = {}
        try:
            if not all(holds(ctx, h, env, memo) for h in hyps):
                continue
            g = None if got is None else bytes(ctx.ev(p, env, memo) for p in got)
        except ValueError:
            g = "range"
        if rep.sample is None or (g is not None and rep.sample[1] is None):
            rep.sample = (v, g)
        w = concrete(case, v)
        if g != w or claims is None:
            rep.cex = (v, what)
            return True
        if claims is not None and not any(type(a) is str or a is not b and a != b for a, b in claims):
            return False                   # proved: one vector is enough
    return False
