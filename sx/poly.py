"""Word-level terms for arithmetic code on arbitrary-precision integers.

A value is a polynomial with dyadic-rational coefficients over hash-consed atoms; every value is integer valued and carries an
interval.  Shifts and masks are rewritten to `mod 2^k` atoms  (x >> k  =  (x - x mod 2^k) / 2^k), so that carries, digit
splitting and joining, and rotations cancel algebraically.  Bitwise operations that do not simplify stay atoms (xor/and/or).
The same class of terms is produced by the code under test and by the specification; `prove.py` decides equality with z3.
"""
import itertools
import random

WORD = 32           # bitwise operations on wider operands are split
LARGE = 40          # polynomials with more terms than this are named when they are shifted


EMPTY = frozenset()


class Unsup(BaseException):
    pass


class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "name")

    def __repr__(self):
        return "%s%d" % (self.kind, self.id)


class Poly:
    __slots__ = ("e", "t", "lo", "hi", "_h")

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return "<%s>" % show(self)


def v2(n):
    return (n & -n).bit_length() - 1


class SimEnv(dict):
    def __init__(self, seed):
        self.r = random.Random(seed)

    def __missing__(self, k):
        v = self[k] = self.r.randrange(256)
        return v


class Ctx:
    def __init__(self):
        self.atoms = []
        self.by_key = {}
        self.polys = {}
        self.modmemo = {}
        self.packing = False
        self.xdec = {}
        self.cats = {}
        self.turned = set()
        self.alias = {}
        self.dec = {}
        self.modargs = []
        self.sims = []
        self.split = None        # decides whether a deep 0/-1 value is 0 (forks)

    # ---------------------------------------------------------------- interning
    def atom(self, kind, args, lo, hi, name=None):
        k = (kind, args)
        a = self.by_key.get(k)
        if a is None:
            a = Atom()
            a.id, a.kind, a.args, a.lo, a.hi, a.name = len(self.atoms), kind, args, lo, hi, name
            self.atoms.append(a)
            self.by_key[k] = a
        return a

    def var(self, name, lo=0, hi=255):
        return self.of_atom(self.atom("var", name, lo, hi, name))

    def of_atom(self, a):
        if a.lo == a.hi:
            return a.lo
        return self.mk({(a.id,): 1}, 0)

    def mk(self, t, e):
        """dict mono->int over 2^e  ->  int or interned Poly (t is owned)"""
        if e:
            if not t:
                return 0
            g = e
            for c in t.values():
                z = v2(c)
                if z < g:
                    g = z
                    if not g:
                        break
            if g:
                t = {m: c >> g for m, c in t.items()}
                e -= g
        if not t:
            return 0
        if len(t) == 1 and () in t:
            if e:
                raise Unsup("fractional constant")
            return t[()]
        key = (e, frozenset(t.items()))
        p = self.polys.get(key)
        if p is None:
            p = Poly()
            p.e, p.t, p._h = e, t, hash(key)
            lo = hi = 0
            at = self.atoms
            for m, c in t.items():
                l = h = 1
                n = len(m)
                if n == 1:
                    a = at[m[0]]
                    l, h = a.lo, a.hi
                elif n:
                    for i in m:
                        a = at[i]
                        x = (l * a.lo, l * a.hi, h * a.lo, h * a.hi)
                        l, h = min(x), max(x)
                if c > 0:
                    lo += c * l
                    hi += c * h
                else:
                    lo += c * h
                    hi += c * l
            p.lo, p.hi = -((-lo) >> e), hi >> e
            self.polys[key] = p
        return p

    def monoiv(self, m):
        l = h = 1
        at = self.atoms
        for i in m:
            a = at[i]
            x = (l * a.lo, l * a.hi, h * a.lo, h * a.hi)
            l, h = min(x), max(x)
        return l, h

    def tight(self, p, lo, hi):
        if type(p) is Poly:
            if lo > p.lo:
                p.lo = lo
            if hi < p.hi:
                p.hi = hi
            if p.lo == p.hi:
                return p.lo
        return p

    # ---------------------------------------------------------------- ring operations


    def _terms(self, a):
        if type(a) is int:
            return ({(): a} if a else {}), 0
        return a.t, a.e

    def plus(self, a, b, s=1):
        if type(a) is int and type(b) is int:
            return a + s * b
        ta, ea = self._terms(a)
        tb, eb = self._terms(b)
        e = max(ea, eb)
        da, db = e - ea, e - eb
        t = dict(ta) if not da else {m: c << da for m, c in ta.items()}
        for m, c in tb.items():
            c = s * (c << db)
            o = t.get(m)
            if o is None:
                t[m] = c
            else:
                o += c
                if o:
                    t[m] = o
                else:
                    del t[m]
        r = self.mk(t, e)
        if type(r) is Poly:
            la, ha = iv(a)
            lb, hb = iv(b)
            if s == 1:
                r = self.tight(r, la + lb, ha + hb)
            elif s == -1:
                r = self.tight(r, la - hb, ha - lb)
        return r

    def scale(self, a, n):
        if type(a) is int:
            return a * n
        if n == 0:
            return 0
        if n == 1:
            return a
        r = self.mk({m: c * n for m, c in a.t.items()}, a.e)
        return self.tight(r, *sorted((a.lo * n, a.hi * n)))

    def half(self, a, k):
        """a / 2^k, known to be exact"""
        if not k:
            return a
        if type(a) is int:
            if a & ((1 << k) - 1):
                raise Unsup("inexact division")
            return a >> k
        r = self.mk(a.t, a.e + k)
        return self.tight(r, -((-a.lo) >> k), a.hi >> k)

    def monomul(self, m1, m2):
        if not m1:
            return m2
        if not m2:
            return m1
        m = sorted(m1 + m2)
        out, prev, at = [], None, self.atoms
        for i in m:
            if i == prev and at[i].lo >= 0 and at[i].hi <= 1:
                continue
            out.append(i)
            prev = i
        return tuple(out)

    def mul(self, a, b):
        if type(a) is int:
            return self.scale(b, a)
        if type(b) is int:
            return self.scale(a, b)
        a, b = self.factor(a), self.factor(b)
        if len(a.t) * len(b.t) > 4000:          # name the larger factor
            if len(a.t) > len(b.t):
                a = self.named(a)
            else:
                b = self.named(b)
            if len(a.t) * len(b.t) > 4000:
                a, b = self.named(a), self.named(b)
        t = {}
        mm = self.monomul
        for m1, c1 in a.t.items():
            for m2, c2 in b.t.items():
                m = mm(m1, m2)
                o = t.get(m, 0) + c1 * c2
                if o:
                    t[m] = o
                else:
                    del t[m]
        r = self.mk(t, a.e + b.e)
        x = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
        return self.tight(r, min(x), max(x))

    def single(self, p):
        """the atom p consists of, or None"""
        if type(p) is Poly and len(p.t) == 1 and not p.e:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1:
                return self.atoms[m[0]]
        return None

    def named(self, p):
        if type(p) is int or self.single(p):
            return p
        a = self.atom("def", p, p.lo, p.hi)
        a.lo, a.hi = max(a.lo, p.lo), min(a.hi, p.hi)
        return self.of_atom(a)

    def factor(self, p):
        if p.e:
            return self.named(p)
        if 1 < len(p.t) <= 4:              # keep an interval that is better than the terms give
            lo = hi = 0
            for m, c in p.t.items():
                l, h = self.monoiv(m)
                lo, hi = lo + min(c * l, c * h), hi + max(c * l, c * h)
            if lo < p.lo or hi > p.hi:
                return self.named(p)
        return self.bitname(p)

    def bitname(self, p):
        if p.lo >= 0 and p.hi <= 1 and len(p.t) > 1:
            r = self.named(p)
            return r
        return p

    # ---------------------------------------------------------------- mod 2^k
    def tz(self, p):
        """a number of low bits known to be zero"""
        if type(p) is int:
            return v2(p) if p else 10 ** 6
        return max(0, min(v2(c) for c in p.t.values()) - p.e)

    def below(self, x, y):
        """x has no bit at or above the lowest possible bit of y"""
        if x.lo < 0:
            return False
        if x.hi < 1 << min(self.tz(y), 4096):
            return True
        if y.e > 4096 or x.hi >> 256:
            return False
        k = x.hi.bit_length()
        return self.simeq(y, 0, k) and self.mod(y, k) == 0

    def cat(self, low, high, g):
        """low + high, where 0 <= low < 2^g and 2^g divides high"""
        r = self.plus(low, high)
        if type(r) is Poly and type(low) is Poly and type(high) is Poly and r not in self.cats:
            self.cats[r] = (low, high, g)
        return r

    def mod(self, p, k):
        if type(p) is int:
            return p & ((1 << k) - 1)
        if k <= 0:
            return 0
        key = (p, k)
        r = self.modmemo.get(key)
        if r is None:
            if p.lo >= 0 and p.hi < 1 << k:
                r = p
            elif p in self.cats:
                low, high, g = self.cats[p]
                r = self.mod(low, k) if k <= g else self.plus(low, self.scale(self.mod(self.half(high, g), k - g), 1 << g))
            elif p.e:
                n = self.mk(p.t, 0)
                n = self.tight(n, p.lo << p.e, p.hi << p.e)
                r = self.half(self.mod(n, k + p.e), p.e)
            else:
                r = self._mod(p, k)
            r = self.tight(r, 0, (1 << k) - 1)
            self.modmemo[key] = r
        return r

    def opaque(self, p):
        """from now on p appears as an atom of its own (whatever its value is)"""
        if type(p) is not Poly or p in self.alias or self.single(p) and self.single(p).kind in ("var", "opaque"):
            return self.alias.get(p, p) if type(p) is Poly else p
        r = self.alias[p] = self.of_atom(self.atom("opaque", p, p.lo, p.hi))
        return r

    def _expand(self, p, k):
        """p (e=0) modulo 2^k with inner mod/def atoms opened; -> (terms, e)"""
        at = self.atoms
        M = (1 << k) - 1
        while True:
            out, e, changed = {}, 0, False
            adds = []
            for m, c in p.t.items():
                c &= M
                if not c:
                    changed = True
                    continue
                hit = None
                if len(m) == 1:
                    a = at[m[0]]
                    if a.kind == "def":
                        hit = (m[0], a.args)
                    elif a.kind == "mod":
                        g = k - a.args[1]      # the part of the coefficient above 2^g may be opened
                        h = c
                        if g > 0:
                            low = c & ((1 << g) - 1)
                            if low >> (g - 1):
                                low -= 1 << g
                            h = (c - low) & M
                            if h:
                                o = (out.get(m, 0) + low) & M
                                if o:
                                    out[m] = o
                                else:
                                    out.pop(m, None)
                        if h:
                            hit = (m[0], a.args[0])
                            c = h
                if hit is None:
                    o = (out.get(m, 0) + c) & M
                    if o:
                        out[m] = o
                    else:
                        out.pop(m, None)
                    continue
                changed = True
                rest = list(m)
                rest.remove(hit[0])
                rest = tuple(rest)
                q = hit[1]
                tq, eq = self._terms(q)
                adds.append((c, rest, tq, eq))
                e = max(e, eq)
            if not changed and not adds:
                return p
            if e:
                out = {m: c << e for m, c in out.items()}
            mm = self.monomul
            for c, rest, tq, eq in adds:
                c <<= e - eq
                for m2, c2 in tq.items():
                    m = mm(rest, m2)
                    o = out.get(m, 0) + c * c2
                    if o:
                        out[m] = o
                    else:
                        del out[m]
            p = self.mk(out, e)
            if type(p) is int or p.e:
                return p

    def lowz(self, n, k):
        """-> (z, r): n = r modulo 2^z for every input, z as large as can be shown"""
        if not self.sims:
            self.simeq(0, 0, 1)
        v = [self.ev(n, e, m) for e, m in self.sims]
        d = 0
        for x in v[1:]:
            d |= x ^ v[0]
        z = min(v2(d), k - 1) if d else k - 1
        for _ in range(4):
            if z <= 0:
                break
            r = self.mod(n, z)
            if type(r) is int:
                return z, r
            z -= 1
        return 0, 0

    def simeq(self, p, q, k):
        """p = q modulo 2^k on a few fixed vectors"""
        if not self.sims:
            self.sims = [(SimEnv(x), {}) for x in range(4)]
        mask = (1 << k) - 1
        return all((self.ev(p, e, m) - self.ev(q, e, m)) & mask == 0 for e, m in self.sims)

    def _distribute(self, n, k):
        a = self.single(n)
        if a is None or a.kind not in ("xor", "and", "or"):
            return None
        f, r = {"xor": (self.xor, 0), "and": (self.and_, -1), "or": (self.or_, 0)}[a.kind]
        for x in sorted(a.args, key=order):
            r = f(r, self.mod(x, k))
        return r

    def _mod(self, p, k):
        p0 = p
        r = self._distribute(p, k)
        if r is not None:
            return r
        p = self._expand(p, k)
        if type(p) is int or p.e:
            return self.mod(p, k)
        M = (1 << k) - 1
        t = {}
        for m, c in p.t.items():
            c &= M
            if c:
                t[m] = c
        n = self.mk(t, 0)
        if type(n) is int:
            return n & M
        g = min(v2(c) for c in n.t.values())
        if g:
            return self.scale(self.mod(self.mk({m: c >> g for m, c in n.t.items()}, 0), k - g), 1 << g)
        if n.lo >= 0 and n.hi <= M:
            return n
        at = self.atoms
        for m, c in n.t.items():           # Y - mod(Y, a)  is a multiple of 2^a
            if (c == M or c == 1) and len(m) == 1 and at[m[0]].kind in ("mod", "xor", "and", "or"):
                a = at[m[0]]
                w = a.args[1] if a.kind == "mod" else a.hi.bit_length()
                if w > k or a.lo < 0:
                    continue
                pa = self.of_atom(a)
                if c == 1:
                    pa = self.plus((1 << w) - 1, pa, -1)
                if self.simeq(n, 0, w):
                    y = self.plus(n, pa)
                    if self.mod(y, w) is pa:
                        return self.plus(self.mod(y, k), pa, -1)
        z, r = self.lowz(n, k)             # n = r modulo 2^z
        if r:
            return self.plus(r, self.mod(self.plus(n, -r), k))
        if z:                              # X - mod(X, z) for a bitwise X
            for m, c in n.t.items():
                if c == 1 and len(m) == 1 and at[m[0]].kind in ("xor", "and", "or"):
                    X = self.of_atom(at[m[0]])
                    low = self.mod(X, z)
                    y = self.plus(X, low, -1)
                    if type(y) is Poly and not y.e and {x: d & M for x, d in y.t.items() if d & M} == n.t:
                        return self.plus(self.mod(X, k), low, -1)
        m0 = min(m for m in n.t if m)
        if n.t[m0] > 1 << (k - 1) and (p0, k) not in self.turned:     # mod(-2^z - Y, k) = 2^k - 2^z - mod(Y, k)  for multiples Y of 2^z
            C = M + 1 - (1 << z)
            q = self.plus(C, n, -1)
            self.turned.add((q, k))
            return self.plus(C, self.mod(q, k), -1)
        ts = sorted(((v2(c), m, c) for m, c in n.t.items()), key=lambda x: x[0])
        l = h = 0                          # low part in [0, 2^g), the rest a multiple of 2^g
        prev = 0
        for x, (g, m, c) in enumerate(ts):
            if g > prev and l >= 0 and h < 1 << g:
                low = self.mk({m: (c if c <= M >> 1 else c - M - 1) for _, m, c in ts[:x]}, 0)
                up = self.mk({m: c >> g for _, m, c in ts[x:]}, 0)
                return self.plus(low, self.scale(self.mod(up, k - g), 1 << g))
            prev = g
            if c > M >> 1:
                c -= M + 1
            a, b = self.monoiv(m)
            l, h = (l + c * a, h + c * b) if c > 0 else (l + c * b, h + c * a)
        if len(n.t) <= 16:                 # the same with coefficients such as 2^32 + 1
            cand = set()
            for c in n.t.values():
                if runs(c) <= 4:
                    x = c & ~(c << 1)
                    while x:
                        cand.add(v2(x))
                        x &= x - 1
            for g in sorted(cand):
                if not 0 < g < k:
                    continue
                l = h = 0
                for m, c in n.t.items():
                    c &= (1 << g) - 1
                    if c:
                        a, b = self.monoiv(m)
                        l, h = l + c * a, h + c * b
                if l >= 0 and h < 1 << g:
                    low = self.mk({m: c & ((1 << g) - 1) for m, c in n.t.items() if c & ((1 << g) - 1)}, 0)
                    up = self.mk({m: c >> g for m, c in n.t.items() if c >> g}, 0)
                    return self.plus(low, self.scale(self.mod(up, k - g), 1 << g))
        r = self._distribute(n, k)
        if r is not None:
            return r
        return self.of_atom(self.atom("mod", (n, k), 0, M))

    def shr(self, p, k):
        if type(p) is int:
            return p >> k
        if k <= 0:
            return p
        if p.lo >= 0 and p.hi < 1 << k:
            return 0
        q = self.named(p) if len(p.t) > LARGE else p
        r = self.half(self.plus(q, self.mod(p, k), -1), k)
        return self.tight(r, p.lo >> k, p.hi >> k)

    def modm(self, p, m):
        """p mod m, m odd"""
        if type(p) is int:
            return p % m
        if p.lo >= 0 and p.hi < m:
            return p
        n = self.residue(p, m, True)
        if type(n) is int:
            return n
        if n.lo >= 0 and n.hi < m:
            return n
        return self.of_atom(self.atom("modm", (n, m), 0, m - 1))

    def residue(self, p, m, name=False, cap=400000):
        """canonical polynomial over Z_m congruent to p"""
        memo = self.__dict__.setdefault("resmemo", {})
        at = self.atoms

        def terms(p):
            """dict over Z_m"""
            r = memo.get((p, m))
            if r is not None:
                return r
            tp, e = self._terms(p)
            inv = pow(pow(2, e, m), -1, m)
            out = {}
            rest = []
            for mo, c in tp.items():
                c = c * inv % m
                if not c:
                    continue
                rest.append((mo, c))
            # cancel before opening definitions
            for mo, c in rest:
                opened = None
                for i in mo:
                    a = at[i]
                    if a.kind == "def":
                        opened = (i, a.args)
                        break
                    if a.kind == "modm" and a.args[1] == m:
                        opened = (i, a.args[0])
                        break
                if opened is None:
                    o = (out.get(mo, 0) + c) % m
                    if o:
                        out[mo] = o
                    else:
                        out.pop(mo, None)
                    continue
                r = list(mo)
                r.remove(opened[0])
                r = tuple(r)
                sub = terms(opened[1])
                acc = {}
                if r:
                    # the remaining factors may need opening too
                    one = {r: 1}
                    sub2 = terms_of(one)
                    for m1, c1 in sub2.items():
                        for m2, c2 in sub.items():
                            mm = self.monomul(m1, m2)
                            acc[mm] = (acc.get(mm, 0) + c1 * c2) % m
                else:
                    acc = sub
                for m2, c2 in acc.items():
                    o = (out.get(m2, 0) + c * c2) % m
                    if o:
                        out[m2] = o
                    else:
                        out.pop(m2, None)
                if len(out) > cap:
                    raise Unsup("residue polynomial too large")
            if self.packing:
                out = pack(out)
            memo[(p, m)] = out
            return out

        def pack(d, new=False):
            """a sum of products seen in an earlier residue is named, up to a factor"""
            n = {x: y for x, y in d.items() if len(x) > 1}
            if len(n) < 20:
                return d
            lead = n[min(n)]
            inv = pow(lead, -1, m)
            key = (self.mk({x: y * inv % m for x, y in n.items()}, 0), m)
            if new:
                self.atom("rc", key, 0, m - 1)
            a = self.by_key.get(("rc", key))
            if a is None:
                return d
            d = {x: y for x, y in d.items() if len(x) < 2}
            d[(a.id,)] = (d.get((a.id,), 0) + lead) % m
            if not d[(a.id,)]:
                del d[(a.id,)]
            return d

        def terms_of(t):
            q = self.mk(dict(t), 0)
            return terms(q)

        r = terms(p)
        if self.packing and name:
            r = pack(r, True)
        return self.mk(dict(r), 0)

    # ---------------------------------------------------------------- bitwise
    def and_(self, a, b):
        r = self._and(a, b)
        if type(r) is Poly:
            (la, ha), (lb, hb) = iv(a), iv(b)
            if la >= 0 and lb >= 0:
                r = self.tight(r, 0, min(ha, hb))
            elif la >= 0:
                r = self.tight(r, 0, ha)
            elif lb >= 0:
                r = self.tight(r, 0, hb)
        return r

    def or_(self, a, b):
        r = self._or(a, b)
        if type(r) is Poly and iv(a)[0] >= 0 and iv(b)[0] >= 0:
            r = self.tight(r, max(iv(a)[0], iv(b)[0]), (1 << max(bits(a), bits(b))) - 1)
        return r

    def xor(self, a, b):
        r = self._xor(a, b)
        if type(r) is Poly:
            n = max(bits(a), bits(b))
            r = self.tight(r, 0 if iv(a)[0] >= 0 and iv(b)[0] >= 0 else -(1 << n), (1 << n) - 1)
        return r

    def _and(self, a, b):
        if type(a) is int:
            if type(b) is int:
                return a & b
            a, b = b, a
        if type(b) is int:
            if b < 0:
                return self.plus(a, self.and_(a, ~b), -1)
            if runs(b) > 3:
                if a.lo >= 0 and not self.wide(a, b):
                    z = self.anfmul(self.anf(a), {EMPTY: b})
                    if z is not None:
                        return self.unanf(z)
                if self.wide(a, b):
                    return self.pieces(self.and_, a, b)
                at = self.single(a)
                if at is not None and at.kind == "and":
                    cs = [x for x in at.args if type(x) is int]
                    if cs:
                        q = -1
                        for x in at.args - set(cs):
                            q = self.and_(q, x)
                        return self.and_(q, b & cs[0])
                return self.of_atom(self.atom("and", (at.args if at is not None and at.kind == "and" else frozenset((a,))) | {b}, 0,
                                              min(b, iv(a)[1]) if iv(a)[0] >= 0 else b))
            r, lo = 0, 0
            while b >> lo:
                if not (b >> lo) & 1:
                    lo += v2(b >> lo)
                hi = lo
                while (b >> hi) & 1:
                    hi += 1
                r = self.plus(r, self.plus(self.mod(a, hi), self.mod(a, lo), -1))
                lo = hi
            return self.tight(r, 0, b)
        if a is b:
            return a
        for x, y in ((a, b), (b, a)):
            if x.lo >= -1 and x.hi <= 0:
                if self.deep(x):
                    return 0 if self.split(x) else y
                return self.mul(self.scale(x, -1), y)
        for x, y in ((a, b), (b, a)):
            if x.lo >= 0 and x.hi <= 1:
                return self.mul(x, self.mod(y, 1))
            if self.below(x, y):
                return 0
        if self.wide(a, b):
            return self.pieces(self.and_, a, b)
        g = min(self.tz(a), self.tz(b))
        if g:
            return self.scale(self.and_(self.half(a, g), self.half(b, g)), 1 << g)
        if a.lo >= 0 and b.lo >= 0:
            z = self.anfmul(self.anf(a), self.anf(b))
            if z is not None:
                return self.unanf(z)
        s = set()
        for x in (a, b):
            at = self.single(x)
            if at is not None and at.kind == "and":
                s |= at.args
            else:
                s.add(x)
        if a.lo >= 0 and b.lo >= 0:
            lo, hi = 0, min(a.hi, b.hi)
        elif a.lo >= 0:
            lo, hi = 0, a.hi
        elif b.lo >= 0:
            lo, hi = 0, b.hi
        else:
            n = max(bits(a), bits(b))
            lo, hi = -(1 << n), (1 << n) - 1
        r = self.of_atom(self.atom("and", frozenset(s), lo, hi))
        return self.tight(r, lo, hi)

    def _or(self, a, b):
        if type(a) is int:
            if type(b) is int:
                return a | b
            a, b = b, a
        if type(b) is int:
            if b > 0 and a.lo >= 0 and runs(b) > 3:
                if self.wide(a, b):
                    return self.pieces(self.or_, a, b)
                z = self.anfor(self.anf(a), {EMPTY: b})
                if z is not None:
                    return self.unanf(z)
            return self.plus(self.plus(a, b), self.and_(a, b), -1)
        if a is b:
            return a
        for x, y in ((a, b), (b, a)):
            if self.below(x, y):
                return self.cat(x, y, x.hi.bit_length())
        if a.lo < 0 or b.lo < 0:
            return self.plus(self.plus(a, b), self.and_(a, b), -1)
        if self.wide(a, b):
            return self.pieces(self.or_, a, b)
        g = min(self.tz(a), self.tz(b))
        if g:
            return self.scale(self.or_(self.half(a, g), self.half(b, g)), 1 << g)
        if self.hasand(a) or self.hasand(b):
            z = self.anfor(self.anf(a), self.anf(b))
            if z is not None:
                return self.unanf(z)
        s = set()
        for x in (a, b):
            at = self.single(x)
            if at is not None and at.kind == "or":
                s |= at.args
            else:
                s.add(x)
        hi = (1 << max(bits(a), bits(b))) - 1
        return self.of_atom(self.atom("or", frozenset(s), max(a.lo, b.lo), hi))

    def hasand(self, p):
        d = self.dec.get(p)
        if d is not None:
            return any(x and (len(x) > 1 or m != self.full(x)) for x, m in d.items())
        a = self.single(p)
        return a is not None and a.kind == "and"

    def deep(self, p):
        """more than bits of the inputs"""
        if self.split is None:
            return False
        at = self.atoms
        for m in p.t:
            for i in m:
                a = at[i]
                if a.kind == "def":
                    if type(a.args) is Poly and self.deep(a.args):
                        return True
                elif a.kind == "mod":
                    if any(at[j].kind not in ("var", "opaque") for mm in a.args[0].t for j in mm):
                        return True
                elif a.kind not in ("var", "opaque"):
                    return True
        return False

    def bitfactor(self, p):
        """an atom with values 0/1 that divides every term of p"""
        c = None
        for m in p.t:
            s = {i for i in m if self.atoms[i].lo >= 0 and self.atoms[i].hi <= 1}
            c = s if c is None else c & s
            if not c:
                return None
        return min(c)

    def _xor(self, a, b):
        if type(a) is int:
            if type(b) is int:
                return a ^ b
            a, b = b, a
        if type(b) is int:
            if b == 0:
                return a
            if b < 0:
                return self.plus(-1, self.xor(a, ~b), -1)
            if self.wide(a, b):
                return self.pieces(self.xor, a, b)
            if a.lo >= 0 and b >= 0:
                x = self.anf(a, 64)
                if x is not None:
                    return self.unanf(self.anfxor(x, {EMPTY: b}))
            s, c = self.xdec.get(a, (None, 0))
            if s is not None:
                return self.xset(s, c ^ b)
            return self.xset(frozenset((a,)), b)
        if a is b:
            return 0
        for x, y in ((a, b), (b, a)):
            if self.below(x, y):
                return self.cat(x, y, x.hi.bit_length())
        for x, y in ((a, b), (b, a)):
            if x.lo >= -1 and x.hi <= 0:         # 0 or all ones
                if self.deep(x):
                    return y if self.split(x) else self.plus(-1, y, -1)
                return self.plus(y, self.mul(x, self.plus(self.scale(y, 2), 1)))
        for x, y in ((a, b), (b, a)):
            f = self.bitfactor(y)
            if f is not None and not (y.lo >= 0 and y.hi <= 1):
                q = self.mk({tuple(i for i in m if i != f): c for m, c in y.t.items()}, y.e)
                return self.plus(x, self.mul(self.of_atom(self.atoms[f]), self.plus(self.xor(x, q), x, -1)))
        if self.wide(a, b):
            return self.pieces(self.xor, a, b)
        if a.lo >= 0 and b.lo >= 0:
            x, y = self.anf(a, 64), self.anf(b, 64)
            if x is not None and y is not None:
                return self.unanf(self.anfxor(x, y))
        s1, c1 = self.xdec.get(a, (frozenset((a,)), 0))
        s2, c2 = self.xdec.get(b, (frozenset((b,)), 0))
        return self.xset(s1 ^ s2, c1 ^ c2)

    def xset(self, s, c):
        """exclusive or of the polynomials in s and the constant c"""
        if not s:
            return c
        if c < 0:
            return self.plus(-1, self.xset(s, ~c), -1)
        if len(s) == 1 and not c:
            x, = s
            return x
        g = min(self.tz(x) for x in s)
        if c:
            g = min(g, v2(c))
        if g:
            r = self.scale(self.xset(frozenset(self.half(x, g) for x in s), c >> g), 1 << g)
        elif c and (runs(c) > 1 or c != (1 << max(max(bits(x) for x in s), c.bit_length())) - 1):
            r = self._xatom(s | {c})
        elif c:
            base = self.xset(s, 0)
            r = self.plus(self.plus(base, c), self.scale(self.and_(base, c), -2))
        else:
            r = self._xatom(s)
        if type(r) is Poly and r not in self.xdec and (len(s) > 1 or c):
            self.xdec[r] = (s, c)
        return r

    def _xatom(self, s):
        n = max(bits(x) for x in s)
        lo = 0 if all(iv(x)[0] >= 0 for x in s) else -(1 << n)
        return self.of_atom(self.atom("xor", frozenset(s), lo, (1 << n) - 1))

    def pieces(self, f, a, b):
        """a bitwise operation on wide operands, word by word"""
        lo = f(self.mod(a, WORD), self.mod(b, WORD))
        return self.cat(lo, self.scale(f(self.shr(a, WORD), self.shr(b, WORD)), 1 << WORD), WORD)

    def wide(self, a, b):
        return iv(a)[0] >= 0 and iv(b)[0] >= 0 and max(iv(a)[1], iv(b)[1]) >= 1 << WORD

    # algebraic normal form over GF(2), bit by bit: exclusive or of masked conjunctions {set of polynomials: mask}
    def full(self, conj):
        return (1 << min(bits(p) for p in conj)) - 1 if conj else (1 << WORD) - 1

    def anf(self, p, cap=16):
        """None when too large"""
        if type(p) is int:
            return {EMPTY: p} if p else {}
        d = self.dec.get(p)
        if d is None:
            a = self.single(p)
            if a is not None and a.kind == "and":
                x = frozenset(y for y in a.args if type(y) is Poly)
                m = self.full(x)
                for y in a.args:
                    if type(y) is int:
                        m &= y
                return {x: m}
            if a is not None and a.kind == "or":
                r = {}
                for x in sorted(a.args, key=order):
                    y = self.anf(x, cap)
                    r = self.anfor(r, y, cap)
                    if r is None:
                        return None
                return r
            x = frozenset((p,))
            return {x: self.full(x)}
        return dict(d) if len(d) <= cap else None

    def anfxor(self, a, b):
        out = dict(a)
        for x, m in b.items():
            m ^= out.pop(x, 0)
            if m:
                out[x] = m
        return out

    def anfmul(self, a, b, cap=16):
        if a is None or b is None or len(a) * len(b) > 2 * cap:
            return None
        out = {}
        for x, m in a.items():
            for y, n in b.items():
                z = x | y
                k = m & n & self.full(z)
                k ^= out.pop(z, 0)
                if k:
                    out[z] = k
        return out if len(out) <= cap else None

    def anfor(self, a, b, cap=16):
        z = self.anfmul(a, b, cap)
        if z is None:
            return None
        z = self.anfxor(self.anfxor(a, b), z)
        return z if len(z) <= cap else None

    def unanf(self, d):
        c = d.get(EMPTY, 0)
        s = frozenset(self._conj(x, m) for x, m in d.items() if x)
        r = self.xset(s, c)
        if type(r) is Poly and r not in self.dec:
            if not (len(d) == 1 and frozenset((r,)) in d):
                self.dec[r] = dict(d)
        return r

    def _conj(self, x, m):
        if m != self.full(x):
            if len(x) == 1:
                p, = x
                if runs(m) <= 3:
                    return self.and_(p, m)
            x |= {m}
        elif len(x) == 1:
            p, = x
            return p
        return self.of_atom(self.atom("and", x, 0, min(iv(p)[1] for p in x)))

    def isneg(self, p):
        """0/1: p < 0"""
        if type(p) is int:
            return int(p < 0)
        if p.hi < 0:
            return 1
        if p.lo >= 0:
            return 0
        return self.of_atom(self.atom("neg", p, 0, 1))

    # ---------------------------------------------------------------- evaluation
    def ev(self, p, env, memo):
        if type(p) is int:
            return p
        n = 0
        for m, c in p.t.items():
            for i in m:
                c *= self.eva(i, env, memo)
            n += c
        if p.e:
            if n & ((1 << p.e) - 1):
                raise Unsup("internal: value not an integer")
            n >>= p.e
        return n

    def eva(self, i, env, memo):
        v = memo.get(i)
        if v is not None:
            return v
        a = self.atoms[i]
        k = a.kind
        if k == "var":
            v = env[a.name]
        elif k == "mod":
            v = self.ev(a.args[0], env, memo) & ((1 << a.args[1]) - 1)
        elif k in ("def", "opaque"):
            v = self.ev(a.args, env, memo)
        elif k in ("modm", "rc"):
            v = self.ev(a.args[0], env, memo) % a.args[1]
        elif k == "neg":
            v = int(self.ev(a.args, env, memo) < 0)
        elif k == "xor":
            v = 0
            for x in a.args:
                v ^= self.ev(x, env, memo)
        elif k == "and":
            v = -1
            for x in a.args:
                v &= self.ev(x, env, memo)
        elif k == "or":
            v = 0
            for x in a.args:
                v |= self.ev(x, env, memo)
        else:
            raise Unsup("atom " + k)
        memo[i] = v
        return v

    def children(self, a):
        k = a.kind
        if k in ("var", "opaque"):
            return ()
        if k in ("mod", "modm", "rc"):
            return (a.args[0],)
        if k in ("def", "neg"):
            return (a.args,)
        return tuple(a.args)


def runs(c):
    """number of blocks of ones"""
    return (c & ~(c << 1)).bit_count()


def order(p):
    return (0, p) if type(p) is int else (1, p._h, len(p.t))


def iv(p):
    return (p, p) if type(p) is int else (p.lo, p.hi)


def bits(p):
    lo, hi = iv(p)
    return max(hi.bit_length() if hi > 0 else 0, (~lo).bit_length() if lo < 0 else 0)


def show(p, n=6):
    if type(p) is int:
        return str(p)
    s = " + ".join("%d*%s" % (c, "*".join("a%d" % i for i in m) or "1") for m, c in itertools.islice(p.t.items(), n))
    return s + (" +...%d" % len(p.t) if len(p.t) > n else "") + (" >>%d" % p.e if p.e else "") + " [%d..%d]" % (p.lo, p.hi)
