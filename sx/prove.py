"""Equality of poly.py terms with z3.

The terms are bit-vector terms over cut points: input variables, and atoms below a chosen depth, which become free variables (so
`unsat` holds for every value of them, hence for every input).  Residues modulo an odd prime are connected to the code's own
representation by `anchor`: an integer combination E of the code's atoms whose residue polynomial is the specification's.
"""
import time

import z3

from .poly import Poly, Unsup, iv, bits, v2


class Prover:
    def __init__(self, ctx, timeout=60):
        self.c = ctx
        self.queries = 0
        self.seconds = 0.0
        self.timeout = timeout
        self.sides = {}
        self.anchors = {}            # modm atom id -> (E, scale t, e)

    # ------------------------------------------------------------ residues
    def anchor(self, a, roots):
        """find E = 2^e * H with H = a's argument modulo m, H in a known interval"""
        if a.id in self.anchors:
            return self.anchors[a.id]
        c = self.c
        R, m = a.args
        rt = R.t
        mark = next((x for x in sorted(rt) if len(x) > 1), None) or next((x for x in sorted(rt) if x), None)
        inv = pow(rt[mark], -1, m)
        best = None
        for i in sorted(self.cone(roots)):
            b = c.atoms[i]
            if b.kind != "mod" or b.args[1] < m.bit_length():
                continue
            n, k = b.args
            M = 1 << k
            for signed in (True, False):
                N = c.mk({x: (y - M if signed and y >= M >> 1 else y) for x, y in n.t.items()}, 0)
                try:
                    r = c.residue(N, m)
                except Unsup:
                    continue
                if type(r) is int or mark not in r.t:
                    continue
                t = r.t[mark] * inv % m
                D = dict(r.t)
                for x, y in rt.items():
                    z = (D.get(x, 0) - t * y) % m
                    if z:
                        D[x] = z
                    else:
                        D.pop(x, None)
                if any(len(x) > 1 for x in D):
                    continue
                et = {x: y for x, y in N.t.items() if x not in D}
                E = c.mk(et, 0)
                if type(E) is int:
                    continue
                r2 = c.residue(E, m)
                if type(r2) is int or {x: y for x, y in r2.t.items()} != {x: t * y % m for x, y in rt.items() if t * y % m}:
                    continue
                e = next((e for e in range(0, 2 * k) if pow(2, e, m) == t), None)
                if e is None:
                    continue
                c0 = E.t.get((), 0)          # an offset that is a multiple of m * 2^e does not matter
                E = c.plus(E, c0 % (m << e) - c0)
                lo, hi = -((-E.lo) >> e), E.hi >> e
                if lo < 0:
                    continue
                if best is None or hi < best[3]:
                    best = (E, e, lo, hi)
        if best is None:
            raise Unsup("no representation of the residue found in the code's terms")
        self.anchors[a.id] = best
        return best

    def cone(self, roots):
        c, seen, todo = self.c, set(), [p for p in roots if type(p) is Poly]
        while todo:
            p = todo.pop()
            for m in p.t:
                for i in m:
                    if i not in seen:
                        seen.add(i)
                        todo.extend(q for q in c.children(c.atoms[i]) if type(q) is Poly)
        return seen

    # ------------------------------------------------------------ one query
    def valid(self, hyps, claim, roots, depth):
        """hyps: conditions (with their truth values); claim: function of a translator; -> True (unsat), or (model, translator)"""
        key = tuple(h.key() for h in hyps)
        if key not in self.sides:
            self.sides[key] = {}
            T = Trans(self, roots, depth)
            for i, (E, e, lo, hi, mark, h) in T.anch.items():
                p = self.c.atoms[i].args[1]
                if hi < p:
                    self.sides[key][i] = False
                    continue
                for up, f in ((True, z3.UGE(h, p)), (False, z3.ULT(h, p))):
                    try:
                        if self.ask(T, hyps, f, min(20, self.timeout)) is True:
                            self.sides[key][i] = up
                            break
                    except Unsup:
                        pass
        T = Trans(self, roots, depth, self.sides[key])
        return self.ask(T, hyps, claim(T), self.timeout)

    def ask(self, T, hyps, cl, timeout):
        hy = [T.cond(h) for h in hyps]
        s = z3.SolverFor("QF_BV")
        s.set("timeout", int(timeout * 1000))
        t0 = time.time()
        s.add(*T.side)
        s.add(*hy)
        s.add(z3.Not(cl))
        r = s.check()
        self.queries += 1
        self.seconds += time.time() - t0
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return (s.model(), T)
        raise Unsup("solver gave no answer")


class Trans:
    """terms -> bit vectors of one width (two's complement)"""

    def __init__(self, pv, roots, depth, sides=None):
        """sides: which side of the modulus the representative of each residue is on, once known"""
        sides = sides or {}
        self.pv, self.c, self.depth = pv, pv.c, depth
        self.side, self.memo, self.vars = [], {}, {}
        self.anch, self.free = {}, []
        self.W = 16
        c = self.c
        for i in sorted(pv.cone(roots)):
            a = c.atoms[i]
            if a.kind == "modm":
                try:
                    E, e, lo, hi = pv.anchor(a, roots)
                except Unsup:                # the code may use the residue itself: any value below the modulus
                    self.free.append(a)
                    self.W = max(self.W, a.args[1].bit_length() + 12)
                    continue
                if hi >= 2 * a.args[1]:
                    raise Unsup("residue representative out of range")
                mark = next((x for x in sorted(E.t) if E.t[x] & 1 and len(x) > 1), None) \
                    or next((x for x in sorted(E.t) if E.t[x] & 1 and x), None)
                if mark is None:
                    raise Unsup("no odd coefficient in the residue representative")
                self.anch[i] = (E, e, lo, hi, mark)
                self.W = max(self.W, hi.bit_length() + 4)
        self.cand = sorted((c.atoms[i] for i in pv.cone(roots) if c.atoms[i].kind == "mod"), key=lambda a: -a.args[1])
        if self.cand:
            self.W = max(self.W, self.cand[0].args[1] + 12)
        self.cuts = {}
        for a in self.free:
            self.memo[a.id] = self.cut(a)
        for i, (E, e, lo, hi, mark) in self.anch.items():
            p = c.atoms[i].args[1]
            up = sides.get(i)
            if up:
                w = max(1, (hi - p).bit_length())
                x = z3.BitVec("H%d" % i, w)
                self.side.append(z3.ULE(x, hi - p))
                self.memo[i] = z3.ZeroExt(self.W - w, x)
                h = self.memo[i] + p
            else:
                m = min(hi, p - 1) if up is False else hi
                w = max(1, m.bit_length())
                x = z3.BitVec("H%d" % i, w)
                h = z3.ZeroExt(self.W - w, x)
                self.side += [z3.ULE(h, m), z3.UGE(h, lo)]
                self.memo[i] = h if up is False else z3.If(z3.UGE(h, p), h - p, h)
            self.anch[i] += (h,)

    def cut(self, a):
        n = "a%d" % a.id
        if a.lo < 0:
            if bits_of(a.lo, a.hi) > self.W - 2:
                raise Unsup("wide cut point")
            v = z3.BitVec(n, self.W)
            self.side += [v >= a.lo, v <= a.hi]
        else:
            w = max(1, a.hi.bit_length())
            if w > self.W - 2:
                raise Unsup("wide cut point")
            x = z3.BitVec(n, w)
            if a.hi != (1 << w) - 1:
                self.side.append(z3.ULE(x, a.hi))
            if a.lo:
                self.side.append(z3.UGE(x, a.lo))
            v = z3.ZeroExt(self.W - w, x)
            self.vars[n] = x
        return v

    def cond(self, h):
        op, a = h.op, h.args
        if op == "lt0":
            return self.poly(a[0]) < 0
        if op == "eq0":
            return self.poly(a[0]) == 0
        xs = [self.cond(x) for x in a]
        return z3.Not(xs[0]) if op == "not" else z3.And(*xs) if op == "and" else z3.Or(*xs)

    def poly(self, p, d=0):
        if type(p) is int:
            return z3.BitVecVal(p, self.W)
        t, e = p.t, p.e
        if max(bits(p) + e, max(c.bit_length() for c in t.values())) + 8 > self.W:
            # divide out what is common
            return self.wide(p, d)
        return self.lin(t, d) >> e if e else self.lin(t, d)

    def lin(self, t, d):
        r = None
        for m, c in sorted(t.items()):
            x = z3.BitVecVal(c, self.W)
            if m:
                x = None
                for i in m:
                    y = self.atom(i, d)
                    x = y if x is None else x * y
                if c != 1:
                    x = -x if c == -1 else x << v2(c) if c > 0 and c & (c - 1) == 0 else x * c
            r = x if r is None else r + x
        return r

    def wide(self, p, d):
        """(sum c*m) >> e with large coefficients: evaluated in a wider vector"""
        need = 0
        for m, c in p.t.items():
            l, h = self.c.monoiv(m)
            need += max(abs(c * l), abs(c * h))
        w = max(need.bit_length() + 4, self.W)
        if w > 4096:
            raise Unsup("wide term")
        r = None
        for m, c in sorted(p.t.items()):
            if len(m) > 1:
                raise Unsup("product in a wide term")
            x = z3.BitVecVal(c, w)
            if m:
                y = z3.SignExt(w - self.W, self.atom(m[0], d)) if w > self.W else self.atom(m[0], d)
                x = y if c == 1 else y << v2(c) if c > 0 and c & (c - 1) == 0 else y * c
            r = x if r is None else r + x
        if p.e:
            r = r >> p.e
        if bits(p) + 1 > self.W:
            raise Unsup("wide value")
        return z3.Extract(self.W - 1, 0, r) if w > self.W else r

    def atom(self, i, d):
        v = self.memo.get(i)
        if v is None:
            v = self.memo[i] = self._atom(self.c.atoms[i], d)
        return v

    def _atom(self, a, d):
        c, k = self.c, a.kind
        if k in ("var", "opaque"):
            return self.cut(a)
        if k == "mod":
            n, w = a.args
            for i, (E, e, lo, hi, mark, h) in self.anch.items():
                if mark in n.t:
                    r = self.combine(n, w, E, mark)
                    if r is not None:
                        return self.modh(r[0], e, h, r[1], w, d)
            if all(len(m) <= 1 for m in n.t) and (all(c.atoms[j].kind in ("var", "opaque") for m in n.t for j in m)
                                                  or any(j in self.anch for m in n.t for j in m) or d < self.depth):
                return self.modh(0, 0, None, n.t, w, d + 1)
            return self.modcut(a)
        if k in ("xor", "and", "or") and d < self.depth:
            xs = [self.poly(x, d + 1) for x in a.args]
            r = xs[0]
            for x in xs[1:]:
                r = r ^ x if k == "xor" else r & x if k == "and" else r | x
            return r
        if k == "def":
            return self.poly(a.args, d)
        if k == "neg":
            return z3.If(self.poly(a.args, d) < 0, z3.BitVecVal(1, self.W), z3.BitVecVal(0, self.W))
        return self.cut(a)

    def combine(self, n, w, E, mark):
        """n = t * E + rest (modulo 2^w), rest without products"""
        c, M = self.c, 1 << w

        def minus(p, q, t):
            out = dict(p)
            for x, y in q.items():
                z = (out.get(x, 0) - t * y) % M
                if z:
                    out[x] = z
                else:
                    out.pop(x, None)
            return out
        for x, y in E.t.items():           # E contains a remainder b = X mod 2^k, and n contains both E and X
            if len(x) == 1 and y & 1 and c.atoms[x[0]].kind == "mod":
                X, k = c.atoms[x[0]].args
                if mark not in X.t or X.e:
                    continue
                xm, nl = X.t[mark], n.t.get(x, 0)
                A, B = (E.t[mark] + xm * y) % M, (n.t[mark] + xm * nl) % M
                if not A:
                    continue
                v = v2(A)
                if B & ((1 << v) - 1):
                    continue
                t = (B >> v) * pow(A >> v, -1, M >> v) % (M >> v)
                u = (t * y - nl) % M
                if u and v2(u) + k < w:
                    continue
                rest = minus(minus(minus(n.t, E.t, t), X.t, u), {x: 1}, -u)
                if x not in rest and not any(len(z) > 1 for z in rest):
                    return t, rest
        t = n.t[mark] * pow(E.t[mark], -1, M) % M
        rest = minus(n.t, E.t, t)
        return None if any(len(x) > 1 for x in rest) else (t, rest)

    def modcut(self, a):
        """a free variable, unless it is the low part of another one"""
        c = self.c
        n, w = a.args
        p = c.of_atom(a)
        for b in self.cand:
            if b.args[1] <= w:
                break
            if c.simeq(c.of_atom(b), p, w) and c.mod(c.of_atom(b), w) is p:
                if b.id not in self.cuts:
                    self.memo[b.id] = self.cut(b)
                    self.cuts[b.id] = self.vars["a%d" % b.id]
                return z3.ZeroExt(self.W - w, z3.Extract(w - 1, 0, self.cuts[b.id]))
        if a.id not in self.cuts:
            v = self.cut(a)
            self.cuts[a.id] = self.vars["a%d" % a.id]
            return v
        return self.memo[a.id]

    def modh(self, t, e, h, rest, w, d):
        """(t * 2^e * h + rest) mod 2^w"""
        g = min([v2(y) for y in rest.values()] + ([v2(t) + e] if t else []) + [w])
        k = w - g
        if k > self.W:
            raise Unsup("wide residue")
        r = z3.BitVecVal(0, k)
        if t:
            r = z3.Extract(k - 1, 0, h) * ((t << e) >> g)
        for m, y in sorted(rest.items()):
            y >>= g
            x = z3.BitVecVal(y, k)
            if len(m) > 1:
                raise Unsup("product in a residue")
            if m:
                z = z3.Extract(k - 1, 0, self.atom(m[0], d))
                M = 1 << k
                x = z if y == 1 else -z if y == M - 1 else z << v2(y) if y & (y - 1) == 0 else \
                    -(z << v2(M - y)) if (M - y) & (M - y - 1) == 0 else z * y
            r = r + x
        if w > self.W - 2:
            if g + k > self.W:
                raise Unsup("wide residue value")
        r = z3.ZeroExt(self.W - k, r) if self.W > k else r
        return r << g if g else r


def bits_of(lo, hi):
    return max(abs(lo), abs(hi)).bit_length() + 1
