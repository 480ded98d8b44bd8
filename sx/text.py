"""decode() of symbolic bytes and symbolic regular-expression matching (existence of a match, as a formula)."""
import re
import re._parser as sre_parse
import re._constants as sc
import z3
from . import core
from .core import (SymStr, SymBytes, SymByteArray, SymView, mkstr, mkint, elem_to_int, all_elems, Unsupported,
                   mkbool, as_z3)


def decode(x, encoding="utf-8", errors="strict"):
    enc = encoding.lower().replace("-", "").replace("_", "")
    els = all_elems(x)
    if all(type(e) is int for e in els):
        return bytes(els).decode(encoding, errors)
    ctx = core.CTX
    if enc in ("latin1", "iso88591"):
        return mkstr([e if type(e) is int else z3.ZeroExt(13, e) for e in els])
    if enc not in ("utf8", "ascii", "u8", "usascii"):
        return core.concretize_bytes(x, pick=True).decode(encoding, errors)
    asc = z3.And(*[z3.ULT(e, 128) if type(e) is not int else z3.BoolVal(e < 128) for e in els])
    if ctx.branch(asc):
        return mkstr([e if type(e) is int else z3.ZeroExt(13, e) for e in els])
    if enc in ("ascii", "usascii"):
        if errors == "strict":
            raise UnicodeDecodeError("ascii", b"", 0, 1, "ordinal not in range(128)")
        return core.concretize_bytes(x, pick=True).decode(encoding, errors)
    # utf-8 with at least one non-ASCII byte
    if errors == "strict" and not ctx.branch(utf8_valid(els)):
        raise UnicodeDecodeError("utf-8", b"", 0, 1, "invalid start byte")
    return core.concretize_bytes(x, pick=True).decode(encoding, errors)


def utf8_valid(els):
    n = len(els)
    b = [z3.BitVecVal(e, 8) if type(e) is int else e for e in els]

    def rng(i, lo, hi):
        return z3.And(z3.UGE(b[i], lo), z3.ULE(b[i], hi))
    ok = [None] * (n + 1)
    ok[n] = z3.BoolVal(True)
    for i in range(n - 1, -1, -1):
        alts = [z3.And(rng(i, 0, 0x7f), ok[i + 1])]
        if i + 2 <= n:
            alts.append(z3.And(rng(i, 0xc2, 0xdf), rng(i + 1, 0x80, 0xbf), ok[i + 2]))
        if i + 3 <= n:
            t3 = z3.And(rng(i + 2, 0x80, 0xbf), ok[i + 3])
            alts.append(z3.And(b[i] == 0xe0, rng(i + 1, 0xa0, 0xbf), t3))
            alts.append(z3.And(z3.Or(rng(i, 0xe1, 0xec), rng(i, 0xee, 0xef)), rng(i + 1, 0x80, 0xbf), t3))
            alts.append(z3.And(b[i] == 0xed, rng(i + 1, 0x80, 0x9f), t3))
        if i + 4 <= n:
            t4 = z3.And(rng(i + 2, 0x80, 0xbf), rng(i + 3, 0x80, 0xbf), ok[i + 4])
            alts.append(z3.And(b[i] == 0xf0, rng(i + 1, 0x90, 0xbf), t4))
            alts.append(z3.And(rng(i, 0xf1, 0xf3), rng(i + 1, 0x80, 0xbf), t4))
            alts.append(z3.And(b[i] == 0xf4, rng(i + 1, 0x80, 0x8f), t4))
        ok[i] = z3.Or(*alts)
    return ok[0]


class SymMatch:
    def __init__(self, s, whole):
        self.s, self.whole = s, whole

    def group(self, *a):
        if a in ((), (0,)) and self.whole:
            return self.s
        raise Unsupported("group of symbolic match")

    def __bool__(self):
        return True

    def span(self, *a):
        if self.whole:
            return (0, len(self.s))
        raise Unsupported("span of symbolic match")


def chars_of(s):
    if type(s) is SymStr:
        return [c if type(c) is int else mkint(c, 0, 0x10ffff) for c in s.cs], False
    return [elem_to_int(e) for e in all_elems(s)], True


CAT_ASCII = {
    sc.CATEGORY_DIGIT: [(48, 57)], sc.CATEGORY_SPACE: [(9, 13), (32, 32)],
    sc.CATEGORY_WORD: [(48, 57), (65, 90), (95, 95), (97, 122)],
}


def _ranges_unicode(cat):
    pat = {sc.CATEGORY_DIGIT: r"\d", sc.CATEGORY_SPACE: r"\s", sc.CATEGORY_WORD: r"\w"}[cat]
    r = re.compile(pat)
    out, start = [], None
    for i in range(0x250):     # decode() only produces symbolic ASCII / latin-1 code points
        if r.match(chr(i)):
            start = i if start is None else start
        elif start is not None:
            out.append((start, i - 1))
            start = None
    return out


def match(pattern, s, mode):
    """mode in match/fullmatch/search; returns SymMatch or None (forks once)."""
    flags = pattern.flags
    if flags & (re.IGNORECASE | re.VERBOSE | re.LOCALE):
        raise Unsupported("regex flags")
    tree = sre_parse.parse(pattern.pattern, flags & ~re.UNICODE if isinstance(pattern.pattern, bytes) else flags)
    cs, isbytes = chars_of(s)
    ascii_only = isbytes or bool(flags & re.ASCII)
    n = len(cs)
    F, T = z3.BoolVal(False), z3.BoolVal(True)

    def inr(c, lo, hi):
        return as_z3(core.band(c >= lo, c <= hi))

    def cat_ranges(cat):
        return CAT_ASCII[cat] if ascii_only else _ranges_unicode(cat)
    NEG = {sc.CATEGORY_NOT_DIGIT: sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_SPACE: sc.CATEGORY_SPACE,
           sc.CATEGORY_NOT_WORD: sc.CATEGORY_WORD}

    def cls(items, c):
        neg, alts = False, []
        for op, av in items:
            if op is sc.NEGATE:
                neg = True
            elif op is sc.LITERAL:
                alts.append(as_z3(core.mkbool(as_z3(c == av))))
            elif op is sc.RANGE:
                alts.append(inr(c, *av))
            elif op is sc.CATEGORY:
                if av in NEG:
                    alts.append(z3.Not(z3.Or(*[inr(c, a, b) for a, b in cat_ranges(NEG[av])])))
                else:
                    alts.append(z3.Or(*[inr(c, a, b) for a, b in cat_ranges(av)]))
            else:
                raise Unsupported("regex class %s" % op)
        r = z3.Or(*alts) if alts else F
        return z3.Not(r) if neg else r

    def seq(nodes, starts):
        """starts: dict pos->formula; returns dict"""
        for nd in nodes:
            starts = step(nd, starts)
            if not starts:
                break
        return starts

    def merge(d, j, f):
        f = z3.simplify(f)
        if z3.is_false(f):
            return
        d[j] = z3.Or(d[j], f) if j in d else f

    def one(starts, pred):
        out = {}
        for i, f in starts.items():
            if i < n:
                merge(out, i + 1, z3.And(f, pred(cs[i])))
        return out

    def step(nd, starts):
        op, av = nd
        if op is sc.LITERAL:
            return one(starts, lambda c: as_z3(c == av))
        if op is sc.NOT_LITERAL:
            return one(starts, lambda c: z3.Not(as_z3(c == av)))
        if op is sc.ANY:
            return one(starts, (lambda c: T) if flags & re.DOTALL else (lambda c: z3.Not(as_z3(c == 10))))
        if op is sc.IN:
            return one(starts, lambda c: cls(av, c))
        if op is sc.SUBPATTERN:
            return seq(av[-1], starts)
        if op is sc.BRANCH:
            out = {}
            for alt in av[1]:
                for j, f in seq(alt, dict(starts)).items():
                    merge(out, j, f)
            return out
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, "POSSESSIVE_REPEAT", None)):
            lo, hi, sub = av
            if op not in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                raise Unsupported("possessive repeat")
            out, cur, k = {}, dict(starts), 0
            if lo == 0:
                for j, f in cur.items():
                    merge(out, j, f)
            while cur and (hi is sc.MAXREPEAT or k < hi) and k <= n + lo:
                cur = seq(sub, cur)
                k += 1
                if k >= lo:
                    for j, f in cur.items():
                        merge(out, j, f)
            return out
        if op is sc.AT:
            out = {}
            for i, f in starts.items():
                if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                    g = T if i == 0 else (as_z3(cs[i - 1] == 10) if av is sc.AT_BEGINNING and flags & re.MULTILINE else F)
                elif av is sc.AT_END_STRING:
                    g = T if i == n else F
                elif av is sc.AT_END:
                    if i == n:
                        g = T
                    elif flags & re.MULTILINE or i == n - 1:
                        g = as_z3(cs[i] == 10)
                    else:
                        g = F
                else:
                    raise Unsupported("regex anchor")
                merge(out, i, z3.And(f, g))
            return out
        raise Unsupported("regex op %s" % op)

    starts = {i: T for i in range(n + 1)} if mode == "search" else {0: T}
    ends = seq(tree, starts)
    if mode == "fullmatch":
        f = ends.get(n, F)
    else:
        f = z3.Or(*ends.values()) if ends else F
    ok = core.fork_true(mkbool(f))
    return SymMatch(s, mode == "fullmatch") if ok else None
