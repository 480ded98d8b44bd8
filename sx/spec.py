"""Reference definitions (FIPS 180-4, Salsa20/XSalsa20, Poly1305, NaCl secretbox), written on integers.

The same functions run on native integers (replay) and on the terms of poly.py (symbolic), so inputs and outputs are lists of
integer-like values.
"""
M64 = (1 << 64) - 1
M32 = (1 << 32) - 1


def _primes(n):
    out, k = [], 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out


def _root(n, k):
    """floor(n ** (1/k))"""
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n:
            lo = m
        else:
            hi = m - 1
    return lo


P80 = _primes(80)
IV = [_root(p << 128, 2) & M64 for p in P80[:8]]          # fractional parts of square roots
KS = [_root(p << 192, 3) & M64 for p in P80]              # fractional parts of cube roots


def rotr(x, c):
    return (x >> c) | ((x << (64 - c)) & M64)


def sha512(msg):
    n = len(msg)
    pad = list(msg) + [0x80] + [0] * ((111 - n) % 128)
    pad += list((8 * n).to_bytes(16, "big"))
    h = list(IV)
    for o in range(0, len(pad), 128):
        w = []
        for i in range(16):
            x = 0
            for b in pad[o + 8 * i:o + 8 * i + 8]:
                x = x * 256 + b
            w.append(x)
        for i in range(16, 80):
            a, b = w[i - 15], w[i - 2]
            s0 = rotr(a, 1) ^ rotr(a, 8) ^ (a >> 7)
            s1 = rotr(b, 19) ^ rotr(b, 61) ^ (b >> 6)
            w.append((w[i - 16] + s0 + w[i - 7] + s1) & M64)
        a, b, c, d, e, f, g, hh = h
        for i in range(80):
            s1 = rotr(e, 14) ^ rotr(e, 18) ^ rotr(e, 41)
            ch = (e & f) ^ ((e ^ M64) & g)
            t1 = (hh + s1 + ch + KS[i] + w[i]) & M64
            s0 = rotr(a, 28) ^ rotr(a, 34) ^ rotr(a, 39)
            mj = (a & b) ^ (a & c) ^ (b & c)
            a, b, c, d, e, f, g, hh = (t1 + s0 + mj) & M64, a, b, c, (d + t1) & M64, e, f, g
        h = [(x + y) & M64 for x, y in zip(h, (a, b, c, d, e, f, g, hh))]
    return [(x >> s) & 255 for x in h for s in range(56, -8, -8)]


def _rotl32(x, c):
    return ((x << c) & M32) | (x >> (32 - c))


def _le(b):
    x = 0
    for i, v in enumerate(b):
        x = x + (v << (8 * i)) if i else v
    return x


def _rounds(x):
    x = list(x)

    def qr(a, b, c, d):
        x[b] = x[b] ^ _rotl32((x[a] + x[d]) & M32, 7)
        x[c] = x[c] ^ _rotl32((x[b] + x[a]) & M32, 9)
        x[d] = x[d] ^ _rotl32((x[c] + x[b]) & M32, 13)
        x[a] = x[a] ^ _rotl32((x[d] + x[c]) & M32, 18)
    for _ in range(10):
        qr(0, 4, 8, 12), qr(5, 9, 13, 1), qr(10, 14, 2, 6), qr(15, 3, 7, 11)
        qr(0, 1, 2, 3), qr(5, 6, 7, 4), qr(10, 11, 8, 9), qr(15, 12, 13, 14)
    return x


SIGMA = [_le(b"expand 32-byte k"[i:i + 4]) for i in range(0, 16, 4)]


def _state(k, n):
    kk = [_le(k[i:i + 4]) for i in range(0, 32, 4)]
    nn = [_le(n[i:i + 4]) for i in range(0, 16, 4)]
    return [SIGMA[0]] + kk[:4] + [SIGMA[1]] + nn + [SIGMA[2]] + kk[4:] + [SIGMA[3]]


def _bytes32(x):
    return [(x >> s) & 255 for s in (0, 8, 16, 24)]


def hsalsa20(k, n):
    x = _rounds(_state(k, n))
    return [b for i in (0, 5, 10, 15, 6, 7, 8, 9) for b in _bytes32(x[i])]


def salsa20(k, n):
    s = _state(k, n)
    x = _rounds(s)
    return [b for a, c in zip(x, s) for b in _bytes32((a + c) & M32)]


def salsa20_block(k, n, ctr):
    return salsa20(k, list(n) + list(ctr.to_bytes(8, "little")))


def xsalsa20(k, n, length):
    sub = hsalsa20(k, n[:16])
    out, i = [], 0
    while len(out) < length:
        out += salsa20_block(sub, n[16:24], i)
        i += 1
    return out[:length]


P1305 = (1 << 130) - 5


def poly1305(msg, k):
    r = [k[i] for i in range(16)]
    for i in (3, 7, 11, 15):
        r[i] = r[i] & 15
    for i in (4, 8, 12):
        r[i] = r[i] & 252
    r = _le(r)
    s = _le(k[16:32])
    h = 0
    for o in range(0, len(msg), 16):
        c = _le(list(msg[o:o + 16]) + [1])
        h = ((h + c) * r) % P1305
    t = (h + s) & ((1 << 128) - 1)
    return [(t >> (8 * i)) & 255 for i in range(16)]


def secretbox(m, n, k):
    """tag followed by ciphertext"""
    ks = xsalsa20(k, n, 32 + len(m))
    c = [a ^ b for a, b in zip(m, ks[32:])]
    return poly1305(c, ks[:32]) + c


def secretbox_parts(c, n, k):
    """-> (expected tag, plaintext) of a box"""
    ks = xsalsa20(k, n, 32 + len(c) - 16)
    return poly1305(c[16:], ks[:32]), [a ^ b for a, b in zip(c[16:], ks[32:])]
