"""Compares sx/spec.py (the oracle of C22) with hashlib and with published test vectors. Run by tools/setup.sh."""
import hashlib
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from sx import spec
H = bytes.fromhex
for n in range(0, 400):
    m = bytes((7 * i + n) & 255 for i in range(n))
    assert bytes(spec.sha512(m)) == hashlib.sha512(m).digest(), n
# RFC 8439, section 2.5.2 and A.3
assert bytes(spec.poly1305(list(b"Cryptographic Forum Research Group"),
                           list(H("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b")))) == H("a8061dc1305136c6c22b8baf0c0127a9")
for k, m, t in (("02" + "00" * 31, "ff" * 16, "03" + "00" * 15), ("02" + "00" * 15 + "ff" * 16, "02" + "00" * 15, "03" + "00" * 15),
                ("01" + "00" * 31, "ff" * 16 + "f0" + "ff" * 15 + "11" + "00" * 15, "05" + "00" * 15),
                ("01" + "00" * 31, "ff" * 16 + "fb" + "fe" * 15 + "01" * 16, "00" * 16),
                ("02" + "00" * 31, "fd" + "ff" * 15, "fa" + "ff" * 15)):
    assert bytes(spec.poly1305(list(H(m)), list(H(k)))) == H(t), (k, m)
# NaCl, tests/core1 (the shared secret), core2 and secretbox
key = H("1b27556473e985d462cd51197a9a46c76009549eac6474f206c4ee0844f68389")
nonce = H("69696ee955b62b73cd62bda875fc73d68219e0036b7a0b37")
assert bytes(spec.hsalsa20(list(H("4a5d9d5ba4ce2de1728e3bf480350f25e07e21c947d19e3376f09b3c1e161742")), [0] * 16)) == key
assert bytes(spec.hsalsa20(list(key), list(nonce[:16]))) == H("dc908dda0b9344a953629b733820778880f3ceb421bb61b91cbd4c3e66256ce4")
m = H("be075fc53c81f2d5cf141316ebeb0c7b5228c52a4c62cbd44b66849b64244ffce5ecbaaf33bd751a1ac728d45e6c61296cdc3c01233561f41db66cce314adb31"
      "0e3be8250c46f06dceea3a7fa1348057e2f6556ad6b1318a024a838f21af1fde048977eb48f59ffd4924ca1c60902e52f0a089bc76897040e082f937763848645e0705")
c = H("f3ffc7703f9400e52a7dfb4b3d3305d98e993b9f48681273c29650ba32fc76ce48332ea7164d96a4476fb8c531a1186ac0dfc17c98dce87b4da7f011ec48c972"
      "71d2c20f9b928fe2270d6fb863d51738b48eeee314a7cc8ab932164548e526ae90224368517acfeabd6bb3732bc0e9da99832b61ca01b6de56244a9e88d5f9b3"
      "7973f622a43d14a6599b1f654cb45a74e355a5")
assert bytes(spec.secretbox(list(m), list(nonce), list(key))) == c
# NaCl, tests/stream3
assert bytes(spec.xsalsa20(list(key), list(nonce), 32)) == H("eea6a7251c1e72916d11c2cb214d3c252539121d8e234e652d651fa4c8cff880")
if "long" in sys.argv:      # NaCl, tests/stream4's key stream over 4 MB (about 30 s)
    assert hashlib.sha256(bytes(spec.xsalsa20(list(key), list(nonce), 4194304))).hexdigest() \
        == "662b9d0e3463029156069b12f918691a98f7dfb2ca0393c96bbfc6b1fbd630a2"
print("spec ok")
