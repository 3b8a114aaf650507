#!/usr/bin/env python3
"""Cross-checks the reference models against hashlib (OpenSSL) and, when present, libxxhash."""
import hashlib, subprocess, sys, os, ctypes
exe = sys.argv[1]
def data(n):
    x = (n * 2654435761 + 12345) & 0xffffffff; r = bytearray()
    for _ in range(n):
        x = (x * 1664525 + 1013904223) & 0xffffffff; r.append(x >> 24)
    return bytes(r)
try:
    xx = ctypes.CDLL("libxxhash.so.0")
    xx.XXH32.restype = ctypes.c_uint32; xx.XXH32.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_uint32]
    xx.XXH64.restype = ctypes.c_uint64; xx.XXH64.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_uint64]
except OSError:
    xx = None
lines = []; exp = []
sizes = list(range(0, 300)) + [511, 512, 1000, 4096, 70000]
for n in sizes:
    d = data(n)
    for chunk in (0, 1, 7):
        if chunk and n > 5000: continue
        for name, p in (("sha224", (0,224,0,0,0)), ("sha256", (0,256,0,0,0)), ("sha384", (1,384,0,0,0)), ("sha512", (1,512,0,0,0)),
                        ("sha512_224", (1,224,0,0,224)), ("sha512_256", (1,256,0,0,256)),
                        ("sha3_224", (2,224,144,6,0)), ("sha3_256", (2,256,136,6,0)), ("sha3_384", (2,384,104,6,0)), ("sha3_512", (2,512,72,6,0))):
            lines.append("%d %d %d %d %d 0 %d %d 0" % (*p, n, chunk)); exp.append(hashlib.new(name, d).hexdigest())
        for name, rate in (("shake_128", 168), ("shake_256", 136)):
            for out in (1, rate, rate + 1, 500):
                lines.append("2 0 %d 31 0 0 %d %d %d" % (rate, n, chunk, out)); exp.append(hashlib.new(name, d).hexdigest(out))
        if xx:
            for seed in (0, 42, 0x9e3779b1, 0xfedcba9876543210):
                lines.append("3 0 0 0 0 %d %d %d 0" % (seed & 0xffffffff, n, chunk)); exp.append("%08x" % xx.XXH32(d, n, seed & 0xffffffff))
                lines.append("4 0 0 0 0 %d %d %d 0" % (seed, n, chunk)); exp.append("%016x" % xx.XXH64(d, n, seed))
got = subprocess.run([exe], input="\n".join(lines), capture_output=True, text=True, check=True).stdout.split()
assert len(got) == len(exp)
bad = [(l, g, e) for l, g, e in zip(lines, got, exp) if g != e]
print("reference self-test:", len(exp), "vectors,", len(bad), "differ", "(libxxhash %s)" % ("used" if xx else "absent"))
if bad: print(bad[0]); sys.exit(1)
