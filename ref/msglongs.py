"""recomputes harness/c15_long.h: R and H_msg of a message of 2^32+5 bytes, with hashlib (takes minutes)"""
import hashlib, os, subprocess, tempfile
from concurrent.futures import ProcessPoolExecutor
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SETS = [("toy_shake_16", 0, 16, 2, 2, 2, 2), ("toy_shake_24", 0, 24, 3, 1, 2, 1), ("toy_shake_32", 0, 32, 2, 2, 2, 1),
        ("toy_sha2_16", 1, 16, 2, 2, 2, 2), ("toy_sha2_24", 1, 24, 3, 1, 2, 1), ("toy_sha2_32", 1, 32, 2, 2, 2, 1)]
blk = bytes((((i * 2654435761) & 0xffffffff) >> 24) ^ (i & 0x55) for i in range(1 << 20))
LEN = (1 << 32) + 5

def feed(h):
    for _ in range(LEN >> 20):
        h.update(blk)
    h.update(blk[:LEN & 0xfffff])
    return h

def one(x):
    name, fam, n, root, dl = x
    sk = bytes(range(1, 3 * n + 1)) + bytes.fromhex(root)
    prf, pk = sk[n:2 * n], sk[2 * n:]
    opt = pk[:n]
    if fam == 0:
        R = feed(hashlib.shake_256(prf + opt)).digest(n)
        return name, root, R.hex(), feed(hashlib.shake_256(R + pk)).hexdigest(dl)
    H, bs = (hashlib.sha256, 64) if n == 16 else (hashlib.sha512, 128)
    k = prf + bytes(bs - n)
    inner = feed(H(bytes(c ^ 0x36 for c in k) + opt)).digest()
    R = H(bytes(c ^ 0x5c for c in k) + inner).digest()[:n]
    h = feed(H(R + pk)).digest()
    out, i = b"", 0
    while len(out) < dl:
        out += H(R + pk[:n] + h + i.to_bytes(4, "big")).digest()
        i += 1
    return name, root, R.hex(), out[:dl].hex()

with tempfile.TemporaryDirectory() as d:
    src = '#include "ref.h"\n#include <stdio.h>\n#include <stdlib.h>\nint main(int c, char **v) { rps_t r = { .n=atoi(v[3]), .k=atoi(v[4]), .t=atoi(v[5]), .d=atoi(v[6]), .mh=atoi(v[7]), .h=atoi(v[6])*atoi(v[7]), .fam=atoi(v[2]), .sha2adr=atoi(v[2]) }; unsigned char s[96], k[128]; for (int i = 0; i < 96; i++) s[i] = i + 1; ref_keygen(&r, s, k); for (int i = 0; i < r.n; i++) printf("%02x", k[3*r.n+i]); printf(" %d\\n", ref_digest_len(&r)); }'
    open(d + "/x.c", "w").write(src)
    subprocess.check_call(["gcc", "-O2", "-w", "-I" + V + "/ref", d + "/x.c", V + "/ref/ref.c", "-o", d + "/x"])
    todo = []
    for s in SETS:
        root, dl = subprocess.check_output([d + "/x", *map(str, s)], text=True).split()
        todo.append((s[0], s[1], s[2], root, int(dl)))
with ProcessPoolExecutor(6) as ex:
    res = list(ex.map(one, todo))
with open(os.path.join(V, "harness", "c15_long.h"), "w") as f:
    f.write("/* made by ref/msglongs.py with Python's hashlib: key 01 02 03 .., deterministic, message of 2^32+5 bytes */\nstatic const struct { const char *set, *root, *R, *digest; } LONGS[] = {\n")
    for r in res:
        f.write('    { "%s", "%s", "%s", "%s" },\n' % r)
    f.write("};\n")
