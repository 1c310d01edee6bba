"""recomputes harness/c13_long.h with hashlib (takes a minute or two)"""
import hashlib, os
blk = bytes((((i * 2654435761) & 0xffffffff) >> 24) ^ (i & 0x55) for i in range(1 << 20))
out = ["/* made by ref/longs.py with Python's hashlib */", "static const struct { int alg, sh, extra; const char *hex; } LONGS[] = {"]
for a, mk in enumerate((hashlib.sha256, hashlib.sha512, hashlib.shake_256)):
    for sh in (29, 32):
        for e in (-1, 0, 1, 137):
            pass
        h = mk()
        for _ in range((1 << sh >> 20) - 1):
            h.update(blk)
        pos = (1 << sh) - (1 << 20)
        for e in (-1, 0, 1, 137):
            end = (1 << sh) + e
            o = pos & 0xfffff
            h.update((blk + blk)[o:o + end - pos])
            pos = end
            out.append(f'    {{ {a}, {sh}, {e}, "{h.copy().hexdigest(40) if a == 2 else h.copy().hexdigest()}" }},')
out.append("};")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "c13_long.h"), "w").write("\n".join(out) + "\n")
