"""The 64-bit arithmetic of spec/I64.tla, with and without its Java accelerators, against Python's integers."""
import json, os, random, tempfile
from asmcase import limbs, codes
from tla import run_tlc, WORK
M = (1 << 64) - 1
def sg(x):
    x &= M
    return x - (1 << 64) if x >> 63 else x
def cases(n=150):
    r = random.Random(5)
    edge = [0, 1, 2, -1, -2, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 63) - 1, -(1 << 63), 0xFFFF, 0x10000, -0x8000, 10, 100]
    out = []
    for i in range(n):
        x = sg(r.choice(edge) if r.random() < .5 else r.randrange(-(1 << 63), 1 << 63) >> r.randrange(60))
        y = sg(r.choice(edge) if r.random() < .5 else r.randrange(-(1 << 63), 1 << 63) >> r.randrange(60))
        k = r.randrange(64)
        ux, uy = x & M, y & M
        t = dict(x=limbs(x), y=limbs(y), n=k, add=limbs(x + y), sub=limbs(x - y), mul=limbs(x * y), lt=x < y, shl=limbs(x << k), shr=limbs(ux >> k),
                 dec=codes(str(x)), hex=codes("%X" % ux), **{"and": limbs(x & y), "or": limbs(x | y), "xor": limbs(x ^ y)})
        if y:
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            t.update(udiv=limbs(ux // uy), umod=limbs(ux % uy), div=limbs(q), mod=limbs(x - q * y))
        else:
            t.update(udiv=limbs(0), umod=limbs(0), div=limbs(0), mod=limbs(0))
        out.append(t)
    return out
def run():
    os.makedirs(WORK, exist_ok=True)
    fd, p = tempfile.mkstemp(suffix=".json", dir=WORK)
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(cases(), f)
        for accel in (True, False):
            run_tlc("I64Test", {"CASES": p}, timeout=300, accel=accel)
    finally:
        os.unlink(p)
if __name__ == "__main__":
    run()
