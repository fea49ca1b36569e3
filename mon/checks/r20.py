"""R20: combining checksums equals checksumming the concatenation."""
import zlib
from mon.core import Group
from rescene import crc32combine as cc

PROPERTY = "R20"
RULE = ("pieces of random and boundary lengths (empty, 1, powers of two +-1, up to 2^52 by the reference "
        "polynomial arithmetic); class = length bucket of both pieces and implementation")
ASSUMPTIONS = ["zlib.crc32 is right; for lengths too long to hash, polynomial arithmetic modulo the CRC polynomial"]
POLY = 0xEDB88320


def mulmod(a, b):
    """product of two reflected polynomials modulo P"""
    m, p = 1 << 31, 0
    while True:
        if a & m:
            p ^= b
            if not a & (m - 1):
                return p
        m >>= 1
        if not m:
            return p
        b = (b >> 1) ^ POLY if b & 1 else b >> 1


def ref_combine(c1, c2, n):
    """crc1 * x^(8 n) + crc2"""
    x, e = 0x40000000, 8 * n      # x^1
    r = 0x80000000                # 1
    while e:
        if e & 1:
            r = mulmod(r, x)
        x = mulmod(x, x)
        e >>= 1
    return (mulmod(r, c1) if c1 else 0) ^ c2


def impls():
    out = [("python", cc.crc32_combine)]
    cc._DEBUG = False
    try:
        out.append(("library", cc.crc32_combine_function()))
        out.append(("ctypes", cc.crc32_combine_ctypes))
        out[-1][1](0, 0, 0)
    except RuntimeError:
        out = out[:2]
    return out


def length(rng):
    k = rng.choice(["zero", "one", "small", "pow", "big"])
    if k == "zero":
        return 0
    if k == "one":
        return 1
    if k == "small":
        return rng.randint(2, 300)
    if k == "pow":
        return max(0, (1 << rng.randint(1, 16)) + rng.randint(-1, 1))
    return rng.randint(300, 200000)


def pieces(ctx):
    rng = ctx.rng
    fs = impls()
    for _ in range(12):
        n1, n2 = length(rng), length(rng)
        fill = rng.choice(["rand", "zero", "ff"])
        mk = {"rand": rng.randbytes, "zero": bytes, "ff": lambda n: b"\xff" * n}[fill]
        a, b = mk(n1), mk(n2)
        ca, cb, cab = zlib.crc32(a), zlib.crc32(b), zlib.crc32(a + b)
        ctx.note["case"] = (n1, n2, fill)
        for nm, f in fs:
            ctx.equal(f(ca, cb, n2), cab, "%s combine(%08x, %08x, %d)" % (nm, ca, cb, n2))
            ctx.klass(nm, n1.bit_length(), n2.bit_length(), fill)
        # three pieces, combined from the right and from the left
        c = mk(length(rng))
        cx = zlib.crc32(c)
        allc = zlib.crc32(a + b + c)
        for nm, f in fs:
            ctx.equal(f(f(ca, cb, n2), cx, len(c)), allc, nm + " three pieces from the left")
            ctx.equal(f(ca, f(cb, cx, len(c)), n2 + len(c)), allc, nm + " three pieces from the right")
    ctx.sample(dict(last=ctx.note["case"]))


def long(ctx):
    rng = ctx.rng
    fs = impls()
    for _ in range(20):
        n = rng.choice([1 << rng.randint(0, 52), (1 << rng.randint(1, 52)) - 1, rng.randrange(1, 1 << rng.randint(1, 52))])
        c1 = rng.choice([0, 1, 0xFFFFFFFF, rng.getrandbits(32), rng.getrandbits(32)])
        c2 = rng.choice([0, 0x80000000, 0xFFFFFFFF, rng.getrandbits(32), rng.getrandbits(32)])
        want = ref_combine(c1, c2, n)
        for nm, f in fs:
            ctx.equal(f(c1, c2, n), want, "%s combine(%08x, %08x, %d)" % (nm, c1, c2, n))
            ctx.klass(nm, n.bit_length(), c1 in (0, 0xFFFFFFFF), c2 in (0, 0xFFFFFFFF))
    ctx.sample(dict(length=n, crc1=c1, crc2=c2, combined=want))


GROUPS = [Group("pieces", pieces, 120, 4000, {"oracle_evaluations": 1000}),
          Group("long", long, 150, 6000)]
