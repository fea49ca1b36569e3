"""Structure-blind mutation of byte strings, biased to length fields."""
import struct

INTS = [0, 1, 2, 6, 7, 8, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000,
        0xFFFFFFFE, 0xFFFFFFFF, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]


def mutate(rng, data, offsets=None, n=None):
    """(new bytes, [operations]).  offsets: interesting positions (headers)"""
    b = bytearray(data)
    ops = []
    for _ in range(n or rng.choice([1, 1, 1, 2, 3, 6])):
        if not b:
            b += bytes([rng.randrange(256)])
        if offsets and rng.random() < 0.7:
            p = min(len(b) - 1, rng.choice(offsets) + rng.randint(0, 40))
        else:
            p = rng.randrange(len(b))
        op = rng.choice(["bit", "byte", "int", "int", "int", "trunc", "del", "dup", "ins", "swap", "tail", "zero"])
        if op == "bit":
            b[p] ^= 1 << rng.randrange(8)
        elif op == "byte":
            b[p] = rng.choice([0, 1, 0x7F, 0x80, 0xFF, 0x69, 0x6A, 0x71, 0x72, 0x73, 0x74, 0x78, 0x7A, 0x7B, rng.randrange(256)])
        elif op == "int":
            w = rng.choice([1, 2, 2, 4, 4, 8])
            v = rng.choice(INTS + [len(b), len(b) - p, max(0, len(b) - p - 1), rng.getrandbits(8 * w)]) & ((1 << 8 * w) - 1)
            b[p:p + w] = v.to_bytes(w, rng.choice(["little", "little", "big"]))
        elif op == "trunc":
            del b[p:]
        elif op == "del":
            del b[p:p + rng.choice([1, 2, 7, 20, 100, len(b)])]
        elif op == "dup":
            n2 = rng.choice([1, 7, 13, 40, 300])
            b[p:p] = b[p:p + n2]
        elif op == "ins":
            b[p:p] = rng.randbytes(rng.choice([1, 2, 7, 30]))
        elif op == "swap":
            q = rng.randrange(len(b))
            k = rng.choice([1, 4, 13, 40])
            x, y = bytes(b[p:p + k]), bytes(b[q:q + k])
            if p + k <= q or q + k <= p:
                b[p:p + len(y)] = y
                b[q:q + len(x)] = x
        elif op == "tail":
            b += rng.randbytes(rng.choice([1, 3, 6, 7, 8, 50]))
        elif op == "zero":
            k = rng.choice([4, 16, 64])
            b[p:p + k] = bytes(len(b[p:p + k]))
        ops.append((op, p))
    return bytes(b), ops
