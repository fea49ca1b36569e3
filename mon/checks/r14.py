"""R14: the video hash stored is the one defined for the archived file."""
import io, os, struct
from mon import rargen, srrlib, srrparse
from mon.core import Group, read
import rescene
from rescene import osohash

PROPERTY = "R14"
RULE = ("sets with video files of sizes around 64 and 128 KiB and contents near the word limits, in every naming "
        "scheme and volume size; class = size bucket, kind of extension, volumes spanned, path, sets")
ASSUMPTIONS = ["RAR writer and SRR reader of the harness; reference hash = size + first and last 64 KiB as 64 bit "
               "little endian words modulo 2^64"]
VIDEO = [".mp4", ".m4v", ".avi", ".mkv", ".wmv", ".vob", ".m2ts", ".ts", ".mpeg", ".mpg", ".m2v", ".m2p"]
OTHER = [".iso", ".bin", ".nfo", ".mp3", ".flac", ".rar", ".avix", ".txt", ""]
K = 65536


def ref(data):
    h = len(data) + sum(struct.unpack("<8192Q", data[:K])) + sum(struct.unpack("<8192Q", data[-K:]))
    return "%016x" % (h & 0xFFFFFFFFFFFFFFFF)


def content(rng, n):
    how = rng.choice(["rand", "rand", "ff", "zero", "tail"])
    if how == "rand":
        return rng.randbytes(n)
    if how == "ff":
        return b"\xff" * n
    if how == "zero":
        return bytes(n)
    return bytes(max(0, n - 100)) + rng.randbytes(min(n, 100))


def size(rng):
    return rng.choice([0, 1, 4096, K - 1, K, K, K + 1, K + 8, 2 * K - 1, 2 * K, 2 * K + 1, 100001, 3 * K + 5,
                       rng.randint(K, 300000)])


def stored(ctx):
    rng = ctx.rng
    nsets = rng.choice([1, 1, 2])
    r = srrlib.Release(ctx)
    want = {}
    classes = []
    for i in range(nsets):
        fs = []
        for j in range(rng.choice([1, 2, 3])):
            ext = rng.choice(VIDEO) if rng.random() < 0.8 else rng.choice(OTHER)
            vid = ext in VIDEO
            if rng.random() < 0.3:
                ext = ext.upper()
            n = size(rng)
            nm = rng.choice(["", "", "sub/", "a/b c/"]) + "v%d-%d%s%s" % (i, j, rng.choice(["", ".x", " s", "\u00e9"]), ext)
            f = rargen.AFile(nm, content(rng, n), uni="\u00e9" in nm)
            fs.append(f)
            if vid and n >= K:
                want.setdefault(nm.split("/")[-1], []).append((ref(f.data), n))
            classes.append((vid, min(n // 8192, 20), "/" in nm))
        up = rng.random() < 0.2
        s = rargen.make_set(rng, base="rel-cd%d" % i, files=fs, upper=up, nvol_hint=rng.choice([1, 2, 3, 5, 9]))
        r.sets.append(("", s))
        s.write(r.root)
        if rng.random() < 0.5:
            data = s.sfv(rng.choice([None, lambda v: v.reverse()]))
            if up and rng.random() < 0.5:
                data = data.lower()
            p = "rel-cd%d.sfv" % i
            ctx.write(os.path.join(r.root, p), data)
            r.sfvs.append(p)
            r.extra[p] = data
        else:
            r.sfvs.append(None)
    ctx.note["release"] = r.describe()
    # also an archived file with the same name in a second folder: two files
    srr = srrlib.make_srr(ctx, r, rng.random() < 0.5)
    p = srrlib.parse(ctx, srr)
    got = {}
    for nm, sz, hx in norm(p.oso):
        got.setdefault(nm, []).append((hx, sz))
    ctx.equal(dict((k, sorted(v)) for k, v in got.items()), dict((k, sorted(v)) for k, v in want.items()),
              "video hashes in the SRR")
    # the listing gives the same
    info = ctx.must(rescene.info, srr)
    got2 = {}
    for nm, hx, sz in info["oso_hashes"]:
        got2.setdefault(nm, []).append((hx, sz))
    ctx.equal(dict((k, sorted(v)) for k, v in got2.items()), dict((k, sorted(v)) for k, v in want.items()),
              "video hashes listed")
    ctx.count("hashes", sum(map(len, want.values())))
    # not asked for
    p2 = srrlib.parse(ctx, srrlib.make_srr(ctx, r, False, name="no.srr", oso=False))
    ctx.check(not p2.oso, "hashes stored although not asked for")
    for c in classes:
        ctx.klass(nsets, r.sets[0][1].opt["new"], *c)
    ctx.sample(r.describe())


def norm(oso):
    """[(name, size, hex)]"""
    out = []
    for o in oso:
        d = list(o)
        out.append((d[0], d[1], d[2] if isinstance(d[2], str) else "%016x" % d[2]))
    return out


def direct(ctx):
    rng = ctx.rng
    n = size(rng)
    data = content(rng, n)
    if rng.random() < 0.3 and n >= K:
        # the sum wraps many times and ends near the limits
        k = rng.choice([0, 1, (1 << 64) - 1])
        b = bytearray(data)
        b[-8:] = bytes(8)
        if n >= 2 * K:
            cur = int(ref(bytes(b)), 16)
            b[-8:] = struct.pack("<Q", (k - cur) & ((1 << 64) - 1))
            ctx.equal(ref(bytes(b)), "%016x" % k, "harness")
        data = bytes(b)
    p = ctx.write("v.avi", data)
    fs = [rargen.AFile("first.nfo", b"x" * 100), rargen.AFile("dir/v.avi", data), rargen.AFile("z.avi", b"z" * 70000)]
    s = rargen.make_set(rng, base="rel", files=fs, nvol_hint=rng.choice([1, 2, 4, 9]))
    s.write(ctx.mkdir("set"))
    first = ctx.path("set", s.volumes[0].name)
    start = [v for v in s.volumes if any(f is fs[1] for f, _, _ in v.files)][0]
    how = {"file": lambda: osohash.compute_hash(p),
           "open": lambda: osohash.compute_hash(open(p, "rb")),
           "bytes": lambda: osohash.compute_hash(io.BytesIO(data)),
           "rar": lambda: osohash.osohash_from(first, "dir/v.avi"),
           "middle": lambda: osohash.osohash_from(ctx.path("set", start.name), "dir/v.avi", True)}
    for k in sorted(how):
        o = ctx.call(how[k])
        if n < K:
            ctx.check(isinstance(o.exc, ValueError), "%s: hash of a file of %d bytes: %s" % (k, n, o.brief()))
            ctx.count("too_small")
        else:
            ctx.check(o.ok, "%s: %s" % (k, o.brief()))
            ctx.equal(o.value, (ref(data), n), "hash by %s" % k)
        ctx.klass(k, min(n // 4096, 60), s.opt["new"])
    ctx.equal(read(p), data, "the file itself")
    ctx.sample(dict(size=n, set=s.describe()))


GROUPS = [Group("stored", stored, 220, 4000, {"hashes": 100}), Group("direct", direct, 200, 4000, {"too_small": 20})]
