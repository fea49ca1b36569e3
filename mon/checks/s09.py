"""S09: malformed media, SRS and main files: an error, in bounded work, nothing lost."""
import os, re, struct, zlib
from mon import fuzz, media
from mon.core import Group, files, read, short, difftree
from mon.checks.s01 import last
import resample.srs as srs

PROPERTY = "S09"
RULE = ("A generated sample, its SRS or its main file is mutated (biased to length and count fields, at the positions of the "
        "containers' headers, and by crafted sizes), and the sample is profiled, its SRS created, listed and rebuilt through "
        "the command line within a CPU limit hundreds of times the usual work and an address space limit; a case is "
        "non-trivial when the mutated file was read; its class is the container, the mutated file, the operation, the kind of "
        "mutation and the exit code.")
ASSUMPTIONS = ["inputs are files of a few kilobytes", "errors may be of any kind (exit code other than zero)"]
L = struct.Struct("<L").pack
HEADS = dict(avi=[b"RIFF", b"LIST", b"movi", b"idx1", b"00dc", b"01wb", b"SRSF", b"SRST", b"JUNK", b"hdrl"],
             mkv=[b"\x1a\x45\xdf\xa3", b"\x18\x53\x80\x67", b"\x1f\x43\xb6\x75", b"\xa3", b"\xa0", b"\xa1", b"\x16\x54\xae\x6b", b"\xae",
                  b"\x1f\x69\x76\x6a", b"\xc0", b"\x19\x41\xa4\x69", b"\x61\xa7", b"\x46\x5c", b"\x6d\x80"],
             mp4=[b"moov", b"mdat", b"trak", b"stsc", b"stsz", b"stco", b"co64", b"tkhd", b"ftyp", b"mdia", b"SRSF", b"SRST", b"stbl"],
             wmv=[b"\x36\x26\xb2\x75", b"\x30\x26\xb2\x75", b"\x82\x00\x00", b"SRSFILE", b"SRSTRAC", b"\xa1\xdc\xab\x8c", b"\x91\x07\xdc\xb7"],
             flac=[b"fLaC", b"ID3", b"TAG", b"s\x00", b"t\x00", b"u\x00"],
             mp3=[b"ID3", b"TAG", b"APETAGEX", b"LYRICS", b"SRSF", b"SRST", b"SRSP"],
             stream=[b"STRM", b"SRSF", b"SRST"])


def heads(fmt, data):
    out = [0]
    for h in HEADS[fmt]:
        p = data.find(h)
        n = 0
        while p >= 0 and n < 60:
            out += [p, max(0, p - 4), p + len(h)]
            p = data.find(h, p + 1)
            n += 1
    return out


def case(ctx, fmt):
    media.setup(ctx)
    rng = ctx.rng
    m = media.make(rng, fmt)
    name = "sample" + m.ext
    what = rng.choice(["sample", "sample", "srs", "srs", "main", "random"])
    out = ctx.mkdir("out")
    sp = ctx.write("s/" + name, m.data)
    mp = ctx.write("m/movie" + m.ext.lower(), m.main)
    srsp = ctx.path("srs", "sample.srs")
    ctx.mkdir("srs")

    def damage(b):
        if what == "random":
            head = m.data[:rng.choice([4, 8, 12, 16, 30, 60])]
            return head + rng.choice([rng.randbytes(rng.randint(0, 300)), bytes(rng.randint(0, 300)), b"\xff" * 50, b""]), ["random"]
        return fuzz.mutate(rng, b, heads(fmt, b))
    if what in ("sample", "random"):
        b, ops = damage(m.data)
        sp = ctx.write("s/" + name, b)
        op = rng.choice(["create", "create", "check", "info"])
        argv = [sp, "-o", srsp] + {"create": [], "check": ["-c", mp], "info": ["-i"]}[op]
    else:
        o = ctx.call(srs.main, [sp, "-o", srsp] + (["-c", mp] if rng.random() < 0.5 else []))
        ctx.check(o.exc is None and o.exit in (0, None), "no SRS made: " + o.brief(), "create", info=last(o))
        if what == "srs":
            b, ops = damage(read(srsp))
            ctx.write("srs/sample.srs", b)
            op = rng.choice(["list", "rebuild", "rebuild", "refind"])
        else:
            b, ops = damage(m.main)
            ctx.write("m/movie" + m.ext.lower(), b)
            op = rng.choice(["rebuild", "refind", "check"])
        argv = {"list": [srsp, "-l"], "rebuild": [srsp, mp, "-o", out], "refind": [srsp, mp, "-o", out, "-m"],
                "check": [sp, "-o", ctx.path("srs", "n.srs"), "-c", mp]}[op]
    ctx.note.update(m.describe(), what=what, op=op, ops=ops)
    before = files(ctx.dir)
    o = ctx.call(srs.main, argv)
    after = files(ctx.dir)
    ok = o.exc is None and o.exit in (0, None)
    ctx.check(o.exc is None, "an exception comes out of the command line: " + o.brief(), "escape", info=last(o))
    changed = [p for p in before if after.get(p) != before[p]]
    ctx.check(not changed, "an existing file was changed: %s" % changed, "changed", info=last(o))
    new = sorted(set(after) - set(before))
    made = os.path.relpath(argv[2], ctx.dir) if op in ("create", "check") else None
    if op in ("create", "check"):
        ctx.check(new == ([made] if ok else []), "exit code %s, files made: %s" % (o.exit, new), "left", info=last(o))
    elif op in ("list", "info"):
        ctx.check(new == [], "files made: %s" % new, "left", info=last(o))
    else:
        ctx.check((len(new) == 1 and os.path.dirname(new[0]) == "out") if ok else new == [], "exit code %s, files made: %s" % (o.exit, new),
                  "left", info=last(o))
        if ok:
            crc = zlib.crc32(after[new[0]]) & 0xFFFFFFFF
            ctx.check(L(crc) in after["srs/sample.srs"], "success, but the checksum of the result is not recorded in the SRS",
                      "checksum", info=last(o))
            ctx.count("rebuilt")
    ctx.count("read")
    ctx.count("exit_%s" % (o.exit or 0))
    ctx.klass(fmt, what, op, o.exit or 0, *sorted(set(x[0] if isinstance(x, tuple) else x for x in ops)))


GROUPS = [Group(f, lambda ctx, f=f: case(ctx, f), quick=q, thorough=q * 30, need={"read": q}, cpu=20)
          for f, q in (("avi", 350), ("mkv", 450), ("mp4", 400), ("wmv", 350), ("flac", 200), ("mp3", 200), ("stream", 150))]
