"""S04: a rebuild never succeeds with wrong data."""
import os
from mon import media, rargen
from mon.core import Group, files, read, short, difftree
from mon.checks.s01 import last
import resample.srs as srs

PROPERTY = "S04"
RULE = ("The SRS of a generated sample is used with a main file that is not the right one: bytes changed, stream data replaced "
        "after an intact signature, truncated, parts removed, inserted or swapped, another film, another container, or its RAR "
        "volumes damaged, with and without a file already under the sample's name. A case is non-trivial when the rebuild was "
        "refused; its class is the container, the damage, the exit code and the options.")
ASSUMPTIONS = ["the damage is not built to keep the CRC-32 the SRS records", "with -k the user asked to keep a result that "
               "failed the check: then only the exit code is judged, and that no main file is replaced"]


def wrong_main(ctx, m, big):
    """-> (bytes, kind)"""
    rng = ctx.rng
    b = bytearray(m.main)
    nr = rng.choice([k for k, v in m.tracks.items() if v])
    at = max(m.offsets[nr])
    n = len(m.tracks[nr])
    kind = rng.choice(["flip", "flip", "flip", "head", "data", "data", "trunc", "trunc", "del", "ins", "swap", "zero", "other", "format", "junk", "early"])
    if kind == "flip":
        for _ in range(rng.choice([1, 1, 2, 5])):
            b[min(len(b) - 1, at + rng.randrange(n))] ^= 1 << rng.randrange(8)
    elif kind == "head":            # anywhere: headers, other streams
        for _ in range(rng.choice([1, 1, 2, 5])):
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    elif kind == "data":            # the signature stays
        p = at + 256 + rng.randrange(max(1, n))
        k = rng.choice([1, 4, 100, 2000])
        b[p:p + k] = rng.randbytes(len(b[p:p + k]))
    elif kind == "trunc":
        del b[rng.choice([at + rng.randrange(n + 600), rng.randrange(len(b)), len(b) - 1]):]
    elif kind == "del":
        p = rng.choice([at + rng.randrange(n), rng.randrange(len(b))])
        del b[p:p + rng.choice([1, 2, 16, 300])]
    elif kind == "ins":
        p = rng.choice([at + rng.randrange(n), rng.randrange(len(b))])
        b[p:p] = rng.randbytes(rng.choice([1, 2, 16, 300]))
    elif kind == "swap":
        p, q, k = at + rng.randrange(n), rng.randrange(len(b)), rng.choice([1, 16, 200])
        x, y = b[p:p + k], b[q:q + k]
        b[p:p + k], b[q:q + k] = y, x
    elif kind == "zero":
        p = at + rng.randrange(n)
        b[p:p + rng.choice([1, 64, 5000])] = bytes(min(len(b) - p, rng.choice([1, 64, 5000]))) if p < len(b) else b""
    elif kind == "other":
        b = media.make(rng, m.fmt, big).main
    elif kind == "format":
        b = media.make(rng, rng.choice([f for f in media.FORMATS if f != m.fmt]), False).main
    elif kind == "junk":
        b = rng.choice([b"", rng.randbytes(10), rng.randbytes(5000), bytes(20000), b[:40]])
    elif kind == "early":           # the signature's first bytes occur earlier too
        d = m.tracks[nr][:rng.choice([8, 100, 255, 256])]
        p = rng.randrange(max(1, at - len(d)))
        b[p:p + len(d)] = d
    return bytes(b), kind


def refuse(ctx, fmt, big=False):
    media.setup(ctx)
    rng = ctx.rng
    m = media.make(rng, fmt, big)
    stem = media.stem(rng)
    name = stem + m.ext
    sp = ctx.write(os.path.join("s", name), m.data)
    right = ctx.write("r/movie" + m.ext.lower(), m.main)
    srsp = ctx.path("x.srs")
    o = ctx.call(srs.main, [sp, "-o", srsp] + (["-c", right] if rng.random() < 0.6 else []))
    ctx.check(o.exc is None and o.exit in (0, None), "no SRS made: " + o.brief(), "create", info=last(o))
    b, kind = wrong_main(ctx, m, big)
    out = ctx.mkdir("out")
    where = "plain"
    inplace = fmt in ("mp3", "flac") and rng.random() < 0.4
    if inplace:
        mp = ctx.write(os.path.join("out", name), b)
        where = "inplace"
    elif rng.random() < 0.2 and len(b) > 100:
        fs = [rargen.AFile("movie" + m.ext, b)]
        rs = rargen.make_set(rng, base="rel", files=fs, nvol_hint=rng.choice([1, 3, 6]))
        rs.write(ctx.path("m"))
        mp = ctx.path("m", rs.volumes[0].name)
        where = "rar"
        if len(rs.volumes) > 1 and rng.random() < 0.4:
            where = "rar-gap"
            v = ctx.path("m", rng.choice(rs.volumes[1:]).name)
            if rng.random() < 0.5:
                os.unlink(v)
            else:
                d = read(v)
                with open(v, "wb") as f:
                    f.write(d[:rng.randrange(len(d))])
    else:
        mp = ctx.write("m/movie" + (m.ext.lower() if kind != "format" or rng.random() < 0.5 else ".bin"), b)
    there = False
    if not inplace and rng.random() < 0.5:
        there = True
        ctx.write(os.path.join("out", name), rng.choice([b"", b"precious", rng.randbytes(len(m.data))]))
    ctx.write("out/other.txt", b"x")
    opts, answers = [], None
    if rng.random() < 0.5:
        opts.append("-m")
    keep = rng.random() < 0.12
    if keep:
        opts.append("-k")
    consent = True
    if rng.random() < 0.5 or (there and rng.random() < 0.4):
        opts.append("-y")
    else:
        consent = rng.random() < 0.7
        answers = "y\n" if consent else "n\n"
    ctx.note.update(m.describe(), kind=kind, where=where, there=there, opts=opts, consent=consent, keep=keep)
    before, mains = files(out), files(ctx.path("m")) if os.path.isdir(ctx.path("m")) else {}
    srsb = read(srsp)
    o = ctx.call(srs.main, [srsp, mp, "-o", out] + opts, _answers=answers)
    after = files(out)
    ok = o.exc is None and o.exit in (0, None)
    if ok:
        ctx.check(name in after and after[name] == m.data,
                  "exit code zero although the result is not the sample (%s, %s)" % (fmt, kind), "success", info=last(o))
        ctx.check(consent or not (there or inplace), "replaced without consent")
        ctx.check(difftree({k: v for k, v in before.items() if k != name}, {k: v for k, v in after.items() if k != name}) == [],
                  "other files in the output folder changed")
        ctx.count("still_right")
    else:
        ctx.count("refused")
        if keep:
            extra = sorted(set(after) - set(before) - {name})
            if inplace:
                ctx.check(after[name] == b, "the user's track was replaced by a failed rebuild", "inplace", info=last(o))
                ctx.check(all(k.startswith(name + "-") and k.endswith(".tmp") for k in extra), "extra files %s" % extra)
            else:
                ctx.equal(extra, [], "extra files with -k")
            ctx.check(consent or name not in before or before[name] == after[name], "replaced without consent", info=last(o))
        else:
            d = difftree(before, after)
            ctx.check(d == [], "a failed rebuild (%s, %s) left changes in the output folder: %s" % (fmt, kind, short(d)),
                      "left", info=last(o))
        ctx.check(o.exc is None and isinstance(o.exit, int) and o.exit != 0, "no exit code: %s" % o.brief(), info=last(o))
        ctx.check(o.err.strip() or o.out.strip(), "no message for a failed rebuild")
        ctx.count("exit_%s" % o.exit)
        if os.environ.get("S04X") and o.exit in (99, 7):
            ctx.check(False, "exit %s %s" % (o.exit, o.err.strip().split("\n")[-1][:80]), "x", info=last(o))
        ctx.klass(fmt, kind, where, there, o.exit, *opts)
    if mains:
        ctx.check(files(ctx.path("m")) == mains, "the main file was changed")
    ctx.check(read(srsp) == srsb, "the SRS was changed")
    ctx.sample(dict(m.describe(), kind=kind))


def grp(fmt, quick):
    return Group(fmt, lambda ctx: refuse(ctx, fmt, ctx.tier == "thorough" and ctx.rng.random() < 0.2), quick=quick,
                 thorough=quick * 20, need={"refused": quick // 3})


GROUPS = [grp("avi", 250), grp("mkv", 300), grp("mp4", 250), grp("wmv", 250), grp("flac", 150), grp("mp3", 150), grp("stream", 150)]
