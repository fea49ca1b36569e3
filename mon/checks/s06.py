"""S06: SRS creation with a check against the main file fails when the sample is not in it."""
import os
from mon import media, rargen
from mon.core import Group, files, read, difftree, short
from mon.checks.s01 import last
from mon.checks.s02 import volumes
from mon.checks.s03 import load
import resample.srs as srs

PROPERTY = "S06"
RULE = ("A generated sample is profiled with the check against a main file, plain or in RAR volumes: the right one, or one that "
        "provably lacks the first 256 bytes of at least one of the sample's streams (one byte of them changed, cut off in the "
        "middle of them, another film, another film whose stream ends with their beginning, the streams of the tracks swapped, "
        "another container), with and without an SRS already there. A case is non-trivial when the tool answered as the truth of "
        "the pair demands; its class is the container, the kind of main file, the damaged track and the exit code.")
ASSUMPTIONS = ["the check concerns the stored signatures: the first 256 bytes of each stream of the sample",
               "a plain stream sample is not checked against a main file of another known format: the tool says it skips"]
NEED = 24   # shorter signatures can occur by chance


def place(main, sig, rng, at=None):
    """an offset in main at which a piece of the signature is, and nowhere else"""
    js = [0] if at == 0 else [rng.randrange(max(1, len(sig) - 12)) for _ in range(12)]
    for j in js:
        piece = sig[j:j + 12]
        if len(piece) == 12 and main.count(piece) == 1:
            return main.find(piece) + rng.randrange(12), j
    return None, None


def wrong(ctx, m, big):
    """-> (main bytes, extension, kind) that lacks a signature of the sample, or None"""
    rng = ctx.rng
    sigs = dict((nr, d[:256]) for nr, d in m.tracks.items() if len(d) >= NEED)
    if not sigs:
        return None
    kind = rng.choice(["byte", "byte", "byte", "cut", "cut", "other", "tail", "tail", "tail", "format"])
    nr = rng.choice(sorted(sigs))
    sig = sigs[nr]
    ctx.note.update(kind=kind, track=nr)
    if kind == "byte":
        p, j = place(m.main, sig, rng)
        if p is None:
            return None
        b = bytearray(m.main)
        b[p] ^= 1 << rng.randrange(8)
        return bytes(b), m.ext, kind
    if kind == "cut":
        p, j = place(m.main, sig, rng)
        if p is None:
            return None
        return m.main[:p], m.ext, kind
    if kind == "format":
        o = media.make(rng, rng.choice([f for f in media.FORMATS if f != m.fmt]), False)
        return o.main, o.ext, kind
    while True:
        o = media.make(rng, m.fmt, big)
        if o.ext.lower() == m.ext.lower() or m.fmt not in ("mp3", "stream"):
            break
    if kind == "tail":  # the stream ends with the first bytes of what is looked for
        s = o.streams.get(nr, b"")
        end = s[-16:]
        if len(end) < 16 or o.main.count(end) != 1 or m.fmt in ("mp3", "flac"):
            kind = "other"
        else:
            k = rng.choice([1, 1, 2, 5, 15, 16])
            p = o.main.find(end)
            b = bytearray(o.main)
            b[p + 16 - k:p + 16] = sig[:k]
            o.main = bytes(b)
    if sig in o.main:
        return None
    return o.main, o.ext, kind


def case(ctx, fmt, big=False):
    media.setup(ctx)
    rng = ctx.rng
    m = media.make(rng, fmt, big)
    stem = media.stem(rng)
    sp = ctx.write(os.path.join("s", stem + m.ext), m.data)
    w = wrong(ctx, m, big) if rng.random() < 0.7 else None
    main, ext, kind = w or (m.main, m.ext, "right")
    where = "plain"
    if rng.random() < 0.3 and len(main) > 100 and kind != "format":
        keep, m.main = m.main, main
        rs, name, first = volumes(ctx, m, ctx.mkdir("m"))
        m.main = keep
        mp = ctx.path("m", rs.volumes[0].name)
        where = "rar"
        if kind == "right" and len(rs.volumes) > 1 and rng.random() < 0.2:      # a later volume is gone
            where = "gap"
            os.unlink(ctx.path("m", rng.choice(rs.volumes[1:]).name))
    else:
        mp = ctx.write("m/movie" + ext.lower(), main)
    out = ctx.path("srs", stem + ".srs")
    ctx.mkdir("srs")
    there = rng.random() < 0.4
    if there:
        ctx.write(os.path.join("srs", stem + ".srs"), rng.choice([b"", b"precious", b"RIFFxxxxAVI "]))
    opts = (["-y"] if there or rng.random() < 0.3 else []) + (["-b"] if rng.random() < 0.2 else [])
    before, mb = files(ctx.path("srs")), files(ctx.path("m"))
    ctx.note.update(m.describe(), kind=kind, where=where, there=there, opts=opts)
    o = ctx.call(srs.main, [sp, "-c", mp, "-o", out] + opts)
    ctx.check(files(ctx.path("m")) == mb and read(sp) == m.data, "an input file was changed")
    ctx.equal(files(ctx.path("tmp")), {}, "temporary files left")
    ok = o.exc is None and o.exit in (0, None)
    skip = fmt == "stream" and kind == "format"
    if kind == "right" and where != "gap":
        ctx.check(ok, "the check against the right main file failed (%s): %s" % (fmt, o.brief()), "refused", info=last(o))
    if ok and not skip:
        ctx.check(kind == "right", "an SRS was made although track %s is not in the main file (%s, %s)" % (
            ctx.note.get("track"), fmt, kind), "accepted", info=last(o))
    if ok:
        ctx.equal(sorted(files(ctx.path("srs"))), [stem + ".srs"], "files where the SRS goes")
        s, f, tr = load(ctx, out, "an SRS just made")
        with_data = sorted(nr for nr, d in m.tracks.items() if d)
        ctx.equal(sorted(nr for nr in tr if tr[nr].data_length), with_data, "tracks with data")
        for nr in with_data:
            if skip:
                ctx.equal(tr[nr].match_offset, 0, "match offset without a check")
                ctx.check("kipping" in o.out, "no word that the check was skipped", info=last(o))
            else:
                ctx.check(tr[nr].match_offset in m.offsets[nr], "match offset %d of track %d, expected one of %s" % (
                    tr[nr].match_offset, nr, sorted(m.offsets[nr])), "offset", info=last(o))
                ctx.count("offsets")
        ctx.count("accepted")
    else:
        d = difftree(before, files(ctx.path("srs")))
        ctx.check(d == [], "a failed creation left changes where the SRS goes: %s" % short(d), "left", info=last(o))
        ctx.check(o.exc is None and isinstance(o.exit, int), "no exit code: %s" % o.brief(), info=last(o))
        ctx.check((o.err + o.out).strip(), "no message")
        ctx.count("rejected")
        ctx.count("exit_%s" % o.exit)
    ctx.klass(fmt, kind, where, there, o.exit or 0, ctx.note.get("track") if kind in ("byte", "cut") else "", *opts)
    ctx.sample(dict(m.describe(), kind=kind, where=where))


def grp(fmt, quick):
    return Group(fmt, lambda ctx: case(ctx, fmt, ctx.tier == "thorough" and ctx.rng.random() < 0.2), quick=quick,
                 thorough=quick * 20, need={"rejected": quick // 4, "accepted": quick // 6, "offsets": quick // 6})


GROUPS = [grp("avi", 300), grp("mkv", 300), grp("mp4", 300), grp("wmv", 300), grp("flac", 150), grp("mp3", 150), grp("stream", 150)]
