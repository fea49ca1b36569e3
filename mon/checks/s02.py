"""S02: rebuilding works from within RAR volumes as it does from the extracted main file."""
import os
from mon import media, rargen
from mon.core import Group, files, read
from mon.checks.s01 import last
import resample.srs as srs

PROPERTY = "S02"
RULE = ("The main file of a generated sample is stored in a generated RAR set (old or new volume names, sizes that cut the "
        "file anywhere, other files before and after it, recovery records); the SRS is made with a check against the first "
        "volume and against the plain main file, and the sample is rebuilt from the first volume; a case is non-trivial "
        "when the main file was read from at least one volume, and its class is the container, the number of volumes, "
        "the volume style and the neighbours of the main file.")
ASSUMPTIONS = ["volumes store their files without compression", "the main file is the first file with a known video or music "
               "extension, or the first file of the archive", "the whole volume set is present"]
KNOWN = (".mp4", ".m4v", ".avi", ".mkv", ".wmv", ".vob", ".m2ts", ".ts", ".mpeg", ".mpg", ".m2v", ".m2p", ".mp3", ".flac")


def volumes(ctx, m, folder, plain=False):
    rng = ctx.rng
    ext = m.ext
    if ext.lower() not in KNOWN:
        first = True
    else:
        first = rng.random() < 0.6
    name = rng.choice(["movie", "grp-movie", "a b", "sub\\movie", "m.o.v"]) + ext
    inner = rargen.AFile(name, m.main)
    fs = [inner]
    if not first:
        for i in range(rng.choice([1, 1, 2])):
            fs.insert(0, rargen.AFile(rng.choice(["a%d.srt", "info%d.nfo", "e%d"]) % i, rng.randbytes(rng.choice([0, 1, 40, 3000]))))
    if rng.random() < 0.4:
        fs.append(rargen.AFile(rng.choice(["z.srt", "second" + ext, "z"]), rng.randbytes(rng.choice([1, 50, 2000]))))
    base, hint, upper = rng.choice(["rel", "grp-x", "a.b c"]), rng.choice([1, 2, 3, 5, 9, 20]), rng.random() < 0.1
    while True:
        rs = rargen.make_set(rng, base=base, files=fs, nvol_hint=hint, upper=upper)
        if name.encode() in rs.volumes[0].data:
            break  # the main file begins in the first volume
        hint = 1
    rs.write(folder)
    return rs, name, first


def create(ctx, sp, out, check):
    o = ctx.call(srs.main, [sp, "-o", out, "-c", check])
    ctx.check(o.exc is None and o.exit in (0, None) and os.path.isfile(out), "no SRS made with a check against %s: %s" % (
        "volumes" if "vol" in check else "the plain file", o.brief()), "create", info=last(o))
    return read(out)


def roundtrip(ctx, fmt, big=False):
    media.setup(ctx)
    rng = ctx.rng
    m = media.make(rng, fmt, big)
    stem = media.stem(rng)
    sp = ctx.write(os.path.join("s", stem + m.ext), m.data)
    mp = ctx.write(os.path.join("m", "movie" + m.ext), m.main)
    rs, name, first = volumes(ctx, m, ctx.mkdir("vol"))
    vp = ctx.path("vol", rs.volumes[0].name)
    ctx.note.update(m.describe(), rar=rs.opt, name=name, first=first, nvol=len(rs.volumes),
                    files=[(f.name, len(f.data)) for f in rs.files])
    ctx.mkdir("srs")
    out = ctx.path("srs", stem + ".srs")
    how = rng.choice(["plain", "check", "check"])
    if how == "plain":
        o = ctx.call(srs.main, [sp, "-o", out])
        ctx.check(o.exc is None and o.exit in (0, None) and os.path.isfile(out), "no SRS made: " + o.brief(), "create", info=last(o))
    else:
        a = create(ctx, sp, out, vp)
        b = create(ctx, sp, ctx.path("plain.srs"), mp)
        ctx.check(a == b, "the SRS made with a check against volumes differs from the one checked against the plain file",
                  "offsets")
    ro = ["-m"] if rng.random() < 0.4 else []
    before = files(ctx.path("vol"))
    o = ctx.call(srs.main, [out, vp, "-o", ctx.path("out")] + ro)
    ctx.check(o.exc is None and o.exit in (0, None), "rebuilding from volumes failed (%s): %s" % (fmt, o.brief()), "rebuild",
              info=last(o))
    got = files(ctx.path("out"))
    ctx.equal(sorted(got), [os.path.basename(sp)], "files in the output folder")
    ctx.check(got[os.path.basename(sp)] == m.data, "the sample rebuilt from volumes differs", "bytes")
    ctx.check(files(ctx.path("vol")) == before, "the volumes were changed")
    ctx.count("rebuilt")
    ctx.count("volumes", len(rs.volumes))
    ctx.klass(fmt, how, min(len(rs.volumes), 10), first, len(rs.files), rs.opt["new"], bool(rs.opt["rr"]), bool(ro))
    ctx.sample(dict(m.describe(), nvol=len(rs.volumes)))


def grp(fmt, quick, thorough):
    return Group(fmt, lambda ctx: roundtrip(ctx, fmt, ctx.tier == "thorough" and ctx.rng.random() < 0.2),
                 quick=quick, thorough=thorough, need={"rebuilt": quick})


GROUPS = [grp("avi", 300, 3000), grp("mkv", 300, 3000), grp("mp4", 300, 3000), grp("wmv", 300, 3000),
          grp("flac", 200, 1500), grp("mp3", 200, 1500), grp("stream", 250, 2000)]
