"""S01: a sample is rebuilt bit for bit from its SRS and the main file."""
import os, re
from mon import media
from mon.core import Group, files, read, short
import resample.srs as srs

PROPERTY = "S01"
RULE = ("A main file and a sample with a piece of its streams are generated per container (AVI, MKV, MP4, WMV, FLAC, "
        "MP3, plain streams) with random layouts; the SRS is made with and without the check against the main file; "
        "a case is non-trivial when the SRS was made and the sample was rebuilt, and its class is the container, the "
        "layout features of both files and the options used.")
ASSUMPTIONS = ["the first 256 bytes of each stream of the sample are found in the main file at the place of the piece "
               "before anywhere else: the SRS format stores no more than that", "attachments of a Matroska main file "
               "include those of the sample", "music is fingerprinted by a stand-in for the fpcalc program"]


def make(ctx, m, opts=None, name=None):
    """write the files; create the SRS.  -> (sample path, main path, srs path, options)"""
    rng = ctx.rng
    stem = media.stem(rng) if name is None else name
    sp = ctx.write(os.path.join("s", stem + m.ext), m.data)
    mp = ctx.write(os.path.join("m", rng.choice(["movie", "grp-cd1", "a b"]) + m.ext.lower()), m.main)
    ctx.mkdir("srs")
    if opts is None:
        opts = []
        if rng.random() < 0.4:
            opts += ["-c", mp]
        if rng.random() < 0.15:
            opts += ["-b"]
        if rng.random() < 0.2:
            opts += ["-y"]
    srsp = ctx.path("srs", stem + ".srs")
    argv = [sp, "-o", ctx.path("srs") if rng.random() < 0.6 else srsp] + opts
    o = ctx.call(srs.main, argv)
    ctx.note.update(m.describe(), opts=opts, stem=stem)
    return sp, mp, srsp, opts, o


def last(o):
    return (o.out[-500:] + " | " + o.err[-700:] + " | " + o.tb[-1500:])


def roundtrip(ctx, fmt, big=False):
    media.setup(ctx)
    m = media.make(ctx.rng, fmt, big)
    before = None
    sp, mp, srsp, opts, o = make(ctx, m)
    ctx.check(o.exc is None and o.exit in (0, None), "no SRS made of a well formed %s sample: %s" % (fmt, o.brief()),
              "create", info=last(o))
    ctx.check(os.path.isfile(srsp), "no SRS although the exit code is zero", info=last(o))
    ctx.equal(sorted(os.listdir(ctx.path("srs"))), [os.path.basename(srsp)], "files where the SRS goes")
    srsb = read(srsp)
    out = ctx.path("out")
    ro = []
    if ctx.rng.random() < 0.4:
        ro += ["-m"]
    if ctx.rng.random() < 0.5:
        ro += ["-y"]
    o = ctx.call(srs.main, [srsp, mp, "-o", out] + ro)
    ctx.note.update(ropts=ro)
    ctx.check(o.exc is None and o.exit in (0, None), "rebuilding failed (%s): %s" % (fmt, o.brief()), "rebuild",
              info=last(o))
    got = files(out)
    ctx.equal(sorted(got), [os.path.basename(sp)], "files in the output folder")
    ctx.check(got[os.path.basename(sp)] == m.data, "the rebuilt sample differs from the sample (%d for %d bytes)" % (
        len(got[os.path.basename(sp)]), len(m.data)), "bytes")
    ctx.check(read(mp) == m.main and read(srsp) == srsb and read(sp) == m.data, "an input file was changed")
    ctx.equal(files(ctx.path("tmp")), {}, "temporary files left")
    ctx.count("rebuilt")
    ctx.count("stream_bytes", sum(map(len, m.tracks.values())))
    ctx.klass(fmt, "-c" in opts, "-b" in opts, "-m" in ro, *("%s=%s" % (k, v) for k, v in sorted(m.info.items())
                                                          if not isinstance(v, (list, set))))
    ctx.sample(m.describe())


def grp(fmt, quick, thorough):
    return Group(fmt, lambda ctx: roundtrip(ctx, fmt, ctx.tier == "thorough" and ctx.rng.random() < 0.2),
                 quick=quick, thorough=thorough, need={"rebuilt": quick})


GROUPS = [grp("avi", 400, 8000), grp("mkv", 500, 12000), grp("mp4", 400, 8000), grp("wmv", 400, 8000),
          grp("flac", 150, 3000), grp("mp3", 200, 4000), grp("stream", 150, 3000)]
