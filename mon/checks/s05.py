"""S05: broken samples are refused, or their SRS still rebuilds exactly them."""
import os, struct
from mon import fuzz, media
from mon.core import Group, HarnessError, files, read
from mon.checks.s01 import last
from mon.checks.s09 import heads
import resample.srs as srs

PROPERTY = "S05"
RULE = ("A generated sample is truncated or structurally damaged and an SRS is created of it; when that succeeds the "
        "broken sample is rebuilt from its SRS with itself as the main file and, when it was only truncated, with the original main "
        "file; a case is non-trivial when the creation was decided one way or the other, and its class is the container, the "
        "damage and the outcome.")
ASSUMPTIONS = ["only creation with exit code zero counts as accepting"]


def damage(rng, m):
    b = m.data
    kind = rng.choice(["cut", "cut", "cut-end", "cut-head", "mutate", "mutate", "tail", "hole", "join", "first"])
    h = sorted(set(x for x in heads(m.fmt, b) if x < len(b)))
    if kind == "cut":
        return b[:rng.randrange(len(b))], kind
    if kind == "cut-end":
        return b[:max(0, len(b) - rng.choice([1, 1, 2, rng.randint(1, 40)]))], kind
    if kind == "cut-head":
        return b[:max(0, min(len(b) - 1, rng.choice(h) + rng.randint(-2, 12)))], kind
    if kind == "mutate":
        r, ops = fuzz.mutate(rng, b, h, rng.choice([1, 1, 2]))
        return r, kind + " " + str(ops)
    if kind == "tail":
        return b + rng.choice([rng.randbytes(rng.randint(1, 40)), bytes(rng.randint(1, 40)), b[-rng.randint(1, 60):]]), kind
    if kind == "hole":
        p = rng.choice(h)
        q = p + rng.choice([1, 4, 8, 24, 100, 1000])
        return b[:p] + b[q:], kind
    if kind == "join":
        return b + b[:rng.choice([len(b), rng.randrange(len(b))])], kind
    return b[rng.choice(h):], kind


def boxes(b, pos, end):
    while pos + 8 <= end:
        n, t = struct.unpack_from(">L4s", b, pos)
        h = 8
        if n == 1:
            n, h = struct.unpack_from(">Q", b, pos + 8)[0], 16
        elif n == 0:
            n = end - pos if t != bytes(4) else 8
        if n < h:
            return
        yield t, pos + h, min(pos + n, end)
        pos += n


def inside(b):
    """all boxes, those that hold others opened (also when the box around them is gone)"""
    pos = 0
    while pos + 8 <= len(b):
        t, s, e = next(boxes(b, pos, len(b)), (None, 0, 0))
        if t is None:
            return
        yield t, s, e
        pos = s if t in (b"moov", b"trak", b"mdia", b"minf", b"stbl") else e


def chunks_fit(b):
    """Independent reading of an MP4 file: the chunks of all tracks are exactly the contents of the mdat boxes."""
    return layout(b)[0]


def sizes_fit(b):
    """the sizes of all pieces add up to those of the mdat boxes, or it isn't clear"""
    return layout(b)[1] is not False


def layout(b):
    total, fit = 0, True
    try:
        mdats, tabs = [], []
        for t, s, e in inside(b):
            if t == b"mdat" and s < e:
                mdats.append((s, e))
            elif t == b"tkhd":
                tabs.append({})
            elif t in (b"stco", b"co64", b"stsc", b"stsz", b"stz2"):
                if not tabs or t in tabs[-1]:
                    return False, None
                tabs[-1][t] = b[s:e]
        spans = []
        for tab in tabs:
            if b"stco" in tab:
                offs = struct.unpack_from(">%dL" % struct.unpack_from(">L", tab[b"stco"], 4), tab[b"stco"], 8)
            else:
                offs = struct.unpack_from(">%dQ" % struct.unpack_from(">L", tab[b"co64"], 4), tab[b"co64"], 8)
            z, = struct.unpack_from(">L", tab[b"stsz"], 4)
            n, = struct.unpack_from(">L", tab[b"stsz"], 8)
            if n > len(b):
                return False, None
            sizes = [z] * n if z else list(struct.unpack_from(">%dL" % n, tab[b"stsz"], 12))
            per = [struct.unpack_from(">LL", tab[b"stsc"], 8 + 12 * i)
                   for i in range(struct.unpack_from(">L", tab[b"stsc"], 4)[0])]
            total += sum(sizes)
            if [p[0] for p in per] != sorted(set(p[0] for p in per)) or (per and per[0][0] != 1):
                return False, None
            for i, o in enumerate(offs):
                k = [p[1] for p in per if p[0] <= i + 1][-1]
                spans.append((o, o + sum(sizes[:k])))
                del sizes[:k]
            fit = fit and not sizes
        spans = sorted(x for x in spans if x[0] < x[1])
        out = []
        for s, e in spans:
            if out and out[-1][1] == s:
                s = out.pop()[0]
            out.append((s, e))
        return fit and out == mdats, total == sum(e - s for s, e in mdats)
    except (struct.error, KeyError, IndexError):
        return False, None


def case(ctx, fmt):
    media.setup(ctx)
    rng = ctx.rng
    m = media.make(rng, fmt)
    if fmt == "mp4" and not chunks_fit(m.data):
        raise HarnessError("chunk layout of the generated sample")
    b, kind = damage(rng, m)
    sp = ctx.write("s/sample" + m.ext, b)
    mp = ctx.write("m/movie" + m.ext.lower(), m.main)
    srsp = ctx.path("srs", "sample.srs")
    ctx.mkdir("srs")
    ctx.note.update(m.describe(), kind=kind, size=(len(m.data), len(b)))
    opts = rng.choice([[], [], ["-b"], ["-c", sp]])
    o = ctx.call(srs.main, [sp, "-o", srsp] + opts)
    ok = o.exc is None and o.exit in (0, None)
    left = files(ctx.path("srs"))
    ctx.count("decided")
    if not ok:
        ctx.check(o.exc is not None or o.exit, "no error", info=last(o))
        ctx.equal(sorted(left), [], "files left after the broken sample was refused (%s)" % o.brief())
        ctx.count("refused")
        ctx.klass(fmt, kind.split()[0], m.info.get("layout"), "refused", o.exit)
        return
    ctx.equal(sorted(left), ["sample.srs"], "files where the SRS goes")
    ctx.count("accepted")
    o = ctx.call(srs.main, [srsp, "-l"])
    ctx.check(o.exc is None and o.exit in (0, None), "accepted a broken sample (%s), but its SRS can not be read: %s" % (kind.split()[0], o.brief()),
              "mp4-chunks" if fmt == "mp4" and not chunks_fit(b) and sizes_fit(b) else "unreadable", info=last(o))
    whole = b == m.data[:len(b)]
    mains = [("itself", sp)]
    # (music is always a whole file)
    if whole and fmt not in ("flac", "mp3"):
        mains.append(("main", mp))
    for what, f in mains:
        out = ctx.path("out-" + what)
        o = ctx.call(srs.main, [srsp, f, "-o", out, "-m"])
        res = files(out) if os.path.isdir(out) else {}
        ctx.note.update(rebuild=what, opts=opts)
        ok = o.exc is None and o.exit in (0, None)
        if ok:
            ctx.check(list(res.values()) == [b], "accepted a broken sample (%s) but rebuilt something else from %s" % (kind.split()[0], what), "wrong",
                      info=last(o))
            ctx.count("rebuilt")
        else:
            ctx.equal(sorted(res), [], "files left")
            # a damaged file need not be usable as a main file
            if what == "itself" and not whole and o.exc is None and (o.exit in (2, 3, 4) or "MemoryError" in o.err):
                ctx.count("unjudged")
                continue
        ctx.check(ok, "accepted a broken sample (%s), but its SRS does not rebuild it from %s: %s" % (kind.split()[0], what, o.brief()),
                  "mp4-chunks" if fmt == "mp4" and not chunks_fit(b) and sizes_fit(b) else "useless", info=last(o))
    ctx.klass(fmt, kind.split()[0], "accepted")


GROUPS = [Group(f, lambda ctx, f=f: case(ctx, f), quick=q, thorough=q * 30, need={"decided": q}, cpu=60)
          for f, q in (("avi", 400), ("mkv", 500), ("mp4", 400), ("wmv", 400), ("flac", 250), ("mp3", 250), ("stream", 150))]
