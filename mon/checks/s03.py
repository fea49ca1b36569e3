"""S03: what is written into an SRS is what is read back."""
import os, re, struct
from mon import media
from mon.core import Group, read, short
from mon.checks.s01 import last
import resample
import resample.srs as srs
from resample.main import FileData, TrackData, sample_class_factory, file_type_info

PROPERTY = "S03"
RULE = ("Three families: (fields) file and track records with every range of every field are encoded by an independent "
        "encoder and read by the real code, and written by the real code and decoded independently; (store) an SRS of a "
        "generated sample of each container is written with arbitrary metadata by the real code and loaded again; (truth) "
        "an SRS made by the command line is loaded and listed and compared with the known name, size, checksum, stream "
        "lengths, signatures and, when checked against the main file, match offsets. A case is non-trivial when a record "
        "was read back; its class is the container and the width of each field.")
ASSUMPTIONS = ["names have no path separators and at most 65535 bytes; lengths of 4 GiB and more are stored with the big "
               "sample flag, as the command line does"]
H, L, Q = struct.Struct("<H").pack, struct.Struct("<L").pack, struct.Struct("<Q").pack
MASK = 0xFFFFFFFF


def enc_file(flags, app, name, size, crc):
    app, name = app.encode("utf-8"), name.encode("utf-8")
    return H(flags) + H(len(app)) + app + H(len(name)) + name + Q(size) + L(crc)


def enc_track(flags, nr, length, offset, sig):
    return (H(flags) + (L if flags & 8 else H)(nr) + (Q if flags & 4 else L)(length) + Q(offset) + H(len(sig)) + sig)


def text(rng, hi=400):
    n = rng.choice([0, 1, 5, 20, 100, rng.randint(0, hi)])
    alpha = rng.choice(["abcXYZ0.- _", "abc\u00e9\u4e2d\u00df", "\U0001f600x", "\x01\x7f %&'!"])
    return "".join(rng.choice(alpha) for _ in range(n))


def width(v):
    return (v.bit_length() + 7) // 8


def num(rng, bits):
    r = rng.random()
    if r < 0.25:
        return rng.choice([0, 1, 2 ** bits - 1, 2 ** (bits - 1), 2 ** (bits - 1) - 1, 2 ** (bits // 2), 2 ** (bits // 2) - 1])
    return rng.getrandbits(rng.randint(1, bits))


def meta(rng, nr_bits=32, at=None):
    big = rng.random() < 0.5
    nr = num(rng, nr_bits)
    sig = rng.randbytes(rng.choice([0, 1, 60, 255, 256, rng.randint(0, 300), rng.randint(0, 65535)]))
    return dict(big=big, nr=nr, length=num(rng, 64 if big else 32), offset=num(rng, 64), sig=sig)


def fd(size, crc, name, flags=3):
    x = FileData(enc_file(flags, "a", "b", 1, 1))
    x.flags, x.size, x.crc32, x.sample_name, x.name = flags, size, crc, name, name
    return x


def td(m):
    t = TrackData()
    t.track_number, t.data_length, t.match_offset, t.signature_bytes = m["nr"], m["length"], m["offset"], m["sig"]
    return t


def same_file(ctx, got, name, size, crc, app, where):
    ctx.equal(got.sample_name, name, "sample name " + where)
    ctx.equal(got.name, name, "name " + where)
    ctx.equal(got.size, size, "sample size " + where)
    ctx.equal(got.crc32 & MASK, crc, "sample checksum " + where)
    ctx.equal(got.appname, app, "application name " + where)


def same_track(ctx, t, m, where):
    ctx.equal((t.track_number, t.data_length, t.match_offset, bytes(t.signature_bytes)),
              (m["nr"], m["length"], m["offset"], m["sig"]), "track " + where)


class App(object):
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = resample.APPNAME
        resample.APPNAME = self.name

    def __exit__(self, *a):
        resample.APPNAME = self.old


def fields(ctx):
    rng = ctx.rng
    for _ in range(20):
        app, name, size, crc, flags = text(rng), text(rng), num(rng, 64), num(rng, 32), rng.getrandbits(2)
        if rng.random() < 0.1:
            name = "n" * rng.choice([255, 256, 65535])
        ctx.note.update(app=app, name=name, size=size, crc=crc)
        o = ctx.call(FileData, enc_file(flags, app, name, size, crc))
        ctx.check(o.exc is None and o.exit is None, "reading a file record" + " failed: " + o.brief(), info=last(o))
        same_file(ctx, o.value, name, size, crc, app, "read from a record")
        ctx.equal(o.value.flags, flags, "flags")
        with App(app):
            o = ctx.call(fd(size, crc, name, flags).serialize)
        ctx.check(o.exc is None and o.exit is None, "writing a file record" + " failed: " + o.brief(), info=last(o))
        ctx.equal(o.value, enc_file(flags, app, name, size, crc), "the file record written")
        m = meta(rng)
        ctx.note.update(track=dict(m, sig=len(m["sig"])))
        flags = (4 if m["big"] else 0) | (8 if m["nr"] >= 65536 or rng.random() < 0.2 else 0)
        o = ctx.call(TrackData, enc_track(flags, m["nr"], m["length"], m["offset"], m["sig"]))
        ctx.check(o.exc is None and o.exit is None, "reading a track record" + " failed: " + o.brief(), info=last(o))
        same_track(ctx, o.value, m, "read from a record")
        t = td(m)
        if m["big"]:
            t.flags |= TrackData.BIG_FILE
        o = ctx.call(t.serialize)
        ctx.check(o.exc is None and o.exit is None, "writing a track record" + " failed: " + o.brief(), info=last(o))
        flags = (4 if m["big"] else 0) | (8 if m["nr"] >= 65536 else 0)
        ctx.equal(o.value, enc_track(flags, m["nr"], m["length"], m["offset"], m["sig"]), "the track record written")
        ctx.count("records", 4)
        ctx.klass("fields", width(size), width(m["nr"]), width(m["length"]), width(m["offset"]), min(len(m["sig"]), 257), m["big"])


def load(ctx, path, what):
    o = ctx.call(file_type_info, path)
    ctx.check(o.exc is None and o.exit is None, "type of " + what + " failed: " + o.brief(), info=last(o))
    s = sample_class_factory(o.value.file_type)
    ctx.check(s is not None, "the type of %s is not found (%s)" % (what, o.value.file_type))
    o = ctx.call(s.load_srs, path)
    ctx.check(o.exc is None, "%s cannot be loaded: %s" % (what, o.brief()), "load", info=last(o))
    return s, o.value[0], o.value[1]


def store(ctx, fmt):
    media.setup(ctx)
    rng = ctx.rng
    m = media.make(rng, fmt)
    sp = ctx.write("s/x" + m.ext, m.data)
    ft = file_type_info(sp).file_type
    s = sample_class_factory(ft)
    data = FileData(file_name=sp)
    o = ctx.call(s.profile_sample, data)
    ctx.check(o.exc is None and o.exit is None, "profiling a good sample" + " failed: " + o.brief(), info=last(o))
    profiled = o.value[0]
    app, name = text(rng), text(rng) or "x"
    size, crc = num(rng, 64), num(rng, 32)
    if rng.random() < 0.1:
        name = "n" * rng.choice([90, 255, 256, 16300, 16383, 65535])
    data.sample_name, data.size, data.crc32 = name, size, crc
    music = ft in ("MP3", "FLAC")
    metas, tracks = {}, type(profiled)()
    big = rng.random() < 0.5
    for i in range(1 if music or fmt == "stream" else rng.choice([1, 1, 2, 3, 8])):
        k = meta(rng)
        if music or fmt == "stream":
            k["nr"] = 1
        if not big:
            k["length"] &= MASK
        if rng.random() < 0.3:      # around the places where length fields get wider
            want = rng.choice([126, 127, 128, 254, 255, 256, 16382, 16383, 16384, 65535])
            k["sig"] = rng.randbytes(min(65535, max(0, want - 18 - (4 if big else 0) - (2 if k["nr"] > 65535 else 0) + rng.randint(-2, 2))))
        if k["nr"] in metas:
            continue
        metas[k["nr"]] = k
        t = td(k)
        if music:
            t.duration, t.fingerprint = num(rng, 32), text(rng, 3000).encode("ascii", "replace")
            k["fp"] = (t.duration, t.fingerprint)
        tracks[k["nr"]] = t
    ctx.note.update(m.describe(), app=app, name=short(name), n=len(metas), sigs=[len(k["sig"]) for k in metas.values()], big=big)
    out = ctx.path("o.srs")
    with App(app):
        o = ctx.call(s.create_srs, tracks, data, sp, out, big)
    ctx.check(o.exc is None and o.exit is None, "writing the SRS" + " failed: " + o.brief(), info=last(o))
    b = read(out)
    ctx.check(enc_file(data.flags, app, name, size, crc) in b, "the SRS does not contain the file record")
    for k in metas.values():
        flags = (4 if big else 0) | (8 if k["nr"] >= 65536 else 0)
        ctx.check(enc_track(flags, k["nr"], k["length"], k["offset"], k["sig"]) in b, "the SRS does not contain a track record")
    s2, f, tr = load(ctx, out, "an SRS just written (%s)" % fmt)
    ctx.equal(s2.file_type, ft, "type of the SRS")
    same_file(ctx, f, name, size, crc, app, "in the %s SRS" % fmt)
    ctx.equal(sorted(tr), sorted(metas), "track numbers")
    for nr, k in metas.items():
        same_track(ctx, tr[nr], k, "in the %s SRS" % fmt)
        if music:
            ctx.equal((tr[nr].duration, tr[nr].fingerprint), k["fp"], "fingerprint")
    ctx.count("stored")
    ctx.klass(fmt, big, len(metas), min(len(name), 300) // 50, *(width(k["nr"]) for k in metas.values()))


def truth(ctx, fmt):
    media.setup(ctx)
    rng = ctx.rng
    m = media.make(rng, fmt)
    stem = media.stem(rng)
    sp = ctx.write(os.path.join("s", stem + m.ext), m.data)
    mp = ctx.write("m/movie" + m.ext, m.main)
    out = ctx.path("t.srs")
    checked = rng.random() < 0.7
    o = ctx.call(srs.main, [sp, "-o", out] + (["-c", mp] if checked else []) + (["-b"] if rng.random() < 0.3 else []))
    ctx.note.update(m.describe(), checked=checked)
    ctx.check(o.exc is None and o.exit in (0, None), "no SRS made: " + o.brief(), "create", info=last(o))
    s2, f, tr = load(ctx, out, "an SRS just made")
    same_file(ctx, f, os.path.basename(sp), len(m.data), m.crc, resample.APPNAME, "in the SRS")
    with_data = dict((nr, d) for nr, d in m.tracks.items() if d)
    ctx.equal(sorted(nr for nr in tr if tr[nr].data_length), sorted(with_data), "tracks with data")
    ctx.check(set(tr) <= set(m.tracks), "tracks the sample does not have: %s" % sorted(tr))
    for nr, d in with_data.items():
        t = tr[nr]
        ctx.equal(t.data_length, len(d), "length of track %d" % nr)
        ctx.check(t.signature_bytes and d.startswith(bytes(t.signature_bytes)) and len(t.signature_bytes) >= min(256, len(d)),
                  "the signature of track %d is not the start of its data (%d bytes)" % (nr, len(t.signature_bytes)), "signature")
        if checked:
            ctx.check(t.match_offset in m.offsets[nr], "match offset %d of track %d, expected one of %s" % (
                t.match_offset, nr, sorted(m.offsets[nr])), "offset")
            ctx.count("offsets")
        else:
            ctx.equal(t.match_offset, 0, "match offset without a check")
    before = read(out)
    o = ctx.call(srs.main, [out, "-l"])
    ctx.check(o.exc is None and o.exit in (0, None), "the SRS is not listed: " + o.brief(), "list", info=last(o))
    ctx.check("Sample Name: %s\n" % os.path.basename(sp) in o.out, "the listing has another name", "list-name", info=o.out)
    size = re.search(r"^Sample Size: (.*)$", o.out, re.M)
    ctx.check(size and re.sub(r"\D", "", size.group(1)) == str(len(m.data)), "the listing has another size", "list-size", info=o.out)
    ctx.check("Sample CRC : %08X\n" % m.crc in o.out, "the listing has another checksum", "list-crc", info=o.out)
    rows = dict((int(a), int(re.sub(r"\D", "", b))) for a, b in re.findall(r"^Track +(\d+): +([\d.,']+) bytes", o.out, re.M))
    ctx.equal(rows, dict((nr, len(m.tracks[nr])) for nr in tr), "track lengths listed")
    ctx.check(read(out) == before, "listing changed the SRS")
    ctx.count("listed")
    ctx.klass("truth", fmt, checked, len(with_data), *("%s=%s" % (k, v) for k, v in sorted(m.info.items()) if not isinstance(v, (list, set))))


GROUPS = [Group("fields", fields, quick=300, thorough=6000, need={"records": 20000})]
for f, q in (("avi", 100), ("mkv", 120), ("mp4", 100), ("wmv", 100), ("flac", 60), ("mp3", 60), ("stream", 60)):
    GROUPS.append(Group("store-" + f, lambda ctx, f=f: store(ctx, f), quick=q, thorough=q * 20, need={"stored": q}))
    GROUPS.append(Group("truth-" + f, lambda ctx, f=f: truth(ctx, f), quick=q, thorough=q * 20, need={"listed": q, "offsets": q // 2}))
