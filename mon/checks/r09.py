"""R09: listing an SRR tells the truth."""
import os, re, zlib
from mon import rargen, srrlib, srrparse
from mon.core import Group, files, read
import rescene
import rescene.main as rmain
import rescene.srr
from rescene.rar import RarReader

PROPERTY = "R09"
RULE = ("SRR files made by the tool from random releases, and by the reference writer (several sets, same volume "
        "names in two folders, sizes over 4 GiB, custom packers, unicode, padding); class = source, set count, "
        "recovery kind, naming, end block, compression")
ASSUMPTIONS = ["the RAR and SRR writers of the harness", "archived names and full volume names are distinct"]


def truth_archived(sets):
    """{name with backslashes: (size, crc, compressed)} in order"""
    d = {}
    for s in sets:
        for f in s.files:
            d[f.name.replace("/", "\\")] = (len(f.data), 0 if f.directory else f.crc, f.method != 0x30)
    return d


def compare(ctx, p, app, stored, vols, arch, rrsize, oso, sfv=None):
    """vols: [(name, size, sfv crc or None)]"""
    before = read(p)
    info = ctx.must(rescene.info, p)
    ctx.equal(info["appname"], app, "application name")
    ctx.equal([(f.file_name, f.file_size) for f in info["stored_files"].values()],
              [(n, len(d)) for n, d in stored], "stored files")
    ctx.equal(list(info["stored_files"]), [n for n, d in stored], "keys of the stored files")
    ctx.equal([(f.file_name, f.file_size) for f in info["rar_files"].values()], [(n, s) for n, s, c in vols],
              "volumes with sizes")
    for f, (n, s, c) in zip(info["rar_files"].values(), vols):
        ctx.equal(getattr(f, "crc32", None), c, "SFV checksum of %s" % n)
    got = [(f.file_name, f.file_size, f.crc32, bool(f.compression)) for f in info["archived_files"].values()]
    ctx.equal(got, [(n, s, "%08X" % c, z) for n, (s, c, z) in arch.items()], "archived files")
    ctx.equal(bool(info["compression"]), any(z for _, _, z in arch.values()), "compression flag")
    ctx.equal(info["recovery"].file_size if info["recovery"] else 0, rrsize, "size of the recovery records")
    ctx.equal([(n, h, s) for n, h, s in info["oso_hashes"]], [(n, "%016x" % h, s) for n, s, h in oso], "video hashes")
    if sfv is not None:
        ctx.equal([(e.file_name, e.crc32) for e in info["sfv_entries"]], sfv[0], "SFV entries of other files")
        ctx.equal(info["sfv_comments"], sfv[1], "SFV comments")
    # the listing on the command line
    r = srrlib.cli(ctx, rescene.srr.main, ["-l", p], cwd=ctx.path())
    ctx.check(r["rc"] == 0 and not r["exc"], "srr -l ended with %r: %s" % (r["rc"], r["err"][-500:]))
    check_text(ctx, r["out"], app, stored, vols, arch, oso, sfv)
    ctx.equal(read(p), before, "the SRR after listing")


def sections(text):
    sec, cur = {}, None
    for line in text.splitlines():
        if line and not line.startswith("\t") and line.endswith(":"):
            cur = sec.setdefault(line[:-1], [])
        elif line.startswith("\t") and cur is not None:
            cur.append(line[1:])
        elif not line:
            pass
    return sec


def check_text(ctx, text, app, stored, vols, arch, oso, sfv):
    sec = sections(text)
    ctx.equal(sec.get("Creating Application"), [app or "Unknown"], "application listed")
    ctx.equal([norm(x) for x in sec.get("Stored files", [])], ["%d  %s" % (len(d), n) for n, d in stored],
              "stored files listed")
    ctx.equal(sec.get("RAR files", []), ["%s %s %d" % (n, c, s) if c else "%s %d" % (n, s) for n, s, c in vols],
              "volumes listed")
    ctx.equal(sec.get("Archived files", []), ["%s %08X %d" % (n, c, s) for n, (s, c, z) in arch.items()],
              "archived files listed")
    ctx.equal(sec.get("ISDb hashes", []), ["%s %016x %d" % (n, h, s) for n, s, h in oso], "video hashes listed")
    ctx.equal("compressed RARs" in text, any(z for _, _, z in arch.values()), "compression told")
    if sfv is not None:
        ctx.equal(sec.get("SFV comments", []), sfv[1], "SFV comments listed")
    ctx.count("listings")


def norm(line):
    m = re.match(r"\s*([\d.,' ]*\d)  (.*)$", line)
    return "%s  %s" % (re.sub(r"[^\d]", "", m.group(1)), m.group(2)) if m else line


def rr_total(s):
    return sum(len(d) for v in s.volumes for k, d in v.parts if k == "rr")


def made(ctx):
    """by the tool from a release"""
    rng = ctx.rng
    r = srrlib.release(ctx, sfv=rng.random() < 0.7, same=0.12)
    ctx.note["release"] = r.describe()
    # comments and other files in the SFV
    comments, others = [], []
    for k in [x for x in r.sfvs if x]:
        if rng.random() < 0.5:
            c = "; comment in %s %d" % (os.path.basename(k), rng.randint(0, 99))
            e = ("extra-%d.nfo" % len(others), "%08x" % rng.getrandbits(32))
            d = (c + "\r\n").encode() + r.extra[k] + ("%s %s\r\n" % e).encode()
            r.extra[k] = d
            ctx.write(os.path.join(r.root, k), d)
    vn = [v.name for _, st in r.sets for v in st.volumes] + [os.path.basename(x) for x in r.sfvs if x]
    sp = rng.random() < 0.6 or len(set(vn)) < len(vn)
    srr = srrlib.make_srr(ctx, r, sp)
    p = srrlib.parse(ctx, srr)
    # what is in the SRR was checked by R02: names of the stored files as they are
    crcs = {}
    ent, com = [], []
    volnames = set(v.name.lower() for _, s in r.sets for v in s.volumes)
    for n, d in p.stored:
        if n.lower().endswith(".sfv"):
            for line in re.split(rb"[\r\n]+", d):
                line = line.decode("latin-1")
                if line.lstrip().startswith(";"):
                    com.append(line)
                elif line.strip():
                    a, c = line.rsplit(" ", 1)
                    if a.strip().lower() not in volnames:
                        ent.append((a.strip(), c))
    vols = []
    for (folder, s), k in zip(r.sets, r.sfvs):
        for v in s.volumes:
            n = os.path.join(folder, v.name) if sp and folder else v.name
            vols.append((n, len(v.data), "%08X" % (zlib.crc32(v.data) & 0xFFFFFFFF) if k else None))
    arch = truth_archived([s for _, s in r.sets])
    compare(ctx, srr, rescene.APPNAME, p.stored, vols, arch, sum(rr_total(s) for _, s in r.sets), p.oso, (ent, com))
    for _, s in r.sets:
        ctx.klass(len(r.sets), s.opt["new"], s.opt["rr"], s.opt["end"], s.opt["pad"] > 0, len(vols).bit_length(), sp)
    ctx.sample(r.describe())


def reference(ctx):
    """by the reference writer"""
    rng = ctx.rng
    same = rng.random() < 0.4
    kw = {}
    if same:
        kw = dict(base="same")
    data, app, stored, sk, sets = srrlib.ref_srr(ctx, **kw)
    if same and len(sets) > 1 and len(set(v.name for _, s in sets for v in s.volumes)) < sum(len(s.volumes) for _, s in sets):
        pass
    stored = [(n, d) for n, d in stored if not n.lower().endswith(".sfv")]
    data = srrparse.build(app, stored, sk)
    if len(data) < 20:
        app = "ReScene .NET 1.2"
        data = srrparse.build(app, stored, sk)
    p = ctx.write("x.srr", data)
    vols = [((f + "/" + v.name) if f else v.name, len(v.data), None) for f, s in sets for v in s.volumes]
    if len(set(n.lower() for n, _, _ in vols)) < len(vols):
        return
    ctx.note["case"] = [s.describe() for _, s in sets]
    compare(ctx, p, app, stored, vols, truth_archived([s for _, s in sets]), sum(rr_total(s) for _, s in sets),
            srrparse.Srr(data).oso, ([], []))
    ctx.klass(len(sets), len(stored), [s.opt["rr"] for _, s in sets], bool(app))
    ctx.sample(dict(stored=[n for n, _ in stored], volumes=[(n, s) for n, s, _ in vols[:5]]))


def samename(ctx):
    """CD1/rel.rar and CD2/rel.rar, each with its SFV"""
    rng = ctx.rng
    k = rng.choice([2, 3])
    sets, stored, vols = [], [], []
    order = ["CD1", "CD2", "CD3"][:k]
    rng.shuffle(order)
    for i, folder in enumerate(order):
        fs = rargen.pick_files(rng, prefix="s%d-" % i, size=lambda g: g.choice([1, 50, 900, 4000]))
        s = rargen.make_set(rng, base="rel", files=fs, new=rng.random() < 0.3)
        sets.append((folder, s))
        stored.append((folder + "/rel.sfv", s.sfv()))
        vols += [(folder + "/" + v.name, len(v.data), "%08X" % (zlib.crc32(v.data) & 0xFFFFFFFF)) for v in s.volumes]
    rng.shuffle(stored)
    data = srrparse.build("ReScene .NET 1.2", stored, srrlib.ref_skeleton(sets))
    p = ctx.write("x.srr", data)
    ctx.note["case"] = [(f, s.describe()) for f, s in sets]
    compare(ctx, p, "ReScene .NET 1.2", stored, vols, truth_archived([s for _, s in sets]),
            sum(rr_total(s) for _, s in sets), [], ([], []))
    ctx.klass(k, [s.opt["new"] for _, s in sets])
    ctx.count("same_names")


class Big(object):
    """length only"""
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


def large(ctx):
    """headers of files over 4 GiB, and the odd sizes of custom packers"""
    rng = ctx.rng
    how = rng.choice(["large", "large", "f32", "f64", "boundary"])
    nvol = rng.choice([1, 2, 3, 7])
    if how == "large":
        size = rng.choice([1 << 32, (1 << 32) + 1, rng.randrange(1 << 32, 1 << 45)])
    elif how == "boundary":
        size = rng.choice([(1 << 31) - 1, 1 << 31, (1 << 32) - 2])
    else:
        size = rng.randrange(nvol, 1 << 31)
    f = rargen.AFile("dir/big.mkv", b"")
    f.data = Big(size)
    f.crc = rng.getrandbits(32)
    cuts = sorted(rng.randrange(0, size) for _ in range(nvol - 1))
    if how != "large":
        cuts = [size * (i + 1) // nvol for i in range(nvol - 1)]
    parts = [b - a for a, b in zip([0] + cuts, cuts + [size])]
    if how == "large" and any(x == 0 for x in parts):
        parts = [size]
        nvol = 1
    sk, vols = b"", []
    o = dict(ftime=rargen.dostime(rng), large=how in ("large", "f64"))
    for i, n in enumerate(parts):
        last = i == len(parts) - 1
        if how == "f32":
            o["usize"] = 0xFFFFFFFF
        elif how == "f64":
            o["usize"] = size if last else 0xFFFFFFFFFFFFFFFF
        else:
            o.pop("usize", None)
        h = rargen.MARKER + rargen.block(0x73, 1, b"\0" * 6)
        h += rargen.file_header(f, Big(n), i == 0, last, f.crc if last else rng.getrandbits(32), o, None)
        h += rargen.block(0x7B, 0x4000, b"")
        name = rargen.volname("rel", i, False)
        sk += srrparse.rarname_block(name) + h
        vols.append((name, len(h) + n, None))
    p = ctx.write("x.srr", srrparse.build("pyReScene Auto 0.6", [], sk))
    ctx.note["case"] = (how, size, parts)
    compare(ctx, p, "pyReScene Auto 0.6", [], vols, {"dir\\big.mkv": (size, f.crc, False)}, 0, [], ([], []))
    ctx.klass(how, len(parts), size.bit_length())
    ctx.sample(dict(how=how, size=size, parts=parts[:4]))
    ctx.count("large")


def compressed(ctx):
    rng = ctx.rng
    fs = rargen.pick_files(rng, n=rng.choice([1, 2, 4]), size=lambda g: g.choice([1, 50, 900, 9000]))
    fs = [f for f in fs if not f.directory] or [rargen.AFile("a.bin", b"xyz")]
    for f in rng.sample(fs, rng.randint(0, len(fs))):
        f.method = rng.choice([0x31, 0x32, 0x33, 0x34, 0x35])
    s = rargen.make_set(rng, base="rel", files=fs)
    anyc = any(f.method != 0x30 for f in fs)
    root = ctx.mkdir("release")
    s.write(root)
    srr = ctx.path("c.srr")
    ctx.note["case"] = s.describe(), [f.method for f in fs]
    ok = ctx.must(rescene.create_srr, srr, [os.path.join(root, s.volumes[0].name)], root, [], False, True)
    ctx.check(ok is True, "creation allowing compression failed")
    p = srrlib.parse(ctx, srr)
    vols = [(v.name, len(v.data), None) for v in s.volumes]
    compare(ctx, srr, rescene.APPNAME, [], vols, truth_archived([s]), rr_total(s), p.oso, ([], []))
    ctx.klass(anyc, [f.method for f in fs])
    ctx.count("compressed" if anyc else "stored_only")


def details(ctx):
    """the dump of any SRR and RAR runs to the end, and every header byte is in it"""
    rng = ctx.rng
    if rng.random() < 0.5:
        data, app, stored, sk, sets = srrlib.ref_srr(ctx)
        p = ctx.write("x.srr", data)
        kind = "srr"
        heads = [k.head for k in srrparse.Srr(data).blocks]
    else:
        s = rargen.make_set(rng, files=rargen.pick_files(rng, size=lambda g: g.choice([0, 1, 900, 4000])))
        v = rng.choice(s.volumes)
        data = v.data
        p = ctx.write(v.name, data)
        kind = "rar"
        heads = v.heads
    o = ctx.call(rescene.print_details, p)
    ctx.check(o.ok, "detail dump stopped: %s" % o.brief())
    text = o.out
    m = re.search(r"content hash: ([0-9a-f]{40})", text)
    ctx.check(m, "no content hash at the end of the dump")
    ctx.equal(m.group(1), ctx.must(rescene.main.content_hash, p), "content hash in the dump")
    ctx.equal(text.splitlines()[0], "The file is a%s %s file." % ("n" if kind == "srr" else "", kind.upper()), "kind of file")
    pos = 0
    for h in heads:
        i = text.find("Header bytes: " + h.hex(), pos)
        ctx.check(i >= 0, "header %s... of the file is not in the dump, or out of order" % h[:20].hex())
        pos = i
    r = srrlib.cli(ctx, rescene.srr.main, ["-e", p], cwd=ctx.path()) if kind == "srr" else None
    if r:
        ctx.check(r["rc"] == 0 and not r["exc"], "srr -e ended with %r: %s" % (r["rc"], r["err"][-300:]))
        ctx.equal(r["out"], text, "dump on the command line")
    ctx.equal(read(p), data, "the file after the dump")
    ctx.count("headers", len(heads))
    ctx.klass(kind, len(heads).bit_length())


def ascii_terminal(ctx):
    """a terminal without the characters of the names"""
    rng = ctx.rng
    f = rargen.AFile("\u4e2d\u6587.mkv", b"x" * 500, uni=True)
    s = rargen.make_set(rng, base="r\u00e9l", files=[f], nvol_hint=2)
    stored = [("r\u00e9l.sfv", s.sfv() if False else "".join("%s %08x\r\n" % (v.name, zlib.crc32(v.data)) for v in s.volumes).encode("latin-1"))]
    if rng.random() < 0.5:
        stored.append(("\u0416.nfo", b"1"))
    p = ctx.write("x.srr", srrparse.build("\u00e9\u4e2d appname long enough", stored, srrlib.ref_skeleton([("", s)])))

    def main(argv):
        import io, sys
        raw = io.BytesIO()
        old = sys.stdout
        sys.stdout = io.TextIOWrapper(raw, encoding="ascii", errors="strict", write_through=True)
        try:
            return rescene.srr.main(argv)
        finally:
            t = raw.getvalue()
            sys.stdout = old
            old.write(t.decode("ascii"))
    r = srrlib.cli(ctx, main, ["-l", p], cwd=ctx.path())
    ctx.check(r["rc"] == 0, "listing on an ASCII terminal ended with %r: %s" % (r["rc"], r["err"][-300:]))
    sec = sections(r["out"])
    ctx.equal(len(sec.get("RAR files", [])), len(s.volumes), "volumes listed")
    ctx.equal(len(sec.get("Stored files", [])), len(stored), "stored files listed")
    ctx.klass(len(stored), len(s.volumes))


GROUPS = [Group("made", made, 120, 2500, {"listings": 100}), Group("reference", reference, 150, 3000),
          Group("samename", samename, 40, 600, {"same_names": 10}), Group("large", large, 80, 1500, {"large": 20}),
          Group("compressed", compressed, 60, 1000), Group("details", details, 120, 2500, {"headers": 300}),
          Group("ascii", ascii_terminal, 10, 60)]
