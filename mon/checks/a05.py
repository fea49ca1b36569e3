"""A05: the tools for collections list what matches and lose nothing."""
import contextlib, datetime, io, os, re, time, types
from mon import media, rargen, srrlib, srrparse
from mon.core import Group, files, read, tree
from mon.checks import a01, u03
from mon.checks.s03 import load
from mon.srrlib import rescene

PROPERTY = "A05"
RULE = ("Collections of SRR files (stored names, images, NFO files, volumes, compressed, empty and cut-off ones), folders with samples and "
        "SRS files and folders with NZB files of a known content are given to the real tools (srr_sort, srr_extract_srs, srr_merge, "
        "srs_batch, srs_size, srs_bad, nzb_age, nzb_rename, nzb_sample_extract). What is printed, written and moved is compared with what "
        "the generated content asks for; existing files with the same name are in the way. Non-trivial: a listing, a move or a result was "
        "compared; classes: tool, options, collisions.")
ASSUMPTIONS = ["release names have a dash before the group and no other dots behind it", "of an SRR with images either all or none are proofs",
               "NZB ages stay a day away from the limits", "the date line of an NZB file is written with double quotes"]
with contextlib.redirect_stdout(io.StringIO()):
    sort = a01.tool("srr_sort")
    extract = a01.tool("srr_extract_srs")
    merge = a01.tool("srr_merge")
    batch = a01.tool("srs_batch")
    size = a01.tool("srs_size")
    bad = a01.tool("srs_bad")
    age = u03.tool("nzb_age")
    rename = u03.tool("nzb_rename")
    sample = u03.tool("nzb_sample_extract")
IMG = (".jpg", ".png", ".bmp", ".gif", ".jpeg")
FLAGS = ["compressed", "empty", "verify", "nfos", "duplicates", "noproof", "image", "nofiles", "multiple", "nosfv", "nonfo", "txt", "repack",
         "peer2peer", "lowercase", "dirfix"]


def relname(rng, i):
    n = rng.choice(["Some.Movie.2009.DVDRip.XviD-%s", "some.movie-%s", "A.B-%s", "Show.S01E01.DiRFiX-%s", "x.NFOFIX-%s", "Mixed_Name-%s"])
    return n % rng.choice(["GRP", "grp", "GrP", "x1"]) + ("" if rng.random() < .6 else "_%d" % i)


def one_srr(ctx, i):
    """-> facts of a new SRR"""
    rng = ctx.rng
    proof = rng.random() < 0.5
    stored = []
    for k in range(rng.choice([0, 0, 1, 2, 3, 6])):
        n = rng.choice(["rel.nfo", "x%d.nfo" % k, "Y%d.NFO" % k, "a.sfv", "CD1/b.SFV", "info.txt", "N.TXT", "s.srs", "S%d.SRS" % k, "Sample/s.srs", "img"])
        if n == "img":
            n = ("proof/p%d" if proof else "img/p%d") % k + rng.choice(IMG + (".JPG", ".Jpeg"))
        stored.append((n, rng.randbytes(rng.choice([0, 5, 900]))))
    if not rng.random() < 0.25:
        u = {}
        stored = [u.setdefault(n, (n, d)) for n, d in stored if n not in u]
    sets = []
    nfiles = 0
    comp = False
    for k in range(rng.choice([0, 1, 1, 1, 2])):
        base = rng.choice(["grp-x", "x-rpk", "x-r", "Grp.X", "x.repack", "y-rpk"][3 if k else 0:6 if k else 3])
        folder = "" if k == 0 else "CD2"
        m = rng.choice([0x30, 0x30, 0x30, 0x31, 0x33, 0x35])
        nf = rng.choice([1, 1, 1, 2, 3])
        fs = [rargen.AFile("f%d-%d.bin" % (k, j), rng.randbytes(rng.choice([1, 60, 700])), method=m if j == 0 else 0x30) for j in range(nf)]
        comp |= m != 0x30
        s = rargen.make_set(rng, base=base, files=fs, plain=True)
        sets.append((folder, s))
        nfiles += nf
    data = srrparse.build("pyReScene Auto 0.6", stored, srrlib.ref_skeleton(sets))
    vols = [(f + "/" if f else "") + v.name for f, s in sets for v in s.volumes]
    broken = rng.random() < 0.1
    if broken:
        data = rng.choice([b"", b"no srr", data[1:], data[:9]])
    name = relname(rng, i)
    lows = [n.lower() for n, _ in stored]
    has = lambda *e: any(n.endswith(e) for n in lows)
    group = name.rsplit("-")[-1]
    first = set(os.path.splitext(v)[0] if not re.search(r"\.part\d+\.rar$", v) else v.rsplit(".part", 1)[0] for v in vols)
    facts = dict(compressed=comp, empty=not sets, nfos=len([n for n in lows if n.endswith(".nfo")]) > 1, duplicates=len(set(n for n, _ in stored)) < len(stored),
                 noproof=has(*IMG) and not proof, image=has(*IMG), nofiles=not stored, multiple=len(set(archived(sets))) > len(first), nosfv=not has(".sfv"),
                 nonfo=not has(".nfo"), txt=has(".txt"), repack=any(re.search(r"rpk|repack|-r\.part01\.rar|-r\.rar", v) for v in vols),
                 peer2peer=any(v != v.lower() for v in vols), lowercase=group == group.lower(), dirfix=False, verify=False)
    return types.SimpleNamespace(name=name + ".srr", data=data, facts=facts, broken=broken, stored=stored, vols=vols, sets=sets)


def archived(sets):
    for _, s in sets:
        for f in s.files:
            yield f.name


def sorting(ctx):
    rng = ctx.rng
    coll = []
    for i in range(rng.randint(1, 6)):
        c = one_srr(ctx, i)
        if c.name.lower() not in [x.name.lower() for x in coll]:
            coll.append(c)
    ctx.mkdir("w/d")
    for c in coll:
        ctx.write("w/d/" + c.name, c.data)
    ctx.write("w/d/readme.txt", b"text")
    flags = rng.sample(FLAGS, rng.choice([1, 1, 1, 2, 3]))
    if "noproof" in flags and "image" in flags:
        flags.remove("image")
    out = None
    inway = []
    if rng.random() < 0.5:
        out = rng.choice(["w/out", "w/new", "w/new/er"])
        if out == "w/out":
            ctx.mkdir("w/out")
            for c in coll:
                if rng.random() < 0.3:
                    ctx.write("w/out/" + c.name, b"another one")
                    inway.append(c.name)
    opts = types.SimpleNamespace(output_dir=ctx.path(out) if out else None, **dict((f, f in flags) for f in FLAGS))
    args = [ctx.path("w/d")] if rng.random() < 0.6 else [ctx.path("w/d", c.name) for c in coll]
    if rng.random() < 0.2:
        args.insert(0, ctx.path("w/nothere"))
    before = tree(ctx.path("w"))

    def main(argv):
        sort.options = opts
        sort.rar_sizes = 0
        return sort.main(opts, argv)
    ctx.note.update(flags=flags, out=out, inway=inway, coll=[(c.name, sorted(k for k, v in c.facts.items() if v), c.broken, [n for n, _ in c.stored], c.vols) for c in coll])
    o = srrlib.cli(ctx, main, args, cwd=ctx.mkdir("cwd"))
    ctx.check(o["exc"] is None, "the tool ended with a traceback: %s" % o["exc"], "run")
    lines = o["out"].split("\n")
    reads = set(flags) - {"dirfix", "lowercase"}
    want = set()
    for c in coll:
        if c.broken and reads:
            ctx.check(any(l.startswith("Something wrong") and c.name in l for l in lines), "nothing said about the broken %s" % c.name, "broken")
            continue
        if any(c.facts[f] for f in flags):
            want.add(c.name)
    got = [l for l in lines if l in [c.name for c in coll]]
    ctx.equal(sorted(got), sorted(want), "SRR files listed")
    if "dirfix" in flags:
        ctx.equal(sorted(l for l in lines if l.startswith(ctx.path("w/d"))), sorted(ctx.path("w/d", c.name) for c in coll if re.search("dirfix|nfofix", c.name.lower())
                                                                                           and not (c.broken and {"verify", "multiple"} & set(flags))), "fixes listed")
    now = tree(ctx.path("w"))
    exp = dict(before)
    if out:
        o2 = out[2:]
        for n in want:
            if n not in inway:
                exp[o2 + "/" + n] = exp.pop("d/" + n)
    isf = lambda t: dict((k, v) for k, v in t.items() if v is not None)
    a, b = isf(now), isf(exp)
    ctx.equal(sorted(a), sorted(b), "files afterwards")
    ctx.check(os.path.isdir(ctx.path("w/d")), "the folder of the collection is gone")
    for k in b:
        ctx.check(a[k] == b[k], "%s has changed" % k, "content")
    if "verify" in flags and not any(c.broken for c in coll):
        t = sum(len(v.data) for c in coll for _, s in c.sets for v in s.volumes)
        if t:
            ctx.check("%d bytes" % t in lines, "the size of all volumes is %d: %r" % (t, lines[-7:]), "size")
    ctx.count("sorted", len(coll))
    ctx.count("listed", len(want))
    ctx.klass("sort", sorted(flags), out, bool(inway), len(want))


def extracting(ctx):
    rng = ctx.rng
    data, app, stored, sk, sets = srrlib.ref_srr(ctx, oso=False)
    extra = [(n, rng.randbytes(50)) for n in rng.sample(["Sample/a.srs", "a.SRS", "x/y/Z.Srs", "b.srs.txt", "srs", "CD1/a.srs", "CD2/a.srs", "a.srs"], rng.randint(0, 4))]
    stored = [(n, d) for n, d in stored if n not in dict(extra)] + extra
    p = ctx.write("x.srr", srrparse.build(app or "ReScene .NET 1.2", stored, sk))
    out = ctx.mkdir("out")
    ctx.write("out/keep.txt", b"keep")
    want = dict((n, d) for n, d in stored if n.lower().endswith(".srs"))
    o = srrlib.cli(ctx, lambda a: extract.main(None, a), [p, out], cwd=ctx.mkdir("cwd"))
    ctx.check(o["exc"] is None, "the tool ended with a traceback: %s" % o["exc"], "run")
    got = dict((n, read(os.path.join(out, n))) for n in files(out))
    ctx.check(got.pop("keep.txt", None) == b"keep", "another file changed")
    ctx.equal(sorted(got), sorted(want), "extracted files")
    ctx.check(got == want, "content of the extracted files")
    ctx.count("extracted", len(want))
    ctx.klass("extract", len(want), len(stored))


def merging(ctx):
    rng = ctx.rng
    parts = []
    for i in range(rng.randint(1, 3)):
        data, app, stored, sk, sets = srrlib.ref_srr(ctx, oso=False, app="pyReScene Auto 0.6", base="set%d" % i)
        stored = [("%d-" % i + n.replace("/", "_"), d) for n, d in stored]
        parts.append((ctx.write("in/p%d.srr" % i, srrparse.build("pyReScene Auto 0.6", stored, sk)), stored, sk))
    out = ctx.path("joined.srr") if rng.random() < 0.5 else None
    opts = types.SimpleNamespace(output_name=out)
    o = srrlib.cli(ctx, lambda a: merge.main(opts, a), [p[0] for p in parts], cwd=ctx.mkdir("cwd"))
    ctx.check(o["exc"] is None, "the tool ended with a traceback: %s" % o["exc"], "run")
    out = out or ctx.path("in/p0_joined.srr")
    ctx.check(os.path.isfile(out), "no joined SRR at %s: %r" % (os.path.basename(out), files(ctx.dir)), "none")
    s = srrparse.Srr(read(out))
    ctx.equal([(n, bytes(d)) for n, d in s.stored], [x for p in parts for x in p[1]], "stored files of the joined SRR")
    w = srrparse.Srr(srrparse.build("pyReScene Auto 0.6", [], b"".join(p[2] for p in parts)))
    ctx.equal([(v[0], bytes(v[1]), bytes(v[3])) for v in s.volumes], [(v[0], bytes(v[1]), bytes(v[3])) for v in w.volumes], "volumes of the joined SRR")
    ctx.equal(sorted(n for n in files(ctx.dir) if n.endswith(".srr")), sorted([os.path.relpath(p[0], ctx.dir) for p in parts] + [os.path.relpath(out, ctx.dir)]), "SRR files")
    ctx.count("merged", len(parts))
    ctx.klass("merge", len(parts))


def batching(ctx):
    rng = ctx.rng
    media.setup(ctx)
    good, wrong, prev = {}, [], {}
    for i in range(rng.randint(1, 4)):
        fmt = rng.choice(["avi", "mkv", "mp4", "wmv"])
        m = media.make(rng, fmt)
        d = rng.choice(["", "A-GRP/Sample", "B-GRP", "A-GRP", "c/d/e"])
        e = dict(avi=".avi", mkv=".mkv", mp4=".mp4", wmv=".wmv")[fmt]
        n = os.path.join(d, "s%d" % i + (e if rng.random() < 0.7 else e.upper()))
        if rng.random() < 0.25:
            wrong.append(n)
            ctx.write("in/" + n, rng.choice([b"", b"junk" * 40, m.data[:rng.randint(0, 40)]]))
        else:
            good[n] = m
            ctx.write("in/" + n, m.data)
        if rng.random() < 0.3:
            prev[os.path.splitext(n)[0] + ".srs"] = b"an older one"
            ctx.write("out/" + os.path.splitext(n)[0] + ".srs", b"an older one")
    ctx.write("in/A-GRP/x.nfo", b"nfo")
    ctx.write("in/A-GRP/x.rar", b"Rar!")
    out = ctx.mkdir("out")
    keep = rng.random() < 0.4
    opts = types.SimpleNamespace(input_dir=ctx.path("in"), output_dir=out, always_no=keep)
    before = tree(ctx.path("in"))
    ctx.note.update(good=sorted(good), wrong=wrong, prev=sorted(prev), keep=keep)
    o = srrlib.cli(ctx, lambda a: batch.main(opts), [], cwd=ctx.mkdir("cwd"))
    ctx.check(o["exc"] is None and o["died"] is None, "the tool ended with a traceback: %s" % o["exc"], "run")
    ctx.equal(tree(ctx.path("in")), before, "the samples")
    left = set(files(out))
    for n, m in good.items():
        s = os.path.splitext(n)[0] + ".srs"
        ctx.check(s in left, "no SRS for %s: %r" % (n, sorted(left)), "none")
        left.discard(s)
        if keep and s in prev:
            ctx.check(read(os.path.join(out, s)) == prev[s], "%s was replaced" % s, "kept")
        else:
            _, info, _ = load(ctx, os.path.join(out, s), "the SRS")
            ctx.equal((info.name, info.size, info.crc32), (os.path.basename(n), len(m.data), m.crc if hasattr(m, "crc") else info.crc32), "what the SRS says")
    for n in wrong:
        s = os.path.splitext(n)[0] + ".srs"
        if s in prev:
            ctx.check(s in left and read(os.path.join(out, s)) == prev[s], "%s is no more what it was" % s, "kept")
            left.discard(s)
        if not (keep and s in prev):
            ctx.check(n + ".txt" in left, "nothing says that %s failed: %r" % (n, sorted(left)), "silent")
            ctx.check(len(read(os.path.join(out, n + ".txt"))) > 0, "the message is empty")
        left.discard(n + ".txt")
    ctx.check(not left, "also in the output: %r" % sorted(left), "extra")
    ctx.count("samples", len(good))
    ctx.klass("batch", len(good), len(wrong), bool(prev), keep)


def srss(ctx):
    """srs_size and srs_bad"""
    rng = ctx.rng
    media.setup(ctx)
    made = []
    for i in range(rng.randint(1, 3)):
        fmt = rng.choice(["avi", "mkv", "mp4"])
        m = media.make(rng, fmt)
        n = "s%d%s" % (i, m.ext)
        p = ctx.write("in/" + n, m.data)
        argv = [p, "-o", ctx.path("srs", "s%d.srs" % i)]
        full = rng.random() < 0.5
        if full:
            argv += ["-c", ctx.write("m/movie%d%s" % (i, m.ext.lower()), m.main)]
        ctx.mkdir("srs")
        o = ctx.call(batch.srsmain, argv)
        ctx.check(o.exc is None and o.exit in (0, None), "no SRS made: " + o.brief(), "create")
        data = read(ctx.path("srs", "s%d.srs" % i))
        _, _, tracks = load(ctx, ctx.path("srs", "s%d.srs" % i), "the SRS")
        made.append((data, len(m.data), any(t.match_offset == 0 for t in tracks.values()), m.ext))
    # sizes
    lim = rng.choice([0, 1000, made[0][1], made[0][1] - 1, made[0][1] + 1])
    for i, x in enumerate(made):
        ctx.write("coll/%s/s%d.%s" % (rng.choice("ab"), i, rng.choice(["srs", "SRS"])), x[0])
    o = srrlib.cli(ctx, lambda a: size.main(types.SimpleNamespace(size=str(lim)), a), [ctx.path("coll")], cwd=ctx.mkdir("cwd"))
    ctx.check(o["exc"] is None, "srs_size ended with a traceback: %s" % o["exc"], "run")
    got = sorted(int(os.path.basename(l)[1]) for l in o["out"].split("\n") if l.lower().endswith(".srs"))
    ctx.equal(got, [i for i, x in enumerate(made) if x[1] > lim], "SRS files of samples bigger than %d" % lim)
    # samples not found in the movie
    want = {}
    for k in range(rng.randint(1, 3)):
        st, worst = [], set()
        for i in rng.sample(range(len(made)), rng.randint(0, len(made))):
            n = rng.choice(["CD%d/s.srs" % i, "Sample/s%d.srs" % i, "s%d.srs" % i])
            st.append((n, made[i][0]))
            if made[i][2]:
                worst.add(os.path.basename(n))
        txt = rng.random() < 0.3
        if txt:
            st.append(("s.avi.txt", b"text"))
        st.append(("rel.nfo", b"nfo"))
        ctx.write("srrs/Rel%d-GRP.srr" % k, srrparse.build("pyReScene Auto 0.6", st, srrparse.rarname_block("x.rar")))
        want["Rel%d-GRP" % k] = (worst, txt)
    o1, o2 = rng.choice([(True, False), (False, True), (True, True)])
    how = rng.choice(["simple", "full"])
    opts = types.SimpleNamespace(verify=o1, txt=o2, simple=how == "simple", path=False)
    before = tree(ctx.path("srrs"))
    o = srrlib.cli(ctx, lambda a: bad.main(opts, a), [ctx.path("srrs")], cwd=ctx.mkdir("cwd"))
    ctx.check(o["exc"] is None, "srs_bad ended with a traceback: %s" % o["exc"], "run")
    exp = []
    for n, (worst, txt) in sorted(want.items()):
        w = (worst if o1 else set()) | ({"s.avi.txt"} if o2 and txt else set())
        if w:
            exp.append(n if how == "simple" else ctx.path("srrs", n + ".srr"))
            if how == "full":
                exp += ["-> " + x for x in sorted(w)]
    ctx.equal(sorted(l for l in o["out"].split("\n") if l), sorted(exp), "what srs_bad lists")
    ctx.equal(tree(ctx.path("srrs")), before, "the SRR files")
    ctx.count("srs", len(made))
    ctx.klass("srs", len(made), o1, o2, how)


def nzbs(ctx):
    rng = ctx.rng
    what = rng.choice(["age", "age", "rename", "rename", "sample", "sample"])
    inway, names = {}, []
    ctx.mkdir("in")
    alln = {}
    day = 86400
    for i in range(rng.randint(1, 5)):
        rel = rng.choice(["Some.Show.S01E0%d.720p.HDTV.x264-GRP", "Artist-Title-2010-%d", "Movie.200%d.DVDRip.XviD-ABC"]) % rng.randint(0, 3)
        n = rng.choice(["x%d.nzb" % i, "%s.nzb" % rel, "msgid_%d.nzb" % i])
        ext = rng.choice([[".mkv", "-sample.mkv", ".par2"], [".mp3", ".nfo"], [".rar", ".r00", "-sample.avi", "-sample.avi.vol03+04.par2"], [".flac"], [".sfv", ".VOB", ".mp4"], [".avi.nfo"]])
        old = rng.choice([10, 500, 1100, 1150, 2000, 3000])
        fs = []
        for e in ext:
            f = u03.nzbfile(rng, '[ %s ] "%s%s" yEnc (1/9)' % (rel, rel.lower()[:12], e))
            fs.append((f[0], int(time.time()) - old * day - 3600 * 12) + f[2:])
        if n in alln:
            continue
        data, _ = u03.write(rng, fs, plain=True)
        if rng.random() < 0.2:
            data = data.decode("utf-8").replace("UTF-8", "ISO-8859-1").replace("utf-8", "iso-8859-1").encode("latin-1", "xmlcharrefreplace")
        ctx.write("in/" + n, data)
        alln[n] = (rel, fs, old, data, ext)
    ctx.write("in/other.txt", b"text")
    junk = rng.random() < 0.2
    if junk:
        ctx.write("in/a_junk.nzb", b"\xffnot an NZB")
    stay = ["other.txt"] + ["a_junk.nzb"] * junk
    before = tree(ctx.path("in"))
    ctx.note.update(what=what, names=sorted((n, v[0], v[2], v[4]) for n, v in alln.items()))
    cwd = ctx.mkdir("cwd")
    if what == "age":
        lo, hi = rng.choice([(1000, 1200), (5, 600), (0, 4000), (1120, 2500)])
        want = sorted(n for n, v in alln.items() if lo < v[2] < hi)
        out = rng.random() < 0.6
        if out:
            for n in alln:
                if rng.random() < 0.3:
                    ctx.write("out/" + n, b"another one")
                    inway[n] = True
        o = srrlib.cli(ctx, lambda a: age.main(types.SimpleNamespace(output_dir=ctx.path("out") if out else None), a), ["%d-%d" % (lo, hi), ctx.path("in")], cwd=cwd)
        ctx.check(o["exc"] is None, "nzb_age ended with a traceback: %s" % o["exc"], "run")
        if not out:
            ctx.equal(sorted(l for l in o["out"].split("\n") if l.endswith(".nzb") and not l.startswith("Bad NZB")), want, "NZB files between %d and %d days" % (lo, hi))
            ctx.equal(tree(ctx.path("in")), before, "the NZB files")
        else:
            moved = [n for n in want if n not in inway]
            ctx.equal(sorted(files(ctx.path("in"))), sorted(list(set(alln) - set(moved)) + stay), "NZB files that stay")
            for n in moved:
                ctx.check(read(ctx.path("out", n)) == alln[n][3], "%s was not moved" % n)
            for n in inway:
                ctx.check(read(ctx.path("out", n)) == b"another one", "%s was overwritten" % n, "lost")
            for n in set(alln) - set(moved):
                ctx.check(read(ctx.path("in", n)) == alln[n][3], "%s changed" % n, "lost")
        ctx.count("aged", len(want))
    elif what == "rename":
        pre = rng.choice([None, None, "processed", "processed/music"])
        if pre:
            ctx.mkdir("in/" + pre)
        if rng.random() < 0.3:
            rel = rng.choice(list(alln.values()))[0]
            for k in ("music", "other"):
                ctx.write("in/processed/%s/%s.nzb" % (k, rel), b"another one")
                inway[rel] = True
        o = srrlib.cli(ctx, lambda a: rename.main(None, a), [ctx.path("in")], cwd=cwd)
        ctx.check(o["exc"] is None, "nzb_rename ended with a traceback: %s" % o["exc"], "run")
        have = {}
        for n in files(ctx.path("in")):
            have.setdefault(read(ctx.path("in", n)), []).append(n)
        for n, (rel, fs, old, data, ext) in alln.items():
            w = have.get(data)
            ctx.check(w is not None and len(w) == 1, "%s is %s" % (n, "lost" if not w else "doubled: %r" % w), "lost")
            goal = "processed/%s/%s.nzb" % ("music" if {".mp3", ".flac"} & set(ext) else "other", rel)
            if w[0] != goal:
                ctx.check(os.path.exists(ctx.path("in", goal)) and w[0] == n, "%s became %s and not %s" % (n, w[0], goal), "name")
        ctx.equal([n for n in stay if not os.path.isfile(ctx.path("in", n))], [], "files to be left alone")
        if inway:
            ctx.equal(len(have.get(b"another one", ())), 2, "files that were in the way")
        ctx.count("renamed", len(alln))
    else:
        flags = dict((k, rng.random() < 0.4) for k in ("avisample", "mkvsample", "mp4sample", "wmvsample", "vobsample", "m2tssample"))
        if not any(flags.values()) and rng.random() < 0.5:
            flags["mkvsample"] = True
        exts = [k[:-6] for k, v in flags.items() if v] or ["avi", "mkv"]
        mx = rng.choice([-1, -1, 1000000, 400000000])
        where = rng.choice([None, "out", "in"])
        opts = types.SimpleNamespace(output_dir=ctx.path(where) if where else None, max_size=rng.choice([mx, str(mx)]), **flags)

        def main(a):
            sample.options = opts
            return sample.main(opts, a)
        args = [ctx.path("in")] if rng.random() < 0.6 else [ctx.path("in", n) for n in alln]
        o = srrlib.cli(ctx, main, args, cwd=cwd)
        ctx.check(o["exc"] is None, "nzb_sample_extract ended with a traceback: %s" % o["exc"], "run")
        for n, v in alln.items():
            ctx.check(read(ctx.path("in", n)) == v[3], "%s has changed" % n, "lost")
        ctx.check(not junk or read(ctx.path("in/a_junk.nzb")) == b"\xffnot an NZB", "a broken NZB has changed", "lost")
        if where != "in":
            out = ctx.path("out") if where else ctx.path("in/samples")
            exp = {}
            for n, (rel, fs, old, data, ext) in alln.items():
                pick = [f for f in fs if re.search(r"\.(%s)(\.vol\d+\+\d+)?(\.par2)?$" % "|".join(exts), re.search('"(.*)"', f[2]).group(1).lower())
                        and (mx < 0 or sum(s[0] for s in f[4]) <= mx)]
                if pick:
                    exp[n] = pick
            ctx.equal(sorted(files(out)) if os.path.isdir(out) else [], sorted(exp), "NZB files with samples")
            for n, pick in exp.items():
                ctx.equal(u03.content(read(os.path.join(out, n))), pick, "content of the sample NZB")
        ctx.count("sampled", len(alln))
    ctx.klass("nzb", what, len(alln), bool(inway))


GROUPS = [
    Group("sort", sorting, 500, 30000, need={"sorted": 800, "listed": 150}),
    Group("extract", extracting, 100, 6000, need={"extracted": 40}),
    Group("merge", merging, 60, 4000, need={"merged": 60}),
    Group("batch", batching, 80, 5000, need={"samples": 60}),
    Group("srs", srss, 60, 3000, need={"srs": 60}),
    Group("nzb", nzbs, 300, 20000, need={"aged": 20, "renamed": 60, "sampled": 60}),
]
