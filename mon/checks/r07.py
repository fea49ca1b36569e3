"""R07 crafted names cannot reach outside of the output folder."""
import os, struct, zlib
from mon import rargen, srrlib, srrparse
from mon.core import Group, difftree, files, read, tree
from mon.srrlib import rescene

PROPERTY = "R07"
RULE = ("SRR and SRS files with hostile names in every name-bearing block are extracted, reconstructed and rebuilt "
        "while an audit hook denies and records every change outside of the output folder; bystander files are "
        "compared afterwards. Distinct: name kind x block x operation x outcome")

NAMES = ["../evil", "../../evil", "a/../../evil", "..", ".", "", "/abs/evil", "//abs/evil", "..\\evil", "a\\..\\..\\evil",
         "a/..\\../evil", "C:\\evil", "C:/evil", "C:evil", "\\\\srv\\share\\evil", "a//b", "./evil", "a/./evil", "evil/",
         "a/..", "../out/evil", "..//evil", "....//evil", "a\x00b", "~/evil", "$HOME/evil", "%2e%2e/evil", "../w2/evil",
         "\u2025/evil", "sub/..", " ../evil", "../evil ", "sub/../../out2/evil", "/../evil", "\\evil", "..\\", "../",
         "/dev/null", "NUL", "con/../../evil", "-rf", "..\u2044evil", "a/\\../evil", "\\..\\evil"]


def hostile(ctx):
    rng = ctx.rng
    base = ctx.path()
    n = rng.choice(NAMES)
    if rng.random() < 0.25:
        n = "/".join(rng.choice(["..", ".", "a", "", "b\\..", "..\\..", "\\"]) for _ in range(rng.randint(1, 5))) + rng.choice(["", "/e"])
    if "/abs/" in n:
        n = n.replace("/abs", base + "/bystander")
    if rng.random() < 0.3 and not n.endswith(("/", "\\")):
        n += rng.choice([".rar", ".nfo", ".r00"])
    return n


def watch(ctx, what, fn, *args, **kw):
    """run with only the output folder (and the temp folder) allowed"""
    out = ctx.path("out")
    os.makedirs(out, exist_ok=True)
    before = dict((k, v) for k, v in tree(ctx.dir).items() if not k.startswith(("out/", "tmp/")))
    o = ctx.call(fn, *args, _roots=[out, ctx.path("tmp")], **kw)
    after = dict((k, v) for k, v in tree(ctx.dir).items() if not k.startswith(("out/", "tmp/")))
    ctx.equal(difftree(before, after), [], "%s changed files outside of the output folder" % what)
    ctx.count("watched_runs")
    ctx.count("ok" if o.ok and o.rc == 0 else "refused")
    return o


def bystanders(ctx):
    for p in ("evil", "evil.nfo", "bystander/evil", "out2/evil", "w2/evil", "evil.rar"):
        ctx.write(p, b"bystander")


def extract(ctx):
    rng = ctx.rng
    bystanders(ctx)
    names = [hostile(ctx) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.5:
        names.insert(0, "good.nfo")
    data = srrparse.build("application name", [(n, b"payload") for n in names], b"")
    srr = ctx.write("in/x.srr", data)
    ctx.note["names"] = names
    how = rng.choice(["paths", "flat", "packed", "matcher"])
    over = rng.random() < 0.5
    if over:
        srrlib.set_overwrite(lambda p: True)
    cwd = ctx.mkdir("in")
    os.chdir(cwd)
    out = rng.choice([ctx.path("out"), "../out", ctx.path("out") + "/"])
    kw = {}
    if how == "packed":
        kw["packed_name"] = rng.choice(names)
    if how == "matcher":
        kw["matcher"] = lambda n: True
    o = watch(ctx, "extraction", rescene.extract_files, srr, out, how != "flat", **kw)
    ctx.klass("extract", how, names[-1][:12], o.ok, over)
    ctx.sample(dict(names=names, how=how, outcome=o.brief()))


def extract_cli(ctx):
    from rescene import srr as tool
    rng = ctx.rng
    bystanders(ctx)
    names = [hostile(ctx)]
    data = srrparse.build("application name", [(n, b"payload") for n in names], b"")
    srr = ctx.write("in/x.srr", data)
    out = ctx.mkdir("out")
    before = dict((k, v) for k, v in tree(ctx.dir).items() if not k.startswith(("out/", "tmp/")))
    argv = [srr, rng.choice(["-x", "--extract-regex=.*"]), "-o", out, "-y"] + rng.choice([["-p"], [], ["-p", "-d"]])
    ctx.note.update(names=names, argv=argv)

    def go():
        import sys
        os.chdir(out)
        o = ctx.call(tool.main, argv, _roots=[out, ctx.path("tmp")])
        return o.rc
    st, res = ctx.in_child(go)
    after = dict((k, v) for k, v in tree(ctx.dir).items() if not k.startswith(("out/", "tmp/")))
    ctx.equal(difftree(before, after), [], "the srr tool changed files outside of the output folder")
    ctx.count("watched_runs")
    ctx.klass("cli", names[0][:12], argv[1], argv[-1], res and res["ok"])


def reconstruct(ctx):
    rng = ctx.rng
    bystanders(ctx)
    fs = [rargen.AFile("a.bin", rng.randbytes(3000))]
    s = rargen.make_set(rng, files=fs, nvol_hint=rng.choice([1, 2, 3]), plain=True)
    names, sk, inner = [], b"", None
    which = rng.randrange(len(s.volumes))
    for i, v in enumerate(s.volumes):
        n = hostile(ctx) if i == which or rng.random() < 0.3 else v.name
        names.append(n)
        sk += srrparse.rarname_block(n) + v.skeleton
    stored = [(hostile(ctx), b"payload")] if rng.random() < 0.5 else []
    srr = ctx.write("in/x.srr", srrparse.build("application name", stored, sk))
    src = ctx.mkdir("src")
    with open(os.path.join(src, "a.bin"), "wb") as f:
        f.write(fs[0].data)
    ctx.note.update(names=names, stored=stored)
    if rng.random() < 0.5:
        srrlib.set_overwrite(lambda p: True)
    sp = rng.random() < 0.6
    kw = dict(extract_files=rng.random() < 0.5)
    if rng.random() < 0.2:
        kw["srr_part"] = rng.choice(names)
    o = watch(ctx, "reconstruction", rescene.reconstruct, srr, src, ctx.path("out"), sp, **kw)
    ctx.klass("reconstruct", sp, names[which][:12], bool(stored), o.ok)
    ctx.sample(dict(names=names, sp=sp, outcome=o.brief()))


def archived(ctx):
    """hostile names of archived files: only ever read from"""
    rng = ctx.rng
    bystanders(ctx)
    n = hostile(ctx).replace("/", "\\")
    if not n or "\x00" in n:
        n = "..\\evil"
    s = rargen.make_set(rng, files=[rargen.AFile(n, b"bystander")], nvol_hint=1, plain=True)
    sk = srrlib.ref_skeleton([("", s)])
    srr = ctx.write("in/x.srr", srrparse.build("application name", [], sk))
    src = ctx.mkdir("src")
    kw = dict(auto_locate_renamed=rng.random() < 0.5)
    if rng.random() < 0.5:
        kw["hints"] = {n: rng.choice(["../evil", "x"])}
    if rng.random() < 0.4:
        kw["empty"] = True
    ctx.note.update(name=n, kw=kw)
    import inspect
    args = inspect.signature(rescene.reconstruct).parameters
    kw = dict((k, v) for k, v in kw.items() if k in args)
    o = watch(ctx, "reconstruction", rescene.reconstruct, srr, src, ctx.path("out"), True, **kw)
    ctx.klass("archived", n[:12], o.ok, sorted(kw))


def crafted_stream_srs(name, data, off):
    app = b"app"
    nm = name.encode("utf-8", "surrogateescape")
    fd = struct.pack("<HH", 3, len(app)) + app + struct.pack("<H", len(nm)) + nm + struct.pack("<QL", len(data), zlib.crc32(data))
    td = struct.pack("<HHLQH", 0, 1, len(data), off, min(256, len(data))) + data[:256]
    return (b"STRM\x08\x00\x00\x00" + b"SRSF" + struct.pack("<L", 8 + len(fd)) + fd
            + b"SRST" + struct.pack("<L", 8 + len(td)) + td)


def srs(ctx):
    from resample import srs as tool
    rng = ctx.rng
    bystanders(ctx)
    name = hostile(ctx) or "../evil"
    main = rng.randbytes(5000)
    off = rng.choice([0, 0, 700])
    data = main[off:off + 1500]
    mp = ctx.write("in/main.vob", main)
    sp = ctx.write("in/x.srs", crafted_stream_srs(name, data, off))
    ctx.note["name"] = name
    out = ctx.mkdir("out")
    os.chdir(ctx.mkdir("in"))
    o = watch(ctx, "sample rebuilding", tool.main, [sp, mp, "-y", "-o", rng.choice([out, "../out"])], no_exit=rng.random() < 0.3)
    if o.ok and o.rc == 0:
        ctx.count("srs_rebuilt_inside")
    ctx.klass("srs", name[:12], o.rc, off > 0)
    ctx.sample(dict(name=name, outcome=o.brief(), out=sorted(files(out))))


def creation(ctx):
    """stored names written by creation and adding never climb out"""
    rng = ctx.rng
    r = srrlib.release(ctx, nsets=1, plain=True, small=True, extra=2)
    for p in ("elsewhere/n.txt", "release2/n.txt", "release/sub/deep/n.txt", "..dotted/n.txt", "release/..name.txt"):
        ctx.write(p, b"n")
    cands = ["../elsewhere/n.txt", ctx.path("elsewhere/n.txt"), ctx.path("release2/n.txt"), "../release2/n.txt",
             "sub/deep/n.txt", "sub/../sub/deep/n.txt", "./sub/deep/n.txt", "sub/deep/../../../elsewhere/n.txt",
             ctx.path("release/sub/../../elsewhere/n.txt"), ctx.path("..dotted/n.txt"), "..name.txt"]
    store = rng.sample(cands, rng.randint(1, 4))
    sp = rng.random() < 0.7
    os.chdir(r.root if rng.random() < 0.5 else ctx.dir)
    infolder = r.root
    srr = ctx.path("o.srr")
    if rng.random() < 0.5:
        o = ctx.call(rescene.create_srr, srr, srrlib.infiles(r), infolder, list(store), sp)
    else:
        ctx.must(rescene.create_srr, srr, srrlib.infiles(r), infolder, [], sp)
        o = ctx.call(rescene.add_stored_files, srr, list(store), infolder, sp)
    ctx.note.update(store=store, sp=sp)
    if os.path.exists(srr):
        s = srrlib.parse(ctx, srr)
        for n in [n for n, _ in s.stored] + [v[0] for v in s.volumes]:
            parts = n.replace("\\", "/").split("/")
            ctx.check(".." not in parts and "" not in parts and not os.path.isabs(n), "stored name climbs out: %r" % n)
            ctx.count("created_names")
    ctx.klass("creation", sp, o.ok, sorted(set(cands.index(x) for x in store))[0])


GROUPS = [
    Group("extract", extract, 700, 9000, {"watched_runs": 500, "refused": 50, "ok": 50}),
    Group("extract_cli", extract_cli, 80, 800),
    Group("reconstruct", reconstruct, 500, 6000),
    Group("archived", archived, 100, 1000),
    Group("srs", srs, 400, 5000, {"srs_rebuilt_inside": 30}),
    Group("creation", creation, 200, 2000, {"created_names": 200}),
]
