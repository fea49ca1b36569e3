"""A01: automatic SRR creation captures the release and only reads it."""
import importlib.util, os, shutil, tempfile
from mon import autorel, media, rargen, srrlib
from mon.core import Group, REPO, difftree, files, read, short, tree
from mon.srrlib import rescene
import resample.srs as srs

PROPERTY = "A01"
RULE = ("Releases are generated (video with one or more sets, music on one or more discs, fixes; samples of every container, "
        "broken and empty samples, proofs, images, rarred subtitles, logs, cues and files that do not belong) below folders of "
        "any name, and the automatic maker is run on them with random options. Monitors compare the whole file tree with what "
        "it was, the temporary folder with an empty one, the stored files with the list the release entitles to, the volumes "
        "rebuilt from the SRR with the originals and each sample rebuilt from its SRS with the sample. Non-trivial: an SRR was "
        "made and compared; classes: kind of release, options and features of the release.")
ASSUMPTIONS = ["unrar is installed for the SRRs of subtitles (otherwise that part is skipped)",
               "images in the root that are neither called proof nor start with 00 are a matter of taste; only sizes below 100 kB are judged"]
UNRAR = shutil.which("unrar")


def tool(name):
    p = os.path.join(REPO, "bin", name + ".py")
    spec = importlib.util.spec_from_file_location("tool_" + name, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


auto = tool("pyrescene")


def prepare(ctx):
    media.setup(ctx)
    if UNRAR:
        ctx.guard.allow_exec.add(UNRAR)
    return ctx.mkdir("tmp")


def run(ctx, argv, cwd=None, main=None, **kw):
    tmp = ctx.path("tmp")

    def setup():
        tempfile.tempdir = tmp
    ctx.note["argv"] = argv
    return srrlib.cli(ctx, main or auto.main, argv, cwd=cwd or ctx.mkdir("cwd"), setup=setup, **kw)


def say(o):
    return (o["out"] or "")[-900:] + " | " + (o["err"] or "")[-700:] + " | " + str(o["exc"])


def options(ctx, rel):
    """-> (arguments, set of choices)"""
    rng = ctx.rng
    argv, on = [], set()
    if rng.random() < 0.3:
        argv.append("--best")
        on |= set("csv")
    else:
        for k, p, l in (("c", 0.3, "--compressed"), ("s", 0.4, "--sample-verify"), ("v", 0.4, "--vobsub-srr")):
            if rng.random() < p:
                on.add(k)
                argv.append(rng.choice(["-" + k, l]))
    if rng.random() < 0.12:
        argv.append("--no-srs")
        on.add("nosrs")
    if rng.random() < 0.1:
        argv.append("--no-isdb")
        on.add("noisdb")
    if rng.random() < 0.3:
        argv.append(rng.choice(["-y", "--always-yes", "-n", "--always-no"]))
    return argv, on


def expected(ctx, rel, on, skip=lambda p: False):
    """-> (stored bytes, SRS, names of which only the presence is judged)"""
    st = dict(rel.stored)
    names = set()
    if "nosrs" in on:
        s = {}
    else:
        s = dict(rel.srs)
        names |= set(rel.vobs)
        names |= set(p + ".txt" for p in rel.txt)
    sub = {}
    if "v" in on and UNRAR:
        sub = dict(rel.subs)
    for d in (st, s, sub):
        for k in [k for k in d if skip(k)]:
            del d[k]
    return st, s, set(n for n in names if not skip(n)), sub


def stored_list(ctx, path):
    """[(name, bytes)] of an SRR"""
    from mon import srrparse
    p = srrparse.Srr(read(path))
    return [(n, bytes(d)) for n, d in p.stored], p


def judge(ctx, rel, srr, on, skip=lambda p: False, missing_ok=lambda p: False, deep=True, extra_ok=lambda p: False):
    st, s, names, sub = expected(ctx, rel, on, skip)
    ctx.check(os.path.isfile(srr), "no SRR for " + rel.name, "missing")
    lst, p = stored_list(ctx, srr)
    got = dict(lst)
    ctx.equal(len(lst), len(got), "a file is stored more than once: %r" % sorted(n for n, _ in lst))
    want = set(st) | set(s) | names | set(sub)
    more = set(n for n in set(got) - want if not extra_ok(n))
    ctx.check(not more, "stored but not part of what is kept of the release: %r" % sorted(more), "extra")
    gone = set(n for n in want - set(got) if not missing_ok(n))
    ctx.check(not gone, "not stored: %r" % sorted(gone), "gone")
    for n in st:
        if n in got:
            ctx.check(got[n] == st[n], "stored file %s differs from the one in the release (%d and %d bytes)" % (
                n, len(got[n]), len(st[n])), "bytes")
            ctx.count("stored_compared")
    # order
    order = [n for n, _ in lst]
    if rel.music and any(n.endswith(".srs") for n in order):
        nfos = [n.lower().endswith(".nfo") for n in order]
        ctx.check(nfos == sorted(nfos, reverse=True), "nfo files are not at the top: %r" % order, "order")
    elif not rel.music:
        last = [n for n in order if n in rel.main_sfvs]
        ctx.check(order[len(order) - len(last):] == last or rel.kind == "fix", "the SFV files of the sets are not last: %r" % order,
                  "order")
    # the sets
    o = ctx.call(rescene.info, srr)
    ctx.check(o.ok, "the SRR cannot be read: " + o.brief())
    vols = rel.volumes()
    ctx.equal(sorted(v[0] for v in p.volumes), sorted(vols), "volumes in the SRR")
    ctx.count("srr_judged")
    if not deep:
        return got
    k = tempfile.mkdtemp(dir=ctx.dir)
    if vols:
        src, out = os.path.join(k, "src"), os.path.join(k, "out")
        os.makedirs(src), os.makedirs(out)
        for folder, rs in rel.sets:
            for f in rs.files:
                with open(os.path.join(src, f.name), "wb") as h:
                    h.write(f.data)
        o = ctx.call(rescene.reconstruct, srr, src, out, True, extract_files=False)
        ctx.check(o.ok, "the volumes cannot be rebuilt: " + o.brief(), info=o.tb[-900:])
        ctx.check(files(out) == vols, "the rebuilt volumes differ from the release", "volumes")
        ctx.count("volumes", len(vols))
    for n, (data, main, ext) in s.items():
        if n not in got:
            continue
        d = os.path.join(k, "s%d" % len(os.listdir(k)))
        os.makedirs(d)
        for name, b in (("x.srs", got[n]), ("main" + ext, main)):
            with open(os.path.join(d, name), "wb") as h:
                h.write(b)
        o = ctx.call(srs.main, [os.path.join(d, "x.srs"), os.path.join(d, "main" + ext), "-o", os.path.join(d, "out")])
        ctx.check(o.exc is None and o.exit in (0, None), "the sample of %s cannot be rebuilt: %s" % (n, o.brief()), "srs", info=o.err[-600:])
        r = files(os.path.join(d, "out"))
        ctx.check(list(r.values()) == [data], "the sample of %s is rebuilt wrong: %r" % (n, dict((a, len(b)) for a, b in r.items())), "srs")
        ctx.count("samples")
    for n, (name, v) in rel.vobs.items():
        if n not in got:
            continue
        d = os.path.join(k, "w%d" % len(os.listdir(k)))
        os.makedirs(d)
        with open(os.path.join(d, "x.srr"), "wb") as h:
            h.write(got[n])
        l2, p2 = stored_list(ctx, os.path.join(d, "x.srr"))
        ctx.check([x[0] for x in p2.volumes] == [os.path.basename(name)] and p2.volumes[0][1] == v.skeleton and not l2,
                  "the SRR of the rarred sample %s: %r" % (name, [x[0] for x in p2.volumes]), "vob")
        ctx.count("rarred vobs")
    for n, (rs, nested, lines) in sub.items():
        if n not in got:
            continue
        d = os.path.join(k, "v%d" % len(os.listdir(k)))
        os.makedirs(d)
        with open(os.path.join(d, "x.srr"), "wb") as h:
            h.write(got[n])
        l2, p2 = stored_list(ctx, os.path.join(d, "x.srr"))
        g2 = dict(l2)
        ctx.equal(sorted(v[0] for v in p2.volumes), sorted(v.name for v in rs.volumes), "volumes of " + n)
        ctx.equal(sorted(g2), sorted([b.volumes[0].name[:-4] + ".srr" for b in nested.values()] + ["languages.diz"]), "files stored in " + n)
        diz = g2["languages.diz"]
        ctx.check(sorted(diz.splitlines()) == sorted(b"".join(lines).splitlines()), "languages.diz of %s: %s, expected %s" % (
            n, short(diz), short(b"".join(lines))), "languages")
        for a, rs2 in nested.items():
            with open(os.path.join(d, "y.srr"), "wb") as h:
                h.write(g2[rs2.volumes[0].name[:-4] + ".srr"])
            l3, p3 = stored_list(ctx, os.path.join(d, "y.srr"))
            ctx.equal(sorted(v[0] for v in p3.volumes), sorted(v.name for v in rs2.volumes), "volumes of the nested set in " + n)
        ctx.count("subs")
    return got


def one(ctx, kind):
    rng = ctx.rng
    prepare(ctx)
    rel = autorel.make(rng, kind)
    parent = rng.choice(autorel.PARENTS)
    root = os.path.join(ctx.mkdir(parent), rel.name)
    rel.write(root)
    os.makedirs(root, exist_ok=True)
    cwd = ctx.mkdir("cwd")
    argv, on = options(ctx, rel)
    skip = lambda p: False
    if rng.random() < 0.2 and rel.stored:
        n = rng.choice(sorted(rel.stored))
        b = os.path.basename(n)
        how = rng.choice(["-x", "list", "regex", "both"])
        if not n.lower().endswith(".sfv"):
            if how in ("-x", "both"):
                argv += [rng.choice(["-x", "--skip"]), b]
            if how == "list":
                argv += ["--skip-list", ctx.write("skip.txt", ("other\n" + b + "\n").encode())]
            if how in ("regex", "both"):
                import re
                argv += ["--skip-regex", ".*" + re.escape(b) + "$"]
            skip = (lambda p: os.path.basename(p) == b) if how in ("-x", "list") else (lambda p: p.lower().endswith(b.lower()))
            on.add("skip")
    where = rng.choice(["-o", "-o", "cwd", "-d", "new"])
    out = ctx.path("out")
    if where in ("-o", "new"):
        if where == "-o":
            os.makedirs(out)
        argv += ["-o", rng.choice([out, os.path.relpath(out, cwd)])]
    elif where == "cwd":
        out = cwd
    else:
        argv += ["-d"]
        out = root
        if rng.random() < 0.5:
            os.makedirs(ctx.path("out"))
            argv += ["-o", ctx.path("out")]
    if rng.random() < 0.3:
        argv += ["-t", ctx.mkdir("tmp/own")]
    arg = rng.choice([root, root + os.sep, os.path.relpath(root, cwd)])
    at = rng.random()
    argv = [arg] + argv if at < 0.5 else argv + [arg]
    if rng.random() < 0.3:
        argv += ["-r"]
    before = tree(ctx.dir)
    ctx.note.update(kind=rel.kind, features=sorted(rel.features), files=sorted(rel.files)[:60], srs=sorted(rel.srs))
    o = run(ctx, argv, cwd)
    ctx.check(o["exc"] is None and o["died"] is None, "the run failed: " + say(o)[-1500:], "run")
    ctx.check(o["rc"] == 0, "exit code %r for a good release: %s" % (o["rc"], say(o)), "exit")
    after = tree(ctx.dir)
    srr = os.path.join(out, rel.name + ".srr")
    rs = os.path.relpath(srr, ctx.dir)
    new = dict((k, v) for k, v in after.items() if k not in before and k not in (rs, "out"))
    ctx.check(not new, "left behind: %r" % sorted(new), "left")
    ctx.check(all(after.get(k) == v for k, v in before.items()), "something else was changed: %r" % sorted(
        k for k, v in before.items() if after.get(k) != v), "changed")
    judge(ctx, rel, srr, on, skip)
    ctx.klass(rel.kind, where, *(sorted(on) + sorted(rel.features)))
    ctx.sample(dict(kind=rel.kind, argv=argv, files=len(rel.files), features=sorted(rel.features)))


GROUPS = [
    Group("video", lambda ctx: one(ctx, "video"), quick=150, thorough=4000, need={"srr_judged": 140, "volumes": 200, "samples": 80}),
    Group("music", lambda ctx: one(ctx, "music"), quick=80, thorough=2000, need={"srr_judged": 70, "samples": 50}),
    Group("clips", lambda ctx: one(ctx, "clips"), quick=30, thorough=1000, need={"srr_judged": 25, "samples": 25}),
    Group("fix", lambda ctx: one(ctx, "fix"), quick=20, thorough=300, need={"srr_judged": 15}),
]
