"""R08: existing files are overwritten only with consent."""
import io, os
from mon import srrlib, srrparse
from mon.core import Group, difftree, files, read, tree
from mon.srrlib import rescene, rmain, MsgCode
from mon.checks import a02, a03

PROPERTY = "R08"
RULE = ("creation, extraction, reconstruction and sample work into an output folder where random outputs already exist "
        "(same, other, empty content), through the library and the command lines, with every way of (not) consenting; "
        "a monitor on file system events and file identity watches the existing files, and the rest is compared with a "
        "fresh run. Distinct: operation x consent x which outputs exist")
ASSUMPTIONS = ["merging into a named output file has no consent step in the tool and is not judged"]

FAKE = [b"", b"precious", b"x" * 3000]


def identity(p):
    st = os.stat(p)
    return (st.st_ino, st.st_mtime_ns, st.st_size, st.st_mode, read(p))


def plant(ctx, out, fresh, at_least=1):
    """let a random part of the outputs exist already: {relative: content}"""
    rng = ctx.rng
    names = sorted(fresh)
    k = rng.choice([1, 1, 2, len(names)])
    pick = rng.sample(names, min(len(names), max(at_least, k)))
    d = {}
    for n in pick:
        how = rng.randrange(5)
        data = fresh[n] if how == 0 else FAKE[1 + how % 2] if how < 4 else FAKE[0]
        d[n] = data
        p = os.path.join(out, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        os.utime(p, (1000000000, 1000000000))
    # a bystander, never an output
    with open(os.path.join(out, "bystander.txt"), "wb") as f:
        f.write(b"not involved")
    d["bystander.txt"] = b"not involved"
    return d


class Watch(object):
    """no event that changes one of the protected paths"""
    def __init__(self, ctx, paths):
        self.ctx = ctx
        self.paths = dict((os.path.realpath(p), identity(p)) for p in paths)
        self.mark = len(ctx.guard.events)

    def verify(self, what, only=None):
        for p, ident in self.paths.items():
            if only is not None and p not in only:
                continue
            self.ctx.check(os.path.isfile(p), "%s: %s is gone" % (what, os.path.basename(p)))
            self.ctx.check(identity(p) == ident, "%s: the existing %s was changed without consent" % (what, os.path.basename(p)))
            for ev in self.ctx.guard.events[self.mark:]:
                if ev[0] != "read" and p in ev[1:]:
                    self.ctx.fail("%s: %s of the existing %s without consent" % (what, ev[0], os.path.basename(p)))
            self.ctx.count("protected")


def setup_release(ctx):
    r = srrlib.release(ctx, small=True, extra=ctx.rng.choice([1, 2, 4]))
    srr = srrlib.make_srr(ctx, r, True, name="in/made.srr") if os.makedirs(ctx.path("in"), exist_ok=True) is None else None
    r.write_archived(ctx.mkdir("arch"))
    return r, srr


def lib_op(ctx, op, r, srr, out):
    """(callable, name of result) for an operation writing below out"""
    if op == "create":
        store = [os.path.join(r.root, p) for p in r.extra if p not in r.sfvs]
        return lambda: rescene.create_srr(os.path.join(out, "new.srr"), srrlib.infiles(r), r.root, list(store), True)
    if op == "extract":
        return lambda: rescene.extract_files(srr, out)
    return lambda: rescene.reconstruct(srr, ctx.path("arch"), out)


def library(ctx):
    rng = ctx.rng
    r, srr = setup_release(ctx)
    op = rng.choice(["create", "extract", "reconstruct", "reconstruct"])
    ctx.must(lib_op(ctx, op, r, srr, ctx.mkdir("fresh")))
    fresh = files(ctx.path("fresh"))
    if not fresh:
        return
    out = ctx.mkdir("out")
    had = plant(ctx, out, fresh)
    consent = rng.choice(["default", "default", "no", "yes", "some"])
    ctx.note.update(op=op, consent=consent, had=sorted(had))
    granted = set()
    asked = []
    if consent == "default":
        decide = None
    else:
        def decide(path):
            p = os.path.relpath(path, out)
            asked.append(p)
            if p not in had:
                return True
            yes = consent == "yes" or consent == "some" and rng.random() < 0.6
            if yes:
                granted.add(p)
            return yes
        srrlib.set_overwrite(decide)
    ev = srrlib.subscribe()
    w = Watch(ctx, [os.path.join(out, n) for n in had])
    o = ctx.call(lib_op(ctx, op, r, srr, out))
    ctx.check(o.ok, "%s into a folder with existing files: %s" % (op, o.brief()))
    kept = [n for n in had if n not in granted]
    w.verify(op, set(os.path.realpath(os.path.join(out, n)) for n in kept))
    after = files(out)
    for n, data in after.items():
        if n in kept:
            continue
        ctx.check(n in fresh, "%s left a file no fresh run makes: %s" % (op, n))
        ctx.check(data == fresh[n], "%s wrote %s not as a fresh run does" % (op, n))
        ctx.count("as_fresh")
    blocked = [n for n in kept if n in fresh]
    if op == "create":
        ctx.equal(o.value, not blocked, "result of the creation")
        ctx.check("new.srr" in after, "no SRR after creation")
    elif op == "extract":
        ctx.equal(sorted((os.path.relpath(p, out), bool(ok)) for p, ok in o.value),
                  sorted((n, n not in blocked) for n in fresh), "reported extraction result")
        ctx.equal(sorted(set(after) - {"bystander.txt"}), sorted(fresh), "files after the extraction")
    else:
        vols = [n for n, _ in r.expected_volumes(True)]
        stop = [i for i, n in enumerate(vols) if n in blocked]
        if blocked:
            ctx.check(ev.has(MsgCode.NO_OVERWRITE) or ev.has(MsgCode.USER_ABORTED), "nothing says that files were kept")
        if stop:
            ctx.check(o.value == -1, "reconstruction stopped at an existing volume but returned %r" % (o.value,))
        else:
            ctx.check(o.value is None, "finished reconstruction returned %r" % (o.value,))
            ctx.equal(sorted(set(after) - {"bystander.txt"}), sorted(fresh), "files after reconstruction")
        for n in vols[:stop[0]] if stop else []:
            ctx.equal(after.get(n), fresh[n], "volume %s before the existing one" % n)
    ctx.count("kept" if blocked else "replaced")
    ctx.klass("lib", op, consent, min(3, len(blocked)), min(3, len(granted)), any(had[n] == fresh.get(n) for n in blocked))
    ctx.sample(dict(op=op, consent=consent, existing=sorted(had), granted=sorted(granted)))


def answers_for(rng, existing, how):
    """text typed for each question, in order, and the set of paths granted"""
    text, granted = "", set()
    for n in existing:
        if how == "y":
            yes = True
        elif how == "n":
            yes = False
        else:
            yes = rng.random() < 0.6
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            text += rng.choice(["maybe", "", "yes", "no", "1"]) + "\n"
        text += rng.choice("yY" if yes else "nN") + "\n"
        if yes:
            granted.add(n)
    return text, granted


def command(ctx):
    from rescene import srr as tool
    rng = ctx.rng
    r, srr = setup_release(ctx)
    op = rng.choice(["create", "extract", "regex", "reconstruct"])
    if op == "create":
        store = []
        for p in sorted(r.extra):
            if p not in r.sfvs:
                store += ["-s", os.path.join(r.root, p)]
        ins = srrlib.infiles(r)
        def argv(out):
            return ins + store + ["-p", "-i", r.root, "-o", os.path.join(out, "new.srr")]
    elif op == "extract":
        def argv(out):
            return [srr, "-x", "-p", "-o", out]
    elif op == "regex":
        def argv(out):
            return [srr, "--extract-regex", r".*[ae]", "-p", "-o", out]
    else:
        def argv(out):
            return [srr, "-p", "-i", ctx.path("arch"), "-o", out]
    res = srrlib.cli(ctx, tool.main, argv(ctx.mkdir("fresh")), cwd=ctx.dir)
    ctx.check(res["rc"] == 0 and not res["exc"], "fresh %s failed: %r" % (op, res))
    fresh = files(ctx.path("fresh"))
    if not fresh:
        return
    out = ctx.mkdir("out")
    had = plant(ctx, out, fresh)
    how = rng.choice(["-n", "-n", "-y", "y", "n", "mix"])
    # order in which the questions come
    if op == "create":
        order = ["new.srr"]
    else:
        order = [n for n, _ in srrparse.Srr(read(srr)).stored if n in fresh]
        if op == "reconstruct":
            order += [n for n, _ in r.expected_volumes(True)]
    asked = [n for n in order if n in had]
    extra, text, granted = [], None, set()
    if how in ("-n", "-y"):
        extra = [how]
        granted = set(asked) if how == "-y" else set()
    else:
        text, granted = answers_for(rng, asked, how)
    ctx.note.update(op=op, how=how, had=sorted(had), granted=sorted(granted))
    vols = [n for n, _ in r.expected_volumes(True)] if op == "reconstruct" else []
    stop = [i for i, n in enumerate(vols) if n in had and n not in granted]
    if stop:    # nothing after the declined volume
        granted -= set(vols[stop[0]:])
    before = dict((n, identity(os.path.join(out, n))) for n in had)
    res = srrlib.cli(ctx, tool.main, argv(out) + extra, cwd=ctx.dir, answers=text)
    ctx.check(res["died"] is None and not res["exc"], "%s: %r" % (op, res))
    kept = [n for n in had if n not in granted]
    for n in kept:
        p = os.path.join(out, n)
        ctx.check(os.path.isfile(p) and identity(p) == before[n], "%s %s: existing %s was changed without consent" % (op, how, n))
        ctx.count("protected")
    after = files(out)
    for n, data in after.items():
        if n in kept:
            continue
        ctx.check(n in fresh and data == fresh[n], "%s %s: %s is not what a fresh run writes" % (op, how, n))
        ctx.count("as_fresh")
    if not stop:
        ctx.equal(sorted(set(after) - {"bystander.txt"}), sorted(fresh), "%s: files afterwards" % op)
    else:
        for n in vols[:stop[0]]:
            ctx.equal(after.get(n), fresh[n], "volume %s before the existing one" % n)
    blocked = [n for n in kept if n in fresh]
    said = res["out"] + res["err"]
    if blocked:
        ctx.check("not overwritten" in said or "not extracted" in said or "already exists" in said,
                  "%s kept existing files without saying so: %r" % (op, said[-300:]))
        ctx.count("kept")
        if op == "create":
            ctx.check("successfully" not in said, "claims success without writing")
    else:
        ctx.count("replaced")
        ctx.equal(res["rc"], 0, "exit code of %s" % op)
    ctx.klass("cli", op, how, min(3, len(blocked)), min(3, len(granted)))


def samples(ctx):
    """srs tool: creation and rebuilding with the output already there"""
    from resample import srs as tool
    rng = ctx.rng
    off = rng.choice([0, 1500])
    main = bytearray(rng.randbytes(6000))
    for i in (0, off):          # not to be taken for another format
        main[i:i + 4] = b"\x00\x00\x01\xba"
    main = bytes(main)
    data = main[off:off + 2500]
    sp = ctx.write("in/smp.vob", data)
    mp = ctx.write("in/main.vob", main)
    op = rng.choice(["create", "rebuild"])
    made = ctx.mkdir("fresh")
    res = srrlib.cli(ctx, tool.main, [sp, "-o", made], cwd=ctx.dir)
    ctx.check(res["rc"] == 0 and not res["exc"], "fresh SRS creation failed: %r" % res)
    name = "smp.srs"
    fresh = read(os.path.join(made, name))
    if op == "rebuild":
        srs = ctx.write("in/smp.srs", fresh)
        name, fresh = "smp.vob", data
    out = ctx.mkdir("out")
    how = rng.choice(["-y", "y", "n", "n"])
    old = rng.choice([b"", b"precious", fresh, fresh[:-1] + bytes([fresh[-1] ^ 1])])
    p = ctx.write("out/" + name, old)
    os.utime(p, (1000000000, 1000000000))
    before = identity(p)
    argv = [sp, "-o", out] if op == "create" else [srs, mp, "-o", out]
    text, granted = None, {name}
    if how == "-y":
        argv.append("-y")
    else:
        text, granted = answers_for(rng, [name], how)
    ctx.note.update(op=op, how=how, text=text)
    res = srrlib.cli(ctx, tool.main, argv, cwd=ctx.dir, answers=text)
    ctx.check(res["died"] is None and not res["exc"], "srs %s: %r" % (op, res))
    if granted:
        ctx.equal(read(p), fresh, "srs %s with consent: the result" % op)
        ctx.equal(res["rc"], 0, "exit code of srs %s" % op)
        ctx.count("replaced")
    else:
        ctx.check(os.path.isfile(p) and identity(p) == before, "srs %s changed the existing file without consent" % op)
        ctx.check("aborted" in res["out"] + res["err"], "declined srs %s doesn't say so" % op)
        ctx.check("Successfully" not in res["out"], "declined srs %s claims success" % op)
        ctx.count("protected")
        ctx.count("kept")
    ctx.equal(sorted(files(out)), [name], "files after srs %s" % op)
    ctx.klass("srs", op, how, old == fresh)


GROUPS = [Group("library", library, 400, 6000, {"protected": 300, "as_fresh": 100, "kept": 100, "replaced": 60}),
          Group("command", command, 220, 2500, {"protected": 100, "kept": 40, "replaced": 40}),
          Group("samples", samples, 80, 800, {"kept": 20, "replaced": 20}),
          Group("retag", a02.tracks_, 60, 1000, {"tracks": 30}),
          Group("auto", a03.releases, 15, 300, {"good": 5})]
