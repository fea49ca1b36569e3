"""S08: the srs command line never destroys files and its exit code is true."""
import os, tempfile
from mon import media, rargen, srrlib
from mon.core import Group, files, tree, read, difftree, short
from mon.checks.s03 import load
import resample.srs as srs

PROPERTY = "S08"
RULE = ("Four families over generated samples of every container: (options) creation, rebuilding, listing, profiling and "
        "wrong argument lists with every way to name the result, relative and absolute paths, existing results and answers to "
        "the question, called as a program and as a library; (faults) an I/O error, a permission error or the death of the "
        "process at each file system event of a creation or rebuild; (disk) the disk full at sampled sizes, with and without "
        "death of the process; (inplace) music is repaired in its own folder, written directly, through links or another way. A monitor compares the exit code and the whole file tree with what the request entitles to. A "
        "case is non-trivial when a run was judged; its class is the operation, the naming, the answer, the fault and the result.")
ASSUMPTIONS = ["declining to replace an existing SRS is an orderly end (exit code zero, as documented by the question)",
               "when the process dies, a temporary file (NAME-*.tmp) next to the result may stay",
               "the name given with --ddd is not judged, only the folder"]


def bad(o):
    return (o["out"][-500:] + " | " + o["err"][-700:] + " | " + str(o["exc"]))


def prepare(ctx, fmt):
    media.setup(ctx)
    rng = ctx.rng
    m = media.make(rng, fmt)
    m.stem = media.stem(rng)
    m.name = m.stem + m.ext
    m.sp = ctx.write(os.path.join("rel", "Sample", m.name), m.data)
    m.mp = ctx.write("m/movie" + m.ext.lower(), m.main)
    ctx.write("rel/other.nfo", b"nfo")
    ctx.write("out/keep.txt", b"keep")
    m.srsp = ctx.path("srs", m.stem + ".srs")
    ctx.mkdir("srs")
    o = ctx.call(srs.main, [m.sp, "-o", m.srsp] + (["-c", m.mp] if rng.random() < 0.5 else []))
    ctx.check(o.exc is None and o.exit in (0, None), "no SRS made: " + o.brief(), "create", info=o.err[-900:])
    m.srs = read(m.srsp)
    return m


def snapshot(ctx):
    t = tree(ctx.dir)
    return dict((k, v) for k, v in t.items() if k != "tmp" and not k.startswith("tmp/"))


ANSWERS = [("y\n", True), ("Y\n", True), ("n\n", False), ("N\n", False), ("\nmaybe\ny\n", True), ("yes\nno\nn\n", False), ("", None)]


def options(ctx, fmt):
    rng = ctx.rng
    m = prepare(ctx, fmt)
    op = rng.choice(["create"] * 5 + ["rebuild"] * 4 + ["list", "info", "wrong", "wrong", "wrong"])
    lib = rng.random() < 0.3
    cwd = ctx.dir
    if op != "create" and rng.random() < 0.3:
        up = m.srsp[:-3] + rng.choice(["SRS", "Srs"])
        os.rename(m.srsp, up)
        m.srsp = up
    argv, target, good, there = [], None, True, False
    how = ""
    anyname = False
    if op == "create":
        arg = m.sp
        cwd = rng.choice([ctx.dir, ctx.path("rel/Sample"), ctx.path("out")])
        if rng.random() < 0.4:
            arg = os.path.relpath(m.sp, cwd)
        argv = [arg]
        how = rng.choice(["cwd", "file", "file", "dir", "--d", "--dd", "--ddd", "dir--d", "dir--dd", "nodir", "nodirfile", "relfile", "reldir"])
        base = m.stem + ".srs"
        if how == "cwd":
            target = os.path.join(cwd, base)
        elif how == "file":
            target = ctx.path("out", rng.choice(["x.srs", "x y.SRS", "\u00e9.srs"]))
            argv += ["-o", target]
        elif how == "relfile":
            target = ctx.path("out", "x.srs")
            argv += ["-o", os.path.relpath(target, cwd)]
        elif how in ("dir", "reldir"):
            target = ctx.path("out", base)
            argv += ["-o", ctx.path("out") if how == "dir" else os.path.relpath(ctx.path("out"), cwd)]
        elif how in ("--d", "dir--d"):
            target = os.path.join(cwd if how == "--d" else ctx.path("out"), "Sample.srs")
        elif how in ("--dd", "dir--dd"):
            target = os.path.join(cwd if how == "--dd" else ctx.path("out"), "rel.srs")
        elif how == "--ddd":
            target = ctx.path("rel", base)
            anyname = True
        else:
            argv += ["-o", ctx.path("gone" if how == "nodir" else "gone/x.srs")]
            good = False
        if how.startswith("dir-"):
            argv += ["-o", ctx.path("out")]
        if "--d" in how:
            argv += [how[how.index("--"):]]
        if rng.random() < 0.3:
            argv += ["-c", m.mp]
        elif rng.random() < 0.1:
            argv += ["-c", ctx.path("nothere")]
            good = False
        want = None
    elif op == "rebuild":
        how = rng.choice(["cwd", "out", "out", "new", "new/er", "relout"])
        out = {"cwd": cwd, "relout": ctx.path("out")}.get(how, ctx.path(how))
        argv = [m.srsp, m.mp]
        if how != "cwd":
            argv += ["-o", "out" if how == "relout" else out]
        if rng.random() < 0.3:
            argv += ["-m"]
        target = os.path.join(out, m.name)
        want = m.data
        if rng.random() < 0.25:
            piece = max(m.tracks.values(), key=len)[:12]
            if len(piece) == 12 and m.main.count(piece) == 1:
                good = False
                b = bytearray(m.main)
                b[b.find(piece)] ^= 0x10
                ctx.write("m/movie" + m.ext.lower(), bytes(b))
    elif op == "list":
        argv = [m.srsp, "-l"]
    elif op == "info":
        argv = [m.sp, "-i"] + (["-o", ctx.path("out")] if rng.random() < 0.5 else [])
    else:
        good = False
        ctx.write("junk.bin", rng.choice([b"", b"x" * 50, rng.randbytes(3000)]))
        ctx.write("junk.srs", rng.choice([b"", b"x" * 50, rng.randbytes(3000)]))
        argv = rng.choice([
            ["nothere"], ["nothere.srs", m.mp], [m.srsp, "nothere"], ["junk.bin"], ["junk.srs", m.mp], ["junk.srs", "-l"], [ctx.dir],
            [m.srsp], [m.sp, m.mp], [m.srsp, m.mp, m.sp], [m.sp, "--d", "--dd"], [m.sp, "--dd", "--ddd"], [m.srsp, ctx.path("out")],
            [m.sp, "--nonsense"], [m.sp, "-o"], [m.sp, "-c", "junk.bin"], [m.sp, "-c", ctx.dir], [m.srsp, "junk.bin"]])
        if argv == [m.sp, "-c", "junk.bin"] and fmt == "stream" or argv[1:] == ["junk.bin"] and fmt == "stream":
            argv = ["nothere"]
        how = " ".join(os.path.basename(a) for a in argv)
    answer, consent = None, True
    if target and good and rng.random() < 0.6:
        there = True
        os.makedirs(os.path.dirname(target), exist_ok=True)
        with open(target, "wb") as f:
            f.write(rng.choice([b"", b"precious", m.data, rng.randbytes(5000)]))
    if op in ("create", "rebuild"):
        if rng.random() < 0.35:
            argv.insert(rng.randint(0, len(argv)) if "-o" not in argv and "-c" not in argv else len(argv), rng.choice(["-y", "--always-yes"]))
        else:
            answer, consent = rng.choice(ANSWERS)
    ctx.note.update(m.describe(), op=op, argv=argv, how=how, there=there, answer=answer, lib=lib, good=good, cwd=cwd)
    before = snapshot(ctx)
    main = (lambda a: srs.main(a, no_exit=True)) if lib else srs.main
    o = srrlib.cli(ctx, main, argv, cwd=cwd, answers=answer)
    after = snapshot(ctx)
    ctx.check(o["died"] is None, "the process died: %s" % o["died"])
    if lib:
        failed = o["exc"] is not None or o["exit"] not in (None, 0)
    else:
        ctx.check(o["exc"] is None, "an exception comes out of the command line", "escape", info=bad(o))
        ctx.check(o["exit"] is None or isinstance(o["exit"], int), "no exit code", info=bad(o))
        failed = o["rc"] != 0
    asked = there and "-y" not in argv and "--always-yes" not in argv
    declined = asked and not consent
    rel = os.path.relpath(target, ctx.dir) if target else None
    diff = difftree(before, after)
    if op in ("create", "rebuild") and good and not declined:
        ctx.check(not failed, "%s (%s) failed with exit code %s" % (op, how, o["rc"]), "refused", info=bad(o))
        if anyname:
            new = [k for k in after if before.get(k) != after[k]]
            ctx.check(len(new) == 1 and os.path.dirname(new[0]) == "rel" and new[0].endswith(".srs"), "files made: %s" % new)
            rel = new[0]
        folders = [rel]
        while os.path.dirname(folders[-1]):
            folders.append(os.path.dirname(folders[-1]))
        ctx.check(rel in after, "success reported, but there is no result %s: %s" % (rel, short(diff)), "noresult", info=bad(o))
        ctx.equal(sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0) and k not in folders), [],
                  "other files changed")
        if op == "rebuild":
            ctx.check(after[rel] == m.data, "success reported, but the result is not the sample", "wrong", info=bad(o))
        else:
            s, f, tr = load(ctx, os.path.join(ctx.dir, rel), "the SRS made")
            ctx.equal((f.size, f.crc32 & 0xFFFFFFFF, f.sample_name), (len(m.data), m.crc, m.name), "SRS made")
        ctx.count(op)
        if there:
            ctx.count("replaced")
    elif op in ("list", "info"):
        ctx.check(not failed, "%s failed with exit code %s" % (op, o["rc"]), "refused", info=bad(o))
        ctx.equal(diff, [], "%s changed files" % op)
    else:
        if declined:
            ctx.count("declined")
            ctx.check(failed or (op == "create" and consent is False), "success reported, nothing done", info=bad(o))
        else:
            ctx.count("errors")
            ctx.check(failed, "%s (%s): exit code zero, although nothing could be done" % (op, how), "zero", info=bad(o))
            ctx.check(lib or (o["err"] + o["out"]).strip(), "no message")
        d = [x for x in diff if not (op == "rebuild" and how.startswith("new") and x[-1:] != "/" and isdir(after, x))]
        ctx.check(d == [], "%s (%s) failed, but the files changed: %s" % (op, how, short(d)), "left", info=bad(o))
    ctx.equal(files(ctx.path("tmp")), {}, "temporary files left")
    ctx.klass(fmt, op, how, there, declined, consent, lib, o["rc"])


def inplace(ctx, fmt):
    """music is repaired in the folder where it is, by any way to write that folder, or in another one"""
    rng = ctx.rng
    m = prepare(ctx, fmt)
    at, = m.offsets[1]
    n = len(m.tracks[1])
    given, good = bytearray(m.main), True
    if n > 300 and rng.random() < 0.7:
        given[at + rng.randrange(256, n)] ^= 1 << rng.randrange(8)
        good = False
    src = ctx.write("in/" + m.name, bytes(given))
    where = rng.choice(["in", "in", "link", "link", "dots", "filelink", "out", "hard"])
    spelled = {"in": ctx.path("in"), "link": ctx.path("way"), "dots": ctx.path("out", "..", "in"), "filelink": ctx.path("in2"),
               "out": ctx.path("out"), "hard": ctx.path("in3")}[where]
    os.symlink("in", ctx.path("way"))
    ctx.mkdir("in2"), ctx.mkdir("in3")
    os.symlink(os.path.join("..", "in", m.name), ctx.path("in2", m.name))
    os.link(src, ctx.path("in3", m.name))
    given_as = src if rng.random() < 0.6 else ctx.path("way", m.name)
    cwd = ctx.dir
    if rng.random() < 0.3:
        spelled = os.path.relpath(spelled, cwd) if where != "dots" else os.path.join("out", "..", "in")
        given_as = os.path.relpath(given_as, cwd)
    keep = rng.random() < 0.5
    answer, consent = None, True
    argv = [m.srsp, given_as, "-o", spelled] + (["-k"] if keep else [])
    if rng.random() < 0.6:
        argv.append("-y")
    else:
        answer, consent = rng.choice(ANSWERS)
    ctx.note.update(m.describe(), argv=argv, where=where, good=good, keep=keep, answer=answer)
    before = snapshot(ctx)
    o = srrlib.cli(ctx, srs.main, argv, cwd=cwd, answers=answer)
    after = snapshot(ctx)
    ctx.check(o["died"] is None and o["exc"] is None, "srs: %s" % bad(o))
    failed = o["rc"] != 0
    asked = where != "out"
    done = good and (consent or not asked)
    ctx.equal(failed, not done, "exit code %s" % o["rc"])
    changed = sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))
    folder = dict(link="in", dots="in", filelink="in2", hard="in3").get(where, where)
    target = folder + "/" + m.name
    allowed = set()
    if done:
        ctx.check(read(ctx.path(target)) == m.data, "success reported, but the result is not the track")
        allowed = {target, folder} | ({"way/" + m.name} if folder == "in" else set())
        ctx.count("repaired")
    else:
        ctx.check(read(src) == bytes(given), "the user's track was changed by a repair that failed or was not wanted")
        if keep and (consent or not asked) and not good:
            # the result is kept under its name or as a temporary file
            tmp = [k for k in changed if k.startswith((folder + "/", "way/")) and k.endswith(".tmp") and m.name in k]
            allowed = set(tmp) | {folder}
            if folder != "in":
                allowed.add(target)
            ctx.check(len(set(map(os.path.basename, tmp))) + (target in changed) <= 1, "more than one result: %r" % changed)
            ctx.count("kept", len(tmp) + (target in changed))
        ctx.count("unrepaired")
    ctx.equal([k for k in changed if k not in allowed and k not in ("in", "way", "in2", "in3", "out")], [], "other files changed")
    for k in ("srs", "rel", "m"):
        ctx.check(not [c for c in changed if c.startswith(k)], "other files changed: %r" % changed)
    ctx.equal(files(ctx.path("tmp")), {}, "temporary files left")
    ctx.klass(fmt, where, good, keep, done, o["rc"])


def isdir(after, x):
    return any(k in str(x) and after[k] is None for k in after if k.startswith("new"))


def operation(ctx, m):
    """-> (name, argv, folder, result name, its bytes or None for an SRS)"""
    rng = ctx.rng
    d = ctx.mkdir("out")
    if rng.random() < 0.5:
        argv = [m.sp, "-o", os.path.join(d, "x.srs"), "-y"]
        if rng.random() < 0.5:
            argv += ["-c", m.mp]
        o = srrlib.cli(ctx, srs.main, argv, answers="")
        ctx.check(o["rc"] == 0, "creation fails without a fault", info=bad(o))
        return "create", argv, d, "x.srs", read(os.path.join(d, "x.srs"))
    argv = [m.srsp, m.mp, "-o", d, "-y"] + (["-m"] if rng.random() < 0.5 else [])
    return "rebuild", argv, d, m.name, m.data


def faults(ctx, fmt, disk=False):
    rng = ctx.rng
    m = prepare(ctx, fmt)
    op, argv, d, name, want = operation(ctx, m)
    old = rng.choice([None, b"precious", rng.randbytes(len(want))])
    before = dict((k, v) for k, v in snapshot(ctx).items() if k != "out/" + name)

    def run(**kw):
        for f in os.listdir(d):
            if f != "keep.txt":
                os.unlink(os.path.join(d, f))
        for f in os.listdir(ctx.path("tmp")):
            os.unlink(ctx.path("tmp", f))
        if old is not None:
            with open(os.path.join(d, name), "wb") as f:
                f.write(old)
        o = srrlib.cli(ctx, srs.main, argv, answers="", count_reads=True, setup=lambda: setattr(tempfile, "tempdir", ctx.path("tmp")), **kw)
        return o, snapshot(ctx)

    def verdict(what, o, after):
        rest = dict((k, v) for k, v in after.items() if k != "out/" + name)
        cur = after.get("out/" + name)
        dead = o["died"] is not None
        if o["hit"] and o["hit"][0] == "remove":     # a file that can not be removed stays
            p = os.path.relpath(o["hit"][1], ctx.dir)
            if p.startswith("tmp/") or p.endswith(".tmp"):
                rest.pop(p, None)
                if os.path.exists(o["hit"][1]):
                    os.unlink(o["hit"][1])
        if dead:
            rest = dict((k, v) for k, v in rest.items() if not (k.startswith("out/" + name + "-") and k.endswith(".tmp")))
            ctx.check(cur == old or cur == want, "%s, %s: the result is neither the old nor the new one" % (op, what), "torn")
            ctx.count("deaths")
        elif o["rc"] == 0:
            ctx.check(cur == want, "%s, %s: success reported, but the result is %s" % (op, what, "missing" if cur is None else "wrong"),
                      "wrong", info=bad(o))
        else:
            ctx.check(cur == old, "%s, %s: failed, but the existing file is %s" % (
                op, what, "gone" if cur is None else "changed" if old is not None else "half made"), "lost", info=bad(o))
            ctx.count("errors")
        ctx.check(rest == before, "%s, %s (exit code %s): other files: %s" % (op, what, o["rc"], short(difftree(before, rest))), "left",
                  info=bad(o))
        if not dead:
            ctx.equal(files(ctx.path("tmp")), {}, "temporary files left")
    ctx.note.update(m.describe(), op=op, argv=argv, old=old is not None)
    o, after = run(fault=(1 << 30, "oserror"))
    verdict("no fault", o, after)
    ctx.check(o["rc"] == 0, "%s fails without a fault" % op, info=bad(o))
    n = o["n"]
    ctx.check(n >= 3, "only %d events observed" % n)
    if disk:
        for limit in sorted(set([0, 1, len(want) - 1, len(want) // 2, rng.randrange(len(want)), 4096 * rng.randint(0, 2)])):
            for kill in (False, True):
                ctx.note["limit"] = (limit, kill)
                o, after = run(fsize=limit, fsize_kill=kill)
                verdict("disk limit %d of %d" % (limit, len(want)), o, after)
                ctx.klass(fmt, op, "limit", kill, limit == 0, o["rc"])
        return
    for kind in ("oserror", "eacces", "crash"):
        for k in (range(1, n + 1) if n <= 40 else sorted(rng.sample(range(1, n + 1), 40))):
            ctx.note["fault"] = (kind, k, n)
            o, after = run(fault=(k, kind))
            verdict("%s at event %d of %d %s" % (kind, k, n, os.path.basename(str(o["hit"][-1])) if o["hit"] else ""), o, after)
            ctx.count("fault_points")
            ctx.klass(fmt, op, kind, o["hit"][0] if o["hit"] else k, old is None, o["rc"])


GROUPS = []
for f, q in (("avi", 120), ("mkv", 120), ("mp4", 120), ("wmv", 120), ("flac", 120), ("mp3", 120), ("stream", 120)):
    GROUPS.append(Group("options-" + f, lambda ctx, f=f: options(ctx, f), quick=q * 2, thorough=q * 25,
                        need={"create": q // 10, "rebuild": q // 10, "errors": q // 12, "replaced": q // 30}))
    GROUPS.append(Group("faults-" + f, lambda ctx, f=f: faults(ctx, f), quick=15, thorough=250, need={"fault_points": 90, "errors": 40}))
    GROUPS.append(Group("disk-" + f, lambda ctx, f=f: faults(ctx, f, True), quick=8, thorough=150, need={"errors": 4}))
for f in ("mp3", "flac"):
    GROUPS.append(Group("inplace-" + f, lambda ctx, f=f: inplace(ctx, f), quick=150, thorough=4000,
                        need={"repaired": 30, "unrepaired": 60, "kept": 15}))
