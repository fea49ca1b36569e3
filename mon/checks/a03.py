"""A03: automatic creation never leaves a half-made SRR that looks finished."""
import os, shutil, tempfile
from mon import autorel, rargen
from mon.checks import a01
from mon.checks.a01 import judge, run, say
from mon.core import Group, files, read, tree, Violation

PROPERTY = "A03"
RULE = ("(releases) several generated releases of which some cannot be captured (a volume missing, cut, empty or no RAR, "
        "compressed volumes without permission, no such folder) or of which the SRR exists are processed in one run, given one "
        "by one or found below a folder, with every way to answer the question; (faults) an I/O error, permission error or the "
        "death of the process at a file system event of a run over two releases; (disk) a full disk at sampled sizes. A monitor "
        "judges each release: a complete SRR or - with a nonzero exit code - none or the one that was there, nothing else changed. "
        "Non-trivial: a release was judged; classes: what was wrong, the answers, the fault and the result.")
ASSUMPTIONS = ["a file to be stored that cannot be copied, or a sample of which no SRS can be made (or read back), or an SRR of a rared vob sample is left out with a message "
               "(by design: unreadable discs)", "after the death of the process a file NAME.srr-*.tmp and the temporary folder may stay",
               "one I/O error is injected per run"]
OLD = b"\x69\x69\x69\x00\x00\x07\x00"      # an SRR without anything


def damage(rng, rel):
    """-> kind of the damage"""
    folder, rs = rng.choice(rel.sets)
    v = rng.choice(rs.volumes)
    p = autorel.join(folder, v.name)
    kind = rng.choice(["missing", "missing", "empty", "norar", "header", "first"])
    if kind == "first":
        p = autorel.join(folder, rs.volumes[0].name)
        del rel.files[p]
    elif kind == "missing":
        del rel.files[p]
    elif kind == "empty":
        rel.files[p] = b""
    elif kind == "norar":
        rel.files[p] = rng.choice([b"x" * 300, b"Rar!\x1a\x07\x01\x00" + bytes(300)])
    elif kind == "header":
        rel.files[p] = rel.files[p][:rng.choice([3, 6, 8, 19, 21, 27])]
    return kind


def small(rng):
    """a video or music release that is quickly processed"""
    while True:
        rel = autorel.make(rng, rng.choice(["video", "video", "music", "clips"]))
        if len(rel.srs) <= 2 and sum(map(len, rel.files.values())) < 60000 and not rel.subs:
            return rel


def snapshot(ctx):
    return dict((k, v) for k, v in tree(ctx.dir).items() if k.split(os.sep)[0] not in ("tmp", "cwd"))


def releases(ctx):
    rng = ctx.rng
    a01.prepare(ctx)
    parent = ctx.mkdir(rng.choice(["in", "in/x"]))
    out = ctx.mkdir("out")
    ctx.write("out/other.srr", OLD + b"other")
    rels, argv = [], []
    mode = rng.choice([[], ["-y"], ["-n"], []])
    answers = ""
    comp = rng.random() < 0.5
    for i in range(rng.randint(1, 4)):
        rel = small(rng)
        rel.name = "%s%d" % (rel.name, i)
        rel.bad = None
        rel.there = rng.random() < 0.25
        root = os.path.join(parent, rel.name)
        r = rng.random()
        if r < 0.35 and rel.kind == "video" and rel.sets:
            rel.bad = damage(rng, rel)
        elif r < 0.45 and rel.kind == "video":
            for folder, rs in rel.sets:
                for v in rs.volumes:
                    del rel.files[autorel.join(folder, v.name)]
            n = rel.main_sfvs[0]
            folder, rs = rel.sets[0]
            f = rargen.AFile("c.bin", rng.randbytes(900), method=0x33)
            rs2 = autorel.rarset(rng, os.path.basename(n)[:-4], [f], nvol_hint=rng.choice([1, 3]))
            rel.sets = [(folder, rs2)]
            for m in rel.main_sfvs[1:]:
                del rel.files[m], rel.stored[m]
            rel.main_sfvs = [n]
            for v in rs2.volumes:
                rel.files[autorel.join(folder, v.name)] = v.data
            rel.files[n] = rel.stored[n] = autorel.sfvbytes(rng, [(v.name, v.data) for v in rs2.volumes])
            rel.compressed = True
            if not comp:
                rel.bad = "compressed"
        elif r < 0.52:
            rel.bad = rng.choice(["no folder", "a file"])
            rel.there = False
        if rel.bad == "no folder":
            pass
        elif rel.bad == "a file":
            ctx.write(os.path.relpath(root, ctx.dir), b"file")
        else:
            rel.write(root)
        rel.ok = True
        if rel.there:
            ctx.write("out/%s.srr" % rel.name, OLD + rel.name.encode("utf-8"))
        rels.append(rel)
    recursive = rng.random() < 0.4 and all(r.bad not in ("no folder", "a file") for r in rels) and len(rels) > 1
    if recursive:
        # found in this order
        rels.sort(key=lambda r: r.name)
        argv = ["-r", parent]
        if any(" " in r.name or not any(p.lower().endswith((".sfv", ".nfo")) and "/" not in p for p in r.files) for r in rels):
            recursive = False
    if not recursive:
        argv = [os.path.join(parent, r.name) for r in rels]
    for rel in rels:
        rel.declined = False
        if rel.there:
            if mode == ["-n"]:
                rel.declined = True
            elif not mode:
                # the question comes before the volumes are read
                a = rng.choice(["y", "n"])
                answers += rng.choice(["", "\n", "maybe\n"]) + a + "\n"
                rel.declined = a == "n"
    argv += mode + (["-c"] if comp else []) + ["-o", out]
    before = snapshot(ctx)
    ctx.note.update(releases=[(r.name, r.bad, r.there, r.declined, sorted(r.files)[:20]) for r in rels])
    o = run(ctx, argv, answers=answers)
    ctx.check(o["exc"] is None and o["died"] is None, "the run failed: " + say(o)[-1500:], "run")
    after = snapshot(ctx)
    want = set(before)
    fail = False
    for r in rels:
        n = os.path.join("out", r.name + ".srr")
        if r.declined:
            ctx.check(after.get(n) == before[n], "an SRR that was to stay was changed", "declined")
            fail |= mode != ["-n"]
        elif r.bad:
            fail = True
            ctx.check(after.get(n) == before.get(n), "release that cannot be captured (%s): the SRR is %s" % (
                r.bad, "made" if n not in before else "changed"), "bad")
            ctx.check(r.name in o["out"].split("some SRRs failed to create")[-1] and "some SRRs failed" in o["out"],
                      "the failed release is not reported: " + say(o), "report")
            ctx.count("failing")
        else:
            ctx.check(n in after, "no SRR of a good release next to %r: %s" % ([x.bad for x in rels], say(o)), "good")
            ctx.check(not r.there or after[n] != before[n], "the SRR was not replaced")
            deep = rng.random() < 0.3 and not r.compressed
            judge(ctx, r, os.path.join(ctx.dir, n), {"c"} if comp else set(), deep=deep)
            want.add(n)
            ctx.count("good")
    gone = [k for k in before if after.get(k) != before[k] and k not in [os.path.join("out", r.name + ".srr") for r in rels]]
    ctx.check(not gone, "something else was changed: %r" % gone, "changed")
    ctx.check(not set(after) - want, "left behind: %r" % sorted(set(after) - want), "left")
    ctx.check(not os.listdir(ctx.path("tmp")), "temporary files are left: %r" % sorted(files(ctx.path("tmp"))), "temp")
    if fail:
        bad = [r for r in rels if r.bad and not r.declined]
        ctx.check(o["rc"] != 0 or not bad, "exit code 0 though a release failed: " + say(o), "exit")
    else:
        ctx.check(o["rc"] == 0, "exit code %r though nothing failed: %s" % (o["rc"], say(o)), "exit")
    ctx.klass(recursive, mode, comp, *sorted("%s/%s/%s" % (r.bad, r.there, r.declined) for r in rels))
    ctx.sample(dict(argv=argv, releases=[(r.name, r.bad, r.there) for r in rels]))


def tolerated(o):
    out = (o["out"] or "") + (o["err"] or "")

    def ok(name):
        b = os.path.basename(name)
        stem = b[:-4]
        # the extension of an error report
        return ("Could not copy" in out and b in out) or (b.endswith(".srs") and (
            "SRS creation failed" in out or "Could not copy" in out or "Couldn't load srs data of %s" % b in out)) or (
            b.endswith(".srr") and ("Broken RAR used as vobsample" in out or "SRS creation failed" in out)) or (b.endswith(".txt") and "Could not" in out)
    return ok


def copies(ctx):
    """a file that cannot be read to its end while it is copied"""
    rng = ctx.rng
    a01.prepare(ctx)
    rel = small(rng)
    root = ctx.path("in", rel.name)
    rel.write(root)
    out = ctx.mkdir("out")
    k = rng.randint(1, max(1, len(rel.stored)))
    log = ctx.path("tmp", "copies")
    real = shutil.copyfile

    def broken(src, dst, **kw):
        with open(log, "ab") as f:
            f.write(b"x")
        if os.path.getsize(log) == k:
            d = read(src)
            with open(dst, "wb") as f:
                f.write(d[:rng.choice([0, 1, len(d) // 2, len(d) - 1 if d else 0])])
            raise OSError(5, "injected read error", src)
        return real(src, dst, **kw)

    def tool(argv):
        shutil.copyfile = broken
        return a01.auto.main(argv)
    argv = [root, "-o", out]
    before = snapshot(ctx)
    o = run(ctx, argv, main=tool)
    n = len(read(log)) if os.path.exists(log) else 0
    if n:
        os.unlink(log)
    after = snapshot(ctx)
    ctx.check(o["exc"] is None, "the run ended with a traceback: " + say(o), "run")
    srr = os.path.join("out", rel.name + ".srr")
    if o["rc"] == 0:
        judge(ctx, rel, ctx.path(srr), set(), missing_ok=tolerated(o), deep=False)
    else:
        ctx.check(srr not in after, "failed, but there is an SRR")
    ctx.check(not set(after) - set(before) - {srr}, "left behind: %r" % sorted(set(after) - set(before)), "left")
    if n >= k:
        ctx.count("copies")
    ctx.klass("copy", n >= k, o["rc"], rel.kind, k)


def faults(ctx, disk=False):
    rng = ctx.rng
    a01.prepare(ctx)
    parent = ctx.mkdir("in")
    out = ctx.mkdir("out")
    rels = []
    for i in range(rng.choice([1, 2, 2])):
        rel = small(rng)
        rel.name = "%s%d" % (rel.name, i)
        rel.there = rng.random() < 0.5
        rel.write(os.path.join(parent, rel.name))
        if rel.there:
            ctx.write("out/%s.srr" % rel.name, OLD + rel.name.encode("utf-8"))
        rels.append(rel)
    argv = [os.path.join(parent, r.name) for r in rels] + ["-y", "-o", out] + rng.choice([[], ["-s"], ["-c"]])
    before = snapshot(ctx)
    kw = {}
    if disk:
        kw = dict(fsize=rng.choice([0, 1, 100, 500, rng.randint(0, 3000), rng.randint(0, 20000)]), fsize_kill=rng.random() < 0.3)
    else:
        reads = rng.random() < 0.5
        dry = run(ctx, argv, fault=(10 ** 9, "oserror"), count_reads=reads)
        ctx.check(dry["rc"] == 0, "the run without a fault failed: " + say(dry))
        done = snapshot(ctx)
        for k in set(done) - set(before):
            os.unlink(os.path.join(ctx.dir, k))
        for k, v in before.items():
            if done.get(k) != v:
                ctx.write(k, OLD + os.path.basename(k)[:-4].encode("utf-8"))
        shutil.rmtree(ctx.path("tmp"))
        ctx.mkdir("tmp")
        ctx.equal(snapshot(ctx), before, "reset")
        k = rng.randint(1, max(1, dry["n"]))
        kw = dict(fault=(k, rng.choice(["oserror", "oserror", "eacces", "crash"])), count_reads=reads)
    o = run(ctx, argv, **kw)
    ctx.note.update(kw=kw, hit=o["hit"], out=say(o)[-6000:])
    after = snapshot(ctx)
    crash = o["died"] is not None
    ctx.check(crash or o["exc"] is None, "the run ended with a traceback (%r): %s" % (o["hit"], say(o)[-6000:]), "run")
    names = {}
    whole = 0
    for r in rels:
        n = os.path.join("out", r.name + ".srr")
        names[n] = r
        p = os.path.join(ctx.dir, n)
        if n in before and after.get(n) == before[n] or n not in before and n not in after:
            ctx.check(crash or o["rc"] != 0, "exit code 0 without an SRR of %s (%r): %s" % (r.name, o["hit"], say(o)), "exit")
            continue
        ctx.check(n in after, "the SRR that was there is gone (%r)" % (o["hit"],), "lost")
        try:
            judge(ctx, r, p, set(), missing_ok=tolerated(o), deep=False,
                  extra_ok=lambda n: n.endswith(".txt") and n[:-4] in r.files and "SRS creation failed for" in o["out"])
        except Violation as e:
            raise Violation("an SRR that is not complete after a fault (%r, exit %r): %s" % (o["hit"] or kw, o["rc"], e))
        whole += 1
    ok = set(before) | set(names)
    new = set(after) - ok
    if crash:
        new = set(k for k in new if not k.startswith("out/") or not k.endswith(".tmp"))
    if o["hit"] and any(w in str(o["hit"]) for w in ("remove", "unlink", "rmdir", "rename")):
        new = set(k for k in new if not k.endswith(".tmp"))
    ctx.check(not new, "left behind (%r, exit %r): %r" % (o["hit"] or kw, o["rc"], sorted(new)), "left")
    chg = [k for k in before if k not in names and after.get(k) != before[k]]
    ctx.check(not chg, "changed: %r" % chg, "changed")
    if not disk and not crash and "Temporary directory" in o["out"] and o["hit"]:
        ctx.check(whole >= len(rels) - 1, "one fault (%r) kept more than one release from being captured: %s" % (o["hit"], say(o)), "other")
    ctx.count("faults")
    ctx.klass(disk, (o["hit"] or [None])[0], crash, o["rc"], whole, len(rels))


GROUPS = [
    Group("releases", releases, quick=150, thorough=3000, need={"failing": 60, "good": 120}),
    Group("faults", faults, quick=250, thorough=8000, need={"faults": 240}),
    Group("copies", copies, quick=80, thorough=1500, need={"copies": 50}),
    Group("disk", lambda ctx: faults(ctx, True), quick=60, thorough=1500, need={"faults": 60}),
]
