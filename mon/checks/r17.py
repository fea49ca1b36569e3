"""R17: creation refuses what it cannot represent and leaves nothing behind."""
import os, struct
from mon import rargen, srrlib, srrparse
from mon.core import Group, files, read, tree
from mon.srrlib import rescene, rmain

PROPERTY = "R17"
RULE = ("releases with one defect (missing, cut, corrupt, non RAR or compressed volume at every position, missing or "
        "bad SFV), and a fault, error or Ctrl+C at every file operation of a good creation; library with and without "
        "temporary name, and command line. Afterwards the folder is inspected. Distinct: defect or event hit x entry point")
ASSUMPTIONS = ["a process that dies cannot clean up: then only an existing SRR is judged, and only when the "
               "temporary file name is used (command line)"]


def entry_points(ctx, r, out):
    """[(name, fn)] ways to create out/new.srr"""
    ins = srrlib.infiles(r)
    store = [os.path.join(r.root, p) for p in r.extra if p not in r.sfvs]
    target = os.path.join(out, "new.srr")
    from resample import srs  # noqa: import before the monitors run
    from rescene import srr as tool
    argv = ins + [a for p in store for a in ("-s", p)] + ["-p", "-i", r.root, "-o", target, "-y"]

    def lib():
        return rescene.create_srr(target, ins, r.root, list(store), True)

    def libtmp():
        tmp = target + "-x.tmp"
        ok = rescene.create_srr(target, ins, r.root, list(store), True, tmp_srr_name=tmp)
        os.rename(tmp, target)
        return ok

    def cli():
        return tool.main(list(argv))
    return dict(lib=lib, libtmp=libtmp, cli=cli)


def run(ctx, how, fn, **kw):
    """(reported failure, died, output)"""
    def go():
        o = ctx.call(fn)
        return dict(ok=o.ok, brief=o.brief(), rc=o.rc, out=o.out[-2000:], err=o.err[-2000:], val=repr(o.value))
    st, res = ctx.in_child(go, **kw)
    ctx.count("creations")
    if st != "done":
        return None, st, ""
    d = res["ok"]
    if how == "cli":
        failed = d["rc"] != 0
    else:
        failed = not d["ok"] or d["val"] != "True"
    d["failed"] = failed
    d["n"] = res["n"]
    d["hit"] = res["hit"]
    return failed, None, d


DEFECTS = ["missing", "cutheader", "cutdata", "empty", "notrar", "flip", "compressed", "firstmissing", "rar5", "nosfv", "sfvdir"]


def defect(ctx):
    rng = ctx.rng
    kind = DEFECTS[ctx.idx % len(DEFECTS)]
    r = srrlib.release(ctx, small=True, extra=rng.choice([0, 2]), sfv=True, nvol_hint=rng.choice([1, 2, 3, 5]))
    si = rng.randrange(len(r.sets))
    folder, s = r.sets[si]
    vi = rng.randrange(len(s.volumes))
    v = s.volumes[vi]
    vp = os.path.join(r.root, folder, v.name)
    must_fail = True
    if kind in ("missing", "firstmissing"):
        if kind == "firstmissing":
            v = s.volumes[0]
            vp = os.path.join(r.root, folder, v.name)
        os.unlink(vp)
    elif kind == "empty":
        open(vp, "wb").close()
    elif kind == "cutheader":
        # inside a header of the volume
        pos, spots = 0, []
        for k, d in v.parts:
            if k == "head":
                spots.append((pos, len(d)))
            if k == "pad":
                break
            pos += len(d)
        p0, ln = rng.choice(spots)
        cut = p0 + rng.randrange(1 if p0 else 0, ln)
        with open(vp, "wb") as f:
            f.write(v.data[:cut])
    elif kind == "cutdata":
        # in the data of a file: the end block is missing, all headers before are whole
        spots = []
        pos = 0
        for k, d in v.parts:
            if k == "data" and len(d) > 1:
                spots.append((pos, len(d)))
            pos += len(d)
        if not spots:
            return
        p0, ln = rng.choice(spots)
        with open(vp, "wb") as f:
            f.write(v.data[:p0 + rng.randrange(1, ln)])
    elif kind == "notrar":
        with open(vp, "wb") as f:
            f.write(rng.choice([b"", b"\x00", b"PK\x03\x04"]) + rng.randbytes(rng.choice([10, 300])))
    elif kind == "rar5":
        with open(vp, "wb") as f:
            f.write(b"Rar!\x1a\x07\x01\x00" + rng.randbytes(rng.choice([20, 300])))
    elif kind == "flip":
        # the length field of a header after the marker
        b = bytearray(v.data)
        b[7 + 5:7 + 7] = struct.pack("<H", rng.choice([0, 1, 6, 0xFFFF]))
        if len(b) > 0xFFFF:
            return
        with open(vp, "wb") as f:
            f.write(b)
    elif kind == "compressed":
        b = bytearray(v.data)
        hits = 0
        pos = 0
        for k, d in v.parts:
            if k == "head" and d[2] == 0x74:
                b[pos + 25] = rng.choice([0x31, 0x33, 0x35])
                hits += 1
            pos += len(d)
        if not hits:
            return
        with open(vp, "wb") as f:
            f.write(b)
    elif kind == "nosfv":
        if not r.sfvs[si]:
            return
        os.unlink(os.path.join(r.root, r.sfvs[si]))
    elif kind == "sfvdir":
        p = os.path.join(r.root, r.sfvs[si])
        os.unlink(p)
        os.mkdir(p)
    how = rng.choice(["lib", "libtmp", "cli", "cli"])
    out = ctx.mkdir("out")
    before = tree(r.root)
    ctx.note.update(kind=kind, volume=v.name, how=how, set=s.describe())
    failed, died, d = run(ctx, how, entry_points(ctx, r, out)[how])
    ctx.check(died is None, "creation died: %s" % died)
    left = files(out)
    if must_fail:
        ctx.check(failed, "%s volume/SFV %s accepted by creation (%s): %r" % (kind, v.name, how, d))
        ctx.count("refused")
    if failed:
        ctx.equal(sorted(left), [], "files left after refused creation (%s, %s)" % (kind, how))
        if how == "cli":
            ctx.check("successfully" not in d["out"], "failure claims success")
            ctx.check((d["out"] + d["err"]).strip() != "", "failure says nothing")
    else:
        ctx.equal(sorted(left), ["new.srr"], "files left after creation")
    ctx.equal(tree(r.root) == before, True, "the release is unchanged")
    ctx.klass("defect", kind, how, vi == 0, vi == len(s.volumes) - 1, len(r.sets), failed)
    ctx.sample(dict(kind=kind, how=how, volume=v.name, failed=failed))


def allowed(ctx):
    """compressed input is accepted when allowed, and then complete"""
    rng = ctx.rng
    r = srrlib.release(ctx, small=True, extra=0, nsets=1)
    folder, s = r.sets[0]
    for v in s.volumes:
        b = bytearray(v.data)
        pos = 0
        for k, d in v.parts:
            if k == "head" and d[2] == 0x74:
                b[pos + 25] = 0x33
            pos += len(d)
        with open(os.path.join(r.root, folder, v.name), "wb") as f:
            f.write(b)
    out = ctx.mkdir("out")
    p = os.path.join(out, "c.srr")
    ctx.equal(ctx.must(rescene.create_srr, p, srrlib.infiles(r), r.root, [], True, True), True, "allowed compressed creation")
    ctx.equal(rescene.info(p)["compression"], any(not f.directory for f in s.files) or bool(s.files), "compression flag")
    ctx.equal(sorted(os.listdir(out)), ["c.srr"], "files left")
    ctx.count("allowed")


def faults(ctx):
    """a fault at every file operation of a good creation"""
    rng = ctx.rng
    r = srrlib.release(ctx, small=True, extra=rng.choice([0, 1, 2]), nsets=rng.choice([1, 1, 2]), nvol_hint=rng.choice([1, 2, 3]))
    out = ctx.mkdir("out")
    how = rng.choice(["lib", "libtmp", "cli"])
    fn = entry_points(ctx, r, out)[how]
    ctx.note.update(how=how, rel=r.describe())
    failed, died, d = run(ctx, how, fn, count_reads=True)
    ctx.check(died is None and not failed, "good creation failed: %r" % (d,))
    good = files(out)
    ctx.equal(sorted(good), ["new.srr"], "files left after creation")
    before = tree(r.root)
    os.unlink(os.path.join(out, "new.srr"))
    # count events with a fault that is never reached
    failed, died, d = run(ctx, how, fn, count_reads=True, fault=(10 ** 9, "oserror"))
    n = d["n"]
    ctx.check(n > 3, "no file operations seen: %d" % n)
    points = list(range(1, n + 1))
    if len(points) > 14 and ctx.tier == "quick":
        points = sorted(rng.sample(points, 14))
    had = rng.random() < 0.3
    for i in points:
        for f in os.listdir(out):
            os.unlink(os.path.join(out, f))
        if had:
            with open(os.path.join(out, "new.srr"), "wb") as f:
                f.write(b"old SRR")
            # consent: only the CLI has -y; the library default refuses
            if how != "cli":
                srrlib.set_overwrite(lambda p: True)
        kind = rng.choice(["oserror", "eacces", "crash"])
        ctx.note["point"] = (i, kind)
        failed, died, d = run(ctx, how, fn, count_reads=True, fault=(i, kind))
        left = files(out)
        if died:
            ctx.count("deaths")
            ctx.check("new.srr" not in left or left["new.srr"] in (good["new.srr"], b"old SRR") or how == "lib",
                      "death at operation %d left a wrong SRR" % i)
            continue
        hit = d["hit"]
        if hit is None:
            continue
        if failed:
            ctx.count("failed_cleanly")
            want = [] if not had else ["new.srr"] if how != "lib" else None
            if want is None:
                ctx.check(set(left) <= {"new.srr"} and left.get("new.srr", b"old SRR") == b"old SRR",
                          "failed creation left %r" % sorted(left))
            elif hit[0] == "remove":
                pass        # the clean up itself was hit
            elif how == "libtmp" and hit[0] == "rename":
                pass        # harness step
            else:
                ctx.equal(sorted(left), want, "files left after %s at %s (%s)" % (kind, hit, how))
                if had:
                    ctx.equal(left["new.srr"], b"old SRR", "SRR that existed before, after a failed creation")
        else:
            ctx.count("absorbed")
            ctx.check(left.get("new.srr") == good["new.srr"] and len(left) == 1,
                      "creation reports success after %s at %s, but the SRR differs from the good one (%s)" % (
                          kind, (hit[0],) + tuple(os.path.basename(x) for x in hit[1:]), how))
        ctx.klass("fault", how, kind, hit[0], os.path.basename(hit[1])[-4:], failed)
    ctx.equal(tree(r.root) == before, True, "the release is unchanged")


def disk(ctx):
    """the disk is full at any size"""
    rng = ctx.rng
    r = srrlib.release(ctx, small=True, extra=rng.choice([1, 2]), nsets=1)
    out = ctx.mkdir("out")
    how = rng.choice(["lib", "libtmp", "cli"])
    fn = entry_points(ctx, r, out)[how]
    failed, died, d = run(ctx, how, fn)
    ctx.check(died is None and not failed, "good creation failed: %r" % (d,))
    size = len(read(os.path.join(out, "new.srr")))
    for _ in range(5):
        for f in os.listdir(out):
            os.unlink(os.path.join(out, f))
        lim = rng.choice([0, 1, size - 1, rng.randrange(size), size // 2])
        ctx.note.update(how=how, limit=lim, size=size)
        failed, died, d = run(ctx, how, fn, fsize=lim)
        ctx.check(died is None, "creation died: %s" % died)
        ctx.check(failed, "creation reports success on a full disk (%d of %d bytes, %s)" % (lim, size, how))
        ctx.equal(sorted(files(out)), [], "files left after the disk was full (%s)" % how)
        ctx.count("full_disk")
    ctx.klass("disk", how)


GROUPS = [Group("defect", defect, 440, 8000, {"refused": 250}),
          Group("allowed", allowed, 20, 200, {"allowed": 20}),
          Group("faults", faults, 60, 900, {"failed_cleanly": 150, "deaths": 80}),
          Group("disk", disk, 40, 500, {"full_disk": 150})]
