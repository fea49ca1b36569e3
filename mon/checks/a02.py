"""A02: retagging a music track restores it exactly or changes nothing."""
import os, shutil
from mon import media, srrlib, srrparse
from mon.checks import a01
from mon.checks.a01 import run, say, tool
from mon.checks.s04 import wrong_main
from mon.core import Group, files, read, tree
import resample.srs as srs

PROPERTY = "A02"
RULE = ("(tracks) an SRR with the SRS files of generated MP3 and FLAC tracks (one or several discs, the same names on several "
        "discs, tracks beside other stored files and SRS files of videos) is used to repair tracks of which the tags differ, the "
        "audio differs, or that are missing, in another folder or in place, with every way to confirm; (faults) the same with an "
        "I/O error, the death of the process or a full disk. A monitor compares both folders before and after: each track is the "
        "original bit for bit or what it was, the exit code is zero exactly when all tracks were repaired, nothing else changed. "
        "Non-trivial: a track was judged; classes: format, what was given, place, answers, result.")
ASSUMPTIONS = ["music is fingerprinted by a stand-in for the fpcalc program",
               "the user's tracks lie in the input folder or in the same sub folder as in the release",
               "after the death of the process temporary files NAME-*.tmp and the temporary folder may stay"]
retag = tool("retag")


class Track(object):
    pass


def release(ctx, few=False):
    """-> (path of the SRR, tracks, other stored files {name: bytes})"""
    rng = ctx.rng
    media.setup(ctx)
    discs = rng.choice([[""], [""], ["CD1", "CD2"], ["Disc 1"], ["", "Bonus"]])
    tracks, stored, names = [], [], set()
    for d in discs:
        for i in range(1 if few else rng.randint(1, 2)):
            t = Track()
            t.fmt = rng.choice(["mp3", "flac"])
            t.m = media.make(rng, t.fmt, False)
            t.sub = d
            base = rng.choice(["0%d-artist-title-grp" % (i + 1), "10%d_A B (x)" % i, "T\u00efte %d" % i])
            t.name = base + t.m.ext
            p = ctx.write(os.path.join("org", d, t.name), t.m.data)
            sp = ctx.path("org", d, base + ".srs")
            if base in [x.name[:len(base)] for x in tracks if x.sub == d]:
                continue
            o = srrlib.cli(ctx, srs.main, [p, "-o", sp])
            ctx.check(o["rc"] == 0 and os.path.isfile(sp), "no SRS made: " + say(o))
            t.stored = "/".join(x for x in (d, base + ".srs") if x)
            t.path = os.path.join(d, t.name)
            stored.append((t.stored, read(sp)))
            tracks.append(t)
    others = {}
    for n in rng.sample(["00-grp.nfo", "00-grp.sfv", "Proof/p.jpg", "00-x.m3u", "CD1/00-cd1.sfv"], rng.randint(0, 3)):
        others[n] = rng.randbytes(rng.choice([0, 1, 200]))
    if rng.random() < 0.25:
        v = media.make(rng, rng.choice(["avi", "mkv", "mp4"]), False)
        p = ctx.write("org/clip" + v.ext, v.data)
        o = srrlib.cli(ctx, srs.main, [p, "-o", ctx.path("org", "clip.srs")])
        ctx.check(o["rc"] == 0, "no SRS made: " + say(o))
        stored.append((rng.choice(["Sample/clip.srs", "clip.srs"]), read(ctx.path("org", "clip.srs"))))
        ctx.note["video"] = True
    stored += sorted(others.items())
    rng.shuffle(stored)
    srr = ctx.write("rel.srr", srrparse.build("pyReScene test", stored, b""))
    shutil.rmtree(ctx.path("org"))
    return srr, tracks, others


def place(ctx, t, inp, kind):
    """the user's version of a track; -> bytes or None"""
    rng = ctx.rng
    t.kind = kind
    if kind == "missing":
        t.given = None
        return
    if kind == "good":
        t.given = t.m.main
    elif kind == "same":
        t.given = t.m.data
    else:
        t.given, t.wrong = wrong_main(ctx, t.m, False)
    name, sub = t.name, t.sub
    t.incase = False
    if rng.random() < 0.2:
        name = rng.choice([name.upper(), name.lower(), name.swapcase()])
    if sub and rng.random() < 0.2:
        sub = rng.choice([sub.upper(), sub.lower()])
    if sub and not t.shared and rng.random() < 0.3:
        sub = ""
    t.at = os.path.join(sub, name)
    ctx.write(os.path.join(inp, t.at), t.given)


def prompts(ctx):
    """-> (arguments, answers, may overwrite)"""
    rng = ctx.rng
    k = rng.choice(["-y", "-y", "-n", "yes", "no", "junk"])
    if k == "-y":
        return ["-y"], None, True
    if k == "-n":
        return ["-n"], "n\n" * 60, False
    if k == "yes":
        return [], "y\n" * 60, True
    if k == "junk":
        return [], "x\n\nY\n" * 60, True
    return [], "N\n" * 60, False


def scene(ctx, few=False, consent=None):
    rng = ctx.rng
    a01.prepare(ctx)
    srr, tracks, others = release(ctx, few)
    inplace = rng.random() < 0.4
    inp, out = ctx.mkdir("in"), (ctx.path("in") if inplace else ctx.path("out", *rng.choice([[], ["a", "b"]])))
    rin, rout = "in", os.path.relpath(out, ctx.dir)
    names = [t.name.lower() for t in tracks]
    for t in tracks:
        t.shared = names.count(t.name.lower()) > 1 or len([x for x in tracks if x.name.lower() == t.name.lower()]) > 1
    for t in tracks:
        place(ctx, t, rin, rng.choice(["good", "good", "good", "same", "wrong", "wrong", "missing"]))
        if not inplace and rng.random() < 0.25:
            ctx.write(os.path.join(rout, t.path), rng.choice([b"", b"an other file", t.m.data, t.m.main]))
        if rng.random() < 0.15:
            ctx.write(os.path.join(rout, t.stored), b"an SRS of the user")
    for n in others:
        if rng.random() < 0.25:
            ctx.write(os.path.join(rout, n), b"was here")
    ctx.write(os.path.join(rin, "other.mp3"), b"the user's")
    if rng.random() < 0.3:
        ctx.write(os.path.join(rout, "00-user.nfo"), b"the user's")
    opts, answers, may = prompts(ctx)
    if consent:
        opts, answers, may = ["-y"], None, True
    argv = [srr, "-i", inp, "-o", out] + opts
    cwd = None
    if inplace and rng.random() < 0.3:
        argv, cwd = [srr] + opts, inp
    return srr, tracks, others, argv, cwd, answers, may, inplace, rout


def snap(ctx):
    return dict((k, v) for k, v in tree(ctx.dir).items() if k.split(os.sep)[0] not in ("cwd",) and v is not None
                and os.path.isfile(os.path.join(ctx.dir, k)))


def content(ctx, rel):
    p = os.path.join(ctx.dir, rel)
    return read(p) if os.path.isfile(p) else None


def tracks_(ctx):
    srr, tracks, others, argv, cwd, answers, may, inplace, rout = scene(ctx)
    before = dict((k, content(ctx, k)) for k in snap(ctx))
    o = run(ctx, argv, cwd=cwd, main=retag.main, answers=answers)
    ctx.check(o["exc"] is None and o["rc"] in (0, 1), "the run ended badly: " + say(o), "run")
    after = dict((k, content(ctx, k)) for k in snap(ctx))
    good, all_ok, declined = 0, True, False
    want = dict(before)
    for n, d in others.items():
        k = os.path.join(rout, *n.split("/"))
        if k not in before or may:
            want[k] = d
    for t in tracks:
        k = os.path.join(rout, t.path)
        old = before.get(k)
        new = after.get(k)
        clash = k in want and k not in before
        ok = t.kind in ("good", "same") and (old is None or may)
        if t.kind == "wrong" and new == t.m.data != old and (old is None or may):
            ok = True
        ctx.note.setdefault("tracks", []).append((t.path, t.kind, getattr(t, "wrong", None), t.m.info, old is not None))
        if ok:
            ctx.check(new == t.m.data, "track %s (%s) is not the original: %s" % (
                t.path, t.kind, "unchanged" if new == old else "absent" if new is None else "other bytes"), "restored", info=say(o))
            want[k] = t.m.data
            good += 1
        else:
            ctx.check(new == old, "track %s (%s, consent %s) changed but not into the original" % (t.path, t.kind, may),
                      "harmed", info=say(o))
            if t.kind in ("good", "same") or old == t.m.data:
                declined = True
            else:
                all_ok = False
        ctx.klass(t.fmt, t.kind, getattr(t, "wrong", None), bool(t.sub), inplace, may, old is not None, ok, bool(t.m.info))
    miss = [k for k in want if after.get(k) != want[k]]
    ctx.check(not miss, "not as expected: %r" % miss[:5], "others", info=say(o))
    extra = sorted(set(after) - set(want))
    ctx.check(not extra, "left behind: %r" % extra[:5], "left", info=say(o))
    ctx.check(not os.listdir(ctx.path("tmp")), "temporary files left: %r" % os.listdir(ctx.path("tmp")), "temp")
    if not declined:
        ctx.check((o["rc"] == 0) == all_ok, "exit code %r, all tracks repaired: %s" % (o["rc"], all_ok), "exit", info=say(o))
    ctx.count("tracks", len(tracks))
    ctx.count("repaired", good)


def faults(ctx, disk=False):
    rng = ctx.rng
    srr, tracks, others, argv, cwd, answers, may, inplace, rout = scene(ctx, True, True)
    before = dict((k, content(ctx, k)) for k in snap(ctx))
    if disk:
        big = max(len(t.m.data) for t in tracks)
        kw = dict(fsize=rng.choice([0, 1, 100, big - 1, rng.randint(0, big)]), fsize_kill=rng.random() < 0.3)
    else:
        reads = rng.random() < 0.5
        # a copy of everything for the run without a fault
        keep = ctx.path("keep")
        shutil.copytree(ctx.path("in"), os.path.join(keep, "in"))
        if os.path.isdir(ctx.path("out")):
            shutil.copytree(ctx.path("out"), os.path.join(keep, "out"))
        dry = run(ctx, argv, cwd=cwd, main=retag.main, fault=(10 ** 9, "oserror"), count_reads=reads)
        ctx.check(dry["exc"] is None, "the run ended badly: " + say(dry), "run")
        for d in ("in", "out"):
            shutil.rmtree(ctx.path(d), ignore_errors=True)
            if os.path.isdir(os.path.join(keep, d)):
                shutil.copytree(os.path.join(keep, d), ctx.path(d))
        shutil.rmtree(keep)
        shutil.rmtree(ctx.path("tmp"))
        ctx.mkdir("tmp")
        kw = dict(fault=(rng.randint(1, max(1, dry["n"])), rng.choice(["oserror", "oserror", "eacces", "crash"])), count_reads=reads)
    o = run(ctx, argv, cwd=cwd, main=retag.main, **kw)
    ctx.note.update(kw=kw, hit=o["hit"])
    crash = o["died"] is not None
    after = dict((k, content(ctx, k)) for k in snap(ctx))
    done = True
    allowed = set()
    for t in tracks:
        k = os.path.join(rout, t.path)
        allowed.add(k)
        ctx.check(after.get(k) in (before.get(k), t.m.data), "track %s (%s) is neither the original nor what it was after %r" % (
            t.path, t.kind, o["hit"] or kw), "harmed", info=say(o))
        done = done and after.get(k) == t.m.data
        ctx.klass(t.fmt, t.kind, inplace, (o["hit"] or [None])[0], crash, o["rc"], after.get(k) == t.m.data)
    if not crash:
        ctx.check(o["rc"] != 0 or done, "exit code 0 but not all tracks are repaired after %r" % (o["hit"] or kw,), "exit", info=say(o))
    allowed |= set(os.path.join(rout, *n.split("/")) for n in others)
    chg = [k for k in before if k not in allowed and after.get(k) != before[k]]
    ctx.check(not chg, "changed after %r: %r" % (o["hit"] or kw, chg[:5]), "others", info=say(o))
    new = set(after) - set(before) - allowed
    if crash:
        new = set(k for k in new if not k.endswith(".tmp") and not k.startswith("tmp" + os.sep))
    elif o["hit"] and (not os.path.isfile(str(o["hit"][1])) or "retag-" in str(o["hit"][1]) or any(w in str(o["hit"][0]) for w in ("remove", "unlink", "rmdir", "rename", "rmtree", "scandir", "listdir"))):
        new = set(k for k in new if not k.endswith(".tmp") and not k.startswith("tmp" + os.sep))
    ctx.check(not new, "left behind after %r: %r" % (o["hit"] or kw, sorted(new)[:5]), "left", info=say(o))
    ctx.count("faults")


GROUPS = [
    Group("tracks", tracks_, quick=600, thorough=8000, need={"tracks": 300, "repaired": 150}),
    Group("faults", faults, quick=400, thorough=8000, need={"faults": 150}),
    Group("disk", lambda ctx: faults(ctx, True), quick=50, thorough=1500, need={"faults": 50}),
]
