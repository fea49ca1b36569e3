"""R13 compressed RAR sets."""
import os
from mon import fakerar, rargen, srrlib
from mon.core import Group, files, tree
from mon.srrlib import rescene
import rescene.main as rmain
import rescene.srr as srrmain

PROPERTY = "R13"
RULE = ("volume sets of compressed files made by a stand-in for one version of the RAR program are captured and rebuilt "
        "with a folder of such programs: with the right one in it (and its thread count not excluded) every volume must "
        "be the original, without it the rebuild must fail; class = command or library, set layout, thread use, outcome")
ASSUMPTIONS = ["the stand-in packs each version differently, in other sizes, and the packed data of a file only depends on "
               "the version, level, dictionary, threads and (solid) the files before it",
               "non solid sets, and solid sets of which the files are packed in order"]
DICTS = [0, 0x20, 0x40, 0x60, 0x80, 0xA0, 0xC0]
VERSIONS = ["1999-05-24_rar250.exe", "2002-10-25_rar310", "2005-10-10_rar351.exe", "2006-03-29_rar360b1.exe", "2009-09-02_rar390",
            "2012-01-01_rar411.exe", "2012-06-09_rar420", "2013-12-01_rar501.exe", "2016-01-10_rar531b1.exe", "2020-06-25_rar591.exe"]


class Packed(rargen.AFile):
    """a compressed file: .data holds the packed data"""
    def __init__(self, name, plain, ver, level, dic, threads, before, extra, solid):
        rargen.AFile.__init__(self, name, plain, method=0x30 + level)
        self.plain = plain
        self.data = fakerar.pack(plain, ver, level, dic, threads, before, extra)
        self.header = dict(usize=len(plain), dict=dic, solid=solid)


class NoSleep(object):
    """the module waits half a second before each rar run"""
    def __init__(self, m):
        self.m = m

    def __getattr__(self, n):
        return (lambda s: None) if n == "sleep" else getattr(self.m, n)


def parse(name):
    n = name.split("_rar")[1]
    return int(n[0]), int(n[1:3])


def content(rng, n):
    """data that packs to about a half"""
    words = [rng.randbytes(rng.randint(2, 9)) for _ in range(40)]
    out = bytearray()
    while len(out) < n:
        out += rng.choice(words) if rng.random() < 0.8 else rng.randbytes(6)
    return bytes(out[:n])


def make(ctx, rng, root, solid, rar20, prog, dic):
    """a release of compressed files: (Release, RarSet, files)"""
    v, level, eff, x = prog
    nf = rng.choice([1, 1, 2, 3]) if not solid else rng.choice([2, 2, 3, 4])
    big = rng.random() < 0.3
    if big:
        dic = rng.choice([0, 0x20])
    fs, before = [], b""
    folder = rng.choice(["", "", "dir/"]) if not solid else ""
    for i in range(nf):
        name = "%sf%d.%s" % (folder, i, rng.choice(["avi", "exe", "bin", "x"]))
        n = rng.randint(70000, 300000) if big and not i else rng.choice([200, 3000, 4096, 9000, 20000])
        if solid and not i:
            n = max(n, 3000)
        if i and not solid and rng.random() < 0.25:
            fs.append(rargen.AFile(name, content(rng, n)))      # stored between compressed ones
            continue
        p = content(rng, n)
        if not solid and not rar20 and rng.random() < 0.15:
            p = rng.randbytes(n)        # packed it is larger
        fs.append(Packed(name, p, v, level, dic, eff, before if solid else b"", x, solid and i > 0))
        fs[-1].nocrc = rar20
        before += p
    total = sum(len(f.data) for f in fs)
    s = rargen.make_set(rng, files=fs, solid=solid, packers=0, volsize=None if rng.random() < 0.6 else max(900, total // 2 + 400))
    r = srrlib.Release(ctx, root)
    r.sets.append(("", s))
    s.write(r.root)
    r.sfvs.append("rel.sfv")
    ctx.write(os.path.join(r.root, "rel.sfv"), s.sfv())
    return r, s, fs


def case(ctx, kind, cli):
    """kind: library, rar20 (no checksums in most parts), solid, again (a second SRR with the same names, same process),
    twins (two sets with the same files)"""
    rng = ctx.rng
    solid = kind == "solid"
    names = sorted(rng.sample(VERSIONS, rng.randint(1, 4)))
    exes = {}
    bins = ctx.mkdir("bin")
    extras = rng.sample(range(0, 12), len(names))
    for n, x in zip(names, extras):
        v = parse(n)
        mt = v >= (3, 60)
        exes[n] = (v, x, mt)
    right = rng.choice(names)
    rar20 = kind == "rar20"
    if rar20:
        right = VERSIONS[0]
        if right not in names:
            names[0] = right
            exes = dict((n, (parse(n), x, parse(n) >= (3, 60))) for n, x in zip(names, extras))
    v, x, mt = exes[right]
    threads = 0
    if mt:
        lo, hi = (1, 32) if v >= (4, 20) else (0, 16)
        threads = rng.choice([1, 1, 2, 4, lo, hi, rng.randint(max(lo, 1), hi)])
    level = rng.randint(1, 5)
    eff = max(1, threads) if mt else 0
    dic = rng.choice(DICTS)
    rels = []
    for k in range(2 if kind == "again" else 1):
        rels.append(make(ctx, rng, "release%d" % k, solid, rar20, (v, level, eff, x), dic))
    r, s, fs = rels[0]
    big = any(len(f.data) > 60000 for f in fs)
    if kind == "twins":
        # the same files in the set of another disc
        s2 = rargen.make_set(rng, base="cd2", files=fs, packers=0, volsize=None if rng.random() < 0.6 else max(900, len(fs[0].data) // 2))
        s2.write(r.root)
        r.sets.append(("", s2))
        r.sfvs.append("rel2.sfv")
        ctx.write(os.path.join(r.root, "rel2.sfv"), s2.sfv())
    ctx.note.update(release=[a.describe() for a, _, _ in rels], versions=names, right=right, threads=threads, level=level, dict=dic, solid=solid,
                    files=[(f.name, len(getattr(f, "plain", f.data)), len(f.data)) for f in fs])
    tmp = ctx.mkdir("tmp")
    jobs = []
    for k, (a, _, c) in enumerate(rels):
        srr = ctx.path("out%d.srr" % k)
        ctx.equal(ctx.must(rescene.create_srr, srr, srrlib.infiles(a), a.root, [], False, True), True, "allowed compressed creation")
        src, out = ctx.mkdir("in%d" % k), ctx.mkdir("out%d" % k)
        for f in c:
            ctx.write(os.path.join(src, f.os_name), getattr(f, "plain", f.data))
        jobs.append((srr, src, out))
    without = len(names) > 1 and rng.random() < 0.2
    # the thread counts that are tried
    mts, lo, hi = [], 0, 0
    if mt:
        k = rng.choice(["set", "set", "range", "max"])
        if k == "set":
            mts = sorted(set([threads] + [rng.randint(0, 33) for _ in range(2)]))
        elif k == "range":
            lo, hi = max(1, threads - rng.randint(0, 2)), threads + rng.randint(0, 2)
            if threads == 0:
                lo = 0
        else:
            hi = max(1, threads + rng.choice([0, 0, 1]))
    else:
        mts = [1]
    excluded = mt and not without and rng.random() < 0.15 and mts
    if excluded:
        mts = [m for m in mts if m != threads and max(1, m) != eff] or [33]
    for n in names:
        if not (without and n == right):
            ctx.guard.allow_exec.add(fakerar.make_exe(bins, n, *exes[n]))
    ctx.write(os.path.join(bins, "readme.txt"), b"no program")
    fail = without or bool(excluded)
    noz = rng.random() < 0.04 and not mts
    fail = without or bool(excluded) or noz
    before_bin = tree(bins)
    ctx.note.update(mt=(mts, lo, hi), fail=fail, noz=noz)

    def go():
        rmain.time = NoSleep(rmain.time)
        done = []
        for srr, src, out in jobs:
            if cli:
                a = [srr, "-r", "-i", src, "-o", out, "-t", tmp]
                if not noz:
                    a += ["-z", bins]
                if mts:
                    a += ["--mt-set", ",".join(map(str, mts))]
                if lo:
                    a += ["--mt-min", str(lo)]
                if hi:
                    a += ["--mt-max", str(hi)]
                o = ctx.call(srrmain.main, a)
                ok = o.exc is None and o.exit in (0, None) and not o.value
            else:
                m = rescene.RarMtSettings()
                m.mt_set, m.mt_min, m.mt_max = mts, lo, hi
                o = ctx.call(rescene.reconstruct, srr, src, out, True, {}, False, False, False, None if noz else bins, tmp, True, "", m)
                ok = o.exc is None and o.exit is None and o.value in (None, True)
            done.append((ok, o.brief(), o.tb[-600:] if o.tb else "", o.out[-900:]))
        return done
    befores = [tree(src) for _, src, _ in jobs]
    st, res = ctx.in_child(go)
    ctx.equal(st, "done", "rebuild")
    for (a, _, _), (srr, src, out), before, (ok, brief, tb, text) in zip(rels, jobs, befores, res["ok"]):
        got = files(out)
        for n in a.sfvs:
            got.pop(n, None)        # (the stored file)
        want = dict((n, w.data) for n, w in a.expected_volumes(False))
        ctx.count("decided")
        ctx.check(tree(src) == before, "source folder was changed")
        if fail:
            ctx.check(not ok, "success reported although the right RAR version can't be used", tb=text)
            ctx.count("failed")
        else:
            ctx.check(ok, "the right RAR version is there, but the rebuild failed: %s" % brief, tb=tb, text=text)
            ctx.equal(sorted(got), sorted(want), "volumes")
            for n in want:
                ctx.check(got[n] == want[n], "volume %s differs from the original (%d, %d bytes)" % (n, len(got[n]), len(want[n])))
            ctx.count("rebuilt")
    ctx.check(tree(bins) == before_bin, "folder with the programs was changed")
    ctx.check(not tree(tmp), "files left in the folder for temporary files (%s)" % ("failed" if fail else "good"), tb=tb, left=sorted(tree(tmp)), text=text[-700:])
    ctx.klass(cli, kind, noz, min(3, len(s.volumes)), len(fs), big, bool(threads), bool(mts), bool(lo), bool(hi), without, bool(excluded))
    ctx.sample(ctx.note)


GROUPS = [Group("library", lambda ctx: case(ctx, "library", False), 100, 1500, {"rebuilt": 50, "failed": 8}),
          Group("command", lambda ctx: case(ctx, "library", True), 50, 600, {"rebuilt": 18}),
          Group("rar20", lambda ctx: case(ctx, "rar20", ctx.rng.random() < 0.3), 30, 300, {"rebuilt": 15}),
          Group("solid", lambda ctx: case(ctx, "solid", ctx.rng.random() < 0.3), 80, 1000, {"rebuilt": 30}),
          Group("again", lambda ctx: case(ctx, "again", False), 40, 500, {"rebuilt": 20}),
          Group("twins", lambda ctx: case(ctx, "twins", ctx.rng.random() < 0.3), 30, 400, {"rebuilt": 10})]
