"""R01 create -> reconstruct is byte exact."""
import os
from mon import rargen, srrlib
from mon.core import Group, difftree, files, read, tree
from mon.srrlib import rescene, MsgCode

PROPERTY = "R01"
RULE = ("random store-mode RAR3 sets from an independent writer (checked with unrar), SRR made by the real "
        "code, volumes reconstructed from the archived files; every produced tree is compared with the "
        "original bytes. A case is non-trivial when it has at least one volume with packed data; distinct "
        "means a new combination of layout features (naming, volumes, files, recovery, end block, paths, "
        "options)")


def features(r):
    s = r.sets[0][1]
    return (len(r.sets), "new" if s.opt["new"] else "old", min(len(s.volumes), 4), min(len(s.files), 3),
            s.opt["rr"], s.opt["end"], bool(s.opt["pad"]))


def rebuild_and_compare(ctx, r, srr, save_paths, extract_paths=None, part="", want=None, **kw):
    ctx.count("rebuilds")
    src, out = ctx.mkdir("in"), ctx.mkdir("out")
    r.write_archived(src)
    before = tree(src)
    srrb = read(srr)
    ev = srrlib.subscribe()
    o = ctx.call(rescene.reconstruct, srr, src, out, save_paths if extract_paths is None else extract_paths,
                 extract_files=False, srr_part=part, **kw)
    ctx.check(o.ok, "reconstruction of a good release failed: " + o.brief(), tb=o.tb[-1500:])
    ctx.check(o.value in (None, True, 0), "reconstruction reports %r" % (o.value,))
    ctx.check(not ev.has(MsgCode.CRC), "checksum mismatch reported for good data")
    got = files(out)
    exp = want
    if exp is None:
        exp = dict((n, v.data) for n, v in r.expected_volumes(save_paths))
        if extract_paths is False:
            exp = dict((os.path.basename(n), d) for n, d in exp.items())
    ctx.equal(sorted(got), sorted(exp), "set of reconstructed files")
    for n in exp:
        if got[n] != exp[n]:
            i = next((i for i, (a, b) in enumerate(zip(got[n], exp[n])) if a != b), min(len(got[n]), len(exp[n])))
            ctx.fail("volume %s differs from the original at byte %d (sizes %d, %d)" % (
                n, i, len(got[n]), len(exp[n])), release=r.describe())
        ctx.count("volumes_compared")
        ctx.count("bytes_compared", len(exp[n]))
    ctx.check(tree(src) == before, "source folder was changed")
    ctx.check(read(srr) == srrb, "SRR was changed by reconstruction")


def whole(ctx):
    rng = ctx.rng
    sp = rng.random() < 0.6
    r = srrlib.release(ctx, sfv=rng.random() < 0.7, paths=sp, same=0.12 if sp else 0)
    ctx.note["release"] = r.describe()
    if not sp and len(set(n for n, _ in r.expected_volumes(False))) != len(r.expected_volumes(False)):
        sp = True
    srr = srrlib.make_srr(ctx, r, sp, oso=rng.random() < 0.8)
    ep = sp if rng.random() < 0.7 else False
    names = [os.path.basename(n) for n, _ in r.expected_volumes(sp)]
    if len(set(names)) != len(names):
        ep = sp
    rebuild_and_compare(ctx, r, srr, sp, extract_paths=ep if ep != sp else None,
                        skip_rar_crc=rng.random() < 0.2)
    ctx.klass(*features(r), sp, ep)
    ctx.sample(r.describe())


def boundaries(ctx):
    """volume sizes around the file sizes: files ending exactly at a volume end, tiny volumes"""
    rng = ctx.rng
    n = rng.randint(1, 4)
    fs = [rargen.AFile("f%d.%s" % (i, rng.choice(["avi", "bin"])), rng.randbytes(rng.choice(
        [0, 1, 2, 300, 512, 1024, 5000, 65535, 65536, 65537]))) for i in range(n)]
    vs = rng.choice([300, 512, 700, 1024, 2048, 5120, 66000])
    if sum(len(f.data) for f in fs) / vs > 130:
        vs = 2048
    r = srrlib.Release(ctx)
    s = rargen.make_set(rng, files=fs, volsize=vs)
    r.sets.append(("", s))
    r.sfvs.append(None)
    s.write(r.root)
    if rng.random() < 0.5:
        ctx.write("release/rel.sfv", s.sfv(rng.shuffle))
        r.sfvs = ["rel.sfv"]
        r.extra["rel.sfv"] = s.sfv()
    ctx.note["release"] = r.describe()
    srr = srrlib.make_srr(ctx, r, False)
    rebuild_and_compare(ctx, r, srr, False)
    ctx.klass("b", vs, len(s.volumes) > 100, min(len(s.volumes), 5), n, *features(r))
    ctx.sample(r.describe())
    if len(s.volumes) > 101:
        ctx.count("sets_past_100_volumes")


def rollover(ctx):
    """more than 101 volumes: .r99 -> .s00, .part99 -> .part100"""
    rng = ctx.rng
    n = rng.randint(102, 230)
    vs = 400
    r = srrlib.Release(ctx)
    s = rargen.make_set(rng, files=[rargen.AFile("f.bin", rng.randbytes(vs * n))], volsize=vs + 110, plain=True,
                        new=ctx.idx % 2 == 0, digits=rng.choice([3, 2]))
    if ctx.idx % 2 == 0 and s.volumes[0].name.endswith("part01.rar") and len(s.volumes) > 99:
        # WinRAR pads all numbers of one set to the same width: part001
        s = rargen.make_set(rng, files=s.files, volsize=vs + 110, plain=True, new=True, digits=3)
    s.write(r.root)
    r.sets.append(("", s))
    use_sfv = rng.random() < 0.5
    r.sfvs.append("rel.sfv" if use_sfv else None)
    if use_sfv:
        d = s.sfv(rng.shuffle)
        ctx.write("release/rel.sfv", d)
        r.extra["rel.sfv"] = d
    ctx.note["release"] = r.describe()
    srr = srrlib.make_srr(ctx, r, False)
    rebuild_and_compare(ctx, r, srr, False)
    ctx.count("sets_past_100_volumes", int(len(s.volumes) > 101))
    ctx.klass("roll", len(s.volumes) // 20, s.opt["new"], use_sfv)


def recovery(ctx):
    rng = ctx.rng
    kind = "new" if ctx.idx % 2 else "old"
    r = srrlib.release(ctx, nsets=1, rr=kind, paths=False)
    srr = srrlib.make_srr(ctx, r, False)
    ctx.note["release"] = r.describe()
    rebuild_and_compare(ctx, r, srr, False)
    ctx.count("recovery_volumes", len(r.sets[0][1].volumes))
    ctx.klass("rr", kind, *features(r))
    ctx.sample(r.describe())


def subset(ctx):
    """one volume, or a wildcard for a subset of the sets"""
    rng = ctx.rng
    r = srrlib.release(ctx, nsets=rng.choice([1, 2, 3]), paths=True)
    sp = True
    srr = srrlib.make_srr(ctx, r, sp)
    vols = r.expected_volumes(sp)
    ctx.note["release"] = r.describe()
    if rng.random() < 0.6:
        n, v = rng.choice(vols)
        part = rng.choice([n, os.path.basename(n), os.path.splitext(n)[1]])
        want = dict((m, w.data) for m, w in vols if m.endswith(part))
        kind = "one" if len(want) == 1 else "some"
    else:
        n, v = rng.choice(vols)
        stem = n
        # the prefix of a whole set
        for folder, s in r.sets:
            if v in s.volumes:
                names = [m for m, w in vols if w in s.volumes]
                stem = os.path.commonprefix(names)
        part = stem + "*"
        want = dict((m, w.data) for m, w in vols if m.startswith(stem))
        kind = "set"
    ctx.note["part"] = part
    rebuild_and_compare(ctx, r, srr, sp, part=part, want=want)
    ctx.klass("sub", kind, min(len(want), 4), *features(r))
    ctx.count("subset_" + kind)
    ctx.sample(dict(part=part, volumes=sorted(want), of=len(vols)))


GROUPS = [
    Group("whole", whole, 260, 3500, {"volumes_compared": 200}),
    Group("boundaries", boundaries, 220, 3000, {"rebuilds": 100}),
    Group("rollover", rollover, 6, 60, {"sets_past_100_volumes": 4}),
    Group("recovery", recovery, 80, 1200, {"recovery_volumes": 40}),
    Group("subset", subset, 140, 2000, {"subset_one": 10, "subset_set": 10}),
]
