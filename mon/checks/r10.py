"""R10: the content hash identifies the RAR content, nothing else."""
import hashlib, os
from mon import rargen, srrlib, srrparse
from mon.core import Group, files, read
import rescene
import rescene.main as rmain

PROPERTY = "R10"
RULE = ("pairs of SRR files related by one change; equal hash expected for stored files, application, set order, "
        "paths and letter case, video hashes and real edits; a different one for every change of a header; "
        "class = kind of change, set count, algorithm")
ASSUMPTIONS = ["RAR and SRR writers of the harness", "RAR headers changed keep the structure of the block"]


def bare(sets, case=None, folder=True):
    """volume part; case: how the names are written"""
    out = b""
    for d, s in sets:
        for v in s.volumes:
            n = (d + "/" + v.name) if folder and d else v.name
            if case:
                n = case(n)
            out += srrparse.rarname_block(n) + v.skeleton
    return out


def make_sets(ctx, nsets=None, **kw):
    rng = ctx.rng
    sets = []
    for i in range(nsets or rng.choice([1, 1, 2, 3])):
        fs = rargen.pick_files(rng, prefix="s%d-" % i, size=lambda g: g.choice([1, 50, 900, 4000]))
        sets.append((rng.choice(["", "CD%d" % (i + 1), "a/B c"]),
                     rargen.make_set(rng, base="rel-%d" % i, files=fs, pad=0, **kw)))
    return sets


def some_stored(rng):
    return [(n, rng.randbytes(rng.choice([0, 5, 600]))) for n in srrlib.stored_names(rng, rng.choice([0, 1, 3]))]


def hashes(ctx, data, name="x.srr", algorithm=None):
    p = ctx.write(name, data)
    a = (algorithm,) if algorithm else ()
    h = ctx.must(rmain.content_hash, p, *a)
    ctx.equal(read(p), data, "the SRR after hashing")
    return h


def expected(sets, algorithm="sha1"):
    m = hashlib.new(algorithm)
    vols = [(v.name.lower(), (d + "/" + v.name).lower(), v.skeleton) for d, s in sets for v in s.volumes]
    for _, _, sk in sorted(vols):
        m.update(sk)
    return m.hexdigest()


APP = "ReScene .NET 1.2"


def same(ctx):
    rng = ctx.rng
    sets = make_sets(ctx)
    alg = rng.choice([None, None, "sha1", "md5", "sha256"])
    sk = bare(sets)
    ctx.note["case"] = [s.describe() for _, s in sets]
    h = hashes(ctx, srrparse.build(APP, some_stored(rng), sk), algorithm=alg)
    ctx.equal(h, expected(sets, alg or "sha1"), "hash of the headers in name order")
    shuffled = list(sets)
    rng.shuffle(shuffled)
    volshuf = []
    for d, s in sets:
        volshuf += [(d, s, v) for v in s.volumes]
    rng.shuffle(volshuf)
    variants = {
        "stored": srrparse.build(APP, some_stored(rng), sk),
        "app": srrparse.build("another application \u00e9", some_stored(rng), sk),
        "noapp": srrparse.build("", [("a.nfo", b"12345")], sk),
        "order": srrparse.build(APP, [], bare(shuffled)),
        "volumes": srrparse.build(APP, [], b"".join(srrparse.rarname_block((d + "/" + v.name) if d else v.name) +
                                                    v.skeleton for d, s, v in volshuf)),
        "lower": srrparse.build(APP, [], bare(sets, str.lower)),
        "upper": srrparse.build(APP, [], bare(sets, str.upper)),
        "nopath": srrparse.build(APP, [], bare(sets, None, False)),
        "hash": srrparse.build(APP, [], sk + srrparse.oso_block("v.avi", 70000, 77)),
        "storedlast": srrparse.build(APP, [], sk) + srrparse.stored_block("z.nfo", b"zzz"),
    }
    for k, b in sorted(variants.items()):
        ctx.equal(hashes(ctx, b, k + ".srr", alg), h, "hash after change %r" % k)
        ctx.klass(k, len(sets), alg)
        ctx.count("equal_pairs")
    ctx.sample(dict(hash=h, sets=[s.describe() for _, s in sets]))


def edited(ctx):
    """edits by the tool keep it"""
    rng = ctx.rng
    sets = make_sets(ctx)
    if rng.random() < 0.4:      # with padding
        sets[0] = (sets[0][0], rargen.make_set(rng, base="padded", pad=rng.choice([1, 9]), end="full",
                                               files=rargen.pick_files(rng, size=800)))
    data = srrparse.build(APP, some_stored(rng), srrlib.ref_skeleton(sets))
    p = ctx.write("x.srr", data)
    h = ctx.must(rmain.content_hash, p)
    srrlib.set_overwrite(lambda x: True)
    src = ctx.write("in/new file.nfo", rng.randbytes(300))
    ctx.must(rescene.add_stored_files, p, [src], ctx.path("in"), False)
    ctx.equal(ctx.must(rmain.content_hash, p), h, "hash after adding a file")
    ctx.must(rescene.rename_stored_file, p, "new file.nfo", "Sub/other.nfo")
    ctx.equal(ctx.must(rmain.content_hash, p), h, "hash after renaming a file")
    ctx.must(rescene.remove_stored_files, p, ["Sub/other.nfo"])
    ctx.equal(ctx.must(rmain.content_hash, p), h, "hash after removing a file")
    if len(sets) == 1:
        return
    # one SRR per set, merged in any order
    parts = []
    for i, s in enumerate(sets):
        parts.append(ctx.write("p%d.srr" % i, srrparse.build(APP, some_stored(rng), srrlib.ref_skeleton([s]))))
    rng.shuffle(parts)
    m = ctx.path("merged.srr")
    ctx.must(rescene.merge_srrs, parts, m)
    ctx.equal(ctx.must(rmain.content_hash, m), h, "hash of the merged SRR")
    ctx.count("merged")
    ctx.klass(len(sets), sets[0][1].opt["pad"] > 0)


def samename(ctx):
    """the same volume names in two folders"""
    rng = ctx.rng
    k = rng.choice([2, 3])
    sets = []
    new = rng.random() < 0.5
    for i in range(k):
        fs = rargen.pick_files(rng, prefix="s%d-" % i, size=lambda g: g.choice([1, 900, 4000]))
        sets.append(("CD%d" % (i + 1), rargen.make_set(rng, base="rel", files=fs, pad=0, new=new, digits=2)))
    h = hashes(ctx, srrparse.build(APP, [], bare(sets)))
    for _ in range(3):
        o = list(sets)
        rng.shuffle(o)
        ctx.equal(hashes(ctx, srrparse.build(APP, some_stored(rng), bare(o)), "o.srr"), h, "hash with the sets in other order")
    ctx.equal(h, expected(sets), "hash of the headers")
    # every single volume counts
    for i, (d, s) in enumerate(sets):
        for j, v in enumerate(s.volumes):
            b = b"".join(srrparse.rarname_block(dd + "/" + vv.name) + (tweak(rng, vv) if vv is v else vv.skeleton)
                         for dd, ss in sets for vv in ss.volumes)
            ctx.check(hashes(ctx, srrparse.build(APP, [], b), "t.srr") != h,
                      "volume %s/%s is not part of the hash" % (d, v.name))
            ctx.count("different_pairs")
    ctx.klass(k, new, sum(len(s.volumes) for _, s in sets))


def tweak(rng, v):
    """skeleton with one header field changed: the attributes or CRC of an archived file, or a flag"""
    heads = [bytearray(h) for h in v.heads]
    cand = [i for i, h in enumerate(heads) if h[2] in (0x74, 0x73)]
    i = rng.choice(cand)
    h = heads[i]
    if h[2] == 0x74:
        pos = rng.choice([15, 16, 17, 18, 19, 20, 21, 22, 23, 28, 29, 30, 31])     # os, crc, time, attributes
    else:
        pos = rng.randrange(7, 13)          # reserved bytes
    h[pos] ^= 1 << rng.randrange(8)
    return b"".join(bytes(h) for h in heads)


def different(ctx):
    rng = ctx.rng
    sets = make_sets(ctx)
    allv = [(d, s, v) for d, s in sets for v in s.volumes]
    ctx.note["case"] = [s.describe() for _, s in sets]

    def build(vols):
        return srrparse.build(APP, stored, b"".join(
            srrparse.rarname_block((d + "/" + n) if d else n) + sk for d, n, sk in vols))
    stored = some_stored(rng)
    base = [(d, v.name, v.skeleton) for d, s, v in allv]
    h = hashes(ctx, build(base))
    for kind in ("header", "header", "header", "less", "more", "swap", "renamed", "crc"):
        vols = list(base)
        i = rng.randrange(len(vols))
        if kind == "header":
            vols[i] = (vols[i][0], vols[i][1], tweak(rng, allv[i][2]))
        elif kind == "less":
            if len(vols) == 1:
                continue
            del vols[i]
        elif kind == "more":
            vols.append((vols[i][0], "zz" + vols[i][1], vols[i][2]))
        elif kind == "swap":
            j = rng.randrange(len(vols))
            if vols[i][2] == vols[j][2]:
                continue
            a, b = vols[i], vols[j]
            vols[i], vols[j] = (a[0], a[1], b[2]), (b[0], b[1], a[2])
        elif kind == "renamed":
            # the archived file has another name
            heads = [bytearray(x) for x in allv[i][2].heads]
            fh = [x for x in heads if x[2] == 0x74]
            if not fh:
                continue
            pos = 32 + (8 if fh[0][4] & 1 else 0)
            fh[0][pos] ^= 1
            vols[i] = (vols[i][0], vols[i][1], b"".join(map(bytes, heads)))
        elif kind == "crc":
            # one bit of any header checksum
            heads = [bytearray(x) for x in allv[i][2].heads]
            k = rng.randrange(1, len(heads))
            heads[k][rng.randrange(2)] ^= 1 << rng.randrange(8)
            vols[i] = (vols[i][0], vols[i][1], b"".join(map(bytes, heads)))
        ctx.check(hashes(ctx, build(vols), "d.srr") != h, "hash is the same after change %r of volume %d" % (kind, i))
        ctx.klass(kind, len(sets), len(allv).bit_length())
        ctx.count("different_pairs")
    ctx.sample(ctx.note["case"])


def made(ctx):
    """the same release made into an SRR in several ways"""
    rng = ctx.rng
    r = srrlib.release(ctx, nsets=rng.choice([1, 2]), pad=0)
    ctx.note["release"] = r.describe()
    hs = []
    for i, (sp, oso, store) in enumerate([(True, True, None), (False, False, []), (rng.random() < 0.5, True, [])]):
        srr = srrlib.make_srr(ctx, r, sp, name="m%d.srr" % i, oso=oso, store=store)
        hs.append(ctx.must(rmain.content_hash, srr))
    ctx.check(len(set(hs)) == 1, "the hash of the same release differs: %r" % hs)
    ctx.equal(hs[0], expected(r.sets), "hash of the headers in name order")
    ctx.klass(len(r.sets), r.sets[0][1].opt["rr"])


GROUPS = [Group("same", same, 120, 3000, {"equal_pairs": 500}), Group("edited", edited, 80, 1500, {"merged": 10}),
          Group("samename", samename, 60, 1000), Group("different", different, 150, 4000, {"different_pairs": 400}),
          Group("made", made, 50, 1000)]
