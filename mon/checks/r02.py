"""R02 the SRR is the faithful skeleton of the set."""
import fnmatch, glob, os
from mon import rargen, srrlib
from mon.core import Group, files, read, tree
from mon.srrlib import rescene, MsgCode

PROPERTY = "R02"
RULE = ("random releases (independent RAR3 writer); the SRR made by the real code is parsed with an independent "
        "reader and compared block by block with the known layout. Distinct: new combination of layout features "
        "and store options")


def expect_stored(root, store, save_paths, sfvs):
    """reference search: names and bytes in the order asked for, then SFV files"""
    out = []
    for pat in list(store) + list(sfvs):
        p = pat if os.path.isabs(pat) else os.path.join(root, pat)
        if os.path.isfile(p):
            n = os.path.relpath(p, root) if save_paths else os.path.basename(p)
            out.append((n, read(p)))
    return out


def compare(ctx, r, srrfile, save_paths, stored, oso_names=None, app=None):
    s = srrlib.parse(ctx, srrfile)
    ctx.equal(s.app, rescene.APPNAME if app is None else app, "application name in the SRR header")
    ctx.equal([n for n, _ in s.stored], [n for n, _ in stored], "names of stored files")
    for (n, got), (_, want) in zip(s.stored, stored):
        ctx.equal(got, want, "bytes of stored file %s" % n)
        ctx.count("stored_compared")
    exp = srrlib.expected_skeleton(r, save_paths)
    ctx.equal([v[0] for v in s.volumes], [e[0] for e in exp], "volume names in set order")
    for v, e in zip(s.volumes, exp):
        ctx.check(v[1] == e[1], "RAR metadata of volume %s differs from the original headers "
                  "(%d bytes, expected %d)" % (e[0], len(v[1]), len(e[1])))
        ctx.check(v[3] == e[2], "bytes after the end block of volume %s" % e[0])
        ctx.check(v[2] & 1, "volume %s not marked as having its recovery data removed" % e[0])
        ctx.count("volumes_compared")
    # order: header, stored, volumes, hashes
    cls = [0 if t == 0x69 else 1 if t == 0x6A else 3 if t == 0x6B else 2 for t in s.order]
    ctx.check(cls == sorted(cls), "blocks out of order: %s" % cls)
    # no block the release does not explain: parse() is strict about unknown types
    # the real reader covers the file exactly
    rr = ctx.must(rescene.rar.RarReader, srrfile)
    pos = 0
    for b in ctx.must(rr.read_all):
        ctx.equal(b.block_position, pos, "position of a block as read back")
        pos += b.header_size
        if b.rawtype in (0x6A, 0x6C) or (b.rawtype == 0x7A and b.file_name != "RR"):
            pos += b.add_size
        elif b.rawtype == 0x77:
            pos += len(b.block_bytes()) - b.header_size
    ctx.equal(pos, os.path.getsize(srrfile), "end of the last block as read back")
    ctx.equal(len(s.oso), len([o for o in s.blocks if o.type == 0x6B]), "hash blocks")
    return s


def create(ctx):
    rng = ctx.rng
    sp = rng.random() < 0.6
    r = srrlib.release(ctx, sfv=rng.random() < 0.7, paths=sp, same=0.12 if sp else 0)
    store = [p for p in r.extra if p not in r.sfvs]
    rng.shuffle(store)
    want = list(store)
    missing = 0
    if rng.random() < 0.3:
        store.insert(rng.randint(0, len(store)), "not-there.nfo")
        missing = 1
    ab = rng.random() < 0.5
    arg = [os.path.join(r.root, p) if ab else p for p in store]
    ctx.note["release"] = r.describe()
    before = tree(r.root)
    out = ctx.mkdir("o")
    srr = os.path.join(out, "x.srr")
    infiles = srrlib.infiles(r)
    oso = rng.random() < 0.7
    app = None
    if rng.random() < 0.3:
        app = rng.choice(["My App 1.0", "\u00e9\u4e2d", "x" * rng.randint(1, 400)])
        ctx.must(rescene.change_rescene_name_version, app)
    ok = ctx.must(rescene.create_srr, srr, infiles, r.root, arg, sp, oso_hash=oso)
    ctx.check(ok is True, "creation reports %r" % (ok,))
    sfvs = [i for i in infiles if i.endswith(".sfv")]
    stored = expect_stored(r.root, want, sp, sfvs)
    s = compare(ctx, r, srr, sp, stored, app=app)
    ctx.check(oso or not s.oso, "hashes stored although not asked for")
    ctx.equal(sorted(os.listdir(out)), ["x.srr"], "files in the output folder")
    ctx.check(tree(r.root) == before, "release changed by creation")
    f = r.sets[0][1].opt
    ctx.klass(len(r.sets), f["new"], min(4, len(r.sets[0][1].volumes)), f["rr"], f["end"], bool(f["pad"]), f["comment"],
              sp, missing, len(stored), ab)
    ctx.sample(dict(release=r.describe(), stored=[n for n, _ in stored]))


def letter_case(ctx):
    """SFV names and names on disk in different letter case"""
    rng = ctx.rng
    r = srrlib.Release(ctx)
    s = rargen.make_set(rng, base="MiXed.Rel-GRP", nvol_hint=rng.randint(2, 4), plain=True)
    how = ctx.idx % 4
    disk = dict((v.name, v.name) for v in s.volumes)
    insfv = dict(disk)
    if how == 0:        # SFV lower case, capitals on disk
        insfv = dict((n, n.lower()) for n in disk)
    elif how == 1:      # capitals in SFV, lower case on disk
        disk = dict((n, n.lower()) for n in disk)
    for v in s.volumes:
        ctx.write(os.path.join("release", disk[v.name]), v.data)
    if how == 3:        # .RAR, .R00: from the first volume, without SFV
        for v in s.volumes:
            os.unlink(ctx.path("release", v.name))
            stem, ext = os.path.splitext(v.name)
            v.name = stem + (ext.upper() if rng.random() < 0.8 or v is s.volumes[0] else ext)
            ctx.write(os.path.join("release", v.name), v.data)
        r.sets.append(("", s))
        srr = ctx.path("o.srr")
        ok = ctx.must(rescene.create_srr, srr, [ctx.path("release", s.volumes[0].name)], r.root, [], rng.random() < 0.5)
        ctx.check(ok is True, "creation reports %r" % (ok,))
        compare(ctx, r, srr, False, [])
        ctx.count("upper_case_sets")
        ctx.klass("case", how, s.opt["new"], len(s.volumes))
        return
    lines = [("%s %08x\r\n" % (insfv[v.name], rargen.zlib.crc32(v.data) & 0xFFFFFFFF)).encode() for v in s.volumes]
    rng.shuffle(lines)
    ctx.write("release/x.sfv", b"".join(lines))
    r.sets.append(("", s))
    srr = ctx.path("o.srr")
    ok = ctx.must(rescene.create_srr, srr, [ctx.path("release/x.sfv")], r.root, [], rng.random() < 0.5)
    ctx.check(ok is True, "creation reports %r" % (ok,))
    compare(ctx, r, srr, False, [("x.sfv", b"".join(lines))])
    ctx.count("letter_case_cases")
    ctx.klass("case", how, s.opt["new"], len(s.volumes))


def appended(ctx):
    """a file given by path outside of the release is stored without climbing out"""
    rng = ctx.rng
    r = srrlib.release(ctx, nsets=1, plain=True, small=True, extra=1, paths=False)
    ctx.write("elsewhere/notes.txt", b"n" * 5)
    sp = ctx.idx % 2 == 0
    o = ctx.call(rescene.create_srr, ctx.path("o.srr"), srrlib.infiles(r), r.root, [ctx.path("elsewhere/notes.txt")], sp)
    ctx.check(o.ok and o.value is True, "creation fails: " + o.brief())
    s = srrlib.parse(ctx, ctx.path("o.srr"))
    ctx.check(s.stored[0] == ("notes.txt", b"nnnnn"), "file from elsewhere is stored as %r" % (s.stored[0][0],))
    ctx.count("outside_cases")
    ctx.klass("outside", sp, r.sets[0][1].opt["new"])


def layouts(ctx):
    """header variations on few small volumes: cheap, many"""
    rng = ctx.rng
    r = srrlib.Release(ctx)
    fs = rargen.pick_files(rng, size=lambda g: g.choice([0, 1, 5, 100, 512, 1500]))
    s = rargen.make_set(rng, files=fs, nvol_hint=rng.choice([1, 1, 2, 3]), solid=rng.random() < 0.1)
    s.write(r.root)
    r.sets.append(("", s))
    r.sfvs.append(None)
    ctx.note["release"] = r.describe()
    srr = srrlib.make_srr(ctx, r, False)
    compare(ctx, r, srr, False, [])
    ctx.klass("lay", *[s.opt[k] for k in ("new", "rr", "end", "comment")], bool(s.opt["pad"]), len(fs), len(s.volumes),
              "".join("u" if f.uni else "d" if f.directory else "e" if not f.data else "f" for f in fs))
    ctx.sample(r.describe())


def matches(names, pat):
    """reference: names a wildcard pattern means; brackets are no wildcards"""
    def one(n, p):
        if not p:
            return not n
        if p[0] == "*":
            return any(one(n[i:], p[1:]) for i in range(len(n) + 1))
        return bool(n) and (p[0] == "?" or n[0] == p[0]) and one(n[1:], p[1:])

    def part(n, p):
        return one(n, p) and (n[:1] != "." or p[:1] == ".")
    return sorted(n for n in names if n.count("/") == pat.count("/")
                  and all(part(a, b) for a, b in zip(n.split("/"), pat.split("/"))))


def wildcards(ctx):
    """files to store given with wildcards, in creation and adding, relative or absolute"""
    rng = ctx.rng
    r = srrlib.release(ctx, nsets=1, small=True, extra=0, paths=False, sfv=rng.random() < 0.5)
    base = ctx.mkdir("base [x]" if rng.random() < 0.3 else "base")
    names = {}
    for _ in range(rng.randint(3, 9)):
        n = rng.choice(["", "", "Sample/", "Proof [1]/", ".hid/"]) + rng.choice(
            ["a", "ab", "b[1]", "xy", "xxy", ".dot", "\u00e9", "A"]) + rng.choice([".nfo", ".txt", ".jpg", ""])
        names[n] = rng.randbytes(rng.choice([0, 3, 200]))
        p = os.path.join(base, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(names[n])
    pats = [rng.choice(["*.nfo", "*", "*/*.txt", "Sample/*", "?.*", "a*", "*[1]*", "Proof [1]/*", "zz*", ".*", "x*y.nfo", "b[1].nfo",
                        rng.choice(sorted(names)), "*/*", "q?*", "b[!1].nfo"]) for _ in range(rng.randint(1, 3))]
    want, any_missing = [], False
    for pat in pats:
        got = [pat] if pat in names else matches(names, pat)
        any_missing |= not got
        want.append([(n, names[n]) for n in got])
    args = [os.path.join(base, p) if rng.random() < 0.4 else p for p in pats]
    ctx.note.update(patterns=pats, names=sorted(names), base=base)
    add = rng.random() < 0.4
    srr = ctx.path("o.srr")
    if add:
        data = srrlib.ref_srr(ctx, nstored=0)[0]
        srr = ctx.write("o.srr", data)
        ctx.must(rescene.add_stored_files, srr, list(args), base, True)
        tail = []
    else:
        ins = srrlib.infiles(r)
        ok = ctx.must(rescene.create_srr, srr, ins, base, list(args), True)
        ctx.check(ok is True, "creation reports %r" % (ok,))
        tail = [1 for i in ins if i.endswith(".sfv")]
    got = srrlib.parse(ctx, srr).stored
    got = got[:len(got) - len(tail)]
    ctx.equal(len(got), sum(map(len, want)), "number of files stored for %r" % (pats,))
    for w in want:      # the order of the matches of one pattern is free
        ctx.equal(sorted(got[:len(w)]), sorted(w), "files stored for a pattern")
        got = got[len(w):]
    ctx.count("wildcard_hits", sum(map(len, want)))
    ctx.klass("glob", add, sorted(pats)[0], any_missing, "[" in base)


GROUPS = [
    Group("wildcards", wildcards, 200, 2500, {"wildcard_hits": 200}),
    Group("create", create, 500, 6000, {"volumes_compared": 300, "stored_compared": 200}),
    Group("letter_case", letter_case, 60, 600, {"letter_case_cases": 30, "upper_case_sets": 8}),
    Group("outside", appended, 8, 40, {"outside_cases": 4}),
    Group("layouts", layouts, 700, 12000),
]
