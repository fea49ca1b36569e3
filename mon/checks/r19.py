"""R19: the srr command line does what its options say and its exit code is true."""
import os, re, shutil, zlib
from mon import srrlib, srrparse, rargen
from mon.core import Group, difftree, files, read, tree
from mon.srrlib import rescene, rmain
from mon.checks import r18

PROPERTY = "R19"
RULE = ("random option combinations of the srr tool over generated releases, started from random working folders with "
        "relative and absolute paths; every file below the scratch folder is compared with what the library operation "
        "makes of the same inputs in a copy; output text compared with an independent parse; exit code with the outcome. "
        "Distinct: command x options x outcome")
ASSUMPTIONS = ["a declined overwrite is no failure", "a content mismatch in reconstruction is judged by R03"]


def run(ctx, argv, cwd, **kw):
    from rescene import srr as tool
    ctx.note["argv"] = argv
    res = srrlib.cli(ctx, tool.main, argv, cwd=cwd, **kw)
    ctx.check(res["died"] is None, "srr died: %r" % (res,))
    ctx.check(res["exc"] is None, "srr raised: %s" % (res["exc"],))
    ctx.check(res["rc"] != 99, "srr reports an unexpected error: %s" % res["err"][-600:])
    return res


def spell(ctx, path, cwd):
    """one way to name a path from cwd"""
    if ctx.rng.random() < 0.5:
        return os.path.relpath(path, cwd)
    return path


def create(ctx):
    rng = ctx.rng
    r = srrlib.release(ctx, small=True, packers=0, sfv=rng.random() < 0.7)
    cwd = rng.choice([r.root, ctx.dir, ctx.mkdir("elsewhere")])
    opts = dict(p=rng.random() < 0.5, d=rng.random() < 0.3, o=rng.choice([None, "dir", "file"]),
                i=cwd != r.root or rng.random() < 0.3, noisdb=rng.random() < 0.2, v=rng.random() < 0.1,
                y=rng.random() < 0.2)
    argv = []
    ins = srrlib.infiles(r)
    if rng.random() < 0.3:
        rng.shuffle(ins)
    inargs = [spell(ctx, p, cwd) for p in ins]
    if opts["i"]:
        argv += ["-i", r.root]
    base = r.root if opts["i"] else cwd
    for k, f in (("p", "-p"), ("d", "-d"), ("noisdb", "--no-isdb"), ("v", "-v"), ("y", "-y")):
        if opts[k]:
            argv.append(f)
    out = cwd
    if opts["o"] == "dir":
        out = ctx.mkdir("outdir")
        argv += ["-o", spell(ctx, out, cwd)]
    name = None
    if opts["o"] == "file":
        out = ctx.mkdir("outdir")
        name = rng.choice(["given.srr", "Given.SRR", "a b.srr"])
        argv += ["-o", os.path.join(out, name)]
    if name is None:
        name = (os.path.basename(base) if opts["d"] else os.path.basename(ins[0])[:-4]) + ".srr"
    store = []
    extra = [p for p in sorted(r.extra) if p not in r.sfvs]
    for p in extra:
        how = rng.random()
        if how < 0.5:
            store.append(os.path.join(base, p))
        elif how < 0.8:
            store.append(p)         # relative to the base folder
    if rng.random() < 0.3:
        store.append(rng.choice(["*.nfo", "*.txt", "nothing*.xyz", "absent.nfo"]))
    for p in store:
        argv += ["-s", p]
    parts = [inargs, argv] if rng.random() < 0.6 else [argv, inargs]
    argv = parts[0] + parts[1]
    # the same through the library, on the same release, elsewhere
    refdir = ctx.mkdir("ref")
    ref = os.path.join(refdir, "ref.srr")
    os.chdir(cwd)
    srrlib.set_overwrite(lambda p: True)
    got = ctx.call(rescene.create_srr, ref, list(ins), base, list(store), opts["p"], None, not opts["noisdb"])
    os.chdir(ctx.dir)
    before = tree(ctx.dir)
    res = run(ctx, argv, cwd)
    after = tree(ctx.dir)
    target = os.path.relpath(os.path.join(out, name), ctx.dir)
    changed = sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0) and not k.startswith("tmp"))
    if got.ok:
        ctx.equal(res["rc"], 0, "exit code of a good creation; %s" % res["err"][-200:])
        ctx.equal(changed, [target], "files made by creation")
        if after[target] != read(ref):
            a, b = srrparse.Srr(after[target]), srrparse.Srr(read(ref))
            ctx.note["diff"] = [a.app, b.app, [n for n, _ in a.stored], [n for n, _ in b.stored], a.skeleton == b.skeleton, a.oso, b.oso]
        ctx.check(after[target] == read(ref), "the SRR differs from the one the library makes")
        ctx.check("SRR file successfully created." in res["out"], "creation doesn't say it succeeded")
        ctx.count("created")
    else:
        ctx.check(res["rc"] != 0, "exit code 0 although the library fails: %s" % got.brief())
        ctx.equal(changed, [], "files left by a failed creation")
        ctx.count("create_failed")
    ctx.klass("create", opts["p"], opts["d"], opts["o"], opts["i"], opts["noisdb"], got.ok, len(r.sets), bool(store))


def listing(ctx):
    rng = ctx.rng
    if rng.random() < 0.5:
        data, app, stored, sk, sets = srrlib.ref_srr(ctx)
        srr = ctx.write("w/x.srr", data)
        crcs = None
    else:
        r = srrlib.release(ctx, small=True, packers=0, same=0.1)
        srr = srrlib.make_srr(ctx, r, True, name="x.srr")
    s = srrparse.Srr(read(srr))
    before = tree(ctx.dir)
    cwd = ctx.mkdir("cwd")
    res = run(ctx, [spell(ctx, srr, cwd), rng.choice(["-l", "--list"])], cwd)
    ctx.equal(res["rc"], 0, "exit code of -l")
    lines = res["out"].split("\n")
    def section(title):
        if title not in lines:
            return []
        i = lines.index(title) + 1
        out = []
        while i < len(lines) and lines[i].startswith("\t"):
            out.append(lines[i][1:])
            i += 1
        return out
    ctx.equal(section("Creating Application:"), [s.app or "Unknown"], "application shown")
    ctx.equal([re.sub(r"^ *([0-9,. ]+?)  ", lambda m: re.sub("[^0-9]", "", m.group(1)) + "  ", x) for x in section("Stored files:")],
              ["%d  %s" % (len(d), n) for n, d in s.stored], "stored files shown")
    vols = section("RAR files:")
    ctx.equal(len(vols), len(s.volumes), "number of RAR files shown")
    for line, v in zip(vols, s.volumes):
        ctx.check(line.startswith(v[0] + " "), "RAR file %r shown as %r" % (v[0], line))
    ctx.equal(section("ISDb hashes:"), ["%s %016x %d" % (n, h, z) for n, z, h in s.oso], "hashes shown")
    if s.volumes:
        sizes = list((n.lstrip("/"), len(v.data)) for n, v in
                     (r.expected_volumes(True) if "r" in dir() else
                      [(f + "/" + v.name, v) for f, st in sets for v in st.volumes]))
        sizes = dict([(os.path.basename(n), z) for n, z in sizes] + sizes)
        for line, v in zip(vols, s.volumes):
            ctx.equal(int(line.split()[-1]), sizes.get(v[0], sizes[os.path.basename(v[0])]), "size shown for %s" % v[0])
    res2 = run(ctx, [spell(ctx, srr, cwd), rng.choice(["-e", "--details"])], cwd)
    ctx.equal(res2["rc"], 0, "exit code of -e")
    for n, _ in s.stored:
        ctx.check(n in res2["out"], "details don't name %s" % n)
    for n in s.volumes:
        ctx.check(n[0] in res2["out"], "details don't name %s" % n[0])
    ctx.check(tree(ctx.dir) == before | {"cwd": None}, "listing changed files")
    ctx.count("listed")
    ctx.klass("list", bool(s.stored), min(3, len(s.volumes)), bool(s.oso), bool(s.app))


def store(ctx):
    rng = ctx.rng
    data, app, stored, sk, sets = srrlib.ref_srr(ctx)
    srr = ctx.write("w/x.srr", data)
    base = ctx.mkdir("base")
    new = {}
    for i in range(rng.randint(1, 4)):
        n = rng.choice(["", "sub/", "a b/c/"]) + "%d-new.%s" % (i, rng.choice(["nfo", "txt", "jpg"]))
        new[n] = rng.randbytes(rng.choice([0, 5, 800]))
        ctx.write("base/" + n, new[n])
    args = []
    for n in sorted(new):
        args.append(rng.choice([n, os.path.join(base, n)]))
    if rng.random() < 0.3:
        args.append(rng.choice(["*.nfo", "sub/*", "zzz*.q"]))
    if rng.random() < 0.2:
        args = [rng.choice(["absent.nfo", "no/such.file"])]
    if rng.random() < 0.2 and stored:
        n = rng.choice(stored)[0]
        ctx.write("base/" + n, b"dupe")
        args.append(n)
    p = rng.random() < 0.6
    ref = ctx.write("ref/x.srr", data)
    o = ctx.call(rescene.add_stored_files, ref, list(args), base, p)
    argv = [srr] + [a for n in args for a in ("-s", n)] + ["-i", base] + (["-p"] if p else [])
    from rescene import srr as tool
    before = files(ctx.dir)
    ctx.note["argv"] = argv
    res = srrlib.cli(ctx, tool.main, argv, cwd=ctx.mkdir("cwd"))
    ctx.check(res["died"] is None and res["exc"] is None, "srr -s: %r" % (res,))
    after = files(ctx.dir)
    ctx.equal([k for k in sorted(set(before) | set(after)) if before.get(k) != after.get(k) and k != "w/x.srr"], [],
              "other files changed by -s")
    if o.ok:
        ctx.equal(res["rc"], 0, "exit code of -s: %s" % res["err"][-300:])
        ctx.check(after["w/x.srr"] == read(ref), "-s result differs from the library's")
        ctx.count("stored")
    else:
        ctx.check(res["rc"] != 0, "exit code 0 although storing fails: %s" % o.brief())
        ctx.check(after["w/x.srr"] == data, "failed -s changed the SRR")
        ctx.count("store_failed")
    ctx.klass("store", p, o.ok, type(o.exc).__name__, len(args))


def extract(ctx):
    rng = ctx.rng
    data, app, stored, sk, sets = srrlib.ref_srr(ctx)
    ns = [n for n, _ in stored]
    if any(b.startswith(a + "/") for a in ns for b in ns):
        return
    srr = ctx.write("w/Rel.Name-GRP.srr", data)
    cwd = ctx.mkdir("cwd")
    p, d, o = rng.random() < 0.5, rng.random() < 0.3, rng.random() < 0.6
    out = ctx.mkdir("out") if o and rng.random() < 0.5 else ctx.path("out") if o else cwd
    argv = [spell(ctx, srr, cwd)]
    rx = None
    if rng.random() < 0.5:
        argv.append(rng.choice(["-x", "--extract"]))
    else:
        rx = rng.choice([r".*\.NFO$", r"sample/", r".*(nfo|txt)$", r"^x", r"nothing at all", r".*", r"[", r"(?P<"])
        argv += ["--extract-regex", rx]
    argv += (["-p"] if p else []) + (["-d"] if d else []) + (["-o", spell(ctx, out, cwd)] if o else [])
    bad = rx in ("[", r"(?P<")
    rels = [n if p else n.split("/")[-1] for n in ns if not rx or not bad and re.compile(rx, re.I).match(n)]
    if len(set(rels)) < len(rels):
        return      # the second finds the first and asks: R08
    root = os.path.join(out, "Rel.Name-GRP") if d else out
    there = {}
    if rng.random() < 0.3 and not bad:
        # some of the files are there, and stay as they are
        for rel in rng.sample(rels, min(len(rels), rng.randint(1, 2))):
            there[rel] = rng.randbytes(rng.choice([0, 5, 30]))
            ctx.write(os.path.join(os.path.relpath(root, ctx.dir), rel), there[rel])
        argv.append("-n")
    res = run(ctx, argv, cwd)
    want = {}
    for n, b in stored:
        if rx and (bad or not re.compile(rx, re.I).match(n)):
            continue
        rel = n if p else n.split("/")[-1]
        want[rel] = b
    pre = os.path.relpath(root, ctx.dir)
    got = dict((k, v) for k, v in files(ctx.dir).items() if not k.startswith(("tmp", "w/")))
    ctx.equal(difftree(dict((pre + "/" + k, v) for k, v in dict(want, **there).items()), got), [], "files extracted by the command")
    ctx.equal(res["rc"] != 0, bad or bool(there), "exit code %r of extraction %r, there before: %r" % (res["rc"], rx, sorted(there)))
    for n in want:
        ctx.check(("\n%s: extracted.\n" % n in "\n" + res["out"] + "\n") == (n not in there), "what became of %s isn't shown: %r" % (n, res["out"]))
    ctx.equal(res["out"].count(": extracted."), len(want) - len(there), "files shown as extracted")
    ctx.check(read(srr) == data, "extraction changed the SRR")
    ctx.count("extractions")
    ctx.klass("extract", rx, p, d, o, min(2, len(want)))


def reconstruct(ctx):
    rng = ctx.rng
    r = srrlib.release(ctx, small=True, packers=0)
    srr = srrlib.make_srr(ctx, r, rng.random() < 0.8, name="in/Rel.srr") if ctx.mkdir("in") else None
    s = srrparse.Srr(read(srr))
    cwd = ctx.mkdir("cwd")
    arch = ctx.mkdir("arch") if rng.random() < 0.7 else cwd
    r.write_archived(arch)
    out = ctx.path("out") if rng.random() < 0.6 else cwd
    os.makedirs(out, exist_ok=True)
    p = rng.random() < 0.7
    argv = [spell(ctx, srr, cwd)]
    kw = dict(extract_files=True)
    if arch != cwd:
        argv += ["-i", spell(ctx, arch, cwd)]
    if out != cwd:
        argv += ["-o", spell(ctx, out, cwd)]
    if p:
        argv.append("-p")
    hints = {}
    how = rng.choice(["plain", "plain", "hint", "locate", "part", "part", "u", "fake", "missing", "badhint"])
    data = dict((n, b) for n, b in r.archived().items() if b)
    victim = rng.choice(sorted(data)) if data else None
    ext = os.path.splitext(victim)[1] if victim else ""
    names = [n for n, _ in r.expected_volumes(False)]
    if len(set(names)) < len(names) and not p:
        return
    if how in ("hint", "locate", "missing", "fake") and victim is None:
        how = "plain"
    if how == "hint":
        if re.search("[:;]", victim):
            return
        orig = None
        for _, st in r.sets:
            for f in st.files:
                if f.os_name == victim:
                    orig = f.name.replace("/", "\\")
        new = "renamed.thing"
        os.rename(os.path.join(arch, victim), os.path.join(arch, new))
        argv += ["-H", "%s:%s" % (orig, new)]
        hints = {orig: new}
    elif how == "badhint":
        argv += ["-H", "no colon here"]
    elif how == "locate":
        os.makedirs(os.path.join(arch, "deep"), exist_ok=True)
        os.rename(os.path.join(arch, victim), os.path.join(arch, "deep", "other name" + ext))
        if sum(len(b) == len(data[victim]) for b in data.values()) > 1:
            return          # may pick a wrong one of the same size: R03
        argv.append("-r")
        kw["auto_locate_renamed"] = True
    elif how == "missing":
        os.unlink(os.path.join(arch, victim))
    elif how == "fake":
        os.unlink(os.path.join(arch, victim))
        argv.append(rng.choice(["-f", "--fake-file"]))
        kw.update(empty=True)
    elif how == "u":
        argv.append(rng.choice(["-u", "--no-autocrc"]))
        kw["skip_rar_crc"] = True
    elif how == "part":
        v = rng.choice(names)
        part = rng.choice([v, v[-4:], v[-4:] if v[-4:] == ".rar" else v[:-3] + "*", os.path.splitext(v)[0] + "*"])
        argv += [rng.choice(["-m", "--volume"]), part]
        kw.update(extract_files=False, srr_part=part)
    if rng.random() < 0.5:
        argv.append("-y")
    ctx.note.update(how=how, argv=argv)
    # library
    ref = ctx.mkdir("ref")
    os.chdir(cwd)
    o = ctx.call(rescene.reconstruct, srr, arch, ref, p, hints, **kw)
    os.chdir(ctx.dir)
    want = files(ref)
    before = files(ctx.dir)
    res = run(ctx, argv, cwd)
    after = files(ctx.dir)
    pre = os.path.relpath(out, ctx.dir)
    made = dict((k, v) for k, v in after.items() if before.get(k) != v)
    ctx.equal([k for k in before if k not in after], [], "files removed by reconstruction")
    if how == "badhint":
        ctx.check(res["rc"] != 0 and not made, "bad hint accepted: %r" % sorted(made))
        ctx.count("refused")
    else:
        if o.ok:
            ctx.equal(difftree(dict((pre + "/" + k, v) for k, v in want.items() if before.get(pre + "/" + k) != v), made), [],
                      "files reconstructed by the command and by the library")
        ctx.equal(res["rc"] != 0, not o.ok, "exit code %r; library: %s" % (res["rc"], o.brief()))
        if o.ok:
            ctx.count("reconstructed")
            if how in ("plain", "hint", "locate", "u"):
                for n, v in r.expected_volumes(True):
                    k = n if any(x[0] == n for x in s.volumes) and p else os.path.basename(n)
                    ctx.check(after.get(pre + "/" + k) == v.data, "volume %s is not the original" % k)
        else:
            ctx.count("refused")
            ctx.check(how == "missing", "reconstruction failed: %s" % o.brief())
            ctx.check(res["err"].strip() or res["out"].strip(), "failure says nothing")
    ctx.klass("reconstruct", how, p, arch == cwd, out == cwd, o.ok, len(r.sets))


def wrong(ctx):
    """unusable invocations: nonzero exit, nothing touched"""
    rng = ctx.rng
    r = srrlib.release(ctx, small=True, packers=0, nsets=1, extra=1)
    srr = srrlib.make_srr(ctx, r, True, name="ok.srr")
    ctx.write("junk.txt", b"x")
    ctx.write("broken.srr", rng.randbytes(rng.choice([0, 5, 100])))
    ctx.write("broken2.srr", b"\0" + read(srr)[1:3] + b"\xff" * 30)
    ctx.write("lone.sfv", b"absent.rar 12345678\r\n")
    ctx.write("bad.rar", b"not a rar at all, really")
    k = rng.choice([["absent.srr"], ["absent.rar"], ["junk.txt"], ["-l"], ["ok.srr", "-x", "--extract-regex", "a"],
                    ["ok.srr", "-t", "no such dir"], ["broken.srr", "-l"], ["broken.srr", "-e"], ["broken.srr", "-x"],
                    ["broken.srr"], ["broken2.srr", "-l"], ["broken.srr", "-q"], ["broken.srr", "-s", "junk.txt"],
                    ["lone.sfv"], ["bad.rar"], ["ok.srr", "--nosuchoption"], ["ok.srr", "--mt-set", "x"], ["ok.srr", "absent.srr"],
                    ["ok.srr", "-i", "no such folder"], ["-p"]])
    before = tree(ctx.dir)
    cwd = ctx.dir
    from rescene import srr as tool
    ctx.note["argv"] = k
    res = srrlib.cli(ctx, tool.main, k, cwd=cwd)
    ctx.check(res["died"] is None and res["exc"] is None, "srr: %r" % (res,))
    ctx.check(res["rc"] != 0, "exit code 0 for %r: %r" % (k, res["out"][-300:]))
    ctx.check((res["out"] + res["err"]).strip(), "refusal says nothing")
    after = tree(ctx.dir)
    diff = [x for x in set(before) | set(after) if before.get(x, 0) != after.get(x, 0)]
    if k == ["ok.srr", "-i", "no such folder"]:
        # stored files and the first headers may have been written before the file is missed
        diff = [x for x in diff if x in before]
    ctx.equal(sorted(diff), [], "files changed by %r" % (k,))
    ctx.count("wrong")
    ctx.klass("wrong", " ".join(k))


def upper(ctx):
    """an SRR with another letter case in its extension is an SRR too"""
    rng = ctx.rng
    data, app, stored, sk, sets = srrlib.ref_srr(ctx, nstored=2)
    srr = ctx.write("w/X" + rng.choice([".SRR", ".Srr"]), data)
    cwd = ctx.mkdir("cwd")
    res = run(ctx, [srr, "-l"], cwd)
    ctx.equal(res["rc"], 0, "exit code of -l: %s" % (res["err"][-200:]))
    for n, _ in stored:
        ctx.check(n in res["out"], "listing without %s" % n)
    ctx.check(read(srr) == data, "SRR changed by listing")
    ctx.equal(sorted(files(cwd)), [], "files made by listing")
    ctx.count("upper")


GROUPS = [Group("create", create, 260, 3000, {"created": 150}),
          Group("listing", listing, 120, 1500, {"listed": 100}),
          Group("store", store, 160, 2000, {"stored": 60, "store_failed": 10}),
          Group("extract", extract, 150, 1500, {"extractions": 60}),
          Group("reconstruct", reconstruct, 260, 3000, {"reconstructed": 100, "refused": 20}),
          Group("wrong", wrong, 80, 500, {"wrong": 60}),
          Group("upper", upper, 6, 40, {"upper": 5}),
          Group("verify", r18.verify, 90, 1200, {"refused": 30, "accepted": 15}),
          Group("verify_renamed", r18.renamed, 30, 400, {"refused": 10, "accepted": 5}),
          Group("verify_music", r18.music, 4, 20, {"nothing": 3})]
