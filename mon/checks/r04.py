"""R04 stored files come back exactly as stored."""
import os, re
from mon import srrlib, srrparse
from mon.core import Group, difftree, files, read, tree
from mon.srrlib import rescene, MsgCode

PROPERTY = "R04"
RULE = ("SRR files of the reference writer and of the tool with generated stored entries; extraction through the "
        "library and the command line with every kind of selection; the output tree and the result list are compared "
        "with a model of the selection. Distinct: selection kind x path option x collision class x volumes present")


def model(stored, out, paths, sel, existing=None):
    """reference: ({relative: bytes}, [(path, written)])"""
    tree_, res = dict(existing or {}), []
    for n, d in stored:
        rel = n if paths else n.split("/")[-1]
        if not sel(n, rel):
            continue
        if rel in tree_:
            res.append((os.path.join(out, rel), False))
        else:
            tree_[rel] = d
            res.append((os.path.join(out, rel), True))
    return tree_, res


def conflict(stored):
    """a stored name is a folder of another"""
    ns = [n for n, _ in stored]
    return any(b.startswith(a + "/") for a in ns for b in ns)


def library(ctx):
    rng = ctx.rng
    data, app, stored, sk, sets = srrlib.ref_srr(ctx)
    if conflict(stored):
        return
    srr = ctx.write("x.srr", data)
    paths = rng.random() < 0.6
    kind = rng.choice(["all", "name", "name", "path", "matcher", "absent"])
    out = ctx.path(rng.choice(["out", "new/er", "out/"]))
    if rng.random() < 0.5:
        os.makedirs(out, exist_ok=True)
    kw, sel = {}, (lambda n, rel: True)
    if kind == "name" and stored:
        pick = rng.choice(stored)[0].split("/")[-1]
        kw, sel = dict(packed_name=pick), (lambda n, rel: rel.split("/")[-1] == pick)
    elif kind == "path" and stored:
        pick = rng.choice(stored)[0]
        if "/" not in pick:
            pick = [n for n, _ in stored if "/" in n][:1]
            if not pick:
                return
            pick = pick[0]
        kw, sel = dict(packed_name=rng.choice([pick, "./" + pick])), (lambda n, rel: n == pick)
    elif kind == "matcher":
        m = rng.choice([lambda n: n.endswith(".nfo"), lambda n: False, lambda n: "/" in n, lambda n: len(n) % 2,
                        lambda n: n.lower() == n])
        kw, sel = dict(matcher=m), (lambda n, rel: bool(m(n)))
    elif kind == "absent":
        kw, sel = dict(packed_name="no such file.xyz"), (lambda n, rel: False)
    ctx.note.update(stored=[n for n, _ in stored], kind=kind, kw=repr(kw), paths=paths)
    ev = srrlib.subscribe()
    got = ctx.must(rescene.extract_files, srr, out, paths, **kw)
    want, res = model(stored, os.path.normpath(out), paths, sel)
    ctx.equal(list(map(tuple, got)), [(p, w) for p, w in res], "result list of the extraction")
    ctx.equal(difftree(want, files(out)) if os.path.isdir(out) else sorted(want), [], "extracted files")
    ctx.check(read(srr) == data, "SRR changed by extraction")
    ctx.equal(sorted(x for x in os.listdir(ctx.dir) if x not in ("tmp", "x.srr", "out", "new")), [],
              "files outside of the output folder")
    if kw.get("packed_name") and not any(w for _, w in res):
        ctx.check(ev.has(MsgCode.NO_EXTRACTION), "nothing extracted by name, and not reported")
        ctx.count("nothing_reported")
    ctx.count("extracted", len([1 for _, w in res if w]))
    ctx.count("refused", len([1 for _, w in res if not w]))
    ctx.klass(kind, paths, min(3, len(res)), any(not w for _, w in res), bool(sk), "" in [d for _, d in stored])
    ctx.sample(dict(stored=[(n, len(d)) for n, d in stored], kind=kind, paths=paths, written=len(res)))


def separators(ctx):
    """stored names with backslashes, as written by other tools"""
    rng = ctx.rng
    names = [n for n in srrlib.stored_names(rng, 4)]
    stored = [(n, rng.randbytes(20)) for n in names]
    if conflict(stored):
        return
    raw = [(n.replace("/", "\\") if rng.random() < 0.7 else n, d) for n, d in stored]
    srr = ctx.write("x.srr", srrparse.build("x", raw, srrlib.ref_skeleton([])))
    out = ctx.mkdir("out")
    paths = rng.random() < 0.6
    ctx.note.update(raw=[n for n, _ in raw], paths=paths)
    got = ctx.must(rescene.extract_files, srr, out, paths)
    want, res = model(stored, out, paths, lambda n, rel: True)
    ctx.equal(list(map(tuple, got)), res, "result list of the extraction")
    ctx.equal(difftree(want, files(out)), [], "extracted files")
    ctx.count("backslash_names", sum("\\" in n for n, _ in raw))
    ctx.klass("sep", paths, sum("\\" in n for n, _ in raw), len(res))


def roundtrip(ctx):
    """files stored by the tool itself, extracted again"""
    rng = ctx.rng
    r = srrlib.release(ctx, small=True, extra=rng.choice([1, 3, 5]))
    srr = srrlib.make_srr(ctx, r, True)
    out = ctx.mkdir("out")
    got = ctx.must(rescene.extract_files, srr, out)
    ctx.equal(difftree(r.extra, files(out)), [], "files stored and extracted again")
    ctx.check(all(w for _, w in got) and len(got) == len(r.extra), "result list: %r" % (got,))
    ctx.count("extracted", len(got))
    ctx.klass("rt", len(r.extra), len(r.sets))


def command(ctx):
    from rescene import srr as tool
    rng = ctx.rng
    data, app, stored, sk, sets = srrlib.ref_srr(ctx, nstored=rng.choice([0, 1, 3, 6]))
    if conflict(stored):
        return
    srr = ctx.write("in/Some.Release.srr", data)
    cwd = ctx.mkdir("cwd")
    argv, out, sel = [srr], cwd, (lambda n, rel: True)
    regex = rng.random() < 0.5
    if regex:
        pat = rng.choice([r".*\.nfo$", r".*(nfo|sfv)$", "^sample/.*", "^zzz", ".*", "Proof", r"[^/]*$"])
        argv += ["--extract-regex", pat]
        sel = lambda n, rel: bool(re.match(pat, n, re.I))
    else:
        argv += ["-x"]
    paths = rng.random() < 0.5
    if paths:
        argv += ["-p"]
    if rng.random() < 0.5:
        out = ctx.path("elsewhere")
        argv += ["-o", out]
    if rng.random() < 0.4:
        argv += ["-d"]
        out = os.path.join(out, "Some.Release")
    argv += ["-n"]
    # outputs that are already there
    existing = {}
    if stored and rng.random() < 0.3:
        n = rng.choice(stored)[0]
        rel = n if paths else n.split("/")[-1]
        os.makedirs(os.path.dirname(os.path.join(out, rel)), exist_ok=True)
        with open(os.path.join(out, rel), "wb") as f:
            f.write(b"mine")
        existing[rel] = b"mine"
    ctx.note.update(argv=argv, stored=[n for n, _ in stored])
    o = srrlib.cli(ctx, tool.main, argv, cwd=cwd)
    want, res = model(stored, out, paths, sel, existing)
    ctx.equal(difftree(want, files(out)) if os.path.isdir(out) else sorted(want), [], "extracted files")
    bad = [p for p, w in res if not w]
    ctx.equal(o["rc"], 1 if bad else 0, "exit status (%d not written)" % len(bad))
    lines = o["out"].splitlines()
    err = o["err"].splitlines()
    for p, w in res:
        rel = os.path.relpath(p, out)
        ctx.check(("%s: extracted." % rel) in lines if w else ("%s: not extracted!" % rel) in err,
                  "%s (written: %s) not reported: %s %s" % (rel, w, o["out"][-300:], o["err"][-300:]))
    ctx.equal(len([l for l in lines if l.endswith(": extracted.")]), len([1 for _, w in res if w]), "reported files")
    ctx.check(read(srr) == data, "SRR changed by extraction")
    ctx.count("cli_extractions")
    ctx.klass("cli", regex, paths, "-o" in argv, "-d" in argv, min(2, len(bad)), min(2, len(res)))


GROUPS = [
    Group("library", library, 700, 12000, {"extracted": 300, "refused": 10, "nothing_reported": 10}),
    Group("separators", separators, 100, 1500, {"backslash_names": 40}),
    Group("roundtrip", roundtrip, 100, 1500),
    Group("cli", command, 120, 1500, {"cli_extractions": 60}),
]
