"""R05 editing changes only what was asked: histories of edits against a model."""
import os
from mon import rargen, srrlib, srrparse
from mon.core import Group, difftree, files, read
from mon.srrlib import rescene, MsgCode

PROPERTY = "R05"
RULE = ("random SRR files and histories of add/remove/rename/merge with valid and invalid arguments; after every "
        "operation the file must equal, byte for byte, the serialisation of the model. Distinct: sequence of operation "
        "kinds and outcomes x presence of volumes")


class Model(object):
    def __init__(self, app, stored, sk):
        self.app, self.stored, self.sk = app, list(stored), sk

    @property
    def bytes(self):
        return srrparse.build(self.app, self.stored, self.sk)


def history(ctx, steps=None, real=False):
    rng = ctx.rng
    if real:
        r = srrlib.release(ctx, small=True, extra=2)
        srr0 = srrlib.make_srr(ctx, r, True)
        s = srrlib.parse(ctx, srr0)
        m = Model(s.app, s.stored, s.skeleton)
        d = ctx.mkdir("d")
        srr = os.path.join(d, "x.srr")
        os.rename(srr0, srr)
    else:
        data, app, stored, sk, sets = srrlib.ref_srr(ctx, oso=False if rng.random() < 0.7 else None)
        if not sk and len(app) < 13:     # the reader wants 20 bytes, also when nothing is stored
            app = "ReScene .NET 1.2"
            data = srrparse.build(app, stored, sk)
        m = Model(app, stored, sk)
        srr = ctx.write("d/x.srr", data)
    novol = not m.sk
    ctx.check(read(srr) == m.bytes, "model of the SRR is not exact")
    fd = ctx.mkdir("files")
    pool = {}
    for i, n in enumerate(srrlib.stored_names(rng, 8)):
        if any(a.startswith(n + "/") or n.startswith(a + "/") for a in pool):
            continue
        pool[n] = rng.randbytes(rng.choice([0, 1, 40, 3000]))
        ctx.write("files/" + n, pool[n])
    hist = []
    for step in range(steps or rng.randint(1, 9)):
        op = rng.choice(["add", "add", "add", "remove", "remove", "rename", "rename", "list"])
        before = read(srr)
        exc = None
        if op == "add":
            sp = rng.random() < 0.6
            names = rng.sample(sorted(pool), min(len(pool), rng.choice([0, 1, 1, 2, 3])))
            if rng.random() < 0.2:
                names.insert(rng.randint(0, len(names)), "missing.nfo")
            ab = rng.random() < 0.4
            args = [os.path.join(fd, n) if ab else rng.choice([n, "./" + n]) for n in names]
            if rng.random() < 0.2 and len(args) == 1:
                args = args[0]
            dup = not ab and any(e == n for e, _ in m.stored for n in names)
            bad = any(c in (n if sp else os.path.basename(n)) for n in names if n in pool for c in '\\:*?"<>|')
            o = ctx.call(rescene.add_stored_files, srr, args, fd, sp)
            if dup:
                ctx.check(isinstance(o.exc, rescene.main.DupeFileName), "dupe not refused: " + o.brief())
                exc = "dupe"
            elif bad:
                ctx.check(isinstance(o.exc, AttributeError), "bad name not refused: " + o.brief())
                exc = "bad"
            else:
                ctx.check(o.ok, "add fails: " + o.brief())
                m.stored += [(n if sp else os.path.basename(n), pool[n]) for n in names if n in pool]
            hist.append(("add", sp, ab, args, exc))
        elif op == "remove":
            have = [n for n, _ in m.stored]
            names = rng.sample(have, min(len(have), rng.choice([0, 1, 1, 2])))
            if rng.random() < 0.3:
                names.append(rng.choice(["absent.nfo", "a.nf", "a"]))
            rng.shuffle(names)
            o = ctx.call(rescene.remove_stored_files, srr, names)
            ctx.check(o.ok, "remove fails: " + o.brief())
            m.stored = [(n, d) for n, d in m.stored if n not in names]
            hist.append(("remove", names))
        elif op == "rename":
            have = [n for n, _ in m.stored]
            old = rng.choice(have) if have and rng.random() < 0.85 else "not in there"
            new = rng.choice(["renamed.nfo", "New Dir/x.nfo", "\u00fc.txt", "b" * rng.randint(1, 250), old,
                              "bad:name", "q?", "st*r", "", "back\\slash.nfo", "<>|"])
            o = ctx.call(rescene.rename_stored_file, srr, old, new)
            if old not in have:
                ctx.check(isinstance(o.exc, rescene.main.FileNotFound), "rename of an absent file: " + o.brief())
                exc = "absent"
            elif not new or any(c in new for c in '\\:*?"<>|'):
                ctx.check(isinstance(o.exc, AttributeError), "rename to %r not refused: %s" % (new, o.brief()))
                exc = "bad"
            else:
                ctx.check(o.ok, "rename fails: " + o.brief())
                i = have.index(old)
                m.stored[i] = (new, m.stored[i][1])
            hist.append(("rename", old, new, exc))
        else:
            inf = ctx.must(rescene.info, srr)
            names = []
            for n, _ in m.stored:
                if n not in names:
                    names.append(n)
            ctx.equal([f.file_name for f in inf["stored_files"].values()], names, "listed stored files")
            hist.append(("list",))
        ctx.note["history"] = hist[-6:]
        ctx.count("operations")
        if exc:
            ctx.count("refusals")
            ctx.check(read(srr) == before, "refused operation changed the SRR")
        got = read(srr)
        if got != m.bytes:
            try:
                s = srrparse.Srr(got)
                detail = "stored %r, expected %r; metadata %s" % (
                    [(n, len(d)) for n, d in s.stored], [(n, len(d)) for n, d in m.stored],
                    "same" if s.skeleton == m.sk else "DIFFERS")
            except Exception as e:
                detail = "not well formed: %s" % e
            ctx.fail("after %r the SRR is not what the edits say: %s" % (hist[-1], detail))
        ctx.count("oracle_evaluations")
        ctx.equal(os.listdir(ctx.path("d")), ["x.srr"], "files next to the SRR")
    # still usable
    ns = [n for n, _ in m.stored]
    if len(set(ns)) == len(ns) and not any(b.startswith(a + "/") for a in ns for b in ns) and len(m.bytes) > 20:
        out = ctx.mkdir("ex")
        ctx.must(rescene.extract_files, srr, out)
        ctx.equal(difftree(dict(m.stored), files(out)), [], "files extracted after the edits")
    if real:
        r.write_archived("src")
        out = ctx.mkdir("out")
        ctx.must(rescene.reconstruct, srr, ctx.path("src"), out, True, extract_files=False)
        ctx.equal(difftree(dict((n, v.data) for n, v in r.expected_volumes(True)), files(out)), [],
                  "volumes reconstructed after the edits")
        ctx.count("reconstructed_after_edits")
    ctx.klass(real, novol, "".join(h[0][0:2] + ("!" if h[-1] in ("dupe", "bad", "absent") else "") for h in hist[:4]))
    ctx.sample(dict(history=hist, stored=[(n, len(d)) for n, d in m.stored]))


def realhist(ctx):
    history(ctx, real=True)


def merge(ctx):
    rng = ctx.rng
    parts = [srrlib.ref_srr(ctx, nsets=rng.choice([0, 1, 1]), oso=rng.random() < 0.2) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    paths = [ctx.write("in/%d.srr" % i, p[0]) for i, p in enumerate(parts)]
    out = ctx.path("in/merged.srr" if rng.random() < 0.5 else "merged.srr")
    into = rng.random() < 0.3       # the output is one of the inputs, or exists
    if into:
        out = rng.choice(paths)
    elif rng.random() < 0.3:
        ctx.write(os.path.relpath(out, ctx.dir), b"old" * 100)
    app = rng.choice([None, None, "", "Merger \u00e9"])
    if app is None:
        ctx.must(rescene.merge_srrs, paths, out)
    else:
        ctx.must(rescene.merge_srrs, iter(paths) if rng.random() < 0.3 else paths, out, app)
    want_app = app or next((p[1] for p in parts if p[1]), "")
    want = srrparse.build(want_app, [s for p in parts for s in p[2]], b"".join(p[3] for p in parts))
    got = read(out)
    if got != want:
        s = srrlib.parse(ctx, out)
        ctx.equal(s.app, want_app, "application name of the merged SRR")
        ctx.equal([(n, len(d)) for n, d in s.stored], [(n, len(d)) for p in parts for n, d in p[2]], "stored files")
        ctx.check(s.skeleton == b"".join(p[3] for p in parts), "metadata of the merged SRR differs from the parts")
        ctx.fail("merged SRR differs from the parts")
    if into:
        ctx.count("merged_into_input")
    ctx.equal(sorted(files(ctx.path("in"))), sorted(set(os.path.basename(p) for p in paths) |
              ({"merged.srr"} if os.path.dirname(out) == ctx.path("in") and not into else set())), "files after merging")
    for p, q in zip(paths, parts):
        ctx.check(p == out or read(p) == q[0], "merging changed an input")
    ctx.count("merges")
    ctx.count("oracle_evaluations")
    ctx.klass("merge", len(parts), bool(app), [bool(p[1]) for p in parts], [min(2, len(p[2])) for p in parts][:2])


def notsrr(ctx):
    """editing something that is no SRR is refused and leaves it alone"""
    rng = ctx.rng
    s = rargen.make_set(rng, nvol_hint=1, files=[rargen.AFile("a.bin", b"x" * 100)], plain=True)
    data = s.volumes[0].data
    p = ctx.write("d/x.rar" if rng.random() < 0.5 else "d/x.srr", data)
    ctx.write("d2/f.nfo", b"1")
    for fn, args in ((rescene.add_stored_files, (["f.nfo"], ctx.path("d2"))), (rescene.remove_stored_files, (["f.nfo"],)),
                     (rescene.rename_stored_file, ("a", "b"))):
        o = ctx.call(fn, p, *args)
        ctx.check(isinstance(o.exc, rescene.main.NotSrrFile), "%s on a RAR: %s" % (fn.__name__, o.brief()))
        ctx.check(read(p) == data, "RAR changed by %s" % fn.__name__)
        ctx.equal(len(os.listdir(ctx.path("d"))), 1, "files left")
    ctx.count("notsrr")
    ctx.klass("notsrr", p[-3:], s.opt["new"])


GROUPS = [
    Group("history", history, 900, 15000, {"operations": 2000, "refusals": 100}),
    Group("real", realhist, 120, 2000, {"reconstructed_after_edits": 60}),
    Group("merge", merge, 200, 3000, {"merges": 100, "merged_into_input": 30}),
    Group("notsrr", notsrr, 6, 40),
]
