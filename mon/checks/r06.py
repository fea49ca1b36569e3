"""R06 a failed or interrupted edit never loses the SRR: enumeration of fault and crash points."""
import os, sys
from mon import srrlib, srrparse
from mon.core import Group, InjectedCrash, REPO, files, read
from mon.srrlib import rescene

PROPERTY = "R06"
RULE = ("an edit of a random SRR is run once to count its file system events and executed lines; then again with an "
        "I/O error, a permission error or process death at each event, a disk limit at sampled sizes, and process "
        "death or Ctrl+C at sampled lines. The folder is inspected after each. Distinct: operation x fault kind x "
        "operation hit")


def prepare(ctx, d):
    """(SRR path, closure of the edit, old bytes, new bytes)"""
    rng = ctx.rng
    kind = ("add", "remove", "rename", "merge")[ctx.idx % 4]
    data, app, stored, sk, sets = srrlib.ref_srr(ctx, nstored=rng.choice([1, 2, 4]), nsets=rng.choice([0, 1, 1]), oso=False,
                                                 app="some application 1")
    new = list(stored)
    if kind == "add":
        n = "added file.nfo"
        b = rng.randbytes(rng.choice([0, 10, 20000]))
        ctx.write("files/" + n, b)
        new.append((n, b))
        if rng.random() < 0.3:
            ctx.write("files/second", b"2")
            new.append(("second", b"2"))
        args = [n for n, _ in new[len(stored):]]
        fn = lambda p: rescene.add_stored_files(p, args, ctx.path("files"))
    elif kind == "remove":
        k = rng.randrange(len(stored))
        name = stored[k][0]
        new.pop(k)
        fn = lambda p: rescene.remove_stored_files(p, [name])
    elif kind == "merge":       # another SRR into this one
        d2, _, st2, sk2, _ = srrlib.ref_srr(ctx, nstored=rng.choice([0, 2]), nsets=rng.choice([0, 1]), oso=False)
        other = ctx.write("files/other.srr", d2)
        new += st2
        sk += sk2
        fn = lambda p: rescene.merge_srrs([p, other], p)
    else:
        k = rng.randrange(len(stored))
        name = stored[k][0]
        to = rng.choice(["n", "renamed/to something longer.nfo"])
        new[k] = (to, stored[k][1])
        fn = lambda p: rescene.rename_stored_file(p, name, to)
    return kind, data, srrparse.build(app, new, sk), fn


class Lines(object):
    """counts executed lines of the repository; acts at the n-th"""
    def __init__(self, at=None, act="crash"):
        self.n, self.at, self.act = 0, at, act

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.at:
                sys.settrace(None)
                if self.act == "crash":
                    os._exit(77)
                raise KeyboardInterrupt()
        return self.local

    def glob(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(REPO + "/"):
            return self.local(frame, "line", arg) if False else self.local
        return None


def run(ctx, d, fn, data, fault=None, fsize=None, fsize_kill=False, lines=None):
    """one edit in a child; returns (status, error text or None, events, files)"""
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    p = os.path.join(d, "x.srr")
    with open(p, "wb") as f:
        f.write(data)

    def go():
        if lines:
            def traced():
                sys.settrace(lines.glob)
                try:
                    fn(p)
                except KeyboardInterrupt:
                    raise RuntimeError("interrupted")
                finally:
                    sys.settrace(None)
            o = ctx.call(traced)
        else:
            o = ctx.call(fn, p)
        return [o.ok, o.brief(), lines.n if lines else 0]
    st, res = ctx.in_child(go, fault=fault, fsize=fsize, fsize_kill=fsize_kill, count_reads=True)
    ctx.count("faulted_runs")
    return st, res, files(d)


def verdict(ctx, what, st, res, got, old, new):
    ctx.check("x.srr" in got, "%s: no SRR under its name (%s), left: %s" % (
        what, st if st != "done" else res["ok"][1], sorted((k, len(v)) for k, v in got.items())))
    cur = got["x.srr"]
    ctx.check(cur == old or cur == new, "%s: the SRR is neither the old nor the new one (%d bytes; old %d, new %d)" % (
        what, len(cur), len(old), len(new)))
    if st == "done":
        ok = res["ok"][0]
        if ok:
            ctx.check(cur == new, "%s: success reported, SRR not edited" % what)
            ctx.check(list(got) == ["x.srr"], "%s: success, but left: %s" % (what, sorted(got)))
        else:
            ctx.check(cur == old, "%s: error reported, SRR changed" % what)
            ctx.check(list(got) == ["x.srr"], "%s: error (%s), but files left: %s" % (what, res["ok"][1], sorted(got)))
            ctx.count("errors_reported")
    else:
        ctx.count("deaths")


def events(ctx):
    d = ctx.mkdir("d")
    kind, old, new, fn = prepare(ctx, d)
    st, res, got = run(ctx, d, fn, old, fault=(1 << 30, "oserror"))
    verdict(ctx, "no fault", st, res, got, old, new)
    ctx.check(res["ok"][0], "edit fails without a fault: %s" % res["ok"][1])
    n = res["n"]
    ctx.check(n >= 3, "only %d events observed" % n)
    for f in ("oserror", "eacces", "crash"):
        for k in range(1, n + 1):
            ctx.note["fault"] = (kind, f, k)
            st, res, got = run(ctx, d, fn, old, fault=(k, f))
            verdict(ctx, "%s, %s at event %d of %d%s" % (kind, f, k, n, " (%s)" % (res["hit"],) if res else ""),
                    st, res, got, old, new)
            ctx.klass(kind, f, res["hit"][0] if res and res["hit"] else k, n)
    ctx.sample(dict(kind=kind, events=n, old=len(old), new=len(new)))


def disk(ctx):
    rng = ctx.rng
    d = ctx.mkdir("d")
    kind, old, new, fn = prepare(ctx, d)
    for limit in sorted(set([0, 1, len(new) - 1, len(new) // 2, rng.randrange(len(new)), 8192 * rng.randint(0, 3)])):
        for kill in (False, True):
            ctx.note["limit"] = (kind, limit, kill)
            st, res, got = run(ctx, d, fn, old, fsize=limit, fsize_kill=kill)
            verdict(ctx, "%s, disk limit %d of %d bytes" % (kind, limit, len(new)), st, res, got, old, new)
            if limit < len(new):
                ctx.check(st != "done" or not res["ok"][0], "success in spite of a full disk")
            ctx.klass(kind, "limit", kill, limit == 0, st)


def lines(ctx):
    rng = ctx.rng
    d = ctx.mkdir("d")
    kind, old, new, fn = prepare(ctx, d)
    st, res, got = run(ctx, d, fn, old, lines=Lines())
    n = res["ok"][2]
    ctx.check(n > 20, "only %d lines observed" % n)
    for act in ("crash", "interrupt"):
        # the last lines are the interesting ones
        pts = set(rng.randint(1, n) for _ in range(4)) | set(range(max(1, n - 14), n + 1))
        for k in sorted(pts):
            ctx.note["line"] = (kind, act, k, n)
            ln = Lines(k, act)
            st, res, got = run(ctx, d, fn, old, lines=ln)
            ctx.check("x.srr" in got and got["x.srr"] in (old, new),
                      "%s, %s at line event %d of %d: SRR lost, left: %s" % (
                          kind, act, k, n, sorted((a, len(b)) for a, b in got.items())))
            ctx.count("line_points")
            ctx.klass(kind, act, n - k if n - k < 14 else "early", got.get("x.srr") == new)


GROUPS = [
    Group("events", events, 60, 900, {"errors_reported": 100, "deaths": 100}),
    Group("disk", disk, 45, 600),
    Group("lines", lines, 45, 600, {"line_points": 500}),
]
