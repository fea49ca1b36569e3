"""U02: an SRR made from Usenet equals the SRR made from disk."""
import contextlib, io, json, os, re, socket, sys, types, warnings, zlib
from mon import autorel, rargen, srrlib, srrparse
from mon.checks import u01, u03
from mon.core import Group, HarnessError, files, read, short, tree
from mon.srrlib import rescene

PROPERTY = "U02"
RULE = ("The real tool with the real nntplib speaks to a news server that lives in memory (articles, several servers, STAT, HEAD, GROUP, "
        "dot stuffing). (read) posted files of every segment size are read with random sequences of seek, tell and read next to the "
        "file itself; (srr) releases are posted and an SRR is made by the tool's main and compared with the one made by the library "
        "from the files on disk, block by block; (missing) articles are missing, cut or damaged on some or all servers: the right SRR "
        "or none. Non-trivial: reads or SRRs were compared; classes: segment sizes, servers, options, what is missing.")
ASSUMPTIONS = ["the bodies of posted volumes arrive undamaged (damaged ones are repaired by guessing, by design): for those only other "
               "files and - with --check-crc - whole segments are judged", "names of posted files are unique in an NZB or "
               "posted again (the larger post is the complete one)", "volumes are named in an SFV file, or the SRR starts from the first volumes",
               "random access within volumes is not judged other than through the SRR (reading there looks for RAR headers, by design)"]
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import nntplib
with contextlib.redirect_stdout(io.StringIO()):
    tool = u03.tool("srr_usenet")


# -- the server -----------------------------------------------------------------------------------------------------
class Server(object):
    def __init__(self):
        self.articles = {}          # message id -> lines, not dot stuffed
        self.down = False
        self.auth = None
        self.headlines = True
        self.log = []

    def answer(self, cmd, session):
        w = cmd.split()
        c = w[0].upper()
        self.log.append(c)
        if c in ("CAPABILITIES", "MODE"):
            return [b"500 what?"]
        if c == "AUTHINFO":
            if w[1].upper() == "USER":
                return [b"381 more"]
            return [b"281 ok"] if w[2] == self.auth else [b"481 no"]
        if c == "QUIT":
            return [b"205 bye"]
        if c == "GROUP":
            return [b"211 10 1 10 " + w[1].encode()] if "no" not in w[1] else [b"411 no such group"]
        if c in ("BODY", "HEAD", "STAT"):
            if w[1] not in self.articles:
                return [b"430 no such article"]
            lines = self.articles[w[1]]
            if c == "STAT":
                return [b"223 0 " + w[1].encode()]
            if c == "HEAD":
                h = [b"Subject: x", b"Message-ID: " + w[1].encode()]
                if self.headlines:
                    h.insert(1, b"Lines: %d" % len(lines))
                return [b"221 0 " + w[1].encode() + b" head"] + h + [b"."]
            return [b"222 0 " + w[1].encode() + b" body"] + [b"." + l if l.startswith(b".") else l for l in lines] + [b"."]
        return [b"500 what?"]


SERVERS = {}


class Pipe(object):
    """socket and its file"""
    def __init__(self, server):
        self.server, self.w, self.r, self.open = server, b"", io.BytesIO(b"200 welcome\r\n"), True

    def makefile(self, mode="rwb", *a):
        return self

    def write(self, b):
        self.w += b

    def flush(self):
        while b"\r\n" in self.w:
            cmd, _, self.w = self.w.partition(b"\r\n")
            rest = self.r.read()
            a = b"".join(l + b"\r\n" for l in self.server.answer(cmd.decode("utf-8"), self))
            self.r = io.BytesIO(rest + a)

    def readline(self, n=-1):
        return self.r.readline(n)

    def read(self, n=-1):
        return self.r.read(n)

    def shutdown(self, how):
        self.open = False

    def close(self):
        self.open = False

    def settimeout(self, t):
        pass


def connect(self, timeout):
    s = SERVERS.get(self.host)
    if s is None:
        raise HarnessError("connection to %r" % self.host)
    s.log.append("CONNECT")
    if s.down:
        raise socket.error(111, "refused")
    return Pipe(s)


nntplib.NNTP._create_socket = connect


# -- posting --------------------------------------------------------------------------------------------------------
def post(ctx, server, name, data, seg, width=None, opt=None):
    """-> list of (bytes, number, message id) after the articles were put on the server"""
    rng = ctx.rng
    width = width or rng.choice([64, 128, 128, 128, 250])
    parts = [data[i:i + seg] for i in range(0, len(data), seg)] or [b""]
    out = []
    opt = opt or set()
    for i, p in enumerate(parts):
        body = [l[1:] if l.startswith(b"..") else l for l in u01.encode(rng, p, width, set(rng.choice([(), (9, 32)])))]
        lines = []
        if len(parts) > 1 or "ypart" in opt:
            lines.append(b"=ybegin part=%d total=%d line=%d size=%d name=%s" % (i + 1, len(parts), width, len(data), name.encode("utf-8")))
            lines.append(b"=ypart begin=%d end=%d" % (i * seg + 1, i * seg + len(p)))
        else:
            lines.append(b"=ybegin line=%d size=%d name=%s" % (width, len(data), name.encode("utf-8")))
        lines += body
        c = b"%08x" % (zlib.crc32(p) & 0xFFFFFFFF)
        if len(lines) > len(body) + 1:
            lines.append(b"=yend size=%d part=%d pcrc32=%s" % (len(p), i + 1, c))
        else:
            lines.append(b"=yend size=%d crc32=%s" % (len(p), c))
        mid = "%d.%x@x.%d" % (i + 1, rng.getrandbits(60), len(parts))
        server.articles["<%s>" % mid] = lines
        out.append((sum(len(l) + 2 for l in lines), i + 1, mid))
    return out


def nzbfile(ctx, server, name, data, seg, **kw):
    segs = post(ctx, server, name, data, seg, **kw)
    return ("me <a@b.c>", 1300000000, 'x [01/10] - "%s" yEnc (1/%d)' % (name, len(segs)), ("alt.binaries.x",), tuple(segs))


def options(**kw):
    d = dict(output_dir=None, dry_run=False, group=False, crc=False, nostat=False, largeseg=False, nntp_debug_level=0, config_file="",
             fuckup=False, server="", port=119, username="", password="")
    d.update(kw)
    return types.SimpleNamespace(**d)


# -- reading --------------------------------------------------------------------------------------------------------
def reading(ctx):
    rng = ctx.rng
    SERVERS.clear()
    s = SERVERS["one"] = Server()
    tool.options = options()
    tool.EXTRA_SERVERS = [("one", 119, "", "")]
    n = rng.choice([1, 2, 500, 1000, rng.randint(1, 9000)])
    data = rng.randbytes(n) if rng.random() < 0.7 else bytes(rng.choice([4, 4, 4, 214, 1]) for _ in range(n))
    seg = rng.choice([1 if n < 60 else 97, 100, 128, 250, max(1, n // 2), max(1, n - 1), n, n + 5])
    rar = rng.random() < 0.15
    name = "x.rar" if rar else rng.choice(["x.nfo", "some file.sfv", "a.mkv", "t\u00efte.jpg"])
    f = nzbfile(ctx, s, name, data, seg)
    ns = types.SimpleNamespace(subject=f[2], groups=list(f[3]), segments=[types.SimpleNamespace(bytes=a, number=b, message_id=c) for a, b, c in f[4]])
    rng.shuffle(ns.segments)
    ctx.note.update(n=n, seg=seg, name=name)
    log = []
    ctx.note["log"] = log
    conn = tool.NNTP("one")
    nf = tool.NNTPFile(conn, ns)
    nf.group = rng.random() < 0.2
    ref = io.BytesIO(data)
    ctx.equal(nf.name, name, "name of the posted file")
    if rar:
        ops = [("read", -1)]
    else:
        ops = []
        for _ in range(rng.randint(1, 25)):
            ops.append(rng.choice([("read", rng.randint(0, 40)), ("read", rng.randint(0, n)), ("read", -1), ("seek", rng.randint(0, n), 0),
                                   ("seek", rng.randint(-n, n), 1), ("seek", -rng.randint(0, n), 2), ("tell",), ("size",), ("read", seg),
                                   ("seek", seg * rng.randint(0, n // seg), 0), ("lines",)]))
    for op in ops:
        log.append(op)
        if op[0] == "tell":
            ctx.equal(nf.tell(), ref.tell(), "position")
        elif op[0] == "size":
            ctx.equal(ctx.must(nf.file_size), n, "size of the file")
        elif op[0] == "seek":
            p = op[1] + (0, ref.tell(), n)[op[2]]
            o = ctx.call(nf.seek, op[1], op[2])
            if 0 <= p <= n:
                ctx.check(o.exc is None, "seek %r refused: %s" % (op, o.brief()), "seek")
                ctx.equal(o.value, ref.seek(p), "position after seek")
            else:
                ctx.check(isinstance(o.exc, IndexError), "seek to %d of %d: %s" % (p, n, o.brief()), "seek-out")
        elif op[0] == "read":
            k = min(op[1], n - ref.tell())
            o = ctx.call(nf.read, k)
            ctx.check(o.exc is None, "read(%d) at %d of %d failed: %s" % (k, ref.tell(), n, o.brief()), "read-error")
            want = ref.read(k)
            ctx.check(o.value == want, "read(%d) at %d of %d gives %d bytes, other ones than posted" % (
                k, ref.tell() - len(want), n, len(o.value)), "bytes")
            ctx.count("bytes_compared", len(want))
        elif op[0] == "lines":
            ref.seek(0)
            ctx.must(nf.seek, 0)
            ctx.equal(b"".join(ctx.must(nf.readlines)), ref.read(), "all lines")
    ctx.count("bodies", s.log.count("BODY"))
    ctx.klass(len(f[4]), rar, sorted(set(o[0] for o in ops)))


# -- SRRs -----------------------------------------------------------------------------------------------------------
def release(ctx):
    """-> (name, {file: data}, [sfv], [(name, data) stored])"""
    rng = ctx.rng
    rel = {}
    sfvs = []
    stored = []
    vols = []
    for i in range(rng.choice([1, 1, 1, 2])):
        base = rng.choice(["grp-x", "some.movie-grp", "a_b"]) + str(i)
        fs = [rargen.AFile(n, rng.randbytes(rng.choice([0, 10, 900, rng.randint(1, 12000), 30000])), method=rng.choice([0x30, 0x30, 0x30, 0x33]))
              for n in rng.sample(["a.mkv", "dir\\b.avi", "c.txt", "%s.nfo" % base, "z" * 60 + ".bin"], rng.choice([1, 1, 1, 2, 4]))]
        rs = rargen.make_set(rng, base=base, files=fs, plain=rng.random() < 0.5)
        for v in rs.volumes:
            rel[v.name] = v.data
            v.set = i
            vols.append(v)
        n = base + ".sfv"
        rel[n] = autorel.sfvbytes(rng, [(v.name, v.data) for v in rs.volumes])
        sfvs.append(n)
    for i in range(rng.randint(0, 3)):
        n = rng.choice(["x%d.nfo", "cover%d-proof.jpg", "s%d-sample.srs", "front%d.png", "b%d.bmp", "N%d.NFO"]) % i
        rel[n] = rng.randbytes(rng.choice([1, 100, 9000, 3000]))
        stored.append(n)
    if rng.random() < 0.3:
        rel["left.%s" % rng.choice(["par2", "nzb", "txt", "avi"])] = rng.randbytes(500)
    return rel, sorted(sfvs), stored, vols


def from_disk(ctx, rel, infiles, stored):
    d = ctx.mkdir("disk")
    for n, x in rel.items():
        ctx.write("disk/" + n, x)
    out = ctx.path("disk.srr")
    ctx.must(rescene.create_srr, out, [os.path.join(d, n) for n in infiles], d, [os.path.join(d, n) for n in stored], False, True)
    return read(out)


def config(ctx, names):
    rng = ctx.rng
    t = ""
    for i, n in enumerate(names):
        t += ("[server_%s]\npriority = %d\nenabled = True\nhost = %s\nport = 119\nusername = \npassword = \nreadermode = False\n\n" % (n, i + 1, n))
    ctx.write("srr_usenet.cfg", t.encode())
    return ctx.path("srr_usenet.cfg")


def go(ctx, opts, args):
    """runs the tool in a child -> (outcome, log of the servers)"""
    logf = ctx.path("serverlog")

    def main(argv):
        import time
        time.sleep = lambda t: None
        tool.options = opts
        try:
            return tool.main(opts, argv)
        finally:
            with open(logf, "w") as f:
                json.dump(dict((k, v.log) for k, v in SERVERS.items()), f)
    o = srrlib.cli(ctx, main, args, cwd=ctx.mkdir("cwd"))
    with open(logf) as f:
        log = json.load(f)
    os.unlink(logf)
    return o, log


def post_all(ctx, rel, server, kinds=()):
    rng = ctx.rng
    fs = []
    seg = rng.choice([300, 700, 1500, 4000, 40000])
    for n, d in rel.items():
        fs.append(nzbfile(ctx, server, n, d, seg, opt={"ypart"} if rng.random() < 0.5 else None))
    rng.shuffle(fs)
    return fs, seg


def write_nzb(ctx, fs, name="Some.Release-GRP"):
    fs = list(fs)
    data, _ = u03.write(ctx.rng, fs, plain=True)
    ctx.write("nzb/%s.nzb" % name, data)
    return ctx.path("nzb", name + ".nzb")


def places(ctx, name, out):
    """what became of the NZB and the SRR"""
    t = [f for f in files(ctx.path("nzb"))] + (["out/" + f for f in files(ctx.path("out"))] if out else [])
    return sorted(t)


def compare(ctx, got, want, sfvs, vols):
    g, w = srrparse.Srr(got), srrparse.Srr(want)
    gs, wsd = [(n, bytes(d)) for n, d in g.stored], [(n, bytes(d)) for n, d in w.stored]
    ctx.equal(sorted(n for n, _ in gs), sorted(n for n, _ in wsd), "names of the stored files")
    ctx.check(sorted(gs) == sorted(wsd), "stored files differ from the posted ones: %r" % [
        n for n, d in gs if dict(wsd)[n] != d], "stored")
    ctx.equal([n for n, _ in gs if n in sfvs], list(sfvs), "order of the SFV files")
    gv, wv = [bytes_of(v) for v in g.volumes], [bytes_of(v) for v in w.volumes]
    if not sfvs:
        # the sets have the order of the NZB file
        nr = dict((v.name, (v.set, k)) for k, v in enumerate(vols))
        seen = [nr[a[0]] for a in gv]
        ctx.check(all(x < y for x, y in zip(seen, seen[1:]) if x[0] == y[0]) and len(
            [1 for x, y in zip(seen, seen[1:]) if x[0] != y[0]]) < len(set(v.set for v in vols)), "order of the volumes: %r" % [a[0] for a in gv], "order")
        gv.sort(), wv.sort()
    ctx.equal([v[0] for v in gv], [v[0] for v in wv], "volumes")
    for a, b in zip(gv, wv):
        ctx.check(a == b, "the blocks of %s differ (%d and %d bytes)" % (a[0], len(a[1]), len(b[1])), "blocks")
        ctx.count("volumes_compared")


def bytes_of(v):
    return v[0], bytes(v[1]), v[2], bytes(v[3])


def srr(ctx, missing=False):
    rng = ctx.rng
    SERVERS.clear()
    rel, sfvs, stored, vols = release(ctx)
    names = rng.choice([["one"], ["one"], ["one", "two"], ["two", "one", "three"]])
    for n in names:
        SERVERS[n] = Server()
        SERVERS[n].headlines = rng.random() < 0.8
    fs, seg = post_all(ctx, rel, SERVERS["one"])
    for n in names:
        SERVERS[n].articles = dict(SERVERS["one"].articles)
    nosfv = rng.random() < 0.15
    if nosfv:
        fs = [f for f in fs if not any('"%s"' % s in f[2] for s in sfvs)]
    dup = None
    if rng.random() < 0.15:
        # a volume was posted once more, not completely
        v = rng.choice(vols)
        f = nzbfile(ctx, SERVERS["one"], v.name, v.data, rng.choice([seg, max(100, seg // 2), max(100, seg // 4)]))
        if len(f[4]) > 1:
            k = rng.randrange(1, len(f[4]))
            f = f[:4] + ((f[4][:k] if rng.random() < 0.5 else f[4][:k - 1] + f[4][k:] if k > 1 else f[4][:-1]),)
            first = next(x for x in fs if '"%s"' % v.name in x[2])
            # (the larger post is taken: another line length must not make the part the larger one)
            if sum(x[0] for x in f[4]) < sum(x[0] for x in first[4]):
                fs.insert(rng.randint(0, len(fs)), f)
                dup = v.name
    gone = {}
    if missing:
        gone = damage(ctx, fs, names, rel, sfvs)
    nzb = write_nzb(ctx, fs)
    out = rng.random() < 0.3
    opts = options(config_file=config(ctx, names), group=rng.random() < 0.2, crc=rng.random() < 0.3, nostat=rng.random() < 0.3,
                   largeseg=rng.random() < 0.3, output_dir=ctx.mkdir("out") if out else None)
    if rng.random() < 0.2:
        opts.server = names[0]
    ctx.note.update(files=dict((n, len(d)) for n, d in rel.items()), seg=seg, servers=names, opts=vars(opts), gone=gone, dup=dup, nosfv=nosfv)
    o, log = go(ctx, opts, [rng.choice([nzb, os.path.dirname(nzb)])])
    say = ((o["out"] or "")[-1500:] + " | " + (o["err"] or "")[-700:] + " | " + str(o["exc"]))
    where = places(ctx, "Some.Release-GRP", out)
    ctx.note["where"] = where
    made = [w for w in where if w.endswith(".srr")]
    ctx.check(o["exc"] is None or missing and isinstance(o["exit"], int), "the tool failed: " + say, "run")
    ctx.check(len([w for w in where if w.endswith(".nzb")]) == 1, "the NZB file is gone or doubled: %r" % where, "nzb")
    pre = "out/" if out else ""
    lost = set(gone.get("lost", ()))
    if not lost:
        w = "srr_no_sfv/" if nosfv else ""
        ctx.check(made == [pre + w + "Some.Release-GRP.srr"], "no SRR of a complete post: %r: %s" % (where, say[-1500:]), "none")
        ctx.check("success/Some.Release-GRP.nzb" in where, "the NZB file is not moved: %r" % where, "moved")
    if made:
        path = ctx.path("out", made[0][4:]) if out else ctx.path("nzb", made[0])
        data = read(path)
        got = set(n for n, _ in srrparse.Srr(data).stored)
        st = [n for n in stored if n not in lost or n in got]
        noneed = lost & set(sfvs)
        if nosfv or noneed:
            want = from_disk(ctx, rel, sorted(rescene.utility.first_rars([v.name for v in vols])), st + [n for n in sfvs if n in got])
        else:
            want = from_disk(ctx, rel, sfvs, st)
        compare(ctx, data, want, [] if nosfv or noneed else sfvs, vols)
        ctx.count("srr_compared")
    else:
        ctx.count("none_made")
    ctx.count("bodies", sum(l.count("BODY") for l in log.values()))
    ctx.klass(seg, len(names), opts.crc, opts.nostat, opts.largeseg, nosfv, bool(dup), bool(made), sorted(gone))
    ctx.sample(dict(files=len(rel), where=where, gone=gone))


def damage(ctx, fs, names, rel, sfvs):
    """-> {kind: [files]}; 'lost': files of which something can no longer be had"""
    rng = ctx.rng
    out = {}
    spoiled = set()
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        i = rng.randrange(len(fs))
        f = fs[i]
        name = re.search('"(.*)"', f[2]).group(1)
        vol = name not in sfvs and rescene.utility.is_rar(name)
        k = rng.randrange(len(f[4])) if f[4] else None
        kind = rng.choice(["gone", "gone", "some", "some", "cut", "nzb", "crc", "wrong"])
        if k is None:
            continue
        mid = "<%s>" % f[4][k][2]
        if kind == "some":
            if len(names) < 2:
                continue
            for n in rng.sample(names, len(names) - 1):
                SERVERS[n].articles.pop(mid, None)
            out.setdefault("some", []).append(name)
            continue
        if kind in ("crc", "cut") and vol:
            # the tool guesses where the blocks of damaged volumes are
            kind = "gone"
        if kind == "gone":
            for n in names:
                SERVERS[n].articles.pop(mid, None)
        elif kind == "nzb":
            fs[i] = f[:4] + (f[4][:k] + f[4][k + 1:],)
        elif kind == "wrong":
            # an article of something else
            other = fs[rng.randrange(len(fs))]
            if other is f or not other[4] or vol:
                continue
            for n in names:
                x = SERVERS[n].articles.get("<%s>" % other[4][0][2])
                if x is None or mid not in SERVERS[n].articles:
                    continue
                SERVERS[n].articles[mid] = [b"=ybegin part=%d total=99 line=128 size=77 name=other.bin" % rng.choice([1, 98, k + 1]),
                                            b"=ypart begin=1 end=3", b"abc", b"=yend size=3 part=1 pcrc32=00000000"]
        else:
            for n in names:
                x = SERVERS[n].articles.get(mid)
                if x is None:
                    continue
                if kind == "cut":
                    SERVERS[n].articles[mid] = x[:rng.randrange(0, max(1, len(x)))]
                else:
                    x = list(x)
                    j = next((j for j, l in enumerate(x) if not l.startswith((b"=yb", b"=yp", b"=ye"))), None)
                    if j is None:
                        continue
                    x[j] = bytes([x[j][0] + 1 if 70 < x[j][0] < 200 else 100 if x[j][0] != 61 else 61]) + x[j][1:]
                    if zlib.crc32(b"".join(x)) == zlib.crc32(b"".join(SERVERS[n].articles[mid])):
                        x.pop(j)
                    SERVERS[n].articles[mid] = x
        out.setdefault(kind, []).append(name)
        if kind != "nzb":
            spoiled.add(mid)
        else:
            out.setdefault("lost", []).append(name)
    for f in fs:
        for _, _, m in f[4]:
            m = "<%s>" % m
            if m in spoiled or not any(m in SERVERS[n].articles for n in names):
                out.setdefault("lost", []).append(re.search('"(.*)"', f[2]).group(1))
    return out


def missing(ctx):
    srr(ctx, True)


GROUPS = [
    Group("read", reading, 1500, 30000, need={"bytes_compared": 100000, "bodies": 1000}),
    Group("srr", srr, 300, 6000, need={"srr_compared": 100, "volumes_compared": 100}),
    Group("missing", missing, 300, 6000, need={"srr_compared": 30, "none_made": 30}),
]
