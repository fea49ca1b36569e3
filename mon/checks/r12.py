"""R12: reading through a RAR stream equals reading the archived file."""
import io, os
from mon import rargen
from mon.core import Group, short
from rescene.rarstream import RarStream

PROPERTY = "R12"
RULE = ("random RAR sets on disk; random member; a random history of seek/tell/read/readline/iteration is run on the "
        "stream and on the archived bytes; class = naming scheme, volumes the member spans, operation kinds, "
        "boundary reads")
ASSUMPTIONS = ["the RAR writer of the harness", "io.BytesIO as reference for the file operations"]


def the_set(ctx, **kw):
    rng = ctx.rng
    kw.setdefault("nvol_hint", rng.choice([1, 1, 2, 3, 4, 7, 12, 30]))
    files = kw.pop("files", None)
    if files is None:
        files = rargen.pick_files(rng, size=lambda g: g.choice([0, 1, 2, 100, 511, 3000, 20000, g.randint(1, 70000)]))
        for f in files:
            if rng.random() < 0.4 and f.data and not f.directory:      # lines
                n = len(f.data)
                f.data = b"".join(bytes([rng.randrange(97, 123)]) * rng.randint(0, 60) + b"\n"
                                  for _ in range(n // 30 + 2))[:n]
                f.__init__(f.name, f.data, f.uni)
        if not any(not f.directory for f in files):
            files.append(rargen.AFile("only.bin", rng.randbytes(700)))
    s = rargen.make_set(rng, base=rng.choice(["rel", "a.x264", "name sp", "r.part"]), files=files, **kw)
    d = ctx.mkdir("set")
    s.write(d)
    # something else in the folder
    for x in ("rel.nfo", "other.rar", "other.r00"):
        if rng.random() < 0.3:
            ctx.write("set/" + x, rng.randbytes(50))
    return s, d


def spans(s, f):
    return [(v, off, n) for v in s.volumes for (g, off, n) in v.files if g is f]


def history(ctx, st, data, bounds, nops):
    rng = ctx.rng
    ref = io.BytesIO(data)
    n = len(data)
    pts = [0, n, n - 1, n + 1, n // 2] + bounds + [b - 1 for b in bounds] + [b + 1 for b in bounds]
    trace = []
    for _ in range(nops):
        op = rng.choice(["read", "read", "read", "seek", "seek", "seek", "tell", "line", "all", "len", "lines", "zero"])
        if op == "seek":
            wh = rng.choice([0, 0, 1, 2])
            tgt = rng.choice(pts) if rng.random() < 0.7 else rng.randint(-3, n + 5)
            off = tgt - (0, ref.tell(), n)[wh]
            if rng.random() < 0.05:
                off = rng.choice([n + 100000, 1 << 40])
            trace.append(("seek", off, wh))
            base = (0, ref.tell(), n)[wh]
            o = ctx.call(st.seek, off, wh) if wh or rng.random() < 0.5 else ctx.call(st.seek, off)
            if base + off < 0:
                ctx.check(o.exc is not None, "seek before the start: %s" % o.brief())
                ctx.count("negative_seeks")
            else:
                ref.seek(base + off)
                ctx.check(o.ok and o.value == base + off, "seek(%d, %d) gave %s" % (off, wh, o.brief()))
        elif op in ("read", "zero"):
            k = 0 if op == "zero" else rng.choice([1, 2, 7, 20, 512, 4096, 65536, n, n + 1, rng.randint(0, n + 10)] +
                                                  [abs(b - ref.tell()) for b in bounds])
            trace.append(("read", k))
            p = ref.tell()
            want = ref.read(k)
            if any(p < b < p + len(want) for b in bounds):
                ctx.count("reads_across_volumes")
            ctx.equal(ctx.must(st.read, k), want, "read(%d) at %d of %d" % (k, p, n))
        elif op == "all":
            neg = rng.random() < 0.5
            trace.append(("readall", neg))
            ctx.equal(ctx.must(st.read, -1) if neg else ctx.must(st.read), ref.read(), "read to the end")
        elif op == "line":
            trace.append(("readline",))
            if rng.random() < 0.3:
                k = rng.choice([0, 1, 5, 100])
                ctx.equal(ctx.must(st.readline, k), ref.readline(k), "readline(%d)" % k)
            else:
                if n - ref.tell() > 20000:       # one byte at a time: costly for binary data
                    k = 2000
                    ctx.equal(ctx.must(st.readline, k), ref.readline(k), "readline(%d)" % k)
                else:
                    ctx.equal(ctx.must(st.readline), ref.readline(), "readline")
        elif op == "lines":
            if n - ref.tell() < 3000:
                trace.append(("readlines",))
                ctx.equal(ctx.must(st.readlines), ref.readlines(), "readlines")
        elif op == "len":
            ctx.equal(ctx.must(st.length), n, "length")
        ctx.equal(ctx.must(st.tell), ref.tell(), "tell after %s" % (trace[-1:],))
        ctx.note["trace"] = trace[-12:]
        ctx.count("operations")
    return trace


def streams(ctx):
    rng = ctx.rng
    s, d = the_set(ctx)
    ctx.note["set"] = s.describe()
    members = [f for f in s.files if not f.directory]
    f = rng.choice(members)
    name = f.name.replace("/", rng.choice(["/", "\\"]))
    st = ctx.must(RarStream, os.path.join(d, s.volumes[0].name), name)
    sp = spans(s, f)
    bounds = [off for _, off, n in sp if off]
    tr = history(ctx, st, f.data, bounds, 40)
    ctx.check(st.readable() and st.seekable() and not st.closed, "open stream is not readable")
    ctx.must(st.close)
    ctx.must(st.close)
    ctx.check(st.closed and not st.readable() and not st.seekable(), "closed stream says it is open")
    ctx.klass(s.opt["new"], len(sp), len(f.data).bit_length(), s.opt["rr"], s.opt["end"])
    ctx.sample(dict(set=s.describe(), member=name, history=tr[:8]))


def members(ctx):
    """every member whole, two streams side by side"""
    rng = ctx.rng
    up = rng.random() < 0.3
    kw = {}
    if rng.random() < 0.15:
        kw = dict(new=False, files=[rargen.AFile("big.avi", rng.randbytes(45000)), rargen.AFile("tail.bin", b"tail" * 50)],
                  volsize=300, rr=None, plain=True)        # past .r99
    s, d = the_set(ctx, upper=up, **kw)
    ctx.note["set"] = s.describe()
    first = os.path.join(d, s.volumes[0].name)
    todo = [f for f in s.files]
    opened = []
    for f in todo:
        st = ctx.must(RarStream, first, f.name)
        opened.append((st, f))
        ctx.equal(ctx.must(st.length), len(f.data), "length of %s" % f.name)
    rng.shuffle(opened)
    for st, f in opened:
        k = rng.choice([None, 1000, 65536])
        if k is None:
            got = ctx.must(st.read)
        else:
            got = b""
            while True:
                b = ctx.must(st.read, k)
                if not b:
                    break
                got += b
        ctx.check(got == f.data, "content of %s differs (%d bytes, %d expected)" % (f.name, len(got), len(f.data)))
        ctx.count("members")
    # without a name: the first one
    st = ctx.must(RarStream, first)
    ctx.check(ctx.must(st.read) == s.files[0].data, "stream without name is not the first file %r" % s.files[0].name)
    ctx.equal(st.packed_file_name, s.files[0].name.replace("/", "\\"), "name of the first file")
    # as a context
    with RarStream(first, todo[-1].name) as x:
        ctx.check(x.read() == todo[-1].data, "content of the last member in a with statement")
    ctx.check(x.closed, "not closed after the with statement")
    ctx.klass(s.opt["new"], up, len(s.volumes).bit_length(), len(todo), s.opt["rr"])
    ctx.sample(s.describe())


def middle(ctx):
    """a later volume: refused, or with middle=True the rest from there"""
    rng = ctx.rng
    s, d = the_set(ctx, nvol_hint=rng.choice([3, 5, 8]),
                   files=[rargen.AFile("a.avi", rng.randbytes(rng.randint(3000, 40000))),
                          rargen.AFile("b.mkv", rng.randbytes(rng.randint(1, 20000)))])
    ctx.note["set"] = s.describe()
    for i, v in enumerate(s.volumes):
        if not v.files:
            continue
        p = os.path.join(d, v.name)
        f, off, n = v.files[0]
        o = ctx.call(RarStream, p, f.name)
        if off > 0:
            ctx.check(isinstance(o.exc, AttributeError), "later volume %s accepted as the first: %s" % (v.name, o.brief()))
            ctx.count("refused")
        for f, off, n in v.files:
            st = ctx.must(RarStream, p, f.name, middle=True)
            ctx.check(ctx.must(st.read) == f.data[off:], "%s from volume %d on" % (f.name, i))
            ctx.count("middle")
    ctx.klass(s.opt["new"], len(s.volumes).bit_length())


def refused(ctx):
    rng = ctx.rng
    s, d = the_set(ctx, nvol_hint=rng.choice([1, 2, 4]))
    ctx.note["set"] = s.describe()
    first = os.path.join(d, s.volumes[0].name)
    names = ["nothere.avi", "", "sub\\nothere", "*"]
    f = rng.choice(s.files)
    names += [f.name + "x", f.name[:-1], "x/" + f.name, f.name.upper() if f.name.upper() != f.name else "q"]
    have = set(x.name.replace("/", "\\") for x in s.files)
    for nm in names:
        if nm == "" or nm.replace("/", "\\") in have:
            continue
        o = ctx.call(RarStream, first, nm)
        ctx.check(isinstance(o.exc, AttributeError), "member %r that is not there: %s" % (nm, o.brief()))
        ctx.count("missing")
    o = ctx.call(RarStream, os.path.join(d, "nothere.rar"), f.name)
    ctx.check(o.exc is not None, "missing archive opened")
    # compressed
    c = rargen.make_set(rng, base="comp", files=[rargen.AFile("c.avi", rng.randbytes(5000), method=rng.choice([0x31, 0x33, 0x35]))])
    c.write(ctx.mkdir("comp"))
    o = ctx.call(RarStream, ctx.path("comp", c.volumes[0].name), "c.avi")
    ctx.check(isinstance(o.exc, AttributeError), "compressed member read as if stored: %s" % o.brief())
    o = ctx.call(RarStream, ctx.path("comp", c.volumes[0].name))
    ctx.check(isinstance(o.exc, AttributeError), "compressed member read as if stored: %s" % o.brief())
    st = ctx.must(RarStream, ctx.path("comp", c.volumes[0].name), "c.avi", compressed=True)
    ctx.check(ctx.must(st.read) == c.files[0].data, "packed bytes of a compressed member")
    # nothing in it
    e = rargen.make_set(rng, base="empty", files=[rargen.AFile("d", b"", directory=True)], nvol_hint=1, plain=True)
    v = e.volumes[0]
    data = v.data[:20]
    p = ctx.write("empty.rar", data)
    o = ctx.call(RarStream, p)
    ctx.check(isinstance(o.exc, AttributeError), "archive without files: %s" % o.brief())
    ctx.klass(s.opt["new"], len(s.volumes), len(names))


GROUPS = [Group("streams", streams, 500, 12000, {"operations": 5000, "reads_across_volumes": 50, "negative_seeks": 50}),
          Group("members", members, 250, 5000, {"members": 200}),
          Group("middle", middle, 80, 1500, {"middle": 100, "refused": 50}),
          Group("refused", refused, 80, 1500, {"missing": 100})]
