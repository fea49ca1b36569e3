"""A04: every release below a folder is found, once."""
import os
from mon import autorel
from mon.checks import a01
from mon.checks.a01 import judge, run, say
from mon.checks.a03 import small, snapshot
from mon.core import Group, tree

PROPERTY = "A04"
RULE = ("(list) folder trees are built from releases of each kind that is recognised (nfo or SFV in the root, SFVs in disc folders, "
        "old music releases with named folders, music with one nfo next to such folders), season packs, categories, folders that "
        "only look like a release and names that start with each other, nested a few levels deep; the tool lists all, those "
        "without nfo and those without sample. The list must be the one known by construction, in alphabetical order, and "
        "nothing on disk changes. (make) SRRs are made of the releases in such a tree and each one judged. (refuse) runs that "
        "cannot start tell so and leave nothing. Non-trivial: a tree with at least two releases was judged.")
ASSUMPTIONS = ["release folders have no spaces in their name, categories do not have the name of a disc or sample folder",
               "symbolic links and empty folders in a release of one nfo file are not generated"]
EXT = [".avi", ".mkv", ".mp4", ".wmv", ".vob", ".m2ts", ".AVI", ".Mkv"]
NOT_SCENE = ["motechnetfiles.nfo", "movie.nfo", "scc.nfo", "imdb.nfo", "tvmaze.nfo"]
TITLES = ["Show.S01E%02d", "Show.S01", "Some.Movie.2009", "Artist-Title-CD-2004", "VA-Mix", "a-b", "Nam\u00e9.2004", "X"]
GRPS = ["GRP", "GRP2", "GRPx", "iNT", "GRP.READ.NFO"]
CATS = ["tv", "Movies", "x264 stuff", "in-coming", "TV-XviD", "a.b", "Show.S01", "0day_x"]


class Node(object):
    def __init__(self):
        self.files = {}      # relative path -> data
        self.kids = {}       # name -> Node
        self.release = False
        self.nfo = self.sample = False


def distinct(ctx, pick, used):
    while True:
        n = pick()
        if n.lower() not in used:
            used.add(n.lower())
            return n


def relname(ctx, used):
    rng = ctx.rng

    def pick():
        if used and rng.random() < 0.4:
            # extends or shortens the name of a sibling
            b = rng.choice(sorted(used))
            r = b + rng.choice(["2", "x", ".pack-A", "-GRP", "_b"])
        else:
            t = rng.choice(TITLES)
            r = (t % rng.randint(1, 12) if "%" in t else t) + "-" + rng.choice(GRPS)
        return r if "-" in r and " " not in r else "A-" + r.replace(" ", ".")
    return distinct(ctx, pick, used)


def case(rng, s):
    return rng.choice([s, s, s.upper(), s.title()])


def sub(rng, node, name, what):
    """a subfolder of a release"""
    for n, d in what:
        node.files[name + "/" + n] = d


def release(ctx, kind=None):
    """-> Node of a release"""
    rng = ctx.rng
    n = Node()
    n.release = True
    kind = kind or rng.choice(["root", "root", "root", "discs", "old", "musicnfo", "nopack"])
    n.kind = kind
    extra = rng.random() < 0.5
    if kind == "root":
        what = rng.choice(["nfo", "sfv", "both", "both"])
        if what != "sfv":
            n.files["r" + case(rng, ".nfo")] = b"n"
            n.nfo = True
        if what != "nfo":
            n.files["r" + case(rng, ".sfv")] = b"s"
        if rng.random() < 0.5:
            n.files["r.rar"] = b"r"
            n.files["r.r00"] = b"r"
        else:
            n.files["file.txt"] = b""
        # not an nfo file alone
        for d in rng.sample(["Proof", "CD1", "Subs", "Covers", "extras", "A-Release-GRP", "Sub folder"], rng.randint(0, 3)):
            sub(rng, n, d, [(rng.choice(["x.nfo", "x.sfv", "x.rar", "y/z.sfv"]), b"x")])
    elif kind == "discs":
        k = rng.randint(1, 4)
        fmt = rng.choice(["CD%d", "DISC%d", "Disk_%d", "dvd.0%d", "Disc%d.Leon", "PART%d", "CD%d-Dj_Foo", "cd_%d_-x"[:5]])
        sfv = rng.randrange(k)
        for i in range(k):
            what = [("a.rar", b"a")]
            if i == sfv or rng.random() < 0.5:
                what.append(("a" + case(rng, ".sfv"), b"s"))
            sub(rng, n, fmt % (i + 1), what)
        if rng.random() < 0.4:
            sub(rng, n, "Other-Stuff", [("x.sfv", b"")])
        if rng.random() < 0.4:
            n.files[rng.choice(NOT_SCENE)] = b"x"
            n.nfo = True
    elif kind in ("old", "musicnfo"):
        k = rng.choice([2, 2, 3, 10])
        fmt = rng.choice(["Left%d", "The_Title_%d", "cd_-_%d-A-Title", "%d"] if kind == "old" else ["Left%d", "The_Title_%d", "%d"])
        for i in range(k):
            sub(rng, n, fmt % (i + 1), [("01.mp3", b"m"), ("0" + case(rng, ".sfv"), b"s")] + ([("0.nfo", b"n")] if rng.random() < 0.3 else []))
        if kind == "musicnfo":
            n.files["00-x" + case(rng, ".nfo")] = b"n"
            n.nfo = True
        elif extra:
            n.files["cover.jpg"] = b"j"
        extra = False
    elif kind == "nopack":
        # one nfo file and folders, of which at least one is no release
        n.files["x" + case(rng, ".nfo")] = b"n"
        n.nfo = True
        sub(rng, n, rng.choice(["CD1", "stuff", "Subs", "dir-x"]), [("a.rar", b"x")])
        if rng.random() < 0.5:
            sub(rng, n, "A-Release-GRP", [("x.nfo", b"n"), ("x.sfv", b"s")])
    # a sample folder
    if extra and (kind != "discs" or rng.random() < 0.5):
        d = rng.choice(["Sample", "sample", "SAMPLE"])
        if rng.random() < 0.7:
            n.files[d + "/s-sample" + rng.choice(EXT)] = b"v"
            n.sample = True
        else:
            n.files[d + "/s-sample.avi.txt"] = b"t"
        if rng.random() < 0.3:
            n.files[d + "/s.nfo"] = b"t"
    return n


def category(ctx, depth, top=False):
    rng = ctx.rng
    n = Node()
    used = set()
    for _ in range(rng.choice([1, 2, 3, 5, 7] if top else [0, 1, 2, 3])):
        r = rng.random()
        if r < 0.6 or depth == 0:
            n.kids[relname(ctx, used)] = release(ctx)
        elif r < 0.72:
            n.kids[relname(ctx, used)] = pack(ctx)
        else:
            n.kids[distinct(ctx, lambda: rng.choice(CATS) + rng.choice(["", "", "", " 2", "-b", "Z"]), used)] = category(ctx, depth - 1)
    # things that are not a release
    r = rng.random()
    if r < 0.25:
        n.files[rng.choice(NOT_SCENE)] = b"x"
    if r < 0.4:
        n.files[rng.choice(["file.txt", "x.rar", "nfo", "x.nfo.txt", "sfv.jpg"])] = b"x"
    if rng.random() < 0.3:
        d = Node()
        d.files = {rng.choice(["a.nfo", "a.sfv"]): b"x"}
        n.kids[distinct(ctx, lambda: rng.choice(["Sample", "Proof", "Subs", "Covers", "vobsubs", "subpack", "A Release-GRP", "x x-y"]), used)] = d
    if rng.random() < 0.2:
        d = Node()
        d.files = {"a.nfo": b"x"}
        n.kids[distinct(ctx, lambda: rng.choice(["CD1", "DVD2", "disc_3"]), used)] = d
    if rng.random() < 0.1:
        # too many folders for one old music release: each one counts
        for i in range(11):
            d = Node()
            d.release = True
            d.kind = "eleven"
            d.files = {"0.sfv": b"s", "1.mp3": b"m"}
            n.kids[distinct(ctx, lambda: "Folder_%d" % rng.randrange(10 ** 6), used)] = d
    if not n.kids:
        n.files["readme.txt"] = b"x"
    return n


def pack(ctx):
    """a season: one nfo file and releases"""
    rng = ctx.rng
    n = Node()
    n.files[rng.choice(["site.nfo", "season.NFO", "imdb.nfo"])] = b"x"
    used = set()
    for _ in range(rng.randint(1, 4)):
        n.kids[relname(ctx, used)] = release(ctx, rng.choice(["root", "root", "discs"]))
    return n


def put(node, root):
    os.makedirs(root, exist_ok=True)
    for p, d in node.files.items():
        q = os.path.join(root, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f:
            f.write(d)
    for k, v in node.kids.items():
        put(v, os.path.join(root, k))


def found(node, path):
    """[(path, node)] in the order they are come across"""
    if node.release:
        return [(path, node)]
    out = []
    for k in sorted(node.kids):
        out += found(node.kids[k], os.path.join(path, k))
    return out


def listing(ctx):
    rng = ctx.rng
    a01.prepare(ctx)
    indirs, want = [], []
    single = rng.random() < 0.1
    for i in range(rng.choice([1, 1, 2])):
        name = rng.choice(["in", "down loads", "Rel-GRP"]) + str(i)
        if single:
            n = release(ctx)
            name = "Some.Release-GRP%d" % i
        else:
            n = category(ctx, 3, True)
        put(n, ctx.path(name))
        want += [(p, x) for p, x in found(n, ctx.path(name))]
        r = rng.random()
        indirs.append(ctx.path(name) if r < 0.4 else ctx.path(name) + "/" if r < 0.6 else name if r < 0.8 else "./" + name)
    what = rng.choice([["list"], ["list"], ["list"], ["nfos"], ["samples"], ["nfos", "samples"], ["list", "nfos", "samples"]])
    argv = ["--" + {"list": "list-releases", "nfos": "missing-nfos", "samples": "missing-samples"}[w] for w in what]
    show = rng.random() < 0.6
    if show:
        argv.append("--show-paths")
    before = tree(ctx.dir)
    o = run(ctx, argv + indirs, cwd=ctx.dir)
    ctx.check(o["exc"] is None and not o["rc"], "listing failed: " + say(o), "list-run")
    expect = []
    for p, n in want:
        for w in ("list", "nfos", "samples"):
            if w in what and (w == "list" or not (n.nfo if w == "nfos" else n.sample)):
                expect.append(p if show else os.path.basename(p))
    got = [g for g in o["out"].splitlines() if g]
    ctx.note.update(tree=sorted(before)[:200], want=expect, got=got)
    more = [g for g in got if g not in expect]
    less = [g for g in expect if g not in got]
    ctx.check(not less, "not found (%s): %r (listed: %r)" % (", ".join(what), less, got), "less")
    ctx.check(not more, "listed, but no release that belongs on the list (%s): %r" % (", ".join(what), more), "more")
    ctx.equal(got, expect, "the releases listed, in order")
    ctx.check(tree(ctx.dir) == before, "listing changed something on disk", "disk")
    ctx.count("listed", len(got))
    ctx.count("releases", len(want))
    for _, n in want:
        ctx.klass(n.kind, n.nfo, n.sample)
    ctx.sample(dict(argv=argv, found=expect[:8]))
    if len(want) < 2:
        ctx.count("few")


def make(ctx):
    rng = ctx.rng
    a01.prepare(ctx)
    out = ctx.mkdir("out")
    rels = {}
    used = set()
    parents = ["in", "in/tv", "in/tv/x y", "in/Show-GRP", "in/Show-GRP.pack", "in/z"]
    for i in range(rng.randint(2, 4)):
        while True:
            rel = small(rng)
            if any(p.lower().endswith((".sfv", ".nfo")) and "/" not in p for p in rel.files) and len(
                    [p for p in rel.files if "/" not in p]) > 1:
                break
        where = rng.choice(parents)
        rel.name = distinct(ctx, lambda: rng.choice(["Show-GRP", "Show-GRP2", "Show-GRP%d" % i, "Other.S01-X%d" % i]), used)
        p = where + "/" + rel.name
        # not within or above another one
        if any((q + "/").startswith(p + "/") or (p + "/").startswith(q + "/") for q in rels):
            continue
        rels[p] = rel
    for p, rel in rels.items():
        rel.write(ctx.path(p))
    ctx.write("in/readme.txt", b"no release")
    ctx.write("in/Proof/a.nfo", b"no release")
    comp = any(r.compressed for r in rels.values())
    reldir = rng.random() < 0.3
    argv = ["-r", rng.choice([ctx.path("in"), "in", "in/"]), "-y"] + (["-c"] if comp else [])
    argv += [rng.choice(["-d", "--srr-in-reldir"])] if reldir else []
    argv += ["-o", out]
    before = snapshot(ctx)
    o = run(ctx, argv, cwd=ctx.dir)
    ctx.note.update(rels=sorted(rels), argv=argv)
    ctx.check(o["exc"] is None and not o["rc"], "the run failed: " + say(o), "run")
    after = snapshot(ctx)
    want = {}
    for p, rel in rels.items():
        want[os.path.join(p if reldir else "out", rel.name + ".srr")] = rel
    gone = [k for k in before if after.get(k) != before[k]]
    ctx.check(not gone, "something was changed: %r" % gone, "changed")
    new = set(after) - set(before)
    ctx.check(new == set(want), "SRR files made: %r, wanted: %r" % (sorted(new), sorted(want)), "made")
    for n, rel in want.items():
        judge(ctx, rel, ctx.path(n), {"c"} if comp else set(), deep=False)
        ctx.count("made")
    ctx.check(not os.listdir(ctx.path("tmp")), "temporary files are left", "temp")
    ctx.klass(reldir, len(rels))


def refused(ctx):
    rng = ctx.rng
    a01.prepare(ctx)
    rel = small(rng)
    rel.write(ctx.path("in", rel.name))
    out = ctx.mkdir("out")
    kind = rng.choice(["regex", "skipfile", "yesno", "tmp", "nothing", "vobsubs"])
    argv = [ctx.path("in", rel.name), "-o", out]
    if kind == "regex":
        argv += ["--skip-regex", rng.choice(["*", "(", "[a", "x**"])]
    elif kind == "skipfile":
        argv += ["--skip-list", ctx.path("nothing.txt")]
    elif kind == "yesno":
        argv += ["-y", "-n"]
    elif kind == "tmp":
        argv += ["--temp-dir", ctx.path("no", "such")]
    elif kind == "nothing":
        argv = []
    elif kind == "vobsubs":
        if a01.UNRAR:
            return
        argv += ["--vobsubs", ctx.path("in", rel.name, "x.sfv")]
    before = tree(ctx.dir)
    o = run(ctx, argv, cwd=ctx.dir)
    ctx.check(o["exc"] is None, "%s: %s" % (kind, say(o)), "refused-run")
    ctx.check(bool(o["rc"]) or kind == "nothing", "%s: exit code 0: %s" % (kind, say(o)), "refused-exit")
    ctx.check(bool(o["out"].strip() or o["err"].strip()), "nothing was told", "told")
    after = tree(ctx.dir)
    ctx.check(after == before, "%s: something is left or changed: %r" % (
        kind, sorted(set(after) ^ set(before)) or "contents"), "refused-disk")
    ctx.count("refused")
    ctx.klass(kind)


GROUPS = [
    Group("list", listing, 1500, 25000, need={"listed": 1000, "releases": 1000}),
    Group("make", make, 60, 1500, need={"made": 30}),
    Group("refuse", refused, 60, 600, need={"refused": 20}),
]
