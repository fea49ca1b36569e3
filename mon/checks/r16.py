"""R16: volume naming follows the RAR rules."""
import os
from mon.core import Group
from rescene import utility

PROPERTY = "R16"
RULE = ("volume sets of random base names, naming scheme, letter case and volume count (up to every name the "
        "scheme has); class = scheme, case, count bucket, base shape")
ASSUMPTIONS = ["the reference enumeration of volume names in this check (.rar .r00-.z99, .partN with fixed digit "
               "count, .000/.001 up to .999)"]
BASES = ["rel", "grp-name.x264", "a.b.c.2012", "movie.720p", "CD1", "name with space", "x.r00", "the.rar", "1", "-dash",
         "\u00e9t\u00e9", "br[ack]et", "part", "x.part", "a.part1.b", "rel.s01e02", "99", "abc.001x"]


def enumerate_set(scheme, base, n, digits=2, start=1):
    if scheme == "old":
        names = [base + ".rar"]
        for c in "rstuvwxyz":
            names += [base + ".%s%02d" % (c, i) for i in range(100)]
    elif scheme == "new":
        names = [base + ".part%0*d.rar" % (digits, i) for i in range(1, min(2000, 10 ** digits))]
    else:
        names = [base + ".%03d" % i for i in range(start, 1000)]
    return names[:n]


def pick(rng):
    scheme = rng.choice(["old", "old", "new", "new", "num"])
    digits = rng.choice([1, 2, 2, 3, 4, 5])
    start = rng.choice([0, 1, 1])
    n = rng.choice([1, 2, 3, 5, 9, 12, 99, 100, 101, 102, 103, 150, 202, 350, 900, 1000])
    base = rng.choice(BASES)
    if rng.random() < 0.3:
        base += "." + "".join(rng.choice("abcXYZ0123456789.-_ ") for _ in range(rng.randint(1, 12)))
        base = base.rstrip(". ") or "b"
    # the name in front of the extension of an old set may not look like a new one
    if scheme == "old" and base.lower().split(".")[-1].startswith("part"):
        base += "x"
    return scheme, base, n, digits, start


def walk(ctx):
    rng = ctx.rng
    for _ in range(4):
        scheme, base, n, digits, start = pick(rng)
        names = enumerate_set(scheme, base, n, digits, start)
        upper = rng.random() < 0.3
        folder = rng.choice(["", "/a/b/", "C:\\dir\\", "./", "x.rar/", "d.part1.rar/"])
        if upper:
            names = [x.upper() for x in names]
        ctx.note["case"] = dict(scheme=scheme, base=base, n=n, digits=digits, upper=upper, folder=folder)
        cur = names[0]
        is_old = rng.random() < 0.5 and scheme != "new"
        for i, want in enumerate(names):
            ctx.equal(cur.lower() if upper else cur, want.lower() if upper else want, "volume %d of the walk" % i)
            ctx.check(utility.is_rar(folder + want) is True, "is_rar(%r) is not True" % (folder + want))
            if i + 1 < len(names):
                cur = utility.next_archive(folder + want, is_old)
                ctx.check(cur.startswith(folder), "folder changed: %r" % cur)
                cur = cur[len(folder):]
            ctx.count("steps")
        ctx.klass(scheme, digits if scheme == "new" else start, upper, len(names).bit_length(), is_old)
        ctx.sample(ctx.note["case"])


def ambiguous(ctx):
    """an old style set whose base name ends in .partNN"""
    rng = ctx.rng
    base = "rel.part%02d" % rng.randint(1, 98)
    names = enumerate_set("old", base, rng.choice([2, 5, 103]))
    cur = names[0]
    for want in names:
        ctx.equal(cur, want, "walk of an old style set named .partNN")
        cur = utility.next_archive(cur, True)
    # only that set in the folder: it starts at the .rar
    l = list(names)
    rng.shuffle(l)
    ctx.equal(utility.first_rars(iter(l)), [names[0]], "first volume")
    ctx.klass(base[-2:])


NOTRAR = ["a.nfo", "a.sfv", "a.rar.txt", "a.part01.rarx", "rar", "ar00", "a.q00", "a.r0", "a.r000", "a.00", "a.0000",
          "a.cbr", "a.exe", "a.rar.", "a.r0a", "a.mkv", "a.zip", "a.s1", "", "a.12a", "a.rev", "x.mp3", "a.{00"]


def notrar(ctx):
    rng = ctx.rng
    for n in NOTRAR:
        for f in ("", "/x/", "a.rar/", "b.r00\\"):
            name = f + n
            ctx.check(utility.is_rar(name) is False, "is_rar(%r) is not False" % name)
            o = ctx.call(utility.next_archive, name)
            ctx.check(isinstance(o.exc, AttributeError), "next_archive(%r): %s" % (name, o.brief()))
            ctx.klass(f, n)


def firsts(ctx):
    """the first volumes of any mix of complete sets"""
    rng = ctx.rng
    for _ in range(6):
        k = rng.choice([1, 1, 2, 3])
        want, allnames, shape = [], [], []
        bases = rng.sample(["alpha", "beta-x264", "gamma.2012", "delta 1", "eps-cd1", "zeta.720p", "eta2"], k)
        onescheme = rng.choice(["old", "new", None, "num"])
        for b in bases:
            scheme = onescheme or rng.choice(["old", "new"])
            digits = rng.choice([1, 2, 2, 3, 4, 5])
            start = rng.choice([0, 1])
            n = rng.choice([1, 2, 3, 9, 12, 20, 105])
            names = enumerate_set(scheme, b, n, digits, start)
            if scheme == "num" and start == 0 and len(names) < 2:
                pass
            if rng.random() < 0.2 and scheme != "num":
                names = [x.upper() for x in names]
            want.append(names[0])
            allnames += names
            shape.append((scheme, digits if scheme == "new" else start, len(names).bit_length()))
        others = [x for x in ["a.nfo", "x.sfv", "cover.jpg", "sample.avi"] if rng.random() < 0.3]
        l = allnames + others
        rng.shuffle(l)
        if rng.random() < 0.3:
            l = ["/some/dir/" + x for x in l]
            want = ["/some/dir/" + x for x in want]
        ctx.note["case"] = dict(shape=shape, names=l[:10])
        got = utility.first_rars(iter(l))
        ctx.equal(sorted(got), sorted(want), "first volumes of the sets")
        ctx.klass(sorted(map(str, shape)))
    ctx.sample(ctx.note["case"])


def ondisk(ctx):
    """walk a set that is on disk, in any letter case"""
    rng = ctx.rng
    scheme, base, n, digits, start = pick(rng)
    n = min(n, 110)
    base = base.replace("/", "")
    names = enumerate_set(scheme, base, n, digits, start)
    how = rng.choice(["lower", "upper", "ext", "rarext"])
    if how == "upper":
        names = [x.upper() for x in names]
    elif how == "ext":
        names = [os.path.splitext(x)[0] + os.path.splitext(x)[1].upper() for x in names]
    elif how == "rarext" and scheme == "old":
        names[0] = names[0][:-4] + ".RAR"
    d = ctx.mkdir("set")
    for x in names:
        ctx.write("set/" + x, b"")
    cur = os.path.join(d, names[0])
    seen = []
    while os.path.isfile(cur) and len(seen) <= len(names) + 1:
        seen.append(os.path.basename(cur))
        if len(seen) == len(names):
            break
        cur = utility.exact_fn(utility.next_archive(cur, scheme == "old"))
    ctx.note["case"] = (scheme, base, n, how)
    ctx.equal(seen, names, "walk over the files on disk")
    ctx.klass(scheme, how, n.bit_length(), digits)


GROUPS = [Group("walk", walk, 300, 9000, {"steps": 5000}), Group("ambiguous", ambiguous, 40, 600),
          Group("notrar", notrar, 1, 1), Group("firsts", firsts, 300, 9000), Group("ondisk", ondisk, 150, 3000)]
