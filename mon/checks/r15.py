"""R15: SFV parsing keeps every entry, and volumes come in set order."""
import io, os, zlib
from mon.core import Group
from mon.checks.r16 import enumerate_set
import rescene.utility as utility
import rescene.main as rmain

PROPERTY = "R15"
RULE = ("SFV texts made of entry, comment, blank and broken lines with every line end, spacing, letter case and "
        "CRC length; class = line kinds and line end; sets shuffled; class = naming scheme, count, other files")
ASSUMPTIONS = ["names do not begin or end with white space or quotes, hold no tab or line end, and are latin-1"]
CH = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_.()[]!#$%&'+,=@^`{}~\u00e9\u00fc\u00d8\u00b5"


def name(rng):
    n = "".join(rng.choice(CH) for _ in range(rng.choice([1, 2, 5, 12, 40])))
    if n[0] == ";":
        n = "x" + n
    n += rng.choice([".rar", ".r00", ".mp3", ".001", "", ".part01.rar", " x.mkv", " two  spaces.bin"])
    if rng.random() < 0.15:
        n = rng.choice(["CD1\\", "CD1/", "Disc 2/"]) + n
    if rng.random() < 0.1:
        n += " ;x.rar"
    if rng.random() < 0.05:
        n += " DEADBEEF"      # looks like a checksum
    return n


def crc(rng):
    n = rng.choice([8, 8, 8, 8, 7, 1, 4])
    s = "".join(rng.choice("0123456789abcdef") for _ in range(n))
    k = rng.random()
    return s.upper() if k < 0.4 else s if k < 0.8 else "".join(rng.choice((c, c.upper())) for c in s)


def make_lines(rng, n):
    """[(text, kind, expected)]"""
    out = []
    for _ in range(n):
        k = rng.choice(["entry"] * 6 + ["comment", "comment", "blank", "nocrc", "badcrc", "longcrc"])
        if k == "entry":
            a, c = name(rng), crc(rng)
            gap = rng.choice([" ", " ", "  ", "\t", " \t ", "          "])
            t = rng.choice(["", "", "  ", "\t"]) + a + gap + c + rng.choice(["", "", " ", "\t ", "   "])
            out.append((t, "entry", (a, c.rjust(8, "0"))))
        elif k == "comment":
            t = rng.choice(["", "", " ", "\t"]) + ";" + rng.choice(
                ["", " made by x", " file.rar 12345678", "\u00e9\u00e9", ";;", " 100  2012-01-01 a.r00"])
            out.append((t, "comment", t))
        elif k == "blank":
            out.append((rng.choice(["", " ", "\t", "  \t"]), "blank", None))
        elif k == "nocrc":
            t = "".join(rng.choice("abcdefgh.-_") for _ in range(8)) + ".rar"
            out.append((t, "error", t))
        elif k == "badcrc":
            t = "file.rar " + rng.choice(["0000000g", "xyz", "1234-678", "0x123456", "12345678;", "........", "+1234567"])
            out.append((t, "error", t))
        else:
            t = "file.rar " + rng.choice(["123456789", "0000000000", "abcdefabcdef"])
            out.append((t, "error", t))
    return out


def parse(ctx):
    rng = ctx.rng
    lines = make_lines(rng, rng.choice([0, 1, 2, 5, 20, 60]))
    nl = rng.choice(["\r\n", "\n", "\r", "\r\r", "mixed", "\r\r\n"])
    data = b""
    for i, (t, _, _) in enumerate(lines):
        e = rng.choice(["\r\n", "\n", "\r"]) if nl == "mixed" else nl
        if i == len(lines) - 1 and rng.random() < 0.4:
            e = ""
        data += (t + e).encode("latin-1")
    ctx.note["data"] = data[:1500]
    how = rng.choice(["data", "file", "stream"])
    if how == "data":
        res = ctx.must(utility.parse_sfv_data, data)
    elif how == "file":
        res = ctx.must(utility.parse_sfv_file, ctx.write("x.sfv", data))
    else:
        s = io.BytesIO(data)
        s.seek(rng.randint(0, len(data)))
        res = ctx.must(utility.parse_sfv_file, s)
    ents, comments, errors = res
    want = [x for _, k, x in lines if k == "entry"]
    ctx.equal([(e.file_name, e.crc32) for e in ents], want, "entries")
    ctx.equal([c.rstrip("\r\n") for c in comments], [x for _, k, x in lines if k == "comment"], "comments")
    ctx.equal(errors, [x for _, k, x in lines if k == "error"], "error lines")
    # writing the entries and reading them again
    if want:
        again = "\r\n".join(repr(e) for e in ents).encode("latin-1")
        e2, c2, r2 = ctx.must(utility.parse_sfv_data, again)
        ctx.equal([(e.file_name, e.crc32) for e in e2], want, "entries written and read again")
        ctx.check(e2 == ents and not c2 and not r2, "entries written and read again are not equal")
    # other line ends, the same result
    for t in (b"\r\n", b"\n", b"\r"):
        norm = t.join(x[0].encode("latin-1") for x in lines)
        e3 = ctx.must(utility.parse_sfv_data, norm)[0]
        ctx.check([(e.file_name, e.crc32) for e in e3] == want, "line end %r changes the entries" % t)
    ctx.count("entries", len(want))
    ctx.klass(nl, how, sorted(set(k for _, k, _ in lines)), len(want).bit_length())
    ctx.sample(dict(lines=[l[0] for l in lines[:4]], nl=nl))


def order(ctx):
    rng = ctx.rng
    scheme = rng.choice(["old", "old", "new", "num"])
    digits = rng.choice([1, 2, 3])
    n = rng.choice([1, 2, 3, 9, 20, 101, 102, 105, 250])
    base = rng.choice(["rel", "grp-name.x264", "a.b.2012", "name with space", "1", "REL", "rel.s01", "x-\u00e9"])
    names = enumerate_set(scheme, base, n, digits, rng.choice([0, 1]))
    if rng.random() < 0.25:
        names = [x.upper() for x in names]
    elif scheme == "old" and rng.random() < 0.2:
        names[1:] = [x[:-3] + x[-3:].upper() for x in names[1:]]
    elif scheme == "old" and rng.random() < 0.25:
        # the name of the first volume spelled in another case
        names[0] = rng.choice([names[0].upper(), names[0].swapcase(), names[0].lower(), names[0].capitalize()])
    crcs = dict((x, "%08x" % rng.getrandbits(32)) for x in names)
    l = list(names)
    how = rng.choice(["shuffle", "reverse", "sorted", "ordered"])
    if how == "shuffle":
        rng.shuffle(l)
    elif how == "reverse":
        l.reverse()
    elif how == "sorted":
        l.sort()
    ents = [utility.SfvEntry(x, crcs[x]) for x in l]
    ctx.note["case"] = (scheme, base, n, how, l[:5])
    ctx.equal([e.file_name for e in sorted(ents)], names, "volumes in set order")
    dup = ents + [utility.SfvEntry(x, crcs[x].upper()) for x in rng.sample(l, rng.randint(0, len(l)))]
    rng.shuffle(dup)
    ctx.equal([(e.file_name, e.crc32.lower()) for e in utility.filter_sfv_duplicates(dup)],
              [(x, crcs[x]) for x in names], "volumes in set order, each once")
    # as used for creation: other files of the SFV are left out
    other = [x for x in ["cover.jpg", "a.nfo", "zz.mkv"] if rng.random() < 0.4]
    data = "".join("%s %s\r\n" % (x, crcs.get(x, "12345678")) for x in
                   sorted(l + other, key=lambda x: rng.random())).encode("latin-1")
    p = ctx.write("rel/set.sfv", data)
    got = list(rmain._handle_sfv(p))
    ctx.equal([os.path.relpath(x, ctx.path("rel")) for x in got], names, "volumes for SRR creation")
    ctx.klass(scheme, n.bit_length(), how, digits if scheme == "new" else "", bool(other), names[0].isupper())
    ctx.sample(ctx.note["case"])


def several(ctx):
    """several sets in one SFV: each in order, no entry lost"""
    rng = ctx.rng
    sets = []
    for i, b in enumerate(rng.sample(["alpha", "beta-x", "gamma.2012", "alpha-cd2", "al"], rng.choice([2, 3]))):
        sets.append(enumerate_set(rng.choice(["old", "new"]), b, rng.choice([1, 2, 5, 30]), rng.choice([1, 2])))
    l = [x for s in sets for x in s]
    rng.shuffle(l)
    out = [e.file_name for e in sorted(utility.SfvEntry(x, "1") for x in l)]
    ctx.equal(sorted(out), sorted(l), "entries kept")
    for s in sets:
        pos = [out.index(x) for x in s]
        ctx.equal(pos, list(range(pos[0], pos[0] + len(s))), "volumes of a set together and in order")
    ctx.klass(len(sets), len(l).bit_length())


def same(ctx):
    """same_sfv: the entries decide, not comments or order"""
    rng = ctx.rng
    ents = [("f%d%s" % (i, rng.choice([".rar", ".r01", ".mp3"])), "%08x" % rng.getrandbits(32))
            for i in range(rng.randint(1, 8))]

    def text(es):
        es = list(es)
        rng.shuffle(es)
        t = []
        for a, c in es:
            if rng.random() < 0.3:
                t.append("; comment %d" % rng.randint(0, 9))
            t.append("%s%s%s" % (a, rng.choice([" ", "  "]), c.upper() if rng.random() < 0.5 else c))
        return rng.choice(["\r\n", "\n"]).join(t).encode()
    a = ctx.write("a.sfv", text(ents))
    b = ctx.write("b.sfv", text(ents))
    ctx.check(ctx.must(utility.same_sfv, a, b) is True, "same entries, not the same SFV")
    for how in ("crc", "name", "less", "more"):
        e = list(ents)
        i = rng.randrange(len(e))
        if how == "crc":
            e[i] = (e[i][0], "%08x" % (int(e[i][1], 16) ^ (1 << rng.randrange(32))))
        elif how == "name":
            e[i] = ("other" + e[i][0], e[i][1])
        elif how == "less":
            del e[i]
        else:
            e.append(("zz.rar", "12345678"))
        c = ctx.write("c.sfv", text(e))
        ctx.check(not ctx.must(utility.same_sfv, a, c), "different entries (%s) taken for the same SFV" % how)
        ctx.check(not ctx.must(utility.same_sfv, c, a), "different entries (%s) taken for the same SFV" % how)
        ctx.klass(how, len(ents))


GROUPS = [Group("parse", parse, 500, 15000, {"entries": 1000}), Group("order", order, 300, 8000),
          Group("several", several, 150, 3000), Group("same", same, 100, 2000)]
