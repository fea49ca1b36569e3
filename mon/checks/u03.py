"""U03: NZB files are read, merged and split without losing segments."""
import contextlib, datetime, importlib.util, io, os, shutil, sys
from xml.etree import ElementTree
from mon import srrlib
from mon.core import Group, REPO, files, read, tree

PROPERTY = "U03"
RULE = ("(parse) NZB files of a known content are written in the ways posters write them (entities, CDATA, comments, white space, "
        "other encodings, unescaped &, a NUL, a missing or double end tag) and read with each parser and the tool's reader; every file, "
        "group and segment is compared; (merge) folders of NZB files are merged and (split) big NZB files are split, by the real tools, "
        "and what is in the results is counted with an independent reader: each file and segment exactly once, the inputs kept or "
        "replaced by the result; (faults) the same with an I/O error, a full disk or death: nothing is lost. Non-trivial: a file with "
        "segments was compared; classes: parser, notation, damage, number of files.")
ASSUMPTIONS = ["a file of a release that the split tool can not name is reported ('Failed:') and left out (by design)",
               "subjects, posters and message ids contain no control characters", "file dates are whole seconds"]
NS = "http://www.newzbin.com/DTD/2003/nzb"
if os.path.join(REPO, "usenet") not in sys.path:
    sys.path.append(os.path.join(REPO, "usenet"))


def tool(name):
    p = os.path.join(REPO, "usenet", name + ".py")
    spec = importlib.util.spec_from_file_location(name, p)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


with contextlib.redirect_stdout(io.StringIO()):
    nzb_utils = tool("nzb_utils")
    merge = tool("nzb_merge")
    split = tool("nzb_split")
import pynzb
from pynzb.expat_nzb import ExpatNZBParser
from pynzb.etree_nzb import ETreeNZBParser
PARSERS = {"expat": ExpatNZBParser, "etree": ETreeNZBParser, "default": None}
try:
    from pynzb.lxml_nzb import LXMLNZBParser
    PARSERS["lxml"] = LXMLNZBParser
except ImportError:
    pass
WORDS = ["Title", "A&B", "it's", '"q"', "<br>", "a.r00", "t\u00efte", "\u4e2d", "x  y", "100%", "]]", "&amp;", "(1/3)", "#a.b.teevee@EFNet"]


def filename(rng, rel):
    b = rel.lower()
    return b + rng.choice([".rar", ".r%02d" % rng.randrange(100), ".sfv", ".nfo", ".part%02d.rar" % rng.randrange(1, 60), ".vol03+04.par2",
                           ".par2", ".mkv", "-sample.avi", ".001", "-cd1.s05", ".srr", ".jpg"])


def nzbfile(rng, subject=None):
    segs = []
    for i in range(rng.choice([1, 1, 2, 5, 40])):
        mid = "%s@%s" % (rng.choice(["part%dof9.x" % i, "%x" % rng.getrandbits(80), "a&b", "q<r>s", "&amp;%d" % i, "\u00e9%d" % i]),
                         rng.choice(["news.local", "JBinUp", "x"]))
        segs.append((rng.choice([1, 700, 500000, rng.randrange(1, 10 ** 9)]), i + 1, "%d.%s" % (rng.getrandbits(30), mid)))
    if rng.random() < 0.15:
        # posted again: more articles for the same segment; or segments that are not there
        k = rng.choice(segs)
        segs.append((rng.choice([k[0], k[0] + 7]), k[1], "again" + k[2]))
    if rng.random() < 0.1:
        segs = [s for s in segs if rng.random() < 0.7] or segs[-1:]
    if rng.random() < 0.15:
        rng.shuffle(segs)
    if subject is None:
        subject = " ".join(rng.sample(WORDS, rng.randint(1, 5))) + ' "%s" yEnc (1/%d)' % (filename(rng, "grp-x"), len(segs))
    return (rng.choice(["me <a@b.c>", "poster", "\u00e9 & co", "'x' \"y\""]), rng.choice([0, 1, 1300000000, rng.randrange(1, 2 ** 31 - 1)]), subject,
            tuple(rng.sample(["alt.binaries.x264", "alt.binaries.a&b", "a.b.teevee", "alt.binaries.multimedia"], rng.randint(0, 3))), tuple(segs))


def esc(rng, s, attr, how, amp):
    out = []
    for c in s:
        if c == "&":
            out.append("&" if amp else "&amp;")
        elif c == "<":
            out.append("&lt;")
        elif c == ">":
            out.append(rng.choice(["&gt;", ">"]) if not attr else "&gt;")
        elif c == '"' and attr:
            out.append("&quot;")
        elif ord(c) > 126 and how == "num":
            out.append("&#%d;" % ord(c))
        elif c.isalnum() and how == "num" and rng.random() < 0.1:
            out.append("&#x%x;" % ord(c))
        else:
            out.append(c)
    return "".join(out)


def write(rng, fs, plain=False):
    """-> (bytes, features)"""
    feats = []
    how = rng.choice(["raw", "num"])
    amp = False
    if not plain and rng.random() < 0.2 and not any("&" in f[2] and ";" in f[2] or any(";" in s[2] for s in f[4]) or ";" in "".join(f[3]) for f in fs):
        amp = True
        feats.append("amp")
    enc = rng.choice(["utf-8", "utf-8", "iso-8859-1" if how == "num" else "utf-8"])
    nl = rng.choice(["\n", "\r\n", ""]) if not amp else "\n"
    e = lambda s, attr=False: esc(rng, s, attr, how, amp)
    comment = "<!-- <file> & co -->" if rng.random() < 0.2 else ""
    o = ['<?xml version="1.0" encoding="%s"?>' % enc]
    if rng.random() < 0.6:
        o.append('<!DOCTYPE nzb PUBLIC "-//newzBin//DTD NZB 1.1//EN" "http://www.newzbin.com/DTD/nzb/nzb-1.1.dtd">')
    o.append('<nzb xmlns="%s">' % NS)
    if rng.random() < 0.2:
        o.append('<head><meta type="title">x &amp; y</meta></head>')
        feats.append("head")
    for p, d, s, gs, segs in fs:
        at = ['poster="%s"' % e(p, True), 'date="%d"' % d, 'subject="%s"' % e(s, True)]
        rng.shuffle(at)
        o.append("<file %s>" % " ".join(at) + comment)
        g = ["<groups>"] + ["<group>%s</group>" % e(x) for x in gs] + ["</groups>"]
        q = ["<segments>"]
        for b, n, m in segs:
            t = e(m)
            if plain and rng.random() < 0.05 and "]]" not in m and how == "raw":
                t = "<![CDATA[%s]]>" % m
                feats.append("cdata")
            q.append('<segment bytes="%d" number="%d">%s</segment>' % (b, n, t))
        q.append("</segments>")
        o += g + q if rng.random() < 0.9 else q + g
        o.append("</file>")
    end = "</nzb>"
    if not plain and nl and rng.random() < 0.15:
        end = rng.choice(["", "</nzb>\n<!-- Generated -->"])
        feats.append("noend" if not end else "trailer")
    o.append(end)
    data = (nl.join(o) + (nl if end else "\n")).encode(enc, "xmlcharrefreplace")
    if not plain and rng.random() < 0.1 and nl:
        k = data.index(b"<file") if b"<file" in data else len(data)
        data = data[:k] + b"\x00" + data[k:]
        feats.append("nul")
    if not plain and rng.random() < 0.1 and nl == "\n" and end == "</nzb>":
        data += b"</nzb>\n"
        feats.append("double")
    return data, sorted(set(feats)) + [how, enc]


def same(ctx, got, want, what, dates=True):
    ctx.equal(len(got), len(want), "files read by %s" % what)
    for g, w in zip(got, want):
        ctx.equal((g.poster, g.subject, tuple(g.groups)), (w[0], w[2], w[3]), "poster, subject and groups read by %s" % what)
        d = datetime.datetime.fromtimestamp(w[1])
        ctx.check(g.date in (d, d.date()), "date %r read by %s, posted %r" % (g.date, what, d), "date")
        ctx.equal(tuple((s.bytes, s.number, s.message_id) for s in g.segments), w[4], "segments read by %s" % what)


def parse(ctx):
    rng = ctx.rng
    for _ in range(5):
        fs = [nzbfile(rng) for _ in range(rng.choice([0, 1, 2, 3, 8]))]
        data, feats = write(rng, fs, rng.random() < 0.3)
        bad = set(feats) & {"amp", "noend", "nul", "double"}
        ctx.note.update(feats=feats, data=data[:3000])
        if not bad:
            for n, cls in sorted(PARSERS.items()):
                o = ctx.call((cls() if cls else pynzb.nzb_parser).parse, data)
                ctx.check(o.exc is None, "%s refuses a good NZB: %s" % (n, o.brief()), "refused")
                same(ctx, o.value, fs, n)
        p = ctx.write("x.nzb", data)
        o = ctx.call(nzb_utils.read_nzb, p)
        ctx.check(o.exc is None, "read_nzb refuses it (%s): %s" % (feats, o.brief()), "refused")
        same(ctx, o.value, fs, "read_nzb (%s)" % " ".join(feats))
        ctx.check(read(p) == data, "the NZB changed")
        # written again by the tool and read by an independent reader
        doc = nzb_utils.empty_nzb_document()
        for f in ctx.call(nzb_utils.read_nzb, p).value:
            nzb_utils.add_file(doc, f)
        for xml in (nzb_utils.get_xml(doc),):
            ctx.equal(sorted(content(xml)), sorted(fs), "content of the written NZB")
        ctx.count("files", len(fs))
        ctx.klass(tuple(feats), len(fs), sum(len(f[4]) for f in fs) > 10)


def content(data):
    """an independent reader -> [file]"""
    out = []
    root = ElementTree.fromstring(data)
    q = "{%s}" % NS
    assert root.tag == q + "nzb", root.tag
    for f in root.findall(q + "file"):
        out.append((f.get("poster"), int(f.get("date")), f.get("subject"), tuple(g.text or "" for g in f.iter(q + "group")),
                    tuple((int(s.get("bytes")), int(s.get("number")), s.text) for s in f.iter(q + "segment"))))
    return out


class Opt(object):
    substring = False


def mergetool(ctx, kw):
    rng = ctx.rng
    main = ctx.mkdir("m")
    want, before = {}, {}
    for d in rng.sample(["Rel.One-GRP", "b", "C D", "\u00e9"], rng.randint(1, 3)):
        fs, names = [], []
        for i in range(rng.randint(0, 4)):
            part = [nzbfile(rng) for _ in range(rng.randint(0, 3))]
            n = rng.choice(["", "x" * rng.randint(0, 4)]) + "p%d" % i + rng.choice([".nzb", ".nzb", ".NZB"])
            data, feats = write(rng, part, plain=rng.random() < 0.6)
            ctx.write(os.path.join("m", d, n), data)
            before[os.path.join(d, n)] = sorted(part)
            fs += part
            names.append(n)
        if rng.random() < 0.3:
            ctx.write(os.path.join("m", d, "x.nfo"), b"nfo")
        os.makedirs(ctx.path("m", d), exist_ok=True)
        want[d] = (sorted(fs), names)
    ctx.write("m/loose.nzb", b"not touched")
    old = tree(main)
    where = rng.choice([None, main, ctx.mkdir("cwd")])
    arg = "." if where == main and rng.random() < 0.5 else main
    o = srrlib.cli(ctx, lambda a: merge.main(Opt(), a), [arg], cwd=where or ctx.mkdir("cwd"), **kw)
    return main, want, before, old, o


def merging(ctx):
    main, want, before, old, o = mergetool(ctx, {})
    ctx.check(o["exc"] is None, "merging ended with a traceback: " + str(o["exc"]), "run")
    for d, (fs, names) in want.items():
        left = [x for x in sorted(os.listdir(os.path.join(main, d))) if x.lower().endswith(".nzb")]
        if len(names) > 1:
            ctx.equal(len(left), 1, "NZB files after merging %r" % names)
            ctx.check(left[0] in names and len(left[0]) == min(map(len, names)), "the result is called %r" % left[0])
            ctx.equal(sorted(content(read(os.path.join(main, d, left[0])))), fs, "content after merging")
            ctx.count("merged")
        else:
            ctx.equal(left, names, "a single NZB")
        ctx.klass("merge", len(names), len(fs))
    now = tree(main)
    chg = [k for k in old if not k.lower().endswith(".nzb") and now.get(k) != old[k]] + [k for k in now if k not in old]
    ctx.check(not chg and now["loose.nzb"] == old["loose.nzb"], "other files changed: %r" % chg)


def lost(ctx, main, want, before):
    """every file must still be in some readable NZB"""
    for d, (fs, names) in want.items():
        have = []
        for x in sorted(os.listdir(os.path.join(main, d))):
            p = os.path.join(main, d, x)
            if os.path.isfile(p) and x.lower().endswith((".nzb", ".tmp")):
                data = read(p)
                try:
                    have += content(data)
                except ElementTree.ParseError:
                    rel = os.path.join(d, x)
                    if rel in before:
                        o = ctx.call(nzb_utils.read_nzb, p)
                        if o.exc is None and len(o.value) == len(before[rel]) and len(data):
                            have += before[rel]
        miss = [f for f in fs if f not in have]
        ctx.check(not miss, "%d of %d files are in no NZB any more" % (len(miss), len(fs)), "lost")


def faults(ctx):
    rng = ctx.rng
    kind = rng.choice(["fault", "fault", "disk"])
    if kind == "disk":
        kw = dict(fsize=rng.choice([0, 1, 100, rng.randint(0, 5000)]), fsize_kill=rng.random() < 0.3)
    else:
        kw = dict(fault=(rng.randint(1, 30), rng.choice(["oserror", "eacces", "crash"])))
    ctx.note.update(kw=kw)
    main, want, before, old, o = mergetool(ctx, kw)
    ctx.note.update(hit=o["hit"])
    lost(ctx, main, want, before)
    now = tree(main)
    new = [k for k in now if k not in old]
    if o["died"] is None and not (o["hit"] and o["hit"][0] in ("remove", "unlink", "rename")):
        ctx.check(not new, "left behind after %r: %r" % (o["hit"] or kw, new), "left")
    ctx.count("faults")
    ctx.klass("fault", kind, (o["hit"] or [None])[0], o["died"] is not None, o["rc"])


def splitting(ctx):
    rng = ctx.rng
    rels = rng.sample(["Some.Show.S01E0%d.720p.HDTV.x264-GRP" % i for i in range(5)] + ["Artist.And.Song-Title-2010-iNT", "Movie.2009.DVDRip.XviD-ABC"],
                      rng.randint(1, 4))
    order = []
    for r in rels:
        order += [r] * rng.randint(1, 4)
    if rng.random() < 0.5:
        rng.shuffle(order)
    style = rng.choice(["teevee", "sek9", "none", "cheese"])
    fs = []
    for i, r in enumerate(order):
        fn = filename(rng, r)
        s = {"teevee": '[123]-[FULL]-[#a.b.teevee@EFNet]-[ %s ]-[%02d/20] - "%s" yEnc (1/9)' % (r, i, fn),
             "sek9": '[:SEK9:][x]-[:%s:] "%s" yEnc (1/9)' % (r, fn),
             "cheese": '(%s Powered by Cheese) "%s" yEnc (1/9)' % (r, fn),
             "none": '"%s" yEnc (1/9)' % fn}[style]
        fs.append(nzbfile(rng, s))
    bad = []
    if rng.random() < 0.2:
        bad = [nzbfile(rng, '[ %s ] "no extension" yEnc (1/1)' % rels[0])]
    allf = fs + bad
    data, feats = write(rng, allf)
    p = ctx.write("big.nzb", data)
    out = ctx.mkdir("out")
    prev = []
    if rng.random() < 0.3:
        prev = [nzbfile(rng, '[ %s ] "%s" yEnc (1/9)' % (rels[0], filename(rng, rels[0])))]
        ctx.write("out/%s.nzb" % rels[0], write(rng, prev, True)[0])
    if rng.random() < 0.2:
        o2 = [nzbfile(rng)]
        ctx.write(rng.choice(["out/other.nzb", "out/.nzb"]), write(rng, o2, True)[0])
        prev += o2
    opt = Opt()
    opt.substring = rng.random() < 0.2
    ctx.note.update(style=style, order=order, prev=len(prev))
    o = srrlib.cli(ctx, lambda a: split.main(opt, a), [p, out], cwd=ctx.mkdir("cwd"))
    ctx.check(o["exc"] is None, "splitting ended with a traceback: " + str(o["exc"]), "run")
    ctx.check(read(p) == data, "the NZB changed")
    got = []
    for n in sorted(os.listdir(out)):
        ctx.check(n.endswith(".nzb"), "not an NZB: %r" % n)
        got += content(read(os.path.join(out, n)))
    ctx.equal(sorted(got), sorted(fs + prev), "content after splitting (%s)" % style)
    for f in bad:
        ctx.check("Failed" in o["out"], "a file is left out without a word")
    if style != "none" and not opt.substring:
        for r in rels:
            q = os.path.join(out, r + ".nzb")
            ctx.check(os.path.isfile(q), "no NZB for %s: %r" % (r, sorted(os.listdir(out))))
            ctx.check(set(x for x in content(read(q))) >= set(f for f, x in zip(fs, order) if x == r), "files of %s are elsewhere" % r)
    ctx.count("split", len(fs))
    ctx.klass("split", style, len(rels), order == sorted(order), bool(prev), bool(bad), opt.substring)


GROUPS = [
    Group("parse", parse, quick=500, thorough=60000, need={"files": 300}),
    Group("merge", merging, quick=250, thorough=40000, need={"merged": 60}),
    Group("split", splitting, quick=250, thorough=40000, need={"split": 200}),
    Group("faults", faults, quick=400, thorough=40000, need={"faults": 100}),
]
