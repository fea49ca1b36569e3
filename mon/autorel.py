"""Generated release folders for the automatic SRR maker, with what an SRR of them must hold."""
import os, zlib
from mon import media, rargen

GRP = ["GRP", "aXXo2", "LOL", "iNT"]
VIDEO = ["Some.Movie.2009.DVDRip.XviD", "Show.S01E02.720p.HDTV.x264", "A.Title.(2001).[br].DVDR", "X.1999.iNTERNAL.DVDRip",
         "Nam\u00e9.2004.WS.PDTV.XviD"]
MUSIC = ["Some_Artist-Some_Title-CD-2004", "VA-Compilation_Vol_2-2CD-1999", "Artist_-_Title-(CAT001)-VINYL-2010"]
EXTS = (".mp4", ".m4v", ".avi", ".mkv", ".wmv", ".vob", ".m2ts", ".ts", ".mpeg", ".mpg", ".m2v", ".m2p")
PARENTS = ["in", "in/My Proof stuff", "in/samples", "in/covers/x", "in/a/Screenshots", "in/compare", "in/Subs", "in/the.fix"]


class Rel(object):
    def __init__(self):
        self.files = {}         # path in the release -> data
        self.stored = {}        # path -> data that must be stored as it is
        self.srs = {}           # path of an SRS -> (data of the sample, data of a main file, extension)
        self.txt = []           # samples for which no SRS can be made
        self.sets = []          # (folder, RarSet)
        self.subs = {}          # path of the SRR -> (set, nested sets, language lines)
        self.vobs = {}          # path of an SRR -> (path of the sample, Volume)
        self.main_sfvs = []
        self.music = False
        self.compressed = False
        self.features = set()

    def add(self, path, data, store=False):
        assert path not in self.files
        self.files[path] = data
        if store:
            self.stored[path] = data

    def write(self, root):
        for p, d in self.files.items():
            q = os.path.join(root, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(d)

    def volumes(self):
        return dict(((folder + "/" if folder else "") + v.name, v.data) for folder, s in self.sets for v in s.volumes)


def sfvbytes(rng, entries):
    eol = rng.choice([b"\r\n", b"\n"])
    out = b"; made by a tool" + eol if rng.random() < 0.5 else b""
    for n, d in entries:
        out += n.encode("utf-8") + b" " + (rng.choice(["%08x", "%08X"]) % (zlib.crc32(d) & 0xFFFFFFFF)).encode() + eol
    return out


def text(rng):
    return bytes(rng.choices(b"abc \r\n\xb0\xdb", k=rng.choice([0, 1, 30, 2000])))


def jpg(rng, big=False):
    return b"\xff\xd8\xff\xe0\x00\x10JFIF\0" + rng.randbytes(100100 if big else rng.choice([20, 900]))


def rarset(rng, base, files, **kw):
    return rargen.make_set(rng, base=base, files=files, plain=True, **kw)


def join(*p):
    return "/".join(x for x in p if x)


def extras(rel, rng, pre, base):
    """files around the sets"""
    f = rel.features
    r = rng.random
    if r() < 0.9:
        rel.add(base + rng.choice([".nfo", ".NFO", ".Nfo"]), text(rng), True)
    if r() < 0.15:
        rel.add(rng.choice(["imdb.nfo", "tvmaze.nfo", "Imdb.NFO"]), text(rng))
        f.add("imdb")
    if r() < 0.1:
        rel.add("no.nfo", b"no.nfo\r\n")
        f.add("no.nfo")
    if r() < 0.3:
        rel.add(rng.choice(["file_id.diz", "x.txt", ".message", "site.url", "desktop.ini", "a.zip"]), text(rng))
    if r() < 0.25:
        rel.add(join(rng.choice(["", "Proof", "CD1"]), base + rng.choice([".log", ".LOG"])), text(rng), True)
        f.add("log")
    if r() < 0.1:
        rel.add(rng.choice(["rushchk.log", ".upchk.log", "ufxpcrc.log", ".hidden.log"]), text(rng))
    if r() < 0.2:
        rel.add(join(rng.choice(["", "CD2", "a b"]), base + rng.choice([".cue", ".CUE"])), text(rng), True)
        f.add("cue")
    if r() < 0.3:
        rel.add(rng.choice(["Proof/", "proof/", "Proofs/", "Sample/", "Covers/", "Cover/", "Screenshots/", "Compare/"]) + base +
                rng.choice([".jpg", ".png", ".JPG", ".jpeg", ".bmp", ".gif"]), jpg(rng), True)
        f.add("image")
    if r() < 0.15:
        rel.add(base + rng.choice(["-proof.jpg", ".PROOF.JPG", "_proof.png"]), jpg(rng), True)
    if r() < 0.2:
        rel.add(rng.choice(["Folder.jpg", "my poster.jpg", "AlbumArtSmall.jpg", "AlbumArt_{75}_Large.jpg", "zzz.jpg", "other.png"]),
                jpg(rng))
        f.add("site image")
    if r() < 0.15:
        d, n = rng.choice(["Proof", "proofs"]), base + ".proof"
        s = rarset(rng, n, [rargen.AFile("proof" + rng.choice([".jpg", ".png", ".JPG"]), jpg(rng))], new=False, nvol_hint=1,
                   volsize=200000)
        rel.add(join(d, s.volumes[0].name), s.volumes[0].data, True)
        if rng.random() < 0.7:
            rel.add(join(d, n + ".sfv"), sfvbytes(rng, [(s.volumes[0].name, s.volumes[0].data)]), True)
        f.add("proof rar")
    if r() < 0.1 and not rel.music:
        rel.add(join("Sample", base + "-old.srs"), rng.randbytes(60), True)
        f.add("srs")


def subs(rel, rng, base):
    """rarred subtitles"""
    for i in range(rng.choice([1, 1, 2])):
        d = rng.choice(["Subs", "Subs", "subs", "VobSubs", "Subs/CD%d" % (i + 1)])
        n = base + rng.choice([".subs", "-vobsubs", ".sub"]) + str(i)
        lines, nested, inner = [], {}, []

        def pair(tag):
            out = []
            for j in range(rng.choice([1, 1, 2])):
                lang = b"".join(b"id: %s, index: %d\r\n" % (bytes(rng.choices(b"abcdef", k=2)), k) for k in range(rng.randint(0, 3)))
                name = "s%d%s%d" % (i, tag, j)
                out.append(rargen.AFile(name + rng.choice([".idx", ".IDX"]), b"# VobSub\r\n" + lang + b"timestamp: 00\r\n"))
                out.append(rargen.AFile(name + ".sub", rng.randbytes(rng.choice([30, 3000]))))
                lines.append(b"# " + out[-2].name.encode() + b"\n" + lang)
            return out
        if rng.random() < 0.5:
            s2 = rarset(rng, n + "-in", pair("n"), nvol_hint=rng.choice([1, 1, 2]))
            inner = [rargen.AFile(v.name, v.data) for v in s2.volumes]
            nested[n + "-in"] = s2
        if not inner or rng.random() < 0.4:
            inner += pair("o")
        s = rarset(rng, n, inner, nvol_hint=rng.choice([1, 1, 1, 3]))
        for v in s.volumes:
            rel.add(join(d, v.name), v.data)
        rel.add(join(d, n + ".sfv"), sfvbytes(rng, [(v.name, v.data) for v in s.volumes]), True)
        rel.subs[join(d, n + ".srr")] = (s, nested, lines)
    rel.features.add("subs")


def video(rng, samples=True, small=False):
    rel = Rel()
    rel.name = rng.choice(VIDEO) + "-" + rng.choice(GRP)
    base = rng.choice(["grp-movie", "grp.movie.x", "UPPER-Mv", "a_b"])
    ncd = rng.choice([1, 1, 1, 2, 3])
    kind = rng.choice(["CD%d", "cd%d", "Disc%d", "DVD.%d"])
    m = None
    while samples and (m is None or m.ext.lower() not in EXTS):
        m = media.make(rng, rng.choice(["avi", "mkv", "mp4", "wmv", "stream"]))
    for i in range(ncd):
        folder = kind % (i + 1) if ncd > 1 else rng.choice(["", "", "", kind % 1])
        n = base + (rng.choice([".cd%d", "-cd%d"]) % (i + 1) if ncd > 1 else "")
        if i == 0 and m:
            main = rargen.AFile(n + m.ext, m.main)
        else:
            main = rargen.AFile(n + rng.choice([".avi", ".iso", ".bin"]), rng.randbytes(rng.choice([1, 300, 5000])))
        fs = [main]
        if rng.random() < 0.3:
            fs.append(rargen.AFile(n + ".extra", rng.randbytes(rng.choice([1, 2000]))))
        s = rarset(rng, n, fs, nvol_hint=rng.choice([1, 2, 3, 5]))
        rel.sets.append((folder, s))
        for v in s.volumes:
            rel.add(join(folder, v.name), v.data)
        p = join(folder, n + rng.choice([".sfv", ".sfv", ".SFV"]))
        rel.add(p, sfvbytes(rng, [(v.name, v.data) for v in s.volumes]), True)
        rel.main_sfvs.append(p)
    if m:
        d = rng.choice(["Sample", "sample", "Sample", "CD1/Sample", ""])
        stem = rng.choice(["grp-movie-sample", "sample-x", "x.y.z.Sample", "A sample", "s\u00e4mple"])
        if not d and "sample" not in stem.lower():
            stem = "sample"
        n = join(d, stem)
        sf = [(n + m.ext, m)]
        if rng.random() < 0.35:
            sf.append((join(d, "b" + stem) + ".mkv", media.make(rng, "mkv")))
        if rng.random() < 0.35 and m.ext.lower() not in (".mkv", ".ts", ".m2ts"):
            # SRS files with the same name
            sf.append((n + ".mkv", media.make(rng, "mkv")))
            rel.features.add("same name")
        names = [os.path.splitext(p)[0] for p, _ in sf]
        rng.shuffle(sf)
        for p, x in sf:
            rel.add(p, x.data)
            b = os.path.splitext(p)[0]
            rel.srs[(p if names.count(b) > 1 else b) + ".srs"] = (x.data, x.main, x.ext)
        if rng.random() < 0.15:
            p = join(d, "broken-sample" + rng.choice([".avi", ".mkv", ".mp4"]))
            rel.add(p, b"\0\1\2" * rng.choice([5, 300]))
            rel.txt.append(p)
            rel.features.add("broken sample")
        if rng.random() < 0.08:
            # a vob sample that is a RAR volume
            vs = rarset(rng, "v", [rargen.AFile("v.vob", b"\0\0\1\xba" + rng.randbytes(rng.choice([300, 5000])))], nvol_hint=rng.choice([1, 3]))
            v = vs.volumes[0]
            n = join(d, "rar-sample")
            rel.add(n + ".vob", v.data)
            rel.srs[n + ".srs"] = (v.data, v.data, ".vob")
            rel.vobs[n + ".srr"] = (n + ".vob", v)
            rel.features.add("rarred vob")
        if rng.random() < 0.1:
            rel.add(join(d, "empty-sample" + rng.choice([".avi", ".vob", ".mkv"])), b"")
            rel.features.add("empty sample")
    if rng.random() < 0.3:
        subs(rel, rng, base)
    extras(rel, rng, "", base)
    rel.base = base
    return rel


def music(rng):
    rel = Rel()
    rel.music = True
    rel.name = rng.choice(MUSIC) + "-" + rng.choice(GRP)
    base = rng.choice(["00-some_artist-some_title-2004-grp", "000-va-compilation", "00_artist"])
    ncd = rng.choice([1, 1, 2])
    fmt = rng.choice(["mp3", "mp3", "flac"])
    same = rng.random() < 0.4
    for i in range(ncd):
        folder = "CD%d" % (i + 1) if ncd > 1 else ""
        entries = []
        for t in range(rng.randint(1, 4)):
            m = media.make(rng, fmt)
            n = "%02d-artist-%s-grp" % (t + 1, "intro" if same and t == 0 else "t%d_%d" % (i, t)) + m.ext.lower()
            rel.add(join(folder, n), m.data)
            listed = m.data
            if rng.random() < 0.1:
                listed = m.data + b"x"
                rel.features.add("bad crc")
            else:
                rel.srs[join(folder, n[:-len(m.ext)] + ".srs")] = (m.data, m.data, m.ext)
            entries.append((n, listed))
        p = join(folder, base + rng.choice([".sfv", ".SFV"]))
        rel.add(p, sfvbytes(rng, entries), True)
        rel.main_sfvs.append(p)
        if rng.random() < 0.8:
            rel.add(join(folder, base + rng.choice([".m3u", ".M3U"])), text(rng), True)
    if rng.random() < 0.5:
        rel.add(base + "-cover.jpg", jpg(rng), True)
    if ncd > 1 and same:
        rel.features.add("same track name")
    extras(rel, rng, "", base)
    rel.base = base
    return rel


def clips(rng):
    """music videos"""
    rel = Rel()
    rel.name = rng.choice(["Artist-Title-x264-2012", "Artist_-_Title-DVDRip-XviD-2004", "Some_Clips-DVD-2001"]) + "-" + rng.choice(GRP)
    base = "artist-title-grp"
    one = rng.random() < 0.6
    entries = []
    for i in range(1 if one else rng.randint(2, 3)):
        m = None
        while m is None or m.ext.lower() not in EXTS or len(m.ext) != 4:
            m = media.make(rng, rng.choice(["avi", "mkv", "mp4", "wmv", "stream"]))
        n = base + ("" if one else "-%d" % i)
        rel.add(n + m.ext, m.data)
        rel.srs[n + ".srs"] = (m.data, m.data, m.ext)
        entries.append((n + m.ext, m.data))
    rel.add(base + ".sfv", sfvbytes(rng, entries), True)
    rel.main_sfvs.append(base + ".sfv")
    rel.features.add("clips")
    extras(rel, rng, "", base)
    rel.base = base
    return rel


def fix(rng):
    rel = Rel()
    r = rng.random()
    if r < 0.5:
        rel.name = "Some.Movie.2009." + rng.choice(["DiRFiX", "NFOFiX", "PROOFFIX"]) + ".DVDRip.XviD-GRP"
        rel.add("grp-fix.nfo", text(rng), True)
        if "PROOF" in rel.name:
            rel.add("grp-proof.jpg", jpg(rng), True)
    else:
        rel.name = "Some.Game." + rng.choice(["FIX", "FiX"]) + "-GRP"
        s = rarset(rng, "grp-fix", [rargen.AFile("fix.exe", rng.randbytes(200))], new=False, nvol_hint=1, volsize=9000)
        rel.sets.append(("", s))
        rel.add(s.volumes[0].name, s.volumes[0].data, True)
        rel.add("grp-fix.sfv", sfvbytes(rng, [(s.volumes[0].name, s.volumes[0].data)]), True)
        rel.add("grp-fix.nfo", text(rng), True)
        rel.main_sfvs.append("grp-fix.sfv")
    rel.features.add("fix")
    rel.base = "grp-fix"
    return rel


def make(rng, kind=None):
    kind = kind or rng.choice(["video", "video", "video", "music", "music", "fix", "clips"])
    rel = {"video": video, "music": music, "fix": fix, "clips": clips}[kind](rng)
    rel.kind = kind
    return rel
