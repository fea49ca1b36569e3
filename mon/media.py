"""Media files of every supported container, with known truth: a full "main"
file and a sample whose streams are a piece of the main file's streams.

Written from the container specifications, independent of the product's readers.

Sample: .fmt .ext .data (the sample's bytes) .main (the main file's bytes)
        .tracks  {track number: stream bytes in the sample}
        .offsets {track number: set of offsets in the main file at which the
                  first byte of the sample's stream is (per the SRS rules)}
        .streams {track number: stream bytes in the main file}
        .layout  WMV: {which: (packet size, payloads of each packet)}
        .info    what was generated
"""
import os, struct, zlib

L = struct.Struct("<L").pack
H = struct.Struct("<H").pack
Q = struct.Struct("<Q").pack
BL = struct.Struct(">L").pack
BH = struct.Struct(">H").pack
BQ = struct.Struct(">Q").pack
SIG = 256
FORMATS = ["avi", "mkv", "mp4", "wmv", "flac", "mp3", "stream"]


class Sample(object):
    def __init__(self, fmt, ext):
        self.fmt, self.ext = fmt, ext
        self.info = {}
        self.tracks = {}
        self.offsets = {}
        self.streams = {}
        self.layout = {}

    @property
    def crc(self):
        return zlib.crc32(self.data) & 0xFFFFFFFF

    def describe(self):
        d = dict(self.info)
        d.update(fmt=self.fmt, ext=self.ext, size=len(self.data), main_size=len(self.main),
                 tracks=dict((k, len(v)) for k, v in self.tracks.items()))
        return d


class Track(object):
    """frames of one stream in the main file; the sample has [a:b]"""
    def __init__(self, nr, frames, a, b, kind="v"):
        self.nr, self.frames, self.a, self.b, self.kind = nr, frames, a, b, kind

    @property
    def cut(self):
        return self.frames[self.a:self.b]

    @property
    def stream(self):
        return b"".join(self.frames)

    @property
    def cut_stream(self):
        return b"".join(self.cut)

    def ambiguous(self):
        """the start of the piece also occurs earlier in the stream"""
        cut = self.cut_stream
        if not cut:
            return False
        start = sum(map(len, self.frames[:self.a]))
        return self.stream.find(cut[:SIG]) != start


def fsize(rng, big):
    r = rng.random()
    if r < 0.06:
        return 0
    if r < 0.15:
        return rng.randint(1, 8)
    if r < 0.3:
        return rng.choice([255, 256, 257, 127, 128])
    if r < 0.6:
        return rng.randint(9, 400)
    return rng.randint(100, 5000 if big else 1500)


def tracks(rng, numbers, big=False, empty_ok=True, minlen=1, prefix=None, fixed=None):
    out = []
    for i, nr in enumerate(numbers):
        while True:
            n = rng.randint(1, 14)
            a0 = rng.choice([0, 0, 1, 2, rng.randint(0, 10)])
            z = rng.choice([0, 1, 3, 8])
            size = fixed.get(i) if fixed else None
            frames = []
            for _ in range(a0 + n + z):
                s = size or max(minlen, fsize(rng, big))
                d = rng.randbytes(s)
                if prefix and i in prefix:
                    d = prefix[i] + d
                frames.append(d)
            t = Track(nr, frames, a0, a0 + n, rng.choice("vat") if i > 1 else "va"[i])
            if not t.ambiguous() and (empty_ok or t.cut_stream):
                break
        out.append(t)
    return out


def interleave(rng, lists):
    """merge lists of (nr, frame) keeping the order in each; sometimes in runs"""
    lists = [list(x) for x in lists if x]
    out = []
    style = rng.choice(["random", "runs", "round"])
    while lists:
        lists = [x for x in lists if x]
        if not lists:
            break
        if style == "round":
            for x in lists:
                out.append(x.pop(0))
        else:
            x = rng.choice(lists)
            for _ in range(1 if style == "random" else rng.randint(1, 6)):
                if x:
                    out.append(x.pop(0))
    return out


# -- AVI ---------------------------------------------------------------------
def _chunk(fourcc, data, rng, pad=None):
    b = fourcc + L(len(data)) + data
    if len(data) % 2:
        b += bytes([rng.choice([0, 0, 0, 255, 65]) if pad is None else pad])
    return b


def _list(kind, name, body):
    return kind + L(4 + len(body)) + name + body


def avi(rng, big=False):
    s = Sample("avi", rng.choice([".avi", ".avi", ".AVI", ".divx"]))
    n = rng.choice([1, 2, 2, 3, 4])
    nrs = list(range(n)) if rng.random() < 0.85 else sorted(rng.sample(range(100), n))
    ts = tracks(rng, nrs, big)
    if not any(t.cut_stream for t in ts):
        return avi(rng, big)
    extra = []
    if rng.random() < 0.2:      # a stream of the main file the sample does not have
        extra = tracks(rng, [max(nrs) + 1] if max(nrs) < 99 else [50 if 50 not in nrs else 51], big)
    align = rng.random() < 0.85     # chunks of the sample on chunk borders of the main file
    for which in ("main", "sample"):
        style = rng.choice(["plain", "plain", "rec", "avix"])
        lists, elements = [], []
        pos = {}
        for t in ts + (extra if which == "main" else []):
            fr = t.frames if which == "main" else t.cut
            if which == "sample" and not align:
                whole = t.cut_stream
                fr, at = [], 0
                while at < len(whole):
                    k = rng.randint(1, 2000)
                    fr.append(whole[at:at + k])
                    at += k
            lists.append([(t, i, f) for i, f in enumerate(fr)])
        order = interleave(rng, lists)
        out = b""
        hdr = _list(b"LIST", b"hdrl", _chunk(b"avih", rng.randbytes(56), rng) + b"".join(
            _list(b"LIST", b"strl", _chunk(b"strh", rng.randbytes(56), rng) +
                  _chunk(b"strf", rng.randbytes(rng.choice([40, 18, 19])), rng)) for _ in lists))
        if rng.random() < 0.5:
            hdr += _list(b"LIST", b"INFO", _chunk(b"ISFT", b"VirtualDubMod 1.5" + b"x" * rng.randint(0, 3), rng))
        if rng.random() < 0.5:
            hdr += _chunk(b"JUNK", bytes(rng.randint(0, 700)), rng)
        # movi lists: body is built with positions relative to its start
        cut = len(order) if style != "avix" else rng.randint(0, len(order))
        parts = [order[:cut]] + ([order[cut:]] if style == "avix" else [])
        for pi, part in enumerate(parts):
            pre = hdr if pi == 0 else b""
            movi, idx, group = b"", b"", 0
            where = []
            i = 0
            while i < len(part):
                k = rng.randint(1, 4) if style == "rec" else len(part)
                sub = b""
                base = len(movi) + (12 if style == "rec" else 0)
                for t, fi, f in part[i:i + k]:
                    cc = b"%02d" % t.nr + {"v": b"dc", "a": b"wb", "t": b"tx"}[t.kind]
                    at = base + len(sub)
                    where.append((t, fi, at))
                    idx += cc + L(0x10) + L(at + 4) + L(len(f))
                    sub += _chunk(cc, f, rng)
                movi += _list(b"LIST", b"rec ", sub) if style == "rec" else sub
                i += k
            start = len(out) + 12 + len(pre) + 12    # first byte after the 'movi' word
            for t, fi, at in where:
                pos.setdefault(t.nr, {})[fi] = start + at + 8
            body = pre + _list(b"LIST", b"movi", movi)
            how = rng.choice(["idx", "idx", "abs", "none", "bad"]) if pi == 0 else "none"
            if how == "abs":
                idx2 = b""
                for k in range(0, len(idx), 16):
                    (o,) = struct.unpack("<L", idx[k + 8:k + 12])
                    idx2 += idx[k:k + 8] + L(o - 4 + start) + idx[k + 12:k + 16]
                idx = idx2
            elif how == "bad":
                idx = b"".join(idx[k:k + 8] + L(rng.randrange(1 << 20)) + idx[k + 12:k + 16]
                               for k in range(0, len(idx), 16))
            if how != "none":
                body += _chunk(b"idx1", idx, rng)
            if rng.random() < 0.2:
                body += _chunk(b"JUNK", rng.randbytes(rng.randint(0, 50)), rng)
            s.info[which + "-idx"] = how
            out += _list(b"RIFF", b"AVI " if pi == 0 else b"AVIX", body)
        if which == "sample" and rng.random() < 0.15:
            out += _chunk(b"JUNK", rng.randbytes(rng.randint(1, 30)), rng)
        s.info[which] = style
        if which == "main":
            s.main = out
            for t in ts:
                c = t.cut_stream
                if c:
                    fi = t.a
                    while not t.frames[fi]:
                        fi += 1
                    s.offsets[t.nr] = {pos[t.nr][fi]}
        else:
            s.data = out
    # only streams with a chunk in the sample exist for it
    for t in ts:
        if t.cut_stream or align:
            s.tracks[t.nr] = t.cut_stream
        s.streams[t.nr] = t.stream
    s.info["align"] = align
    s.info["extra"] = len(extra)
    return s


# -- Matroska ------------------------------------------------------------------
def vint(n, length=None):
    for l in range(1, 9):
        if n < (1 << (7 * l)) - 1 and (length is None or l >= length):
            return ((1 << (7 * l)) | n).to_bytes(l, "big")
    raise ValueError(n)


def uint(n, length=None):
    l = max(1, (n.bit_length() + 7) // 8)
    return n.to_bytes(max(l, length or 1), "big")


def el(ident, data, rng=None):
    wide = None
    if rng is not None and rng.random() < 0.25:
        wide = rng.choice([2, 4, 8])
    return ident + vint(len(data), wide) + data


def _block(rng, nr, frames, lace, flags=0):
    h = vint(nr) + BH(rng.randrange(65536)) + bytes([flags | {"none": 0, "xiph": 2, "fixed": 4, "ebml": 6}[lace]])
    if lace != "none":
        h += bytes([len(frames) - 1])
    if lace == "xiph":
        for f in frames[:-1]:
            h += b"\xff" * (len(f) // 255) + bytes([len(f) % 255])
    elif lace == "ebml":
        h += vint(len(frames[0]))
        for p, f in zip(frames, frames[1:-1]):
            d = len(f) - len(p)
            for l in range(1, 5):
                bias = (1 << (7 * l - 1)) - 1
                if -bias <= d <= bias:
                    v = d + bias
                    h += ((1 << (7 * l)) | v).to_bytes(l, "big")
                    break
    return h, b"".join(frames)


def mkv(rng, big=False, numbers=None):
    s = Sample("mkv", rng.choice([".mkv", ".mkv", ".MKV", ".mka", ".webm"]))
    n = rng.choice([1, 2, 2, 3, 4])
    nrs = numbers or list(range(1, n + 1))
    if numbers is None and rng.random() < 0.2:
        nrs = sorted(rng.sample([1, 2, 3, 5, 17, 126, 127, 128, 129, 200, 255, 256, 300, 20000], n))
    strip = {}                  # index -> the bytes every frame starts with
    for i in range(len(nrs)):
        if rng.random() < 0.3:
            strip[i] = rng.choice([b"\x00\x00\x00\x01", b"\x0b\x77", b"\x77", b"\xff\xf1P"])
    fixed = {}
    for i in range(len(nrs)):
        if rng.random() < 0.2:
            fixed[i] = rng.choice([1, 64, 256, 384, 1000])
    ts = tracks(rng, nrs, big, prefix=strip, fixed=fixed)
    if not any(t.cut_stream for t in ts):
        return mkv(rng, big, numbers)
    extra = tracks(rng, [max(nrs) + 1], big) if rng.random() < 0.2 else []
    names = []
    if rng.random() < 0.3:
        for i in range(rng.choice([1, 1, 2, 3])):
            names.append((rng.choice(["font.ttf", "cover.jpg", "\u00e9\u4e2d.otf", "a b.ttf", "f%d.ttf" % i]),
                          rng.randbytes(rng.choice([0, 1, 500, 3000]))))
    uid = rng.random() < 0.5
    alloc = {}
    for which in ("main", "sample"):
        mine = ts + (extra if which == "main" else [])
        strips = {}
        for i, t in enumerate(ts):
            if i in strip and rng.random() < 0.6:
                strips[t.nr] = strip[i]
        # tracks
        te = b""
        for t in mine:
            e = el(b"\xd7", uint(t.nr, rng.choice([None, None, 2, 4])), rng)
            if uid:
                e = el(b"\x73\xc5", rng.randbytes(8), rng) + e
            e += el(b"\x83", {"v": b"\x01", "a": b"\x02", "t": b"\x11"}[t.kind])
            e += el(b"\x86", {"v": b"V_MPEG4/ISO/AVC", "a": b"A_AC3", "t": b"S_TEXT/UTF8"}[t.kind])
            if t.nr in strips:
                e += el(b"\x6d\x80", el(b"\x62\x40", el(b"\x50\x31", b"\x00") + el(b"\x50\x34",
                        el(b"\x42\x54", b"\x03") + el(b"\x42\x55", strips[t.nr]))))
            e += el(b"\xe0" if t.kind == "v" else b"\xe1", el(b"\xb0", b"\x05\x00"))
            te += el(b"\xae", e, rng)
        te = el(b"\x16\x54\xae\x6b", te, rng)
        info = el(b"\x15\x49\xa9\x66", el(b"\x2a\xd7\xb1", uint(1000000)) + el(b"\x4d\x80", b"libebml") +
                  el(b"\x7b\xa9", b"title") + el(b"\x44\x89", struct.pack(">f", 1234.5)), rng)
        att = b""
        if names:
            keep = names if which == "main" else rng.sample(names, rng.randint(0, len(names)))
            if which == "sample":
                keep = [x for x in names if x in keep]
                if len(set(x for x, _ in names)) < len(names):
                    keep = rng.choice([names, []])      # which one is meant would not be clear
            for nm, d in keep:
                att += el(b"\x61\xa7", el(b"\x46\x7e", b"desc") + el(b"\x46\x6e", nm.encode("utf-8")) +
                          el(b"\x46\x60", b"font/ttf") + el(b"\x46\x5c", d, rng) + el(b"\x46\xae", b"\x01"), rng)
            if att:
                att = el(b"\x19\x41\xa4\x69", att, rng)
        seek = el(b"\x11\x4d\x9b\x74", el(b"\x4d\xbb", el(b"\x53\xab", b"\x15\x49\xa9\x66") +
                  el(b"\x53\xac", b"\x00\x40")), rng) if rng.random() < 0.6 else b""
        void = el(b"\xec", bytes(rng.randint(0, 300)), rng) if rng.random() < 0.4 else b""
        head = [seek, void, info, te, att]
        tail = b""
        if rng.random() < 0.3:
            tail += el(b"\x1c\x53\xbb\x6b", el(b"\xbb", el(b"\xb3", b"\x00") + el(b"\xb7", el(b"\xf7", b"\x01") +
                       el(b"\xf1", b"\x10"))), rng)       # cues
        if rng.random() < 0.3:
            tail += el(b"\x12\x54\xc3\x67", el(b"\x73\x73", b""), rng)                 # tags
        if rng.random() < 0.15:
            tail += el(b"\xec", bytes(rng.randint(0, 20)))
        # blocks: lists of (header bytes, payload, [(track, frame index, offset in payload)])
        lists = []
        for t in mine:
            idx = list(range(len(t.frames))) if which == "main" else list(range(t.a, t.b))
            bl = []
            laced = rng.random() < 0.5
            while idx:
                lace, k = "none", 1
                if laced and len(idx) > 1:
                    lace = rng.choice(["none", "xiph", "ebml", "fixed"])
                    if lace != "none":
                        k = rng.randint(2, min(8, len(idx)))
                part, fr = idx[:k], []
                for j in part:
                    f = t.frames[j]
                    if t.nr in strips:
                        f = f[len(strips[t.nr]):]
                    fr.append(f)
                if lace == "fixed" and len(set(map(len, fr))) > 1:
                    lace = "xiph"
                h, p = _block(rng, t.nr, fr, lace, rng.choice([0, 0x80]))
                off, o = [], 0
                for j, f in zip(part, fr):
                    off.append((t.nr, j, o))
                    o += len(f)
                bl.append((h, p, off))
                idx = idx[k:]
                s.info.setdefault("laces", set()).add(lace)
            lists.append(bl)
        order = interleave(rng, lists)
        ebml = el(b"\x1a\x45\xdf\xa3", el(b"\x42\x86", b"\x01") + el(b"\x42\x82", b"matroska"), rng)
        body = b"".join(head)
        where = []
        while order or not body:
            k = rng.randint(1, 12)
            c = b""
            if rng.random() < 0.15:
                c += el(b"\xbf", rng.randbytes(4))
            c += el(b"\xe7", uint(rng.randrange(100000)))
            if rng.random() < 0.3:
                c += el(b"\xa7", b"\x00") + el(b"\xab", b"\x00")
            if rng.random() < 0.1:
                c += el(b"\xec", bytes(5))
            marks = []
            for h, p, off in order[:k]:
                if rng.random() < 0.5:
                    b = b"\xa3" + vint(len(h) + len(p), rng.choice([None, None, 4]))
                    marks += [(nr, j, len(c) + len(b) + len(h) + o) for nr, j, o in off]
                    c += b + h + p
                else:
                    b = b"\xa1" + vint(len(h) + len(p))
                    g = b""
                    if rng.random() < 0.3:
                        g += el(b"\xfb", b"\x01")
                    blk = len(g) + len(b) + len(h)
                    g += b + h + p
                    if rng.random() < 0.5:
                        g += el(b"\x9b", b"\x28")
                    gh = b"\xa0" + vint(len(g))
                    marks += [(nr, j, len(c) + len(gh) + blk + o) for nr, j, o in off]
                    c += gh + g
            order = order[k:]
            ch = b"\x1f\x43\xb6\x75" + vint(len(c), rng.choice([None, 4, 8]))
            where += [(nr, j, len(body) + len(ch) + o) for nr, j, o in marks]
            body += ch + c
        body += tail
        sh = b"\x18\x53\x80\x67" + vint(len(body), rng.choice([None, 4, 8]))
        out = ebml + sh + body
        base = len(ebml) + len(sh)
        if which == "main":
            s.main = out
            at = dict(((nr, j), base + o) for nr, j, o in where)
        else:
            s.data = out
            sstrips = strips
        s.info[which] = "strip%d" % len(strips)
        if which == "main":
            mstrips = strips
    for i, t in enumerate(ts):
        cut = [f[len(sstrips[t.nr]):] if t.nr in sstrips else f for f in t.cut]
        s.tracks[t.nr] = b"".join(cut)
        s.streams[t.nr] = t.stream
        if s.tracks[t.nr]:
            fi = t.a
            ok = {at[(t.nr, fi)]}
            while not cut[fi - t.a]:        # empty frames before the first byte
                fi += 1
                ok.add(at[(t.nr, fi)])
            s.offsets[t.nr] = ok
    s.info.update(extra=len(extra), attach=len(names), strip=len(strip),
                  stripdiff=sum(1 for k in set(mstrips) | set(sstrips) if (k in mstrips) != (k in sstrips)),
                  nrs=nrs, laces=sorted(s.info["laces"]))
    # the signature must be found first at the right place, whatever the stripping
    for t in ts:
        cut = [f[len(sstrips[t.nr]):] if t.nr in sstrips else f for f in t.cut]
        full = [f[len(sstrips[t.nr]):] if t.nr in sstrips else f for f in t.frames]
        c = b"".join(cut)
        if c and b"".join(full).find(c[:SIG]) != sum(map(len, full[:t.a])):
            return mkv(rng, big, numbers)
    return s


# -- MP4 -------------------------------------------------------------------------
def atom(name, data, big=False):
    if big == "eof":
        return BL(0) + name + data
    if big:
        return BL(1) + name + BQ(16 + len(data)) + data
    return BL(8 + len(data)) + name + data


def mp4(rng, big=False):
    s = Sample("mp4", rng.choice([".mp4", ".mp4", ".m4v", ".mov", ".3gp"]))
    n = rng.choice([1, 2, 2, 3])
    nrs = list(range(1, n + 1)) if rng.random() < 0.8 else sorted(rng.sample(range(1, 70000), n))
    fixed = {}
    for i in range(n):
        if rng.random() < 0.3:
            fixed[i] = rng.choice([1, 2, 100, 256, 1024])
    ts = tracks(rng, nrs, big, fixed=fixed)
    if not any(t.cut_stream for t in ts):
        return mp4(rng, big)
    extra = tracks(rng, [max(nrs) + 1], big) if rng.random() < 0.2 else []
    none = []                   # a track without any data in both
    if rng.random() < 0.1:
        none = [Track(max(nrs) + 2, [], 0, 0, "t")]
    if extra and rng.random() < 0.2:
        extra.append(Track(max(nrs) + 3, [], 0, 0, "t"))
    for which in ("main", "sample"):
        v1 = rng.random() < 0.15
        co64 = rng.random() < 0.2
        mdat64 = rng.random() < 0.15
        eof = rng.random() < 0.12
        mine = ts + none + (extra if which == "main" else [])
        # chunks: runs of samples
        lists = []
        for t in mine:
            fr = t.frames if which == "main" else t.cut
            idx0 = 0 if which == "main" else t.a
            ch, i = [], 0
            style = rng.choice(["same", "random"])
            k0 = rng.randint(1, 5)
            while i < len(fr):
                k = k0 if style == "same" else rng.randint(1, 5)
                ch.append((t, idx0 + i, fr[i:i + k]))
                i += k
            lists.append(ch)
        order = interleave(rng, lists)
        nmdat = rng.choice([1, 1, 1, 1, 2]) if order else 1
        if nmdat == 2:
            c = rng.randint(0, len(order))
            groups = [order[:c], order[c:]]
        else:
            groups = [order]
        bodies = [b"".join(b"".join(f) for _, _, f in g) for g in groups]
        ftyp = atom(b"ftyp", b"isom" + BL(512) + b"isomiso2avc1mp41"[:4 * rng.randint(1, 4)])
        moov_first = rng.random() < 0.5
        uuid = atom(b"uuid", rng.randbytes(30)) if rng.random() < 0.15 else b""
        free = atom(b"free", bytes(rng.randint(0, 50))) if rng.random() < 0.4 else b""
        wide = atom(b"wide", b"") if rng.random() < 0.2 else b""
        last = atom(b"free", b"end") if rng.random() < 0.2 else b""
        explicit = rng.random() < 0.9
        rseed = rng.random()

        def moov(offs):
            import random
            r = random.Random(rseed)
            m = atom(b"mvhd", r.randbytes(100))
            for t in mine:
                fr = t.frames if which == "main" else t.cut
                if v1:
                    tkhd = b"\x01\0\0\7" + bytes(4) + BL(r.getrandbits(32)) + bytes(4) + BL(1) + BL(t.nr) + bytes(72)
                else:
                    tkhd = b"\0\0\0\7" + BL(r.getrandbits(32)) + BL(r.getrandbits(32)) + BL(t.nr) + bytes(68)
                mychunks = [(i, f) for g, (tt, i, f) in offs_index if tt is t]
                co = [offs[(t.nr, i)] for i, f in mychunks]
                runs = []
                for ci, (i, f) in enumerate(mychunks):
                    if not runs or runs[-1][1] != len(f):
                        runs.append((ci + 1, len(f)))
                stsc = bytes(4) + BL(len(runs)) + b"".join(BL(a) + BL(b) + BL(1) for a, b in runs)
                sizes = [len(f) for f in fr]
                if len(set(sizes)) == 1 and sizes[0] and r.random() < 0.7:
                    stsz = bytes(4) + BL(sizes[0]) + BL(len(sizes))
                else:
                    stsz = bytes(4) + BL(0) + BL(len(sizes)) + b"".join(map(BL, sizes))
                if co64:
                    stco = atom(b"co64", bytes(4) + BL(len(co)) + b"".join(map(BQ, co)))
                else:
                    stco = atom(b"stco", bytes(4) + BL(len(co)) + b"".join(map(BL, co)))
                boxes = [atom(b"stsd", r.randbytes(40)), atom(b"stts", r.randbytes(16)), atom(b"stsc", stsc),
                         atom(b"stsz", stsz), stco]
                if r.random() < 0.3:
                    r.shuffle(boxes)
                stbl = atom(b"stbl", b"".join(boxes))
                minf = atom(b"minf", atom(b"vmhd", bytes(12)) + atom(b"dinf", r.randbytes(20)) + stbl)
                mdia = atom(b"mdia", atom(b"mdhd", bytes(24)) + atom(b"hdlr", bytes(20) + b"name\0") + minf)
                tr = atom(b"tkhd", tkhd)
                if r.random() < 0.3:
                    tr += atom(b"edts", r.randbytes(20))
                m += atom(b"trak", tr + mdia)
            if r.random() < 0.5:
                m += atom(b"udta", r.randbytes(r.randint(0, 60)))
            return atom(b"moov", m)
        offs_index = [(gi, c) for gi, g in enumerate(groups) for c in g]
        zero = dict(((c[0].nr, c[1]), 0) for g, c in offs_index)
        msize = len(moov(zero))
        # layout
        pos = len(ftyp) + len(uuid) + (msize if moov_first else 0) + len(free)
        offs = {}
        mdats = b""
        for g, body in zip(groups, bodies):
            w = wide if not mdats else b""
            end = eof and moov_first and not last and g is groups[-1]
            h = len(w) + (16 if mdat64 and not end else 8)
            p = pos + len(mdats) + h
            for t, i, f in g:
                offs[(t.nr, i)] = p
                p += sum(map(len, f))
            mdats += w + atom(b"mdat", body, "eof" if end else mdat64)
        mv = moov(offs)
        assert len(mv) == msize
        out = ftyp + uuid + (mv if moov_first else b"") + free + mdats + (b"" if moov_first else mv) + last
        if not moov_first and not last and False:
            pass
        if which == "main":
            s.main = out
            at = {}
            for t in mine:
                i = 0
                for _, (tt, start, fr) in offs_index:
                    if tt is t:
                        p = offs[(t.nr, start)]
                        for k, f in enumerate(fr):
                            at[(t.nr, start + k)] = p
                            p += len(f)
        else:
            s.data = out
        s.info[which] = "mdat%d%s%s%s" % (nmdat, "-64" if mdat64 else "", "-co64" if co64 else "", "-v1" if v1 else "")
    for t in ts:
        s.tracks[t.nr] = t.cut_stream
        s.streams[t.nr] = t.stream
        if t.cut_stream:
            fi = t.a
            ok = {at[(t.nr, fi)]}
            while not t.frames[fi]:
                fi += 1
                ok.add(at[(t.nr, fi)])
            # empty frames before it give equal data as well
            j = t.a - 1
            while j >= 0 and not t.frames[j]:
                ok.add(at[(t.nr, j)])
                j -= 1
            s.offsets[t.nr] = ok
    for t in none:
        s.tracks[t.nr] = b""
    s.info.update(extra=len(extra), none=len(none))
    return s


# -- WMV ---------------------------------------------------------------------------
G_HEADER = bytes.fromhex("3026B2758E66CF11A6D900AA0062CE6C")
G_DATA = bytes.fromhex("3626B2758E66CF11A6D900AA0062CE6C")
G_STREAM = bytes.fromhex("9107DCB7B7A9CF118EE600C00C205365")
G_FILE = bytes.fromhex("A1DCAB8C47A9CF118EE400C00C205365")
G_HEXT = bytes.fromhex("B503BF5F2EA9CF118EE300C00C205365")
G_CODEC = bytes.fromhex("4052D1861D31D011A3A400A0C90348F6")
G_INDEX = bytes.fromhex("90080033B1E5CF1189F400A0C90349CB")


def wmv(rng, big=False):
    s = Sample("wmv", rng.choice([".wmv", ".wmv", ".asf", ".wma"]))
    n = rng.choice([1, 2, 2, 3])
    nrs = list(range(1, n + 1)) if rng.random() < 0.8 else sorted(rng.sample(range(1, 128), n))
    ts = tracks(rng, nrs, big, empty_ok=False, minlen=1)
    extra = tracks(rng, [max(nrs) + 1 if max(nrs) < 127 else 64 if 64 not in nrs else 65], big, minlen=1) \
        if rng.random() < 0.2 else []
    for which in ("main", "sample"):
        mine = ts + (extra if which == "main" else [])
        lists = []
        comp = set(t.nr for t in mine if rng.random() < 0.15)
        for t in mine:
            fr = t.frames if which == "main" else t.cut
            if t.nr in comp:
                # sub payloads carry at most 255 bytes each
                sub = []
                for f in fr:
                    while f:
                        k = rng.randint(1, 255)
                        sub.append(f[:k])
                        f = f[k:]
                fr = sub
            i0 = 0 if which == "main" else t.a
            lists.append([(t, i0 + i, f) for i, f in enumerate(fr)])
        order = interleave(rng, lists)
        psize = rng.choice([400, 1000, 1444, 3200, 8000])
        ptype = rng.choice(["multi", "mixed", "mixed", "single"])
        lenbits = rng.choice([0, 0, 2])
        padstyle = rng.choice(["zero", "zero", "zero", "random"])
        # queue of pieces: payloads of media objects, split over packets
        queue = [[t, i, f, 0, len(f)] for t, i, f in order]
        packets, places, layout = [], {}, []
        objno = {}
        while queue:
            multi = ptype == "multi" or ptype == "mixed" and rng.random() < 0.6
            padb = rng.choice([1, 2])
            def head(pad, multi_n=None, kind=0x82):
                fl = (1 if multi_n is not None else 0) | padb << 3 | lenbits << 5
                b = bytes([0x82, 0, 0, fl, 0x5D])     # property: replen byte, offset dword, object byte
                if lenbits:
                    b += H(psize)
                b += {1: lambda x: bytes([x]), 2: H}[padb](pad)
                b += L(rng.getrandbits(32)) + H(rng.getrandbits(16))
                if multi_n is not None:
                    b += bytes([0x80 | multi_n])
                return b
            pay = []        # (header, data, track, frame index, offset in frame)
            room = psize - len(head(0, 1 if multi else None))
            limit = rng.randint(1, 9) if multi else 1
            while queue and len(pay) < limit:
                t, i, f, o, tot = queue[0]
                iscomp = t.nr in comp
                if iscomp:
                    h = bytes([t.nr | rng.choice([0, 0x80]), objno.get(t.nr, 0) & 255]) + L(rng.getrandbits(32)) + \
                        b"\x01" + bytes([rng.randint(0, 50)])
                    ml = 2 if multi else 0
                    subs = []
                    used = 0
                    j = 0
                    while j < len(queue) and queue[j][0] is t and len(subs) < 5:
                        need = 1 + len(queue[j][2])
                        if len(h) + ml + used + need > room:
                            break
                        subs.append(queue[j])
                        used += need
                        j += 1
                    if not subs:
                        break
                    queue = queue[j:]
                    h += H(used) if multi else b""
                    entries = []
                    for k, q in enumerate(subs):
                        entries.append(((h if k == 0 else b"") + bytes([len(q[2])]), q[2], q[0].nr, q[1], 0))
                    pay.append(entries)
                    room -= len(h) + used
                    objno[t.nr] = objno.get(t.nr, 0) + len(subs)
                    continue
                rep = rng.choice([8, 8, 8, 12]) if rng.random() < 0.9 else 0
                h0 = bytes([t.nr | rng.choice([0, 0x80]), objno.get(t.nr, 0) & 255]) + L(o) + bytes([rep]) + \
                    (L(tot) + L(rng.getrandbits(32)) + bytes(rep - 8) if rep else b"")
                ml = 2 if multi else 0
                left = room - len(h0) - ml
                if left < 1 or (left < len(f) and left < 20 and pay):
                    break
                part = f[:left]
                h = h0 + (H(len(part)) if multi else b"")
                pay.append([(h, part, t.nr, i, o)])
                room -= len(h) + len(part)
                if len(part) == len(f):
                    queue.pop(0)
                    objno[t.nr] = objno.get(t.nr, 0) + 1
                else:
                    queue[0] = [t, i, f[len(part):], o + len(part), tot]
            if not pay:
                return wmv(rng, big)
            body = b"".join(h + d for e in pay for h, d, _, _, _ in e)
            pad = psize - len(head(0, len(pay) if multi else None)) - len(body)
            if padb == 1 and pad > 255:
                padb = 2
                pad -= 1
                if pad < 0:
                    return wmv(rng, big)
            b = head(pad, len(pay) if multi else None)
            fill = bytes(pad) if padstyle == "zero" else rng.randbytes(pad)
            start = len(packets) * psize
            prev = 0
            for e in pay:
                for h, d, nr, i, o in e:
                    # offsets as the SRS format counts them: packet start, payloads before, own header
                    places.setdefault(nr, []).append((start + prev + len(h), d))
                    prev += len(h) + len(d)
            packets.append(b + body + fill)
            layout.append([(nr, d) for e in pay for h, d, nr, i, o in e])
            assert len(packets[-1]) == psize, (len(packets[-1]), psize, pad, padb)
        data = b"".join(packets)
        s.layout[which] = (psize, layout)
        objs = G_FILE + Q(104) + rng.randbytes(16)
        objs += b"%SIZE%%%" + rng.randbytes(104 - 24 - 16 - 8)
        for t in mine:
            objs += G_STREAM + Q(78 + 8) + rng.randbytes(16 + 16 + 8) + L(8) + L(0) + H(t.nr) + L(0) + rng.randbytes(8)
        if rng.random() < 0.5:
            objs += G_HEXT + Q(46) + rng.randbytes(22)
        if rng.random() < 0.5:
            objs += G_CODEC + Q(24 + 30) + rng.randbytes(30)
        nobj = 3
        hsize = 30 + len(objs)
        index = b""
        if rng.random() < 0.5:
            index = G_INDEX + Q(24 + 32 + 12) + rng.randbytes(44)
        total = hsize + 50 + len(data) + len(index)
        objs = objs.replace(b"%SIZE%%%", Q(total))
        out = G_HEADER + Q(hsize) + L(nobj) + b"\x01\x02" + objs
        dstart = len(out) + 50
        out += G_DATA + Q(50 + len(data)) + rng.randbytes(16) + Q(len(packets)) + b"\x01\x01"
        assert len(out) == dstart
        out += data + index
        if which == "main":
            s.main = out
            for t in ts:
                # the payload that has the first byte of the piece
                skip = sum(map(len, t.frames[:t.a]))
                for p, d in places[t.nr]:
                    if skip < len(d):
                        s.offsets[t.nr] = {dstart + p + skip}
                        break
                    skip -= len(d)
        else:
            s.data = out
        s.info[which] = "%s-%s-%s%s" % (ptype, lenbits, padstyle, "-comp" if comp else "")
    for t in ts:
        s.tracks[t.nr] = t.cut_stream
        s.streams[t.nr] = t.stream
    s.info["extra"] = len(extra)
    return s


# -- FLAC and MP3 ----------------------------------------------------------------
def id3v2(rng, minor=None, fill=None):
    body = b""
    for fid in rng.sample([b"TIT2", b"TPE1", b"TALB", b"COMM", b"APIC"], rng.randint(0, 4)):
        d = b"\x00" + bytes(rng.choices(b"abcdefghijklmnop XYZ0123", k=rng.randint(1, 300)))
        body += fid + BL(len(d)) + b"\0\0" + d
    body += bytes(rng.choice([0, 0, 10, 1024]) if fill is None else fill)
    n = len(body)
    return b"ID3" + bytes([rng.choice([3, 3, 4]), 0, 0]) + bytes([n >> 21 & 127, n >> 14 & 127, n >> 7 & 127, n & 127]) + body


def id3v1(rng):
    return (b"TAG" + bytes(rng.choices(b"abcdef GHIJ", k=60)) + bytes(65))[:128]


def flac(rng, big=False):
    s = Sample("flac", rng.choice([".flac", ".flac", ".FLAC"]))
    n = rng.choice([1, 100, 255, 256, 257, 3000, 70000 if big or rng.random() < 0.2 else 9000])
    audio = b"\xff\xf8" + rng.randbytes(n)
    if n > 2000 and rng.random() < 0.1:
        audio = audio[:700] + b"fLaC" + audio[704:]
    info = rng.randbytes(34)
    for which in ("main", "sample"):
        blocks = [(0, info)]
        for t in rng.sample([1, 2, 3, 4, 6], rng.randint(0, 4)):
            blocks.append((t, rng.randbytes(rng.choice([0, 1, 40, 500, 70000 if rng.random() < 0.1 else 900]))))
        if rng.random() < 0.15:
            blocks.append((4, b"".join(rng.choice([b"s", b"t", b"u", b"fLaC", b"TAG"]) for _ in range(60))))
        if rng.random() < 0.2:
            blocks.append((1, b""))
        b = b"".join(bytes([t | (0x80 if i == len(blocks) - 1 else 0)]) + BL(len(d))[1:] + d
                     for i, (t, d) in enumerate(blocks))
        pre = id3v2(rng) if rng.random() < 0.25 else b""
        post = id3v1(rng) if rng.random() < 0.25 else b""
        if which == "main" and rng.random() < 0.2:      # the same file
            out = None
        else:
            out = pre + b"fLaC" + b + audio + post
        if which == "main":
            s.main = out
            at = len(pre) + 4 + len(b)
        else:
            s.data = out
            if s.main is None:
                s.main = out
                at = len(pre) + 4 + len(b)
        s.info[which] = "%d blocks%s%s" % (len(blocks), " id3v2" if pre else "", " id3v1" if post else "")
    s.tracks[1] = audio
    s.offsets[1] = {at}
    return s


def ape(rng, version):
    items = b""
    cnt = rng.randint(0, 3)
    for i in range(cnt):
        v = bytes(rng.choices(b"abcdefgh", k=rng.randint(1, 90)))
        items += L(len(v)) + L(0) + b"Key%d\0" % i + v
    size = len(items) + 32
    foot = b"APETAGEX" + L(version) + L(size) + L(cnt) + L(0x80000000 if version == 2000 else 0) + bytes(8)
    head = b"APETAGEX" + L(version) + L(size) + L(cnt) + L(0xA0000000) + bytes(8)
    return (head if version == 2000 else b"") + items + foot


def lyrics(rng, v):
    if v == 2:
        body = b"LYRICSBEGIN" + b"IND00002" + b"11" + b"LYR" + b"%05d" % 40 + bytes(rng.choices(b"la lo", k=40))
        return body + b"%06d" % len(body) + b"LYRICS200"
    return b"LYRICSBEGIN" + bytes(rng.choices(b"la lo\r\n", k=rng.randint(0, 400))) + b"LYRICSEND"


JUNK = [1, 2, 100, 1000, 65536 - 257, 65536 - 256, 65536 - 255, 65536 - 100, 65535, 65536, 131072 - 300, 131072 - 512]


def mp3(rng, big=False):
    s = Sample("mp3", rng.choice([".mp3", ".mp3", ".MP3"]))
    n = rng.choice([10, 200, 255, 256, 257, 3000, 70000 if big or rng.random() < 0.2 else 9000])
    audio = b"\xff\xfb\x90\x64" + rng.randbytes(n)
    # a broken RIFF-wrapped song
    if rng.random() < 0.08:
        audio = b"RIFF" + L(len(audio) + 36) + b"WAVEfmt " + audio
    for which in ("main", "sample"):
        pre = id3v2(rng) if rng.random() < 0.6 else b""
        if pre and rng.random() < 0.08:
            pre += id3v2(rng)
        post = b""
        tags = []
        if rng.random() < 0.15:
            post += ape(rng, rng.choice([1000, 2000]))
            tags.append("ape")
        if rng.random() < 0.1:
            post += lyrics(rng, 1)
            tags.append("lyrics1")
        if rng.random() < 0.1:
            post += lyrics(rng, 2)
            tags.append("lyrics2")
        if rng.random() < 0.5 or tags:
            post += id3v1(rng)
            tags.append("v1")
        if pre:
            tags.append("v2")
        junk = b""
        if which == "main" and pre and rng.random() < 0.12:
            # something between the tag and the music
            junk = bytes(rng.choices(b"junk\0\r\n. ", k=rng.choice(JUNK) + rng.choice([0, 0, 0, rng.randint(0, 300)])))
            tags.append("junk")
        out = pre + junk + audio + post
        if len(out) < 130:
            out += id3v1(rng)
            tags.append("v1")
        if which == "main" and rng.random() < 0.2:
            out = None
        if which == "main":
            s.main = out
            s.junk = junk
            at = len(pre) + len(junk)
        else:
            s.data = out
            if s.main is None:
                s.main = out
                at = len(pre)
        s.info[which] = "+".join(tags)
    s.tracks[1] = audio
    s.offsets[1] = {at}
    return s


# -- plain streams -------------------------------------------------------------------
def stream(rng, big=False):
    s = Sample("stream", rng.choice([".vob", ".mpg", ".m2ts", ".ts", ".mpeg", ".m2v", ".VOB", ".m2p"]))
    n = rng.choice([20, 255, 256, 257, 5000, 65536, 70000, 140000])
    if not big and n > 70000:
        n = 3000
    data = b"\x00\x00\x01\xba" + rng.randbytes(n)
    a = rng.choice([0, 1, 100, 65536 - len(data), 65536 - 256, 65536 - 100, 65536 - 1, 65536, 65537, 131072 - 50, 131072,
                    rng.randint(0, 200000)])
    a = max(0, a)
    z = rng.choice([0, 1, 100, 70000])
    pre = (b"\x00\x00\x01\xba" + rng.randbytes(a))[:a]
    while data[:SIG] in (pre + data)[:-1] and (pre + data).find(data[:SIG]) != a:
        pre = (b"\x00\x00\x01\xba" + rng.randbytes(a))[:a]
    s.main = pre + data + rng.randbytes(z)
    s.data = data
    s.tracks[1] = data
    s.streams[1] = s.main
    s.offsets[1] = {a}
    s.info.update(at=a % 65536, tail=z)
    return s


MAKERS = dict(avi=avi, mkv=mkv, mp4=mp4, wmv=wmv, flac=flac, mp3=mp3, stream=stream)


def make(rng, fmt=None, big=False):
    fmt = fmt or rng.choice(FORMATS)
    return MAKERS[fmt](rng, big)


# -- using the product ------------------------------------------------------------------
def setup(ctx):
    """let the product find the stand-in for fpcalc"""
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "bin")
    os.environ["PATH"] = d + os.pathsep + os.environ.get("PATH", "")
    ctx.guard.allow_exec.add(os.path.join(d, "fpcalc"))


def stem(rng):
    return rng.choice(["sample", "grp-movie.sample", "A B c", "s\u00e4mple", "x.y.z-sample", "%d.%s", "UPPER",
                       "n" * 100, "[br]"])
