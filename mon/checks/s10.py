"""S10: the container readers report the true structure of a media file."""
import os, struct
from mon import media, rargen
from mon.core import Group, HarnessError, Violation, read, short
from mon.media import vint, L, H, Q, BL, BQ
import resample.riff as riff
import resample.ebml as ebml
import resample.mov as mov
import resample.asf as asf
import resample.flac as flac
import resample.mp3 as mp3
import resample.stream as stream
from resample.main import FileData, sample_class_factory, file_type_info

PROPERTY = "S10"
RULE = ("Files are built element by element with a recorded truth (type, position, length, header, contents, children) and "
        "walked by the real readers - from a path, a stream or RAR volumes - choosing at random at each element to read, read "
        "again, skip or enter it; a monitor compares each step with the truth, and the end. Further, generated samples are "
        "profiled and their totals compared. Non-trivial: a walk of at least one element; classes: container, read mode, source, "
        "the steps taken and the layout features.")
ASSUMPTIONS = ["EBML elements of unknown size are outside of this property"]


class Node(object):
    def __init__(self, kind, start, header, body=None, kids=None, **kw):
        self.kind, self.start, self.header, self.body, self.kids = kind, start, header, body, kids
        self.__dict__.update(kw)


def size(rng):
    return rng.choice([0, 1, 2, 3, 7, 8, 30, rng.randint(0, 300), rng.randint(0, 300), rng.choice([126, 127, 128, 255, 256, 1000, 5000])])


def source(ctx, data, ext=".bin"):
    """-> (keyword arguments for a reader, name of the kind of source)"""
    rng = ctx.rng
    how = rng.choice(["path", "path", "stream", "rar"])
    if how == "rar" and data:
        rs = rargen.make_set(rng, base="rel", files=[rargen.AFile("x" + ext, data)], nvol_hint=rng.choice([1, 2, 4]))
        rs.write(ctx.path("vol"))
        return dict(path=ctx.path("vol", rs.volumes[0].name), archived_file_name="x" + ext), how
    p = ctx.write("x" + ext, data)
    if how == "stream":
        return dict(stream=open(p, "rb")), how
    return dict(path=p), "path"


def same(ctx, what, got, want):
    ctx.check(got == want, "%s: %s, expected %s" % (what, short(got), short(want)), "step")


# -- walker: expects the nodes in order, entering some -------------------------
def walk(ctx, rd, nodes, enter, check, leaf_read, steps):
    for n in nodes:
        o = ctx.call(rd.read)
        ctx.check(o.exc is None, "reading the element at %d failed: %s" % (n.start, o.brief()), "read", info=o.tb[-600:])
        ctx.check(o.value, "the walk ends before the element at %d" % n.start, "end")
        ctx.count("elements")
        check(n)
        if n.kids is not None and ctx.rng.random() < 0.85:
            steps.add("enter")
            enter(n)
            walk(ctx, rd, n.kids, enter, check, leaf_read, steps)
        else:
            k = ctx.rng.choice(["read", "read", "skip", "skip", "twice", "late", "skipskip"])
            steps.add(k)
            o = ctx.call(leaf_read, n, k)
            if isinstance(o.exc, (Violation, HarnessError)):
                raise o.exc
            ctx.check(o.exc is None, "%s of the element at %d failed: %s" % (k, n.start, o.brief()), "read", info=o.tb[-600:])


def leaf(ctx, rd, want):
    def go(n, k):
        w = want(n)
        if k in ("skip", "skipskip", "late"):
            rd.skip_contents()
            if k == "skipskip":
                rd.skip_contents()
        if k in ("read", "twice", "late"):
            same(ctx, "contents of the element at %d" % n.start, rd.read_contents(), w)
            if k == "twice":
                same(ctx, "contents read again at %d" % n.start, rd.read_contents(), w)
    return go


def finish(ctx, rd, o=None):
    o = ctx.call(rd.read)
    ctx.check(o.exc is None and not o.value, "something is read after the end: %s" % o.brief(), "end")
    rd.close()


# -- RIFF -----------------------------------------------------------------------
def gen_riff(rng, at, srs, depth=0):
    out, nodes = b"", []
    for _ in range(rng.randint(1, 5)):
        pos = at + len(out)
        if depth < 3 and rng.random() < (0.9 if depth == 0 else 0.35):
            kind = b"RIFF" if depth == 0 else b"LIST"
            name = rng.choice([b"AVI ", b"hdrl", b"strl", b"movi", b"INFO", b"AVIX"])
            body, kids = gen_riff(rng, pos + 12, srs, depth + 1)
            true = sum(total(k, srs) for k in kids)
            h = kind + L(4 + true) + name
            nodes.append(Node("list", pos, h, body, kids, length=true, fourcc=name, list_type=kind))
            out += h + body
        else:
            name = rng.choice([b"00dc", b"01wb", b"00db", b"02tx", b"99wb", b"JUNK", b"idx1", b"avih", b"strh", b"vprp", b"ISFT", b"SRSF"])
            d = rng.randbytes(size(rng))
            pad = bytes([rng.choice([0, 0, 255, 65])]) if len(d) % 2 else b""
            h = name + L(len(d))
            gone = srs and name[:2].isdigit()
            nodes.append(Node("chunk", pos, h, d, None, length=len(d), fourcc=name, pad=pad, gone=gone))
            out += h + (b"" if gone else d) + pad
    return out, nodes


def total(n, srs):
    if n.kids is not None:
        return 12 + sum(total(k, srs) for k in n.kids)
    return 8 + n.length + len(n.pad)


def do_riff(ctx):
    rng = ctx.rng
    srs = rng.random() < 0.3
    data, nodes = gen_riff(rng, 0, srs)
    kw, src = source(ctx, data, ".avi")
    mode = riff.RiffReadMode.SRS if srs else rng.choice([riff.RiffReadMode.AVI, riff.RiffReadMode.Sample])
    o = ctx.call(riff.RiffReader, mode, **kw)
    ctx.check(o.exc is None, "the reader does not start: " + o.brief(), info=o.tb[-600:])
    rd = o.value
    T = riff.RiffChunkType

    def check(n):
        c = rd.current_chunk
        same(ctx, "chunk", (c.fourcc, c.chunk_start_pos, c.length, c.raw_header), (n.fourcc, n.start, n.length, n.header))
        want = (T.List if n.kind == "list" else T.Movi if n.fourcc[:2].isdigit() else T.Index if n.fourcc == b"idx1" else T.Unknown)
        same(ctx, "type of the chunk at %d" % n.start, rd.chunk_type, want)
        if n.kind == "list":
            same(ctx, "list type", c.list_type, n.list_type)
        else:
            same(ctx, "padding", rd.has_padding, bool(n.pad))
            if want == T.Movi:
                same(ctx, "stream number", c.stream_number, int(n.fourcc[:2]))
    steps = set()

    def leaf_read(n, k):
        if n.kind == "list" and srs:
            rd.move_to_child()      # removed data: the length is not the one on disk
            walk(ctx, rd, n.kids, lambda n: rd.move_to_child(), check, leaf_read, steps)
            return
        if n.kind != "list" and n.gone:     # reading a second time is no use there
            k = "read" if k in ("twice", "late") else k
        leaf(ctx, rd, lambda n: None if n.kind != "list" and n.gone else n.body)(n, k)
        if n.kind != "list" and n.pad:
            same(ctx, "padding byte", rd.padding_byte, n.pad[0])
    walk(ctx, rd, nodes, lambda n: rd.move_to_child(), check, leaf_read, steps)
    finish(ctx, rd)
    ctx.klass("riff", mode, src, *sorted(steps))


# -- EBML ----------------------------------------------------------------------
E = ebml.EbmlID
T = ebml.EbmlElementType
MASTERS = [E.SEGMENT, E.CLUSTER, E.BLOCK_GROUP, E.TRACKLIST, E.TRACK, E.CONTENTENCODINGLIST, E.CONTENTENCODING, E.COMPRESSION,
           E.ATTACHMENT_LIST, E.ATTACHMENT, E.SEEK_HEAD, E.SEEK, E.SEGMENT_INFO, E.RESAMPLE]
# written down from the Matroska specification
TYPES = {b"\x18\x53\x80\x67": T.Segment, b"\x1f\x43\xb6\x75": T.Cluster, b"\xa0": T.BlockGroup, b"\xa1": T.Block, b"\xa3": T.Block,
         b"\x16\x54\xae\x6b": T.TrackList, b"\xae": T.Track, b"\xd7": T.TrackNumber, b"\x86": T.TrackCodec, b"\xe7": T.Timecode,
         b"\x6d\x80": T.ContentEncodingList, b"\x62\x40": T.ContentEncoding, b"\x50\x34": T.Compression,
         b"\x42\x54": T.CompressionAlgorithm, b"\x42\x55": T.CompressionSettings, b"\x19\x41\xa4\x69": T.AttachmentList,
         b"\x61\xa7": T.Attachment, b"\x46\x6e": T.AttachedFileName, b"\x46\x5c": T.AttachedFileData, b"\xbf": T.Crc32,
         b"\x2a\xd7\xb1": T.TimecodeScale, b"\x11\x4d\x9b\x74": T.SeekHead, b"\x4d\xbb": T.Seek, b"\x53\xab": T.SeekID,
         b"\x53\xac": T.SeekPosition, b"\x15\x49\xa9\x66": T.SegmentInfo, b"\x7b\xa9": T.Title, b"\xec": T.Void,
         b"\x1f\x69\x75\x76": T.ReSample, b"\x6a\x75": T.ReSampleFile, b"\x6b\x75": T.ReSampleTrack}
OTHER = [b"\x1a\x45\xdf\xa3", b"\x9f", b"\x83", b"\x73\xc5", b"\x1c\x53\xbb\x6b", b"\x22\xb5\x9c", b"\x44\x7a"]
PLAIN = [k for k in TYPES if k not in MASTERS and TYPES[k] != T.Block]


def lacing(rng):
    """-> (lace flag, lace header, frames)"""
    lace = rng.choice([0, 0, 2, 4, 6])
    if lace == 0:
        return 0, b"", [rng.randbytes(size(rng))]
    n = rng.choice([1, 2, 3, 8, rng.randint(1, 30)])
    if lace == 4:
        s = size(rng)
        return lace, bytes([n - 1]), [rng.randbytes(s) for _ in range(n)]
    frames = [rng.randbytes(rng.choice([0, 1, 100, 254, 255, 256, 509, 510, 511, size(rng)])) for _ in range(n)]
    h = bytes([n - 1])
    if lace == 2:
        for f in frames[:-1]:
            h += b"\xff" * (len(f) // 255) + bytes([len(f) % 255])
    else:
        for i, f in enumerate(frames[:-1]):
            if i == 0:
                h += vint(len(f), rng.choice([None, None, 2, 3]))
            else:
                d = len(f) - len(frames[i - 1])
                for l in range(1, 9):
                    bias = (1 << (7 * l - 1)) - 1
                    if -bias <= d <= bias and (l >= rng.choice([1, 1, 1, 2, 3])):
                        h += vint_raw(d + bias, l)
                        break
    return lace, h, frames


def vint_raw(n, l):
    return ((1 << (7 * l)) | n).to_bytes(l, "big")


def gen_ebml(rng, at, srs, depth=0):
    out, nodes = b"", []
    for _ in range(rng.randint(1 if depth == 0 else 0, 6)):
        pos = at + len(out)
        ln = rng.choice([None, None, None, 1, 2, 3, 4, 5, 6, 7, 8])
        r = rng.random()
        if depth < 4 and r < 0.4:
            ident = rng.choice(MASTERS)
            # the position of the children depends on the length of the header
            l = ln or 4
            body, kids = gen_ebml(rng, pos + len(ident) + l, srs, depth + 1)
            true = sum(k.full for k in kids)
            if true >= (1 << (7 * l)) - 1:
                l2 = 4
                body, kids = gen_ebml(rng, pos + len(ident) + l2, srs, 9)
                true, l = sum(k.full for k in kids), l2
            h = ident + vint_raw(true, l)
            nodes.append(Node("master", pos, h, body, kids, length=true, type=TYPES[ident], full=len(h) + true))
            out += h + body
        elif r < 0.7:
            ident = rng.choice([b"\xa1", b"\xa3"])
            lace, lh, frames = lacing(rng)
            nr = rng.choice([1, 2, 126, 127, 128, 300, 20000, rng.randint(1, 1 << 30)])
            tc = rng.randrange(65536)
            bh = vint(nr, rng.choice([None, None, 2, 3])) + tc.to_bytes(2, "big") + bytes([lace | rng.choice([0, 0x80, 1, 8])]) + lh
            d = b"".join(frames)
            h = ident + vint(len(bh) + len(d), ln)
            nodes.append(Node("block", pos, h, d, None, length=len(d), type=T.Block, nr=nr, tc=tc, frames=[len(f) for f in frames], bh=bh,
                              full=len(h) + len(bh) + len(d)))
            out += h + bh + (b"" if srs else d)
        else:
            ident = rng.choice(PLAIN + OTHER)
            d = rng.randbytes(size(rng))
            h = ident + vint(len(d), ln)
            nodes.append(Node("plain", pos, h, d, None, length=len(d), type=TYPES.get(ident, T.Unknown), full=len(h) + len(d)))
            out += h + d
    return out, nodes


def do_ebml(ctx):
    rng = ctx.rng
    srs = rng.random() < 0.3
    data, nodes = gen_ebml(rng, 0, srs)
    kw, src = source(ctx, data, ".mkv")
    M = ebml.EbmlReadMode
    mode = M.SRS if srs else rng.choice([M.MKV, M.Sample])
    o = ctx.call(ebml.EbmlReader, mode, **kw)
    ctx.check(o.exc is None, "the reader does not start: " + o.brief(), info=o.tb[-600:])
    rd = o.value

    def check(n):
        c = rd.current_element
        same(ctx, "element", (rd.element_type, c.element_start_pos, c.length, bytes(c.raw_header)), (n.type, n.start, n.length, n.header))
        if n.kind == "block":
            same(ctx, "block at %d" % n.start, (c.track_number, c.timecode, list(c.frame_lengths), bytes(c.raw_block_header)),
                 (n.nr, n.tc, n.frames, n.bh))
            ctx.count("blocks")
    steps = set()

    def leaf_read(n, k):
        if n.kids is not None and srs:
            rd.move_to_child()
            walk(ctx, rd, n.kids, lambda n: rd.move_to_child(), check, leaf_read, steps)
            return
        if n.kind == "block" and srs:
            k = "read" if k in ("twice", "late") else k
        leaf(ctx, rd, lambda n: None if n.kind == "block" and srs else n.body)(n, k)
    walk(ctx, rd, nodes, lambda n: rd.move_to_child(), check, leaf_read, steps)
    finish(ctx, rd)
    ctx.klass("ebml", mode, src, *sorted(steps))


def ebml_numbers(ctx):
    rng = ctx.rng
    import io
    for _ in range(40):
        l = rng.randint(1, 8)
        n = rng.choice([0, 1, 126, 127, 128, 16382, 16383, 16384, rng.getrandbits(7 * l)]) % ((1 << (7 * l)) - 1)
        b = vint_raw(n, l)
        same(ctx, "number %d in %d bytes" % (n, l), ctx.call(ebml.GetEbmlUInt, b, 0, l).value, n)
        same(ctx, "length of %r" % b, ctx.call(ebml.GetUIntLength, b[0]).value, l)
        same(ctx, "number in a stream", ctx.call(ebml.GetEbmlUIntStream, io.BytesIO(b + b"x")).value, (n, l))
        c = rng.randbytes(rng.randint(0, 8))
        same(ctx, "contents", ctx.call(ebml.GetEbmlUIntContent, c).value, int.from_bytes(c, "big"))
        m = rng.choice([0, 1, 126, 127, 128, 129, 16382, 16383, 16384, 2097151, 2097152, rng.getrandbits(rng.randint(1, 48))])
        o = ctx.call(ebml.MakeEbmlUInt, m)
        ctx.check(o.exc is None, "making a number failed: " + o.brief())
        e = bytes(o.value)
        same(ctx, "a number made and read", ctx.call(ebml.GetEbmlUIntStream, io.BytesIO(e + b"x")).value, (m, len(e)))
        same(ctx, "id", ctx.call(ebml.GetEbmlElementID, io.BytesIO(b + b"xx")).value, b)
        ctx.count("numbers")
    k = rng.getrandbits(28)
    same(ctx, "ID3 size", ctx.call(mp3.decode_id3_size, bytes(ctx.call(mp3.encode_id3_size, k).value)).value, k)
    same(ctx, "ID3 size bytes", bytes(ctx.call(mp3.encode_id3_size, k).value), bytes([k >> 21 & 127, k >> 14 & 127, k >> 7 & 127, k & 127]))
    ctx.klass("numbers")


# -- MP4 ---------------------------------------------------------------------
def gen_mov(rng, at, srs, depth=0, last=True):
    out, nodes = b"", []
    cnt = rng.randint(1 if depth == 0 else 0, 5)
    for i in range(cnt):
        pos = at + len(out)
        big = rng.random() < 0.2
        hl = 16 if big else 8
        r = rng.random()
        if depth < 3 and r < 0.4:
            name = rng.choice([b"moov", b"trak", b"mdia", b"minf", b"stbl", b"udta"])
            body, kids = gen_mov(rng, pos + hl, srs, depth + 1, False)
            true = sum(k.full for k in kids)
        elif r < 0.6:
            name, kids = b"mdat", None
            body = rng.randbytes(size(rng) + rng.choice([0, 0, 70000]))
            true = len(body)
        elif r < 0.65:
            h = bytes(8)        # eight null bytes: an atom of its own
            nodes.append(Node("null", pos, h, b"", None, size=8, type=bytes(4), full=8))
            out += h
            continue
        else:
            name, kids = rng.choice([b"ftyp", b"free", b"stsz", b"tkhd", b"\xa9nam", b"SRSF", b"wide", b"uuid"]), None
            body = rng.randbytes(size(rng))
            true = len(body)
        gone = srs and name == b"mdat"
        h = (L(0)[:0] + BL(1) + name + BQ(true + 16)) if big else BL(true + 8) + name
        full = true + hl
        if last and depth == 0 and i == cnt - 1 and not big and rng.random() < 0.3 and not srs:
            h = BL(0) + name        # up to the end of the file
        nodes.append(Node("atom", pos, h, body, kids, size=full, type=name, full=full, gone=gone))
        out += h + (b"" if gone else body)
    return out, nodes


def do_mov(ctx):
    rng = ctx.rng
    srs = rng.random() < 0.3
    data, nodes = gen_mov(rng, 0, srs)
    kw, src = source(ctx, data, ".mp4")
    M = mov.MovReadMode
    mode = M.SRS if srs else rng.choice([M.MP4, M.Sample])
    o = ctx.call(mov.MovReader, mode, **kw)
    ctx.check(o.exc is None, "the reader does not start: " + o.brief(), info=o.tb[-600:])
    rd = o.value
    same(ctx, "file length", rd.length(), len(data))
    steps = set()

    def check(n):
        a = rd.current_atom
        same(ctx, "atom", (a.type, a.start_pos, a.size, a.raw_header), (n.type, n.start, n.size, n.header))

    def enter(n):
        rd.move_to_child()

    def leaf_read(n, k):
        if n.kids is not None and srs:
            enter(n)
            walk(ctx, rd, n.kids, enter, check, leaf_read, steps)
        elif n.kind == "atom" and n.gone:
            rd.move_to_child()      # nothing follows the header
        elif n.type == b"mdat" and k in ("read", "twice", "late"):
            if rng.random() < 0.2:
                o = ctx.call(rd.read_contents)
                ctx.check(isinstance(o.exc, NotImplementedError), "mdat read as a whole: " + o.brief())
                rd.read_done = False
            step = rng.choice([65536, 65536, 1, 7, 1000, 70000])
            got = list(rd.read_contents_chunks(step)) if len(n.body) < 5000 or step > 500 else list(rd.read_contents_chunks())
            ctx.check(b"".join(got) == n.body, "the pieces of the mdat at %d are not its contents (%d of %d bytes)" % (
                n.start, sum(map(len, got)), len(n.body)), "step")
        else:
            leaf(ctx, rd, lambda n: n.body)(n, k)
    walk(ctx, rd, nodes, enter, check, leaf_read, steps)
    finish(ctx, rd)
    ctx.klass("mov", mode, src, any(n.header[:4] == bytes(4) for n in nodes), *sorted(steps))


# -- ASF -------------------------------------------------------------------------
def do_asf(ctx):
    rng = ctx.rng
    m = media.make(rng, "wmv")
    which = rng.choice(["main", "sample"])
    data = m.main if which == "main" else m.data
    psize, layout = m.layout[which]
    # an independent list of the objects
    tops, p = [], 0
    while p < len(data):
        g, n = data[p:p + 16], struct.unpack("<Q", data[p + 16:p + 24])[0]
        hl = 30 if g == media.G_HEADER else 50 if g == media.G_DATA else 24
        kids = None
        if g == media.G_HEADER:
            kids, q = [], p + 30
            while q < p + n:
                k = struct.unpack("<Q", data[q + 16:q + 24])[0]
                kids.append(Node("object", q, data[q:q + 24], data[q + 24:q + k], None, size=k, guid=data[q:q + 16]))
                q += k
        tops.append(Node("object", p, data[p:p + hl], data[p + hl:p + n], kids, size=n, guid=g))
        p += n
    kw, src = source(ctx, data, ".wmv")
    M = asf.AsfReadMode
    mode = rng.choice([M.WMV, M.Sample])
    o = ctx.call(asf.AsfReader, mode, **kw)
    ctx.check(o.exc is None, "the reader does not start: " + o.brief(), info=o.tb[-600:])
    rd = o.value
    steps = set()

    def check(n):
        c = rd.current_object
        same(ctx, "object", (c.type, c.start_pos, c.size, c.raw_header), (n.guid, n.start, n.size, n.header))
        if n.guid == media.G_DATA:
            same(ctx, "packets", ctx.call(asf.asf_data_packets, c.raw_header, c.size).value, (len(layout), psize))

    def leaf_read(n, k):
        if n.guid == media.G_DATA and rng.random() < 0.7:
            steps.add("packets")
            at = n.start + 50
            for i, want in enumerate(layout):
                d = rd.read_data_part(at + i * psize, psize)
                pk = asf.AsfDataPacket()
                pk.data, pk.data_file_offset, pk.data_size = d, at + i * psize, len(d)
                o = ctx.call(asf.asf_data_get_packet, pk, psize, mode)
                ctx.check(o.exc is None, "packet %d is not read: %s" % (i, o.brief()), "packet", info=o.tb[-600:])
                same(ctx, "payloads of packet %d" % i, [(x.stream_number, bytes(x.data)) for x in pk.payloads], want)
                ctx.check(all(len(x.data) == x.data_length for x in pk.payloads), "payload length")
                ctx.count("packets")
            rd.skip_contents()
        else:
            leaf(ctx, rd, lambda n: n.body)(n, k)
    walk(ctx, rd, tops, lambda n: rd.move_to_child(), check, leaf_read, steps)
    finish(ctx, rd)
    ctx.klass("asf", mode, src, which, *sorted(steps))


# -- FLAC, MP3, stream SRS ---------------------------------------------------------
def do_flac(ctx):
    rng = ctx.rng
    out, nodes = b"", []

    def add(kind, header, body, **kw):
        nonlocal out
        nodes.append(Node(kind, len(out), header, body, None, **kw))
        out += header + body
    if rng.random() < 0.4:
        t = media.id3v2(rng)
        add("ID3", t[:10], t[10:])
    add("fLaC", b"fLaC", b"")
    cnt = rng.randint(0, 6)
    for i in range(cnt + 1):
        t = 0 if i == 0 else rng.choice([1, 2, 3, 4, 5, 6, 1, 4, ord("s"), ord("u")])
        d = rng.choice([rng.randbytes(size(rng)), b"fLaC" * 9, b"TAG" + bytes(125), b"ID3" * 20, b"\xff" * 9])
        if rng.random() < 0.05:
            d = rng.randbytes(70000)
        h = bytes([t | (0x80 if i == cnt else 0)]) + BL(len(d))[1:]
        if h[:3] in (b"ID3", b"TAG"):
            h = b"\x04" + h[1:]
        add(h[0], h, d)
    frames = rng.random() < 0.9
    if frames:
        add(0xFF, b"", b"\xff\xf8" + rng.randbytes(rng.choice([2, 10, 200, 5000])))
        if rng.random() < 0.4:
            add("TAG", b"", media.id3v1(rng))
    kw, src = source(ctx, out, ".flac")
    o = ctx.call(flac.FlacReader, **kw)
    ctx.check(o.exc is None, "the reader does not start: " + o.brief(), info=o.tb[-600:])
    rd = o.value
    steps = set()

    def check(n):
        b = rd.current_block
        same(ctx, "block", (b.type, b.start_pos, b.size, b.raw_header), (n.kind, n.start, len(n.body), n.header))
        same(ctx, "frame data", bool(b.is_frame_data()), n.kind == 0xFF)
        same(ctx, "last block", bool(b.is_last_block()), isinstance(n.kind, int) and n.kind & 0x80 != 0)
        k, j = rng.randint(0, len(n.body)), rng.randint(0, len(n.body) + 5)
        if rng.random() < 0.4:
            same(ctx, "part", rd.read_part(min(j, len(n.body) - k), k), n.body[k:k + min(j, len(n.body) - k)])
    walk(ctx, rd, nodes, None, check, leaf(ctx, rd, lambda n: n.body), steps)
    finish(ctx, rd)
    ctx.klass("flac", src, cnt, frames, *sorted(steps))


def do_mp3(ctx):
    rng = ctx.rng
    out, nodes = b"", []

    def add(kind, body):
        nonlocal out
        nodes.append((kind, len(out), body))
        out += body
    if rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 1, 2])):
            add("ID3", media.id3v2(rng))
    srs = rng.random() < 0.3
    if srs:
        for k in ("SRSF", "SRST", "SRSP")[:rng.randint(1, 3)]:
            d = rng.choice([rng.randbytes(size(rng)), b"TAG" + bytes(117), bytes(300), b"ID3" * 5])
            add(k, k.encode() + L(8 + len(d)) + d)
    else:
        n = rng.choice([200, 3000, 70000])
        a = rng.choice([b"\xff\xfb\x90\x64", b"\xff\xe3\x00\x00", b"RIFF\x00\x10\x00\x00"]) + rng.randbytes(n)
        if rng.random() < 0.1:      # markers inside of the audio
            p = rng.randrange(4, 150)
            mk = rng.choice([b"TAG", b"ID3", b"LYRICSBEGIN", b"APETAGEX", b"SRSF"])
            a = a[:p] + mk + a[p + len(mk):]
        add("MP3", a)
    if rng.random() < 0.3:
        v = rng.choice([1000, 2000])
        add("APE%d" % v, media.ape(rng, v))
    tail = rng.choice(["", "", "v1", "v2"])
    if nodes[-1][0] == "APE2000" and rng.random() < 0.15:   # a tag of 131 bytes: TAG right at 128 bytes of the end
        tail, k = "", 131 - 64 - 13
        nodes.pop()
        out = out[:nodes[-1][1] + len(nodes[-1][2])]
        f = b"APETAGEX" + L(2000) + L(131 - 32) + L(1)
        add("APE2000", f + L(0xA0000000) + bytes(8) + L(k) + L(0) + b"Key0\0" + bytes(rng.choices(b"ab", k=k)) + f + L(0x80000000) + bytes(8))
    if tail == "v1" and b"LYRICSBEGIN" in out:      # that reads as longer lyrics
        tail = ""
    if tail:
        add("LYRICS" if tail == "v1" else "LYRICS200", media.lyrics(rng, int(tail[1])))
    if rng.random() < 0.5:
        add("TAG", media.id3v1(rng))
    kw, src = source(ctx, out, ".mp3")
    o = ctx.call(mp3.Mp3Reader, **kw)
    ctx.check(o.exc is None, "the reader does not start: " + o.brief(), info=o.tb[-600:])
    rd = o.value
    got = []
    for b in rd.read():
        d = rd.read_contents()
        if b.size:
            k = rng.randrange(b.size)
            j = rng.randint(0, b.size - k)
            same(ctx, "part", rd.read_part(j, k), d[k:k + j])
            o = ctx.call(rd.read_part, b.size - k + 1, k)
            ctx.check(isinstance(o.exc, ValueError), "reading beyond a block: " + o.brief())
        got.append((b.type, b.start_pos, d))
        ctx.count("elements")
    same(ctx, "blocks", [(a, b, len(c)) for a, b, c in got], [(a, b, len(c)) for a, b, c in nodes])
    ctx.check(got == nodes, "contents of the blocks", "step")
    rd.close()
    ctx.klass("mp3", src, srs, *(k for k, _, _ in nodes))


def do_stream(ctx):
    rng = ctx.rng
    out, nodes = b"STRM" + L(8), [("STRM", 0, b"")]
    for _ in range(rng.randint(0, 5)):
        k = rng.choice([b"SRSF", b"SRST", b"HDRS", b"XXXX"])
        d = rng.randbytes(size(rng))
        nodes.append((k.decode() if k != b"XXXX" else k, len(out), d))
        out += k + L(8 + len(d)) + d
    kw, src = source(ctx, out, ".srs")
    o = ctx.call(stream.StreamReader, **kw)
    ctx.check(o.exc is None, "the reader does not start: " + o.brief(), info=o.tb[-600:])
    rd = o.value
    got = []
    for b in rd.read():
        got.append((b.type, b.start_pos, rd.read_contents()))
        ctx.count("elements")
    same(ctx, "blocks", got, nodes)
    rd.close()
    ctx.klass("stream", src, len(nodes))


# -- totals -----------------------------------------------------------------------
def profile(ctx, fmt):
    media.setup(ctx)
    rng = ctx.rng
    m = media.make(rng, fmt, ctx.tier == "thorough" and rng.random() < 0.2)
    for which in ("sample", "main") if m.streams or fmt in ("flac", "mp3") else ("sample",):
        data = m.data if which == "sample" else m.main
        truth = m.tracks if which == "sample" else dict(m.streams or m.tracks)
        if which == "main" and fmt == "mkv" and not set(m.info["main"]) <= set("strip0"):
            continue        # stripped headers are not in the file
        if which == "main" and fmt == "mp3":
            truth[1] = m.junk + truth[1] if m.main is not m.data else truth[1]
        p = ctx.write("%s/x%s" % (which, m.ext), data)
        s = sample_class_factory(file_type_info(p).file_type)
        fd = FileData(file_name=p)
        o = ctx.call(s.profile_sample, fd)
        ctx.note.update(m.describe(), which=which)
        ctx.check(o.exc is None and o.exit is None, "profiling failed: " + o.brief(), "profile", info=o.err[-600:] + o.tb[-900:])
        tr, att = o.value
        import zlib
        same(ctx, "size and checksum", (fd.size, fd.crc32 & 0xFFFFFFFF), (len(data), zlib.crc32(data) & 0xFFFFFFFF))
        want = dict((nr, len(d)) for nr, d in truth.items() if d)
        got = dict((nr, t.data_length) for nr, t in tr.items() if t.data_length)
        if which == "main":     # it may have tracks the sample lacks
            got = dict((nr, n) for nr, n in got.items() if nr in want)
        same(ctx, "track lengths of the %s (%s)" % (which, fmt), got, want)
        for nr in want:
            same(ctx, "signature of track %d" % nr, bytes(tr[nr].signature_bytes[:256]), truth[nr][:len(tr[nr].signature_bytes[:256])])
        ctx.count("profiles")
        ctx.klass("profile", fmt, which, len(want), *("%s=%s" % (k, v) for k, v in sorted(m.info.items()) if not isinstance(v, (list, set))))


GROUPS = [
    Group("riff", do_riff, quick=400, thorough=20000, need={"elements": 3000}),
    Group("ebml", do_ebml, quick=600, thorough=30000, need={"elements": 3000, "blocks": 500}),
    Group("numbers", ebml_numbers, quick=50, thorough=2000, need={"numbers": 1000}),
    Group("mov", do_mov, quick=400, thorough=20000, need={"elements": 1500}),
    Group("asf", do_asf, quick=300, thorough=10000, need={"elements": 1000, "packets": 1000}),
    Group("flac", do_flac, quick=300, thorough=10000, need={"elements": 1200}),
    Group("mp3", do_mp3, quick=300, thorough=10000, need={"elements": 500}),
    Group("stream", do_stream, quick=60, thorough=2000, need={"elements": 60}),
]
GROUPS += [Group("profile-" + f, lambda ctx, f=f: profile(ctx, f), quick=100, thorough=3000, need={"profiles": 100}) for f in media.FORMATS]
