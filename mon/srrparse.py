"""Independent reader for SRR files (and RAR header chains), from the format
description only.  Raises ParseError."""
import struct


class ParseError(Exception):
    pass


class Blk(object):
    __slots__ = ("type", "flags", "head", "pos", "data", "name", "size", "hash", "app", "crc", "info")

    def __init__(self, **kw):
        for s in self.__slots__:
            setattr(self, s, kw.get(s))

    def __repr__(self):
        return "<%#x @%d %s>" % (self.type, self.pos, self.name or "")


def parse_file_head(h):
    """fields of a RAR file / newsub header"""
    (pack, unp, os_, crc, ftime, ver, method, nlen, attr) = struct.unpack_from("<IIBIIBBHI", h, 7)
    flags = struct.unpack_from("<H", h, 3)[0]
    p = 32
    if flags & 0x100:
        hp, hu = struct.unpack_from("<II", h, p)
        pack += hp << 32
        unp += hu << 32
        p += 8
    name = h[p:p + nlen]
    return dict(pack=pack, unp=unp, crc=crc, method=method, name=name, flags=flags, attr=attr, end=p + nlen)


def parse_srr(b, check_crc=True):
    """list of Blk; every byte of b belongs to exactly one block"""
    out, pos = [], 0
    in_rar = False
    removed = True
    if len(b) < 7:
        raise ParseError("too small")
    while pos < len(b):
        if pos + 7 > len(b):
            raise ParseError("%d stray bytes at %d" % (len(b) - pos, pos))
        crc, t, flags, size = struct.unpack_from("<HBHH", b, pos)
        if size < 7 or pos + size > len(b):
            raise ParseError("bad header size %d at %d (type %#x)" % (size, pos, t))
        h = b[pos:pos + size]
        k = Blk(type=t, flags=flags, head=h, pos=pos, data=b"", crc=crc)
        add = 0
        if t == 0x69:
            if pos != 0:
                raise ParseError("header block at %d" % pos)
            k.app = None
            if flags & 1:
                n = struct.unpack_from("<H", h, 7)[0]
                k.app = h[9:9 + n].decode("utf-8")
                if size != 9 + n:
                    raise ParseError("app name length")
            elif size != 7:
                raise ParseError("header size")
            if crc != 0x6969:
                raise ParseError("srr header crc field")
        elif t == 0x6A:
            if crc != 0x6A6A:
                raise ParseError("stored crc field")
            if not flags & 0x8000:
                raise ParseError("stored file without size flag")
            add, n = struct.unpack_from("<IH", h, 7)
            if size != 13 + n:
                raise ParseError("stored name length at %d" % pos)
            k.name = h[13:13 + n].decode("utf-8")
        elif t == 0x71:
            if crc != 0x7171:
                raise ParseError("rar file crc field")
            n = struct.unpack_from("<H", h, 7)[0]
            if size != 9 + n:
                raise ParseError("rar name length at %d" % pos)
            k.name = h[9:9 + n].decode("utf-8")
            in_rar = True
            removed = bool(flags & 1)
        elif t == 0x6B:
            if crc != 0x6B6B:
                raise ParseError("hash crc field")
            k.size, k.hash, n = struct.unpack_from("<QQH", h, 7)
            if size != 25 + n:
                raise ParseError("hash name length at %d" % pos)
            k.name = h[25:25 + n].decode("utf-8")
        elif t == 0x6C:
            add = struct.unpack_from("<I", h, 7)[0]
            if size != 11:
                raise ParseError("padding header size")
        elif 0x72 <= t <= 0x7B:
            if not in_rar:
                raise ParseError("RAR block before a volume name at %d" % pos)
            if t in (0x74, 0x7A):
                k.info = parse_file_head(h)
                rr = t == 0x7A and k.info["name"] == b"RR"
                if t == 0x7A and not (rr and removed):
                    add = k.info["pack"]
            elif t == 0x78:
                add = 0 if removed else struct.unpack_from("<I", h, 7)[0]
            elif flags & 0x8000 and t != 0x72:
                add = struct.unpack_from("<I", h, 7)[0]
        elif t == 0 and size == 20 and in_rar and not any(h[7:]):
            pass  # end block with nothing but its size (P0W4)
        else:
            raise ParseError("unknown block type %#x at %d" % (t, pos))
        if pos + size + add > len(b):
            raise ParseError("data of block at %d runs past the end" % pos)
        k.data = b[pos + size:pos + size + add]
        out.append(k)
        pos += size + add
    if not out or out[0].type != 0x69:
        raise ParseError("no SRR header")
    return out


class Srr(object):
    """structure of an SRR for the oracles"""
    def __init__(self, b):
        self.bytes = b
        self.blocks = parse_srr(b)
        self.app = self.blocks[0].app
        self.stored = [(k.name, k.data) for k in self.blocks if k.type == 0x6A]
        self.oso = [(k.name, k.size, k.hash) for k in self.blocks if k.type == 0x6B]
        self.volumes = []            # (name, bytes of all RAR blocks of it)
        self.pads = []
        cur = None
        for k in self.blocks:
            if k.type == 0x71:
                cur = [k.name, b"", k.flags, b""]
                self.volumes.append(cur)
            elif k.type == 0 or 0x72 <= k.type <= 0x7B:
                cur[1] += k.head + k.data
            elif k.type == 0x6C:
                cur[3] += k.data
        self.order = [k.type for k in self.blocks]

    @property
    def skeleton(self):
        """everything but header and stored files, byte for byte"""
        return b"".join(k.head + k.data for k in self.blocks if k.type not in (0x69, 0x6A))

    def stored_first(self):
        """stored files come directly after the header"""
        seen = False
        for k in self.blocks[1:]:
            if k.type == 0x6A and seen:
                return False
            if k.type != 0x6A:
                seen = True
        return True


def build(app, stored, skeleton):
    """an SRR as bytes (reference writer)"""
    out = b""
    if app:
        a = app.encode("utf-8")
        out += struct.pack("<HBHHH", 0x6969, 0x69, 1, 9 + len(a), len(a)) + a
    else:
        out += struct.pack("<HBHH", 0x6969, 0x69, 0, 7)
    for n, d in stored:
        out += stored_block(n, d)
    return out + skeleton


def stored_block(n, d):
    n = n.encode("utf-8")
    return struct.pack("<HBHHIH", 0x6A6A, 0x6A, 0x8000, 13 + len(n), len(d), len(n)) + n + d


def rarname_block(n, flags=1):
    n = n.encode("utf-8")
    return struct.pack("<HBHHH", 0x7171, 0x71, flags, 9 + len(n), len(n)) + n


def oso_block(n, size, h):
    n = n.encode("utf-8")
    return struct.pack("<HBHHQQH", 0x6B6B, 0x6B, 0, 25 + len(n), size, h, len(n)) + n


def pad_block(p):
    return struct.pack("<HBHHI", 0x6C6C, 0x6C, 0x8000, 11, len(p)) + p


def oso_hash(data):
    """OpenSubtitles hash; None if not defined"""
    n = len(data)
    if n < 65536:
        return None
    s = n + sum(struct.unpack("<8192Q", data[:65536])) + sum(struct.unpack("<8192Q", data[-65536:]))
    return s & 0xFFFFFFFFFFFFFFFF
