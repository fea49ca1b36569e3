"""Independent RAR 3 writer (store mode), made from the format description.

make_set() returns a RarSet: volumes (name, bytes), and for each volume the list
of parts: ("head", bytes) header bytes kept by an SRR, ("data", bytes) packed file
data, ("rr", bytes) recovery data."""
import struct, zlib

MARKER = b"Rar!\x1a\x07\x00"


def crc16(b):
    return zlib.crc32(b) & 0xFFFF


def block(btype, flags, body, add=b"", crc=None):
    """block header with CRC; add (extra header-less data) is not included"""
    size = 7 + len(body)
    h = struct.pack("<BHH", btype, flags, size) + body
    return struct.pack("<H", crc16(h) if crc is None else crc) + h


def dostime(rng):
    return ((rng.randint(0, 60) << 25) | (rng.randint(1, 12) << 21) | (rng.randint(1, 28) << 16)
            | (rng.randint(0, 23) << 11) | (rng.randint(0, 59) << 5) | rng.randint(0, 29))


def encode_unicode_name(std, uni):
    """RAR 3 encoded unicode name. std: bytes of the 8 bit name"""
    chars = [ord(c) for c in uni]
    high = 0
    for c in chars:
        if c > 0xFF:
            high = (c >> 8) & 0xFF
            break
    out = bytearray([high])
    flags, nflags, pend = 0, 0, bytearray()

    def flush():
        nonlocal flags, nflags, pend
        if nflags:
            out.append(flags << (8 - 2 * nflags) & 0xFF)
            out.extend(pend)
        flags, nflags, pend = 0, 0, bytearray()
    for c in chars:
        if c < 0x100:
            code, data = 0, bytes([c])
        elif c >> 8 == high:
            code, data = 1, bytes([c & 0xFF])
        else:
            code, data = 2, struct.pack("<H", c)
        flags = (flags << 2) | code
        nflags += 1
        pend += data
        if nflags == 4:
            flush()
    flush()
    return std + b"\x00" + bytes(out)


def ext_time(rng):
    """flags word + data; mtime always, others at random"""
    flags, data = 0, b""
    for i, shift in enumerate((12, 8, 4, 0)):
        if i and rng.random() < 0.5:
            continue
        n = rng.randint(0, 3)
        f = 8 | n | (4 if rng.random() < 0.3 else 0)
        flags |= f << shift
        if i:
            data += struct.pack("<I", dostime(rng))
        data += bytes(rng.randrange(256) for _ in range(n))
    return struct.pack("<H", flags) + data


class AFile(object):
    """archived file"""
    def __init__(self, name, data, uni=None, directory=False, method=0x30):
        self.name = name            # str, with / or \ as separator
        self.data = data
        self.directory = directory
        self.uni = uni
        self.method = method
        self.crc = zlib.crc32(data) & 0xFFFFFFFF

    @property
    def os_name(self):
        return self.name.replace("\\", "/")


def file_header(f, part, first, last, crc, opt, rng_state, btype=0x74, extra_flags=0, tail=b""):
    """opt: dict of header options fixed per archived file"""
    flags = 0x8000 | extra_flags
    if opt.get("nolong"):
        flags &= ~0x8000
    if not first:
        flags |= 0x01
    if not last:
        flags |= 0x02
    if f.directory:
        flags |= 0xE0
    else:
        flags |= opt.get("dict", 0)
    if opt.get("solid"):
        flags |= 0x10
    std = f.name.replace("/", "\\").encode("ascii", "replace")
    std = std.replace(b"?", b"_")
    name = std
    if opt.get("unicode"):
        flags |= 0x200
        name = encode_unicode_name(std, f.name.replace("/", "\\"))
    usize = opt.get("usize", len(f.data))
    # two custom packers: the size is only known in the last volume, or never
    if opt.get("packer") == "late" and not last:
        usize = 0xFFFFFFFFFFFFFFFF
    elif opt.get("packer") == "never":
        usize = 0xFFFFFFFF
    body = struct.pack("<IIBIIBBHI", len(part) & 0xFFFFFFFF, usize & 0xFFFFFFFF,
                       opt.get("os", 2), crc, opt["ftime"], opt.get("ver", 20), f.method,
                       len(name), opt.get("attr", 0x20 if not f.directory else 0x10))
    if opt.get("large"):
        flags |= 0x100
        body += struct.pack("<II", len(part) >> 32, usize >> 32)
    body += name
    if opt.get("salt"):
        flags |= 0x400
        body += opt["salt"]
    if opt.get("ext"):
        flags |= 0x1000
        body += opt["ext"]
    body += tail
    return block(btype, flags, body)


def recovery(vol, sectors, new, rng, opt):
    """(header, data) of a recovery record protecting the bytes vol"""
    n = (len(vol) + 511) // 512
    crcs = bytearray()
    par = [bytearray(512) for _ in range(sectors)]
    for i in range(n):
        s = vol[i * 512:(i + 1) * 512]
        s = s + b"\0" * (512 - len(s))
        crcs += struct.pack("<H", ~zlib.crc32(s) & 0xFFFF)
        p = par[i % sectors]
        v = int.from_bytes(p, "big") ^ int.from_bytes(s, "big")
        p[:] = v.to_bytes(512, "big")
    data = bytes(crcs) + b"".join(bytes(p) for p in par)
    if new:
        body = struct.pack("<IIBIIBBHI", len(data), len(data), opt.get("os", 2),
                           zlib.crc32(data, 0xF0000000) & 0xFFFFFFFF, opt["ftime"], 29, 0x30, 2, 0)
        body += b"RR" + b"Protect+" + struct.pack("<IQ", sectors, n)
        return block(0x7A, 0xC000, body), data
    body = struct.pack("<IBHI", len(data), 20, sectors, n) + b"Protect!"
    return block(0x78, 0xC000, body), data


class Volume(object):
    def __init__(self, name):
        self.name = name
        self.parts = []      # (kind, bytes)
        self.files = []      # (AFile, start, length) in this volume

    def add(self, kind, data):
        self.parts.append((kind, data))

    @property
    def data(self):
        return b"".join(d for _, d in self.parts)

    @property
    def skeleton(self):
        """bytes an SRR must hold for this volume: header bytes, without data"""
        return b"".join(d for k, d in self.parts if k == "head")

    @property
    def heads(self):
        return [d for k, d in self.parts if k == "head"]


class RarSet(object):
    def __init__(self):
        self.volumes = []
        self.files = []
        self.opt = {}

    def names(self):
        return [v.name for v in self.volumes]

    def write(self, folder):
        import os
        os.makedirs(folder, exist_ok=True)
        for v in self.volumes:
            with open(os.path.join(folder, v.name), "wb") as f:
                f.write(v.data)

    def sfv(self, order=None):
        vols = list(self.volumes)
        if order:
            order(vols)
        return "".join("%s %08x\r\n" % (v.name, zlib.crc32(v.data) & 0xFFFFFFFF) for v in vols).encode()

    def describe(self):
        return dict(volumes=[(v.name, len(v.data)) for v in self.volumes][:6],
                    nvol=len(self.volumes),
                    files=[(f.name, len(f.data)) for f in self.files], opt=dict(
                        (k, v) for k, v in self.opt.items() if isinstance(v, (int, str, bool, type(None)))))


def volname(base, i, new, digits=2, total=1, upper=False):
    if new:
        n = "%s.part%0*d.rar" % (base, digits, i + 1)
    elif i == 0:
        n = base + ".rar"
    else:
        k = i - 1
        n = "%s.%c%02d" % (base, ord("r") + k // 100, k % 100)
    return n.upper() if upper else n


def pick_files(rng, n=None, size=None, unicode_ok=True, ext=None, prefix=""):
    fs, used = [], set()
    n = n if n is not None else rng.choice([1, 1, 1, 2, 3, 5])
    for i in range(n):
        if size is not None:
            ln = size(rng) if callable(size) else size
        else:
            ln = rng.choice([0, 1, 511, 512, 513, 1000, 4096, 65535, 65536, 65537, 131072,
                             rng.randint(1, 300000)])
        data = rng.randbytes(ln)
        stem = "%sfile%d%s" % (prefix, i, rng.choice(["", "-x", " sp", ".a.b", "[x]"]))
        e = rng.choice(ext or [".avi", ".mkv", ".iso", ".bin", ".dat", "", ".AVI", ".mp4"])
        d = rng.choice(["", "", "", "sub/", "Sub Dir/deep/"])
        nm = d + stem + e
        uni = False
        if unicode_ok and rng.random() < 0.12:
            nm = d + stem + rng.choice(["\u00e9", "\u0416\u0436", "\u4e2d\u6587", "\u00fc\u0416"]) + e
            uni = True
        if nm in used:
            continue
        used.add(nm)
        fs.append(AFile(nm, data, uni=uni))
    if rng.random() < 0.1:
        fs.insert(rng.randint(0, len(fs)), AFile("emptydir%d" % rng.randint(0, 9), b"", directory=True))
    return fs


def odd_block(rng):
    """one of the blocks that only older or unusual archivers write -> bytes kept by an SRR"""
    k = rng.choice(["comment", "av", "sign", "ea", "acl", "stm"])
    data = rng.randbytes(rng.choice([1, 5, 60, 700]))
    if k == "comment":
        return block(0x75, 0, struct.pack("<HBBH", len(data) * 2, 15, 0x33, rng.getrandbits(16)) + data)
    if k == "av":
        return block(0x76, 0, rng.randbytes(7))
    if k == "sign":
        return block(0x79, 0x4000, dostime(rng).to_bytes(4, "little") + struct.pack("<HH", 3, 4) + b"arcuser")
    if k == "ea":
        return block(0x77, 0x8000 | rng.choice([0, 0x4000]), struct.pack("<IHB", len(data), 0x100, 0)
                     + struct.pack("<IBBI", len(data) * 2, 29, 0x33, zlib.crc32(data) & 0xFFFFFFFF)) + data
    body = struct.pack("<IIBIIBBHI", len(data), len(data), 2, zlib.crc32(data) & 0xFFFFFFFF, 0, 29, 0x30, 3, 0)
    return block(0x7A, 0x8000 | rng.choice([0, 0x4000]), body + (b"ACL" if k == "acl" else b"STM")) + data


def make_set(rng, base="rel", files=None, new=None, nvol_hint=None, rr=None, volsize=None, plain=False,
             upper=False, end=None, digits=None, pad=None, solid=False,
             packers=0.08):
    """plain: nothing unusual.  Returns RarSet."""
    s = RarSet()
    if files is None:
        files = pick_files(rng)
    s.files = files
    total = sum(len(f.data) for f in files)
    new = rng.random() < 0.5 if new is None else new
    if nvol_hint is None:
        nvol_hint = rng.choice([1, 2, 2, 3, 4, 7, 12])
    hdr = 150 + 200 * len(files)
    if volsize is None:
        volsize = max(600, total // max(1, nvol_hint) + hdr + rng.randint(0, 700))
    if rr is None:
        rr = rng.choice([None, None, "new", "old"]) if not plain else None
    if end is None:
        end = rng.choice(["full"] * 5 + ["bare"] * 2 + ["none"] * 2 + ["zero"]) if not plain else "full"
    comment = not plain and rng.random() < 0.15
    padlen = (rng.choice([0, 0, 0, 0, 1, 6, 7, 40]) if not plain else 0) if pad is None else pad
    if end in ("none", "zero"):
        padlen = 0
    # (one of them as the last block of a volume: its data is not part of content_hash, see DESIGN.md)
    odd = 0 if plain or end == "none" or rng.random() < 0.9 else rng.choice([0.2, 0.7])
    lock = 0 if plain else rng.choice([0, 0, 4])
    opts = {}
    for f in files:
        o = dict(ftime=dostime(rng), os=rng.choice([0, 2, 3]), ver=rng.choice([20, 29]),
                 attr=rng.choice([0x20, 0x81A4, 0x80]))
        if f.directory:
            o["attr"] = 0x10
        if f.uni:
            o["unicode"] = True
        if not plain:
            if rng.random() < 0.2:
                o["large"] = True
            if rng.random() < 0.3:
                o["ext"] = ext_time(rng)
            if rng.random() < 0.08:
                o["salt"] = rng.randbytes(8)
            o["dict"] = rng.choice([0, 0x20, 0x40, 0x80, 0xC0])
            if rng.random() < 0.06:
                o["nolong"] = True
            if not f.directory and f.data and f.method == 0x30 and rng.random() < packers:
                o["packer"] = rng.choice(["late", "never"])
                o["large"] = o["packer"] == "late"
                f.packer = o["packer"]
        o.update(getattr(f, "header", {}))
        opts[id(f)] = o
    s.opt = dict(new=new, rr=rr, end=end, volsize=volsize, comment=comment, pad=padlen)
    queue = [(f, 0) for f in files]
    vols, i = [], 0
    cmt_data = rng.randbytes(rng.randint(20, 90))
    while queue or not vols:
        v = Volume(None)
        v.add("head", MARKER)
        mf = lock | (0x10 if new else 0) | (0x100 if i == 0 else 0) | (0x40 if rr else 0) | (8 if solid else 0)
        v.mf = mf
        v.add("head", None)          # main header: filled in below
        if comment and i == 0:
            body = struct.pack("<IIBIIBBHI", len(cmt_data), len(cmt_data), 2,
                               zlib.crc32(cmt_data) & 0xFFFFFFFF, 0, 29, 0x30, 3, 0) + b"CMT"
            v.add("head", block(0x7A, 0x8000, body) + cmt_data)
        if rng.random() < odd:
            v.add("head", odd_block(rng))
        used = 20 + sum(len(d) for k, d in v.parts[2:])
        endlen = {"full": 20, "bare": 7, "none": 0, "zero": 20}[end]
        placed = 0
        while queue:
            f, off = queue[0]
            o = opts[id(f)]
            hl = len(file_header(f, b"", True, True, 0, o, None))
            room = volsize - used - hl - endlen
            left = len(f.data) - off
            if room <= 0 and placed:
                break
            room = max(room, 1)
            n = min(left, room)
            if left > n and n < 1:
                break
            last = n == left
            part = f.data[off:off + n]
            crc = f.crc if last else zlib.crc32(part) & 0xFFFFFFFF
            if not last and getattr(f, "nocrc", False):     # RAR 2.0x
                crc = 0xFFFFFFFF
            v.add("head", file_header(f, part, off == 0, last, crc, o, None))
            if part:
                v.add("data", part)
            v.files.append((f, off, n))
            used += hl + n
            placed += 1
            if last:
                queue.pop(0)
                if rng.random() < odd:
                    v.add("head", odd_block(rng))
                    used += len(v.parts[-1][1])
                # a new file may start in the same volume, or in the next one
                if queue and rng.random() < 0.15:
                    break
            else:
                queue[0] = (f, off + n)
                break
        vols.append(v)
        i += 1
    nv = len(vols)
    digits = digits or rng.choice([len(str(nv)), max(2, len(str(nv))), 3]) if new else 2
    for i, v in enumerate(vols):
        mf = v.mf | (1 if nv > 1 else 0)
        v.parts[1] = ("head", block(0x73, mf, b"\0" * 6))
        v.name = volname(base, i, new, digits, nv, upper)
        if rr:
            h, d = recovery(v.data, rng.choice([1, 2, 3, 8]), rr == "new", rng, dict(ftime=dostime(rng)))
            v.add("head", h)
            v.add("rr", d)
        if end == "full":
            more = 1 if i < nv - 1 else 0
            body = struct.pack("<IH", zlib.crc32(v.data) & 0xFFFFFFFF, i) + b"\0" * 7
            v.add("head", block(0x7B, 0x4000 | 2 | 4 | 8 | more, body))
        elif end == "zero":
            # (Haven.S02E05.HDTV.XviD-P0W4) nothing but the size
            v.add("head", b"\0" * 5 + b"\x14" + b"\0" * 14)
        elif end == "bare":
            v.add("head", block(0x7B, 0x4000 | (1 if i < nv - 1 else 0), b""))
        if padlen:
            p = rng.randbytes(padlen)
            v.add("pad", p)
    s.volumes = vols
    return s


def srr_pad_block(p):
    """block an SRR holds for padding bytes"""
    # type 0x6C, LONG_BLOCK flag, CRC 0x6C6C, 4 byte add size
    return struct.pack("<HBHHI", 0x6C6C, 0x6C, 0x8000, 11, len(p)) + p
