"""U01: yEnc decoding returns the posted bytes or an error."""
import contextlib, importlib.util, io, os, zlib
from mon.core import Group, REPO, short

PROPERTY = "U01"
RULE = ("Articles are made by a yEnc encoder of its own (single and multi part, any line length, byte values and optional escapes, "
        "names with spaces, '=' and key words, optional fields, padding lines) and decoded; (good) everything returned is compared with "
        "what was posted; (broken) bytes, lines, sizes and checksums are damaged: an error or the exact data, never other data; "
        "(partial) the first lines only. Non-trivial: an article was decoded; classes: parts, line length, escapes, fields, damage.")
ASSUMPTIONS = ["the article is given as the list of its lines as posted, so a dot at the start of a line is doubled",
               "a checksum is present: without one the article counts as broken",
               "damage is a change CRC32 detects (short bursts) or one that removes data"]


def load():
    p = os.path.join(REPO, "usenet", "yenc.py")
    spec = importlib.util.spec_from_file_location("tool_yenc", p)
    m = importlib.util.module_from_spec(spec)
    with contextlib.redirect_stdout(io.StringIO()):
        spec.loader.exec_module(m)
    return m


yenc = load()
CRIT = {0, 10, 13, 61}


def encode(rng, data, width, more):
    """-> lines; more: the other bytes that get escaped"""
    lines, cur = [], bytearray()
    for b in data:
        e = (b + 42) & 255
        first = not cur
        if e in CRIT or e in more or (first and (e in (9, 32) and more or e == 46 and 46.5 in more)):
            cur += bytes([61, (e + 64) & 255])
        else:
            if first and e == 46:
                cur += b"."             # doubled for the transport
            cur.append(e)
        if len(cur) >= width:
            lines.append(bytes(cur))
            cur = bytearray()
    if cur:
        lines.append(bytes(cur))
    return lines


NAMES = [b"a.rar", b"name with spaces.r00", b"-=DUMMY=- abc.par", b"x part=3.r01", b"total=9 size=1 line=2.nfo", b"crc32=12 =.sfv",
         "t\u00eft\u00eb.rar".encode("utf-8"), b"t\xeft.rar", b'"quoted".rar', b"a  b.r10", b"=yend.txt", b"x" * 180, b"x part= total=.rar"]


def article(rng):
    """-> dict describing a posted article, with its lines"""
    kind = rng.choice(["random", "random", "zero", "crit", "dots", "text"])
    n = rng.choice([1, 2, 127, 128, 129, 500, rng.randint(1, 3000), rng.randint(1, 20000)])
    if kind == "random":
        data = rng.randbytes(n)
    elif kind == "zero":
        data = bytes([rng.choice([0, 214, 19, 224, 227, 4])]) * n
    elif kind == "crit":
        data = bytes(rng.choice([214, 224, 227, 19, 4, 246, 223, 241]) for _ in range(n))
    elif kind == "dots":
        data = bytes(rng.choice([4, 4, 4, 5, 77]) for _ in range(n))
    else:
        data = (b"=yend size=3 crc32=00000000\r\n=ybegin line=1 size=1 name=x\r\n" * (n // 40 + 1))[:n]
    name = rng.choice(NAMES)
    multi = rng.random() < 0.6
    total = rng.randint(1, 40)
    part = rng.randint(1, total)
    full = rng.choice([0, 1, 1000, 123456]) if multi and rng.random() < 0.9 else 0
    begin = full + 1
    end = full + len(data)
    size = end + (rng.choice([0, 1, 70000]) if multi else 0)
    width = rng.choice([1, 2, 63, 64, 128, 128, 254, 997])
    more = set(rng.choice([(), (), (9, 32), (9, 32, 46, 27), (46.5,), tuple(rng.sample(range(256), 8)), (125, 64, 46)]))
    body = encode(rng, data, width, more)
    crc = zlib.crc32(data) & 0xFFFFFFFF
    fmt = rng.choice(["%08x", "%08X", "%x"])
    head = b"=ybegin"
    if multi:
        head += b" part=%d" % part
        if rng.random() < 0.7:
            head += b" total=%d" % total
    head += b" line=%d size=%d name=" % (width, size) + name
    lines = [head]
    if multi:
        lines.append(b"=ypart begin=%d end=%d" % (begin, end))
    lines += body
    if multi:
        tail = b"=yend size=%d part=%d" % (len(data), part)
        tail += (" pcrc32=" + fmt % crc).encode()
        if rng.random() < 0.4:
            tail += b" crc32=%08x" % rng.getrandbits(32)
    else:
        tail = b"=yend size=%d" % len(data) + (" crc32=" + fmt % crc).encode()
    lines.append(tail)
    for _ in range(rng.choice([0, 0, 0, 1, 3])):
        lines.insert(0, b"")
    for _ in range(rng.choice([0, 0, 1, 3])):
        lines.append(b"")
    if rng.random() < 0.1:
        k = next(i for i, l in enumerate(lines) if l)
        lines[k:k] = [b"posted by someone", b""]
    return dict(lines=lines, data=data, name=name, part=part if multi else 1, begin=begin if multi else 1, end=end if multi else len(data),
                size=size, multi=multi, width=width, more=more, kind=kind, body=len(body))


def posted(lines):
    """the number of bytes in body lines"""
    n = 0
    for l in lines:
        i = 1 if l.startswith(b"..") else 0
        while i < len(l):
            i += 2 if l[i] == 61 else 1
            n += 1
    return n


def decode(ctx, lines, *a, **k):
    return ctx.call(yenc.decode, list(lines), *a, **k)


def good(ctx):
    for _ in range(20):
        a = article(ctx.rng)
        ctx.note.update(name=a["name"], head=a["lines"][:3], tail=a["lines"][-2:], n=len(a["data"]))
        ig = ctx.rng.random() < 0.2
        o = decode(ctx, a["lines"], ignore_crc=ig)
        ctx.check(o.exc is None, "a good article is refused: " + o.brief(), "refused")
        r = o.value
        ctx.check(r["data"] == a["data"], "other data than posted (%d bytes, line %d): %s" % (len(a["data"]), a["width"], short(r["data"])), "data")
        got = (r["part_number"], r["part_begin"], r["part_end"], r["part_size"], r["file_size"], r["file_name"])
        ctx.equal(got, (a["part"], a["begin"], a["end"], len(a["data"]), a["size"], a["name"]), "the part, range, size and name")
        ctx.count("good")
        ctx.klass(a["multi"], a["width"], len(a["more"]), a["kind"], a["name"], len(a["data"]) > 1000, ig)


def broken(ctx):
    rng = ctx.rng
    for _ in range(20):
        a = article(rng)
        lines = list(a["lines"])
        at = [i for i, l in enumerate(lines) if l and not l.startswith((b"=y", b"posted"))]
        end = max(i for i, l in enumerate(lines) if l.startswith(b"=yend"))
        how = rng.choice(["flip", "flip", "drop", "droplines", "cut", "crc", "noend", "insert", "nothing", "swap"])
        if how == "flip" and at:
            i = rng.choice(at)
            l = bytearray(lines[i])
            l[rng.randrange(len(l))] ^= 1 << rng.randrange(8)
            lines[i] = bytes(l)
        elif how == "drop" and at:
            i = rng.choice(at)
            k = rng.randrange(len(lines[i]))
            lines[i] = lines[i][:k] + lines[i][k + rng.choice([1, 2, 50]):]
        elif how == "droplines" and at:
            i = rng.choice(at)
            del lines[i:min(end, i + rng.choice([1, 2, 5]))]
        elif how == "cut":
            del lines[rng.randrange(len(lines)):]
        elif how == "crc":
            lines[end] = lines[end].replace(b"crc32=", b"crc32=%x" % rng.randrange(1, 16), 1)
            if rng.random() < 0.5:
                lines[end] = lines[end].split(b" pcrc32")[0].split(b" crc32")[0]
        elif how == "noend":
            del lines[end]
        elif how == "insert" and at:
            lines.insert(rng.choice(at), rng.choice([b"garbage", b".", b"=y", rng.randbytes(30)]))
        elif how == "swap" and len(at) > 1:
            i, j = rng.sample(at, 2)
            lines[i], lines[j] = lines[j], lines[i]
        elif how == "nothing":
            lines = rng.choice([[], [b""], [b"", b""], [lines[0]], [b"no such article"]])
        ctx.note.update(how=how, name=a["name"], n=len(a["data"]))
        o = decode(ctx, lines)
        if o.exc is None:
            head = [l for l in lines if l.startswith(b"=ybegin ")]
            if not head:
                # not yEnc at all: returned as it is, without a name
                ctx.check(isinstance(o.value, dict), "no answer")
                ctx.klass("plain", how)
            else:
                ctx.check(o.value["data"] == a["data"], "damaged article (%s) is returned as good with other data: %d bytes, posted %d" % (
                    how, len(o.value["data"]), len(a["data"])), "accepted")
        ctx.count("broken")
        ctx.count("refused", o.exc is not None)
        ctx.klass("broken", how, a["multi"], o.exc is None, type(o.exc).__name__)


def partial(ctx):
    rng = ctx.rng
    for _ in range(20):
        a = article(rng)
        lines = list(a["lines"])
        while not lines[0].startswith(b"=ybegin"):
            del lines[0]
        while not lines[-1]:
            del lines[-1]
        lines = lines[:rng.randint(2 + a["multi"], max(2 + a["multi"], len(lines) - 1))]
        if lines[-1].startswith(b"=y"):
            continue
        o = decode(ctx, lines, seg_part=True)
        ctx.note.update(name=a["name"], n=len(a["data"]), lines=len(lines))
        ctx.check(o.exc is None, "the first lines of a good article are refused: " + o.brief(), "refused")
        d = o.value["data"]
        ctx.check(d and a["data"].startswith(d), "the first lines decode to other data than posted", "data")
        ctx.equal(len(d), posted(lines[1 + a["multi"]:]), "bytes of the first lines")
        ctx.count("partial")
        ctx.klass("partial", a["multi"], a["width"], len(lines) > 10)


GROUPS = [
    Group("good", good, quick=500, thorough=60000, need={"good": 3000}),
    Group("broken", broken, quick=500, thorough=60000, need={"broken": 3000, "refused": 1500}),
    Group("partial", partial, quick=250, thorough=5000, need={"partial": 500}),
]
