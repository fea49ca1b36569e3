"""A stand-in for the (proprietary) RAR executables of all versions.

It takes the command line rar takes, is as picky about it as the version it plays
(-ma4, -vn, -mt range), and writes RAR 3 volumes in which the data is "compressed"
in a way that depends on the version, level, dictionary, threads and, for solid
archives, on the files before: like with the real ones, only the right version with
the right parameters makes the same packed data.  Standard library only."""
import hashlib, os, struct, sys, zlib

BLOCK = 4096


def pack(data, ver, level, dic, threads, before=b"", extra=0):
    """the packed data of a file.  before: data of the earlier files of a solid archive
    extra: versions and thread counts make other sizes"""
    key = hashlib.sha1(repr((ver, level, dic, threads)).encode() + hashlib.sha1(before).digest()).digest()
    out = []
    for i in range(0, len(data), BLOCK):
        c = zlib.compress(data[i:i + BLOCK], level)
        k = hashlib.shake_128(key + struct.pack("<I", i)).digest(len(c))
        out.append((int.from_bytes(c, "big") ^ int.from_bytes(k, "big")).to_bytes(len(c), "big"))
    out.append((key * 40)[:40 * extra + threads])
    return b"".join(out)


def block(btype, flags, body):
    h = struct.pack("<BHH", btype, flags, 7 + len(body)) + body
    return struct.pack("<H", zlib.crc32(h) & 0xFFFF) + h


def volumes(path, files, method, dic, solid, split):
    """files: [(name, data, packed)]"""
    todo = [(n, d, p, 0) for n, d, p in files]
    i = 0
    while todo or not i:
        name = path if not i else path[:-4] + ".r%02d" % (i - 1)
        room = split or 1 << 40
        body, used = b"", 40
        while todo:
            n, d, p, off = todo[0]
            hl = 32 + len(n)
            if used + hl + 1 > room and body:
                break
            part = p[off:off + max(1, room - used - hl)]
            last = off + len(part) == len(p)
            fl = 0x8000 | dic | (1 if off else 0) | (0 if last else 2) | (0x10 if solid and (i or body or off) else 0)
            crc = zlib.crc32(d if last else part) & 0xFFFFFFFF
            body += block(0x74, fl, struct.pack("<IIBIIBBHI", len(part), len(d), 2, crc, 0x40000000, 29, method,
                                                len(n), 0x20) + n) + part
            used += hl + len(part)
            if last:
                todo.pop(0)
            else:
                todo[0] = (n, d, p, off + len(part))
                break
        mf = (1 if split else 0) | (0x100 if not i else 0) | (8 if solid else 0)
        with open(name, "wb") as f:
            f.write(b"Rar!\x1a\x07\x00" + block(0x73, mf, bytes(6)) + body + block(0x7B, 0x4000 | (1 if todo else 0), b""))
        i += 1


def run(argv, ver, extra, mt, badmt=()):
    """ver: (major, minor); mt: this version has a thread switch; badmt: thread counts that fail"""
    if not argv:
        sys.stdout.write("Usage: rar <command> -<switch 1> ... <archive>\n" + ("  mt<threads>   Set the number of threads\n" if mt else ""))
        return 0
    if argv[0] != "a":
        return 7
    o = dict(level=None, dic=None, solid=None, threads=0, split=0)
    rest = []
    for a in argv[1:]:
        if rest or not a.startswith("-"):
            rest.append(a)
        elif a[:2] == "-m" and a[2:] in list("12345"):
            o["level"] = int(a[2])
        elif a[:3] == "-md" and a[3:] in list("ABCDEFG"):
            o["dic"] = "ABCDEFG".index(a[3]) * 0x20
        elif a == "-ma4" and ver[0] >= 5:
            o["ma4"] = True
        elif a[:3] == "-mt" and mt and a[3:].isdigit():
            n = int(a[3:])
            if not (1 <= n <= 32 if ver >= (4, 20) else 0 <= n <= 16):
                return 7
            o["threads"] = n
        elif a in ("-s", "-s-"):
            o["solid"] = a == "-s"
        elif a == "-vn" and ver[0] > 2:
            o["vn"] = True
        elif a[:2] == "-v" and a[-1] == "b" and a[2:-1].isdigit():
            o["split"] = int(a[2:-1])
        elif a not in ("-ds", "-o+", "-ep", "-idcd"):
            return 7
    if len(rest) < 2 or o["level"] is None or o["dic"] is None or o["solid"] is None:
        return 7
    if ver[0] >= 5 and not o.get("ma4"):
        with open(rest[0], "wb") as f:
            f.write(b"Rar!\x1a\x07\x01\x00" + bytes(40))
        return 0
    if ver[0] > 2 and not o.get("vn"):
        return 7                # (would name the volumes .partN.rar)
    files, seen, before = [], set(), b""
    for p in rest[1:]:
        if p in seen:
            continue
        seen.add(p)
        with open(p, "rb") as f:
            d = f.read()
        if mt and o["threads"] == 0:
            o["threads"] = 1
        files.append((os.path.basename(p).encode("latin-1"), d,
                      pack(d, ver, o["level"], o["dic"], o["threads"], before if o["solid"] else b"", extra)))
        before += d
    volumes(rest[0], files, 0x30 + o["level"], o["dic"], o["solid"], o["split"])
    return 0


def make_exe(folder, name, ver, extra, mt):
    p = os.path.join(folder, name)
    with open(p, "w") as f:
        f.write("#!%s -SE\nimport sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, %r)\nimport fakerar\n"
                "sys.exit(fakerar.run(sys.argv[1:], %r, %r, %r))\n" % (
                    sys.executable, os.path.dirname(os.path.abspath(__file__)), ver, extra, mt))
    os.chmod(p, 0o755)
    return p
