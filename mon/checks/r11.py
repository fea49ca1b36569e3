"""R11: malformed SRR and RAR input is rejected, not mis-read."""
import os, struct
from mon import fuzz, rargen, srrlib, srrparse
from mon.core import Group, files, read, tree
import rescene
import rescene.main as rmain
from rescene import rar, rarstream
from rescene.rar import RarReader

PROPERTY = "R11"
RULE = ("mutations (length fields, truncation, splices, bit flips) of well formed SRR and RAR files, random blocks, and "
        "random bytes, through the block reader and every read-only operation; class = operation, outcome, mutation kinds")
ASSUMPTIONS = ["documented errors are ValueError and EnvironmentError (ArchiveNotFoundError is one); "
               "AttributeError where RarStream documents it"]
OK = (ValueError, EnvironmentError)


def blocks_of(ctx, p, data):
    """run the reader; returns blocks or None when refused"""
    o = ctx.call(lambda: RarReader(p).read_all())
    if not o.ok:
        ctx.check(isinstance(o.exc, OK), "reader gave undocumented %s" % o.brief(), info=o.tb[-1500:])
        return None, o
    return o.value, o


def check_blocks(ctx, blocks, data, mode):
    """in order, without overlap, header within the file, bytes the ones in the file"""
    end = 0
    ctx.check(len(blocks) <= len(data) // 7 + 1, "more blocks than fit in the input")
    for b in blocks:
        pos, size = b.block_position, b.header_size
        ctx.check(pos >= end, "block at %d overlaps the previous one (ends at %d)" % (pos, end))
        if b.rawtype == 0x6C and mode == "rar" and b.block_bytes()[:size] != data[pos:pos + size]:
            # made up for padding: the header isn't in the file
            ctx.equal(b.block_bytes()[11:], data[pos:], "padding bytes")
            end = len(data)
            continue
        ctx.check(size >= 7 and pos + size <= len(data), "block header %d+%d is not within the %d bytes" % (pos, size, len(data)))
        h = data[pos:pos + size]
        ctx.check(b.block_bytes()[:size] == h, "header bytes of the block at %d are not those of the file" % pos)
        crc, typ, flags, sz = struct.unpack_from("<HBHH", h)
        ctx.equal((b.crc, b.rawtype, b.flags, b.header_size), (crc, typ, flags, sz), "base fields of the block at %d" % pos)
        rest = b.block_bytes()[size:]
        ctx.check(rest == data[pos + size:pos + size + len(rest)], "data of the block at %d" % pos)
        end = pos + size + len(rest)
        ctx.count("blocks")


def base_file(ctx):
    rng = ctx.rng
    kind = rng.choice(["srr", "srr", "rar"])
    if kind == "srr":
        data = srrlib.ref_srr(ctx)[0]
        offs, pos = [], 0
        for k in srrparse.Srr(data).blocks:
            offs.append(data.index(k.head, pos))
            pos = offs[-1] + len(k.head)
    else:
        s = rargen.make_set(rng, files=rargen.pick_files(rng, size=lambda g: g.choice([0, 1, 50, 900, 4000])),
                            nvol_hint=rng.choice([1, 2, 3]))
        v = rng.choice(s.volumes)
        data = v.data
        offs, pos = [], 0
        for k, d in v.parts:
            if k == "head":
                offs.append(pos)
            pos += len(d)
    return kind, data, offs


def ops_for(ctx, p):
    out = ctx.path("out")
    return [
        ("info", lambda: rescene.info(p)),
        ("hash", lambda: rmain.content_hash(p)),
        ("details", lambda: rescene.print_details(p)),
        ("list", lambda: RarReader(p).list_files()),
        ("sfx", lambda: RarReader(p, enable_sfx=True).read_all()),
        ("extract", lambda: rescene.extract_files(p, out)),
        ("stream", lambda: rarstream.RarStream(p).read(1000)),
    ]


def mutated(ctx):
    rng = ctx.rng
    kind, data, offs = base_file(ctx)
    for i in range(6):
        bad, ops = fuzz.mutate(rng, data, offs)
        if rng.random() < 0.1:
            bad, ops = data, ["none"]
        one_input(ctx, bad, ops, kind)


def one_input(ctx, bad, ops, kind):
    p = ctx.write("in.srr" if kind == "srr" else "in.rar", bad)
    st = os.stat(p)
    ctx.note["ops"] = ops
    ctx.note["data"] = bad[:3000]
    blocks, o = blocks_of(ctx, p, bad)
    res = "blocks" if blocks is not None else type(o.exc).__name__
    ctx.klass("read", kind, res, sorted(set(x[0] for x in ops)))
    ctx.count("accepted" if blocks is not None else "refused")
    t = bad[2] if len(bad) > 2 else None
    if len(bad) < 20 or t not in (0x72, 0x69):
        ctx.check(blocks is None, "accepted although the first block is no marker or SRR header")
        ctx.count("broken_first")
    if blocks is not None:
        check_blocks(ctx, blocks, bad, "srr" if t == 0x69 else "rar")
        # once more, with the same result; also block by block
        again = ctx.must(lambda: [b.block_bytes() for b in RarReader(p)])
        ctx.equal(again, [b.block_bytes() for b in blocks], "reading again")
    for name, fn in ops_for(ctx, p):
        o = ctx.call(fn)
        if not o.ok:
            good = isinstance(o.exc, OK) or name == "stream" and isinstance(o.exc, AttributeError)
            ctx.check(good, "%s gave undocumented %s" % (name, o.brief()), info=o.tb[-1500:])
        if blocks is None and t in (0x69, 0x72) and name in ("info", "hash", "details"):
            ctx.check(not o.ok, "%s accepts what the block reader refuses" % name)
        ctx.klass(name, type(o.exc).__name__ if o.exc else "ok")
        ctx.count("operations")
    ctx.equal(read(p), bad, "the input after read-only operations")
    st2 = os.stat(p)
    ctx.equal((st2.st_mtime_ns, st2.st_size, st2.st_ino), (st.st_mtime_ns, st.st_size, st.st_ino), "the input file")
    ctx.sample(dict(kind=kind, size=len(bad), ops=ops, outcome=res))


def randomb(ctx):
    """random bytes, with and without a good start, and random blocks"""
    rng = ctx.rng
    for _ in range(6):
        n = rng.choice([0, 1, 6, 7, 8, 13, 19, 20, 21, 64, 300, 2000])
        how = rng.choice(["bytes", "start", "rarstart", "blocks", "rar5", "zeros"])
        if how == "bytes":
            b = rng.randbytes(n)
        elif how == "zeros":
            b = bytes(n)
        elif how == "rar5":
            b = b"Rar!\x1a\x07\x01\x00" + rng.randbytes(n)
        elif how == "start":
            b = b"ii\x69\x00\x00\x07\x00" + rng.randbytes(n)
        elif how == "rarstart":
            b = rargen.MARKER + rng.randbytes(n)
        else:
            b = rng.choice([b"ii\x69\x00\x00\x07\x00", rargen.MARKER])
            for _ in range(rng.randint(1, 6)):
                t = rng.choice([0x69, 0x6A, 0x6B, 0x6C, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7A, 0x7B, rng.randrange(256)])
                body = rng.randbytes(rng.choice([0, 1, 4, 5, 6, 13, 25, 32, 50]))
                fl = rng.choice([0, 1, 0x8000, 0x8000, 0x9000, 0x8100, 0x8200, 0x8400, rng.getrandbits(16)])
                if rng.random() < 0.6 and len(body) >= 4:
                    body = struct.pack("<I", rng.choice([0, 1, 5, 30])) + body[4:]
                size = 7 + len(body)
                if rng.random() < 0.1:
                    size = rng.choice([0, 3, 6, 7, 8, 0xFFFF])
                b += struct.pack("<HBHH", rng.choice([t * 0x101, rng.getrandbits(16)]), t, fl, size) + body
                b += rng.randbytes(rng.choice([0, 0, 1, 5, 30]))
        one_input(ctx, b, [(how, n)], "srr" if rng.random() < 0.5 else "rar")


def truncated(ctx):
    """every prefix of a file (thorough: all, quick: sampled around the block limits)"""
    rng = ctx.rng
    kind, data, offs = base_file(ctx)
    cuts = set()
    for o in offs:
        cuts.update([o - 1, o, o + 1, o + 6, o + 7, o + 8])
    cuts.update(rng.randrange(len(data)) for _ in range(10))
    cuts = sorted(c for c in cuts if 0 <= c < len(data))
    if len(cuts) > 30:
        cuts = sorted(rng.sample(cuts, 30))
    whole = [b.block_bytes() for b in RarReader(ctx.write("whole." + kind, data)).read_all()]
    for c in cuts:
        p = ctx.write("t." + kind, data[:c])
        ctx.note["cut"] = c
        blocks, o = blocks_of(ctx, p, data[:c])
        if blocks is None:
            ctx.count("cut_refused")
        else:
            check_blocks(ctx, blocks, data[:c], kind)
            got = [b.block_bytes() for b in blocks]
            n = len(got)
            # the last one may be short: its data ran past the end
            ctx.check(got[:n - 1] == whole[:n - 1] and whole[n - 1].startswith(got[-1]) or data[:c][-0:] == b"x" or
                      kind == "rar" and got[:n - 1] == whole[:n - 1],
                      "cut at %d: the blocks read are not those of the file" % c)
            ctx.count("cut_accepted")
    ctx.klass(kind, len(cuts), len(offs).bit_length())


def edits(ctx):
    """operations that write refuse a broken SRR and leave it alone"""
    rng = ctx.rng
    data = srrlib.ref_srr(ctx, nstored=2)[0]
    names = [n for n, _ in srrparse.Srr(data).stored]
    how = rng.choice(["first", "trunc"])
    if how == "first":
        b = bytearray(data)
        b[2] = rng.choice([0, 0x6A, 0x71, 0x73, 0xFF])
        bad = bytes(b)
    else:
        bad = data[:rng.randrange(0, 19)]
    p = ctx.write("x.srr", bad)
    src = ctx.write("new.nfo", b"new")
    for name, fn in [("add", lambda: rescene.add_stored_files(p, [src])),
                     ("remove", lambda: rescene.remove_stored_files(p, names[:1])),
                     ("rename", lambda: rescene.rename_stored_file(p, names[0], "q.nfo")),
                     ("reconstruct", lambda: rescene.reconstruct(p, ctx.mkdir("in"), ctx.mkdir("out"))),
                     ("merge", lambda: rescene.merge_srrs([p, p], ctx.path("m.srr")))]:
        o = ctx.call(fn)
        ctx.check(not o.ok, "%s accepts a file with a broken first block" % name)
        ctx.check(isinstance(o.exc, OK + (rmain.NotSrrFile,)), "%s gave undocumented %s" % (name, o.brief()))
        ctx.equal(read(p), bad, "the broken file after %s" % name)
        ctx.klass(name, how)
        ctx.count("edits_refused")
    ctx.check(not files(ctx.path("out")), "reconstruction of a broken file wrote something")


GROUPS = [Group("mutated", mutated, 500, 15000, {"blocks": 2000, "accepted": 200, "refused": 200}, cpu=20),
          Group("random", randomb, 300, 8000, {"broken_first": 100}, cpu=20),
          Group("truncated", truncated, 100, 2000, {"cut_refused": 100}, cpu=20),
          Group("edits", edits, 60, 800, {"edits_refused": 100}, cpu=20)]
