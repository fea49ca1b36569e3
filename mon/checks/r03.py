"""R03 wrong source data never passes silently."""
import os
from mon import rargen, srrlib
from mon.core import Group, files, read, tree
from mon.srrlib import rescene, MsgCode

PROPERTY = "R03"
RULE = ("random releases; the archived files offered for reconstruction are damaged (absent, shorter, longer, a byte "
        "flipped at a boundary or anywhere, two files swapped), renamed with hints or hidden in sub folders. The "
        "oracle compares the written volumes with the originals and requires an error or a checksum report when "
        "they differ. Distinct: damage kind x position class x layout")


def good(ctx, r, out, sp):
    got = files(out)
    want = dict((n, v.data) for n, v in r.expected_volumes(sp))
    return got == want


def verdict(ctx, r, o, ev, out, sp, must_fail, what):
    """the rule: silent success only over identical volumes"""
    ctx.count("verdicts")
    loud = (not o.ok) or o.value not in (None, True, 0) or ev.has(MsgCode.CRC)
    if must_fail:
        ctx.check(loud, "%s: reconstruction finished without an error or checksum message" % what)
        ctx.count("failures_reported")
    elif not loud:
        ctx.check(good(ctx, r, out, sp), "%s: silent success over volumes that differ" % what)
        ctx.count("silent_and_identical")
    return loud


def setup(ctx, **kw):
    r = srrlib.release(ctx, nsets=ctx.rng.choice([1, 1, 2]), paths=False, packers=0, sfv=ctx.rng.random() < 0.5, **kw)
    names = [n for n, _ in r.expected_volumes(False)]
    sp = True
    srr = srrlib.make_srr(ctx, r, sp)
    src, out = ctx.mkdir("in"), ctx.mkdir("out")
    r.write_archived(src)
    ctx.note["release"] = r.describe()
    return r, sp, srr, src, out


def damage(ctx):
    rng = ctx.rng
    r, sp, srr, src, out = setup(ctx)
    arch = r.archived()
    kind = rng.choice(["missing", "short", "long", "flip", "flip", "flip", "flip", "edge", "swap", "empty"])
    name = rng.choice(sorted(arch))
    data = arch[name]
    p = os.path.join(src, name)
    pos = None
    if kind == "missing":
        os.unlink(p)
    elif kind == "short":
        if not data:
            return
        data = data[:-rng.choice([1, len(data), min(len(data), 512)])]
    elif kind == "long":
        data += rng.randbytes(rng.choice([1, 100]))
    elif kind == "empty":
        if not data:
            return
        data = b""
    elif kind in ("flip", "edge"):
        if not data:
            return
        pos = rng.randrange(len(data))
        if kind == "edge":      # first or last byte in a volume
            ch = [x for _, s in r.sets for v in s.volumes for f, a, n in v.files
                  if f.os_name == name and n for x in (a, a + n - 1)]
            pos = rng.choice(ch)
        b = bytearray(data)
        b[pos] ^= 1 << rng.randrange(8)
        data = bytes(b)
    elif kind == "swap":
        other = [n for n in arch if n != name and arch[n] != data]
        if not other:
            return
        data = arch[rng.choice(other)]
    if kind != "missing":
        with open(p, "wb") as f:
            f.write(data)
    ev = srrlib.subscribe()
    ctx.note["damage"] = (kind, name, pos)
    o = ctx.call(rescene.reconstruct, srr, src, out, sp, extract_files=False)
    verdict(ctx, r, o, ev, out, sp, True, "%s %s" % (kind, name))
    if kind in ("missing", "short", "long", "empty") or (kind == "swap" and len(data) != len(arch[name])):
        ctx.check(not o.ok, "%s source file is no error: %s" % (kind, o.brief()))
        ctx.check(os.path.basename(name) in str(o.exc), "the error does not name the file: %s" % o.exc)
    else:
        ctx.check(ev.has(MsgCode.CRC) or not o.ok, "changed content is not reported")
    ctx.klass(kind, len(r.sets), r.sets[0][1].opt["new"], min(3, len(r.sets[0][1].volumes)),
              None if pos is None else (pos == 0, pos == len(data) - 1), min(3, len(arch)))
    ctx.sample(dict(kind=kind, name=name, pos=pos, outcome=o.brief()))


def hints(ctx):
    """renamed sources given by hints; a hint to a wrong file never passes"""
    rng = ctx.rng
    r, sp, srr, src, out = setup(ctx)
    arch = r.archived()
    name = rng.choice(sorted(arch))
    wrong = rng.random() < 0.5
    key = [f.name for _, s in r.sets for f in s.files if f.os_name == name][0].replace("/", "\\")
    new = rng.choice(["renamed.bin", "other dir/x.mkv"])
    os.makedirs(os.path.dirname(os.path.join(src, new)) or src, exist_ok=True)
    os.rename(os.path.join(src, name), os.path.join(src, new))
    if wrong:
        d = bytearray(arch[name])
        if not d:
            return
        if rng.random() < 0.3:
            d = d[:-1]
        else:
            d[rng.randrange(len(d))] ^= 0xFF
        with open(os.path.join(src, new), "wb") as f:
            f.write(d)
    ev = srrlib.subscribe()
    o = ctx.call(rescene.reconstruct, srr, src, out, sp, hints={key: new}, extract_files=False)
    verdict(ctx, r, o, ev, out, sp, wrong, "hint")
    if not wrong:
        ctx.check(o.ok and not ev.has(MsgCode.CRC), "a right file under a hinted name is refused: " + o.brief())
        ctx.check(good(ctx, r, out, sp), "hinted reconstruction differs from the original")
        ctx.count("hinted_ok")
    ctx.klass("hint", wrong, len(arch) > 1, r.sets[0][1].opt["new"])


def locate(ctx):
    """auto locate: renamed and moved sources, with decoys of other sizes"""
    rng = ctx.rng
    r, sp, srr, src, out = setup(ctx, size=lambda g: g.randint(50, 60000))
    arch = r.archived()
    if len(set(len(d) for d in arch.values())) != len(arch):
        return
    name = rng.choice(sorted(arch))
    kind = rng.choice(["moved", "moved", "decoy", "gone"])
    os.unlink(os.path.join(src, name))
    ext = os.path.splitext(name)[1]
    if kind == "moved":
        ctx.write("in/deep/er/renamed%s" % ext, arch[name])
    elif kind == "decoy":
        d = bytearray(arch[name])
        d[rng.randrange(len(d))] ^= 0x10
        ctx.write("in/deep/decoy%s" % ext, bytes(d))
    ctx.write("in/deep/unrelated%s" % ext, arch[name] + b"x")
    ev = srrlib.subscribe()
    o = ctx.call(rescene.reconstruct, srr, src, out, sp, auto_locate_renamed=True, extract_files=False)
    verdict(ctx, r, o, ev, out, sp, kind != "moved", "auto locate " + kind)
    if kind == "moved":
        ctx.check(o.ok and not ev.has(MsgCode.CRC), "moved file not found: " + o.brief())
        ctx.check(good(ctx, r, out, sp), "reconstruction with located file differs")
        ctx.count("located_ok")
    ctx.klass("locate", kind, ext, len(arch))


def partial(ctx):
    """only one volume asked for; damage inside its data must be reported"""
    rng = ctx.rng
    r, sp, srr, src, out = setup(ctx, size=lambda g: g.randint(2000, 60000))
    vols = [(n, v) for n, v in r.expected_volumes(sp) if any(k for _, _, k in v.files)]
    if not vols:
        return
    n, v = rng.choice(vols)
    f, a, ln = rng.choice([x for x in v.files if x[2]])
    p = os.path.join(src, f.os_name)
    d = bytearray(read(p))
    hit = a + rng.randrange(ln)
    d[hit] ^= 4
    with open(p, "wb") as fh:
        fh.write(d)
    part = n
    if [m for m, _ in r.expected_volumes(sp) if m.endswith(part)] != [n]:
        return
    ev = srrlib.subscribe()
    o = ctx.call(rescene.reconstruct, srr, src, out, sp, extract_files=False, srr_part=part)
    ctx.check(not o.ok or ev.has(MsgCode.CRC), "damaged data in the single volume asked for is not reported")
    ctx.count("verdicts")
    ctx.klass("partial", v.files.index((f, a, ln)), a == 0, a + ln == len(f.data), len(v.files))


def srrdamage(ctx):
    """SRR itself is damaged in its RAR headers: same rule against the true volumes"""
    rng = ctx.rng
    r, sp, srr, src, out = setup(ctx, small=True)
    s = srrlib.parse(ctx, srr)
    blk = [b for b in s.blocks if b.type == 0x74 and b.info["pack"]]
    if not blk:
        return
    b = rng.choice(blk)
    # file CRC field of a file header
    d = bytearray(s.bytes)
    d[b.pos + 16 + rng.randrange(4)] ^= 0x40
    with open(srr, "wb") as f:
        f.write(d)
    ev = srrlib.subscribe()
    o = ctx.call(rescene.reconstruct, srr, src, out, sp, extract_files=False)
    verdict(ctx, r, o, ev, out, sp, True, "changed recorded checksum")
    ctx.klass("srrcrc", b.info["flags"] & 3, r.sets[0][1].opt["new"])


GROUPS = [
    Group("damage", damage, 700, 8000, {"failures_reported": 200}),
    Group("hints", hints, 120, 1500, {"hinted_ok": 20}),
    Group("locate", locate, 150, 1500, {"located_ok": 20}),
    Group("partial", partial, 150, 2000),
    Group("srrcrc", srrdamage, 120, 1200),
]
