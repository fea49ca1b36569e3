"""R18: verification of a release against its SRR tells good from bad."""
import os, zlib
from mon import srrlib, rargen
from mon.core import Group, files, read, tree
from mon.srrlib import rescene

PROPERTY = "R18"
RULE = ("generated releases verified with srr -q against folders of extracted files with no, one or several defects "
        "(byte flipped anywhere, cut, extended, missing, swapped, emptied, renamed, moved), with and without automatic "
        "locating. Distinct: defect kinds x locating x number of files x position")
ASSUMPTIONS = ["verification is by the recorded CRC32: other content with that CRC32 is not told apart",
               "empty archived files have nothing to verify", "located files have the extension of the archived name"]


def force_crc(data, want):
    """data + 4 bytes so that the CRC32 is want"""
    # run the register backwards over 4 bytes
    table = []
    for i in range(256):
        c = i
        for _ in range(8):
            c = (c >> 1) ^ (0xEDB88320 if c & 1 else 0)
        table.append(c)
    rev = dict((t >> 24, i) for i, t in enumerate(table))
    cur = zlib.crc32(data) ^ 0xFFFFFFFF
    tgt = want ^ 0xFFFFFFFF
    idx, t = [], tgt
    for _ in range(4):
        i = rev[t >> 24]
        idx.append(i)
        t = ((t ^ table[i]) << 8 | i) & 0xFFFFFFFF
    out, c = b"", cur
    for i in reversed(idx):
        out += bytes([(c ^ i) & 0xFF])
        c = (c >> 8) ^ table[i]
    assert zlib.crc32(data + out) == want
    return data + out


def defect(ctx, folder, names, data):
    """apply one defect; returns (kind, {name: state}) state 'bad'|'missing'|'ok'"""
    rng = ctx.rng
    n = rng.choice(names)
    p = os.path.join(folder, n)
    b = bytearray(data[n])
    kind = rng.choice(["flip", "flip", "flip", "cut", "extend", "missing", "empty", "swap"])
    if kind == "swap":
        m = rng.choice(names)
        if data[m] == data[n]:
            kind = "flip"
        else:
            with open(p, "wb") as f:
                f.write(data[m])
            with open(os.path.join(folder, m), "wb") as f:
                f.write(data[n])
            return kind, {n: "bad", m: "bad"}
    if kind == "flip":
        i = rng.choice([0, len(b) - 1, rng.randrange(len(b))])
        b[i] ^= 1 << rng.randrange(8)
    elif kind == "cut":
        b = b[:rng.choice([len(b) - 1, rng.randrange(len(b))])]
    elif kind == "extend":
        b += rng.choice([b"\0", b"x" * 100])
    elif kind == "empty":
        b = b""
    elif kind == "missing":
        os.unlink(p)
        return kind, {n: "missing"}
    with open(p, "wb") as f:
        f.write(b)
    return kind, {n: "bad"}


def run(ctx, srr, folder, locate):
    from rescene import srr as tool
    argv = [srr, "-q", "-i", folder] + (["-r"] if locate else [])
    res = srrlib.cli(ctx, tool.main, argv, cwd=ctx.mkdir("cwd"))
    ctx.check(res["died"] is None and not res["exc"], "verification: %r" % (res,))
    return res


def judge(ctx, res, state, what):
    """state: {name: ok|bad|missing}"""
    worst = [n for n in state if state[n] != "ok"]
    said = "All files OK!" in res["out"]
    if worst:
        ctx.check(res["rc"] != 0 and not said, "%s: verification passes although %s" % (
            what, [(n, state[n]) for n in worst]), info=res["out"][-500:])
        ctx.check(res["rc"] in (1, 2), "%s: exit code %r" % (what, res["rc"]))
        for n in worst:
            ctx.check("File OK: %s." % n not in res["out"], "%s: %s is called OK" % (what, n))
        ctx.count("refused")
    else:
        ctx.check(res["rc"] == 0 and said, "%s: verification of good files fails: %r" % (what, res))
        ctx.count("accepted")


def verify(ctx):
    rng = ctx.rng
    special = rng.random() < 0.12
    if special:
        fs = [rargen.AFile("zero.bin", force_crc(rng.randbytes(rng.choice([0, 5, 3000])), 0)),
              rargen.AFile("second.bin", force_crc(rng.randbytes(50), rng.choice([0, 1, 0xFFFFFFFF, 0xFF])))]
        s = rargen.make_set(rng, base="rel", files=fs, nvol_hint=rng.choice([1, 2, 3]))
        r = srrlib.Release(ctx)
        r.sets.append(("", s))
        r.sfvs.append(None)
        s.write(r.root)
    else:
        r = srrlib.release(ctx, small=True, extra=rng.choice([0, 1]), same=0.1)
    srr = srrlib.make_srr(ctx, r, True, oso=False)
    folder = ctx.mkdir("files")
    r.write_archived(folder)
    data = dict((n, b) for n, b in r.archived().items() if b)
    names = sorted(data)
    if not names:
        return
    state = dict((n, "ok") for n in names)
    kinds = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        fine = [n for n in names if state[n] == "ok"]
        if not fine:
            break
        k, ch = defect(ctx, folder, fine, data)
        if any(state[n] != "ok" for n in ch):
            kinds = None        # two defects met: state unclear
            break
        state.update(ch)
        kinds.append(k)
    if kinds is None:
        return
    # a swap may put good content under a good name: same content
    for n in names:
        p = os.path.join(folder, n)
        state[n] = "missing" if not os.path.exists(p) else "ok" if zlib.crc32(read(p)) == zlib.crc32(data[n]) else "bad"
    locate = rng.random() < 0.4
    if locate:
        # a missing file counts as found when its content exists under another name with the extension
        have = tree(folder)
        for n in names:
            if state[n] == "missing":
                ext = os.path.splitext(n)[1]
                if any(v == data[n] and k.endswith(ext) for k, v in have.items() if isinstance(v, bytes)):
                    state[n] = "ok"
    ctx.note.update(kinds=kinds, state=state, locate=locate, special=special)
    before = tree(folder)
    res = run(ctx, srr, folder, locate)
    judge(ctx, res, state, "verify")
    ctx.check(tree(folder) == before, "verification changed the files")
    ctx.equal(sorted(os.listdir(ctx.path("cwd"))), [], "verification wrote files")
    ctx.count("files_judged", len(names))
    ctx.klass(kinds, locate, min(4, len(names)), special, len(r.sets))
    ctx.sample(dict(files=names, kinds=kinds, locate=locate, rc=res["rc"]))


def renamed(ctx):
    """files under another name: only automatic locating finds them, and only by content"""
    rng = ctx.rng
    r = srrlib.release(ctx, small=True, extra=0)
    srr = srrlib.make_srr(ctx, r, True, oso=False)
    folder = ctx.mkdir("files")
    r.write_archived(folder)
    data = dict((n, b) for n, b in r.archived().items() if b)
    if not data:
        return
    n = rng.choice(sorted(data))
    ext = os.path.splitext(n)[1]
    os.unlink(os.path.join(folder, n))
    how = rng.choice(["same", "deep", "flipped", "otherext", "decoys"])
    b = data[n]
    good = False
    target = os.path.join(folder, rng.choice(["", "deep/er"]) if how == "deep" else "", "renamed thing" + ext)
    os.makedirs(os.path.dirname(target), exist_ok=True)
    if how == "flipped":
        c = bytearray(b)
        c[rng.randrange(len(c))] ^= 4
        b = bytes(c)
    elif how == "otherext":
        target = target[:len(target) - len(ext)] + ".zzz"
    elif how == "decoys":
        for i in range(3):
            c = bytearray(b)
            c[rng.randrange(len(c))] ^= 1 + i
            with open(os.path.join(folder, "%s decoy%s" % (rng.choice("az"), ext)), "wb") as f:
                f.write(c)
    with open(target, "wb") as f:
        f.write(b)
    have = [v for k, v in files(folder).items() if k.endswith(ext)]
    found = data[n] in have
    for locate in (False, True):
        res = run(ctx, srr, folder, locate)
        state = dict((x, "ok") for x in data)
        if not (locate and found):
            state[n] = "missing"
        judge(ctx, res, state, "renamed %s, locate %s" % (how, locate))
        ctx.klass("renamed", how, locate, found, bool(ext))


def music(ctx):
    """nothing to verify is said, never an OK"""
    data = srrlib.ref_srr(ctx, nstored=2, nsets=0)[0]
    srr = ctx.write("m.srr", data)
    res = run(ctx, srr, ctx.mkdir("files"), ctx.rng.random() < 0.5)
    ctx.equal(res["rc"], 10, "exit code without RAR data")
    ctx.check("All files OK" not in res["out"], "claims all files OK without any")
    ctx.count("nothing")


GROUPS = [Group("verify", verify, 420, 7000, {"refused": 150, "accepted": 80, "files_judged": 500}),
          Group("renamed", renamed, 120, 2000, {"refused": 80, "accepted": 40}),
          Group("music", music, 12, 60, {"nothing": 10})]
